#![recursion_limit = "512"]
#![allow(clippy::all)]
harness::zoo_main!(concat!(env!("ZOO_DIR"), "/3.rs"));
