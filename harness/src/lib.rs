pub mod consts;
pub mod dict;
pub mod errors;
pub mod extra;
pub mod hooks;
pub mod infoset;
pub mod large;
pub mod meter;
pub mod model;
pub mod mutate;
pub mod pull;
pub mod refxml;
pub mod render;
pub mod rng;
pub mod runner;
pub mod safety;
pub mod serapi;
pub mod text;
pub mod trees;
pub mod zoo;
pub mod zoomore;
pub mod zooprops;
