//! Compiles if `Cow<[u8]>` fields can be borrowed
use std::borrow::Cow;

use instant_xml::FromXml;

#[derive(Debug, FromXml)]
#[xml(rename = "a")]
struct A<'a> {
    #[xml(borrow)]
    b: Cow<'a, [u8]>,
}

fn main() {
    println!("{:?}", instant_xml::from_str::<A>("<a><b>x</b></a>").unwrap().b);
}
