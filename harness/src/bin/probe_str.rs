//! Compiles if `&str` fields can be read, as the documentation of `borrow` says
use instant_xml::FromXml;

#[derive(Debug, FromXml)]
#[xml(rename = "a")]
struct A<'a> {
    b: &'a str,
}

fn main() {
    println!("{:?}", instant_xml::from_str::<A>("<a><b>x</b></a>").unwrap().b);
}
