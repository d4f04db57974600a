//! Namespaces of generated types, for paths that start with `::`

pub const URI0: &str = "urn:a";
pub const URI1: &str = "http://b.example/ns?x=1;y";
pub const URI2: &str = "urn:c:x";
pub const URI3: &str = "HTTP://d.example/D'";
pub const XML: &str = "http://www.w3.org/XML/1998/namespace";

pub mod r#mod {
    pub use super::*;
}
