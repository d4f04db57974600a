//! Definitions in a crate that wants everything documented.
#![deny(missing_docs)]

use instant_xml::{FromXml, ToXml};

/// Holds an inlined struct
#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
pub struct Outer {
    /// The inlined struct
    pub inner: Inner,
    /// An element
    pub pair: Pair,
}

/// The inlined struct
#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(transparent)]
pub struct Inner {
    /// Its field
    pub k: u8,
}

/// A tuple struct
#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
pub struct Pair(
    /// Its field
    pub u8,
);
