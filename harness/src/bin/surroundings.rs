//! Derives in other places than the usual ones: in macros, by path, among types and traits whose
//! names are those of the library's. Only C18 needs this to compile.

use std::fmt::Debug;

use harness::refxml;
use harness::runner::{args, finish, Campaign, CaseFn, Cx};
use instant_xml::{from_str, to_string, ToXml};

type Out = Result<(), String>;

/// Definitions made by a macro, whose arguments come in invisible groups
mod by_example {
    use std::borrow::Cow;

    use instant_xml::{FromXml, ToXml};

    const Q: &str = "urn:q";

    macro_rules! define {
        ($name:literal, $ns:literal, $other:path, $rename:literal, $ty:ty, $cow:ty, $one:literal, $two:expr) => {
            #[derive(Clone, Copy, Debug, PartialEq, ToXml, FromXml)]
            #[xml(scalar, ns($ns))]
            pub enum Kind {
                One = $one,
                Two = $two,
            }

            #[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
            #[xml(rename = $name, ns($ns, q = $other))]
            pub struct Made<'a> {
                #[xml(attribute, ns(Q))]
                pub at: u8,
                #[xml(rename = $rename)]
                pub made: $ty,
                #[xml(borrow, ns($other))]
                pub cow: $cow,
            }
        };
    }

    define!("made", "urn:m", self::Q, "renamed", Vec<Kind>, Cow<'a, str>, 1, 2);
}

macro_rules! all_kinds {
    () => {
        #[derive(Debug, PartialEq, ::instant_xml::ToXml, ::instant_xml::FromXml)]
        pub struct All {
            #[xml(attribute)]
            pub at: Option<u8>,
            pub texts: Vec<String>,
            pub pair: Pair,
            pub forward: Forward,
            pub inline: Inline,
            pub unit: Unit,
            #[xml(direct)]
            pub direct: Scalar,
        }

        #[derive(Debug, PartialEq, ::instant_xml::ToXml, ::instant_xml::FromXml)]
        pub struct Pair(pub Unit, pub Option<u8>);

        #[derive(Debug, PartialEq, ::instant_xml::ToXml, ::instant_xml::FromXml)]
        #[xml(forward)]
        pub enum Forward {
            One(One),
        }

        #[derive(Debug, PartialEq, ::instant_xml::ToXml, ::instant_xml::FromXml)]
        pub struct One(pub Box<Unit>);

        #[derive(Debug, PartialEq, ::instant_xml::ToXml, ::instant_xml::FromXml)]
        #[xml(transparent)]
        pub struct Inline {
            pub inlined: char,
        }

        #[derive(Debug, PartialEq, ::instant_xml::ToXml, ::instant_xml::FromXml)]
        pub struct Unit;

        #[derive(Debug, PartialEq, ::instant_xml::ToXml, ::instant_xml::FromXml)]
        #[xml(scalar)]
        pub enum Scalar {
            A,
        }

        pub fn sample() -> All {
            All {
                at: Some(1),
                texts: vec!["t".into()],
                pair: Pair(Unit, Some(2)),
                forward: Forward::One(One(Box::new(Unit))),
                inline: Inline { inlined: 'c' },
                unit: Unit,
                direct: Scalar::A,
            }
        }
    };
}

const BY_PATH: &str = "<All at='1'><texts>t</texts><Pair><Unit/>2</Pair><One><Unit/></One><inlined>c</inlined><Unit/>A</All>";

/// Without the library's traits in scope
mod by_path {
    all_kinds!();
}

/// Types named like what derived code makes use of
mod library_names {
    use instant_xml::{FromXml, ToXml};

    #[derive(Debug, PartialEq, ToXml, FromXml)]
    pub struct Node {
        #[xml(attribute)]
        pub at: Kind,
        pub id: Id,
        pub error: Error,
        pub inline: Accumulate,
        pub default: Default,
        pub option: Option,
        pub results: Vec<Result>,
        #[xml(direct)]
        pub text: Kind,
    }

    #[derive(Debug, PartialEq, ToXml, FromXml)]
    #[xml(scalar)]
    pub enum Kind {
        Scalar,
        Element,
    }

    #[derive(Debug, PartialEq, ToXml, FromXml)]
    pub struct Id(pub Default, pub Kind);

    #[derive(Debug, PartialEq, ToXml, FromXml)]
    #[xml(forward)]
    pub enum Error {
        Result(Result),
        Serializer(Serializer),
    }

    #[derive(Debug, PartialEq, ToXml, FromXml)]
    #[xml(transparent)]
    pub struct Accumulate {
        pub kind: Kind,
        pub deserializer: Box<Deserializer>,
    }

    #[derive(Debug, PartialEq, ToXml, FromXml)]
    pub struct Default;

    #[derive(Debug, PartialEq, ToXml, FromXml)]
    pub struct Option {
        pub u: u8,
    }

    #[derive(Debug, PartialEq, ToXml, FromXml)]
    pub struct Result(pub u8);

    #[derive(Debug, PartialEq, ToXml, FromXml)]
    pub struct Serializer;

    #[derive(Debug, PartialEq, ToXml, FromXml)]
    pub struct Deserializer {
        pub string: String,
    }

    #[derive(Debug, PartialEq, ToXml, FromXml)]
    pub struct String;

    pub fn sample() -> Node {
        Node {
            at: Kind::Scalar,
            id: Id(Default, Kind::Element),
            error: Error::Result(Result(1)),
            inline: Accumulate { kind: Kind::Scalar, deserializer: Box::new(Deserializer { string: String }) },
            default: Default,
            option: Option { u: 2 },
            results: vec![],
            text: Kind::Element,
        }
    }
}

const LIBRARY_NAMES: &str = "<Node at='Scalar'><Id><Default/>Element</Id><Result>1</Result><kind>Scalar</kind>\
    <Deserializer><String/></Deserializer><Default/><Option><u>2</u></Option>Element</Node>";

/// With other traits in scope whose methods are called the same
mod other_traits {
    #[allow(unused_imports)]
    use instant_xml::{FromXml, ToXml};

    all_kinds!();

    #[allow(dead_code)]
    trait Serialize {
        fn serialize(&self, _: Option<u8>, _: u8) -> Result<(), ()> {
            Ok(())
        }
        fn present(&self) -> u8 {
            0
        }
        fn matches(_: u8, _: u8) -> u8 {
            0
        }
        fn deserialize(_: u8) -> u8 {
            0
        }
    }

    impl<T: ?Sized> Serialize for T {}
}

fn given(cx: &mut Cx, xml: &str) {
    cx.input = xml.to_owned();
    cx.distinct(xml.as_bytes());
    cx.saw("directed cases");
    let xml = xml.to_owned();
    cx.sample(|| xml);
}

macro_rules! reads {
    ($cx:expr, $xml:expr, $t:ty, $want:expr) => {{
        given($cx, $xml);
        match from_str::<$t>($xml) {
            Ok(v) if v == $want => Ok(()),
            got => Err(format!("{} is read as {got:?}, not {:?}", $xml, $want)),
        }
    }};
}

fn writes<T: ToXml + Debug>(cx: &mut Cx, value: &T, want: &str) -> Out {
    given(cx, want);
    let want_doc = refxml::parse(want).unwrap_or_else(|e| panic!("{e:?}: {want}"));
    let got = to_string(value).map_err(|e| format!("{value:?} is not written: {e}"))?;
    match refxml::parse(&got) {
        Ok(d) if d.root.canon() == want_doc.root.canon() => Ok(()),
        Ok(_) => Err(format!("{value:?} is written as {got}, not {want}")),
        Err(e) => Err(format!("{value:?} is written as {got}: {e:?}")),
    }
}

macro_rules! round {
    ($cx:expr, $v:expr, $t:ty) => {{
        let v: $t = $v;
        let xml = to_string(&v).map_err(|e| format!("{v:?} is not written: {e}"))?;
        reads!($cx, &xml, $t, v)
    }};
}

fn all(results: impl IntoIterator<Item = Out>) -> Out {
    results.into_iter().collect()
}

fn cases() -> Vec<(&'static str, &'static str, CaseFn)> {
    vec![
        ("C18", "surroundings/macro-by-example", |cx| {
            let value = by_example::Made { at: 1, made: vec![by_example::Kind::Two, by_example::Kind::One], cow: "x".into() };
            let text = "<p:made xmlns:p='urn:m' xmlns:q='urn:q' q:at='1'><p:renamed>2</p:renamed><p:renamed>1</p:renamed><q:cow>x</q:cow></p:made>";
            all([writes(cx, &value, text), reads!(cx, text, by_example::Made<'_>, value.clone())])
        }),
        ("C18", "surroundings/derived-by-path", |cx| {
            let value = by_path::sample();
            all([round!(cx, value, by_path::All), writes(cx, &by_path::sample(), BY_PATH)])
        }),
        ("C18", "surroundings/other-traits", |cx| {
            let value = other_traits::sample();
            all([round!(cx, value, other_traits::All), writes(cx, &other_traits::sample(), BY_PATH)])
        }),
        ("C18", "surroundings/names-of-the-library", |cx| {
            let value = library_names::sample();
            all([round!(cx, value, library_names::Node), writes(cx, &library_names::sample(), LIBRARY_NAMES)])
        }),
    ]
}

fn main() {
    let args = args();
    let campaigns: Vec<_> = cases().into_iter().filter(|c| c.0 == args.prop).map(|(_, name, run)| Campaign::new(name, 1, 1, run)).collect();
    finish(&args, &campaigns);
}
