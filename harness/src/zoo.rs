//! The body of a binary around one generated zoo of types.

/// `zoo_main!(file)`: the file is written by `gen/zoo.py`
#[macro_export]
macro_rules! zoo_main {
    ($file:expr) => {
        pub mod consts {
            pub use harness::consts::*;
        }

        #[allow(unused_imports, dead_code, unused_variables, non_snake_case)]
        mod generated {
            use std::borrow::{self as paths, Cow};

            use harness::infoset::{About, Card, Elem, Kid, Kind};
            use harness::model::{forward, kid, labelled, one_of, reslot, scalar, transparent, Field, Gen, Model, Root};
            use harness::root;

            include!($file);
        }

        #[global_allocator]
        static ALLOC: harness::safety::Balanced = harness::safety::Balanced;

        fn main() {
            harness::zooprops::set_roots(generated::roots());
            let args = harness::runner::args();
            let mut campaigns = harness::zooprops::campaigns(&args.prop);
            campaigns.extend(harness::zoomore::campaigns(&args.prop));
            campaigns.extend(harness::errors::campaigns(&args.prop));
            campaigns.extend(harness::safety::zoo_campaigns(&args.prop));
            harness::runner::finish(&args, &campaigns);
        }
    };
}
