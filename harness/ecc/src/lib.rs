// Same crate attributes as /repo/expander_compiler/src/lib.rs.
#![feature(min_specialization)]
#![allow(clippy::manual_div_ceil)]
#[path = "/repo/expander_compiler/src/builder/mod.rs"]
pub mod builder;
#[path = "/repo/expander_compiler/src/circuit/mod.rs"]
pub mod circuit;
#[path = "/repo/expander_compiler/src/compile/mod.rs"]
pub mod compile;
#[path = "/repo/expander_compiler/src/field.rs"]
pub mod field;
#[path = "/repo/expander_compiler/src/frontend/mod.rs"]
pub mod frontend;
#[path = "/repo/expander_compiler/src/hints/mod.rs"]
pub mod hints;
#[path = "/repo/expander_compiler/src/layering/mod.rs"]
pub mod layering;
#[path = "/repo/expander_compiler/src/utils/mod.rs"]
pub mod utils;
pub mod zkcuda {
    #[path = "/repo/expander_compiler/src/zkcuda/context.rs"]
    pub mod context;
    #[path = "/repo/expander_compiler/src/zkcuda/kernel.rs"]
    pub mod kernel;
    #[path = "/repo/expander_compiler/src/zkcuda/shape.rs"]
    pub mod shape;
    #[path = "/repo/expander_compiler/src/zkcuda/vec_shaped.rs"]
    pub mod vec_shaped;
    pub mod proving_system {
        #![allow(clippy::type_complexity)]
        #[path = "/repo/expander_compiler/src/zkcuda/proving_system/traits.rs"]
        mod traits;
        pub use traits::*;
        #[path = "/repo/expander_compiler/src/zkcuda/proving_system/common.rs"]
        mod common;
        pub use common::*;
        #[path = "/repo/expander_compiler/src/zkcuda/proving_system/dummy.rs"]
        mod dummy;
        pub use dummy::*;
    }
}
