//! Framework of the property-based checks: case runner, codec, element types
//! (exact rings used as oracles' domains), generators and float comparison.
#![allow(clippy::all)]
pub mod calls;
pub mod de;
pub mod dynx;
pub mod fl;
pub mod gen;
pub mod poly;
pub mod prog;
pub mod rings;
pub mod run;
pub mod scalars;
pub mod wire;
pub use run::{big_stack, catch, Check, Ctx, Res};
pub use wire::Wire;
pub mod prelude {
    pub use crate::de::*;
    pub use crate::dynx::*;
    pub use crate::fl::*;
    pub use crate::gen::*;
    pub use crate::rings::*;
    pub use crate::run::{big_stack, catch, Check, Ctx, Res};
    pub use crate::wire::Wire;
    pub use crate::{ensure, ensure_eq};
    pub use magnesia::algebra::{Complex, Conj, DivRefs, Field, MulRefs, One, Polynomial, Ring, Zero};
    pub use magnesia::linalg::*;
    pub use proptest::prelude::{any, prop_oneof, Just, Strategy};
    pub use proptest::strategy::BoxedStrategy;
    pub use proptest::collection::vec;
}
