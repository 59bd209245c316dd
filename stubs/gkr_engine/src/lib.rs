//! Stand-in: only the associated types the compiler uses.
use arith::{Field, SimdField};
use std::fmt::Debug;
pub trait FieldEngine: Default + Debug + Clone + Copy + PartialEq + Eq + PartialOrd + Ord + std::hash::Hash + Send + Sync + 'static {
    type CircuitField: Field;
    type ChallengeField: Field;
    type SimdCircuitField: SimdField<Scalar = Self::CircuitField>;
}
pub trait GKREngine: Send + Sync { type FieldConfig: FieldEngine; }
