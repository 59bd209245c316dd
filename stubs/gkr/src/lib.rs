use gkr_engine::{FieldEngine, GKREngine};
use std::marker::PhantomData;
macro_rules! eng { ($e:ident, $c:ident, $f:ty, $s:ty) => {
    #[derive(Default, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct $e;
    impl FieldEngine for $e { type CircuitField = $f; type ChallengeField = $f; type SimdCircuitField = $s; }
    cfgty!($c, $e);
} }
macro_rules! cfgty { ($c:ident, $e:ident) => {
    #[derive(Default, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct $c<'a>(PhantomData<&'a ()>);
    impl<'a> GKREngine for $c<'a> { type FieldConfig = $e; }
} }
eng!(M31E, M31x16ConfigSha2RawVanilla, mersenne31::M31, mersenne31::M31x16);
cfgty!(M31x16ConfigSha2OrionVanilla, M31E);
eng!(BN254E, BN254ConfigMIMC5Raw, arith::Fr, arith::Fr);
eng!(GF2E, GF2ExtConfigSha2Raw, gf2::GF2, gf2::GF2x8);
eng!(GoldE, Goldilocksx8ConfigSha2Raw, goldilocks::Goldilocks, goldilocks::Goldilocksx8);
eng!(BabyE, BabyBearx16ConfigSha2Raw, babybear::BabyBear, babybear::BabyBearx16);
