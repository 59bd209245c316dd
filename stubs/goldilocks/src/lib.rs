arith::prime_field!(Goldilocks, 0xffffffff00000001, 64, u64, "Goldilocks"); arith::simd_field!(Goldilocksx8, Goldilocks, 8, "Goldilocksx8");
