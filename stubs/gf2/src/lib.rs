arith::prime_field!(GF2, 2, 1, u8, "GF2"); arith::simd_field!(GF2x8, GF2, 8, "GF2x8");
