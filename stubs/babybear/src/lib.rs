arith::prime_field!(BabyBear, 2013265921, 32, u32, "BabyBear"); arith::simd_field!(BabyBearx16, BabyBear, 16, "BabyBearx16");
