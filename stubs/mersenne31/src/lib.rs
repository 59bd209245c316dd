arith::prime_field!(M31, 2147483647, 32, u32, "Mersenne 31"); arith::simd_field!(M31x16, M31, 16, "M31x16");
