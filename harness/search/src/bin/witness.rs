use arith::{Field as _, SimdField};
use expander_compiler::circuit::config::*;
use expander_compiler::circuit::layered::{witness::*, *};
use expander_compiler::field::*;
use rand::Rng;
use search::{gen::*, *};
use serdes::ExpSerde;

type Rows<C> = Vec<(Vec<F<C>>, Vec<F<C>>)>;
fn rows<C: Config>(r: &mut StdRng, n: usize, a: usize, b: usize) -> Rows<C> { (0..n).map(|_| ((0..a).map(|_| inp::<C>(r)).collect(), (0..b).map(|_| inp::<C>(r)).collect())).collect() }
fn scalar<C: Config>(rows: &Rows<C>, a: usize, b: usize) -> Witness<C> { Witness { num_witnesses: rows.len(), num_inputs_per_witness: a, num_public_inputs_per_witness: b, values: WitnessValues::Scalar(rows.iter().flat_map(|(x, y)| x.iter().chain(y).copied().collect::<Vec<_>>()).collect()) } }
/// the packed form: word by word, lane by lane, the last assignment filling the last block
fn packed<C: Config>(rows: &Rows<C>, a: usize, b: usize) -> Witness<C> {
    let p = SIMDField::<C>::PACK_SIZE; let n = rows.len(); let mut v = vec![];
    for q in 0..(n + p - 1) / p { for t in 0..a + b { v.push(SIMDField::<C>::pack(&(0..p).map(|j| { let (x, y) = &rows[(q * p + j).min(n - 1)]; if t < a { x[t] } else { y[t - a] } }).collect::<Vec<_>>())); } }
    Witness { num_witnesses: n, num_inputs_per_witness: a, num_public_inputs_per_witness: b, values: WitnessValues::Simd(v) }
}
fn lanes<S: SimdField>(v: &[S]) -> Vec<Vec<S::Scalar>> { v.iter().map(|x| x.unpack()).collect() }
fn views<C: Config>(w: &Witness<C>, rows: &Rows<C>, what: &str) -> Case {
    let p = SIMDField::<C>::PACK_SIZE; let n = rows.len();
    let got = no_panic(|| w.iter_scalar().collect::<Vec<_>>())?;
    ensure!(got == *rows, "{what}: one by one it reads {got:?}");
    let got = no_panic(|| w.iter_simd().collect::<Vec<_>>())?;
    ensure!(got.len() == (n + p - 1) / p, "{what}: {} blocks of {p} for {n} assignments", got.len());
    for (q, (x, y)) in got.iter().enumerate() { for j in 0..p { let (ex, ey) = &rows[(q * p + j).min(n - 1)];
        let gx: Vec<_> = lanes(x).iter().map(|l| l[j]).collect(); let gy: Vec<_> = lanes(y).iter().map(|l| l[j]).collect();
        ensure!(gx == *ex && gy == *ey, "{what}: lane {j} of block {q} is {gx:?} {gy:?}"); } }
    Ok(())
}
fn packing<C: Config>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let p = SIMDField::<C>::PACK_SIZE; let n = if r.gen_bool(0.3) { p * r.gen_range(1..3) + r.gen_range(0..3) - 1 } else { r.gen_range(1..=2 + size * 2) }.max(1);
    let (a, b) = if r.gen_bool(0.1) { (0, 0) } else { (r.gen_range(0..6), r.gen_range(0..4)) };
    let rw = rows::<C>(r, n, a, b); *log = format!("{n} assignments of {a} inputs and {b} public inputs: {rw:?}");
    let (s, k) = (scalar::<C>(&rw, a, b), packed::<C>(&rw, a, b));
    views(&s, &rw, "scalar form")?; views(&k, &rw, "packed form")?;
    let mut bs = vec![]; no_panic(|| s.serialize_into(&mut bs).unwrap())?; let mut bk = vec![]; no_panic(|| k.serialize_into(&mut bk).unwrap())?;
    ensure!(bs == bk, "the two forms serialize differently");
    let d = no_panic(|| Witness::<C>::deserialize_from(&bs[..]))?.map_err(|e| format!("deserializing its own output: {e:?}"))?;
    ensure!((d.num_witnesses, d.num_inputs_per_witness, d.num_public_inputs_per_witness) == (n, a, b), "deserialized with other counts");
    views(&d, &rw, "deserialized")?;
    let mut bd = vec![]; no_panic(|| d.serialize_into(&mut bd).unwrap())?; ensure!(bd == bs, "serializing again gives other bytes");
    // a cut or foreign file is refused
    let cut = r.gen_range(0..bs.len()); ensure!(no_panic(|| Witness::<C>::deserialize_from(&bs[..cut]))?.is_err(), "the first {cut} of {} bytes are accepted", bs.len());
    let mut big = bs.clone(); let z = r.gen_range(0..3); big[8 * z + 7] = r.gen(); big[8 * z + 6] = r.gen_range(1..=255);
    if a + b > 0 { ensure!(no_panic(|| Witness::<C>::deserialize_from(&big[..]))?.is_err(), "a file of {} bytes with size {z} beyond 2^48 is accepted", big.len()); }
    let mut bad = bs.clone(); bad[24 + r.gen_range(0..32)] ^= 1 << r.gen_range(0..8); ensure!(no_panic(|| Witness::<C>::deserialize_from(&bad[..]))?.is_err(), "another modulus is accepted");
    to_simd::<C, SIMDField<C>>(&s, &rw, "scalar to_simd")?; to_simd::<C, SIMDField<C>>(&k, &rw, "packed to_simd")
}
fn to_simd<C: Config, T: SimdField<Scalar = F<C>> + 'static>(w: &Witness<C>, rows: &Rows<C>, what: &str) -> Case {
    let (x, y) = no_panic(|| w.to_simd::<T>())?; let n = rows.len();
    for j in 0..T::PACK_SIZE { let (ex, ey) = &rows[j.min(n - 1)]; let gx: Vec<_> = x.iter().map(|l| l.unpack()[j]).collect(); let gy: Vec<_> = y.iter().map(|l| l.unpack()[j]).collect(); ensure!(gx == *ex && gy == *ey, "{what} by {}: lane {j} is {gx:?} {gy:?}", T::PACK_SIZE); }
    Ok(())
}
fn running<C: Config, I: InputType>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let c = layered::<C, I>(r, size / 2, true); let a = c.segments[c.layer_ids[0]].num_inputs.to_vec()[0]; let b = c.num_public_inputs;
    let p = SIMDField::<C>::PACK_SIZE; let n = if r.gen_bool(0.3) { p + r.gen_range(0..3) } else { r.gen_range(1..=2 + size) };
    let rw = rows::<C>(r, n, a, b);
    *log = format!("{n} assignments {rw:?} of {c:?}");
    let want: Vec<(Vec<F<C>>, bool)> = rw.iter().map(|(x, y)| eval_layered(&c, x, y).unwrap()).collect();
    for (w, what) in [(scalar::<C>(&rw, a, b), "scalar form"), (packed::<C>(&rw, a, b), "packed form")] {
        let v = no_panic(|| c.run(&w))?; ensure!(v == want.iter().map(|x| x.1).collect::<Vec<_>>(), "{what}: verdicts {v:?}, one by one {:?}", want.iter().map(|x| x.1).collect::<Vec<_>>());
        let (v, o) = no_panic(|| c.run_with_output(&w))?; ensure!(v == want.iter().map(|x| x.1).collect::<Vec<_>>(), "{what}: verdicts with outputs {v:?}");
        ensure!(o == want.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "{what}: outputs {o:?}, one by one {:?}", want.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
    }
    let (x, y) = &rw[0]; let one = no_panic(|| c.eval_with_public_inputs(x.clone(), y))?; ensure!(one == want[0], "a single evaluation gives {one:?}, the gates define {:?}", want[0]);
    Ok(())
}
fn main() {
    let mut s = Search::new();
    s.part("pack-m31", 0.14, u64::MAX, packing::<M31Config>); s.part("pack-gf2", 0.14, u64::MAX, packing::<GF2Config>); s.part("pack-bn254", 0.06, u64::MAX, packing::<BN254Config>);
    s.part("pack-goldilocks", 0.06, u64::MAX, packing::<GoldilocksConfig>); s.part("pack-babybear", 0.05, u64::MAX, packing::<BabyBearConfig>);
    s.part("run-m31", 0.15, u64::MAX, running::<M31Config, NormalInputType>); s.part("run-m31-cross", 0.1, u64::MAX, running::<M31Config, CrossLayerInputType>);
    s.part("run-gf2", 0.1, u64::MAX, running::<GF2Config, NormalInputType>); s.part("run-bn254-cross", 0.1, u64::MAX, running::<BN254Config, CrossLayerInputType>);
    s.finish()
}
