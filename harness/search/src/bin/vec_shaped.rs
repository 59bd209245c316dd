use arith::{Field as _, SimdField};
use expander_compiler::field::*;
use expander_compiler::circuit::config::*;
use expander_compiler::zkcuda::vec_shaped::*;
use rand::Rng;
use search::*;

/// A nested vector, seen as an array: built and read index by index.
trait Nested<F: FieldRaw>: VecShaped<F> + Default + Clone + PartialEq + std::fmt::Debug { const DEPTH: usize; fn make(sh: &[usize], f: &mut dyn FnMut() -> F) -> Self; fn sizes(&self) -> Option<Vec<usize>>; fn walk(&self, out: &mut Vec<F>); fn wreck(&mut self, r: &mut StdRng, f: F); }
macro_rules! leaf { ($($t:ty),*) => { $(impl Nested<$t> for $t { const DEPTH: usize = 0; fn make(_: &[usize], f: &mut dyn FnMut() -> $t) -> $t { f() } fn sizes(&self) -> Option<Vec<usize>> { Some(vec![]) } fn walk(&self, out: &mut Vec<$t>) { out.push(*self) } fn wreck(&mut self, _: &mut StdRng, f: $t) { *self = f } } )* } }
leaf!(M31, BN254Fr, GF2);
impl<F: FieldRaw, V: Nested<F>> Nested<F> for Vec<V> {
    const DEPTH: usize = V::DEPTH + 1;
    fn make(sh: &[usize], f: &mut dyn FnMut() -> F) -> Self { (0..sh[0]).map(|_| V::make(&sh[1..], f)).collect() }
    /// dimensions of a rectangular array without empty dimensions
    fn sizes(&self) -> Option<Vec<usize>> { let s: Option<Vec<Vec<usize>>> = self.iter().map(|v| v.sizes()).collect(); let s = s?; let a = s.first()?.clone(); if s.iter().any(|x| *x != a) { return None; } let mut r = vec![self.len()]; r.extend(a); Some(r) }
    fn walk(&self, out: &mut Vec<F>) { for v in self { v.walk(out) } }
    fn wreck(&mut self, r: &mut StdRng, f: F) { let n = self.len(); match r.gen_range(0..4) { 0 => { self.pop(); } 1 if n > 0 => { let x = self[r.gen_range(0..n)].clone(); self.push(x) } 2 if n > 0 => { let i = r.gen_range(0..n); self.remove(i); } _ if n > 0 => { let i = r.gen_range(0..n); self[i].wreck(r, f) } _ => {} } }
}
fn rnd<F: FieldRaw>(r: &mut StdRng) -> F { F::random_unsafe(r) }
fn dims(r: &mut StdRng, d: usize, size: usize) -> Vec<usize> { let m = match d { 0 | 1 => 1 + size, 2 => 2 + size / 4, _ => 2 + size / 10 }; (0..d).map(|_| r.gen_range(1..=m)).collect() }
fn rect<F: FieldRaw, V: Nested<F>>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let sh = dims(r, V::DEPTH, size);
    let mut v = { let mut g = || rnd::<F>(r); V::make(&sh, &mut g) };
    if r.gen_bool(0.3) { for _ in 0..r.gen_range(1..4) { let x = rnd(r); v.wreck(r, x); } }
    *log = format!("depth {} of {:?}: {v:?}", V::DEPTH, v.sizes());
    match v.sizes() {
        Some(sh) => {
            let (f, s) = no_panic(|| flatten_shaped::<F, V>(&v))?;
            let mut w = vec![]; v.walk(&mut w);
            ensure!(f == w, "flattened to {f:?}, row-major order is {w:?}");
            ensure!(s == sh, "shape {s:?}, should be {sh:?}");
            let b = no_panic(|| unflatten_shaped::<F, V>(&f, &s))?;
            ensure!(b == v, "the round trip gives {b:?}");
        }
        None => ensure!(panics(|| flatten_shaped::<F, V>(&v)), "flattened though it has no shape"),
    }
    Ok(())
}
fn data<F: FieldRaw, V: Nested<F>>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let dd = if r.gen_bool(0.8) { V::DEPTH } else { r.gen_range(0..5) }; let mut sh = dims(r, dd, size);
    let n: usize = sh.iter().product();
    let n = if r.gen_bool(0.6) { n } else { (n + r.gen_range(0..4)).saturating_sub(r.gen_range(0..4)) };
    if r.gen_bool(0.2) && !sh.is_empty() { let i = r.gen_range(0..sh.len()); sh[i] = r.gen_range(1..4); }
    let d: Vec<F> = (0..n).map(|_| rnd(r)).collect();
    *log = format!("{n} scalars into {sh:?}, depth {}", V::DEPTH);
    let good = sh.len() == V::DEPTH && sh.iter().product::<usize>() == n;
    if !good { ensure!(panics(|| unflatten_shaped::<F, V>(&d, &sh)), "accepted though the data does not fit the shape"); return Ok(()); }
    let v = no_panic(|| unflatten_shaped::<F, V>(&d, &sh))?;
    ensure!(v.sizes() == Some(sh.clone()), "unflattened to sizes {:?}", v.sizes());
    let mut w = vec![]; v.walk(&mut w); ensure!(w == d, "unflattened to {v:?} from {d:?}");
    Ok(())
}
fn simd<S: SimdField, V: Nested<S::Scalar>>(r: &mut StdRng, size: usize, log: &mut String) -> Case where S::Scalar: FieldRaw {
    let p = S::PACK_SIZE; let mut sh = dims(r, V::DEPTH, size); sh[0] = if r.gen_bool(0.9) { p } else { r.gen_range(1..20) };
    let mut v = { let mut g = || rnd::<S::Scalar>(r); V::make(&sh, &mut g) };
    if r.gen_bool(0.1) { let x = rnd(r); v.wreck(r, x); }
    *log = format!("packed by {p}, sizes {:?}: {v:?}", v.sizes());
    let s = match v.sizes() { Some(s) if s[0] == p => s, _ => { ensure!(panics(|| flatten_shaped_pack_simd::<S::Scalar, V, S>(&v)), "packed though the outer dimension is not {p}"); return Ok(()); } };
    let (f, t) = no_panic(|| flatten_shaped_pack_simd::<S::Scalar, V, S>(&v))?;
    ensure!(t == s[1..], "shape {t:?}");
    let mut w = vec![]; v.walk(&mut w); let n: usize = s[1..].iter().product();
    ensure!(f.len() == n, "{} words instead of {n}", f.len());
    for i in 0..n { let l = f[i].unpack(); for j in 0..p { ensure!(l[j] == w[j * n + i], "lane {j} of word {i} is {:?}, block {j} has {:?} there", l[j], w[j * n + i]); } }
    let b = no_panic(|| unflatten_shaped_unpack_simd::<S::Scalar, V, S>(&f, &t))?;
    ensure!(b == v, "the round trip gives {b:?}");
    if n > 1 { let k = if r.gen() { n - 1 } else { n / 2 }; ensure!(panics(|| unflatten_shaped_unpack_simd::<S::Scalar, V, S>(&f[..k], &t)), "unpacked {k} words into {t:?}"); }
    Ok(())
}
fn main() {
    let mut s = Search::new();
    type M = CircuitField<M31Config>; type B = CircuitField<BN254Config>; type G = CircuitField<GF2Config>;
    macro_rules! all { ($n:literal, $f:ty) => {
        s.part(concat!($n, "0"), 0.02, 3000, rect::<$f, $f>); s.part(concat!($n, "1"), 0.04, 30_000, rect::<$f, Vec<$f>>); s.part(concat!($n, "2"), 0.06, 30_000, rect::<$f, Vec<Vec<$f>>>); s.part(concat!($n, "3"), 0.06, 30_000, rect::<$f, Vec<Vec<Vec<$f>>>>);
        s.part(concat!($n, "d0"), 0.02, 3000, data::<$f, $f>); s.part(concat!($n, "d1"), 0.04, 30_000, data::<$f, Vec<$f>>); s.part(concat!($n, "d2"), 0.06, 30_000, data::<$f, Vec<Vec<$f>>>); s.part(concat!($n, "d3"), 0.06, 30_000, data::<$f, Vec<Vec<Vec<$f>>>>);
    } }
    all!("m31-", M); all!("bn254-", B);
    macro_rules! sd { ($n:literal, $c:ty, $f:ty) => { s.part(concat!($n, "s1"), 0.02, 5000, simd::<SIMDField<$c>, Vec<$f>>); s.part(concat!($n, "s2"), 0.04, 20_000, simd::<SIMDField<$c>, Vec<Vec<$f>>>); s.part(concat!($n, "s3"), 0.04, 20_000, simd::<SIMDField<$c>, Vec<Vec<Vec<$f>>>>); } }
    sd!("m31-", M31Config, M); sd!("gf2-", GF2Config, G); sd!("bn254-", BN254Config, B);
    s.finish()
}
