use expander_compiler::circuit::config::*;
use expander_compiler::circuit::layered::{*, Input as _, InputUsize as _};
use expander_compiler::field::FieldArith;
use rand::Rng;
use search::{gen::*, layered_oracle::*, *};
use std::collections::BTreeMap;

/// What a layer computes: for every output wire, the polynomial in the values it reads.  Constant
/// coefficients of equal terms are added up; random and public coefficients are counted.
type Layer<C> = BTreeMap<(usize, usize, Vec<(usize, usize)>), (F<C>, usize, BTreeMap<usize, usize>)>;
fn layer<C: Config, I: InputType>(c: &Circuit<C, I>, seg: usize) -> Layer<C> {
    let mut m: Layer<C> = BTreeMap::new();
    for g in flat_layer(c, seg) {
        let mut i = g.inputs.clone(); if g.kind < 3 { i.sort(); }
        let e = m.entry((g.out, g.kind, i)).or_insert_with(|| (F::<C>::zero(), 0, BTreeMap::new()));
        match g.coef { Coef::Constant(x) => e.0 = e.0 + x, Coef::Random => e.1 += 1, Coef::PublicInput(k) => *e.2.entry(k).or_insert(0) += 1 }
    }
    m.retain(|_, v| !(v.0.is_zero() && v.1 == 0 && v.2.is_empty()));
    m
}
fn same<C: Config, I: InputType>(what: &str, a: &Circuit<C, I>, b: &Circuit<C, I>) -> Case {
    structure(b).and_then(|_| defined(b)).map_err(|e| format!("{what} makes an invalid circuit: {e}: {b:?}"))?;
    ensure!(no_panic(|| b.validate())?.is_ok(), "{what}: the result is refused by validate: {b:?}");
    ensure!(a.input_size() == b.input_size(), "{what}: input size {} became {}", a.input_size(), b.input_size());
    ensure!((a.num_public_inputs, a.num_actual_outputs, a.expected_num_output_zeroes, a.layer_ids.len()) == (b.num_public_inputs, b.num_actual_outputs, b.expected_num_output_zeroes, b.layer_ids.len()), "{what}: the header of the circuit changed");
    for (k, (x, y)) in a.layer_ids.iter().zip(&b.layer_ids).enumerate() {
        let (p, q) = (layer(a, *x), layer(b, *y));
        if p != q {
            let d = p.iter().find(|(k, v)| q.get(*k) != Some(v)).map(|(k, v)| format!("{k:?}: {v:?} became {:?}", q.get(k))).or_else(|| q.iter().find(|(k, _)| !p.contains_key(*k)).map(|(k, v)| format!("{k:?}: nothing became {v:?}"))).unwrap();
            return Err(format!("{what}: layer {k} computes something else: {d}; result {b:?}"));
        }
    }
    Ok(())
}
fn case<C: Config, I: InputType>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let mut c = layered::<C, I>(r, size * 2, true);
    if r.gen_bool(0.4) { for s in &mut c.segments { for g in &mut s.gate_adds { if r.gen_bool(0.2) { g.coef = Coef::Random; } } for g in &mut s.gate_muls { if r.gen_bool(0.1) { g.coef = Coef::Random; } } for g in &mut s.gate_consts { if r.gen_bool(0.2) { g.coef = Coef::Random; } } for g in &mut s.gate_customs { if r.gen_bool(0.2) { g.coef = Coef::Random; } } } }
    if r.gen_bool(0.3) { for s in &mut c.segments { for g in &mut s.gate_adds { if r.gen_bool(0.2) { g.coef = Coef::Constant(F::<C>::zero()); } } for g in &mut s.gate_muls { if r.gen_bool(0.2) { g.coef = Coef::Constant(F::<C>::zero()); } } } }
    // a segment may be listed as a child that is placed nowhere
    if r.gen_bool(0.15) && c.segments.len() > 1 { let i = r.gen_range(1..c.segments.len()); let k = r.gen_range(0..i); if c.segments[k].num_inputs.len() <= c.segments[i].num_inputs.len() { c.segments[i].child_segs.push((k, vec![])); } }
    *log = format!("{c:?}");
    let mut d = c.clone(); no_panic(|| d.dedup_gates())?; same("merging duplicate gates", &c, &d)?;
    for s in &d.segments {
        macro_rules! twin { ($g:expr) => { for (i, g) in $g.iter().enumerate() { for h in &$g[..i] { ensure!(!(g.inputs == h.inputs && g.output == h.output && matches!(g.coef, Coef::Constant(_)) && matches!(h.coef, Coef::Constant(_))), "merging duplicate gates leaves {g:?} and {h:?}"); } } } }
        twin!(s.gate_muls); twin!(s.gate_adds); twin!(s.gate_consts);
    }
    let e = no_panic(|| c.expand_small_segments())?; same("expanding small segments", &c, &e)?;
    let f = no_panic(|| c.find_common_parts())?; same("factoring out common parts", &c, &f)?;
    let mut s = c.clone(); no_panic(|| s.sort_everything())?; same("sorting", &c, &s)?;
    let mut g = d; for _ in 0..3 { g = no_panic(|| g.expand_small_segments().find_common_parts())?; } g.sort_everything(); same("merging, expanding and factoring out", &c, &g)?;
    Ok(())
}
fn main() {
    let mut s = Search::new();
    s.part("plain-m31", 0.3, u64::MAX, case::<M31Config, NormalInputType>); s.part("plain-gf2", 0.1, u64::MAX, case::<GF2Config, NormalInputType>);
    s.part("cross-m31", 0.3, u64::MAX, case::<M31Config, CrossLayerInputType>); s.part("cross-gf2", 0.15, u64::MAX, case::<GF2Config, CrossLayerInputType>); s.part("cross-bn254", 0.15, u64::MAX, case::<BN254Config, CrossLayerInputType>);
    s.finish()
}
