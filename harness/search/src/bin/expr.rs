use expander_compiler::circuit::ir::expr::*;
use expander_compiler::circuit::config::*;
use expander_compiler::field::FieldArith;
use rand::seq::SliceRandom;
use rand::Rng;
use search::*;
use std::collections::BTreeMap;
type F<C> = CircuitField<C>;
fn coef<C: Config>(r: &mut StdRng) -> F<C> { match r.gen_range(0..6) { 0 => F::<C>::zero(), 1 => F::<C>::one(), 2 => -F::<C>::one(), 3 => F::<C>::from(r.gen_range(0..4u32)), _ => F::<C>::random_unsafe(&mut *r) } }
fn vars(r: &mut StdRng, nv: usize) -> VarSpec {
    let v = |r: &mut StdRng| r.gen_range(1..=nv);
    match r.gen_range(0..8) { 0 => VarSpec::Const, 1 | 2 | 3 => VarSpec::Linear(v(r)), 4 | 5 | 6 => VarSpec::Quad(v(r), v(r)), _ => { let k = r.gen_range(0..3); VarSpec::Custom { gate_type: r.gen_range(0..3), inputs: (0..k).map(|_| v(r)).collect() } } }
}
fn nrm(v: &VarSpec) -> VarSpec { match v { VarSpec::Quad(a, b) => VarSpec::Quad(*a.max(b), *a.min(b)), x => x.clone() } }
/// the polynomial: monomial -> non-zero coefficient
fn poly<C: Config>(t: &[Term<C>]) -> BTreeMap<VarSpec, F<C>> {
    let mut m: BTreeMap<VarSpec, F<C>> = BTreeMap::new();
    for x in t { let e = m.entry(nrm(&x.vars)).or_insert(F::<C>::zero()); *e = *e + x.coef; }
    m.retain(|_, c| *c != F::<C>::zero()); m
}
fn canonical<C: Config>(e: &Expression<C>) -> Case {
    ensure!(!e.is_empty(), "no terms");
    for w in e.windows(2) { ensure!(w[0].vars < w[1].vars, "terms not strictly sorted: {e}"); }
    for t in e.iter() { ensure!(nrm(&t.vars) == t.vars, "monomial not normalized: {e:?}"); if e.len() > 1 || t.vars != VarSpec::Const { ensure!(!t.coef.is_zero(), "zero coefficient: {e:?}"); } }
    Ok(())
}
fn go<C: Config>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let nv = r.gen_range(1..=4);
    let mut terms: Vec<Term<C>> = vec![];
    for _ in 0..r.gen_range(0..=size.min(14)) {
        if !terms.is_empty() && r.gen_range(0..4) == 0 { let mut t: Term<C> = terms.choose(r).unwrap().clone(); if r.gen() { t.coef = -t.coef; } if let VarSpec::Quad(a, b) = t.vars { t.vars = VarSpec::Quad(b, a); } terms.push(t); continue; }
        let v = vars(r, nv); let c = coef::<C>(r);
        terms.push(match (&v, r.gen_range(0..3)) { (VarSpec::Const, 0) => Term::new_const(c), (VarSpec::Linear(x), 0) => Term::new_linear(c, *x), (VarSpec::Quad(x, y), 0) => Term::new_quad(c, *x, *y), _ => Term { coef: c, vars: v } });
    }
    log.push_str(&format!("{terms:?}"));
    let want = poly::<C>(&terms);
    let e = no_panic(|| Expression::<C>::from_terms(terms.clone()))?;
    ensure!(poly::<C>(&e) == want, "from_terms changed the polynomial: {e:?}");
    canonical(&e)?;
    let mut p = terms.clone(); p.shuffle(r);
    ensure!(Expression::<C>::from_terms(p) == e, "the order of the terms matters");
    ensure!(no_panic(|| Expression::<C>::from_terms_sorted(e.clone().to_terms()))? == e, "from_terms_sorted changed the terms");
    let k = coef::<C>(r);
    let m = no_panic(|| e.mul_constant(k))?;
    let mut wm = want.clone(); for c in wm.values_mut() { *c = *c * k; } wm.retain(|_, c| !c.is_zero());
    ensure!(poly::<C>(&m) == wm, "mul_constant({k:?}) of {e:?} gives {m:?}");
    canonical(&m)?;
    // renaming, also non-injective
    let ren: Vec<usize> = (0..=nv).map(|_| r.gen_range(1..=nv)).collect();
    let rn = e.replace_vars(|x| ren[x]);
    let rt: Vec<Term<C>> = e.iter().map(|t| Term { coef: t.coef, vars: match &t.vars { VarSpec::Const => VarSpec::Const, VarSpec::Linear(x) => VarSpec::Linear(ren[*x]), VarSpec::Quad(x, y) => VarSpec::Quad(ren[*x], ren[*y]), VarSpec::Custom { gate_type, inputs } => VarSpec::Custom { gate_type: *gate_type, inputs: inputs.iter().map(|x| ren[*x]).collect() }, VarSpec::RandomLinear(x) => VarSpec::RandomLinear(ren[*x]) } }).collect();
    ensure!(poly::<C>(&rn) == poly::<C>(&rt), "replace_vars({ren:?}) of {e:?} gives {rn:?}");
    // degrees, variables, constants
    let deg = |v: &VarSpec| match v { VarSpec::Const => 0, VarSpec::Linear(_) => 1, _ => 2 };
    let wd = want.keys().map(deg).max().unwrap_or(0);
    ensure!(no_panic(|| e.degree())? == wd, "degree {} of {e:?}", e.degree());
    let mut cnt = [0; 3]; for t in e.iter() { cnt[deg(&t.vars)] += 1; }
    ensure!(e.count_of_degrees() == cnt, "count_of_degrees of {e:?}");
    let gv: Vec<usize> = e.get_vars();
    let mut wv = vec![]; for t in e.iter() { match &t.vars { VarSpec::Const => {} VarSpec::Linear(x) | VarSpec::RandomLinear(x) => wv.push(*x), VarSpec::Quad(x, y) => { wv.push(*x); wv.push(*y) } VarSpec::Custom { inputs, .. } => wv.extend(inputs) } }
    let (mut a, mut b) = (gv.clone(), wv); a.sort(); b.sort();
    ensure!(a == b, "get_vars of {e:?} is {gv:?}");
    let wc = if want.is_empty() { Some(F::<C>::zero()) } else if want.len() == 1 { want.get(&VarSpec::Const).cloned() } else { None };
    ensure!(e.constant_value() == wc, "constant_value of {e:?} is {:?}", e.constant_value());
    // products of linear terms
    let (x, y) = (Term::<C>::new_linear(coef::<C>(r), r.gen_range(1..=nv)), Term::<C>::new_linear(coef::<C>(r), r.gen_range(1..=nv)));
    let c = Term::<C>::new_const(coef::<C>(r));
    let pr = x.mul(&y);
    if let (VarSpec::Linear(i), VarSpec::Linear(j)) = (&x.vars, &y.vars) { ensure!(poly::<C>(&[pr.clone()]) == poly::<C>(&[Term { coef: x.coef * y.coef, vars: VarSpec::Quad(*i, *j) }]), "{x:?} * {y:?} = {pr:?}"); }
    for t in terms.iter() { for q in [c.mul(t), t.mul(&c)] { ensure!(q.coef == c.coef * t.coef && q.vars == t.vars, "{c:?} * {t:?} = {q:?}"); } }
    // linear combinations
    let vals: Vec<F<C>> = (0..=nv).map(|_| coef::<C>(r)).collect();
    let l = LinComb::<C> { terms: (0..r.gen_range(0..6)).map(|_| LinCombTerm { var: r.gen_range(0..=nv), coef: coef::<C>(r) }).collect(), constant: coef::<C>(r) };
    let mut w = l.constant; for t in &l.terms { w = w + t.coef * vals[t.var]; }
    log.push_str(&format!(" lin {l:?} at {vals:?}"));
    ensure!(l.eval(&vals) == w, "LinComb::eval = {:?}, should be {w:?}", l.eval(&vals));
    let packed: Vec<F<C>> = vals.clone(); let _ = packed;
    let rl = l.replace_vars(|x| (x + 1) % (nv + 1));
    let rot: Vec<F<C>> = (0..=nv).map(|i| vals[(i + nv) % (nv + 1)]).collect();
    ensure!(rl.eval(&rot) == w && rl.get_vars() == l.terms.iter().map(|t| (t.var + 1) % (nv + 1)).collect::<Vec<_>>(), "LinComb::replace_vars");
    let (i, k, b) = (r.gen_range(1..=nv), coef::<C>(r), coef::<C>(r));
    ensure!(LinComb::<C>::from_kx_plus_b(i, k, b).eval(&vals) == k * vals[i] + b, "from_kx_plus_b({i}, {k:?}, {b:?})");
    ensure!(LinComb::<C>::from_kx_plus_b(0, k, b).eval(&vals) == b, "from_kx_plus_b(0, ..) is not the constant");
    Ok(())
}
fn simd<C: Config, T: arith::SimdField<Scalar = F<C>>>(r: &mut StdRng, _s: usize, log: &mut String) -> Case {
    let nv = r.gen_range(1..5); let w = T::PACK_SIZE;
    let vals: Vec<Vec<F<C>>> = (0..nv).map(|_| (0..w).map(|_| coef::<C>(r)).collect()).collect();
    let l = LinComb::<C> { terms: (0..r.gen_range(0..6)).map(|_| LinCombTerm { var: r.gen_range(0..nv), coef: coef::<C>(r) }).collect(), constant: coef::<C>(r) };
    log.push_str(&format!("{l:?} {vals:?}"));
    let p: Vec<T> = vals.iter().map(|x| T::pack(x)).collect();
    let got = l.eval_simd::<T>(&p).unpack();
    for i in 0..w { let col: Vec<F<C>> = vals.iter().map(|v| v[i]).collect(); ensure!(got[i] == l.eval(&col), "lane {i} of eval_simd differs from eval"); }
    Ok(())
}
fn main() {
    let mut s = Search::new();
    s.part("m31", 0.3, 60_000, go::<M31Config>);
    s.part("gf2", 0.2, 60_000, go::<GF2Config>);
    s.part("bn254", 0.15, 30_000, go::<BN254Config>);
    s.part("goldilocks", 0.1, 30_000, go::<GoldilocksConfig>);
    s.part("babybear", 0.1, 30_000, go::<BabyBearConfig>);
    s.part("simd_m31", 0.1, 20_000, simd::<M31Config, SIMDField<M31Config>>);
    s.part("simd_gf2", 0.05, 20_000, simd::<GF2Config, SIMDField<GF2Config>>);
    s.finish()
}
