use expander_compiler::circuit::config::*;
use expander_compiler::circuit::input_mapping::InputMapping;
use expander_compiler::circuit::ir::common::{Constraint as _, Instruction as _, IrConfig, RootCircuit};
use expander_compiler::circuit::ir::{dest, hint_less, hint_normalized, source};
use rand::Rng;
use search::{gen::*, *};
use std::collections::HashSet;

fn gen<I: GenIr>(r: &mut StdRng, size: usize, distinct: bool, hints: bool) -> RootCircuit<I> {
    let mut o = Opts::default(); o.easy = r.gen_bool(0.6); o.hints = hints && r.gen_bool(0.5); o.unconstrained = r.gen_bool(0.5); o.zero_inputs = r.gen_bool(0.3);
    loop {
        let mut t = root::<I>(r, size, &o);
        if I::ALLOW_DUPLICATE_OUTPUTS && r.gen_bool(0.5) { for c in t.circuits.values_mut() { if !c.outputs.is_empty() && r.gen_bool(0.4) { let k = r.gen_range(0..c.outputs.len()); let o = c.outputs[k]; let j = r.gen_range(0..c.outputs.len()); c.outputs[j] = o; } } }
        if distinct && t.circuits.values().any(|c| { let s: HashSet<_> = c.outputs.iter().collect(); s.len() != c.outputs.len() }) { continue; }
        if t.validate().is_ok() { return t; }
    }
}
/// `b` computes what `a` computes; `map` says which inputs are left
fn same<A: GenIr, B: GenIr<Config = A::Config>>(what: &str, r: &mut StdRng, a: &RootCircuit<A>, b: &RootCircuit<B>, map: Option<&InputMapping>) -> Case {
    ensure!(b.validate().is_ok(), "{what}: the result is not valid: {:?}; result {b:?}", b.validate());
    ensure!(a.num_public_inputs == b.num_public_inputs, "{what}: public inputs");
    let n = a.circuits[&0].num_inputs;
    if let Some(m) = map { ensure!(m.cur_size() == n && m.next_size() == b.circuits[&0].num_inputs, "{what}: the input map goes from {} to {}, the circuits from {n} to {}", m.cur_size(), m.next_size(), b.circuits[&0].num_inputs); }
    else { ensure!(n == b.circuits[&0].num_inputs, "{what}: inputs"); }
    for _ in 0..3 {
        let ins: Vec<F<A::Config>> = (0..n).map(|_| inp::<A::Config>(r)).collect(); let pb: Vec<F<A::Config>> = (0..a.num_public_inputs).map(|_| inp::<A::Config>(r)).collect();
        let e = Env { publics: &pb, hint: &|i, a, n| hint_value(i, a, n), custom: &|t, a| custom_stub(t, a) };
        let left = match map { Some(m) => no_panic(|| m.map_inputs(&ins))?, None => ins.clone() };
        let Some(want) = run(a, &ins, &e) else { continue };
        let got = run(b, &left, &e);
        ensure!(got.as_ref() == Some(&want), "{what}: inputs {ins:?} publics {pb:?}: before {want:?}, after {got:?}; result {b:?}");
    }
    Ok(())
}
/// Where random values are drawn: whatever does not depend on the draw stays as it is.
fn same_random<A: GenIr, B: GenIr<Config = A::Config>>(what: &str, r: &mut StdRng, a: &RootCircuit<A>, b: &RootCircuit<B>, map: Option<&InputMapping>) -> Case {
    ensure!(b.validate().is_ok(), "{what}: the result is not valid: {:?}; result {b:?}", b.validate());
    let n = a.circuits[&0].num_inputs;
    let ins: Vec<F<A::Config>> = (0..n).map(|_| inp::<A::Config>(r)).collect(); let pb: Vec<F<A::Config>> = (0..a.num_public_inputs).map(|_| inp::<A::Config>(r)).collect();
    let e = Env { publics: &pb, hint: &|i, a, n| hint_value(i, a, n), custom: &|t, a| custom_stub(t, a) };
    let left = match map { Some(m) => m.map_inputs(&ins), None => ins.clone() };
    let draw = |k: u64| { random_seed(Some(k)); };
    let mut a1 = vec![]; for _ in 0..3 { draw(r.gen()); let x = run(a, &ins, &e); random_seed(None); match x { Some(x) => a1.push(x), None => return Ok(()) } }
    for _ in 0..2 {
        draw(r.gen()); let y = run(b, &left, &e); random_seed(None);
        let Some(y) = y else { return Err(format!("{what}: no value after")) };
        ensure!(y.0.len() == a1[0].0.len(), "{what}: number of outputs");
        for k in 0..y.0.len() { if a1.iter().all(|x| x.0[k] == a1[0].0[k]) { ensure!(y.0[k] == a1[0].0[k], "{what}: output {k} is {:?} whatever is drawn, afterwards it depends on the draw: {:?}; inputs {ins:?}; result {b:?}", a1[0].0[k], y.0[k]); } }
        if a1.iter().all(|x| x.1) { ensure!(y.1, "{what}: the constraints hold whatever is drawn, afterwards they do not; inputs {ins:?}; result {b:?}"); }
    }
    Ok(())
}
fn small_outs<I: IrConfig>(c: &RootCircuit<I>) -> bool { c.circuits.iter().all(|(k, c)| *k == 0 || { let s: HashSet<_> = c.outputs.iter().collect(); s.len() == c.outputs.len() }) }
fn common<I: GenIr>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let a = gen::<I>(r, size, false, true); *log = format!("{a:?}");
    let (b, m) = no_panic(|| a.remove_unreachable())?; same("removing unreachable code", r, &a, &b, Some(&m))?;
    // nothing is left to remove
    let (b2, m2) = no_panic(|| b.remove_unreachable())?; same("removing unreachable code twice", r, &b, &b2, Some(&m2))?;
    for force in [false, true] {
        if !I::ALLOW_DUPLICATE_OUTPUTS { continue; }
        let mut c = a.clone(); no_panic(|| c.reassign_duplicate_sub_circuit_outputs(force))?; same("reassigning repeated outputs", r, &a, &c, None)?;
        if force { ensure!(small_outs(&c), "repeated outputs remain: {c:?}"); }
        let z: HashSet<_> = c.circuits[&0].outputs.iter().collect(); ensure!(z.len() == c.circuits[&0].outputs.len(), "repeated outputs of the root remain: {c:?}");
        let (d, m) = no_panic(|| c.remove_unreachable())?; same("reassigning, then removing", r, &a, &d, Some(&m))?;
        if !force { ensure!(d.circuits.values().all(|c| { let s: HashSet<_> = c.outputs.iter().collect(); s.len() == c.outputs.len() }), "repeated outputs remain after removal: {d:?}"); }
    }
    Ok(())
}
fn src<C: Config>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    if r.gen_bool(0.4) { return common::<source::Irc<C>>(r, size, log); }
    let a = gen::<source::Irc<C>>(r, size, false, true); *log = format!("{a:?}");
    let mut b = a.clone(); no_panic(|| b.detect_chains())?;
    let (c, m) = no_panic(|| b.remove_unreachable())?; same("collapsing chains", r, &a, &c, Some(&m))?;
    let mut d = c.clone(); no_panic(|| d.reassign_duplicate_sub_circuit_outputs(false))?; no_panic(|| d.detect_chains())?; let (e, m2) = no_panic(|| d.remove_unreachable())?; let mut im = m.clone(); im.compose_in_place(&m2); same("collapsing chains twice", r, &a, &e, Some(&im))
}
fn dst<C: Config>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let a = gen::<dest::IrcRelaxed<C>>(r, size, false, true); *log = format!("{a:?}");
    let x = no_panic(|| a.export_constraints())?; same("exporting constraints", r, &a, &x, None)?;
    ensure!(x.circuits.values().all(|c| c.constraints.is_empty()), "constraints remain after they were exported: {x:?}");
    let base = if r.gen_bool(0.5) { let mut t = a.clone(); no_panic(|| t.reassign_duplicate_sub_circuit_outputs(true))?; t } else { let mut t = if r.gen_bool(0.5) { x } else { a.clone() }; no_panic(|| t.reassign_duplicate_sub_circuit_outputs(false))?; no_panic(|| t.remove_unreachable())?.0 };
    if base.circuits.values().any(|c| { let s: HashSet<_> = c.outputs.iter().collect(); s.len() != c.outputs.len() }) { return Ok(()); }
    *log = format!("{base:?}");
    let y = no_panic(|| base.solve_duplicates())?; same::<dest::IrcRelaxed<C>, dest::Irc<C>>("resolving repeated arguments", r, &base, &y, None)
}
fn rnd<I: GenIr>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    random_coefs(0.3); let a = gen::<I>(r, size, false, false); random_coefs(0.0); *log = format!("{a:?}");
    let (b, m) = no_panic(|| a.remove_unreachable())?; same_random("removing unreachable code", r, &a, &b, Some(&m))?;
    let mut c = a.clone(); no_panic(|| c.reassign_duplicate_sub_circuit_outputs(true))?; same_random("reassigning repeated outputs", r, &a, &c, None)
}
fn rnd_dst<C: Config>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    random_coefs(0.3); let mut a = gen::<dest::IrcRelaxed<C>>(r, size, true, false); random_coefs(0.0);
    // the same variable several times, often one holding a random value
    let ids: Vec<usize> = a.circuits.keys().cloned().collect();
    for id in ids { let c = a.circuits.get_mut(&id).unwrap(); let mut nv = c.num_inputs; let mut rv = vec![];
        for i in &mut c.instructions {
            if let Some((s, mut ins, n)) = i.as_sub_circuit_call().map(|(s, i, n)| (s, i.clone(), n)) { if !rv.is_empty() && ins.len() > 1 { let x = rv[r.gen_range(0..rv.len())]; ins[0] = x; ins[1] = x; } *i = dest::Instruction::sub_circuit_call(s, ins, n); }
            let k = i.num_outputs(); if matches!(i, dest::Instruction::ConstantLike { value: expander_compiler::circuit::layered::Coef::Random }) { rv.push(nv + 1); } nv += k;
        } }
    // callees that compare their arguments
    if r.gen_bool(0.7) { let ks: Vec<usize> = a.circuits.keys().cloned().filter(|k| *k != 0).collect(); for k in ks { let c = a.circuits.get_mut(&k).unwrap(); if c.num_inputs >= 2 { use expander_compiler::circuit::ir::expr::{Expression, Term}; c.instructions.push(dest::Instruction::InternalVariable { expr: Expression::from_terms(vec![Term::new_linear(num::<C>(1), 1), Term::new_linear(-num::<C>(1), 2)]) }); let nv = c.num_inputs + c.instructions.iter().map(|i| i.num_outputs()).sum::<usize>(); if r.gen_bool(0.5) { c.constraints.push(nv); } else { c.outputs.pop(); c.outputs.push(nv); } } } }
    if a.validate().is_err() || a.circuits.values().any(|c| { let s: HashSet<_> = c.outputs.iter().collect(); s.len() != c.outputs.len() }) { return Ok(()); }
    *log = format!("{a:?}");
    let y = no_panic(|| a.solve_duplicates())?; same_random::<dest::IrcRelaxed<C>, dest::Irc<C>>("resolving repeated arguments", r, &a, &y, None)
}
fn num<C: Config>(x: u32) -> F<C> { F::<C>::from(x) }
fn main() {
    let mut s = Search::new();
    s.part("source-m31", 0.2, u64::MAX, src::<M31Config>); s.part("source-gf2", 0.07, u64::MAX, src::<GF2Config>);
    s.part("normalized", 0.12, u64::MAX, common::<hint_normalized::Irc<M31Config>>); s.part("hint-less", 0.1, u64::MAX, common::<hint_less::Irc<BN254Config>>); s.part("relaxed", 0.1, u64::MAX, common::<dest::IrcRelaxed<M31Config>>); s.part("dest-gf2", 0.05, u64::MAX, common::<dest::Irc<GF2Config>>);
    s.part("passes-m31", 0.15, u64::MAX, dst::<M31Config>); s.part("passes-gf2", 0.06, u64::MAX, dst::<GF2Config>);
    s.part("random", 0.07, u64::MAX, rnd::<hint_normalized::Irc<M31Config>>); s.part("random-dest", 0.08, u64::MAX, rnd_dst::<M31Config>);
    s.finish()
}
