use expander_compiler::circuit::config::*;
use expander_compiler::circuit::ir::common::{Instruction as _, RootCircuit};
use expander_compiler::circuit::ir::dest::{Instruction, IrcRelaxed};
use expander_compiler::circuit::ir::expr::{Expression, Term, VarSpec};
use expander_compiler::circuit::layered::Coef;
use rand::Rng;
use search::{gen::*, *};

fn heavy<C: Config>(r: &mut StdRng, size: usize) -> RootCircuit<IrcRelaxed<C>> {
    let mut o = Opts::default(); o.zero_inputs = r.gen_bool(0.2);
    loop {
        let mut t = root::<IrcRelaxed<C>>(r, size, &o);
        let ids: Vec<usize> = t.circuits.keys().cloned().collect();
        for id in ids {
            if r.gen_bool(0.3) { continue; }
            let npub = t.num_public_inputs; let c = t.circuits.get_mut(&id).unwrap();
            let mut nv = c.num_inputs + c.instructions.iter().map(|i| i.num_outputs()).sum::<usize>();
            if nv == 0 { continue; }
            let mut hot: Vec<usize> = (0..r.gen_range(1..5)).map(|_| r.gen_range(1..=nv)).collect();
            for _ in 0..r.gen_range(1..4 + size) {
                if r.gen_bool(0.15) { c.instructions.push(Instruction::ConstantLike { value: coef(r, npub) }); nv += 1; if r.gen_bool(0.7) { hot.push(nv); } continue; }
                let k = match r.gen_range(0..6) { 0 => 1, 1 => r.gen_range(10..40), 2 => r.gen_range(60..70), _ => r.gen_range(1..8) };
                let terms = (0..k).map(|_| { let p = |r: &mut StdRng| if r.gen_bool(0.7) { hot[r.gen_range(0..hot.len())] } else { r.gen_range(1..=nv) }; let (a, b) = (p(r), p(r)); match r.gen_range(0..8) { 0 => Term::new_linear(fe::<C>(r), a), 1 => Term { coef: fe::<C>(r), vars: VarSpec::Custom { gate_type: r.gen_range(500..503), inputs: vec![a, b] } }, _ => Term::new_quad(nz::<C>(r), a, b) } }).collect();
                c.instructions.push(Instruction::InternalVariable { expr: Expression::from_terms(terms) }); nv += 1; if r.gen_bool(0.4) { hot.push(nv); }
            }
            if !c.outputs.contains(&nv) { c.outputs.pop(); c.outputs.push(nv); } let x = r.gen_range(1..=nv); if r.gen_bool(0.3) { c.constraints.push(x); }
        }
        if t.circuits[&0].outputs.len() < t.expected_num_output_zeroes { continue; }
        if t.validate().is_ok() { return t; }
    }
}
fn uses<C: Config>(t: &RootCircuit<IrcRelaxed<C>>, limit: usize) -> Case {
    for (id, c) in &t.circuits { let mut n = std::collections::HashMap::new();
        for i in &c.instructions { if let Instruction::InternalVariable { expr } = i { for t in expr.iter() { if let VarSpec::Quad(x, y) = t.vars { *n.entry(x).or_insert(0usize) += 1; *n.entry(y).or_insert(0) += 1; } } } }
        if let Some((v, k)) = n.into_iter().find(|(_, k)| *k > limit) { return Err(format!("limit {limit}: variable {v} of circuit {id} feeds {k} factors")); } }
    Ok(())
}
fn go<C: Config>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let rand = r.gen_bool(0.15) && !std::any::type_name::<C>().contains("GF2"); random_coefs(if rand { 0.3 } else { 0.0 }); let a = heavy::<C>(r, size); random_coefs(0.0);
    *log = format!("{a:?}");
    for _ in 0..3 {
        let limit = match r.gen_range(0..6) { 0 | 1 => 2, 2 => r.gen_range(2..200), _ => r.gen_range(2..9) };
        let b = no_panic(|| a.solve_mul_fanout_limit(limit))?;
        ensure!(b.validate().is_ok(), "limit {limit}: the result is not valid: {:?}", b.validate());
        uses(&b, limit).map_err(|e| format!("{e}; result {b:?}"))?;
        ensure!(a.num_public_inputs == b.num_public_inputs && a.expected_num_output_zeroes == b.expected_num_output_zeroes && a.circuits.len() == b.circuits.len(), "the header changed");
        for id in a.circuits.keys() { ensure!(b.circuits.get(id).map(|c| (c.num_inputs, c.outputs.len())) == Some((a.circuits[id].num_inputs, a.circuits[id].outputs.len())), "inputs or outputs of circuit {id}"); }
        let n = a.circuits[&0].num_inputs;
        let ins: Vec<F<C>> = (0..n).map(|_| inp::<C>(r)).collect(); let pb: Vec<F<C>> = (0..a.num_public_inputs).map(|_| inp::<C>(r)).collect();
        let e = Env { publics: &pb, hint: &|i, a, n| hint_value(i, a, n), custom: &|t, a| custom_stub(t, a) };
        if !rand { let (x, y) = (run(&a, &ins, &e), run(&b, &ins, &e)); ensure!(x == y, "limit {limit}: inputs {ins:?} publics {pb:?}: before {x:?}, after {y:?}; result {b:?}"); continue; }
        let mut w = vec![]; for _ in 0..3 { random_seed(Some(r.gen())); w.push(run(&a, &ins, &e)); random_seed(None); }
        for _ in 0..2 { random_seed(Some(r.gen())); let y = run(&b, &ins, &e).unwrap(); random_seed(None); let w: Vec<_> = w.iter().map(|x| x.clone().unwrap()).collect();
            for k in 0..y.0.len() { if w.iter().all(|x| x.0[k] == w[0].0[k]) { ensure!(y.0[k] == w[0].0[k], "limit {limit}: output {k} is {:?} whatever is drawn, afterwards it depends on the draw: {:?}; result {b:?}", w[0].0[k], y.0[k]); } } }
    }
    Ok(())
}
/// r*x - x*r, with enough other uses of r that copies are needed
fn random_shared<C: Config>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let n = r.gen_range(2..4 + size.min(12)); let mut ins: Vec<Instruction<C>> = vec![]; let mut nv = n;
    if r.gen_bool(0.5) { ins.push(Instruction::InternalVariable { expr: Expression::new_linear(F::<C>::from(1u32), 1) }); nv += 1; }
    ins.push(Instruction::ConstantLike { value: Coef::Random }); nv += 1; let v = nv;
    let one = F::<C>::from(1u32); let m = r.gen_range(1..10); let mut prods = vec![];
    for _ in 0..m { let x = r.gen_range(1..=n); ins.push(Instruction::InternalVariable { expr: Expression::new_quad(one, v, x) }); nv += 1; prods.push((nv, x)); }
    let (p, x) = prods[r.gen_range(0..prods.len())]; ins.push(Instruction::InternalVariable { expr: Expression::new_quad(one, x, v) }); nv += 1; let q = nv;
    ins.push(Instruction::InternalVariable { expr: Expression::from_terms(vec![Term::new_linear(one, p), Term::new_linear(-one, q)]) }); nv += 1;
    let c = expander_compiler::circuit::ir::common::Circuit { instructions: ins, constraints: vec![nv], outputs: vec![nv], num_inputs: n };
    let mut a = RootCircuit::<IrcRelaxed<C>> { num_public_inputs: 0, expected_num_output_zeroes: 0, circuits: Default::default() }; a.circuits.insert(0, c);
    *log = format!("{a:?}"); ensure!(a.validate().is_ok(), "harness: {:?}", a.validate());
    let limit = r.gen_range(2..6); let b = no_panic(|| a.solve_mul_fanout_limit(limit))?; uses(&b, limit)?;
    let e = Env { publics: &[], hint: &|i, a, n| hint_value(i, a, n), custom: &|t, a| custom_stub(t, a) };
    let w: Vec<F<C>> = (0..n).map(|_| nz::<C>(r)).collect();
    random_seed(Some(r.gen())); let y = run(&b, &w, &e); random_seed(None);
    ensure!(y.as_ref().map(|y| y.1) == Some(true), "limit {limit}: the same random value is used twice, afterwards the uses differ: {y:?}; result {b:?}");
    Ok(())
}
fn main() {
    let mut s = Search::new();
    s.part("m31", 0.5, u64::MAX, go::<M31Config>); s.part("gf2", 0.15, u64::MAX, go::<GF2Config>); s.part("bn254", 0.2, u64::MAX, go::<BN254Config>); s.part("random", 0.15, u64::MAX, random_shared::<M31Config>);
    s.finish()
}
