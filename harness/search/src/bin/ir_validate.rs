use expander_compiler::circuit::config::*;
use expander_compiler::circuit::ir::common::{Constraint as _, Instruction as _, RootCircuit};
use expander_compiler::circuit::ir::{dest, hint_less, hint_normalized, source};
use rand::Rng;
use search::{gen::*, *};
use std::cell::Cell;
use std::collections::HashSet;

fn acceptable<I: IrView>(root: &RootCircuit<I>) -> Result<(), String> {
    let Some(main) = root.circuits.get(&0) else { return Err("no root".into()) };
    for (id, c) in &root.circuits {
        let mut nv = c.num_inputs as u128; let ok = |x: usize, nv: u128| x != 0 && x as u128 <= nv;
        for (k, i) in c.instructions.iter().enumerate() {
            let v = I::view(i, root.num_public_inputs);
            if let Some(x) = v.ops.iter().find(|x| !ok(**x, nv)) { return Err(format!("instruction {k} of {id} reads {x}")); }
            if !v.own { return Err(format!("instruction {k} of {id} is malformed")); }
            if let Some((s, ins, outs)) = i.as_sub_circuit_call() {
                let Some(t) = root.circuits.get(&s) else { return Err(format!("instruction {k} of {id} calls {s}, which is not there")) };
                if t.num_inputs != ins.len() || t.outputs.len() != outs { return Err(format!("call {k} of {id} does not fit")); }
                if !I::ALLOW_DUPLICATE_SUB_CIRCUIT_INPUTS && ins.iter().collect::<HashSet<_>>().len() != ins.len() { return Err(format!("call {k} of {id} repeats an input")); }
            }
            nv += v.outs as u128;
        }
        if nv > usize::MAX as u128 { return Err("more variables than numbers".into()); }
        if c.constraints.iter().any(|x| !ok(x.var(), nv)) { return Err(format!("a constraint of {id}")); }
        if c.outputs.iter().any(|x| !ok(*x, nv)) { return Err(format!("an output of {id}")); }
        if !I::ALLOW_DUPLICATE_OUTPUTS && c.outputs.iter().collect::<HashSet<_>>().len() != c.outputs.len() { return Err(format!("{id} repeats an output")); }
        if !I::ALLOW_DUPLICATE_CONSTRAINTS && c.constraints.iter().map(|x| x.var()).collect::<HashSet<_>>().len() != c.constraints.len() { return Err(format!("{id} repeats a constraint")); }
    }
    // no circuit reaches itself
    let calls = |id: usize| -> Vec<usize> { root.circuits[&id].instructions.iter().filter_map(|i| i.as_sub_circuit_call().map(|x| x.0)).collect() };
    let reach = |id: usize| { let mut seen = HashSet::new(); let mut todo = calls(id); while let Some(x) = todo.pop() { if seen.insert(x) { todo.extend(calls(x)); } } seen };
    for id in root.circuits.keys() { if reach(*id).contains(id) { return Err(format!("{id} reaches itself")); } }
    if main.outputs.is_empty() { let mut s = reach(0); s.insert(0); if s.iter().all(|x| root.circuits[x].constraints.is_empty()) { return Err("nothing is constrained or output".into()); } }
    if root.expected_num_output_zeroes > main.outputs.len() { return Err("more zero outputs than outputs".into()); }
    Ok(())
}
fn bad(r: &mut StdRng, x: usize, nv: usize) -> usize { match r.gen_range(0..7) { 0 => 0, 1 => nv, 2 => nv.saturating_add(1), 3 => usize::MAX, 4 => x.wrapping_add(1), 5 => x.wrapping_sub(1), _ => r.gen_range(1..=nv.max(1)) } }
fn mutate<I: IrView>(r: &mut StdRng, root: &mut RootCircuit<I>) {
    let mut ids: Vec<usize> = root.circuits.keys().copied().collect(); ids.sort();
    if ids.is_empty() { return; }
    let id = ids[r.gen_range(0..ids.len())]; let other = ids[r.gen_range(0..ids.len())]; let npub = root.num_public_inputs;
    let outs_of: Vec<(usize, usize, usize)> = ids.iter().map(|x| (*x, root.circuits[x].num_inputs, root.circuits[x].outputs.len())).collect();
    let c = root.circuits.get_mut(&id).unwrap();
    let before = |c: &expander_compiler::circuit::ir::common::Circuit<I>, k: usize| c.num_inputs.saturating_add(c.instructions[..k].iter().map(|i| i.num_outputs()).fold(0usize, |a, b| a.saturating_add(b))).min(1 << 40);
    let n = c.instructions.len(); let all = before(c, n);
    match r.gen_range(0..16) {
        0 | 1 | 2 if n > 0 => { // one operand
            let k = r.gen_range(0..n); let nv = before(c, k); let ops = I::view(&c.instructions[k], npub).ops; if ops.is_empty() { return; }
            let h = r.gen_range(0..ops.len()); let y = bad(r, ops[h], nv); let cnt = Cell::new(0);
            c.instructions[k] = c.instructions[k].replace_vars(|x| { let i = cnt.get(); cnt.set(i + 1); if i == h { y } else { x } }); }
        3 => if !c.outputs.is_empty() { let k = r.gen_range(0..c.outputs.len()); c.outputs[k] = bad(r, c.outputs[k], all); },
        4 => { let x = bad(r, all, all); c.constraints.push(I::con(r, x)); }
        5 => c.outputs.push(r.gen_range(1..=all.max(1))),
        6 => { c.outputs.pop(); }
        7 => { c.num_inputs = match r.gen_range(0..4) { 0 => c.num_inputs.saturating_add(1), 1 => c.num_inputs.saturating_sub(1), 2 => 0, _ => usize::MAX - r.gen_range(0..3) }; }
        8 | 9 => { // a call: into a circuit already there, itself, or none
            let k = r.gen_range(0..=n); let nv = before(c, k); let (mut to, mut a, mut b) = outs_of[r.gen_range(0..outs_of.len())];
            if r.gen_bool(0.2) { to = to.wrapping_add(1); } if r.gen_bool(0.15) { a = a.saturating_add(1); } if r.gen_bool(0.1) { a = a.saturating_sub(1); } if r.gen_bool(0.15) { b = match r.gen_range(0..3) { 0 => b.saturating_add(1), 1 => b.saturating_sub(1), _ => usize::MAX - r.gen_range(0..3) }; }
            let ins = (0..a.min(20)).map(|_| r.gen_range(1..=nv.max(1))).collect(); c.instructions.insert(k, I::Instruction::sub_circuit_call(to, ins, b)); }
        10 => { let k = r.gen_range(0..=n); let nv = before(c, k); c.instructions.insert(k, I::odd(r, nv.min(1 << 20), npub)); }
        11 if n > 0 => { c.instructions.remove(r.gen_range(0..n)); }
        12 => { root.circuits.remove(&other); }
        13 => { for (_, c) in root.circuits.iter_mut() { if r.gen_bool(0.8) { c.constraints.clear(); } } if let Some(m) = root.circuits.get_mut(&0) { m.outputs.clear(); } if r.gen_bool(0.8) { root.expected_num_output_zeroes = 0; } }
        14 => root.expected_num_output_zeroes = match r.gen_range(0..3) { 0 => root.circuits.get(&0).map(|m| m.outputs.len()).unwrap_or(0), 1 => root.circuits.get(&0).map(|m| m.outputs.len() + 1).unwrap_or(0), _ => usize::MAX },
        _ => root.num_public_inputs = root.num_public_inputs.saturating_sub(1),
    }
}
fn go<I: IrView>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let mut o = Opts::default(); o.zero_inputs = true;
    let mut root = root::<I>(r, size / 2, &o);
    for _ in 0..r.gen_range(0..4) { mutate(r, &mut root); }
    let huge = root.circuits.values().any(|c| c.num_inputs > 1 << 30);
    *log = format!("{root:?}");
    let want = acceptable(&root);
    let got = no_panic(|| root.validate())?;
    ensure!(got.is_ok() == want.is_ok(), "validate says {:?}, by the definition: {:?}", got.map_err(|e| e.to_string()), want);
    if want.is_ok() && !huge { for c in root.circuits.values() { let n = c.num_inputs + c.instructions.iter().map(|i| I::view(i, 0).outs).sum::<usize>(); ensure!(c.get_num_variables() == n, "get_num_variables is {}, it has {n}", c.get_num_variables()); } ensure!(root.input_size() == root.circuits[&0].num_inputs, "input_size"); }
    Ok(())
}
fn main() {
    let mut s = Search::new();
    s.part("source", 0.25, u64::MAX, go::<source::Irc<M31Config>>); s.part("hint-normalized", 0.2, u64::MAX, go::<hint_normalized::Irc<M31Config>>); s.part("hint-less", 0.15, u64::MAX, go::<hint_less::Irc<GF2Config>>);
    s.part("dest", 0.25, u64::MAX, go::<dest::Irc<M31Config>>); s.part("dest-relaxed", 0.15, u64::MAX, go::<dest::IrcRelaxed<BN254Config>>);
    s.finish()
}
