use expander_compiler::circuit::config::*;
use expander_compiler::circuit::layered::{*, Input as _, InputUsize as _};
use rand::Rng;
use search::{gen::*, layered_oracle::*, *};

fn tweak(r: &mut StdRng, x: usize, width: usize) -> usize { match r.gen_range(0..9) { 0 => 0, 1 => x.wrapping_add(1), 2 => x.wrapping_sub(1), 3 => width, 4 => width.wrapping_sub(1), 5 => x.wrapping_mul(2), 6 => usize::MAX, 7 => x ^ (1 << r.gen_range(0..5)), _ => 0usize.wrapping_sub(1 << r.gen_range(0..8)) } }
fn mutate<C: Config, I: InputType>(r: &mut StdRng, c: &mut Circuit<C, I>) {
    let i = r.gen_range(0..c.segments.len()); let nl = c.layer_ids.len(); let ns = c.segments.len();
    let w0 = c.segments[i].num_inputs.to_vec().first().copied().unwrap_or(1); let no = c.segments[i].num_outputs;
    let small = |r: &mut StdRng, x: usize| { let mut v = tweak(r, x, x); if v > 1 << 12 { v = 3; } v };
    let inp = |r: &mut StdRng, x: &I::Input| { let l = if I::CROSS_LAYER_RELAY && r.gen_bool(0.4) { match r.gen_range(0..4) { 0 => nl, 1 => nl.saturating_sub(1), 2 => usize::MAX, _ => x.layer().wrapping_add(1) } } else { x.layer() }; let o = if r.gen_bool(0.7) { tweak(r, x.offset(), w0) } else { x.offset() }; <I::Input as layered_in::In>::new(l, o) };
    let s = &mut c.segments[i];
    match r.gen_range(0..13) {
        0 => { let mut v = s.num_inputs.to_vec(); if v.is_empty() { return; } let k = r.gen_range(0..v.len()); if I::CROSS_LAYER_RELAY && r.gen_bool(0.3) { if r.gen_bool(0.5) { v.pop(); } else { v.push(1 << r.gen_range(0..4)); } } else { v[k] = small(r, v[k]); } s.num_inputs = <I::InputUsize as layered_in::InU>::from_vec(v); }
        1 => s.num_outputs = small(r, no),
        2 | 3 => if !s.gate_muls.is_empty() { let k = r.gen_range(0..s.gate_muls.len()); let h = r.gen_range(0..3); if h == 2 { s.gate_muls[k].output = tweak(r, s.gate_muls[k].output, no); } else { s.gate_muls[k].inputs[h] = inp(r, &s.gate_muls[k].inputs[h]); } },
        4 => if !s.gate_adds.is_empty() { let k = r.gen_range(0..s.gate_adds.len()); if r.gen_bool(0.5) { s.gate_adds[k].output = tweak(r, s.gate_adds[k].output, no); } else { s.gate_adds[k].inputs[0] = inp(r, &s.gate_adds[k].inputs[0]); } },
        5 => if !s.gate_consts.is_empty() { let k = r.gen_range(0..s.gate_consts.len()); s.gate_consts[k].output = tweak(r, s.gate_consts[k].output, no); },
        6 => if !s.gate_customs.is_empty() { let k = r.gen_range(0..s.gate_customs.len()); if r.gen_bool(0.4) || s.gate_customs[k].inputs.is_empty() { s.gate_customs[k].output = tweak(r, s.gate_customs[k].output, no); } else { let h = r.gen_range(0..s.gate_customs[k].inputs.len()); s.gate_customs[k].inputs[h] = inp(r, &s.gate_customs[k].inputs[h]); } },
        7 | 8 => if !s.child_segs.is_empty() { let k = r.gen_range(0..s.child_segs.len()); let (_, al) = &mut s.child_segs[k]; if !al.is_empty() { let h = r.gen_range(0..al.len()); if r.gen_bool(0.4) { al[h].output_offset = tweak(r, al[h].output_offset, no); } else { let mut v = al[h].input_offset.to_vec(); if v.is_empty() { return; } if I::CROSS_LAYER_RELAY && r.gen_bool(0.2) { if r.gen_bool(0.5) { v.push(0) } else { v.pop(); } } else { let q = r.gen_range(0..v.len()); v[q] = tweak(r, v[q], w0); } al[h].input_offset = <I::InputUsize as layered_in::InU>::from_vec(v); } } },
        9 => if !s.child_segs.is_empty() { let k = r.gen_range(0..s.child_segs.len()); s.child_segs[k].0 = match r.gen_range(0..4) { 0 => i, 1 => ns, 2 => usize::MAX, _ => r.gen_range(0..ns) }; },
        10 => { if nl > 0 { let k = r.gen_range(0..nl); match r.gen_range(0..4) { 0 => { c.layer_ids.remove(k); } 1 => c.layer_ids[k] = ns, 2 => c.layer_ids[k] = r.gen_range(0..ns), _ => { let x = c.layer_ids[k]; c.layer_ids.insert(k, x); } } } }
        11 => { // one writer fewer
            if !s.gate_adds.is_empty() { let k = r.gen_range(0..s.gate_adds.len()); s.gate_adds.remove(k); } else if !s.gate_consts.is_empty() { s.gate_consts.pop(); } else { s.gate_muls.pop(); } }
        _ => { // another reader
            if !s.gate_adds.is_empty() { let mut g = s.gate_adds[0].clone(); let ni = s.num_inputs.to_vec(); if ni.is_empty() { return; } let l = r.gen_range(0..ni.len()); if ni[l] == 0 { return; } g.inputs[0] = <I::Input as layered_in::In>::new(l, r.gen_range(0..ni[l])); s.gate_adds.push(g); } }
    }
}
mod layered_in { pub use expander_compiler::circuit::layered::{Input as In, InputUsize as InU}; }
fn huge<C: Config, I: InputType>(c: &Circuit<C, I>) -> bool { c.segments.iter().any(|s| s.num_outputs > 1 << 14 || s.num_inputs.to_vec().iter().any(|x| *x > 1 << 14)) }
fn check<C: Config, I: InputType>(r: &mut StdRng, c: &Circuit<C, I>) -> Case {
    let want = structure(c).and_then(|_| defined(c));
    let got = no_panic(|| c.validate())?;
    ensure!(got.is_ok() == want.is_ok(), "validate says {:?}, by the definition: {:?}", got.map_err(|e| e.to_string()), want);
    if want.is_ok() && c.num_actual_outputs <= c.segments[*c.layer_ids.last().unwrap()].num_outputs && c.expected_num_output_zeroes <= c.num_actual_outputs {
        let x: Vec<F<C>> = (0..c.segments[c.layer_ids[0]].num_inputs.to_vec()[0]).map(|_| inp::<C>(r)).collect(); let y: Vec<F<C>> = (0..c.num_public_inputs).map(|_| inp::<C>(r)).collect();
        let want = eval_layered(c, &x, &y).unwrap();
        let got = no_panic(|| c.eval_with_public_inputs(x.clone(), &y))?; ensure!(got == want, "on {x:?} {y:?} it evaluates to {got:?}, its gates define {want:?}");
    }
    Ok(())
}
fn mutated<C: Config, I: InputType>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let mut c = layered::<C, I>(r, size / 2, true);
    for _ in 0..r.gen_range(0..3) { mutate(r, &mut c); }
    *log = format!("{c:?}");
    if huge(&c) { return Ok(()); }
    check(r, &c)
}
/// tiny circuits of every kind, mostly not valid
fn small<C: Config, I: InputType>(r: &mut StdRng, _: usize, log: &mut String) -> Case {
    let ns = r.gen_range(0..4); let np = |r: &mut StdRng| [1usize, 1, 2, 2, 4, 4, 8, 3, 0][r.gen_range(0..9)];
    let mut c = Circuit::<C, I> { num_public_inputs: 1, num_actual_outputs: 1, expected_num_output_zeroes: 0, segments: vec![], layer_ids: (0..r.gen_range(0..4)).map(|_| r.gen_range(0..ns.max(1))).collect() };
    for i in 0..ns {
        let li = if I::CROSS_LAYER_RELAY { r.gen_range(0..4) } else { 1 };
        let mut s = Segment::<C, I> { num_inputs: <I::InputUsize as layered_in::InU>::from_vec((0..li).map(|_| np(r)).collect()), num_outputs: np(r), ..Default::default() };
        let w = |r: &mut StdRng| <I::Input as layered_in::In>::new(if I::CROSS_LAYER_RELAY { r.gen_range(0..3) } else { 0 }, r.gen_range(0..5));
        for _ in 0..r.gen_range(0..3) { let coef = coef::<C>(r, 1); let output = r.gen_range(0..4); match r.gen_range(0..4) { 0 => { let inputs = [w(r), w(r)]; s.gate_muls.push(Gate { inputs, output, coef }) } 1 => { let inputs = [w(r)]; s.gate_adds.push(Gate { inputs, output, coef }) } 2 => s.gate_consts.push(Gate { inputs: [], output, coef }), _ => { let inputs = vec![w(r); r.gen_range(0..3)]; s.gate_customs.push(GateCustom { gate_type: 500, inputs, output, coef }) } } }
        for _ in 0..r.gen_range(0..2) { let k = r.gen_range(0..=i); let al = (0..r.gen_range(0..3)).map(|_| { let li = if I::CROSS_LAYER_RELAY { r.gen_range(0..3) } else { 1 }; Allocation { input_offset: <I::InputUsize as layered_in::InU>::from_vec((0..li).map(|_| r.gen_range(0..5)).collect()), output_offset: r.gen_range(0..5) } }).collect(); s.child_segs.push((k, al)); }
        c.segments.push(s);
    }
    *log = format!("{c:?}");
    check(r, &c)
}
fn main() {
    let mut s = Search::new();
    s.part("mutated-cross", 0.35, u64::MAX, mutated::<M31Config, CrossLayerInputType>); s.part("mutated-plain", 0.25, u64::MAX, mutated::<GF2Config, NormalInputType>);
    s.part("small-cross", 0.2, u64::MAX, small::<M31Config, CrossLayerInputType>); s.part("small-plain", 0.2, u64::MAX, small::<M31Config, NormalInputType>);
    s.finish()
}
