use expander_compiler::circuit::config::*;
use expander_compiler::circuit::ir::source;
use expander_compiler::circuit::layered::*;
use expander_compiler::compile::{compile_with_options, CompileOptions};
use expander_compiler::field::FieldArith;
use rand::Rng;
use search::{gen::*, layered_oracle::*, *};

fn go<C: Config, I: InputType>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let mut o = Opts { easy: r.gen_bool(0.4), hints: r.gen_bool(0.5), unconstrained: r.gen_bool(0.4), custom: r.gen_bool(0.4), bad_hints: r.gen_bool(0.1), ..Opts::default() }; o.builtin = o.hints && r.gen_bool(0.5);
    let random = r.gen_bool(0.25); if random { o.easy = o.easy || r.gen_bool(0.5); }
    random_coefs(if random { 0.5 } else { 0.0 });
    let a = loop { let t = root::<source::Irc<C>>(r, size.min(24), &o); if t.validate().is_ok() { break t; } };
    random_coefs(0.0);
    let mut co = CompileOptions::default().with_opt_level(r.gen_range(1..=3));
    if r.gen_bool(0.3) { co = co.with_mul_fanout_limit(r.gen_range(2..8)); }
    if r.gen_bool(0.3) { co = co.without_input_reorder(); }
    *log = format!("{co:?} {a:?}");
    let x = no_panic(|| compile_with_options::<C, I>(&a, co.clone()))?;
    let y = no_panic(|| compile_with_options::<C, I>(&a, co.clone()))?;
    let (solver, lc) = match (x, y) {
        (Err(e), Err(_)) => { ensure!(!format!("{e:?}").contains("InternalError"), "a valid program is refused: {e:?}"); return Ok(()); }
        (Ok(x), Ok(y)) => {
            ensure!(x.1 == y.1, "compiling twice gives two layered circuits: {:?} and {:?}", x.1, y.1);
            ensure!(x.0 == y.0, "compiling twice gives two solvers: {:?} and {:?}", x.0, y.0); x }
        _ => return Err("compiling twice: one is refused".into()),
    };
    structure(&lc).and_then(|_| defined(&lc)).map_err(|e| format!("the circuit is not valid: {e}: {lc:?}"))?;
    ensure!(solver.validate().is_ok(), "the solver is not valid: {:?}", solver.validate());
    let n = a.circuits[&0].num_inputs; ensure!(solver.input_size() == n, "the solver takes {} inputs, the program {n}", solver.input_size());
    ensure!(lc.num_public_inputs == a.num_public_inputs, "public inputs");
    for _ in 0..4 {
        let ins: Vec<F<C>> = (0..n).map(|_| inp::<C>(r)).collect(); let pb: Vec<F<C>> = (0..a.num_public_inputs).map(|_| inp::<C>(r)).collect();
        let e = Env { publics: &pb, hint: &|i, a, n| hint_value(i, a, n), custom: &|t, a| custom_stub(t, a) };
        // where the program draws random values: with every draw the same value, program and circuit agree
        if random {
            let q = Some(r.gen()); random_same(q); let x = run(&a, &ins, &e); let Some((want, ok)) = x else { random_same(None); continue };
            let w = eval(&solver, 0, &ins, &e); let Some((w, _)) = w else { random_same(None); return Err(format!("inputs {ins:?} publics {pb:?}: the program has outputs {want:?}, the solver fails")) };
            let y = eval_layered(&lc, &w, &pb); random_same(None); let (got, k) = y.ok_or("the circuit has no value")?;
            if got != want || (ok && !k) { return Err(format!("inputs {ins:?} publics {pb:?}, all random values the same: the program gives {want:?} and {}, the circuit {got:?} and {}; witness {w:?}; circuit {lc:?}", if ok { "holds" } else { "fails" }, if k { "holds" } else { "fails" })); }
            continue;
        }
        let Some((want, ok)) = run(&a, &ins, &e) else { continue };
        let Some((w, _)) = eval(&solver, 0, &ins, &e) else { return Err(format!("inputs {ins:?} publics {pb:?}: the program has outputs {want:?}, the solver fails")) };
        ensure!(w.len() == lc.input_size(), "the solver gives {} values, the circuit takes {}", w.len(), lc.input_size());
        let mut acc = false; let mut got = vec![];
        for _ in 0..if ok { 1 } else { 3 } { random_seed(Some(r.gen())); let x = eval_layered(&lc, &w, &pb); random_seed(None); let (g, k) = x.ok_or("the circuit has no value")?; got = g; acc |= k; if ok { break; } if !k { acc = false; break; } }
        if got != want || acc != ok { let _ = F::<C>::zero(); return Err(format!("inputs {ins:?} publics {pb:?}: the program gives {want:?} and {}, the circuit {got:?} and {}; witness {w:?}; circuit {lc:?}", if ok { "holds" } else { "fails" }, if acc { "accepts" } else { "rejects" })); }
    }
    Ok(())
}
/// The layering step by itself, on destination circuits no front part of the pipeline would make.
fn layering<C: Config, I: InputType>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    use expander_compiler::circuit::ir::dest;
    let o = Opts { custom: r.gen_bool(0.4), ..Opts::default() };
    let a: dest::RootCircuitRelaxed<C> = loop { let t = root::<dest::IrcRelaxed<C>>(r, size.min(24), &o); if t.validate().is_ok() { break t; } };
    *log = format!("{a:?}");
    let mut b = no_panic(|| a.export_constraints())?;
    if r.gen_bool(0.3) { no_panic(|| b.reassign_duplicate_sub_circuit_outputs(true))?; } else if r.gen_bool(0.6) { no_panic(|| b.reassign_duplicate_sub_circuit_outputs(false))?; b = no_panic(|| b.remove_unreachable())?.0; }
    else { b = no_panic(|| b.remove_unreachable())?.0; no_panic(|| b.reassign_duplicate_sub_circuit_outputs(true))?; }
    let d = no_panic(|| b.solve_duplicates())?;
    let d = if r.gen_bool(0.3) { no_panic(|| d.remove_unreachable())?.0 } else { d };
    if d.validate().is_err() || d.validate_circuit_has_inputs().is_err() { return Ok(()); }
    *log = format!("{d:?}");
    let reorder = r.gen_bool(0.7);
    let (lc, im) = no_panic(|| expander_compiler::layering::compile::<C, I>(&d, expander_compiler::layering::CompileOptions { allow_input_reorder: reorder }))?;
    structure(&lc).and_then(|_| defined(&lc)).map_err(|e| format!("the circuit is not valid: {e}: {lc:?}"))?;
    let n = d.circuits[&0].num_inputs; ensure!(im.cur_size() == n, "the input mapping is for {} inputs, the program has {n}", im.cur_size());
    if !reorder { for (i, m) in im.mapping().iter().enumerate() { ensure!(*m == i, "inputs may not be reordered, but input {i} becomes {m}: {:?}", im.mapping()); } }
    ensure!(im.next_size() == lc.input_size(), "the input mapping gives {} inputs, the circuit takes {}", im.next_size(), lc.input_size());
    for _ in 0..3 {
        let ins: Vec<F<C>> = (0..n).map(|_| inp::<C>(r)).collect(); let pb: Vec<F<C>> = (0..d.num_public_inputs).map(|_| inp::<C>(r)).collect();
        let e = Env { publics: &pb, hint: &|i, a, n| hint_value(i, a, n), custom: &|t, a| custom_stub(t, a) };
        let Some((want, ok)) = run(&d, &ins, &e) else { continue };
        let mut w = vec![F::<C>::from(7u32); lc.input_size()]; for (i, x) in ins.iter().enumerate() { let m = im.mapping()[i]; if m < w.len() { w[m] = *x; } }
        let (mut acc, mut got) = (true, vec![]);
        for _ in 0..if ok { 2 } else { 40 } { random_seed(Some(r.gen())); let x = eval_layered(&lc, &w, &pb); random_seed(None); let (g, k) = x.ok_or("the circuit has no value")?; got = g; acc &= k; if !acc { break; } }
        if got != want || acc != ok { return Err(format!("layering, inputs {ins:?} publics {pb:?}: the program gives {want:?} and {}, the circuit {got:?} and {}; circuit {lc:?}", if ok { "holds" } else { "fails" }, if acc { "accepts" } else { "rejects" })); }
    }
    Ok(())
}
/// Splitting sub-circuits so that each one's inputs, and its outputs, lie on one layer.
fn splitting<C: Config>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    use expander_compiler::circuit::ir::dest;
    let o = Opts { custom: r.gen_bool(0.3), ..Opts::default() };
    let mut a: dest::RootCircuitRelaxed<C> = loop { let t = root::<dest::IrcRelaxed<C>>(r, size.min(30), &o); if t.validate().is_ok() { break t; } };
    if !C::ENABLE_RANDOM_COMBINATION { a = a.export_constraints(); }
    if r.gen_bool(0.5) { no_panic(|| a.reassign_duplicate_sub_circuit_outputs(false))?; a = no_panic(|| a.remove_unreachable())?.0; }
    *log = format!("{a:?}");
    let b = no_panic(|| expander_compiler::layering::ir_split::split_to_single_layer(&a))?;
    ensure!(b.validate().is_ok(), "splitting gives an invalid program: {:?}: {b:?}", b.validate());
    ensure!(b.circuits[&0].num_inputs == a.circuits[&0].num_inputs && b.num_public_inputs == a.num_public_inputs, "splitting changes the inputs");
    for (id, c) in &b.circuits { if *id == 0 { continue; }
        // layers within a circuit: an instruction is one after the last it reads, a call takes as many as its circuit
        ensure!(c.constraints.is_empty(), "splitting leaves constraints in sub-circuit {id}: {b:?}"); }
    for _ in 0..3 {
        let ins: Vec<F<C>> = (0..a.circuits[&0].num_inputs).map(|_| inp::<C>(r)).collect(); let pb: Vec<F<C>> = (0..a.num_public_inputs).map(|_| inp::<C>(r)).collect();
        let e = Env { publics: &pb, hint: &|i, a, n| hint_value(i, a, n), custom: &|t, a| custom_stub(t, a) };
        let Some((want, ok)) = run(&a, &ins, &e) else { continue };
        let (mut acc, mut got) = (true, vec![]);
        for _ in 0..if ok { 2 } else { 40 } { random_seed(Some(r.gen())); let x = run(&b, &ins, &e); random_seed(None); let (g, k) = x.ok_or("the split program has no value")?; got = g; acc &= k; if !acc { break; } }
        if got != want || acc != ok { return Err(format!("splitting, inputs {ins:?} publics {pb:?}: the program gives {want:?} and {}, the split one {got:?} and {}; {b:?}", if ok { "holds" } else { "fails" }, if acc { "accepts" } else { "rejects" })); }
    }
    Ok(())
}
fn main() {
    quiet();
    let mut s = Search::new();
    s.part("split-m31", 0.08, u64::MAX, splitting::<M31Config>); s.part("split-gf2", 0.03, u64::MAX, splitting::<GF2Config>);
    s.part("layering-m31", 0.1, u64::MAX, layering::<M31Config, NormalInputType>); s.part("layering-cross", 0.08, u64::MAX, layering::<M31Config, CrossLayerInputType>); s.part("layering-gf2", 0.03, u64::MAX, layering::<GF2Config, NormalInputType>);
    s.part("plain-m31", 0.21, u64::MAX, go::<M31Config, NormalInputType>); s.part("cross-m31", 0.18, u64::MAX, go::<M31Config, CrossLayerInputType>);
    s.part("plain-gf2", 0.12, u64::MAX, go::<GF2Config, NormalInputType>); s.part("cross-gf2", 0.08, u64::MAX, go::<GF2Config, CrossLayerInputType>);
    s.part("plain-bn254", 0.07, u64::MAX, go::<BN254Config, NormalInputType>); s.part("plain-goldilocks", 0.04, u64::MAX, go::<GoldilocksConfig, NormalInputType>); s.part("plain-babybear", 0.03, u64::MAX, go::<BabyBearConfig, NormalInputType>);
    s.finish()
}
