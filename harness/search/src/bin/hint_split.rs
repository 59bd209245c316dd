use expander_compiler::circuit::config::*;
use expander_compiler::circuit::input_mapping::{InputMapping, EMPTY};
use expander_compiler::circuit::ir::common::RootCircuit;
use expander_compiler::circuit::ir::hint_normalized::Irc;
use rand::Rng;
use search::{gen::*, *};

fn env<'a, C: Config>(publics: &'a [F<C>]) -> Env<'a, F<C>> { Env { publics, hint: &|i, a, n| hint_value(i, a, n), custom: &|t, a| custom_stub(t, a) } }
fn go<C: Config>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let mut o = Opts::default(); o.bad_hints = r.gen_bool(0.3); o.easy = r.gen_bool(0.5);
    let root = loop { let t = root::<Irc<C>>(r, size, &o); if t.validate().is_ok() { break t; } };
    *log = format!("{root:?}");
    let (less, exported) = no_panic(|| root.remove_and_export_hints())?;
    ensure!(less.validate().is_ok(), "the hint-free circuit is not valid: {:?}", less.validate());
    ensure!(exported.validate().is_ok(), "the solver's circuit is not valid: {:?}", exported.validate());
    ensure!(less.num_public_inputs == root.num_public_inputs && exported.num_public_inputs == root.num_public_inputs, "public inputs");
    ensure!(less.expected_num_output_zeroes == root.expected_num_output_zeroes && exported.expected_num_output_zeroes == 0, "zero outputs");
    let n = root.circuits[&0].num_inputs;
    for _ in 0..3 {
        let ins: Vec<F<C>> = (0..n).map(|_| inp::<C>(r)).collect(); let pb: Vec<F<C>> = (0..root.num_public_inputs).map(|_| inp::<C>(r)).collect(); let e = env::<C>(&pb);
        let want = eval(&root, 0, &ins, &e); let solved = eval(&exported, 0, &ins, &e);
        ensure!(want.is_some() == solved.is_some(), "original has {want:?}, the solver {solved:?}");
        if let (Some(want), Some((w, _))) = (want, solved) {
            ensure!(w.len() == less.input_size(), "the solver gives {} values, the circuit takes {}", w.len(), less.input_size());
            ensure!(w[..n] == ins[..], "the solver changed the inputs");
            let got = eval(&less, 0, &w, &e);
            ensure!(got.as_ref() == Some(&want), "inputs {ins:?} publics {pb:?}: original {want:?}, solver and hint-free circuit {got:?}");
        }
        let real = no_panic(|| exported.eval_safe(ins.clone(), &pb, &Hints))?;
        let solved = eval(&exported, 0, &ins, &e).map(|x| x.0);
        if let Ok(w) = &real { ensure!(Some(w) == solved.as_ref(), "eval_safe of the solver gives {w:?}, it computes {solved:?}"); }
    }
    // restoring removed inputs
    let extra = r.gen_range(0..4); let mut map: Vec<usize> = (0..n).collect(); for _ in 0..extra { map.insert(r.gen_range(0..=map.len()), EMPTY); }
    if r.gen_bool(0.4) { use rand::seq::SliceRandom; map.shuffle(r); }
    *log = format!("map {map:?} of {exported:?}");
    let im = InputMapping::new(n, map.clone()); let mut back: RootCircuit<Irc<C>> = exported.clone(); no_panic(|| back.add_back_removed_inputs(&im))?;
    ensure!(back.input_size() == map.len(), "restored to {} inputs, the original had {}", back.input_size(), map.len());
    ensure!(back.validate().is_ok(), "the restored solver is not valid: {:?}", back.validate());
    for _ in 0..2 {
        let ins: Vec<F<C>> = (0..map.len()).map(|_| inp::<C>(r)).collect(); let pb: Vec<F<C>> = (0..root.num_public_inputs).map(|_| inp::<C>(r)).collect(); let e = env::<C>(&pb);
        let small = im.map_inputs(&ins);
        let (a, b) = (eval(&back, 0, &ins, &e), eval(&exported, 0, &small, &e));
        ensure!(a == b, "inputs {ins:?}: restored {a:?}, before {b:?}");
    }
    Ok(())
}
fn main() {
    let mut s = Search::new();
    s.part("m31", 0.5, u64::MAX, go::<M31Config>); s.part("gf2", 0.3, u64::MAX, go::<GF2Config>); s.part("bn254", 0.2, u64::MAX, go::<BN254Config>);
    s.finish()
}
