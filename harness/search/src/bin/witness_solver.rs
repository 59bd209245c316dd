use arith::SimdField;
use expander_compiler::circuit::config::*;
use expander_compiler::circuit::ir::hint_normalized::{self, witness_solver::WitnessSolver};
use expander_compiler::field::*;
use expander_compiler::hints::registry::*;
use rand::Rng;
use search::{gen::*, *};
use std::cell::Cell;

/// Every assignment's values by the definition; None where a hint fails or the circuit needs what is not supported.
fn one<C: Config>(w: &WitnessSolver<C>, a: &[F<C>], b: &[F<C>], hint: &dyn Fn(usize, &[F<C>], usize) -> Option<Vec<F<C>>>) -> Option<Vec<F<C>>> {
    let custom = Cell::new(false);
    let r = eval(&w.circuit, 0, a, &Env { publics: b, hint, custom: &|t, x| { custom.set(true); custom_stub(t, x) } });
    if custom.get() { None } else { r.map(|x| x.0) }
}
fn both<C: Config>(w: &WitnessSolver<C>, rows: &[(Vec<F<C>>, Vec<F<C>>)], want: &[Option<Vec<F<C>>>], h: &impl HintCaller<F<C>>, what: &str) -> Case {
    let (no, np) = (w.circuit.circuits[&0].outputs.len(), w.circuit.num_public_inputs);
    for (k, (a, b)) in rows.iter().enumerate().take(4) {
        let g = no_panic(|| w.solve_witness_from_raw_inputs(a.clone(), b.clone(), h))?;
        match (&g, &want[k]) {
            (Ok(g), Some(x)) => { ensure!((g.num_witnesses, g.num_inputs_per_witness, g.num_public_inputs_per_witness) == (1, no, np), "{what}: alone, assignment {k} has counts {} {} {}", g.num_witnesses, g.num_inputs_per_witness, g.num_public_inputs_per_witness);
                let v: Vec<_> = g.iter_scalar().collect(); ensure!(v == vec![(x.clone(), b.clone())], "{what}: alone, assignment {k} gives {v:?}, the circuit defines {x:?}"); }
            (Err(_), None) => {}
            _ => return Err(format!("{what}: alone, assignment {k} is {}, the circuit defines {:?}", if g.is_ok() { "solved" } else { "refused" }, want[k])),
        }
    }
    let g = no_panic(|| w.solve_witnesses_from_raw_inputs(rows.len(), |i| rows[i].clone(), h))?;
    ensure!(g.is_ok() == want.iter().all(|x| x.is_some()), "{what}: {} assignments together are {}, alone {} fail", rows.len(), if g.is_ok() { "solved" } else { "refused" }, want.iter().filter(|x| x.is_none()).count());
    if let Ok(g) = g {
        ensure!(g.num_witnesses == rows.len() && g.num_public_inputs_per_witness == np, "{what}: together: counts");
        if !rows.is_empty() { ensure!(g.num_inputs_per_witness == no, "{what}: together: counts");
            let v: Vec<_> = g.iter_scalar().collect(); let x: Vec<_> = want.iter().zip(rows).map(|(x, r)| (x.clone().unwrap(), r.1.clone())).collect(); ensure!(v == x, "{what}: together gives {v:?}, alone {x:?}"); }
    }
    Ok(())
}
fn go<C: Config>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let p = SIMDField::<C>::PACK_SIZE; let o = Opts { custom: r.gen_bool(0.08), bad_hints: r.gen_bool(0.15), builtin: r.gen_bool(0.5), zero_inputs: true, ..Opts::default() };
    let root = root::<hint_normalized::Irc<C>>(r, size, &o);
    let w = WitnessSolver { circuit: root }; let (a, b) = (w.circuit.input_size(), w.circuit.num_public_inputs);
    let n = match r.gen_range(0..8) { 0 => r.gen_range(0..2), 1 => p, 2 => p + 1, 3 => 2 * p - 1, 4 => p - 1, _ => r.gen_range(1..=2 + size) }.min(40);
    let rows: Vec<(Vec<_>, Vec<_>)> = (0..n).map(|_| ((0..a).map(|_| inp::<C>(r)).collect(), (0..b).map(|_| inp::<C>(r)).collect())).collect();
    *log = format!("{n} assignments {rows:?} of {:?}", w.circuit);
    let want: Vec<_> = rows.iter().map(|(x, y)| one(&w, x, y, &|i, x, n| hint_value(i, x, n))).collect();
    both(&w, &rows, &want, &Hints, "with hints")?;
    // a caller that knows no hint refuses, and does not break off
    let want: Vec<_> = rows.iter().map(|(x, y)| one(&w, x, y, &|_, _, _| None)).collect();
    both(&w, &rows, &want, &EmptyHintCaller, "without hints")?;
    both(&w, &rows, &want, &HintRegistry::<F<C>>::new(), "with an empty registry")
}
/// hints by name
fn named<C: Config>(r: &mut StdRng, _: usize, log: &mut String) -> Case {
    fn twice<Fi: Field>(x: &[Fi], y: &mut [Fi]) -> Result<(), expander_compiler::utils::error::Error> { for k in 0..y.len() { y[k] = x[k % x.len()] + x[k % x.len()]; } Ok(()) }
    fn picky<Fi: Field>(x: &[Fi], y: &mut [Fi]) -> Result<(), expander_compiler::utils::error::Error> { if x[0].is_zero() { return Err(expander_compiler::utils::error::Error::UserError("zero".into())); } for v in y.iter_mut() { *v = x[0]; } Ok(()) }
    let mut g = HintRegistry::<F<C>>::new(); g.register("twice", twice); g.register("picky", picky);
    let x: Vec<_> = (0..r.gen_range(1..4)).map(|_| inp::<C>(r)).collect(); let n = r.gen_range(0..4); *log = format!("{x:?} -> {n}");
    let v = no_panic(|| g.call(hint_key_to_id("twice"), &x, n))?.map_err(|e| e.to_string())?; ensure!(v == (0..n).map(|k| x[k % x.len()] + x[k % x.len()]).collect::<Vec<_>>(), "twice gives {v:?}");
    let v = no_panic(|| g.call(hint_key_to_id("picky"), &x, n))?; ensure!(v.is_err() == x[0].is_zero() && v.map_or(true, |v| v == vec![x[0]; n]), "picky");
    ensure!(no_panic(|| g.call(hint_key_to_id("other"), &x, n))?.is_err(), "a hint that is not there");
    Ok(())
}
fn main() {
    let mut s = Search::new();
    s.part("m31", 0.35, u64::MAX, go::<M31Config>); s.part("gf2", 0.15, u64::MAX, go::<GF2Config>); s.part("bn254", 0.15, u64::MAX, go::<BN254Config>);
    s.part("goldilocks", 0.15, u64::MAX, go::<GoldilocksConfig>); s.part("babybear", 0.15, u64::MAX, go::<BabyBearConfig>); s.part("named", 0.03, 3000, named::<M31Config>);
    s.finish()
}
