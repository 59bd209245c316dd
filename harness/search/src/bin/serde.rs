//! C10: everything that is written to a file is read back equal, and consumes exactly its bytes; wrong markers are refused.
use arith::{Field as _, SimdField};
use expander_compiler::circuit::config::*;
use expander_compiler::circuit::input_mapping::{InputMapping, EMPTY};
use expander_compiler::circuit::ir::{common::{IrConfig, RootCircuit, Circuit as IrCircuit}, expr::{LinComb, LinCombTerm}, hint_normalized, hint_normalized::witness_solver::WitnessSolver, source};
use expander_compiler::circuit::layered::{self, witness::*, *};
use expander_compiler::zkcuda::kernel::*;
use expander_compiler::zkcuda::context::*;
use expander_compiler::frontend::*;
use rand::Rng;
use search::{gen::*, *};
use serdes::ExpSerde;
use std::fmt::Debug;

fn enc<T: ExpSerde>(x: &T) -> Result<Vec<u8>, String> { let mut b = vec![]; no_panic(|| x.serialize_into(&mut b).map_err(|e| format!("writing: {e:?}")))??; Ok(b) }
fn dec<T: ExpSerde>(b: &[u8]) -> Result<Result<(T, usize), String>, String> { no_panic(|| { let mut s = b; let x = T::deserialize_from(&mut s).map_err(|e| format!("{e:?}")); x.map(|x| (x, b.len() - s.len())) }) }
/// read back equal, consuming exactly what was written whatever follows; no shorter file is accepted
fn trip<T: ExpSerde>(r: &mut StdRng, x: &T, what: &str, same: impl Fn(&T, &T) -> bool) -> Result<Vec<u8>, String> {
    let b = enc(x)?; let mut f = b.clone(); for _ in 0..r.gen_range(0..20) { f.push(r.gen()); }
    let (y, n) = dec::<T>(&f)?.map_err(|e| format!("{what}: reading what was written: {e}"))?;
    ensure!(n == b.len(), "{what}: {} bytes written, {n} read back", b.len());
    ensure!(same(x, &y), "{what}: read back different");
    if !b.is_empty() { let k = if r.gen_bool(0.3) { b.len() - 1 } else { r.gen_range(0..b.len()) }; ensure!(dec::<T>(&b[..k])?.is_err(), "{what}: the first {k} of {} bytes are accepted", b.len()); }
    Ok(b)
}
fn refuse<T: ExpSerde>(b: &[u8], what: &str) -> Case { ensure!(dec::<T>(b)?.is_err(), "{what} is accepted"); Ok(()) }
fn id(r: &mut StdRng) -> usize { match r.gen_range(0..6) { 0 => 0, 1 => usize::MAX, 2 => 1 << r.gen_range(0..64), 3 => r.gen(), _ => r.gen_range(0..300) } }
fn ids(r: &mut StdRng) -> Vec<usize> { let n = match r.gen_range(0..5) { 0 => 0, 1 => r.gen_range(0..40), _ => r.gen_range(0..4) }; (0..n).map(|_| id(r)).collect() }
fn coef_any<C: Config>(r: &mut StdRng) -> Coef<C> { match r.gen_range(0..3) { 0 => Coef::Random, 1 => Coef::PublicInput(id(r)), _ => Coef::Constant(fe::<C>(r)) } }
fn lc<C: Config>(r: &mut StdRng) -> LinComb<C> { let n = r.gen_range(0..5); LinComb { terms: (0..n).map(|_| LinCombTerm { var: id(r), coef: fe::<C>(r) }).collect(), constant: fe::<C>(r) } }
trait Any: IrConfig { fn any(r: &mut StdRng) -> Self::Instruction; fn acon(r: &mut StdRng) -> Self::Constraint; const TAGS: u8; }
impl<C: Config> Any for source::Irc<C> { const TAGS: u8 = 13;
    fn any(r: &mut StdRng) -> source::Instruction<C> { use source::*; use Instruction as I;
        match r.gen_range(0..13) { 0 => I::LinComb(lc(r)), 1 => I::Mul(ids(r)), 2 => I::Div { x: id(r), y: id(r), checked: r.gen() },
            3 => I::BoolBinOp { x: id(r), y: id(r), op: [BoolBinOpType::Xor, BoolBinOpType::Or, BoolBinOpType::And][r.gen_range(0..3)].clone() },
            4 => I::IsZero(id(r)), 5 => I::Commit(ids(r)), 6 => I::Hint { hint_id: id(r), inputs: ids(r), num_outputs: id(r) }, 7 => I::ConstantLike(coef_any(r)), 8 => I::SubCircuitCall { sub_circuit_id: id(r), inputs: ids(r), num_outputs: id(r) },
            9 => { use UnconstrainedBinOpType::*; I::UnconstrainedBinOp { x: id(r), y: id(r), op: [Div, Pow, IntDiv, Mod, ShiftL, ShiftR, LesserEq, GreaterEq, Lesser, Greater, Eq, NotEq, BoolOr, BoolAnd, BitOr, BitAnd, BitXor][r.gen_range(0..17)].clone() } }
            10 => I::UnconstrainedSelect { cond: id(r), if_true: id(r), if_false: id(r) }, 11 => I::CustomGate { gate_type: id(r), inputs: ids(r) }, _ => I::ToBinary { x: id(r), num_bits: id(r) } } }
    fn acon(r: &mut StdRng) -> source::Constraint { use source::*; Constraint { typ: [ConstraintType::Zero, ConstraintType::NonZero, ConstraintType::Bool][r.gen_range(0..3)], var: id(r) } } }
impl<C: Config> Any for hint_normalized::Irc<C> { const TAGS: u8 = 6;
    fn any(r: &mut StdRng) -> hint_normalized::Instruction<C> { use hint_normalized::Instruction as I;
        match r.gen_range(0..6) { 0 => I::LinComb(lc(r)), 1 => I::Mul(ids(r)), 2 => I::Hint { hint_id: id(r), inputs: ids(r), num_outputs: id(r) }, 3 => I::ConstantLike(coef_any(r)), 4 => I::SubCircuitCall { sub_circuit_id: id(r), inputs: ids(r), num_outputs: id(r) }, _ => I::CustomGate { gate_type: id(r), inputs: ids(r) } } }
    fn acon(r: &mut StdRng) -> <hint_normalized::Irc<C> as IrConfig>::Constraint { hint_con(id(r)) } }
fn hint_con<T: From<usize>>(v: usize) -> T { T::from(v) }
fn insn<I: Any>(r: &mut StdRng, log: &mut String) -> Case where I::Instruction: ExpSerde + PartialEq + Debug, I::Constraint: ExpSerde + PartialEq + Debug {
    let i = I::any(r); *log = format!("{i:?}"); let b = trip(r, &i, "instruction", |a, b| a == b)?;
    let mut t = b.clone(); t[0] = if r.gen_bool(0.5) { 0 } else { r.gen_range(I::TAGS + 1..=255) }; t.extend([0; 64]); refuse::<I::Instruction>(&t, &format!("instruction tag {}", t[0]))?;
    let c = I::acon(r); *log = format!("{c:?}"); trip(r, &c, "constraint", |a, b| a == b)?; Ok(())
}
fn tags<C: Config>(r: &mut StdRng, _: usize, log: &mut String) -> Case {
    use source::*;
    // operation tags
    for (i, n) in [(Instruction::<C>::BoolBinOp { x: id(r), y: id(r), op: BoolBinOpType::And }, 3), (Instruction::UnconstrainedBinOp { x: id(r), y: id(r), op: UnconstrainedBinOpType::Mod }, 17)] {
        let mut b = enc(&i)?; let k = b.len() - 1; b[k] = if r.gen_bool(0.4) { 0 } else { r.gen_range(n + 1..=255) }; *log = format!("{i:?} tag {}", b[k]); refuse::<Instruction<C>>(&b, "operation tag")?; }
    let mut b = enc(&Constraint { typ: ConstraintType::Bool, var: id(r) })?; b[0] = if r.gen_bool(0.4) { 0 } else { r.gen_range(4..=255) }; refuse::<Constraint>(&b, "constraint tag")?;
    let c = coef_any::<C>(r); *log = format!("{c:?}"); let mut b = trip(r, &c, "coefficient", |a, b| a == b)?; b[0] = if r.gen_bool(0.4) { 0 } else { r.gen_range(4..=255) }; b.extend([0; 40]); refuse::<Coef<C>>(&b, "coefficient tag")?;
    let l = lc::<C>(r); *log = format!("{l:?}"); trip(r, &l, "linear combination", |a, b| a == b)?;
    insn::<source::Irc<C>>(r, log)?; insn::<hint_normalized::Irc<C>>(r, log)
}
fn any_root<I: Any + GenIr>(r: &mut StdRng, size: usize) -> RootCircuit<I> {
    if r.gen_bool(0.5) { return root::<I>(r, size, &Opts { zero_inputs: true, ..Opts::default() }); }
    let n = r.gen_range(0..4); RootCircuit { num_public_inputs: id(r), expected_num_output_zeroes: id(r), circuits: (0..n).map(|_| (id(r), IrCircuit { instructions: (0..r.gen_range(0..3 + size / 2)).map(|_| I::any(r)).collect(), constraints: (0..r.gen_range(0..3)).map(|_| I::acon(r)).collect(), outputs: ids(r), num_inputs: id(r) })).collect() }
}
fn roots<I: Any + GenIr>(r: &mut StdRng, size: usize, log: &mut String) -> Case where I::Instruction: ExpSerde, I::Constraint: ExpSerde {
    let x = any_root::<I>(r, size); *log = format!("{x:?}"); let mut b = trip(r, &x, "circuit set", |a, b| a == b)?;
    b[r.gen_range(0..8)] ^= 1 << r.gen_range(0..8); refuse::<RootCircuit<I>>(&b, "another configuration id")
}
fn ir<C: Config>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    roots::<source::Irc<C>>(r, size, log)?; roots::<hint_normalized::Irc<C>>(r, size, log)?;
    let w = WitnessSolver { circuit: any_root::<hint_normalized::Irc<C>>(r, size) }; *log = format!("solver of {:?}", w.circuit);
    let mut b = trip(r, &w, "solver", |a, b| a.circuit == b.circuit)?; b[r.gen_range(0..8)] ^= 1 << r.gen_range(0..8); refuse::<WitnessSolver<C>>(&b, "a solver of another configuration")
}
fn cross<C: Config, D: Config>(r: &mut StdRng) -> Case {
    let b = enc(&any_root::<source::Irc<C>>(r, 4))?; refuse::<RootCircuit<source::Irc<D>>>(&b, "a circuit set of another field")?;
    let b = enc(&layered::<C, NormalInputType>(r, 3, true))?; refuse::<layered::Circuit<D, NormalInputType>>(&b, "a layered circuit of another field")?;
    let b = enc(&wit::<C>(r).0)?; ensure!(dec::<Witness<D>>(&b)?.is_err(), "a witness of another field is accepted"); Ok(())
}
fn crosses(r: &mut StdRng, _: usize, log: &mut String) -> Case { *log = "across fields".into(); cross::<M31Config, GF2Config>(r)?; cross::<GF2Config, BN254Config>(r)?; cross::<BN254Config, GoldilocksConfig>(r)?; cross::<GoldilocksConfig, BabyBearConfig>(r)?; cross::<BabyBearConfig, M31Config>(r) }
fn lay<C: Config, I: InputType>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let mut c = layered::<C, I>(r, size, true);
    if r.gen_bool(0.4) { c.num_public_inputs = id(r); c.num_actual_outputs = id(r); c.expected_num_output_zeroes = id(r); c.layer_ids = ids(r);
        for s in c.segments.iter_mut() { if r.gen_bool(0.3) { s.num_outputs = id(r); } for g in s.gate_muls.iter_mut() { g.output = id(r); g.coef = coef_any(r); } for g in s.gate_consts.iter_mut() { g.coef = coef_any(r); g.output = id(r); } for g in s.gate_customs.iter_mut() { g.gate_type = id(r); g.coef = coef_any(r); if r.gen_bool(0.3) { g.inputs.clear(); } } } }
    *log = format!("{c:?}"); let b = trip(r, &c, "layered circuit", |a, b| a == b)?;
    let mut m = b.clone(); m[r.gen_range(0..8)] ^= 1 << r.gen_range(0..8); refuse::<layered::Circuit<C, I>>(&m, "another file marker")?;
    let mut m = b.clone(); m[8 + r.gen_range(0..32)] ^= 1 << r.gen_range(0..8); refuse::<layered::Circuit<C, I>>(&m, "another modulus")?;
    for s in &c.segments { let x = trip(r, s, "segment", |a, b| a == b)?; let _ = x; for g in &s.gate_customs { trip(r, g, "custom gate", |a, b| a == b)?; } for g in &s.gate_muls { trip(r, g, "multiplication", |a, b| a == b)?; } for g in &s.gate_consts { trip(r, g, "constant gate", |a, b| a == b)?; } }
    Ok(())
}
fn wit<C: Config>(r: &mut StdRng) -> (Witness<C>, Vec<(Vec<F<C>>, Vec<F<C>>)>) {
    let p = SIMDField::<C>::PACK_SIZE; let n = match r.gen_range(0..4) { 0 => p + r.gen_range(0..3), 1 => 1, _ => r.gen_range(0..5) }; let (a, b) = (r.gen_range(0..4), r.gen_range(0..3));
    let rows: Vec<(Vec<_>, Vec<_>)> = (0..n).map(|_| ((0..a).map(|_| fe::<C>(r)).collect(), (0..b).map(|_| fe::<C>(r)).collect())).collect();
    let values = if n > 0 && r.gen() { let mut v = vec![]; for q in 0..(n + p - 1) / p { for t in 0..a + b { v.push(SIMDField::<C>::pack(&(0..p).map(|j| { let (x, y) = &rows[(q * p + j).min(n - 1)]; if t < a { x[t] } else { y[t - a] } }).collect::<Vec<_>>())); } } WitnessValues::Simd(v) }
        else { WitnessValues::Scalar(rows.iter().flat_map(|(x, y)| x.iter().chain(y).copied().collect::<Vec<_>>()).collect()) };
    (Witness { num_witnesses: n, num_inputs_per_witness: a, num_public_inputs_per_witness: b, values }, rows)
}
fn other<C: Config>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let (w, rows) = wit::<C>(r); *log = format!("witness {rows:?}");
    trip(r, &w, "witness", |a, b| (a.num_witnesses, a.num_inputs_per_witness, a.num_public_inputs_per_witness) == (b.num_witnesses, b.num_inputs_per_witness, b.num_public_inputs_per_witness) && b.iter_scalar().collect::<Vec<_>>() == rows)?;
    let m = InputMapping::new(id(r), (0..r.gen_range(0..10)).map(|_| if r.gen_bool(0.3) { EMPTY } else { id(r) }).collect()); *log = format!("{m:?}"); trip(r, &m, "input map", |a, b| a == b)?;
    let mut kernel = || Kernel::<C> { hint_solver: if r.gen() { Some(any_root::<hint_normalized::Irc<C>>(r, size / 2)) } else { None }, layered_circuit: layered::<C, NormalInputType>(r, size / 2, true), layered_circuit_input: (0..r.gen_range(0..3)).map(|_| LayeredCircuitInputVec { len: id(r), offset: id(r) }).collect() };
    let ks = vec![kernel(), kernel()]; *log = format!("{ks:?}"); trip(r, &ks[0], "kernel", |a, b| a == b)?;
    let t = |r: &mut StdRng| ProofTemplate { kernel_id: id(r), commitment_indices: ids(r), commitment_bit_orders: (0..r.gen_range(0..3)).map(|_| ids(r)).collect(), parallel_count: id(r), is_broadcast: (0..r.gen_range(0..4)).map(|_| r.gen()).collect() };
    let g = ComputationGraph::<C> { kernels: ks, commitments_lens: ids(r), proof_templates: (0..r.gen_range(0..3)).map(|_| t(r)).collect() };
    *log = format!("{g:?}"); trip(r, &g, "computation graph", |a, b| a.kernels == b.kernels && a.commitments_lens == b.commitments_lens && a.proof_templates == b.proof_templates)?; Ok(())
}
fn prim<C: Config>(r: &mut StdRng, _: usize, log: &mut String) -> Case {
    let n = r.gen_range(1..4); let k = r.gen_range(0..4); *log = format!("kernel of {n} wires, {k} steps");
    let p = no_panic(|| compile_with_spec_and_shapes::<C, _>(|api, v| { let mut x = v[0][0]; for i in 0..k { x = api.mul(x, v[0][i % n]); } v[1][0] = api.add(x, 1); }, &[IOVecSpec { len: n, is_input: true, is_output: false }, IOVecSpec { len: 1, is_input: false, is_output: true }], &[vec![n], vec![1]]))?.map_err(|e| e.to_string())?;
    trip(r, &p, "kernel description", |a, b| a == b)?; Ok(())
}
fn main() {
    let mut s = Search::new();
    s.part("tags-m31", 0.06, u64::MAX, tags::<M31Config>); s.part("tags-bn254", 0.05, u64::MAX, tags::<BN254Config>); s.part("tags-gf2", 0.04, u64::MAX, tags::<GF2Config>); s.part("tags-goldilocks", 0.04, u64::MAX, tags::<GoldilocksConfig>); s.part("tags-babybear", 0.04, u64::MAX, tags::<BabyBearConfig>);
    s.part("ir-m31", 0.08, u64::MAX, ir::<M31Config>); s.part("ir-gf2", 0.04, u64::MAX, ir::<GF2Config>); s.part("ir-bn254", 0.04, u64::MAX, ir::<BN254Config>); s.part("ir-goldilocks", 0.04, u64::MAX, ir::<GoldilocksConfig>); s.part("ir-babybear", 0.04, u64::MAX, ir::<BabyBearConfig>);
    s.part("cross", 0.03, u64::MAX, crosses);
    s.part("layered-m31", 0.08, u64::MAX, lay::<M31Config, NormalInputType>); s.part("layered-bn254-cross", 0.06, u64::MAX, lay::<BN254Config, CrossLayerInputType>); s.part("layered-gf2-cross", 0.06, u64::MAX, lay::<GF2Config, CrossLayerInputType>); s.part("layered-goldilocks", 0.04, u64::MAX, lay::<GoldilocksConfig, NormalInputType>);
    s.part("other-m31", 0.08, u64::MAX, other::<M31Config>); s.part("other-gf2", 0.05, u64::MAX, other::<GF2Config>); s.part("other-bn254", 0.05, u64::MAX, other::<BN254Config>); s.part("other-babybear", 0.03, u64::MAX, other::<BabyBearConfig>);
    s.part("kernel-m31", 0.02, 2000, prim::<M31Config>); s.part("kernel-bn254", 0.02, 1000, prim::<BN254Config>);
    s.finish()
}
