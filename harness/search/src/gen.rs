//! Random programs, circuits and what they mean, written from the definitions and not from the code under test.
use arith::Field as _;
use expander_compiler::circuit::config::{CircuitField, Config};
use expander_compiler::circuit::ir::common::{Circuit, Constraint as _, Instruction as _, IrConfig, RootCircuit};
use expander_compiler::circuit::ir::expr::{Expression, LinComb, LinCombTerm, Term, VarSpec};
use expander_compiler::circuit::ir::{dest, hint_less, hint_normalized, source};
use expander_compiler::circuit::layered::{self, Allocation, Coef, Gate, GateCustom, Input as _, InputType, InputUsize as _, Segment};
use expander_compiler::field::Field;
use ethnum::U256;
use rand::{rngs::StdRng, Rng, RngCore, SeedableRng};

pub type F<C> = CircuitField<C>;
/// a field element: often small or special
pub fn fe<C: Config>(r: &mut StdRng) -> F<C> {
    match r.gen_range(0..10) { 0 => F::<C>::zero(), 1 | 2 => F::<C>::one(), 3 => -F::<C>::one(), 4 | 5 => F::<C>::from(r.gen_range(0..5u32)), _ => F::<C>::random_unsafe(r) }
}
/// an input value: often a bit
pub fn inp<C: Config>(r: &mut StdRng) -> F<C> { if r.gen_bool(0.4) { F::<C>::from(r.gen_range(0..2u32)) } else { fe::<C>(r) } }
pub fn nz<C: Config>(r: &mut StdRng) -> F<C> { loop { let x = fe::<C>(r); if !x.is_zero() { return x; } } }
thread_local! { static P_RANDOM: std::cell::Cell<f64> = const { std::cell::Cell::new(0.0) }; static RANDOM: std::cell::RefCell<Option<StdRng>> = const { std::cell::RefCell::new(None) }; static SAME: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) }; }
/// All random values drawn are the same one.
pub fn random_same(s: Option<u64>) { SAME.with(|x| x.set(s)); random_seed(s); }
/// how often a generated coefficient is a random value (0 unless set)
pub fn random_coefs(p: f64) { P_RANDOM.with(|x| x.set(p)); }
/// random values are drawn with this seed; without one they have no value
pub fn random_seed(s: Option<u64>) { RANDOM.with(|x| *x.borrow_mut() = s.map(StdRng::seed_from_u64)); }
pub fn coef<C: Config>(r: &mut StdRng, npub: usize) -> Coef<C> { let p = P_RANDOM.with(|x| x.get()); if p > 0.0 && r.gen_bool(p) { return Coef::Random; } if npub > 0 && r.gen_bool(0.3) { Coef::PublicInput(r.gen_range(0..npub)) } else { Coef::Constant(fe::<C>(r)) } }

// ---------------------------------------------------------------- what hints and custom gates compute here
/// hints with this id fail on some inputs
pub const BAD_HINT: usize = 77;
pub fn hint_value<Fi: Field>(id: usize, a: &[Fi], n: usize) -> Option<Vec<Fi>> {
    let mut s = id as u64 ^ 0x1234_5678;
    for x in a { let w: U256 = x.to_u256(); for k in 0..4 { s = s.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (w >> (64 * k as u32)).as_u64(); s ^= s >> 29; } }
    if id == BAD_HINT && s % 3 == 0 { return None; }
    let mut r = StdRng::seed_from_u64(s);
    Some((0..n).map(|_| if r.gen_bool(0.5) { Fi::from(r.gen_range(0..3u32)) } else { Fi::random_unsafe(&mut r) }).collect())
}
pub struct Hints;
impl<Fi: Field> expander_compiler::hints::registry::HintCaller<Fi> for Hints {
    fn call(&self, id: usize, args: &[Fi], n: usize) -> Result<Vec<Fi>, expander_compiler::utils::error::Error> {
        hint_value(id, args, n).ok_or_else(|| expander_compiler::utils::error::Error::UserError("the hint refuses".into()))
    }
}

// ---------------------------------------------------------------- intermediate representations
pub struct Env<'a, Fi> { pub publics: &'a [Fi], pub hint: &'a dyn Fn(usize, &[Fi], usize) -> Option<Vec<Fi>>, pub custom: &'a dyn Fn(usize, &[Fi]) -> Fi }
pub fn pubval<C: Config>(c: &Coef<C>, p: &[F<C>]) -> Option<F<C>> { match c { Coef::Constant(x) => Some(*x), Coef::PublicInput(i) => p.get(*i).copied(), Coef::Random => { if let Some(s) = SAME.with(|x| x.get()) { random_seed(Some(s)); } RANDOM.with(|r| r.borrow_mut().as_mut().map(|r| F::<C>::random_unsafe(r))) } } }
pub trait GenIr: IrConfig {
    /// how much of the instruction set to use: custom gates, hints that may fail
    fn gen(r: &mut StdRng, nv: usize, npub: usize, o: &Opts) -> Self::Instruction;
    fn value(i: &Self::Instruction, v: &[F<Self::Config>], e: &Env<F<Self::Config>>) -> Option<Vec<F<Self::Config>>>;
    fn con(r: &mut StdRng, v: usize) -> Self::Constraint;
    fn holds(c: &Self::Constraint, x: F<Self::Config>) -> bool;
}
#[derive(Clone)]
pub struct Opts { pub custom: bool, pub hints: bool, pub builtin: bool, pub bad_hints: bool, pub unconstrained: bool, pub zero_inputs: bool, pub unused: bool, pub easy: bool }
impl Default for Opts { fn default() -> Self { Opts { custom: true, hints: true, builtin: true, bad_hints: false, unconstrained: true, zero_inputs: false, unused: true, easy: false } } }
fn v1(r: &mut StdRng, nv: usize) -> usize { if nv > 6 && r.gen_bool(0.5) { nv - r.gen_range(0..6) } else { r.gen_range(1..=nv) } }
fn vs(r: &mut StdRng, nv: usize, lo: usize, hi: usize) -> Vec<usize> { let n = r.gen_range(lo..=hi); (0..n).map(|_| v1(r, nv)).collect() }
fn lincomb<C: Config>(r: &mut StdRng, nv: usize) -> LinComb<C> {
    let n = if nv == 0 { 0 } else { r.gen_range(0..5) };
    LinComb { terms: (0..n).map(|_| LinCombTerm { var: v1(r, nv), coef: fe::<C>(r) }).collect(), constant: if r.gen_bool(0.5) { F::<C>::zero() } else { fe::<C>(r) } }
}
fn lc_value<C: Config>(l: &LinComb<C>, v: &[F<C>]) -> F<C> { let mut s = l.constant; for t in &l.terms { s = s + v[t.var] * t.coef; } s }
fn prod<Fi: Field>(xs: impl Iterator<Item = Fi>) -> Fi { let mut p = Fi::one(); for x in xs { p = p * x; } p }
fn hint_insn(r: &mut StdRng, nv: usize, o: &Opts) -> (usize, Vec<usize>, usize) {
    if o.builtin && r.gen_bool(0.4) {
        let b = expander_compiler::hints::BuiltinHintIds::Identity as u64 as usize;
        let id = b + r.gen_range(0..20); use expander_compiler::hints::validate_hint;
        loop { let (n, m) = (r.gen_range(1..4), r.gen_range(1..4)); if validate_hint(id, n, m).is_ok() { return (id, vs(r, nv, n, n), m); } }
    }
    let id = if o.bad_hints && r.gen_bool(0.3) { BAD_HINT } else { r.gen_range(1000..1005) };
    let m = r.gen_range(1..4);
    (id, vs(r, nv, 1, 3), m)
}
fn hint_out<Fi: Field>(id: usize, a: &[Fi], n: usize, e: &Env<Fi>) -> Option<Vec<Fi>> {
    match expander_compiler::hints::BuiltinHintIds::from_usize(id) {
        Some(expander_compiler::hints::BuiltinHintIds::ToBinary) => { let u = a[0].to_u256(); if n < 256 && (u >> n as u32) != U256::ZERO { None } else { Some((0..n).map(|k| Fi::from(if k < 256 && (u >> k as u32) & U256::ONE == U256::ONE { 1u32 } else { 0 })).collect()) } }
        Some(_) => Some(expander_compiler::hints::stub_impl(id, &a.to_vec(), n)), None => (e.hint)(id, a, n) }
}
fn u256_op<Fi: Field>(x: Fi, y: Fi, f: impl Fn(U256, U256) -> Option<U256>) -> Option<Fi> { f(x.to_u256(), y.to_u256()).map(Fi::from_u256) }

impl<C: Config> GenIr for source::Irc<C> {
    fn gen(r: &mut StdRng, nv: usize, npub: usize, o: &Opts) -> source::Instruction<C> {
        use source::Instruction as I;
        if nv == 0 { return if r.gen_bool(0.5) { I::ConstantLike(coef(r, npub)) } else { I::LinComb(lincomb(r, 0)) }; }
        loop { return match r.gen_range(0..12) {
            0 | 1 => I::LinComb(lincomb(r, nv)), 2 | 3 => I::Mul(vs(r, nv, 2, 4)), 4 => I::ConstantLike(coef(r, npub)),
            5 => I::Div { x: v1(r, nv), y: v1(r, nv), checked: r.gen_bool(0.5) },
            6 if !o.easy => { use source::BoolBinOpType::*; I::BoolBinOp { x: v1(r, nv), y: v1(r, nv), op: match r.gen_range(0..3) { 0 => Xor, 1 => Or, _ => And } } }
            7 => I::IsZero(v1(r, nv)),
            8 if o.hints => { let (hint_id, inputs, num_outputs) = hint_insn(r, nv, o); I::Hint { hint_id, inputs, num_outputs } }
            9 if o.unconstrained => { use source::UnconstrainedBinOpType::*; let op = match r.gen_range(0..17) { 0 => Div, 1 => Pow, 2 => IntDiv, 3 => Mod, 4 => ShiftL, 5 => ShiftR, 6 => LesserEq, 7 => GreaterEq, 8 => Lesser, 9 => Greater, 10 => Eq, 11 => NotEq, 12 => BoolOr, 13 => BoolAnd, 14 => BitOr, 15 => BitAnd, _ => BitXor }; I::UnconstrainedBinOp { x: v1(r, nv), y: v1(r, nv), op } }
            10 if o.unconstrained => I::UnconstrainedSelect { cond: v1(r, nv), if_true: v1(r, nv), if_false: v1(r, nv) },
            11 if o.custom && r.gen_bool(0.5) => I::CustomGate { gate_type: r.gen_range(500..503), inputs: vs(r, nv, 1, 3) },
            11 if !o.easy => I::ToBinary { x: v1(r, nv), num_bits: if r.gen_bool(0.7) { r.gen_range(1..4) } else { 34 } },
            _ => continue,
        } }
    }
    fn value(i: &source::Instruction<C>, v: &[F<C>], e: &Env<F<C>>) -> Option<Vec<F<C>>> {
        use source::Instruction as I; let one = F::<C>::one(); let zero = F::<C>::zero();
        let bit = |b: bool| if b { one } else { zero };
        Some(match i {
            I::LinComb(l) => vec![lc_value(l, v)], I::Mul(x) => vec![prod(x.iter().map(|k| v[*k]))], I::ConstantLike(c) => vec![pubval(c, e.publics)?],
            I::Div { x, y, checked } => { let (x, y) = (v[*x], v[*y]); if y.is_zero() { if x.is_zero() && !*checked { vec![zero] } else { return None } } else { vec![x * y.inv().unwrap()] } }
            I::BoolBinOp { x, y, op } => { let (x, y) = (v[*x], v[*y]); if (x != zero && x != one) || (y != zero && y != one) { return None; } let (a, b) = (x == one, y == one); vec![bit(match op { source::BoolBinOpType::Xor => a ^ b, source::BoolBinOpType::Or => a | b, source::BoolBinOpType::And => a & b })] }
            I::IsZero(x) => vec![bit(v[*x] == zero)],
            I::Commit(_) => return None,
            I::Hint { hint_id, inputs, num_outputs } => hint_out(*hint_id, &inputs.iter().map(|k| v[*k]).collect::<Vec<_>>(), *num_outputs, e)?,
            I::SubCircuitCall { .. } => unreachable!(),
            I::UnconstrainedBinOp { x, y, op } => { use source::UnconstrainedBinOpType::*; let (x, y) = (v[*x], v[*y]); let cmp = |f: fn(&U256, &U256) -> bool| Some(bit(f(&x.to_u256(), &y.to_u256())));
                vec![match op { Div => { if y.is_zero() { return None } Some(x * y.inv().unwrap()) }, Pow => { let mut p = one; let n = y.to_u256(); for k in (0..256).rev() { p = p * p; if (n >> k) & U256::ONE == U256::ONE { p = p * x; } } Some(p) }
                    IntDiv => u256_op(x, y, |a, b| a.checked_div(b)), Mod => u256_op(x, y, |a, b| a.checked_rem(b)),
                    ShiftL => u256_op(x, y, |a, b| Some(expander_compiler::hints::circom_shift_l_impl::<F<C>>(a, b))), ShiftR => u256_op(x, y, |a, b| Some(expander_compiler::hints::circom_shift_r_impl::<F<C>>(a, b))),
                    LesserEq => cmp(|a, b| a <= b), GreaterEq => cmp(|a, b| a >= b), Lesser => cmp(|a, b| a < b), Greater => cmp(|a, b| a > b), Eq => Some(bit(x == y)), NotEq => Some(bit(x != y)),
                    BoolOr => Some(bit(x != zero || y != zero)), BoolAnd => Some(bit(x != zero && y != zero)), BitOr => u256_op(x, y, |a, b| Some(a | b)), BitAnd => u256_op(x, y, |a, b| Some(a & b)), BitXor => u256_op(x, y, |a, b| Some(a ^ b)) }?] }
            I::UnconstrainedSelect { cond, if_true, if_false } => vec![if v[*cond] == zero { v[*if_false] } else { v[*if_true] }],
            I::CustomGate { gate_type, inputs } => vec![(e.custom)(*gate_type, &inputs.iter().map(|k| v[*k]).collect::<Vec<_>>())],
            I::ToBinary { x, num_bits } => { let u = v[*x].to_u256(); if *num_bits < 256 && (u >> *num_bits as u32) != U256::ZERO { return None; } (0..*num_bits).map(|k| bit(k < 256 && (u >> k as u32) & U256::ONE == U256::ONE)).collect() }
        })
    }
    fn con(r: &mut StdRng, var: usize) -> source::Constraint { use source::ConstraintType::*; source::Constraint { var, typ: match r.gen_range(0..3) { 0 => Zero, 1 => NonZero, _ => Bool } } }
    fn holds(c: &source::Constraint, x: F<C>) -> bool { match c.typ { source::ConstraintType::Zero => x == F::<C>::zero(), source::ConstraintType::NonZero => x != F::<C>::zero(), source::ConstraintType::Bool => x == F::<C>::zero() || x == F::<C>::one() } }
}
impl<C: Config> GenIr for hint_normalized::Irc<C> {
    fn gen(r: &mut StdRng, nv: usize, npub: usize, o: &Opts) -> hint_normalized::Instruction<C> {
        use hint_normalized::Instruction as I;
        if nv == 0 { return if r.gen_bool(0.5) { I::ConstantLike(coef(r, npub)) } else { I::LinComb(lincomb(r, 0)) }; }
        loop { return match r.gen_range(0..8) {
            0 | 1 => I::LinComb(lincomb(r, nv)), 2 | 3 => I::Mul(vs(r, nv, 2, 4)), 4 => I::ConstantLike(coef(r, npub)),
            5 | 6 if o.hints => { let (hint_id, inputs, num_outputs) = hint_insn(r, nv, o); I::Hint { hint_id, inputs, num_outputs } }
            7 if o.custom => I::CustomGate { gate_type: r.gen_range(500..503), inputs: vs(r, nv, 1, 3) },
            _ => continue,
        } }
    }
    fn value(i: &hint_normalized::Instruction<C>, v: &[F<C>], e: &Env<F<C>>) -> Option<Vec<F<C>>> {
        use hint_normalized::Instruction as I;
        Some(match i {
            I::LinComb(l) => vec![lc_value(l, v)], I::Mul(x) => vec![prod(x.iter().map(|k| v[*k]))], I::ConstantLike(c) => vec![pubval(c, e.publics)?],
            I::Hint { hint_id, inputs, num_outputs } => hint_out(*hint_id, &inputs.iter().map(|k| v[*k]).collect::<Vec<_>>(), *num_outputs, e)?,
            I::SubCircuitCall { .. } => unreachable!(),
            I::CustomGate { gate_type, inputs } => vec![(e.custom)(*gate_type, &inputs.iter().map(|k| v[*k]).collect::<Vec<_>>())],
        })
    }
    fn con(_: &mut StdRng, var: usize) -> usize { var }
    fn holds(_: &usize, x: F<C>) -> bool { x == F::<C>::zero() }
}
impl<C: Config> GenIr for hint_less::Irc<C> {
    fn gen(r: &mut StdRng, nv: usize, npub: usize, o: &Opts) -> hint_less::Instruction<C> {
        use hint_less::Instruction as I;
        if nv == 0 { return if r.gen_bool(0.5) { I::ConstantLike(coef(r, npub)) } else { I::LinComb(lincomb(r, 0)) }; }
        loop { return match r.gen_range(0..6) {
            0 | 1 => I::LinComb(lincomb(r, nv)), 2 | 3 => I::Mul(vs(r, nv, 2, 4)), 4 => I::ConstantLike(coef(r, npub)),
            5 if o.custom => I::CustomGate { gate_type: r.gen_range(500..503), inputs: vs(r, nv, 1, 3) },
            _ => continue,
        } }
    }
    fn value(i: &hint_less::Instruction<C>, v: &[F<C>], e: &Env<F<C>>) -> Option<Vec<F<C>>> {
        use hint_less::Instruction as I;
        Some(match i {
            I::LinComb(l) => vec![lc_value(l, v)], I::Mul(x) => vec![prod(x.iter().map(|k| v[*k]))], I::ConstantLike(c) => vec![pubval(c, e.publics)?],
            I::SubCircuitCall { .. } => unreachable!(),
            I::CustomGate { gate_type, inputs } => vec![(e.custom)(*gate_type, &inputs.iter().map(|k| v[*k]).collect::<Vec<_>>())],
        })
    }
    fn con(_: &mut StdRng, var: usize) -> usize { var }
    fn holds(_: &usize, x: F<C>) -> bool { x == F::<C>::zero() }
}
fn dest_gen<C: Config>(r: &mut StdRng, nv: usize, npub: usize, o: &Opts) -> dest::Instruction<C> {
    use dest::Instruction as I;
    if nv == 0 || r.gen_bool(0.15) { return I::ConstantLike { value: coef(r, npub) }; }
    let n = r.gen_range(1..5);
    I::InternalVariable { expr: Expression::from_terms((0..n).map(|_| Term { coef: nz::<C>(r), vars: match r.gen_range(0..8) { 0 => VarSpec::Const, 1 | 2 | 3 => VarSpec::Linear(v1(r, nv)), 7 if o.custom => VarSpec::Custom { gate_type: r.gen_range(500..503), inputs: vs(r, nv, 1, 3) }, _ => { let (a, b) = (v1(r, nv), v1(r, nv)); VarSpec::Quad(a.max(b), a.min(b)) } } }).collect()) }
}
fn dest_value<C: Config>(i: &dest::Instruction<C>, v: &[F<C>], e: &Env<F<C>>) -> Option<Vec<F<C>>> {
    use dest::Instruction as I;
    Some(match i {
        I::InternalVariable { expr } => { let mut s = F::<C>::zero(); for t in expr.iter() { s = s + match &t.vars { VarSpec::Const => t.coef, VarSpec::Linear(a) => t.coef * v[*a], VarSpec::Quad(a, b) => t.coef * v[*a] * v[*b], VarSpec::Custom { gate_type, inputs } => t.coef * (e.custom)(*gate_type, &inputs.iter().map(|k| v[*k]).collect::<Vec<_>>()), VarSpec::RandomLinear(a) => pubval::<C>(&Coef::Random, e.publics)? * v[*a] }; } vec![s] }
        I::SubCircuitCall { .. } => unreachable!(),
        I::ConstantLike { value } => vec![pubval(value, e.publics)?],
    })
}
macro_rules! dest_ir { ($t:ident) => { impl<C: Config> GenIr for dest::$t<C> {
    fn gen(r: &mut StdRng, nv: usize, npub: usize, o: &Opts) -> dest::Instruction<C> { dest_gen(r, nv, npub, o) }
    fn value(i: &dest::Instruction<C>, v: &[F<C>], e: &Env<F<C>>) -> Option<Vec<F<C>>> { dest_value(i, v, e) }
    fn con(_: &mut StdRng, var: usize) -> usize { var }
    fn holds(_: &usize, x: F<C>) -> bool { x == F::<C>::zero() }
} } }
dest_ir!(Irc); dest_ir!(IrcRelaxed);

/// A valid root circuit with sub circuits (ids other than 0 are arbitrary numbers), by the rules of the representation.
pub fn root<I: GenIr>(r: &mut StdRng, size: usize, o: &Opts) -> RootCircuit<I> {
    let nc = r.gen_range(1..=1 + size.min(24) / 4);
    let mut ids = vec![0usize]; while ids.len() < nc { let x = if r.gen_bool(0.5) { r.gen_range(1..50) } else { r.next_u64() as usize }; if !ids.contains(&x) { ids.push(x); } }
    let npub = r.gen_range(0..4);
    let mut root = RootCircuit::<I> { num_public_inputs: npub, expected_num_output_zeroes: 0, circuits: Default::default() };
    for i in (0..nc).rev() {
        let num_inputs = if o.zero_inputs && r.gen_bool(0.1) { 0 } else { r.gen_range(1..=2 + size.min(16) / 4) };
        let n = r.gen_range(if i == 0 { 1 } else { 0 }..=2 + size.min(30) / 2);
        let mut instructions = vec![]; let mut nv = num_inputs;
        for _ in 0..n {
            if i + 1 < nc && r.gen_bool(0.35) {
                let s = ids[r.gen_range(i + 1..nc)]; let c: &Circuit<I> = &root.circuits[&s]; let (a, b) = (c.num_inputs, c.outputs.len());
                if (nv > 0 || a == 0) && (I::ALLOW_DUPLICATE_SUB_CIRCUIT_INPUTS || a <= nv) {
                    let mut ins = vec![]; while ins.len() < a { let x = v1(r, nv); if I::ALLOW_DUPLICATE_SUB_CIRCUIT_INPUTS || !ins.contains(&x) { ins.push(x); } }
                    instructions.push(I::Instruction::sub_circuit_call(s, ins, b)); nv += b; continue;
                }
            }
            let x = I::gen(r, nv, npub, o); nv += x.num_outputs(); instructions.push(x);
        }
        if nv == 0 { let x = I::gen(r, 0, npub, o); nv += x.num_outputs(); instructions.push(x); }
        let mut outputs = vec![]; let no = r.gen_range(if i == 0 { 1 } else { 0 }..=3.min(1 + size / 3));
        for _ in 0..no { let x = v1(r, nv); if I::ALLOW_DUPLICATE_OUTPUTS || !outputs.contains(&x) { outputs.push(x); } }
        let mut constraints = vec![]; let k = if r.gen_bool(0.4) { r.gen_range(1..3) } else { 0 };
        for _ in 0..k { let x = v1(r, nv); if I::ALLOW_DUPLICATE_CONSTRAINTS || !constraints.iter().any(|c: &I::Constraint| c.var() == x) { constraints.push(I::con(r, x)); } }
        root.circuits.insert(ids[i], Circuit { instructions, constraints, outputs, num_inputs });
    }
    if r.gen_bool(0.3) { root.expected_num_output_zeroes = r.gen_range(0..=root.circuits[&0].outputs.len()); }
    root
}
/// The outputs (all of them) and whether every constraint holds; None where the program has no value.
pub fn eval<I: GenIr>(root: &RootCircuit<I>, id: usize, inputs: &[F<I::Config>], e: &Env<F<I::Config>>) -> Option<(Vec<F<I::Config>>, bool)> {
    let c = &root.circuits[&id]; assert_eq!(inputs.len(), c.num_inputs);
    let mut v = vec![F::<I::Config>::zero()]; v.extend_from_slice(inputs); let mut ok = true;
    for i in &c.instructions {
        if let Some((s, ins, _)) = i.as_sub_circuit_call() { let (o, k) = eval(root, s, &ins.iter().map(|x| v[*x]).collect::<Vec<_>>(), e)?; v.extend(o); ok &= k; }
        else { v.extend(I::value(i, &v, e)?); }
    }
    for c in &c.constraints { ok &= I::holds(c, v[c.var()]); }
    Some((c.outputs.iter().map(|x| v[*x]).collect(), ok))
}
/// The same for the whole program: the visible outputs and the verdict, leading outputs that must be zero included.
pub fn run<I: GenIr>(root: &RootCircuit<I>, inputs: &[F<I::Config>], e: &Env<F<I::Config>>) -> Option<(Vec<F<I::Config>>, bool)> {
    let (o, ok) = eval(root, 0, inputs, e)?; let z = root.expected_num_output_zeroes;
    Some((o[z..].to_vec(), ok && o[..z].iter().all(|x| x.is_zero())))
}
pub fn custom_stub<Fi: Field>(t: usize, a: &[Fi]) -> Fi { expander_compiler::hints::stub_impl(t, &a.to_vec(), 1)[0] }

// ---------------------------------------------------------------- layered circuits
#[derive(Clone, Debug, PartialEq)]
pub struct FlatGate<C: Config> { pub kind: usize, pub inputs: Vec<(usize, usize)>, pub out: usize, pub coef: Coef<C> }
/// every gate of a segment and of the segments placed in it, at its place; `kind` is 2 (mul), 1 (add), 0 (const) or 3 + a custom type
pub fn flatten<C: Config, I: InputType>(c: &layered::Circuit<C, I>, seg: usize, ioff: &[usize], ooff: usize, out: &mut Vec<FlatGate<C>>) {
    let s = &c.segments[seg]; let pos = |x: &I::Input| (x.layer(), x.offset() + ioff[x.layer()]);
    for g in &s.gate_muls { out.push(FlatGate { kind: 2, inputs: g.inputs.iter().map(pos).collect(), out: g.output + ooff, coef: g.coef }); }
    for g in &s.gate_adds { out.push(FlatGate { kind: 1, inputs: g.inputs.iter().map(pos).collect(), out: g.output + ooff, coef: g.coef }); }
    for g in &s.gate_consts { out.push(FlatGate { kind: 0, inputs: vec![], out: g.output + ooff, coef: g.coef }); }
    for g in &s.gate_customs { out.push(FlatGate { kind: 3 + g.gate_type, inputs: g.inputs.iter().map(pos).collect(), out: g.output + ooff, coef: g.coef }); }
    for (id, al) in &s.child_segs { for a in al { let v: Vec<usize> = a.input_offset.to_vec().iter().enumerate().map(|(l, x)| x + ioff[l]).collect(); flatten(c, *id, &v, a.output_offset + ooff, out); } }
}
pub fn flat_layer<C: Config, I: InputType>(c: &layered::Circuit<C, I>, seg: usize) -> Vec<FlatGate<C>> { let mut v = vec![]; flatten(c, seg, &vec![0; c.segments[seg].num_inputs.len()], 0, &mut v); v }
/// The last layer's values, by the definition of the gates; random coefficients have no value.
pub fn eval_layers<C: Config, I: InputType>(c: &layered::Circuit<C, I>, inputs: &[F<C>], publics: &[F<C>]) -> Option<Vec<F<C>>> {
    let mut cur = vec![inputs.to_vec()];
    for (l, s) in c.layer_ids.iter().enumerate() {
        let mut n = vec![F::<C>::zero(); c.segments[*s].num_outputs];
        for g in flat_layer(c, *s) {
            let k = pubval(&g.coef, publics)?; let v: Vec<F<C>> = g.inputs.iter().map(|(a, b)| cur[l - a][*b]).collect();
            let x = if g.kind >= 3 { custom_stub(g.kind - 3, &v) } else { prod(v.into_iter()) };
            n[g.out] = n[g.out] + k * x;
        }
        cur.push(n);
    }
    cur.pop()
}
pub fn eval_layered<C: Config, I: InputType>(c: &layered::Circuit<C, I>, inputs: &[F<C>], publics: &[F<C>]) -> Option<(Vec<F<C>>, bool)> {
    let o = eval_layers(c, inputs, publics)?; let z = c.expected_num_output_zeroes;
    Some((o[z..c.num_actual_outputs].to_vec(), o[..z].iter().all(|x| x.is_zero())))
}
fn mk<I: InputType>(l: usize, o: usize) -> I::Input { <I::Input as layered::Input>::new(l, o) }
/// A valid layered circuit: nested segments, several layers, gates of every kind; every value that is read has been set.
pub fn layered<C: Config, I: InputType>(r: &mut StdRng, size: usize, custom: bool) -> layered::Circuit<C, I> {
    let depth = r.gen_range(1..=1 + size.min(16) / 4); let maxlog = 1 + size.min(20) / 5;
    let npub = r.gen_range(0..3);
    let sizes: Vec<usize> = (0..=depth).map(|_| 1usize << r.gen_range(0..=maxlog)).collect();
    let mut segs: Vec<Segment<C, I>> = vec![];
    // library of small segments
    for _ in 0..r.gen_range(0..=1 + size.min(20) / 3) {
        let li = if I::CROSS_LAYER_RELAY { r.gen_range(1..=depth.min(3)) } else { 1 };
        let ni: Vec<usize> = (0..li).map(|_| 1usize << r.gen_range(0..=maxlog.min(2))).collect(); let no = 1usize << r.gen_range(0..=maxlog.min(2));
        let s = segment(r, &segs, &ni, no, npub, size, custom, &|_, _| true, false); segs.push(s);
    }
    let mut layer_ids = vec![]; let mut set: Vec<Vec<bool>> = vec![vec![true; sizes[0]]];
    for d in 0..depth {
        let li = if I::CROSS_LAYER_RELAY { r.gen_range(1..=(d + 1).min(3)) } else { 1 };
        let ni: Vec<usize> = (0..li).map(|l| sizes[d - l]).collect();
        // reuse of a segment whose sizes fit
        let fit: Vec<usize> = (0..segs.len()).filter(|k| segs[*k].num_inputs.to_vec() == ni && segs[*k].num_outputs == sizes[d + 1]).collect();
        let masks = |segs: &Vec<Segment<C, I>>, k: usize| { let c = layered::Circuit { num_public_inputs: npub, num_actual_outputs: 0, expected_num_output_zeroes: 0, segments: segs.clone(), layer_ids: vec![] }; flat_layer(&c, k) };
        let mut id = None;
        if !fit.is_empty() && r.gen_bool(0.6) { let k = fit[r.gen_range(0..fit.len())]; if masks(&segs, k).iter().all(|g| g.inputs.iter().all(|(l, o)| set[d - l][*o])) { id = Some(k); } }
        let id = id.unwrap_or_else(|| { let last = d + 1 == depth; let s = segment(r, &segs, &ni, sizes[d + 1], npub, size, custom, &|l, o| set[d - l][o], last || true); segs.push(s); segs.len() - 1 });
        let mut out = vec![false; sizes[d + 1]]; for g in masks(&segs, id) { out[g.out] = true; }
        layer_ids.push(id); set.push(out);
    }
    let num_actual_outputs = r.gen_range(1..=sizes[depth]); let expected_num_output_zeroes = if r.gen_bool(0.6) { r.gen_range(0..=num_actual_outputs.min(2)) } else { 0 };
    layered::Circuit { num_public_inputs: npub, num_actual_outputs, expected_num_output_zeroes, segments: segs, layer_ids }
}
fn segment<C: Config, I: InputType>(r: &mut StdRng, segs: &[Segment<C, I>], ni: &[usize], no: usize, npub: usize, size: usize, custom: bool, usable: &dyn Fn(usize, usize) -> bool, some: bool) -> Segment<C, I> {
    let mut s = Segment::<C, I> { num_inputs: <I::InputUsize as layered::InputUsize>::from_vec(ni.to_vec()), num_outputs: no, ..Default::default() };
    let pool: Vec<(usize, usize)> = (0..ni.len()).flat_map(|l| (0..ni[l]).map(move |o| (l, o))).filter(|(l, o)| usable(*l, *o)).collect();
    let n = r.gen_range(if some { 1 } else { 0 }..=3 + size.min(30) / 2);
    for _ in 0..n {
        let output = r.gen_range(0..no); let c = coef::<C>(r, npub);
        if pool.is_empty() { s.gate_consts.push(Gate { inputs: [], output, coef: c }); continue; }
        let p = |r: &mut StdRng| { let (l, o) = pool[r.gen_range(0..pool.len())]; mk::<I>(l, o) };
        match r.gen_range(0..8) {
            0 | 1 | 2 => { let i = [p(r), p(r)]; s.gate_muls.push(Gate { inputs: i, output, coef: c }) }
            3 | 4 | 5 => { let i = [p(r)]; s.gate_adds.push(Gate { inputs: i, output, coef: c }) }
            6 if custom => { let k = r.gen_range(1..4); s.gate_customs.push(GateCustom { gate_type: r.gen_range(500..503), inputs: (0..k).map(|_| p(r)).collect(), output, coef: c }) }
            _ => s.gate_consts.push(Gate { inputs: [], output, coef: c }),
        }
    }
    // gates shared with another segment
    if !segs.is_empty() && r.gen_bool(0.35) {
        let b = &segs[r.gen_range(0..segs.len())]; let ok = |x: &I::Input| pool.contains(&(x.layer(), x.offset()));
        for g in &b.gate_muls { if g.output < no && g.inputs.iter().all(ok) && !r.gen_bool(0.1) { s.gate_muls.push(g.clone()); } }
        for g in &b.gate_adds { if g.output < no && g.inputs.iter().all(ok) && !r.gen_bool(0.1) { s.gate_adds.push(g.clone()); } }
        for g in &b.gate_consts { if g.output < no && !r.gen_bool(0.1) { s.gate_consts.push(g.clone()); } }
        for g in &b.gate_customs { if g.output < no && g.inputs.iter().all(ok) && !r.gen_bool(0.1) { s.gate_customs.push(g.clone()); } }
    }
    // twin gates, for deduplication
    if r.gen_bool(0.4) { if let Some(g) = s.gate_muls.last() { let mut h = g.clone(); h.inputs.swap(0, 1); h.coef = Coef::Constant(nz::<C>(r)); s.gate_muls.push(h); } if let Some(g) = s.gate_adds.first() { let mut h = g.clone(); h.coef = coef(r, npub); s.gate_adds.push(h); } if let Some(g) = s.gate_consts.first() { let h = g.clone(); s.gate_consts.push(h); } }
    for _ in 0..r.gen_range(0..=1 + size.min(20) / 4) {
        if segs.is_empty() { break; }
        let k = r.gen_range(0..segs.len()); let sub = &segs[k]; let si = sub.num_inputs.to_vec();
        if si.len() > ni.len() || sub.num_outputs > no || si.iter().zip(ni).any(|(a, b)| a > b) { continue; }
        let mut al = vec![];
        for _ in 0..r.gen_range(1..4) {
            let off: Vec<usize> = si.iter().zip(ni).map(|(a, b)| a * r.gen_range(0..b / a)).collect();
            // what it reads has been set
            let c = layered::Circuit { num_public_inputs: npub, num_actual_outputs: 0, expected_num_output_zeroes: 0, segments: segs.to_vec(), layer_ids: vec![] };
            let mut v = vec![]; flatten(&c, k, &off, 0, &mut v); if !v.iter().all(|g| g.inputs.iter().all(|(l, o)| usable(*l, *o))) { continue; }
            al.push(Allocation { input_offset: <I::InputUsize as layered::InputUsize>::from_vec(off), output_offset: sub.num_outputs * r.gen_range(0..no / sub.num_outputs) });
        }
        if !al.is_empty() { s.child_segs.push((k, al)); }
    }
    s
}

// ---------------------------------------------------------------- what an instruction reads and makes, by its meaning
pub struct View { pub ops: Vec<usize>, pub outs: usize, pub own: bool }
pub trait IrView: GenIr { fn view(i: &Self::Instruction, npub: usize) -> View; /** often not acceptable */ fn odd(r: &mut StdRng, nv: usize, npub: usize) -> Self::Instruction; }
fn few(r: &mut StdRng, nv: usize) -> Vec<usize> { if nv == 0 { vec![] } else { let k = r.gen_range(0..4); vs(r, nv, k, k) } }
fn coef_view<C: Config>(c: &Coef<C>, npub: usize) -> bool { !matches!(c, Coef::PublicInput(i) if *i >= npub) }
fn odd_coef<C: Config>(r: &mut StdRng, npub: usize) -> Coef<C> { match r.gen_range(0..5) { 0 => Coef::Random, 1 => Coef::PublicInput(npub), 2 => Coef::PublicInput(usize::MAX), 3 => Coef::PublicInput(npub.wrapping_sub(1)), _ => Coef::PublicInput(0) } }
fn odd_hint(r: &mut StdRng) -> usize { if r.gen_bool(0.5) { expander_compiler::hints::BuiltinHintIds::Identity as u64 as usize + r.gen_range(0..22) } else { r.gen_range(0..2000) } }
fn odd_n(r: &mut StdRng) -> usize { match r.gen_range(0..5) { 0 => 0, 1 => 1, 2 => 2, _ => r.gen_range(0..5) } }
fn hint_view(id: usize, n: usize, m: usize) -> bool {
    use expander_compiler::hints::BuiltinHintIds::*;
    // the built-in hints have fixed shapes (checked on their own with the hints); any other hint makes something
    match expander_compiler::hints::BuiltinHintIds::from_usize(id) { Some(Identity) => n == m && n > 0, Some(Select) => n == 3 && m == 1, Some(ToBinary) => n == 1 && m > 0, Some(_) => n == 2 && m == 1, None => n > 0 && m > 0 }
}
impl<C: Config> IrView for source::Irc<C> {
    fn view(i: &source::Instruction<C>, npub: usize) -> View {
        use source::Instruction as I; let v = |ops: Vec<usize>, outs, own| View { ops, outs, own };
        match i { I::LinComb(l) => v(l.terms.iter().map(|t| t.var).collect(), 1, true), I::Mul(x) => v(x.clone(), 1, x.len() >= 2), I::Div { x, y, .. } => v(vec![*x, *y], 1, true), I::BoolBinOp { x, y, .. } => v(vec![*x, *y], 1, true), I::IsZero(x) => v(vec![*x], 1, true), I::Commit(x) => v(x.clone(), 1, true),
            I::Hint { hint_id, inputs, num_outputs } => v(inputs.clone(), *num_outputs, hint_view(*hint_id, inputs.len(), *num_outputs)), I::ConstantLike(c) => v(vec![], 1, coef_view(c, npub)), I::SubCircuitCall { inputs, num_outputs, .. } => v(inputs.clone(), *num_outputs, true),
            I::UnconstrainedBinOp { x, y, .. } => v(vec![*x, *y], 1, true), I::UnconstrainedSelect { cond, if_true, if_false } => v(vec![*cond, *if_true, *if_false], 1, true), I::CustomGate { inputs, .. } => v(inputs.clone(), 1, !inputs.is_empty()), I::ToBinary { x, num_bits } => v(vec![*x], *num_bits, *num_bits > 0) }
    }
    fn odd(r: &mut StdRng, nv: usize, npub: usize) -> source::Instruction<C> {
        use source::Instruction as I; let x = v1(r, nv.max(1));
        match r.gen_range(0..6) { 0 => I::Mul(few(r, nv)), 1 => I::Hint { hint_id: odd_hint(r), inputs: few(r, nv), num_outputs: odd_n(r) }, 2 => I::ConstantLike(odd_coef(r, npub)), 3 => I::CustomGate { gate_type: 500, inputs: few(r, nv) }, 4 => I::ToBinary { x, num_bits: odd_n(r) }, _ => I::Commit(few(r, nv)) }
    }
}
impl<C: Config> IrView for hint_normalized::Irc<C> {
    fn view(i: &hint_normalized::Instruction<C>, npub: usize) -> View {
        use hint_normalized::Instruction as I; let v = |ops: Vec<usize>, outs, own| View { ops, outs, own };
        match i { I::LinComb(l) => v(l.terms.iter().map(|t| t.var).collect(), 1, true), I::Mul(x) => v(x.clone(), 1, x.len() >= 2),
            I::Hint { hint_id, inputs, num_outputs } => v(inputs.clone(), *num_outputs, hint_view(*hint_id, inputs.len(), *num_outputs)), I::ConstantLike(c) => v(vec![], 1, coef_view(c, npub)), I::SubCircuitCall { inputs, num_outputs, .. } => v(inputs.clone(), *num_outputs, true),
            I::CustomGate { inputs, .. } => v(inputs.clone(), 1, !inputs.is_empty()) }
    }
    fn odd(r: &mut StdRng, nv: usize, npub: usize) -> hint_normalized::Instruction<C> {
        use hint_normalized::Instruction as I;
        match r.gen_range(0..4) { 0 => I::Mul(few(r, nv)), 1 => I::Hint { hint_id: odd_hint(r), inputs: few(r, nv), num_outputs: odd_n(r) }, 2 => I::ConstantLike(odd_coef(r, npub)), _ => I::CustomGate { gate_type: 500, inputs: few(r, nv) } }
    }
}
impl<C: Config> IrView for hint_less::Irc<C> {
    fn view(i: &hint_less::Instruction<C>, npub: usize) -> View {
        use hint_less::Instruction as I; let v = |ops: Vec<usize>, outs, own| View { ops, outs, own };
        match i { I::LinComb(l) => v(l.terms.iter().map(|t| t.var).collect(), 1, true), I::Mul(x) => v(x.clone(), 1, x.len() >= 2),
            I::ConstantLike(c) => v(vec![], 1, coef_view(c, npub)), I::SubCircuitCall { inputs, num_outputs, .. } => v(inputs.clone(), *num_outputs, true), I::CustomGate { inputs, .. } => v(inputs.clone(), 1, true) }
    }
    fn odd(r: &mut StdRng, nv: usize, npub: usize) -> hint_less::Instruction<C> {
        use hint_less::Instruction as I;
        match r.gen_range(0..3) { 0 => I::Mul(few(r, nv)), 1 => I::ConstantLike(odd_coef(r, npub)), _ => I::CustomGate { gate_type: 500, inputs: few(r, nv) } }
    }
}
macro_rules! dest_view { ($t:ident) => { impl<C: Config> IrView for dest::$t<C> {
    fn view(i: &dest::Instruction<C>, npub: usize) -> View {
        use dest::Instruction as I; let v = |ops: Vec<usize>, outs, own| View { ops, outs, own };
        match i { I::InternalVariable { expr } => v(expr.iter().flat_map(|t| match &t.vars { VarSpec::Const => vec![], VarSpec::Linear(a) | VarSpec::RandomLinear(a) => vec![*a], VarSpec::Quad(a, b) => vec![*a, *b], VarSpec::Custom { inputs, .. } => inputs.clone() }).collect(), 1, true),
            I::SubCircuitCall { inputs, num_outputs, .. } => v(inputs.clone(), *num_outputs, true), I::ConstantLike { value } => v(vec![], 1, coef_view(value, npub)) }
    }
    fn odd(r: &mut StdRng, nv: usize, npub: usize) -> dest::Instruction<C> {
        use dest::Instruction as I;
        if nv > 0 && r.gen_bool(0.4) { return I::InternalVariable { expr: Expression::from_terms(vec![Term { coef: nz::<C>(r), vars: VarSpec::RandomLinear(v1(r, nv)) }]) }; }
        I::ConstantLike { value: odd_coef(r, npub) }
    }
} } }
dest_view!(Irc); dest_view!(IrcRelaxed);
