use ethnum::U256;
use expander_compiler::circuit::config::*;
use expander_compiler::circuit::ir::source;
use expander_compiler::field::{Field, FieldArith};
use arith::Field as _;
use expander_compiler::frontend::extra::{self, DebugBuilder};
use expander_compiler::frontend::internal::{DumpLoadTwoVariables, DumpLoadVariables};
use expander_compiler::frontend::{declare_circuit, memorized, RootAPI, Variable};
use expander_compiler::hints::registry::hint_key_to_id;
use rand::Rng;
use search::{gen::*, *};
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
enum Opd<Fi> { V(usize), K(Fi) }
#[derive(Clone, Debug)]
enum Op<Fi> {
    Bin(usize, Opd<Fi>, Opd<Fi>), Un(usize, Opd<Fi>), Div(Opd<Fi>, Opd<Fi>, bool),
    ToBinary(Opd<Fi>, usize), FromBinary(Vec<usize>), Assert(usize, Opd<Fi>), Assert2(usize, Opd<Fi>, Opd<Fi>),
    Unc(usize, Opd<Fi>, Opd<Fi>), Hint(usize, Vec<usize>, usize), Peek(Opd<Fi>),
    /// a function, by capture: its script, the arguments
    Call(usize, Vec<usize>),
    /// one of the fixed functions below, as a function item, as a function pointer, or through the macro
    Fixed(usize, usize, Vec<usize>),
    /// functions with structured arguments through the macro
    Dot(Vec<Vec<usize>>, u32, i64), Pows(usize, usize), Scale(usize, Vec<u32>, Vec<u32>),
}
const BIN: [&str; 8] = ["add", "sub", "mul", "xor", "or", "and", "gt", "geq"];
const UN: [&str; 5] = ["neg", "inverse", "is_zero", "constant", "unconstrained_identity"];
const ASSERT: [&str; 3] = ["assert_is_zero", "assert_is_non_zero", "assert_is_bool"];
const UNC: [&str; 19] = ["add", "mul", "Div", "Pow", "IntDiv", "Mod", "ShiftL", "ShiftR", "LesserEq", "GreaterEq", "Lesser", "Greater", "Eq", "NotEq", "BoolOr", "BoolAnd", "BitOr", "BitAnd", "BitXor"];
const KEYS: [&str; 3] = ["search.a", "search.b", "myhint.bad"];
#[derive(Clone, Debug, Default)]
struct Script<Fi> { n: usize, ops: Vec<Op<Fi>>, outs: Vec<usize> }

// ------------------------------------------------ fixed sub-circuits
fn f0<C: Config, B: RootAPI<C>>(b: &mut B, v: &Vec<Variable>) -> Vec<Variable> { vec![b.add(v[0], v[1])] }
fn f1<C: Config, B: RootAPI<C>>(b: &mut B, v: &Vec<Variable>) -> Vec<Variable> { let x = b.mul(v[0], v[1]); vec![b.sub(x, 7u32)] }
fn f2<C: Config, B: RootAPI<C>>(b: &mut B, v: &Vec<Variable>) -> Vec<Variable> { let z = b.is_zero(v[0]); let y = b.memorized_simple_call(f1::<C, B>, &[v[1], z]); vec![y[0], z] }
/// as many arguments as are given
fn f3<C: Config, B: RootAPI<C>>(b: &mut B, v: &Vec<Variable>) -> Vec<Variable> { let mut t = b.constant(3u32); for x in v { t = b.mul(t, 5u32); t = b.add(t, x); } vec![t] }
#[memorized]
fn m3<C: Config, B: RootAPI<C>>(b: &mut B, v: &Vec<Variable>) -> Vec<Variable> { f3::<C, B>(b, v) }
fn f3_value<Fi: Field>(v: &[Fi]) -> Fi { let mut t = Fi::from(3u32); for x in v { t = t * Fi::from(5u32) + *x; } t }
#[memorized]
fn m0<C: Config, B: RootAPI<C>>(b: &mut B, x: Variable, y: Variable) -> Vec<Variable> { vec![b.add(x, y)] }
#[memorized]
fn m1<C: Config, B: RootAPI<C>>(b: &mut B, x: Variable, y: Variable) -> Vec<Variable> { let x = b.mul(x, y); vec![b.sub(x, 7u32)] }
#[memorized]
fn m2<C: Config, B: RootAPI<C>>(b: &mut B, x: Variable, y: Variable) -> Vec<Variable> { let z = b.is_zero(x); let y = memorized_m1(b, y, z); vec![y[0], z] }
fn fixed_value<Fi: Field>(k: usize, x: Fi, y: Fi) -> Vec<Fi> {
    let seven = Fi::from(7u32);
    match k { 0 => vec![x + y], 1 => vec![x * y - seven], _ => { let z = if x.is_zero() { Fi::one() } else { Fi::zero() }; vec![y * z - seven, z] } }
}
#[memorized]
fn dot<C: Config, B: RootAPI<C>>(b: &mut B, rows: &Vec<Vec<Variable>>, k: u32, sign: i64) -> Vec<Variable> {
    let mut out = vec![];
    for r in rows.iter() { let mut t = b.constant(k); for (j, x) in r.iter().enumerate() { let p = b.mul(*x, (j + 2) as u32); t = b.add(t, p); } out.push(t); }
    if sign < 0 { out.reverse(); }
    out
}
fn dot_value<Fi: Field>(rows: &[Vec<Fi>], k: u32, s: i64) -> Vec<Fi> {
    let mut out: Vec<Fi> = rows.iter().map(|r| { let mut t = Fi::from(k); for (j, x) in r.iter().enumerate() { t = t + *x * Fi::from((j + 2) as u32); } t }).collect();
    if s < 0 { out.reverse(); } out
}
#[memorized]
fn pows<C: Config, B: RootAPI<C>>(b: &mut B, x: &Variable, n: usize) -> Vec<Vec<Variable>> {
    let mut out = vec![]; let mut p = b.constant(1); for k in 0..n { let mut row = vec![]; for _ in 0..k % 3 { row.push(p); p = b.mul(p, x); } out.push(row); } out.push(vec![p]); out
}
fn pows_value<Fi: Field>(x: Fi, n: usize) -> Vec<Vec<Fi>> {
    let mut out = vec![]; let mut p = Fi::one(); for k in 0..n { let mut row = vec![]; for _ in 0..k % 3 { row.push(p); p = p * x; } out.push(row); } out.push(vec![p]); out
}
#[memorized]
fn scale<C: Config, B: RootAPI<C>>(b: &mut B, x: Variable, u: Vec<u32>, v: &Vec<u32>) -> Variable {
    let mut r = x; for k in u.iter() { r = b.mul(r, 5u32); r = b.add(r, *k); } for k in v.iter() { r = b.mul(r, *k); r = b.add(r, 1u32); } b.add(r, u.len() as u32)
}
fn scale_value<Fi: Field>(x: Fi, u: &[u32], v: &[u32]) -> Fi { let mut r = x; for k in u { r = r * Fi::from(5u32) + Fi::from(*k); } for k in v { r = r * Fi::from(*k) + Fi::one(); } r + Fi::from(u.len() as u32) }

// ------------------------------------------------ what the operations mean
type Fld<C> = CircuitField<C>;
fn bit<Fi: Field>(b: bool) -> Fi { if b { Fi::one() } else { Fi::zero() } }
fn truth<Fi: Field>(x: Fi) -> Option<bool> { if x.is_zero() { Some(false) } else if x == Fi::one() { Some(true) } else { None } }
/// the values of all variables after each operation; None: the program refuses these inputs
fn meaning<C: Config>(subs: &[Rc<Script<Fld<C>>>], s: &Script<Fld<C>>, ins: &[Fld<C>]) -> Option<Vec<Fld<C>>> {
    type I<C> = source::Instruction<C>;
    let mut v: Vec<Fld<C>> = ins.to_vec();
    let e = Env { publics: &[], hint: &|i, a, n| hint_value(i, a, n), custom: &|t, a| custom_stub(t, a) };
    let insn = |i: I<C>, a: &[Fld<C>]| { let mut w = vec![Fld::<C>::zero()]; w.extend_from_slice(a); source::Irc::<C>::value(&i, &w, &e) };
    for op in &s.ops {
        let g = |o: &Opd<Fld<C>>| match o { Opd::V(k) => v[*k], Opd::K(x) => *x };
        let new: Vec<Fld<C>> = match op {
            Op::Bin(k, x, y) => { let (x, y) = (g(x), g(y)); vec![match BIN[*k] { "add" => x + y, "sub" => x - y, "mul" => x * y,
                "xor" => bit(truth(x)? != truth(y)?), "or" => { let (a, b) = (truth(x)?, truth(y)?); bit(a || b) } "and" => { let (a, b) = (truth(x)?, truth(y)?); bit(a && b) }
                "gt" => bit(x.to_u256() > y.to_u256()), _ => bit(x.to_u256() >= y.to_u256()) }] }
            Op::Un(k, x) => { let x = g(x); vec![match UN[*k] { "neg" => Fld::<C>::zero() - x, "inverse" => x.inv()?, "is_zero" => bit(x.is_zero()), _ => x }] }
            Op::Div(x, y, c) => { let (x, y) = (g(x), g(y)); vec![if y.is_zero() { if *c || !x.is_zero() { return None; } Fld::<C>::zero() } else { x * y.inv()? }] }
            Op::ToBinary(x, n) => { let u = g(x).to_u256(); if *n < 256 && (u >> *n as u32) != U256::ZERO { return None; } (0..*n).map(|k| bit(k < 256 && (u >> k as u32) & 1 == 1)).collect() }
            Op::FromBinary(xs) => { let two = Fld::<C>::one() + Fld::<C>::one(); let mut r = Fld::<C>::zero(); for x in xs.iter().rev() { r = r * two + v[*x]; } vec![r] }
            Op::Assert(k, x) => { let x = g(x); let ok = match ASSERT[*k] { "assert_is_zero" => x.is_zero(), "assert_is_non_zero" => !x.is_zero(), _ => truth(x).is_some() }; if !ok { return None; } vec![] }
            Op::Assert2(k, x, y) => { if (g(x) == g(y)) != (*k == 0) { return None; } vec![] }
            Op::Unc(k, x, y) => { use source::UnconstrainedBinOpType::*; let (x, y) = (g(x), g(y));
                let op = match *k { 0 => { v.push(x + y); continue } 1 => { v.push(x * y); continue } 2 => Div, 3 => Pow, 4 => IntDiv, 5 => Mod, 6 => ShiftL, 7 => ShiftR, 8 => LesserEq, 9 => GreaterEq, 10 => Lesser, 11 => Greater, 12 => Eq, 13 => NotEq, 14 => BoolOr, 15 => BoolAnd, 16 => BitOr, 17 => BitAnd, _ => BitXor };
                insn(I::<C>::UnconstrainedBinOp { x: 1, y: 2, op }, &[x, y])? }
            Op::Hint(k, a, n) => hint_value(hint_key_to_id(KEYS[*k]), &a.iter().map(|x| v[*x]).collect::<Vec<_>>(), *n)?,
            Op::Peek(_) => vec![],
            Op::Call(k, a) => { let w = meaning::<C>(subs, &subs[*k], &a.iter().map(|x| v[*x]).collect::<Vec<_>>())?; subs[*k].outs.iter().map(|o| w[*o]).collect() }
            Op::Fixed(_, 3, a) => vec![f3_value(&a.iter().map(|x| v[*x]).collect::<Vec<_>>())],
            Op::Fixed(_, k, a) => fixed_value(*k, v[a[0]], v[a[1]]),
            Op::Dot(rows, k, s) => dot_value(&rows.iter().map(|r| r.iter().map(|x| v[*x]).collect()).collect::<Vec<Vec<_>>>(), *k, *s),
            Op::Pows(x, n) => pows_value(v[*x], *n).into_iter().flatten().collect(),
            Op::Scale(x, a, b) => vec![scale_value(v[*x], a, b)],
        };
        v.extend(new);
    }
    Some(v)
}
macro_rules! two { ($b:ident, $v:ident, $x:ident, $y:ident, $f:ident) => { match ($x, $y) { (Opd::V(p), Opd::V(q)) => $b.$f($v[*p], $v[*q]), (Opd::V(p), Opd::K(q)) => $b.$f($v[*p], *q), (Opd::K(p), Opd::V(q)) => $b.$f(*p, $v[*q]), (Opd::K(p), Opd::K(q)) => $b.$f(*p, *q) } } }
macro_rules! one { ($b:ident, $v:ident, $x:ident, $f:ident) => { match $x { Opd::V(p) => $b.$f($v[*p]), Opd::K(p) => $b.$f(*p) } } }
/// the program, given to a builder; `want` are the values of the variables (outermost level only)
fn apply<C: Config, B: RootAPI<C>>(subs: &Rc<Vec<Rc<Script<Fld<C>>>>>, s: &Script<Fld<C>>, b: &mut B, ins: &[Variable], want: Option<&[Fld<C>]>, depth: usize) -> Vec<Variable> {
    let mut v = ins.to_vec();
    for op in &s.ops {
        let n0 = v.len();
        let new: Vec<Variable> = match op {
            Op::Bin(k, x, y) => vec![match BIN[*k] { "add" => two!(b, v, x, y, add), "sub" => two!(b, v, x, y, sub), "mul" => two!(b, v, x, y, mul), "xor" => two!(b, v, x, y, xor), "or" => two!(b, v, x, y, or), "and" => two!(b, v, x, y, and), "gt" => two!(b, v, x, y, gt), _ => two!(b, v, x, y, geq) }],
            Op::Un(k, x) => vec![match UN[*k] { "neg" => one!(b, v, x, neg), "inverse" => one!(b, v, x, inverse), "is_zero" => one!(b, v, x, is_zero), "constant" => one!(b, v, x, constant), _ => one!(b, v, x, unconstrained_identity) }],
            Op::Div(x, y, c) => vec![match (x, y) { (Opd::V(p), Opd::V(q)) => b.div(v[*p], v[*q], *c), (Opd::V(p), Opd::K(q)) => b.div(v[*p], *q, *c), (Opd::K(p), Opd::V(q)) => b.div(*p, v[*q], *c), (Opd::K(p), Opd::K(q)) => b.div(*p, *q, *c) }],
            Op::ToBinary(x, n) => match x { Opd::V(p) => b.to_binary(v[*p], *n), Opd::K(p) => b.to_binary(*p, *n) },
            Op::FromBinary(xs) => vec![b.from_binary(&xs.iter().map(|x| v[*x]).collect::<Vec<_>>())],
            Op::Assert(k, x) => { match *k { 0 => one!(b, v, x, assert_is_zero), 1 => one!(b, v, x, assert_is_non_zero), _ => one!(b, v, x, assert_is_bool) }; vec![] }
            Op::Assert2(k, x, y) => { if *k == 0 { two!(b, v, x, y, assert_is_equal) } else { two!(b, v, x, y, assert_is_different) }; vec![] }
            Op::Unc(k, x, y) => vec![match *k { 0 => two!(b, v, x, y, unconstrained_add), 1 => two!(b, v, x, y, unconstrained_mul), 2 => two!(b, v, x, y, unconstrained_div), 3 => two!(b, v, x, y, unconstrained_pow), 4 => two!(b, v, x, y, unconstrained_int_div), 5 => two!(b, v, x, y, unconstrained_mod), 6 => two!(b, v, x, y, unconstrained_shift_l), 7 => two!(b, v, x, y, unconstrained_shift_r), 8 => two!(b, v, x, y, unconstrained_lesser_eq), 9 => two!(b, v, x, y, unconstrained_greater_eq), 10 => two!(b, v, x, y, unconstrained_lesser), 11 => two!(b, v, x, y, unconstrained_greater), 12 => two!(b, v, x, y, unconstrained_eq), 13 => two!(b, v, x, y, unconstrained_not_eq), 14 => two!(b, v, x, y, unconstrained_bool_or), 15 => two!(b, v, x, y, unconstrained_bool_and), 16 => two!(b, v, x, y, unconstrained_bit_or), 17 => two!(b, v, x, y, unconstrained_bit_and), _ => two!(b, v, x, y, unconstrained_bit_xor) }],
            Op::Hint(k, a, n) => b.new_hint(KEYS[*k], &a.iter().map(|x| v[*x]).collect::<Vec<_>>(), *n),
            Op::Peek(x) => { let got = one!(b, v, x, constant_value); let is = match x { Opd::V(k) => want.map(|w| w[*k]), Opd::K(x) => Some(*x) };
                if let (Some(got), Some(is)) = (got, is) { assert!(got == is, "VALUE constant_value is {got:?}, the value is {is:?}"); } if matches!(x, Opd::K(_)) { assert!(got.is_some(), "VALUE constant_value of a constant is None"); } vec![] }
            Op::Call(k, a) => { let (subs, k) = (subs.clone(), *k); b.memorized_simple_call(move |b: &mut B, i: &Vec<Variable>| { let w = apply::<C, B>(&subs, &subs[k], b, i, None, depth + 1); subs[k].outs.iter().map(|o| w[*o]).collect() }, &a.iter().map(|x| v[*x]).collect::<Vec<_>>()) }
            Op::Fixed(how, 3, a) => { let a: Vec<Variable> = a.iter().map(|x| v[*x]).collect(); match how { 0 => b.memorized_simple_call(f3::<C, B>, &a), 1 => { let f: fn(&mut B, &Vec<Variable>) -> Vec<Variable> = f3::<C, B>; b.memorized_simple_call(f, &a) } _ => memorized_m3(b, &a) } }
            Op::Fixed(how, k, a) => { let a2 = [v[a[0]], v[a[1]]]; match (how, k) {
                (0, 0) => b.memorized_simple_call(f0::<C, B>, &a2), (0, 1) => b.memorized_simple_call(f1::<C, B>, &a2), (0, _) => b.memorized_simple_call(f2::<C, B>, &a2),
                (1, _) => { let f: fn(&mut B, &Vec<Variable>) -> Vec<Variable> = match k { 0 => f0::<C, B>, 1 => f1::<C, B>, _ => f2::<C, B> }; b.memorized_simple_call(f, &a2) }
                (_, 0) => memorized_m0(b, a2[0], a2[1]), (_, 1) => memorized_m1(b, a2[0], a2[1]), _ => memorized_m2(b, a2[0], a2[1]) } }
            Op::Dot(rows, k, s) => { let rows: Vec<Vec<Variable>> = rows.iter().map(|r| r.iter().map(|x| v[*x]).collect()).collect(); memorized_dot(b, &rows, *k, *s) }
            Op::Pows(x, n) => { let r = memorized_pows(b, &v[*x], *n); assert!(r.iter().map(|x| x.len()).collect::<Vec<_>>() == pows_value(Fld::<C>::one(), *n).iter().map(|x| x.len()).collect::<Vec<_>>(), "VALUE the structure of the result changed"); r.into_iter().flatten().collect() }
            Op::Scale(x, p, q) => vec![memorized_scale(b, v[*x], p.clone(), q)],
        };
        v.extend(new);
        let _ = n0;
    }
    v
}
fn script<C: Config>(r: &mut StdRng, subs: &[Rc<Script<Fld<C>>>], n: usize, len: usize, gt: bool) -> Script<Fld<C>> {
    let mut ops = vec![]; let mut nv = n; let mut consts: Vec<usize> = vec![]; let mut bools: Vec<usize> = vec![];
    let memo = r.gen_bool(0.15); // calls of the same functions, mostly
    let easy = r.gen_bool(0.7); // keep away from operations which refuse most values
    for _ in 0..len {
        let opd = |r: &mut StdRng| -> Opd<Fld<C>> { if nv == 0 || r.gen_bool(0.25) { Opd::K(fe::<C>(r)) } else if !consts.is_empty() && r.gen_bool(0.3) { Opd::V(consts[r.gen_range(0..consts.len())]) } else { Opd::V(if r.gen_bool(0.5) && nv > 5 { nv - r.gen_range(1..6) } else { r.gen_range(0..nv) }) } };
        let bopd = |r: &mut StdRng| -> Opd<Fld<C>> { if bools.is_empty() || r.gen_bool(if easy { 0.02 } else { 0.3 }) { if easy { Opd::K(bit(r.gen())) } else { opd(r) } } else { Opd::V(bools[r.gen_range(0..bools.len())]) } };
        let vars = |r: &mut StdRng, k: usize| -> Vec<usize> { (0..k).map(|_| r.gen_range(0..nv)).collect() };
        let is_const = |x: &Opd<Fld<C>>, c: &Vec<usize>| matches!(x, Opd::K(_)) || matches!(x, Opd::V(k) if c.contains(k));
        let op = match if memo && r.gen_bool(0.8) { r.gen_range(26..29) } else { r.gen_range(0..30) } {
            0..=6 => { let k = r.gen_range(0..3); Op::Bin(k, opd(r), opd(r)) }
            7..=10 => { let k = r.gen_range(3..6); Op::Bin(k, bopd(r), bopd(r)) }
            11 if gt && r.gen_bool(if Fld::<C>::SIZE > 8 { 0.02 } else { 0.15 }) => { let k = r.gen_range(6..8); Op::Bin(k, opd(r), opd(r)) }
            12 | 13 => { let k = r.gen_range(0..5); if k == 1 && easy { Op::Un(1, Opd::K(nz::<C>(r))) } else { Op::Un(k, opd(r)) } }
            14 => { let y = if easy { Opd::K(nz::<C>(r)) } else { opd(r) }; Op::Div(opd(r), y, r.gen()) }
            15 if r.gen_bool(0.5) => { let x = if easy && !bools.is_empty() { bopd(r) } else { opd(r) }; let n = match r.gen_range(0..4) { 0 => r.gen_range(1..5), 1 => 256, 2 => 300, _ => r.gen_range(1..256) }; if n > 40 && r.gen_bool(0.7) { continue; } Op::ToBinary(x, n) }
            16 if nv > 0 => { let k = r.gen_range(0..9); Op::FromBinary(if r.gen_bool(0.1) { vec![] } else { vars(r, k) }) }
            17 => if easy { if bools.is_empty() { continue; } Op::Assert(2, bopd(r)) } else { let k = r.gen_range(0..3); Op::Assert(k, opd(r)) },
            18 => if easy { let x = opd(r); Op::Assert2(0, x, x) } else { let k = r.gen_range(0..2); Op::Assert2(k, opd(r), opd(r)) },
            19..=21 => { let k = r.gen_range(0..19); Op::Unc(k, opd(r), opd(r)) }
            22 if nv > 0 => { let k = r.gen_range(0..if easy { 2 } else { 3 }); let m = r.gen_range(1..4); Op::Hint(k, vars(r, m), r.gen_range(1..4)) }
            23 => Op::Peek(opd(r)),
            24 | 25 if nv > 0 && !subs.is_empty() => { let k = r.gen_range(0..subs.len()); Op::Call(k, vars(r, subs[k].n)) }
            26 | 27 if nv > 0 => { let k = r.gen_range(0..4); let m = if k == 3 { r.gen_range(1..5) } else { 2 }; Op::Fixed(r.gen_range(0..3), k, vars(r, m)) }
            28 if nv > 0 => match r.gen_range(0..3) { 0 => { let k = r.gen_range(0..4); let rows = (0..k).map(|_| { let m = r.gen_range(0..4); vars(r, m) }).collect(); if r.gen() { let m = [1, 11, -1, -11][r.gen_range(0..4)]; Op::Dot(rows, [1, 11, 111][r.gen_range(0..3)], m) } else { Op::Dot(rows, r.gen_range(0..12), r.gen_range(-12..12)) } } 1 => Op::Pows(vars(r, 1)[0], r.gen_range(0..6)), _ => { let (p, q) = (r.gen_range(0..3), r.gen_range(0..3)); Op::Scale(vars(r, 1)[0], (0..p).map(|_| [r.gen_range(0..12), 1, 11, 111, 0][r.gen_range(0..5)]).collect(), (0..q).map(|_| [r.gen_range(0..12), 1, 11, 111, 0][r.gen_range(0..5)]).collect()) } },
            _ => continue,
        };
        let folds = match &op { Op::Bin(k, x, y) if *k < 6 => is_const(x, &consts) && is_const(y, &consts), Op::Un(k, x) if *k < 4 => is_const(x, &consts), Op::Div(x, y, _) => is_const(x, &consts) && is_const(y, &consts), Op::ToBinary(x, _) => is_const(x, &consts), _ => false };
        let boolean = match &op { Op::Bin(k, ..) => *k >= 3, Op::Un(2, _) => true, Op::ToBinary(..) => true, Op::Unc(k, ..) => (8..=15).contains(k), _ => false };
        let m = match &op { Op::Assert(..) | Op::Assert2(..) | Op::Peek(_) => 0, Op::ToBinary(_, n) | Op::Hint(_, _, n) => *n, Op::Call(k, _) => subs[*k].outs.len(), Op::Fixed(_, k, _) => if *k == 2 { 2 } else { 1 }, Op::Dot(r, ..) => r.len(), Op::Pows(_, n) => (0..*n).map(|k| k % 3).sum::<usize>() + 1, _ => 1 };
        if folds { consts.extend(nv..nv + m); } if boolean { bools.extend(nv..nv + m); }
        nv += m; ops.push(op);
    }
    let mut outs = vec![]; if nv > 0 { for _ in 0..r.gen_range(0..if memo { 12 } else { 4 }) { outs.push(r.gen_range(0..nv)); } }
    Script { n, ops, outs }
}
fn go<C: Config>(r: &mut StdRng, size: usize, log: &mut String, gt: bool) -> Case {
    let mut subs: Vec<Rc<Script<Fld<C>>>> = vec![];
    for _ in 0..r.gen_range(0..4) { let n = r.gen_range(1..4); let l = r.gen_range(1..3 + size / 2); let s = script::<C>(r, &subs, n, l, false); subs.push(Rc::new(s)); }
    let (n, p) = (r.gen_range(0..4), r.gen_range(0..3));
    let main = script::<C>(r, &subs, n + p, 2 + size * 2, gt);
    *log = format!("{main:?} subs {subs:?}");
    let subs2 = Rc::new(subs.clone());
    let runs: Vec<(Vec<Fld<C>>, Option<Vec<Fld<C>>>)> = (0..3).map(|_| { let i: Vec<Fld<C>> = (0..n + p).map(|_| inp::<C>(r)).collect(); let v = meaning::<C>(&subs, &main, &i); (i, v) }).collect();
    let want = runs.iter().find_map(|x| x.1.clone());
    // the recorded program
    let built = no_panic(|| { let (mut b, vi, vp) = vx_root::<C>(n, p); let mut i = vi; i.extend(vp); let v = apply::<C, _>(&subs2, &main, &mut b, &i, None, 0); let o: Vec<Variable> = main.outs.iter().map(|k| v[*k]).collect(); b.set_outputs(o); b.build() });
    match built {
        Err(e) => ensure!(want.is_none() && !e.contains("VALUE"), "recording a program which accepts inputs: {e}"),
        Ok(root) => {
            ensure!(root.validate().is_ok() || root.circuits[&0].constraints.is_empty() && main.outs.is_empty(), "the recorded program is not valid: {:?}", root.validate());
            ensure!(root.circuits[&0].num_inputs == n && root.num_public_inputs == p && root.expected_num_output_zeroes == 0, "inputs of the recorded program");
            for (i, v) in &runs {
                let e = Env { publics: &i[n..], hint: &|i, a, n| hint_value(i, a, n), custom: &|t, a| custom_stub(t, a) };
                let got = run(&root, &i[..n], &e).and_then(|(o, ok)| if ok { Some(o) } else { None });
                let want: Option<Vec<Fld<C>>> = v.as_ref().map(|v| main.outs.iter().map(|k| v[*k]).collect());
                ensure!(got == want, "inputs {i:?}: the recorded program gives {got:?}, should be {want:?}; program {root:?}");
            }
            // compile-time constants are what the variable is
            if let Some(v) = &want {
                let (mut b, vi, vp) = vx_root::<C>(n, p); let mut i = vi; i.extend(vp);
                no_panic(|| apply::<C, _>(&subs2, &main, &mut b, &i, Some(v), 0))?;
            }
        }
    }
    // the program carried out at once
    for (i, v) in &runs {
        let got = no_panic(|| { let (mut b, vi, vp) = DebugBuilder::<C, Hints>::new(i[..n].to_vec(), i[n..].to_vec(), Hints); let mut x = vi; x.extend(vp); let w = apply::<C, _>(&subs2, &main, &mut b, &x, v.as_deref(), 0); let o: Vec<Variable> = main.outs.iter().map(|k| w[*k]).collect(); b.set_outputs(o); b.get_outputs() });
        let want: Option<Vec<Fld<C>>> = v.as_ref().map(|v| main.outs.iter().map(|k| v[*k]).collect());
        match got { Ok(g) => ensure!(Some(&g) == want.as_ref(), "inputs {i:?}: the debug builder gives {g:?}, should be {want:?}"), Err(e) => ensure!(want.is_none() && !e.contains("VALUE"), "inputs {i:?}: the debug builder refuses, should give {want:?}: {e}") }
    }
    Ok(())
}
declare_circuit!(Decl { a: Variable, b: [PublicVariable; 2], c: u64, d: [[Variable; 3]; 2], e: [[PublicVariable]], f: [[Variable; 2]], z: [Variable; 0], g: PublicVariable, h: [Variable] });
fn flat<Fi: Copy>(x: &Decl<Fi>) -> (Vec<Fi>, Vec<Fi>) { let mut s = vec![x.a]; let mut p = x.b.to_vec(); for r in x.d.iter() { s.extend(r); } for r in &x.e { p.extend(r); } for r in &x.f { s.extend(r); } p.push(x.g); s.extend(&x.h); (s, p) }
/// the declared variables are handed over in order and none is lost
fn declared(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    type Fi = expander_compiler::field::M31;
    let mut x = Decl::<Fi> { a: Fi::random_unsafe(&mut *r), b: [Fi::random_unsafe(&mut *r); 2], c: 1, d: Default::default(), e: vec![], f: vec![], z: [], g: Fi::random_unsafe(&mut *r), h: vec![] };
    x.b[1] = Fi::random_unsafe(&mut *r); for k in 0..6 { x.d[k / 3][k % 3] = Fi::random_unsafe(&mut *r); }
    for _ in 0..r.gen_range(0..=size) { let n = r.gen_range(0..4); x.e.push((0..n).map(|_| Fi::random_unsafe(&mut *r)).collect()); }
    for _ in 0..r.gen_range(0..=size) { x.f.push([Fi::random_unsafe(&mut *r), Fi::random_unsafe(&mut *r)]); }
    for _ in 0..r.gen_range(0..=size) { x.h.push(Fi::random_unsafe(&mut *r)); }
    let (s, p) = flat(&x); *log = format!("{s:?} {p:?}");
    let (mut gs, mut gp) = (vec![], vec![]); no_panic(|| x.dump_into(&mut gs, &mut gp))?;
    ensure!((&gs, &gp) == (&s, &p), "dump_into gives {gs:?} {gp:?}");
    ensure!(no_panic(|| x.num_vars())? == (s.len(), p.len()), "num_vars");
    let mut y = x.clone(); let k = |v: &Fi| *v + Fi::one(); let (s1, p1): (Vec<Fi>, Vec<Fi>) = (s.iter().map(k).collect(), p.iter().map(k).collect());
    let (mut a, mut b) = (s1.as_slice(), p1.as_slice()); no_panic(|| y.load_from(&mut a, &mut b))?;
    ensure!(a.is_empty() && b.is_empty() && flat(&y) == (s1.clone(), p1.clone()), "load_from gives {:?}", flat(&y));
    let arr: [[Fi; 3]; 2] = x.d; let mut out = vec![]; DumpLoadVariables::<Fi>::dump_into(&arr, &mut out); ensure!(out.len() == 6 && DumpLoadVariables::<Fi>::num_vars(&arr) == 6, "array of variables");
    let none: [[Fi; 3]; 0] = []; ensure!(no_panic(|| DumpLoadVariables::<Fi>::num_vars(&none))? == 0, "empty array");
    Ok(())
}
fn vx_root<C: Config>(n: usize, p: usize) -> (expander_compiler::frontend::API<C>, Vec<Variable>, Vec<Variable>) { expander_compiler::frontend::API::<C>::new(n, p) }
fn main() {
    let mut s = Search::new(); quiet();
    s.part("declared", 0.03, 3000, declared);
    s.part("m31", 0.25, u64::MAX, |r, k, l| go::<M31Config>(r, k, l, true));
    s.part("bn254", 0.2, u64::MAX, |r, k, l| go::<BN254Config>(r, k, l, true));
    s.part("gf2", 0.2, u64::MAX, |r, k, l| go::<GF2Config>(r, k, l, false));
    s.part("goldilocks", 0.15, u64::MAX, |r, k, l| go::<GoldilocksConfig>(r, k, l, false));
    s.part("babybear", 0.2, u64::MAX, |r, k, l| go::<BabyBearConfig>(r, k, l, true));
    s.finish()
}
