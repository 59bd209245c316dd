use expander_compiler::circuit::config::*;
use expander_compiler::field::{Field, FieldArith};
use expander_compiler::hints::{self, BuiltinHintIds};
use expander_compiler::hints::registry::{hint_key_to_id, EmptyHintCaller, HintCaller, HintRegistry, StubHintCaller};
use expander_compiler::utils::error::Error;
use ethnum::U256;
use rand::Rng;
use search::*;
const BASE: usize = 0xccc000000000;
const NAMES: [&str; 20] = ["Identity", "Div", "Eq", "NotEq", "BoolOr", "BoolAnd", "BitOr", "BitAnd", "BitXor", "Select", "Pow", "IntDiv", "Mod", "ShiftL", "ShiftR", "LesserEq", "GreaterEq", "Lesser", "Greater", "ToBinary"];
fn val<F: Field>(r: &mut StdRng) -> F {
    let m = F::MODULUS;
    match r.gen_range(0..11) { 9 | 10 => { let b = blen(m) as u32; let p = U256::ONE << if r.gen() { r.gen_range(0..b) } else { 32 * r.gen_range(0..(b + 31) / 32) }; let x = (p.wrapping_add(U256::from(if r.gen() { 0 } else { r.gen_range(0..300u32) })).wrapping_sub(U256::from(r.gen_range(0..2u32)))) % m; F::from_u256(if r.gen_bool(0.3) { m - 1 - x } else { x }) } 0 => F::zero(), 1 => F::one(), 2 => F::from_u256(m - 1), 3 => F::from_u256(m / 2), 4 => F::from_u256((m / 2 + 1) % m), 5 | 6 => F::from(r.gen_range(0..300u32)), 7 => F::from_u256(m - 1 - U256::from(r.gen_range(0..300u32)) % m), _ => F::random_unsafe(&mut *r) }
}
fn bits(x: U256) -> Vec<bool> { (0..256).map(|i| (x >> i as u32) & 1 == 1).collect() }
fn num(b: &[bool]) -> U256 { let mut v = U256::ZERO; for (i, x) in b.iter().enumerate() { if *x && i < 256 { v |= U256::ONE << i as u32; } } v }
fn blen(m: U256) -> usize { bits(m).iter().rposition(|x| *x).map_or(0, |x| x + 1) }
fn shl<F: Field>(x: U256, k: U256) -> U256 { // (x * 2^k) mod 2^bitlen
    let b = blen(F::MODULUS); if k >= U256::from(256u32) { return U256::ZERO; } let k = k.as_usize();
    let xb = bits(x); let mut o = vec![false; b]; for i in 0..b { if i >= k { o[i] = xb[i - k]; } } num(&o)
}
fn shr(x: U256, k: U256) -> U256 { if k >= U256::from(256u32) { return U256::ZERO; } let k = k.as_usize(); num(&bits(x)[k..]) }
fn oracle<F: Field>(h: usize, i: &[F], o: usize) -> Vec<F> {
    let u: Vec<U256> = i.iter().map(|x| x.to_u256()).collect(); let f = |b: bool| vec![if b { F::one() } else { F::zero() }];
    let z = U256::ZERO; let bw = |g: fn(bool, bool) -> bool| { let (a, b) = (bits(u[0]), bits(u[1])); vec![F::from_u256(num(&(0..256).map(|k| g(a[k], b[k])).collect::<Vec<_>>()))] };
    match NAMES[h] {
        "Identity" => i.to_vec(), "Div" => vec![i[1].inv().map_or(F::zero(), |v| i[0] * v)], "Eq" => f(u[0] == u[1]), "NotEq" => f(u[0] != u[1]), "BoolOr" => f(u[0] != z || u[1] != z), "BoolAnd" => f(u[0] != z && u[1] != z),
        "BitOr" => bw(|a, b| a || b), "BitAnd" => bw(|a, b| a && b), "BitXor" => bw(|a, b| a != b),
        "Select" => vec![if u[0] != z { i[1] } else { i[2] }],
        "Pow" => { let mut r = F::one(); for b in bits(u[1]).iter().rev() { r = r * r; if *b { r = r * i[0]; } } vec![r] }
        "IntDiv" => vec![if u[1] == z { F::zero() } else { F::from_u256(u[0] / u[1]) }], "Mod" => vec![if u[1] == z { F::zero() } else { F::from_u256(u[0] % u[1]) }],
        "ShiftL" => vec![F::from_u256(if u[1] <= F::MODULUS / 2 { shl::<F>(u[0], u[1]) } else { shr(u[0], F::MODULUS - u[1]) })],
        "ShiftR" => vec![F::from_u256(if u[1] <= F::MODULUS / 2 { shr(u[0], u[1]) } else { shl::<F>(u[0], F::MODULUS - u[1]) })],
        "LesserEq" => f(u[0] <= u[1]), "GreaterEq" => f(u[0] >= u[1]), "Lesser" => f(u[0] < u[1]), "Greater" => f(u[0] > u[1]),
        "ToBinary" => { let b = bits(u[0]); (0..o).map(|k| if k < 256 && b[k] { F::one() } else { F::zero() }).collect() }
        _ => unreachable!(),
    }
}
fn arity(h: usize, i: usize, o: usize) -> bool { match NAMES[h] { "Identity" => i == o && i > 0, "Select" => i == 3 && o == 1, "ToBinary" => i == 1 && o > 0, _ => i == 2 && o == 1 } }
fn go<F: Field>(r: &mut StdRng, _s: usize, log: &mut String) -> Case {
    let h = r.gen_range(0..20);
    let (ni, no) = match NAMES[h] { "Identity" => { let n = r.gen_range(1..5); (n, n) } "Select" => (3, 1), "ToBinary" => (1, r.gen_range(1..300)), _ => (2, 1) };
    let i: Vec<F> = (0..ni).map(|_| val::<F>(r)).collect();
    log.push_str(&format!("{} {i:?} {no}", NAMES[h]));
    let Some(id) = BuiltinHintIds::from_usize(BASE + h) else { return Err(format!("id {} unknown", BASE + h)) };
    let fits = NAMES[h] != "ToBinary" || blen(i[0].to_u256()) <= no;
    if NAMES[h] == "ToBinary" {
        match no_panic(|| hints::to_binary(i[0], no))? { Ok(v) => ensure!(fits && v == oracle::<F>(h, &i, no), "to_binary gives {v:?}"), Err(_) => ensure!(!fits, "to_binary refused a value that fits") }
    }
    if !fits { ensure!(panics(|| hints::impl_builtin_hint(id, &i, no)), "a value that does not fit was accepted"); return Ok(()); }
    let got = no_panic(|| hints::impl_builtin_hint(id, &i, no))?;
    let want = oracle::<F>(h, &i, no);
    ensure!(got == want, "{} gives {got:?}, should be {want:?}", NAMES[h]);
    if NAMES[h] == "Div" { ensure!(if i[1].is_zero() { got[0].is_zero() } else { got[0] * i[1] == i[0] }, "Div gives {got:?}"); }
    ensure!(no_panic(|| hints::stub_impl(BASE + h, &i, no))? == want, "stub_impl differs");
    ensure!(no_panic(|| HintCaller::<F>::call(&StubHintCaller, BASE + h, &i, no).ok())?.unwrap() == want, "StubHintCaller differs");
    ensure!(no_panic(|| hints::safe_impl(&EmptyHintCaller::new(), BASE + h, &i, no).ok())?.unwrap() == want, "safe_impl differs");
    ensure!(hints::safe_impl(&EmptyHintCaller::new(), 5, &i, no).is_err(), "safe_impl of an unknown hint answers");
    let id2 = r.gen_range(0..1000usize); // any other hint: right number of outputs, a function of its inputs
    let (a, b) = (hints::stub_impl(id2, &i, no), hints::stub_impl(id2, &i, no));
    ensure!(a == b && a.len() == no, "stub of a custom hint");
    Ok(())
}
fn ids(r: &mut StdRng, _s: usize, log: &mut String) -> Case {
    let id = match r.gen_range(0..4) { 0 => BASE.wrapping_add(r.gen_range(0..130)).wrapping_sub(5), 1 => r.gen(), 2 => r.gen_range(0..100), _ => BASE + r.gen_range(0..20) };
    let (i, o) = (r.gen_range(0..5), r.gen_range(0..5));
    log.push_str(&format!("{id} {i} {o}"));
    let got = BuiltinHintIds::from_usize(id);
    let want = if id >= BASE && id < BASE + 20 { Some(id) } else { None };
    ensure!(got.map(|x| x as u64 as usize) == want, "from_usize({id})");
    let v = no_panic(|| hints::validate_hint(id, i, o))?.is_ok();
    let w = match want { Some(x) => arity(x - BASE, i, o), None => i > 0 && o > 0 };
    ensure!(v == w, "validate_hint says {v}, should be {w}");
    let mut k = 0; let (a, b, c) = hints::random_builtin(&mut *r); k += a; ensure!(BuiltinHintIds::from_usize(k).is_some() && hints::validate_hint(a, b, c).is_ok(), "random_builtin gives an invalid call");
    Ok(())
}
fn reg(r: &mut StdRng, _s: usize, log: &mut String) -> Case {
    type F = CircuitField<M31Config>;
    fn add(a: &[F], o: &mut [F]) -> Result<(), Error> { for (k, x) in o.iter_mut().enumerate() { *x = a.iter().fold(F::from(k as u32), |s, v| s + *v); } Ok(()) }
    fn bad(_: &[F], _: &mut [F]) -> Result<(), Error> { Err(Error::UserError("no".into())) }
    let mut g = HintRegistry::<F>::new(); let n = r.gen_range(1..5); let keys: Vec<String> = (0..n).map(|i| format!("k{}.{i}", r.gen::<u32>())).collect(); let kinds: Vec<bool> = (0..n).map(|_| r.gen()).collect();
    for i in 0..n { g.register(&keys[i], if kinds[i] { add } else { bad }); }
    log.push_str(&format!("{keys:?} {kinds:?}"));
    let dup = keys[0].clone(); let mut g2 = g.clone(); ensure!(panics(move || g2.register(&dup, add)), "a second hint under the same key replaced the first");
    for i in 0..n {
        let a: Vec<F> = (0..r.gen_range(1..4)).map(|_| val::<F>(r)).collect(); let o = r.gen_range(1..4);
        let res = no_panic(|| g.call(hint_key_to_id(&keys[i]), &a, o))?;
        match (res, kinds[i]) { (Ok(v), true) => { let mut w = vec![F::zero(); o]; add(&a, &mut w).unwrap(); ensure!(v == w, "call gives {v:?}"); } (Err(_), false) => {} (x, _) => return Err(format!("call of hint {i} gives {:?}", x.is_ok())) }
    }
    ensure!(<EmptyHintCaller as HintCaller<F>>::call(&EmptyHintCaller::new(), 3, &[], 1).is_err(), "the empty hint caller answered");
    Ok(())
}
fn main() {
    let mut s = Search::new();
    s.part("m31", 0.25, 60_000, go::<CircuitField<M31Config>>);
    s.part("bn254", 0.25, 40_000, go::<CircuitField<BN254Config>>);
    s.part("gf2", 0.1, 20_000, go::<CircuitField<GF2Config>>);
    s.part("goldilocks", 0.1, 30_000, go::<CircuitField<GoldilocksConfig>>);
    s.part("babybear", 0.1, 30_000, go::<CircuitField<BabyBearConfig>>);
    s.part("ids", 0.1, 40_000, ids);
    s.part("registry", 0.1, 10_000, reg);
    s.finish()
}
