use arith::SimdField;
use expander_compiler::circuit::config::*;
use expander_compiler::field::{Field, FieldArith, FieldRaw};
use arith::Field as _;
use expander_compiler::frontend::{extra::UnconstrainedAPI, BasicAPI, RootAPI, Variable, API};
use expander_compiler::hints::registry::hint_key_to_id;
use expander_compiler::zkcuda::{context::*, kernel::*, proving_system::*, shape::*};
use rand::seq::SliceRandom;
use rand::Rng;
use serdes::ExpSerde;
use search::{gen::*, *};

const KEYS: [&str; 2] = ["search.a", "search.b"];
/// What a kernel does, on one instance.
#[derive(Clone, Debug)]
enum Op<Fi> { Add(usize, usize), Sub(usize, usize), Mul(usize, usize), Neg(usize), AddC(usize, Fi), MulC(usize, Fi), IsZero(usize), Const(Fi), Hint(usize, Vec<usize>, usize), Sub2(usize, usize), Unc(usize, usize),
    /// holds for all values
    Law(usize, usize, usize),
    /// holds for some
    Same(usize, usize) }
#[derive(Clone, Debug)]
struct Io { shape: Vec<usize>, i: bool, o: bool }
impl Io { fn len(&self) -> usize { self.shape.iter().product() } }
#[derive(Clone, Debug)]
struct Script<Fi> { io: Vec<Io>, ops: Vec<Op<Fi>>, outs: Vec<Vec<usize>> }
fn f1<C: Config, B: RootAPI<C>>(b: &mut B, v: &Vec<Variable>) -> Vec<Variable> { let x = b.mul(v[0], v[1]); vec![b.sub(x, 7u32)] }
impl<Fi: Field> Script<Fi> {
    /// outputs and whether the requirements hold
    fn meaning(&self, ins: &[Vec<Fi>]) -> (Vec<Vec<Fi>>, bool) {
        let mut v: Vec<Fi> = ins.iter().flatten().cloned().collect(); let mut ok = true;
        for op in &self.ops {
            let new = match op {
                Op::Add(a, b) => vec![v[*a] + v[*b]], Op::Sub(a, b) => vec![v[*a] - v[*b]], Op::Mul(a, b) | Op::Unc(a, b) => vec![v[*a] * v[*b]], Op::Neg(a) => vec![-v[*a]], Op::AddC(a, k) => vec![v[*a] + *k], Op::MulC(a, k) => vec![v[*a] * *k],
                Op::IsZero(a) => vec![if v[*a].is_zero() { Fi::one() } else { Fi::zero() }], Op::Const(k) => vec![*k], Op::Hint(k, a, n) => hint_value(hint_key_to_id(KEYS[*k]), &a.iter().map(|x| v[*x]).collect::<Vec<_>>(), *n).unwrap(),
                Op::Sub2(a, b) => vec![v[*a] * v[*b] - Fi::from(7u32)], Op::Law(..) => vec![], Op::Same(a, b) => { ok &= v[*a] == v[*b]; vec![] }
            };
            v.extend(new);
        }
        (self.outs.iter().map(|o| o.iter().map(|x| v[*x]).collect()).collect(), ok)
    }
}
fn compile<C: Config>(s: &Script<F<C>>) -> Result<KernelPrimitive<C>, expander_compiler::utils::error::Error> {
    let specs: Vec<IOVecSpec> = s.io.iter().map(|x| IOVecSpec { len: x.len(), is_input: x.i, is_output: x.o }).collect();
    let shapes: Vec<Vec<usize>> = s.io.iter().map(|x| x.shape.clone()).collect();
    compile_with_spec_and_shapes::<C, _>(|b: &mut API<C>, io: &mut Vec<Vec<Variable>>| {
        let mut v: Vec<Variable> = vec![]; for (q, x) in s.io.iter().zip(io.iter()) { if q.i { v.extend(x.iter().cloned()) } }
        for op in &s.ops {
            let new = match op {
                Op::Add(x, y) => vec![b.add(v[*x], v[*y])], Op::Sub(x, y) => vec![b.sub(v[*x], v[*y])], Op::Mul(x, y) => vec![b.mul(v[*x], v[*y])], Op::Unc(x, y) => vec![b.unconstrained_mul(v[*x], v[*y])], Op::Neg(x) => vec![b.neg(v[*x])],
                Op::AddC(x, k) => { vec![b.add(v[*x], *k)] } Op::MulC(x, k) => { vec![b.mul(v[*x], *k)] } Op::IsZero(x) => vec![b.is_zero(v[*x])], Op::Const(k) => { vec![b.constant(*k)] }
                Op::Hint(k, a, n) => b.new_hint(KEYS[*k], &a.iter().map(|x| v[*x]).collect::<Vec<_>>(), *n), Op::Sub2(x, y) => b.memorized_simple_call(f1, &[v[*x], v[*y]]),
                Op::Law(x, y, z) => { let t = b.add(v[*x], v[*y]); let l = b.mul(t, v[*z]); let p = b.mul(v[*x], v[*z]); let q = b.mul(v[*y], v[*z]); let r = b.add(p, q); b.assert_is_equal(l, r); vec![] }
                Op::Same(x, y) => { b.assert_is_equal(v[*x], v[*y]); vec![] }
            };
            v.extend(new);
        }
        for (j, q) in s.io.iter().enumerate() { if q.o { for (k, x) in s.outs[j].iter().enumerate() { io[j][k] = v[*x]; } } }
    }, &specs, &shapes)
}
fn dim(r: &mut StdRng, pow2: bool) -> usize { if pow2 { *[1, 2, 2, 4].choose(r).unwrap() } else { *[1, 2, 3, 3, 4, 5].choose(r).unwrap() } }
fn shape(r: &mut StdRng, pow2: bool) -> Vec<usize> { let n = *[0, 0, 1, 1, 1, 2].choose(r).unwrap(); (0..n).map(|_| dim(r, pow2)).collect() }
fn script<C: Config>(r: &mut StdRng, size: usize, pow2: bool) -> Script<F<C>> {
    let plain = r.gen_bool(0.4); let hints = r.gen_bool(0.4);
    let mut io: Vec<Io> = (0..r.gen_range(1..4)).map(|_| { let k = r.gen_range(0..4); Io { shape: shape(r, pow2), i: k != 0, o: k != 1 } }).collect();
    if !io.iter().any(|x| x.i) { io.push(Io { shape: shape(r, pow2), i: true, o: false }) }
    let n0: usize = io.iter().filter(|x| x.i).map(|x| x.len()).sum(); let mut n = n0; let mut ops = vec![];
    for _ in 0..r.gen_range(0..=size.min(8)) {
        let mut v = || r.gen_range(0..n); let (a, b, c) = (v(), v(), v());
        let op = match r.gen_range(0..if plain { 9 } else if hints { 16 } else { 12 }) { 0 | 1 => Op::Add(a, b), 2 => Op::Sub(a, b), 3 | 4 => Op::Mul(a, b), 5 => Op::Neg(a), 6 => Op::MulC(a, fe::<C>(r)), 7 => Op::Law(a, b, c), 8 => if r.gen_bool(0.3) { Op::Same(a, b) } else { Op::Mul(a, b) },
            9 => Op::AddC(a, fe::<C>(r)), 10 => Op::Const(fe::<C>(r)), 11 => Op::Sub2(a, b), 12 => Op::Unc(a, b), 13 | 14 => Op::IsZero(a), _ => { let k = r.gen_range(1..3); Op::Hint(r.gen_range(0..2), (0..r.gen_range(1..3)).map(|_| r.gen_range(0..n)).collect(), k) } };
        n += match &op { Op::Law(..) | Op::Same(..) => 0, Op::Hint(_, _, k) => *k, _ => 1 }; ops.push(op);
    }
    let outs = io.iter().map(|x| if x.o { (0..x.len()).map(|_| if r.gen_bool(0.6) && n > n0 { r.gen_range(n0..n) } else { r.gen_range(0..n) }).collect() } else { vec![] }).collect();
    Script { io, ops, outs }
}

/// an array held on the device, as an ordinary array
struct Arr<C: Config> { h: DeviceMemoryHandle, shape: Vec<usize>, v: Vec<SIMDField<C>> }
impl<C: Config> Clone for Arr<C> { fn clone(&self) -> Self { Arr { h: self.h.clone(), shape: self.shape.clone(), v: self.v.clone() } } }
fn digits(shape: &[usize], mut k: usize) -> Vec<usize> { let mut d = vec![0; shape.len()]; for i in (0..shape.len()).rev() { d[i] = k % shape[i]; k /= shape[i]; } d }
fn flat(shape: &[usize], d: &[usize]) -> usize { shape.iter().zip(d).fold(0, |a, (s, x)| a * s + x) }
fn lanes<C: Config>(v: &[SIMDField<C>], l: usize) -> Vec<F<C>> { v.iter().map(|x| x.unpack()[l]).collect() }
fn join<C: Config>(v: &[Vec<F<C>>]) -> Vec<SIMDField<C>> { (0..v[0].len()).map(|k| SIMDField::<C>::pack(&v.iter().map(|x| x[k]).collect::<Vec<_>>())).collect() }
fn flat2<T: Clone>(v: Vec<Vec<T>>) -> Vec<T> { v.into_iter().flatten().collect() }
fn nest<T: Clone>(v: &[T], n: usize) -> Vec<Vec<T>> { v.chunks(v.len() / n).map(|x| x.to_vec()).collect() }
type H = Hints;
type Ctx<C> = Context<C, H>;
/// values go to the device and come back, whatever the rank
fn put<C: Config>(c: &mut Ctx<C>, shape: &[usize], v: &[SIMDField<C>], how: usize) -> DeviceMemoryHandle where F<C>: FieldRaw, SIMDField<C>: FieldRaw {
    let s = || lanes::<C>(v, 0);
    match (shape.len(), how) {
        (0, 0) => c.copy_simd_to_device(&v[0]), (0, _) => c.copy_to_device(&s()[0]),
        (1, 0) => c.copy_simd_to_device(&v.to_vec()), (1, _) => c.copy_to_device(&s()),
        (2, 0) => c.copy_simd_to_device(&nest(v, shape[0])), (2, 1) => c.copy_to_device(&nest(&s(), shape[0])), (2, _) => c.copy_flat_simd_to_device(v.to_vec(), shape[1]),
        (3, 0) => c.copy_simd_to_device(&nest(&nest(v, shape[0] * shape[1]), shape[0])), (_, _) => c.copy_to_device(&nest(&nest(&s(), shape[0] * shape[1]), shape[0])),
    }
}
fn get<C: Config>(c: &Ctx<C>, shape: &[usize], h: &DeviceMemoryHandle) -> Vec<SIMDField<C>> where F<C>: FieldRaw, SIMDField<C>: FieldRaw {
    match shape.len() { 0 => vec![c.copy_simd_to_host::<SIMDField<C>>(h.clone())], 1 => c.copy_simd_to_host::<Vec<SIMDField<C>>>(h.clone()), 2 => flat2(c.copy_simd_to_host::<Vec<Vec<SIMDField<C>>>>(h.clone())), 3 => flat2(flat2(c.copy_simd_to_host::<Vec<Vec<Vec<SIMDField<C>>>>>(h.clone()))),
        _ => flat2(flat2(flat2(c.copy_simd_to_host::<Vec<Vec<Vec<Vec<SIMDField<C>>>>>>(h.clone())))) }
}
fn get1<C: Config>(c: &Ctx<C>, shape: &[usize], h: &DeviceMemoryHandle) -> Vec<F<C>> where F<C>: FieldRaw, SIMDField<C>: FieldRaw {
    match shape.len() { 0 => vec![c.copy_to_host::<F<C>>(h.clone())], 1 => c.copy_to_host::<Vec<F<C>>>(h.clone()), 2 => flat2(c.copy_to_host::<Vec<Vec<F<C>>>>(h.clone())), 3 => flat2(flat2(c.copy_to_host::<Vec<Vec<Vec<F<C>>>>>(h.clone()))),
        _ => flat2(flat2(flat2(c.copy_to_host::<Vec<Vec<Vec<Vec<F<C>>>>>>(h.clone())))) }
}
/// one recorded call: script, count, and per argument the data before and after in kernel order
struct Call<C: Config> { k: usize, n: usize, ins: Vec<Option<(Vec<SIMDField<C>>, bool)>>, outs: Vec<Vec<SIMDField<C>>>, ok: Vec<Vec<bool>> }
fn pick_view<C: Config>(r: &mut StdRng, pool: &[Arr<C>], want: &[usize]) -> Option<Arr<C>> {
    let n: usize = want.iter().product(); let mut c: Vec<&Arr<C>> = pool.iter().filter(|a| a.v.len() == n).collect(); c.shuffle(r);
    let exact = c.iter().find(|a| a.shape == want); if let Some(e) = exact { if r.gen_bool(0.5) { return Some((*e).clone()); } }
    let a = (*c.first()?).clone(); if a.shape == want && r.gen() { return Some(a); }
    Some(Arr { h: a.h.reshape(want), shape: want.to_vec(), v: a.v })
}
/// a reshape that conflicts with what is there is refused
fn legal(e: String, pow2: bool, moved: bool) -> Case { if !pow2 && moved && e.contains("illegal shape operation") { Ok(()) } else { Err(e) } }
type Hist<C> = (Ctx<C>, Vec<Call<C>>, bool);
/// a random sequence of calls, checked after each
fn history<C: Config>(r: &mut StdRng, size: usize, log: &mut String, pow2: bool, scripts: &[Script<F<C>>], prims: &[Box<KernelPrimitive<C>>]) -> Result<Option<Hist<C>>, String> where F<C>: FieldRaw, SIMDField<C>: FieldRaw {
    let p = SIMDField::<C>::PACK_SIZE; let mut c = Ctx::<C>::new(Hints); let mut pool: Vec<Arr<C>> = vec![]; let mut calls: Vec<Call<C>> = vec![];
    let mut hist: Vec<(usize, usize)> = vec![]; let mut moved = false;
    let mut slot: Option<Box<KernelPrimitive<C>>> = None; let _ = &hist;
    for _ in 0..r.gen_range(1..=2 + size / 4) {
        // now and then a view of what is there
        if !pool.is_empty() && r.gen_bool(0.4) {
            let a = pool.choose(r).unwrap().clone();
            if r.gen() { if a.shape.len() > 1 || r.gen_bool(0.1) { moved = true; let mut ax: Vec<usize> = (0..a.shape.len()).collect(); ax.shuffle(r); let shape: Vec<usize> = ax.iter().map(|x| a.shape[*x]).collect();
                let v = (0..a.v.len()).map(|k| { let d = digits(&shape, k); let mut e = vec![0; d.len()]; for (i, x) in ax.iter().enumerate() { e[*x] = d[i]; } a.v[flat(&a.shape, &e)] }).collect();
                log.push_str(&format!(" transpose {:?} by {ax:?};", a.shape)); let h = no_panic(|| a.h.transpose(&ax))?; pool.push(Arr { h, shape, v }); } }
            else { moved = true; let n = a.v.len(); let mut shape = vec![]; let mut m = n; for q in [2, 3, 5] { while m % q == 0 { m /= q; if shape.is_empty() || r.gen() { shape.push(q) } else { *shape.last_mut().unwrap() *= q } } } if m > 1 { shape.push(m) } shape.shuffle(r); while shape.len() > 4 { let x = shape.pop().unwrap(); shape[0] *= x; }
                log.push_str(&format!(" reshape {:?} as {shape:?};", a.shape)); let h = no_panic(|| a.h.reshape(&shape))?; pool.push(Arr { h, shape, v: a.v }); }
        }
        let k = r.gen_range(0..scripts.len()); let s = &scripts[k];
        let n = if let (Some((k0, n0)), true) = (hist.last(), r.gen_bool(0.3)) { if *k0 == k { *n0 } else { dim(r, pow2) } } else { let mut n = dim(r, pow2); if r.gen_bool(0.3) { n *= dim(r, pow2) } n };
        hist.push((k, n));
        let mut args: Vec<Option<Arr<C>>> = vec![]; let mut ins = vec![]; let fresh = |r: &mut StdRng, c: &mut Ctx<C>, shape: &[usize]| { let m: usize = shape.iter().product(); let how = r.gen_range(0..3);
            let l: Vec<Vec<F<C>>> = if how == 1 || shape.len() != 2 && how == 2 { vec![(0..m).map(|_| fe::<C>(r)).collect(); p] } else { (0..p).map(|_| (0..m).map(|_| fe::<C>(r)).collect()).collect() };
            let v = join::<C>(&l); let how = if shape.len() == 2 || how < 2 { how } else { 1 }; Arr { h: put::<C>(c, shape, &v, how), shape: shape.to_vec(), v } };
        log.push_str(&format!(" call {k} x{n} ("));
        for x in &s.io {
            if !x.i { if !pool.is_empty() && r.gen_bool(0.2) { log.push('s'); args.push(Some(pool.choose(r).unwrap().clone())); } else { args.push(None); } ins.push(None); log.push('-'); continue; }
            let bc = !x.o && r.gen_bool(0.35); let mut want = x.shape.clone(); if !bc { want.insert(0, n) }
            let a = match pick_view(r, &pool, &want) { Some(a) if r.gen_bool(0.7) => { moved = true; a } _ => fresh(r, &mut c, &want) };
            log.push_str(if bc { "b" } else { "p" }); ins.push(Some((a.v.clone(), bc))); args.push(Some(a));
        }
        log.push_str(");");
        // a call that does not fit is refused
        if r.gen_bool(0.03) {
            let mut io: Vec<DeviceMemoryHandle> = args.iter().map(|a| a.as_ref().and_then(|a| a.h.clone())).collect(); let mut n = n;
            let what = match r.gen_range(0..4) { 0 => { io.push(None); "one argument too many" } 1 => { io.pop(); "one argument too few" } 2 => { let j = s.io.iter().position(|x| x.i).unwrap(); io[j] = None; "an input is missing" }
                _ => { let j = s.io.iter().position(|x| x.i).unwrap(); if ins[j].as_ref().unwrap().1 { let mut t = s.io[j].shape.clone(); t.push(2); io[j] = Some(fresh(r, &mut c, &t).h.unwrap()); if s.io[j].shape.iter().all(|x| *x == 2) && n == 2 { n = 3 } } else { n += 1 } "a shape does not fit" } };
            log.push_str(what); let g = no_panic(|| c.call_kernel(&prims[k], n, &mut io).is_err());
            ensure!(g != Ok(false), "{what}: the call is accepted"); return Ok(None);
        }
        let mut io: Vec<DeviceMemoryHandle> = args.iter().map(|a| a.as_ref().and_then(|a| a.h.clone())).collect();
        // the same kernel object, a copy of it, or a copy at a place another kernel had before
        let g = match r.gen_range(0..4) { 0 => { let q = prims[k].clone(); no_panic(|| c.call_kernel(&q, n, &mut io)) } 1 => { if let Some(x) = slot.as_mut() { **x = (*prims[k]).clone(); } else { slot = Some(prims[k].clone()) } let q = slot.as_ref().unwrap(); no_panic(|| c.call_kernel(q, n, &mut io)) } _ => no_panic(|| c.call_kernel(&prims[k], n, &mut io)) };
        match g { Err(e) => return legal(e, pow2, moved).map(|_| None), Ok(Err(e)) => return Err(format!("the call is refused: {e}")), Ok(Ok(())) => {} }
        // what the instances are
        let mut outs: Vec<Vec<SIMDField<C>>> = vec![vec![]; s.io.len()]; let mut ok = vec![];
        for i in 0..n {
            let per: Vec<(Vec<Vec<F<C>>>, bool)> = (0..p).map(|l| { let a: Vec<Vec<F<C>>> = s.io.iter().zip(&ins).filter(|(x, _)| x.i).map(|(x, a)| { let (v, b) = a.as_ref().unwrap(); let m = x.len(); lanes::<C>(if *b { v } else { &v[i * m..(i + 1) * m] }, l) }).collect(); s.meaning(&a) }).collect();
            for (j, x) in s.io.iter().enumerate() { if x.o { outs[j].extend(join::<C>(&per.iter().map(|y| y.0[j].clone()).collect::<Vec<_>>())) } }
            ok.push(per.iter().map(|x| x.1).collect());
        }
        for (j, x) in s.io.iter().enumerate() {
            ensure!(io[j].is_some() == x.o, "argument {j} after the call");
            if x.o { let mut sh = x.shape.clone(); sh.insert(0, n); pool.push(Arr { h: io[j].clone(), shape: sh, v: outs[j].clone() }); }
        }
        calls.push(Call { k, n, ins, outs, ok });
        for a in pool.iter() { let g = no_panic(|| get::<C>(&c, &a.shape, &a.h))?; ensure!(g == a.v, "an array of shape {:?} comes back as {g:?}, it is {:?}", a.shape, a.v); if r.gen_bool(0.2) { let g = no_panic(|| get1::<C>(&c, &a.shape, &a.h))?; ensure!(g == lanes::<C>(&a.v, 0), "copy_to_host gives {g:?}, the array is {:?}", a.v); } }
        for (a, x) in args.iter().zip(&s.io) { if let (Some(a), true) = (a, x.i) { if r.gen_bool(0.3) { pool.push(a.clone()) } } }
    }
    Ok(Some((c, calls, moved)))
}
fn go<C: Config>(r: &mut StdRng, size: usize, log: &mut String, pow2: bool) -> Case where F<C>: FieldRaw, SIMDField<C>: FieldRaw {
    let p = SIMDField::<C>::PACK_SIZE; let mut scripts: Vec<Script<F<C>>> = vec![]; let mut prims: Vec<Box<KernelPrimitive<C>>> = vec![];
    for _ in 0..r.gen_range(1..4) { let s = script::<C>(r, size, pow2); 
        let same = s.ops.iter().any(|o| matches!(o, Op::Same(..)));
        let k = match no_panic(|| compile::<C>(&s)) { Err(e) if same && e.contains("failed") => return Ok(()), Err(e) => return Err(format!("kernel {s:?}: {e}")), Ok(Err(e)) if same && e.to_string().contains("constraint is not zero") => return Ok(()), Ok(k) => k.map_err(|e| format!("the kernel {s:?} does not compile: {e}"))? }; prims.push(Box::new(k)); scripts.push(s); }
    *log = format!("kernels {scripts:?};"); let mut again = r.clone();
    let (mut c, calls, moved) = match history::<C>(r, size, log, pow2, &scripts, &prims)? { Some(x) => x, None => return Ok(()) };
    // the graph
    let g = match no_panic(|| c.compile_computation_graph()) { Err(e) => return legal(e, pow2, moved), Ok(Err(e)) => { // a requirement that no value meets is refused here
        ensure!(e.to_string().contains("constraint is not zero") && calls.iter().any(|c| c.ok.iter().flatten().all(|x| !*x)), "the graph does not compile: {e}"); return Ok(()); } Ok(Ok(g)) => g };
    no_panic(|| c.solve_witness())?.map_err(|e| format!("hints: {e}"))?;
    let mem = no_panic(|| c.export_device_memories())?;
    ensure!(mem.len() == g.commitments_lens.len() && mem.iter().zip(&g.commitments_lens).all(|(m, l)| m.len() == *l), "the memories have sizes {:?}, the graph says {:?}", mem.iter().map(|m| m.len()).collect::<Vec<_>>(), g.commitments_lens);
    ensure!(g.proof_templates.len() == calls.len(), "{} calls, {} recorded", calls.len(), g.proof_templates.len());
    for (t, call) in g.proof_templates.iter().zip(&calls) {
        let s = &scripts[call.k]; let kern = &g.kernels[t.kernel_id]; let (kc, li) = (kern.layered_circuit(), kern.layered_circuit_input());
        // the arguments in order: inputs, outputs, hints
        let mut vals: Vec<(&[SIMDField<C>], bool, usize)> = vec![];
        for (x, a) in s.io.iter().zip(&call.ins) { if x.i { let (v, b) = a.as_ref().unwrap(); vals.push((v, *b, x.len())) } }
        for (x, o) in s.io.iter().zip(&call.outs) { if x.o { vals.push((o, false, x.len())) } }
        let nh = t.commitment_indices.len() - vals.len(); ensure!(nh == kern.hint_solver().is_some() as usize, "{} memories for {} arguments", t.commitment_indices.len(), vals.len());
        ensure!(li.len() == t.commitment_indices.len() && t.is_broadcast.len() == li.len() && t.commitment_bit_orders.len() == li.len(), "{li:?} {t:?}");
        ensure!(vals.iter().zip(&t.is_broadcast).all(|(v, b)| v.1 == *b), "broadcast flags {:?}", t.is_broadcast);
        ensure!(t.parallel_count.is_power_of_two() && t.parallel_count >= call.n, "{} instances for {}", t.parallel_count, call.n);
        // the memories as the kernel sees them: the bits of the place, in the order given
        let seen: Vec<Vec<SIMDField<C>>> = t.commitment_indices.iter().zip(&t.commitment_bit_orders).map(|(m, o)| { let m = &mem[*m]; if o.len() != m.len().trailing_zeros() as usize { return vec![]; } (0..m.len()).map(|i| { let mut j = 0; for (b, a) in o.iter().enumerate() { if i >> b & 1 == 1 { j |= 1 << a; } } m[j] }).collect() }).collect();
        for (j, x) in seen.iter().enumerate() { let want = li[j].len * if t.is_broadcast[j] { 1 } else { t.parallel_count }; ensure!(x.len() == want && want > 0, "argument {j} has {} elements, {want} are wanted", x.len()); }
        let mut next = 0;
        for i in 0..t.parallel_count {
            let chunk = |j: usize| { let l = li[j].len; if t.is_broadcast[j] { &seen[j][..] } else { &seen[j][i * l..(i + 1) * l] } };
            // which instance is this?
            let is = |q: usize| vals.iter().enumerate().all(|(j, (v, b, m))| { let v = if *b { v } else { &v[q * m..(q + 1) * m] }; let c = chunk(j); let mut k = 0; for x in c { if k < v.len() && *x == v[k] { k += 1 } } k == v.len() && c.iter().all(|x| v.contains(x)) });
            let q = if next < call.n && is(next) { next += 1; next - 1 } else { match (0..call.n).find(|q| is(*q)) { Some(q) => q, None => return Err(format!("place {i} of {} is none of the {} instances: {:?}", t.parallel_count, call.n, (0..vals.len()).map(chunk).collect::<Vec<_>>())) } };
            let inp: Vec<SIMDField<C>> = no_panic(|| prepare_inputs(kc, li, &seen.iter().map(|x| &x[..]).collect::<Vec<_>>(), &t.is_broadcast, i))?;
            for (j, x) in li.iter().enumerate() { ensure!(inp[x.offset..x.offset + x.len] == *chunk(j), "prepare_inputs: argument {j} of instance {i}"); }
            let run = |inp: &Vec<SIMDField<C>>, want: &[bool]| -> Case { let mut acc = vec![true; p]; for _ in 0..if want.iter().all(|x| *x) { 1 } else { 60 } { let (_, k) = no_panic(|| kc.eval_with_public_inputs_simd(inp.clone(), &[]))?; for (a, b) in acc.iter_mut().zip(k) { *a &= b } if acc == want { break } } ensure!(acc == want, "instance {q}: accepted {acc:?}, should be {want:?}"); Ok(()) };
            run(&inp, &call.ok[q])?;
            // another value where the output is
            let no = s.io.iter().filter(|x| x.i).count(); let nv = vals.len();
            if nv > no && call.ok[q].iter().all(|x| *x) && r.gen_bool(0.2) && !s.io.iter().any(|x| false && x.o) { let j = r.gen_range(no..nv); let (v, _, m) = vals[j]; let real = &v[q * m..(q + 1) * m];
                // the first place of the chunk is always an element, never a copy
                let mut w = inp.clone(); w[li[j].offset] = w[li[j].offset] + SIMDField::<C>::pack(&vec![F::<C>::one(); p]); let _ = real; let free = li.iter().enumerate().any(|(jj, _)| jj != j && jj < no && t.commitment_indices[jj] == t.commitment_indices[j]); if !free { run(&w, &vec![false; p]).map_err(|e| format!("with a wrong output: {e}"))? } }
        }
        ensure!(next == call.n, "only {next} of {} instances are there", call.n);
    }
    // the graph fits the same calls again, and gives the same memories
    let mut l = String::new(); let (mut c2, ..) = history::<C>(&mut again, size, &mut l, pow2, &scripts, &prims)?.ok_or("the same calls went otherwise")?;
    let mut g2 = g.clone(); if g.kernels.len() % 2 == 0 { let mut b = vec![]; g.serialize_into(&mut b).map_err(|e| format!("{e:?}"))?; g2 = ComputationGraph::<C>::deserialize_from(&b[..]).map_err(|e| format!("{e:?}"))?; }
    no_panic(|| c2.load_computation_graph(g2))?.map_err(|e| format!("the graph does not load: {e}"))?;
    no_panic(|| c2.solve_witness())?.map_err(|e| format!("hints: {e}"))?; ensure!(no_panic(|| c2.export_device_memories())? == mem, "with the graph loaded the memories differ");
    Ok(())
}
fn main() {
    let mut s = Search::new(); quiet();
    s.part("m31", 0.3, u64::MAX, |r, k, l| go::<M31Config>(r, k, l, true));
    s.part("m31-any", 0.25, u64::MAX, |r, k, l| go::<M31Config>(r, k, l, false));
    s.part("gf2", 0.1, u64::MAX, |r, k, l| go::<GF2Config>(r, k, l, true));
    s.part("bn254-any", 0.15, u64::MAX, |r, k, l| go::<BN254Config>(r, k, l, false));
    s.part("goldilocks", 0.2, u64::MAX, |r, k, l| go::<GoldilocksConfig>(r, k, l, true));
    s.finish()
}
