use expander_compiler::circuit::input_mapping::{InputMapping, EMPTY};
use rand::seq::SliceRandom;
use rand::Rng;
use search::*;
/// a random injective map with the given target size (kept entries cover a prefix of a permutation)
fn gen(r: &mut StdRng, n: usize, next: usize) -> Vec<usize> {
    let mut t: Vec<usize> = (0..next).collect(); t.shuffle(r);
    let mut m: Vec<usize> = vec![EMPTY; n];
    let mut pos: Vec<usize> = (0..n).collect(); pos.shuffle(r);
    let k = if r.gen() { n.min(next) } else { r.gen_range(0..=n.min(next)) };
    for i in 0..k { m[pos[i]] = t[i]; }
    m
}
fn apply(m: &[usize], next: usize, v: &[u64]) -> Vec<u64> { let mut o = vec![0; next]; for i in 0..m.len() { if m[i] != EMPTY { o[m[i]] = v[i]; } } o }
fn main() {
    let mut s = Search::new();
    s.part("apply_compose", 0.6, 100_000, |r, size, log| {
        let n = r.gen_range(0..=size); let mut next = r.gen_range(0..=size);
        let mut m = gen(r, n, next);
        let v: Vec<u64> = (0..n).map(|_| r.gen_range(1..1000)).collect();
        let mut real = InputMapping::new(next, m.clone());
        let mut cur = apply(&m, next, &v);
        log.push_str(&format!("{m:?}->{next} {v:?}"));
        ensure!(real.cur_size() == n && real.next_size() == next && real.mapping() == &m, "accessors disagree");
        ensure!(real.map_inputs(&v) == cur, "map_inputs = {:?}, should be {cur:?}", real.map_inputs(&v));
        for i in 0..n { ensure!(real.map(i) == m[i], "map({i})"); }
        for _ in 0..r.gen_range(0..3) {
            let nn = r.gen_range(0..=size);
            let m2 = gen(r, next, nn);
            log.push_str(&format!(" then {m2:?}->{nn}"));
            let other = InputMapping::new(nn, m2.clone());
            ensure!(other.map_inputs(&cur) == apply(&m2, nn, &cur), "map_inputs of the second map");
            let c = real.compose(&other);
            let mut ip = real.clone(); ip.compose_in_place(&other);
            ensure!(c == ip, "compose gives {c:?}, compose_in_place gives {ip:?}");
            cur = apply(&m2, nn, &cur); m = c.mapping().clone(); next = nn; real = c;
            ensure!(real.cur_size() == n && real.next_size() == next, "sizes of the composition");
            ensure!(real.map_inputs(&v) == cur, "composition maps {v:?} to {:?}, one after the other gives {cur:?} ({m:?})", real.map_inputs(&v));
        }
        let id = InputMapping::new_identity(next);
        ensure!(id.map_inputs(&cur) == cur && real.compose(&id) == real && InputMapping::new_identity(n).compose(&real) == real, "the identity map changes something");
        ensure!(id.validate() && id.cur_size() == next && id.next_size() == next, "the identity map is not valid");
        Ok(())
    });
    s.part("validate", 0.4, 100_000, |r, size, log| {
        let n = r.gen_range(0..=size.min(12)); let next = r.gen_range(0..=n + 1);
        let mut m = gen(r, n, next);
        for _ in 0..r.gen_range(0..3) { if n > 0 { let i = r.gen_range(0..n); m[i] = match r.gen_range(0..4) { 0 => EMPTY, 1 => next, 2 => next + r.gen_range(0..3), _ => r.gen_range(0..next + 1) }; } }
        log.push_str(&format!("{m:?}->{next}"));
        let kept: Vec<usize> = m.iter().cloned().filter(|x| *x != EMPTY).collect();
        let mut s2 = kept.clone(); s2.sort(); s2.dedup();
        let want = s2.len() == kept.len() && s2 == (0..next).collect::<Vec<_>>();
        let got = no_panic(|| InputMapping::new(next, m.clone()).validate())?;
        ensure!(got == want, "validate says {got}, should be {want}");
        Ok(())
    });
    s.finish()
}
