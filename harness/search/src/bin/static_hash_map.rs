use expander_compiler::utils::static_hash_map::StaticHashMap;
use rand::seq::SliceRandom;
use rand::Rng;
use search::*;
fn main() {
    let mut s = Search::new();
    s.part("hashmap-large", 0.3, 3, |r, _size, log| {
        let n = r.gen_range(3000..5000usize); let o = r.gen_range(0..1usize << 40); *log = format!("keys {o}..{}", o + n);
        let keys: Vec<usize> = (o..o + n).collect(); let h = StaticHashMap::new(&keys);
        for (i, k) in keys.iter().enumerate() { let g = h.get(*k); ensure!(g == i, "get({k}) = {g}, but the key is at position {i} of {o}..{}", o + n); }
        Ok(())
    });
    s.part("hashmap", 1.0, 60_000, |r, size, log| {
        let n = if r.gen_range(0..40) == 0 { r.gen_range(0..3000) } else { r.gen_range(0..=size * 4) };
        // keys distinct modulo 1e9+7 (the construction cannot separate others); half the cases have keys above the modulus
        let big = r.gen_bool(0.5); let dense = r.gen_bool(0.5);
        let mut res: Vec<usize> = if dense { let o = r.gen_range(0..1000); (o..o + n).collect() } else { (0..n).map(|_| r.gen_range(0..1_000_000_007)).collect() };
        res.sort(); res.dedup(); res.shuffle(r);
        let keys: Vec<usize> = res.iter().map(|x| if big { x + 1_000_000_007 * r.gen_range(0..4000usize) } else { *x }).collect();
        *log = format!("{keys:?}");
        let h = StaticHashMap::new(&keys);
        for (i, k) in keys.iter().enumerate() { let g = h.get(*k); ensure!(g == i, "get({k}) = {g}, but the key is at position {i} of {keys:?}"); }
        for _ in 0..10 { let q: usize = r.gen(); let _ = h.get(q); } // total on every key
        Ok(())
    });
    s.finish()
}
