use expander_compiler::utils::misc::*;
use rand::Rng;
use search::*;
use std::collections::{HashMap, HashSet};
fn main() {
    let mut s = Search::new();
    s.part("topo-large", 0.2, 12, |r, _size, log| {
        let n = r.gen_range(65..3000usize); let w = r.gen_range(1..6); let kind = r.gen_range(0..3);
        let perm: Vec<usize> = { let mut p: Vec<usize> = (0..n).collect(); use rand::seq::SliceRandom; p.shuffle(r); p };
        let mut edges: HashMap<usize, HashSet<usize>> = HashMap::new(); let mut list = vec![];
        for i in 0..n { for j in 1..=w { let to = match kind { 0 => i + j, 1 => i + r.gen_range(1..n), _ => i + j * j * 7 }; if to < n { edges.entry(perm[i]).or_default().insert(perm[to]); list.push((perm[i], perm[to])); } } }
        let cyc = r.gen_bool(0.2) && n > 2; if cyc { edges.entry(perm[n - 1]).or_default().insert(perm[n - 2]); edges.entry(perm[n - 2]).or_default().insert(perm[n - 1]); }
        *log = format!("n={n} w={w} kind={kind} cyc={cyc}");
        let vs: HashSet<usize> = (0..n).collect();
        let (q, is) = topo_order_and_is_dag(&vs, &edges);
        ensure!(is != cyc, "is_dag = {is}");
        if !cyc {
            ensure!(topo_order(&vs, &edges).len() == n && q.len() == n, "{} of {n} vertices listed", q.len());
            let mut pos = vec![usize::MAX; n]; for (i, v) in q.iter().enumerate() { ensure!(*v < n && pos[*v] == usize::MAX, "{v} listed twice"); pos[*v] = i; }
            for (a, b) in &list { ensure!(pos[*a] < pos[*b], "{b} listed before its predecessor {a}"); }
        }
        Ok(())
    });
    s.part("pow2", 0.2, 300_000, |r, _size, log| {
        let k = r.gen_range(0..64); let x: usize = match r.gen_range(0..4) { 0 => 1usize << k, 1 => (1usize << k).wrapping_sub(1), 2 => (1usize << k).wrapping_add(1), _ => r.gen::<usize>() >> k };
        *log = format!("{x}");
        let p = prev_power_of_two(x); let want = if x == 0 { 0 } else { 1usize << (63 - x.leading_zeros()) };
        ensure!(p == want, "prev_power_of_two({x}) = {p}, should be {want}");
        if x <= 1 << 63 { let n = next_power_of_two(x); ensure!(n == x.next_power_of_two(), "next_power_of_two({x}) = {n}, should be {}", x.next_power_of_two()); }
        Ok(())
    });
    s.part("topo", 0.8, 300_000, |r, size, log| {
        let n = r.gen_range(0..=size); let dag = r.gen_bool(0.7); let dens = r.gen_range(0.0..0.6);
        let off = r.gen_range(0..5); let ids: Vec<usize> = (0..n).map(|i| (i * 7 + off) % (n * 7 + 1)).collect();
        let mut edges: HashMap<usize, HashSet<usize>> = HashMap::new(); let vs: HashSet<usize> = ids.iter().cloned().collect();
        let mut list = vec![];
        for i in 0..n { if r.gen_bool(0.2) { edges.entry(ids[i]).or_default(); } for j in 0..n { if (if dag { i < j } else { true }) && r.gen_bool(dens) && (i != j || r.gen_bool(0.1)) { edges.entry(ids[i]).or_default().insert(ids[j]); list.push((ids[i], ids[j])); } } }
        *log = format!("vertices={ids:?} edges={list:?}");
        let q = topo_order(&vs, &edges);
        let (q2, is) = topo_order_and_is_dag(&vs, &edges);
        // vertices that no cycle reaches
        let mut live: HashSet<usize> = vs.clone(); let mut ok: Vec<usize> = vec![];
        loop { let nx: Vec<usize> = live.iter().cloned().filter(|v| !list.iter().any(|(a, b)| b == v && live.contains(a))).collect(); if nx.is_empty() { break; } for v in nx { live.remove(&v); ok.push(v); } }
        ensure!(is == live.is_empty(), "is_dag = {is} for edges {list:?}");
        for q in [q, q2] {
            let mut pos = HashMap::new();
            for (i, v) in q.iter().enumerate() { ensure!(vs.contains(v), "{v} is not a vertex"); ensure!(pos.insert(*v, i).is_none(), "{v} listed twice"); }
            ensure!(q.len() == ok.len(), "order {q:?} lists {} vertices, {} have no cycle before them", q.len(), ok.len());
            for (a, b) in &list { if let Some(pb) = pos.get(b) { ensure!(pos.get(a).map_or(false, |pa| pa < pb), "{b} listed before its predecessor {a}: {q:?}"); } }
        }
        Ok(())
    });
    s.finish()
}
