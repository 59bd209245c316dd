use expander_compiler::circuit::input_mapping::EMPTY;
use expander_compiler::layering::vp_hooks::{merge_layouts, subs_map};
use rand::seq::SliceRandom;
use rand::Rng;
use search::*;
use std::collections::HashMap;

fn merge(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let k = r.gen_range(0..=1 + size / 4); let mut next = 0usize; let hole = *[0.0, 0.2, 0.5, 0.9].choose(r).unwrap();
    let mut names: Vec<usize> = (0..4000).collect(); if r.gen_bool(0.5) { names.shuffle(r); }
    let mut fresh = || { next += 1; names[next - 1] };
    let s: Vec<Vec<usize>> = (0..k).map(|_| { let n = 1usize << r.gen_range(0..=(1 + size / 8).min(5)); (0..n).map(|_| if r.gen_bool(hole) { EMPTY } else { fresh() }).collect() }).collect();
    let add: Vec<usize> = (0..r.gen_range(0..=size)).map(|_| fresh()).collect();
    *log = format!("merge_layouts({:?}, {add:?})", s.iter().map(|v| v.iter().map(|x| if *x == EMPTY { -1 } else { *x as i64 }).collect::<Vec<_>>()).collect::<Vec<_>>());
    let res = no_panic(|| merge_layouts(s.clone(), add.clone()))?;
    ensure!(res.len().is_power_of_two(), "the width is {}", res.len());
    let mut at: HashMap<usize, usize> = HashMap::new();
    for (i, x) in res.iter().enumerate() { if *x != EMPTY { ensure!(at.insert(*x, i).is_none(), "{x} has two slots: {res:?}"); } }
    ensure!(at.len() == next, "{} variables placed, {next} given: {res:?}", at.len());
    for v in &add { ensure!(at.contains_key(v), "{v} is not placed: {res:?}"); }
    for g in &s {
        let Some(j) = g.iter().position(|x| *x != EMPTY) else { continue };
        let Some(p) = at.get(&g[j]) else { return Err(format!("{} is not placed: {res:?}", g[j])) };
        ensure!(*p >= j && (p - j) % g.len() == 0, "group {g:?} starts at {} - {j}, not a multiple of its size: {res:?}", p);
        for (i, x) in g.iter().enumerate() { if *x != EMPTY { ensure!(res.get(p - j + i) == Some(x), "group {g:?} is not kept in one block: {res:?}"); } }
        ensure!(p - j + g.len() <= res.len(), "group {g:?} sticks out");
    }
    Ok(())
}
fn subst(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let l: Vec<usize> = (0..size).map(|_| if r.gen_bool(0.3) { EMPTY } else { r.gen_range(0..10) }).collect();
    let mut m: HashMap<usize, usize> = HashMap::new(); for k in 0..10 { if r.gen_bool(0.7) { m.insert(k, r.gen_range(0..100)); } }
    *log = format!("{l:?} {m:?}");
    let mut x = l.clone(); no_panic(|| subs_map(&mut x, &m))?;
    let want: Vec<usize> = l.iter().map(|v| if *v == EMPTY { EMPTY } else { m.get(v).copied().unwrap_or(EMPTY) }).collect();
    ensure!(x == want, "substitution gives {x:?}");
    Ok(())
}
fn main() {
    let mut s = Search::new();
    s.part("merge", 0.8, 300_000, merge);
    s.part("subs_map", 0.1, 50_000, subst);
    s.finish()
}
