use expander_compiler::utils::heap::{pop, push};
use rand::Rng;
use search::*;
fn main() {
    let mut s = Search::new();
    s.part("heap-large", 0.3, 4, |r, _size, log| {
        // few, large heaps: past every power of two up to 2^20, descending pushes and ties included
        let n = r.gen_range(1_050_000..1_200_000usize); let kind = r.gen_range(0..3); let asc = r.gen_bool(0.5);
        *log = format!("n={n} kind={kind} asc={asc}");
        let key = |x: usize| match kind { 0 => x, 1 => usize::MAX - x, _ => x / 1000 };
        let cmp = |a: usize, b: usize| key(a).cmp(&key(b));
        let mut hp = Vec::with_capacity(n); for i in 0..n { push(&mut hp, if asc { i } else { n - 1 - i }, cmp); }
        push(&mut hp, 0, cmp); push(&mut hp, n, cmp);
        let mut seen = vec![0u8; n + 1]; let mut last = None;
        while let Some(x) = pop(&mut hp, cmp) {
            ensure!(last.map_or(true, |l| key(l) <= key(x)), "pop returned {x} after {last:?}"); last = Some(x);
            ensure!(x <= n && seen[x] < if x == 0 { 2 } else { 1 }, "{x} returned too often"); seen[x] += 1;
        }
        ensure!(seen[0] == 2 && seen[1..].iter().all(|c| *c == 1), "{} elements were lost", n + 2 - seen.iter().map(|c| *c as usize).sum::<usize>());
        Ok(())
    });
    s.part("heap-ops", 1.0, 400_000, |r, size, log| {
        // several comparators: natural, reversed, coarse (many ties), table driven
        let kind = r.gen_range(0..4); let m = r.gen_range(1..=size * 2 + 1);
        let table: Vec<usize> = (0..m).map(|_| r.gen_range(0..m)).collect();
        let key = |x: usize| -> usize { match kind { 0 => x, 1 => m - 1 - x, 2 => x / 3, _ => table[x] } };
        let cmp = |a: usize, b: usize| key(a).cmp(&key(b));
        let mut hp: Vec<usize> = vec![]; let mut model: Vec<usize> = vec![];
        *log = format!("keys={:?} ops=", (0..m).map(key).collect::<Vec<_>>());
        let grow = r.gen_range(1..10);
        for _ in 0..r.gen_range(1..=size * 4) {
            if r.gen_range(0..10) < grow {
                let x = r.gen_range(0..m); log.push_str(&format!("+{x} "));
                push(&mut hp, x, cmp); model.push(x);
            } else {
                log.push_str("- ");
                match pop(&mut hp, cmp) {
                    None => ensure!(model.is_empty(), "pop returned None with {} elements stored", model.len()),
                    Some(x) => {
                        let Some(p) = model.iter().position(|y| *y == x) else { return Err(format!("pop returned {x}, which is not stored")) };
                        ensure!(model.iter().all(|y| key(*y) >= key(x)), "pop returned {x}, which is not minimal among {model:?}");
                        model.swap_remove(p);
                    }
                }
            }
            let (mut a, mut b) = (hp.clone(), model.clone()); a.sort(); b.sort();
            ensure!(a == b, "stored elements {a:?} differ from those pushed and not popped {b:?}");
        }
        Ok(())
    });
    s.finish()
}
