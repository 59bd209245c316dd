use expander_compiler::utils::union_find::UnionFind;
use rand::Rng;
use search::*;
fn main() {
    let mut s = Search::new();
    s.part("union-find-large", 0.3, 12, |r, _size, log| {
        let n = r.gen_range(1..200_000usize); let kind = r.gen_range(0..4); let cut = r.gen_range(0..n);
        *log = format!("n={n} kind={kind} cut={cut}");
        let mut u = UnionFind::new(n);
        // two components 0..cut and cut..n, built as chains (far end first), reversed chains, stars, or balanced
        for (a, b) in [(0, cut), (cut, n)] {
            match kind {
                0 => for i in a + 1..b { u.union(i - 1, i); },
                1 => for i in (a + 1..b).rev() { u.union(i, i - 1); },
                2 => for i in a + 1..b { if i % 2 == 0 { u.union(a, i) } else { u.union(i, a) } },
                _ => { let mut w = 1; while w < b - a { let mut i = a; while i + w < b { u.union(i, i + w); i += 2 * w; } w *= 2; } }
            }
        }
        let far = if cut > 0 { Some(u.find(0)) } else { None }; let near = u.find(n - 1);
        ensure!(far != Some(near), "elements that were never merged share a representative");
        for x in 0..n { let g = u.find(x); ensure!(g == if x < cut { far.unwrap() } else { near }, "find({x}) = {g} in a component whose other members give {}", if x < cut { far.unwrap() } else { near }); }
        Ok(())
    });
    s.part("union-find", 1.0, 200_000, |r, size, log| {
        let n = r.gen_range(1..=size * 2 + 1);
        let mut u = UnionFind::new(n); let mut rep: Vec<usize> = (0..n).collect();
        *log = format!("n={n} ");
        let chain = r.gen_bool(0.3);
        for k in 0..r.gen_range(1..=size * 4) {
            if r.gen_bool(0.5) {
                let (x, y) = if chain { (k % n, (k + 1) % n) } else { (r.gen_range(0..n), r.gen_range(0..n)) };
                log.push_str(&format!("u({x},{y}) "));
                u.union(x, y); let (a, b) = (rep[x], rep[y]);
                for z in rep.iter_mut() { if *z == a { *z = b; } }
            } else {
                let x = r.gen_range(0..n); log.push_str(&format!("f({x}) "));
                let g = u.find(x); ensure!(g == rep[x], "find({x}) = {g}, should be {}", rep[x]);
            }
            if r.gen_range(0..8) == 0 { for x in 0..n { let g = u.find(x); ensure!(g == rep[x], "find({x}) = {g}, should be {}", rep[x]); } }
        }
        for x in 0..n { let g = u.find(x); ensure!(g == rep[x], "find({x}) = {g}, should be {}", rep[x]); }
        Ok(())
    });
    s.finish()
}
