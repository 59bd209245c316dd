use expander_compiler::utils::pool::Pool;
use rand::Rng;
use search::*;
fn main() {
    let mut s = Search::new();
    s.part("pool-large", 0.3, 4, |r, _size, log| {
        let n = r.gen_range(70_000..140_000usize); *log = format!("n={n}"); let mul = r.gen::<usize>() | 1;
        let mut p: Pool<usize> = Pool::new();
        for i in 0..n { let g = p.add(&i.wrapping_mul(mul)); ensure!(g == i, "the {i}-th distinct value got id {g}"); }
        for i in 0..n { let v = i.wrapping_mul(mul); ensure!(p.add(&v) == i && p.get_idx(&v) == i && p.try_get_idx(&v) == Some(i) && *p.get(i) == v, "id {i} and value {v} disagree"); }
        ensure!(p.len() == n && p.vec().len() == n && p.map().len() == n, "size {} after {n} distinct values", p.len());
        Ok(())
    });
    s.part("pool", 1.0, 200_000, |r, size, log| {
        let mut p: Pool<Vec<u8>> = if r.gen() { Pool::new() } else { Pool::default() };
        let mut model: Vec<Vec<u8>> = vec![];
        let k = r.gen_range(1..=size as u32 + 1);
        ensure!(p.is_empty() && p.len() == 0, "a new pool is not empty");
        for _ in 0..r.gen_range(0..size * 4) {
            let v: Vec<u8> = (0..r.gen_range(0..3)).map(|_| r.gen_range(0..k) as u8).collect();
            log.push_str(&format!("{v:?} "));
            if r.gen_range(0..3) == 0 {
                let want = model.iter().position(|x| *x == v);
                ensure!(p.try_get_idx(&v) == want, "try_get_idx({v:?}) = {:?}, should be {want:?}", p.try_get_idx(&v));
                if let Some(i) = want { ensure!(p.get_idx(&v) == i, "get_idx({v:?}) wrong"); } else { ensure!(panics(|| p.get_idx(&v)), "get_idx of a value never added returned"); }
            } else {
                let want = model.iter().position(|x| *x == v).unwrap_or_else(|| { model.push(v.clone()); model.len() - 1 });
                let g = p.add(&v); ensure!(g == want, "add({v:?}) = {g}, should be {want}");
            }
            if r.gen_range(0..20) == 0 { p = p.clone(); }
            ensure!(p.len() == model.len() && p.vec() == &model && p.is_empty() == model.is_empty(), "pool holds {:?}, should hold {model:?}", p.vec());
            ensure!(p.map().len() == model.len(), "map size");
            for (i, v) in model.iter().enumerate() { ensure!(p.get(i) == v && p.get_idx(v) == i && p.map().get(v) == Some(&i), "id {i} and value {v:?} disagree"); }
        }
        Ok(())
    });
    s.finish()
}
