use expander_compiler::utils::bucket_sort::bucket_sort;
use rand::Rng;
use search::*;
fn main() {
    let mut s = Search::new();
    s.part("bucket-large", 0.3, 20, |r, _size, log| {
        let m = [1usize, 2, 3, 300, 70_000][r.gen_range(0..5)]; let n = [250usize, 1000, 70_000, 150_000][r.gen_range(0..4)];
        let arr: Vec<(usize, usize)> = (0..n).map(|i| (r.gen_range(0..m), i)).collect();
        *log = format!("buckets={m} len={n}");
        let (res, st) = bucket_sort(arr.clone(), |x| x.0, m);
        let mut want = arr.clone(); want.sort_by_key(|x| x.0);
        if let Some(i) = (0..n).find(|i| res.get(*i) != want.get(*i)) { return Err(format!("position {i} of the result holds {:?}, the stable order has {:?}", res.get(i), want.get(i))); }
        ensure!(res.len() == n && st.len() == m, "lengths {} {}", res.len(), st.len());
        for b in 0..m { ensure!(st[b] == want.partition_point(|x| x.0 < b), "bucket {b} starts at {}", st[b]); }
        Ok(())
    });
    s.part("bucket", 1.0, 300_000, |r, size, log| {
        let m = r.gen_range(0..=size + 1);
        let n = if m == 0 { 0 } else { r.gen_range(0..=size * 3) };
        let arr: Vec<(usize, usize)> = (0..n).map(|i| (r.gen_range(0..m.max(1)), i)).collect();
        let inv = r.gen_bool(0.3);
        *log = format!("buckets={m} inv={inv} arr={arr:?}");
        let key = |x: &(usize, usize)| if inv { m - 1 - x.0 } else { x.0 };
        let (res, st) = bucket_sort(arr.clone(), key, m);
        let mut want = arr.clone(); want.sort_by_key(|x| key(x));
        ensure!(res == want, "bucket_sort returned {res:?}, stable order is {want:?}");
        ensure!(st.len() == m, "{} starts for {m} buckets", st.len());
        for b in 0..m { let w = arr.iter().filter(|x| key(x) < b).count(); ensure!(st[b] == w, "bucket {b} starts at {}, should start at {w}", st[b]); }
        Ok(())
    });
    s.finish()
}
