use expander_compiler::zkcuda::shape::*;
use rand::seq::SliceRandom;
use rand::Rng;
use search::*;

/// An ordinary row-major array: shape, and for each position the original element number.
#[derive(Clone)]
struct Arr { shape: Vec<usize>, at: Vec<usize> }
fn digits(shape: &[usize], mut k: usize) -> Vec<usize> { let mut d = vec![0; shape.len()]; for i in (0..shape.len()).rev() { d[i] = k % shape[i]; k /= shape[i]; } d }
fn flat(shape: &[usize], d: &[usize]) -> usize { shape.iter().zip(d).fold(0, |a, (s, x)| a * s + x) }
impl Arr {
    fn transpose(&self, axes: &[usize]) -> Arr {
        let shape: Vec<usize> = axes.iter().map(|a| self.shape[*a]).collect();
        let at = (0..self.at.len()).map(|k| { let d = digits(&shape, k); let mut e = vec![0; d.len()]; for (i, a) in axes.iter().enumerate() { e[*a] = d[i]; } self.at[flat(&self.shape, &e)] }).collect();
        Arr { shape, at }
    }
}
fn p2(x: usize) -> usize { x.next_power_of_two() }
/// element of the padded array: every index clamped to its dimension
fn padded(shape: &[usize], data: &[usize]) -> Vec<usize> {
    let ps: Vec<usize> = shape.iter().map(|x| p2(*x)).collect(); let n: usize = ps.iter().product();
    (0..n).map(|k| { let d: Vec<usize> = digits(&ps, k).iter().zip(shape).map(|(x, s)| (*x).min(s - 1)).collect(); data[flat(shape, &d)] }).collect()
}
fn factor(r: &mut StdRng, primes: &[usize], unit: bool) -> Vec<usize> {
    let mut p = primes.to_vec(); p.shuffle(r);
    let mut s: Vec<usize> = vec![];
    for x in p { if s.is_empty() || r.gen_bool(0.5) { s.push(x) } else { *s.last_mut().unwrap() *= x } }
    s.shuffle(r);
    if unit { for _ in 0..r.gen_range(0..3) { let i = r.gen_range(0..=s.len()); s.insert(i, 1); } }
    s
}
/// a refinement-compatible factorisation: cut points of the same prime list
fn cuts(r: &mut StdRng, primes: &[usize], unit: bool) -> Vec<usize> {
    let mut s: Vec<usize> = vec![];
    for &x in primes { if s.is_empty() || r.gen_bool(0.5) { s.push(x) } else { *s.last_mut().unwrap() *= x } }
    if unit { for _ in 0..r.gen_range(0..3) { let i = r.gen_range(0..=s.len()); s.insert(i, 1); } }
    s
}
fn main() {
    let mut s = Search::new();
    let view = |unit: bool| move |r: &mut StdRng, size: usize, log: &mut String| -> Case {
        let primes: Vec<usize> = (0..r.gen_range(0..=(size / 3 + 1).min(6))).map(|_| *[2, 2, 2, 3, 5, 7].choose(r).unwrap()).collect();
        let init = factor(r, &primes, unit);
        let n: usize = init.iter().product();
        let mut h = ShapeHistory::new(init.clone()); let mut m = Arr { shape: init.clone(), at: (0..n).collect() };
        *log = format!("{init:?}");
        let data: Vec<usize> = (0..n).map(|i| i * 3 + 1).collect();
        for _ in 0..r.gen_range(0..6) {
            if r.gen() {
                let ns = factor(r, &primes, unit); log.push_str(&format!(".reshape({ns:?})"));
                h = h.reshape(&ns); m.shape = ns;
            } else {
                let mut ax: Vec<usize> = (0..m.shape.len()).collect(); ax.shuffle(r); log.push_str(&format!(".transpose({ax:?})"));
                h = h.transpose(&ax); m = m.transpose(&ax);
            }
            ensure!(h.shape() == m.shape, "shape() = {:?}, should be {:?}", h.shape(), m.shape);
            let got = h.permute_vec(&data); let want: Vec<usize> = m.at.iter().map(|i| data[*i]).collect();
            ensure!(got == want, "the view reads {got:?}, an ordinary array gives {want:?}");
            if h.is_identity_permutation() { ensure!(got == data, "called an identity permutation but elements move"); }
            let mut bad = m.shape.clone(); bad.push(2); ensure!(panics(|| h.reshape(&bad)), "reshape to {bad:?} of {n} elements accepted");
            let ax: Vec<usize> = (0..m.shape.len() + 1).collect(); ensure!(panics(|| h.transpose(&ax)), "transpose with {} axes of {:?} accepted", ax.len(), m.shape);
        }
        Ok(())
    };
    s.part("views", 0.3, 200_000, view(false));
    s.part("views-unit", 0.1, 200_000, view(true));
    s.part("padding", 0.2, 100_000, |r, _size, log| {
        let k = r.gen_range(0..5); let shape: Vec<usize> = (0..k).map(|_| if k <= 2 { r.gen_range(1..20) } else { r.gen_range(1..6) }).collect();
        let n: usize = shape.iter().product(); let data: Vec<usize> = (0..n).map(|i| 1000 + i).collect(); *log = format!("{shape:?}");
        let want = padded(&shape, &data);
        let got = multi_dimension_data_padding(&shape, &data);
        ensure!(got == want, "padding {shape:?} gives {got:?}, should be {want:?}");
        ensure!(shape_vec_len(&shape) == n && shape_vec_padded_len(&shape) == want.len(), "lengths");
        let im = shape_padded_mapping(&shape);
        ensure!(im.mapping().len() == n && im.next_size() == want.len(), "mapping of {} elements into {}", im.mapping().len(), im.cur_size());
        for (i, p) in im.mapping().iter().enumerate() { ensure!(*p < want.len() && got[*p] == data[i], "element {i} is placed at {p}, which does not hold it"); }
        let mut q = im.mapping().to_vec(); q.sort(); q.dedup(); ensure!(q.len() == n, "two elements share a place");
        if n > 1 { ensure!(panics(|| multi_dimension_data_padding(&shape, &data[..n - 1])), "{} elements accepted for shape {shape:?}", n - 1); }
        Ok(())
    });
    s.part("helpers", 0.1, 100_000, |r, size, log| {
        let shape: Vec<usize> = (0..r.gen_range(0..=size.min(8))).map(|_| r.gen_range(1..8)).collect(); *log = format!("{shape:?}");
        let pp = prefix_products(&shape); let want: Vec<usize> = (0..=shape.len()).map(|i| shape[..i].iter().product()).collect();
        ensure!(pp == want, "prefix_products({shape:?}) = {pp:?}");
        ensure!(prefix_products_to_shape(&pp) == shape, "prefix_products_to_shape({pp:?}) = {:?}", prefix_products_to_shape(&pp));
        let sp = shape_prepend(&shape, 9); ensure!(sp[0] == 9 && sp[1..] == shape[..], "shape_prepend gives {sp:?}");
        let x = pp[r.gen_range(0..pp.len())];
        let (u, v) = (keep_shape_until(&shape, x), keep_shape_since(&shape, x));
        ensure!([u.clone(), v.clone()].concat() == shape && u.iter().product::<usize>() == x, "keep_shape_until/since({shape:?}, {x}) = {u:?} / {v:?}");
        let k = keep_shape_products_until(&pp, x); ensure!(k[..] == pp[..k.len()] && *k.last().unwrap() == x && k.iter().filter(|y| **y == x).count() == 1, "keep_shape_products_until({pp:?}, {x}) = {k:?}");
        ensure!(panics(|| keep_shape_products_until(&pp, pp.last().unwrap() + 1)), "product not present accepted");
        // merging
        let primes: Vec<usize> = (0..r.gen_range(0..=size.min(6))).map(|_| *[2, 2, 3, 5].choose(r).unwrap()).collect();
        let un = r.gen_bool(0.2); let (a, b) = (prefix_products(&cuts(r, &primes, un)), prefix_products(&cuts(r, &primes, un))); log.push_str(&format!(" merge {a:?} {b:?}"));
        let mut w = [a.clone(), b.clone()].concat(); w.sort(); w.dedup();
        ensure!(merge_shape_products(&a, &b) == w, "merge_shape_products = {:?}, should be {w:?}", merge_shape_products(&a, &b));
        let (a, b) = (prefix_products(&factor(r, &primes, false)), prefix_products(&factor(r, &primes, false)));
        let mut w = [a.clone(), b.clone()].concat(); w.sort(); w.dedup(); let legal = w.windows(2).all(|x| x[1] % x[0] == 0);
        match no_panic(|| merge_shape_products(&a, &b)) { Ok(g) => ensure!(legal && g == w, "merge_shape_products({a:?}, {b:?}) = {g:?}"), Err(_) => ensure!(!legal, "merge_shape_products({a:?}, {b:?}) refused a legal merge") }
        let c = prefix_products(&[primes.clone(), vec![2]].concat()); ensure!(panics(|| merge_shape_products(&a, &c)), "different totals accepted");
        Ok(())
    });
    // the committed vector is padded along the split list; the bit order must read it as the padded view
    let split = |unit: bool| move |r: &mut StdRng, size: usize, log: &mut String| -> Case {
        let primes: Vec<usize> = (0..r.gen_range(0..=(size / 3 + 1).min(6))).map(|_| *[2, 2, 2, 4, 3, 5].choose(r).unwrap()).collect();
        let allp2 = r.gen_bool(0.3); let primes: Vec<usize> = primes.iter().map(|x| if allp2 { 2 } else { *x }).collect();
        let init = cuts(r, &primes, unit);
        let n: usize = init.iter().product();
        *log = format!("{init:?}");
        // the unit list tracks where each prime currently is, so that most reshapes respect it
        let mut cur = primes.clone();
        let mut h = ShapeHistory::new(init.clone());
        let mut m = Arr { shape: init, at: (0..n).collect() };
        for _ in 0..r.gen_range(0..5) {
            if r.gen() {
                let ns = if r.gen_bool(0.9) { cuts(r, &cur, unit) } else { factor(r, &cur, unit) }; log.push_str(&format!(".reshape({ns:?})"));
                h = h.reshape(&ns); m.shape = ns;
            } else {
                let mut ax: Vec<usize> = (0..m.shape.len()).collect(); ax.shuffle(r); log.push_str(&format!(".transpose({ax:?})"));
                // move the primes with their dimension when they can be told apart
                let mut segs: Vec<Vec<usize>> = vec![]; let mut it = cur.iter().cloned(); let mut good = true;
                for d in &m.shape { let mut s = vec![]; let mut p = 1; while p < *d { match it.next() { Some(x) => { s.push(x); p *= x; } None => break } } good &= p == *d; segs.push(s); }
                if good { cur = ax.iter().flat_map(|a| segs[*a].clone()).collect(); }
                h = h.transpose(&ax); m = m.transpose(&ax);
            }
        }
        let first = r.gen();
        let list = match no_panic(|| h.get_initial_split_list(first)) {
            Ok(l) => l,
            Err(e) => { ensure!(e.contains("Detected illegal shape operation") && !allp2, "get_initial_split_list: {e}"); return Ok(()); }
        };
        log.push_str(&format!(" split_first={first} -> {list:?}"));
        ensure!(list[0] == 1 && *list.last().unwrap() == n && list.windows(2).all(|w| w[1] % w[0] == 0), "split list {list:?} of {n} elements");
        let refined = if r.gen() { merge_shape_products(&list, &[1, n]) } else { // any refinement must do as well
            let mut l = list.clone(); for w in list.windows(2) { let q = w[1] / w[0]; for d in 2..q { if q % d == 0 && r.gen_bool(0.2) { l.push(w[0] * d); break; } } } l.sort(); l.dedup(); l };
        let shape = prefix_products_to_shape(&refined); log.push_str(&format!(" shape={shape:?}"));
        let data: Vec<usize> = (0..n).collect();
        let committed = multi_dimension_data_padding(&shape, &data);
        let (ts, order) = h.get_transposed_shape_and_bit_order(&shape);
        ensure!(ts.iter().product::<usize>() == n, "transposed shape {ts:?} does not have {n} elements");
        let want = padded(&ts, &m.at);
        ensure!(want.len() == committed.len() && order.len() == committed.len().trailing_zeros() as usize, "transposed shape {ts:?} pads to {}, the vector to {}", want.len(), committed.len());
        let mut so = order.clone(); so.sort(); ensure!(so.iter().enumerate().all(|(i, x)| i == *x), "bit order {order:?} is not a permutation");
        for i in 0..want.len() { let mut j = 0; for (b, a) in order.iter().enumerate() { if i >> b & 1 == 1 { j |= 1 << a; } } ensure!(committed[j] == want[i], "position {i} of the padded view {ts:?} reads element {}, an ordinary array has {}", committed[j], want[i]); }
        if first { let pp = prefix_products(&ts); let d0 = m.shape.first().cloned().unwrap_or(1); ensure!(pp.contains(&d0), "the first dimension {d0} is not split off in {ts:?}"); }
        Ok(())
    };
    s.part("split", 0.2, 200_000, split(false));
    s.part("split-unit", 0.1, 200_000, split(true));
    s.finish()
}
