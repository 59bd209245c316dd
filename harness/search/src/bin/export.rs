use expander_compiler::circuit::config::*;
use expander_compiler::circuit::layered::*;
use rand::Rng;
use search::{gen::*, *};

fn lg(x: usize) -> usize { (0..64).find(|k| 1u128 << k == x as u128).unwrap() }
fn coef_eq<C: Config>(c: &Coef<C>, v: &F<C>, t: &expander_circuit::CoefType) -> bool {
    match (c, t) { (Coef::Constant(x), expander_circuit::CoefType::Constant) => x == v, (Coef::Random, expander_circuit::CoefType::Random) => true, (Coef::PublicInput(i), expander_circuit::CoefType::PublicInput(j)) => i == j, _ => false }
}
fn plain<C: Config>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let mut c = layered::<C, NormalInputType>(r, size, true);
    let mut wide = false;
    for s in &mut c.segments {
        let w = s.num_inputs.to_vec()[0];
        for g in &mut s.gate_customs { if g.inputs.is_empty() || r.gen_bool(0.9) { g.inputs = vec![NormalInput { offset: r.gen_range(0..w) }]; } wide |= g.inputs.len() != 1; }
    }
    *log = format!("{c:?}");
    if wide { ensure!(panics(|| c.export_to_expander::<C::FieldConfig>()), "a circuit with custom gates of several inputs, which the format does not have, is exported"); return Ok(()); }
    let e = no_panic(|| c.export_to_expander::<C::FieldConfig>())?;
    ensure!(e.layers == c.layer_ids && e.num_outputs == c.num_actual_outputs && e.num_public_inputs == c.num_public_inputs && e.expected_num_output_zeros == c.expected_num_output_zeroes, "circuit header {:?} {} {} {}", e.layers, e.num_outputs, e.num_public_inputs, e.expected_num_output_zeros);
    ensure!(e.segments.len() == c.segments.len(), "number of segments");
    for (i, (s, t)) in c.segments.iter().zip(&e.segments).enumerate() {
        ensure!(t.i_var_num == lg(s.num_inputs.to_vec()[0]) && t.o_var_num == lg(s.num_outputs), "widths of segment {i}: {} {}", t.i_var_num, t.o_var_num);
        macro_rules! same { ($a:ident, $b:ident, $ty:expr) => {{ ensure!(s.$a.len() == t.$b.len(), "{} of segment {i}: {} gates, {} exported", stringify!($a), s.$a.len(), t.$b.len());
            for (k, (g, h)) in s.$a.iter().zip(&t.$b).enumerate() { ensure!(g.inputs.iter().map(|x| x.offset).collect::<Vec<_>>() == h.i_ids.to_vec() && g.output == h.o_id && coef_eq(&g.coef, &h.coef, &h.coef_type) && h.gate_type == $ty(g), "{} {k} of segment {i}: {g:?} became {h:?}", stringify!($a)); } }} }
        same!(gate_muls, gate_muls, |_: &GateMul<C, NormalInputType>| 0); same!(gate_adds, gate_adds, |_: &GateAdd<C, NormalInputType>| 1); same!(gate_consts, gate_consts, |_: &GateConst<C, NormalInputType>| 2);
        same!(gate_customs, gate_uni, |g: &GateCustom<C, NormalInputType>| g.gate_type);
        let a: Vec<(usize, Vec<(usize, usize)>)> = s.child_segs.iter().map(|(k, v)| (*k, v.iter().map(|x| (x.input_offset.v, x.output_offset)).collect())).collect();
        let b: Vec<(usize, Vec<(usize, usize)>)> = t.child_segs.iter().map(|(k, v)| (*k, v.iter().map(|x| (x.i_offset, x.o_offset)).collect())).collect();
        ensure!(a == b, "placements of segment {i}: {a:?} became {b:?}");
    }
    Ok(())
}
fn cross<C: Config>(r: &mut StdRng, size: usize, log: &mut String) -> Case {
    let mut c = layered::<C, CrossLayerInputType>(r, size, false);
    let keep = r.gen_bool(0.15);
    for s in &mut c.segments {
        if keep { continue; }
        s.gate_customs.clear();
        let w = s.num_inputs.to_vec()[0];
        for g in &mut s.gate_muls { for x in &mut g.inputs { if x.layer != 0 { *x = CrossLayerInput { layer: 0, offset: r.gen_range(0..w) }; } } }
        for g in &mut s.gate_adds { if g.inputs[0].layer != 0 && !matches!(g.coef, Coef::Constant(_)) { g.coef = Coef::Constant(inp::<C>(r)); } }
    }
    let ok = c.segments.iter().all(|s| s.gate_customs.is_empty() && s.gate_muls.iter().all(|g| g.inputs.iter().all(|x| x.layer == 0)) && s.gate_adds.iter().all(|g| g.inputs[0].layer == 0 || matches!(g.coef, Coef::Constant(_))));
    *log = format!("{c:?}");
    if !ok { ensure!(panics(|| c.export_to_expander::<C::FieldConfig>()), "a circuit the format cannot hold is exported"); return Ok(()); }
    let e = no_panic(|| c.export_to_expander::<C::FieldConfig>())?;
    ensure!(e.layers == c.layer_ids && e.num_outputs == c.num_actual_outputs && e.num_public_inputs == c.num_public_inputs && e.expected_num_output_zeros == c.expected_num_output_zeroes, "circuit header {:?} {} {} {}", e.layers, e.num_outputs, e.num_public_inputs, e.expected_num_output_zeros);
    ensure!(e.segments.len() == c.segments.len(), "number of segments");
    for (i, (s, t)) in c.segments.iter().zip(&e.segments).enumerate() {
        ensure!(t.input_size == s.num_inputs.to_vec() && t.output_size == s.num_outputs, "widths of segment {i}");
        let near: Vec<_> = s.gate_adds.iter().filter(|g| g.inputs[0].layer == 0).cloned().collect(); let far: Vec<_> = s.gate_adds.iter().filter(|g| g.inputs[0].layer != 0).cloned().collect();
        macro_rules! same { ($a:expr, $b:expr, $n:expr) => {{ let (x, y) = (&$a, &$b); ensure!(x.len() == y.len(), "{} of segment {i}: {} gates, {} exported", $n, x.len(), y.len());
            for (k, (g, h)) in x.iter().zip(y).enumerate() { ensure!(g.inputs.iter().map(|x| x.offset).collect::<Vec<_>>() == h.i_ids.to_vec() && g.output == h.o_id && coef_eq(&g.coef, &h.coef, &h.coef_type), "{} {k} of segment {i}: {g:?} became {h:?}", $n); } }} }
        same!(s.gate_muls, t.gate_muls, "multiplication"); same!(near, t.gate_adds, "addition"); same!(s.gate_consts, t.gate_csts, "constant");
        ensure!(far.len() == t.gate_relay.len(), "segment {i}: {} relays, {} exported", far.len(), t.gate_relay.len());
        for (g, h) in far.iter().zip(&t.gate_relay) { ensure!(g.inputs[0].offset == h.i_id && g.inputs[0].layer == h.i_layer && g.output == h.o_id && g.coef == Coef::Constant(h.coef), "relay of segment {i}: {g:?} became {h:?}"); }
        let a: Vec<(usize, Vec<(Vec<usize>, usize)>)> = s.child_segs.iter().map(|(k, v)| (*k, v.iter().map(|x| (x.input_offset.to_vec(), x.output_offset)).collect())).collect();
        let b: Vec<(usize, Vec<(Vec<usize>, usize)>)> = t.child_segs.iter().map(|(k, v)| (*k, v.iter().map(|x| (x.i_offset.clone(), x.o_offset)).collect())).collect();
        ensure!(a == b, "placements of segment {i}: {a:?} became {b:?}");
    }
    Ok(())
}
fn main() {
    let mut s = Search::new();
    s.part("plain-m31", 0.4, u64::MAX, plain::<M31Config>); s.part("plain-gf2", 0.1, u64::MAX, plain::<GF2Config>);
    s.part("cross-m31", 0.4, u64::MAX, cross::<M31Config>); s.part("cross-bn254", 0.1, u64::MAX, cross::<BN254Config>);
    s.finish()
}
