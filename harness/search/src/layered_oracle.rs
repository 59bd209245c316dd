//! Validity of layered circuits, from the definition.
use expander_compiler::circuit::config::*;
use expander_compiler::circuit::layered::{*, Input as _, InputUsize as _};
use crate::gen::*;
/// the structural conditions, read off the definition; `Err` names the one that fails
pub fn structure<C: Config, I: InputType>(c: &Circuit<C, I>) -> Result<(), String> {
    let pow2 = |x: usize| x != 0 && x.count_ones() == 1;
    for (i, s) in c.segments.iter().enumerate() {
        let ni = s.num_inputs.to_vec(); let no = s.num_outputs;
        if ni.is_empty() || !ni.iter().all(|x| pow2(*x)) || !pow2(no) { return Err(format!("widths of segment {i}")); }
        let rd = |x: &I::Input| x.layer() < ni.len() && x.offset() < ni[x.layer()];
        if !s.gate_muls.iter().all(|g| g.inputs.iter().all(rd) && g.output < no) { return Err(format!("a multiplication of segment {i}")); }
        if !s.gate_adds.iter().all(|g| g.inputs.iter().all(rd) && g.output < no) { return Err(format!("an addition of segment {i}")); }
        if !s.gate_consts.iter().all(|g| g.output < no) { return Err(format!("a constant of segment {i}")); }
        if !s.gate_customs.iter().all(|g| g.inputs.iter().all(rd) && g.output < no) { return Err(format!("a custom gate of segment {i}")); }
        for (k, al) in &s.child_segs {
            if *k >= i { return Err(format!("child {k} of segment {i} comes no earlier")); }
            let sub = &c.segments[*k]; let si = sub.num_inputs.to_vec();
            if si.len() > ni.len() { return Err(format!("child {k} of segment {i} reads more layers")); }
            for a in al {
                let off = a.input_offset.to_vec();
                if off.len() != si.len() { return Err(format!("placement of child {k} in segment {i} has the wrong arity")); }
                for j in 0..si.len() { if off[j] % si[j] != 0 || off[j] as u128 + si[j] as u128 > ni[j] as u128 { return Err(format!("input placement of child {k} in segment {i}")); } }
                if a.output_offset % sub.num_outputs != 0 || a.output_offset as u128 + sub.num_outputs as u128 > no as u128 { return Err(format!("output placement of child {k} in segment {i}")); }
            }
        }
    }
    if c.layer_ids.is_empty() || c.layer_ids.iter().any(|x| *x >= c.segments.len()) { return Err("layer ids".into()); }
    let mut w = vec![c.segments[c.layer_ids[0]].num_inputs.to_vec()[0]]; w.extend(c.layer_ids.iter().map(|l| c.segments[*l].num_outputs));
    for (i, l) in c.layer_ids.iter().enumerate() {
        let ni = c.segments[*l].num_inputs.to_vec();
        if ni.len() > i + 1 { return Err(format!("layer {i} reads before the start")); }
        for (j, x) in ni.iter().enumerate() { if *x != w[i - j] { return Err(format!("layer {i} expects width {x} of the layer {} back, it has {}", j + 1, w[i - j])); } }
    }
    Ok(())
}
/// every wire read has been written
pub fn defined<C: Config, I: InputType>(c: &Circuit<C, I>) -> Result<(), String> {
    let mut set: Vec<Option<std::collections::HashSet<usize>>> = vec![None];
    for (i, l) in c.layer_ids.iter().enumerate() {
        let g = flat_layer(c, *l);
        for x in &g { for (y, o) in &x.inputs { if let Some(s) = &set[i - y] { if !s.contains(o) { return Err(format!("layer {i} reads wire {o} of the layer {} back, which nothing writes", y + 1)); } } } }
        set.push(Some(g.iter().map(|x| x.out).collect()));
    }
    Ok(())
}
