//! Stand-in: the data types the compiler exports into.
use gkr_engine::FieldEngine;
use std::marker::PhantomData;
#[derive(Debug, Clone, PartialEq)] pub enum CoefType { Constant, Random, PublicInput(usize) }
#[derive(Debug, Clone, PartialEq)] pub struct Gate<C: FieldEngine, const N: usize> { pub i_ids: [usize; N], pub o_id: usize, pub coef_type: CoefType, pub coef: C::CircuitField, pub gate_type: usize }
pub type GateUni<C> = Gate<C, 1>;
#[derive(Debug, Clone, PartialEq)] pub struct Allocation { pub i_offset: usize, pub o_offset: usize }
#[derive(Debug, Clone, PartialEq)] pub struct Segment<C: FieldEngine> { pub i_var_num: usize, pub o_var_num: usize, pub child_segs: Vec<(usize, Vec<Allocation>)>, pub gate_muls: Vec<Gate<C, 2>>, pub gate_adds: Vec<Gate<C, 1>>, pub gate_consts: Vec<Gate<C, 0>>, pub gate_uni: Vec<Gate<C, 1>> }
#[derive(Debug, Clone, PartialEq)] pub struct RecursiveCircuit<C: FieldEngine> { pub segments: Vec<Segment<C>>, pub layers: Vec<usize>, pub num_outputs: usize, pub num_public_inputs: usize, pub expected_num_output_zeros: usize }
#[derive(Debug, Clone)] pub struct Circuit<C: FieldEngine> { pub p: PhantomData<C> }
impl<C: FieldEngine> RecursiveCircuit<C> { pub fn flatten(&self) -> Circuit<C> { Circuit { p: PhantomData } } }
impl<C: FieldEngine> Circuit<C> { pub fn pre_process_gkr(&mut self) {} }
