use gkr_engine::FieldEngine;
pub use expander_circuit::CoefType;
#[derive(Debug, Clone, PartialEq)] pub struct SimpleGate<C: FieldEngine, const N: usize> { pub i_ids: [usize; N], pub o_id: usize, pub coef_type: CoefType, pub coef: C::CircuitField }
#[derive(Debug, Clone, PartialEq)] pub struct CrossLayerRelay<C: FieldEngine> { pub i_id: usize, pub o_id: usize, pub i_layer: usize, pub coef: C::CircuitField }
#[derive(Debug, Clone, PartialEq)] pub struct Allocation { pub i_offset: Vec<usize>, pub o_offset: usize }
#[derive(Debug, Clone, PartialEq)] pub struct CrossLayerSegment<C: FieldEngine> { pub input_size: Vec<usize>, pub output_size: usize, pub child_segs: Vec<(usize, Vec<Allocation>)>, pub gate_muls: Vec<SimpleGate<C, 2>>, pub gate_adds: Vec<SimpleGate<C, 1>>, pub gate_csts: Vec<SimpleGate<C, 0>>, pub gate_relay: Vec<CrossLayerRelay<C>> }
#[derive(Debug, Clone, PartialEq)] pub struct CrossLayerRecursiveCircuit<C: FieldEngine> { pub segments: Vec<CrossLayerSegment<C>>, pub layers: Vec<usize>, pub num_outputs: usize, pub num_public_inputs: usize, pub expected_num_output_zeros: usize }
