#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and props.json (which properties are claimed)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
U = "expander_compiler/src/"
P = []
def p(id, title, statement, over, text, why, files, symbols=()):
    a = {"files": [f if f.startswith(("expander", "circuit-std", "ecgo", "rsa")) else U + f for f in files]}
    a["mechanism"] = [{"name": s, "where": a["files"][0]} for s in symbols] or [{"name": os.path.basename(f), "where": f} for f in a["files"]]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Priority queue always yields a minimal element and loses nothing",
  "For any sequence of insertions and removals on the binary heap used by the build and layering passes, and any comparison function that is a total preorder, each removal returns an element that is minimal among those currently stored and is absent only when nothing is stored. Between operations the stored multiset is exactly the inserted elements minus the removed ones.",
  ["inputs", "histories"], "all operation sequences, all element values, all total-preorder comparators", "The unit test runs one seeded sequence with one strict comparator on distinct-ish keys; ties, other comparators and other histories are never exercised.", ["utils/heap.rs"], ["push", "pop"])
p("C02", "Bucket sort is a stable ordering by key with correct bucket starts",
  "Bucket sorting any list with a key function whose values are below the bucket count returns a permutation of the list ordered by key, keeps equal-key elements in their original order, and returns for every bucket the index at which it starts. It never fails on such input, including empty lists and empty buckets.",
  ["inputs"], "all lists, key functions into range, bucket counts", "No direct test exists; it is only exercised through one layered optimisation on random circuits.", ["utils/bucket_sort.rs"], ["bucket_sort"])
p("C03", "Static hash map returns the position of every key it was built from",
  "A map built from a list of distinct keys (at most a million keys, each below 10^9) returns for every key in the list the position of that key in the list, whatever random multipliers the construction happens to draw. Construction succeeds for the empty list too, and looking up any other key neither fails nor disturbs later lookups.",
  ["inputs", "schedules"], "all lists of distinct keys, all lookups, all random draws", "The test samples a few random key sets; collisions inside one bucket, boundary sizes and unlucky draws are not enumerated.", ["utils/static_hash_map.rs"], ["StaticHashMap"])
p("C04", "Union-find answers connectivity of exactly the merges performed",
  "After any sequence of merges and queries on n elements, two elements have the same representative if and only if they are connected through the merges performed so far, a representative is always a member of its own class, and queries change no answer. Merging makes the second argument's representative the representative of the merged class.",
  ["histories", "inputs"], "all merge/query histories over any number of elements", "There is no direct test; callers exercise only short histories.", ["utils/union_find.rs"], ["UnionFind"])
p("C05", "Interning pool is a bijection between ids and distinct values",
  "A pool assigns ids 0,1,2,... to distinct values in first-insertion order: inserting a value returns the id whose entry equals it, reinserting changes nothing, and lookup by value and by id are mutually inverse. Adding the elements of a list in order leaves exactly the list's distinct values in first-occurrence order.",
  ["histories", "inputs"], "all insertion/lookup histories", "Only used indirectly in compiler tests; no test checks the two directions agree after arbitrary histories.", ["utils/pool.rs"], ["Pool"])
p("C06", "Power-of-two rounding and dependency ordering helpers are exact",
  "Rounding up returns the least power of two not below the argument and rounding down the greatest power of two not above it, for every representable result. Topological ordering of a finite directed graph lists each vertex at most once with every listed vertex after all its predecessors, and it reports an acyclic graph exactly when every vertex is listed.",
  ["inputs"], "all machine integers with a representable answer; all finite directed graphs", "No direct tests; layout passes only hit small values.", ["utils/misc.rs"], ["next_power_of_two", "prev_power_of_two", "topo_order"])
p("C07", "Input maps compose and apply exactly",
  "Applying an input map to a vector of source inputs places every kept input at its mapped position and leaves every other position zero; composing two maps, in place or not, is the same as applying them one after another; and an identity map changes nothing. A map is accepted as valid exactly when its kept entries are distinct and cover all target positions.",
  ["inputs"], "all maps, all input vectors, all chains of compositions", "Only the full compiler on random circuits exercises it; dropped inputs in composed chains are rarely produced.", ["circuit/input_mapping.rs"], ["InputMapping"])
p("C08", "Expression normal form preserves the polynomial it denotes",
  "Building an expression from any list of terms, multiplying it by a constant, and renaming its variables never change the polynomial it denotes over the field. Building from a list of terms, or multiplying such an expression by a constant, yields canonical form - terms sorted, no repeated monomial, no zero coefficient except the single constant zero - so that two expressions built from the same terms in any order are equal. Degree, per-degree counts, variable lists and constant detection agree with the expression's terms.",
  ["inputs"], "all term lists over every supported field, all assignments", "Tests touch expressions only through random small circuits, with few cancellations and repeated monomials.", ["circuit/ir/expr.rs"], ["Expression", "LinComb", "VarSpec"])
p("C09", "A circuit accepted by validation has no undefined reads or bad calls",
  "If validation accepts a circuit IR, then every operand of every instruction, constraint and output refers to a constant-zero-free, already-defined variable, every sub-circuit call names an existing circuit with matching input and output counts, and no circuit reaches itself through calls. Circuits that violate any of these are rejected with an error instead of a panic.",
  ["programs"], "all IR circuits at all four IR stages", "Tests contain a handful of hand-written invalid circuits.", ["circuit/ir/common/mod.rs", "circuit/ir/source/mod.rs", "circuit/ir/hint_normalized/mod.rs", "circuit/ir/hint_less/mod.rs", "circuit/ir/dest/mod.rs"], ["validate", "validate_variable_references"])
p("C10", "Serialized circuits, solvers and witnesses round-trip exactly",
  "Writing any IR circuit, witness solver, layered circuit, input map, kernel description or witness and reading it back yields an equal object and consumes exactly the bytes written. Reading data with a wrong file marker, field modulus, configuration id or instruction tag is reported as an error, never silently misread.",
  ["inputs"], "all serializable objects, every field configuration", "Tests round-trip a few random circuits; rare tags and empty or extreme fields are not covered.", ["circuit/ir/source/serde.rs", "circuit/ir/hint_normalized/serde.rs", "circuit/ir/common/serde.rs", "circuit/ir/expr.rs", "circuit/layered/serde.rs", "circuit/layered/witness.rs", "circuit/input_mapping.rs"])
p("C11", "IR clean-up passes preserve outputs and constraints",
  "Removing unreachable code, merging or duplicating repeated sub-circuit outputs, and collapsing instruction chains leave a circuit computing the same outputs and the same constraint verdict on every input, up to the returned map of removed inputs. The result always passes validation.",
  ["programs", "inputs"], "all valid circuits of each IR stage and all inputs", "Random tests sample a few hundred small circuits with fixed shapes.", ["circuit/ir/common/opt.rs", "circuit/ir/source/chains.rs", "circuit/ir/dest/mod.rs"], ["remove_unreachable", "reassign_duplicate_sub_circuit_outputs", "detect_chains", "solve_duplicates"])
p("C12", "Splitting off hints: solver and circuit together equal the original",
  "Separating the hints of a circuit gives a witness solver and a hint-free circuit such that, on every input, running the solver and feeding its result to the hint-free circuit produces the original outputs and constraint verdict. Restoring removed inputs to the solver keeps its arity equal to the original circuit's.",
  ["programs", "inputs"], "all hint-normalized circuits and inputs", "Random tests sample a few circuits with stub hints.", ["circuit/ir/hint_normalized/mod.rs", "circuit/ir/hint_normalized/witness_solver.rs"], ["remove_hints", "export_hints", "remove_and_export_hints", "add_back_removed_inputs"])
p("C13", "Witness solving is the same one by one and batched",
  "Solving many assignments together in packed form yields, for every assignment, the same witness values as solving it alone, for any number of assignments including counts that do not fill the last pack. A failing hint or unmet requirement is reported as an error in both modes.",
  ["inputs", "configurations"], "all solvers, all batch sizes, all field packings", "Tests try a few batch sizes.", ["circuit/ir/hint_normalized/witness_solver.rs", "circuit/ir/hint_normalized/mod.rs", "circuit/layered/witness.rs", "frontend/witness.rs"], ["eval_safe_simd", "solve_witnesses"])
p("C14", "Packed witnesses unpack to the original values",
  "A witness batch iterated one at a time returns every stored assignment in order, and iterated in packs returns packs whose lanes are those assignments in order with the last assignment repeated in unused lanes. Checking a circuit against a batch gives one verdict and one output per assignment, equal to evaluating that assignment alone.",
  ["inputs"], "all batch sizes, input and public-input counts, pack widths", "One test with a fixed circuit and few batch sizes.", ["circuit/layered/witness.rs"], ["iter_scalar", "iter_simd", "run", "to_simd"])
p("C15", "Validated layered circuits evaluate without reading undefined wires",
  "If validation accepts a layered circuit then all widths are powers of two, adjacent layers agree on width, every gate and child placement stays in range and aligned, children precede their users, and every input wire actually read is written by the layer it comes from. Any circuit breaking one of these is rejected with an error, not a panic.",
  ["programs"], "all layered circuits, both with and without cross-layer relays", "Tests validate only circuits the compiler itself made plus one or two hand-written ones.", ["circuit/layered/mod.rs"], ["validate", "compute_masks"])
p("C16", "Layered circuit optimisations preserve what the circuit computes",
  "Merging duplicate gates, expanding small segments, factoring out common parts and canonical sorting leave the layered circuit computing the same outputs and verdict for every input and every value of public inputs, and keep it valid. Gates with the same wiring are merged by adding their coefficients, never dropped.",
  ["programs", "inputs"], "all valid layered circuits and inputs", "Random tests sample few circuits with fixed shapes.", ["circuit/layered/opt.rs"], ["dedup_gates", "expand_small_segments", "find_common_parts", "sort_everything"])
p("C17", "Multiplication fan-out limiting respects the limit and the semantics",
  "After limiting multiplication fan-out to k, every variable feeds at most k multiplications in each circuit and the circuit computes the same outputs and verdict on every input. The number of copies reserved for a variable is enough for all its uses.",
  ["programs", "inputs"], "all relaxed destination circuits, all limits of at least two", "One randomized test with a few limits.", ["circuit/ir/dest/mul_fanout_limit.rs"], ["solve_mul_fanout_limit"])
p("C18", "Compilation preserves program meaning end to end",
  "For every accepted source program, field configuration, optimisation level and layering mode, solving a witness with the emitted solver and evaluating the emitted layered circuit on it gives the source program's outputs and accepts exactly when the source constraints hold. Compiling the same program twice gives identical results.",
  ["programs", "inputs", "configurations"], "all source programs, options and inputs", "Random tests sample a fixed number of small circuits per field.", ["compile/mod.rs", "builder/basic.rs", "builder/final_build_opt.rs", "builder/hint_normalize.rs", "layering/compile.rs", "layering/wire.rs", "layering/ir_split.rs"], ["compile_with_options"])
p("C19", "Built-in hints compute their documented functions",
  "Every built-in hint - bit decomposition, integer division, remainder, comparison, bitwise and shift operations, boolean operators, selection and equality - returns exactly its mathematical definition on field elements read as integers, with division and remainder by zero giving zero. Bit decomposition of a value that does not fit the requested bits is refused, never truncated, a call with the wrong number of inputs or outputs is reported as an error by validation, and shifts by an amount beyond half of the field are shifts the other way by the complement.",
  ["inputs"], "all field elements, all supported fields, all operand counts", "Only a few front-end circuits exercise a few operators on small constants.", ["hints/builtin.rs", "hints/mod.rs", "circuit/ir/source/mod.rs"], ["impl_builtin_hint", "to_binary", "circom_shift_l_impl"])
p("C20", "Shape reshaping and transposition keep every element in its place",
  "A device array viewed through any sequence of reshapes and axis permutations reads exactly the elements the same operations give on an ordinary row-major array, despite power-of-two padding of each dimension. Padding and unpadding are inverse on real elements and never alias two of them.",
  ["inputs", "histories"], "all shapes, all reshape/transpose histories the API accepts", "A few hand-picked shapes are tested.", ["zkcuda/shape.rs"], ["ShapeHistory", "shape_padded_mapping", "undo_transpose_shape_products"])
p("C21", "Nested arrays flatten and rebuild exactly, packed or not",
  "Flattening a nested rectangular array and rebuilding it from its shape returns the original, element for element; the packed variants put the elements of the first axis in lanes in order and return them unchanged. Ragged arrays and mismatched shapes are rejected rather than scrambled.",
  ["inputs"], "all nesting depths, shapes and values", "Only via a few end-to-end kernels with fixed shapes.", ["zkcuda/vec_shaped.rs", "zkcuda/context.rs"], ["flatten_shaped", "unflatten_shaped"])
p("C22", "Kernel calls compute the same values as running the kernel on plain data",
  "For every sequence of kernel calls on device data - broadcast or per-instance inputs, reshaped or transposed views - values copied back to the host are those of running the kernel function on plain arrays for each parallel instance, and the recorded computation graph with its exported memories is accepted by checking each kernel's circuit on them. Mismatched shapes are reported as errors.",
  ["programs", "inputs", "histories"], "all kernels, shapes, parallel counts and call sequences", "A handful of fixed kernels is tested, mostly through proving systems that cannot run here.", ["zkcuda/context.rs", "zkcuda/kernel.rs"], ["Context", "compile_kernel"])
p("C23", "Export to the prover format loses and changes nothing",
  "Exporting a layered circuit to the prover's circuit format produces segments with the same gates, coefficients, wiring, placements and layer order, with widths given as exact base-two logarithms, in both the single-layer and cross-layer formats. Relay gates are exactly the additions that read an earlier layer.",
  ["programs"], "all layered circuits", "There is no test of the exported object itself.", ["circuit/layered/export.rs", "circuit/layered/mod.rs"], ["export_to_expander"])
p("C24", "Front-end builder operations and gadget hints mean what they say",
  "For every sequence of builder operations on variables and constants, the recorded program computes the corresponding field arithmetic, and boolean, comparison, selection and assertion operations accept and return exactly per their definition; constants fold to the same value the unfolded operation would give. Reused sub-circuits behave as if inlined.",
  ["programs", "inputs"], "all builder call sequences and operand values", "Tests cover few operators with fixed operands.", ["frontend/builder.rs", "frontend/api.rs", "frontend/circuit.rs", "frontend/variables.rs"], ["API"])
p("C25", "Layer layouts place every variable exactly once, in aligned blocks",
  "Merging the layouts of called sub-circuits and loose variables into one layer gives an arrangement in which each required variable has exactly one slot, each sub-layout sits in one contiguous power-of-two-aligned block in its own order, and the total width is a power of two. Substitution of variable names never changes positions. When a called circuit's variables are looked up in its caller's layer, the answer is one such block that holds all of them, each at the slot it has there.",
  ["inputs"], "all families of block sizes and loose-variable counts", "Only exercised through compiler random tests.", ["layering/layer_layout.rs"], ["merge_layouts"])
p("C26", "Standard gadget library circuits match their reference functions",
  "Hash, permutation, table-lookup, matrix and big-integer gadgets constrain their outputs to exactly the reference function of their inputs: every honest assignment is accepted and an assignment with any wrong output is rejected.",
  ["inputs"], "all gadget inputs", "Tests use a few fixed or random vectors.", ["circuit-std-rs/src/sha256/m31.rs", "circuit-std-rs/src/logup.rs", "circuit-std-rs/src/non_native/u2048.rs", "circuit-std-rs/src/gnark/field.rs"])
p("C27", "Proofs of satisfied computations verify and others are rejected",
  "For every computation graph whose kernels are all satisfied, each proving back end produces a proof its verifier accepts, and a proof for altered memories, commitments or parameters is rejected. All back ends agree on acceptance.",
  ["programs", "inputs", "configurations"], "all graphs, all back ends", "Tests need the external prover and multi-process runs.", ["expander_compiler/src/zkcuda/proving_system/expander/prove_impl.rs", "expander_compiler/src/zkcuda/proving_system/expander/verify_impl.rs"])
p("C28", "Shared-memory handover between client and prover servers is exact",
  "Keys, graphs, witnesses and proofs placed in shared memory by one process are read by another exactly as written, for any sizes and any order of requests, and no request observes another's data.",
  ["schedules", "fault_sequences"], "all interleavings of client and server processes", "Single-run integration scripts only.", ["expander_compiler/src/zkcuda/proving_system/expander_parallelized/shared_memory_utils.rs", "expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs", "expander_compiler/src/zkcuda/mpi_mem_share.rs"])
p("C29", "Go front end and Rust compiler agree on the exchanged formats",
  "Every program built with the Go front end is read by the Rust compiler as the same program, and every solver and layered circuit it returns is read back by Go unchanged, for each supported field.",
  ["programs"], "all Go-built programs and fields", "Only a few example circuits cross the boundary, with network-fetched libraries.", ["ecgo/irsource/serialize.go", "expander_compiler/ec_go_lib/src/compile.rs"])

NA = {
 "C26": "The gadgets need num-bigint, halo2curves and other crates that are absent here, and the specification of each (SHA-256, pairing, 2048-bit modular arithmetic as constraint systems) is a relational statement over circuits built at run time by opaque builder calls; no contract within Verus's reach on the gadget-building code states it.",
 "C27": "Soundness and completeness of a probabilistic argument system implemented in the absent Expander crates (gkr, sumcheck, poly_commit): there is no code here to put under contract, and the statement is cryptographic, not functional.",
 "C28": "Cross-process shared memory through raw pointers, MPI windows and HTTP servers: a concurrency and fault property; Verus would need permission ghost state through FFI crates (shared_memory, mpi, axum) that are absent here.",
 "C29": "The Go side is outside any installed deductive verifier (no Gobra here), and its dependencies (gnark) are absent, so the property cannot be stated over contracts on both sides.",
}
LATER = {}
cfg = json.load(open(f"{V}/props.json"))
with open(f"{V}/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
checks, na = [], []
for x in P:
    i = x["id"]
    if i in cfg:
        c = cfg[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}", "technique": c.get("technique", "deductive verification: Verus contracts on the functions extracted from /repo on every run; bounded search on the real code as stand-in for the functions named bounded"),
                       "level": c.get("level", "proof"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i) or cfg.get("_na", {}).get(i) or "not yet under contract"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "--cfg vp_hooks", "enable": "harness/env.sh sets RUSTFLAGS=\"--cfg vp_hooks\" for the crates under harness/, which compile /repo's files in place", "source_commits": ["786955f"]},
     "notes": "The extractor and the harness read /repo's files in place. See DESIGN.md."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
