#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
V='src/starks/verifier.rs'; P='src/starks/prover.rs'; FRI='src/starks/fri/mod.rs'
AIR='src/cairo/air.rs'; ET='src/cairo/execution_trace.rs'; EV='src/starks/constraints/evaluator.rs'
TR='src/starks/transcript.rs'; ST='src/starks/proof/stark.rs'; FD='src/starks/fri/fri_decommit.rs'
FR='src/starks/frame.rs'; TT='src/starks/trace.rs'; UT='src/starks/utils.rs'; OP='src/starks/proof/options.rs'
GR='src/starks/grinding.rs'; FLG='src/cairo/decode/instruction_flags.rs'; OFF='src/cairo/decode/instruction_offsets.rs'
MEM='src/cairo/cairo_mem.rs'; REG='src/cairo/register_states.rs'; VW='src/cairo/runner/vec_writer.rs'
RUN='src/cairo/runner/run.rs'; TRAITS='src/starks/traits.rs'; DOM='src/starks/domain.rs'
EX='src/starks/example/'
props=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    props.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                     observe_at=observe or [],hook_needed=None)))

p('S01','The verifier accepts only when every cryptographic check of the proof holds',
 'A proof is accepted only if the proof-of-work target is met, the claimed out-of-domain composition value equals the one recomputed from the claimed trace values, and, at every sampled query, every Merkle opening (composition columns, every trace commitment, every FRI layer at the query point and its symmetric point) verifies against its commitment at the sampled position, every FRI fold equals the next layer (the last one the claimed constant), and the first FRI value equals the reconstructed DEEP value. No one of these checks may be computed and then ignored, weakened, or applied to only some queries, layers or commitments.',
 ['inputs'],'all proofs, public inputs and proof options handed to the verifier',
 'The tests only feed honest proofs, on which every check holds; a check whose result is dropped is invisible to them.',
 [V],[('verify and its four steps',V),('fold over FRI layers',V),('DEEP openings loop',V)],['verify()','verify_cairo_proof()'])
p('S02','Leaving parts out of a proof never makes the verifier skip a check',
 'The number of checks the verifier performs is fixed by the statement (trace length, options, number of trace commitments, number of sampled queries), never by the lengths of lists inside the proof. A proof with missing or surplus queries, openings, authentication paths, layer values, layer commitments or trace commitments is rejected rather than verified partially.',
 ['inputs'],'all proofs, including ones with lists of any length',
 'Honest proofs always have full-length lists; truncating pairwise iteration silently drops checks only on malformed proofs.',
 [V],[('length guards at the start of verification',V),('paired iterations over proof lists',V)],['verify()'])
p('S03','Prover and verifier replay the same Fiat-Shamir transcript',
 'For every computation description and every proof the prover emits, prover and verifier feed the transcript the same data in the same order and draw the same challenges at the same points, and use each challenge in the same role. This holds in every supported build configuration.',
 ['inputs','programs','configurations'],'all AIRs, traces and proof options; all feature combinations',
 'Round-trip tests cover a few AIRs in one configuration; swapping the roles of two challenges on both sides, or on one side for AIR shapes not sampled, is not seen.',
 [P,V,FRI,TR],[('prover rounds',P),('challenge replay',V),('FRI commit and query phases',FRI)],['prove()','verify()'])
p('S04','Every prover message is bound before the challenges that depend on it',
 'Each commitment or claimed value in a proof (trace commitments, composition commitment, out-of-domain values, FRI layer commitments, last FRI value, proof-of-work nonce) is absorbed by the verifier before the first challenge that must depend on it is drawn. Hence no part of a proof that influences the outcome can be chosen after seeing a later challenge.',
 ['inputs'],'all proofs, i.e. all adversarial choices of message contents',
 'An absorption that is dropped on both sides leaves all honest round trips passing.',
 [V,P],[('transcript replay',V)],['verify()'])
p('S05','Composition polynomial: prover evaluation and verifier recomputation agree',
 'For every constraint system, the value the verifier recomputes out of domain is the same function of trace values, challenges, degrees, exemptions and boundary conditions as the composition polynomial the prover commits to: the same degree adjustment, the same zerofier, the same exemption factors and the same boundary quotients for every constraint. Two constraints never share a coefficient and none is left out.',
 ['programs','inputs'],'all AIRs (degrees, exemptions, offsets, boundary constraints) and all traces',
 'The tests use a handful of AIRs with few degree and exemption combinations.',
 [EV,V,TRAITS,P],[('constraint evaluator',EV),('claimed composition check',V),('exemption polynomials',TRAITS)],['prove()','verify()'])
p('S06','DEEP polynomial: prover construction and verifier reconstruction agree',
 'For every constraint system, the value the verifier reconstructs at a query point is the same combination, with the same coefficients, of the same trace and composition quotients at the same out-of-domain points as the polynomial the prover feeds to FRI. This includes constraint systems whose frame rows are not consecutive.',
 ['programs','inputs'],'all AIRs (column counts, frame offsets) and all traces',
 'Only AIRs with consecutive frame offsets are exercised by tests.',
 [P,V],[('deep composition polynomial',P),('deep reconstruction',V)],['prove()','verify()'])
p('S07','FRI folding, layer domains and query positions agree on both sides',
 'Each FRI layer the prover commits to is the even part plus the challenge times the odd part of the previous one, evaluated on the squared coset of half the size; the verifier checks exactly that relation, at the position reduced to the layer and at its symmetric position, with the inverse of the matching domain point. The number of layers is a function of the trace length only.',
 ['inputs','programs'],'all polynomials, challenges, domain sizes and query positions',
 'Tests fold one polynomial and prove a few fixed sizes.',
 [FRI,'src/starks/fri/fri_functions.rs','src/starks/fri/fri_commitment.rs',V],[('fold_polynomial','src/starks/fri/fri_functions.rs'),('commit phase',FRI),('query phase',FRI),('query verification',V)],['prove()','verify()'])
p('S08','The Cairo transition constraints are exactly those of the Cairo AIR',
 'For every pair of consecutive trace rows, the values the Cairo constraint system returns are the algebraic constraints of the Cairo architecture: instruction unpacking, operand addresses, register updates, opcode semantics, sorted-memory and range-check arguments and the range-check builtin decomposition, each in its own slot. A pair of rows satisfying all of them is a valid step, and a wrong flag, operand, register or permutation value makes one of them non-zero.',
 ['inputs'],'all frames of field elements and all challenges, with and without the builtin columns',
 'Tests evaluate the constraints on honest traces only, where everything is zero; a weakened constraint is still zero there.',
 [AIR],[('compute_transition and its helpers',AIR)],['CairoAIR transition evaluation'])
p('S09','Constraint metadata matches the constraints it describes',
 'For every constraint system shipped, the declared number of constraints, their degrees, exemptions, frame offsets, column counts and composition degree bound match the constraints actually evaluated: each declared degree is the true degree, every row read is declared, every column read exists, every constraint reading the next row across the end of the trace is exempted there, and the lists have one entry per constraint.',
 ['programs','inputs'],'all shipped AIRs and all instances of them',
 'Under-declared degrees or wrong exemptions only show for particular challenges or traces; length mismatches silently truncate.',
 [AIR,EX+'simple_fibonacci.rs',EX+'fibonacci_2_columns.rs',EX+'fibonacci_rap.rs',EX+'quadratic_air.rs',EX+'dummy_air.rs'],[('AIR construction',AIR)],['verify()','prove()'])
p('S10','Every public input the proof claims is enforced by a boundary constraint',
 'A Cairo proof verifies only for the stated initial and final program counter and allocation pointer at the first and last executed step, the stated range-check bounds, and the stated public memory (each address-value pair entering the final value of the memory permutation product, and the range-check product ending at one). Changing any of these public inputs changes a boundary condition, at the right column and row for both trace layouts.',
 ['inputs'],'all public inputs and both trace layouts',
 'Tests verify with the honest public inputs; dropping or misplacing one boundary condition keeps them green.',
 [AIR],[('boundary_constraints of the Cairo AIR',AIR)],['verify_cairo_proof()'])
p('S11','The auxiliary trace is the one the auxiliary constraints require',
 'For every main trace and challenges, the auxiliary columns the prover appends are the sorted range-check values, the memory accesses sorted by address with the public memory substituted for the dummy accesses, and the running products of both permutation arguments, laid out in the columns the constraints read. The factors multiplied in are the ones the constraints check.',
 ['inputs','programs'],'all main traces, public memories and challenges',
 'Tests check one small column each; ordering, interleaving and substitution errors depend on the program.',
 [AIR],[('build_auxiliary_trace and helpers',AIR)],['generate_cairo_proof()'])
p('S12','The main trace records the Cairo instruction semantics of every step',
 'For every executed step, the trace row holds the decoded flags and offsets, the registers, the operand addresses and values, the result, and the derived products that the Cairo instruction semantics prescribe for that instruction (including call, assert and conditional-jump adjustments), each in the column the constraints assume. Behaviour the architecture leaves undefined is refused rather than recorded.',
 ['programs','inputs'],'all programs, register histories and memories',
 'Tests run a few programs that do not use all flag combinations; sound proofs of wrong semantics would not be noticed.',
 [ET,AIR],[('build_cairo_execution_trace',ET),('compute_dst/op0/op1/res',ET),('update_values',ET)],['generate_prover_args()'])
p('S13','Instruction words decode bit by bit as the architecture defines',
 'For every instruction word, each decoded field depends on exactly its own bits: three biased 16-bit offsets, one-bit register selectors, and the one-hot operand, result, pc, ap and opcode groups; any group with more than one bit set is an error. The bit representation written to the trace and the offsets written to the trace reproduce the bits of the word.',
 ['inputs'],'all 63-bit instruction words',
 'Unit tests decode one word per variant.',
 [FLG,OFF],[('TryFrom decoders',FLG),('to_trace_representation',FLG),('decode_offset',OFF)],['RegisterStates::flags_and_offsets'])
p('S14','Serialised proofs and public inputs read back as the same object',
 'For every proof and every public input object, reading back its serialised bytes yields an object with every field equal to the original: writer and reader agree on the order, width, endianness and count of every item. A reader never silently ignores a length or tag it has read.',
 ['inputs'],'all proof and public input values, including empty lists and absent options',
 'Property tests sample random shapes with fixed list lengths, and they do not build offline.',
 [ST,FD,FR,UT,AIR],[('serialize/deserialize pairs',ST),('proof path codec',UT),('public inputs codec',AIR)],['StarkProof','PublicInputs'])
p('S15','Reading untrusted bytes never panics',
 'For every byte string, of any length and content, deserialising a proof, any of its components or the public inputs, and importing a memory or register file, returns a value or an error; it never panics by slicing, indexing or unwrapping out of range.',
 ['inputs'],'all byte strings',
 'The fuzz target samples inputs and is not run by the tests; panics need truncation at particular offsets.',
 [ST,FD,FR,UT,AIR,MEM,REG],[('bounded reads returning errors',ST)],['deserialize','from_bytes_le'])
p('S16','The command-line proof file holds what verification reads back',
 'The file the prove command writes is the proof length, the proof and the public inputs, and the verify command reads exactly that layout back, with the same options; a file that is too short or corrupt is reported and never causes a panic, and the verdict printed is the verdict of the verifier.',
 ['inputs'],'all proof files and all programs',
 'There is no test of the command-line program.',
 ['src/main.rs'],[('prove/verify commands','src/main.rs')],['the prove, verify and prove_and_verify commands'])
p('S17','Security presets and checked constructors never accept insecure options',
 'For every blowup factor, query count, grinding factor, field and target, the checking constructors return options only if the bits of security they claim reach the target, and otherwise an error; the options returned carry exactly the parameters requested. Every named preset reaches the security level in its name.',
 ['inputs','configurations'],'all parameter values',
 'Tests probe single parameter points.',
 [OP],[('new_secure',OP),('new_with_checked_security',OP),('new_with_checked_provable_security',OP)],['ProofOptions constructors'])
p('S18','Proof-of-work is searched, checked and bound by one predicate',
 'The nonce the prover finds satisfies the same predicate, on the same transcript state and nonce encoding, that the verifier evaluates against the configured grinding factor, and the search returns the first nonce meeting it. A nonce that does not reach the factor is rejected.',
 ['inputs','configurations'],'all transcript states, nonces and grinding factors',
 'One fixed challenge and factor is tested.',
 [GR,P,V],[('hash predicate',GR),('nonce search',GR),('grinding check',V)],['verify()','prove()'])
p('S19','Sampled challenges are always in range and outside the evaluation domains',
 'For every transcript state, a sampled field challenge is drawn from masked bytes below the modulus, the out-of-domain point avoids both the evaluation domain and the trace domain, and every query position lies inside the evaluation domain.',
 ['inputs','configurations'],'all transcript outputs and all supported fields',
 'Two fixed byte strings for two fields are tested.',
 [TR,V,FRI],[('randomness_to_field',TR),('sample_z_ood',TR),('query positions',FRI)],['prove()','verify()'])
p('S20','Trace and memory files are read with the layout they are written with',
 'The register and memory byte formats written after running a program are read back with the same field order, width and endianness, so every register and cell keeps its value and its address. Input whose length is not a whole number of records is rejected.',
 ['inputs'],'all register histories and memories',
 'One fixed sample file is tested; writer and reader are never compared.',
 [VW,MEM,REG],[('VecWriter encoders',VW),('from_bytes_le importers',MEM)],['run_program()'])
p('S21','Trace tables and frames address the same cell for the same row and column',
 'Every accessor of a trace table (by rows, by columns, single cell, sub-table, last row, concatenation) and of an evaluation frame maps row and column to the same row-major cell, and a frame read at a step takes the rows at the declared offsets, scaled by the blowup factor and wrapped at the end.',
 ['inputs'],'all table shapes, steps, offsets and blowup factors',
 'Tests use two tiny tables.',
 [TT,FR],[('TraceTable accessors',TT),('Frame::read_from_trace',FR)],['TraceTable','Frame'])
p('S22','Optional features never change what is proved or verified',
 'Switching the parallel, instrumentation or debug configurations on or off changes neither the proof produced nor the verdict: the values computed, the transcript and the result are the same in every configuration.',
 ['configurations','inputs','schedules'],'all combinations of the optional features and build profiles, all inputs',
 'The tests run in one configuration.',
 [P,V,EV],[('cfg-guarded statements',P)],['prove()','verify()'])
p('S23','Trace completion fills exactly the required holes, dummies and padding',
 'The completed main trace contains, after the executed steps, rows covering every missing range-check value between minimum and maximum and every missing memory address outside public memory, enough zero accesses for the public memory, and padding to a power of two that repeats the last row. The bounds put in the public inputs are the smallest and largest range-checked values.',
 ['programs','inputs'],'all execution traces',
 'Each filler has one or two small unit tests; combinations depend on the program.',
 [ET],[('build_main_trace',ET),('get_rc_holes/fill_rc_holes',ET),('get_memory_holes/fill_memory_holes',ET)],['build_main_trace()'])
p('S24','Proving and verifying are pure functions of their arguments',
 'The proof and the verdict depend only on the arguments: no clock, environment, randomness source, global mutable state, file or network is consulted, and hash-ordered iteration never influences the proof, the transcript or the verdict. The same inputs always give the same proof and the same verdict.',
 ['inputs','histories','schedules'],'all inputs, all call histories and thread schedules',
 'Determinism across processes and configurations is not tested.',
 ['src/starks','src/cairo/air.rs'],[('call graph of prove and verify',P)],['prove()','verify()'])
p('S25','Public inputs describe the execution they were built from',
 'The public inputs built from an execution carry the registers of the first and last steps, the number of steps, and a public memory holding every program cell and every output cell with its value from memory; the memory segments passed in are kept. The caller of the prover receives public inputs matching the trace it receives.',
 ['programs','inputs'],'all executions and segment maps',
 'Programs with outputs are barely covered and the built values are never compared with the execution.',
 [AIR,RUN],[('PublicInputs::from_regs_and_mem',AIR),('generate_prover_args',RUN)],['generate_prover_args()'])
p('S26','Verifying a malformed proof returns false instead of panicking',
 'For every proof object and public input object, whatever its shape, verification returns a verdict and never panics: no list of the proof is indexed beyond its length and no public input combination is unwrapped or divided without having been checked.',
 ['inputs'],'all proof objects and public inputs, including inconsistent ones',
 'Only honest proofs are verified by the tests.',
 [V,AIR,FR],[('shape validation before verification',V)],['verify()','verify_cairo_proof()'])
p('S27','Proving an admissible execution never panics',
 'For every execution trace of the shape the constraint system declares, every admissible choice of options and every build configuration (release, overflow-checked debug, parallel), building the traces and the public inputs and proving run to the end and return a proof: no index, slice, unwrap, division, assertion or overflow-checked operation fails, including executions without gaps, without an auxiliary trace, with an empty output segment and of a single row.',
 ['inputs','programs','schedules'],'all admissible traces, options, constraint systems and build configurations',
 'The tests prove a few programs with one set of options in one configuration.',
 [P,ET,AIR,FRI],[("prove and its rounds",P),("build_main_trace",ET),('build_auxiliary_trace and boundary_constraints',AIR)],['prove()','build_main_trace()','PublicInputs::from_regs_and_mem()'])
p('S28','A run hands over exactly what the machine produced',
 'For both program versions, run_program returns the registers of every step of the machine\'s relocated trace in order, every cell of its relocated memory at its address, the number of cells of the program, and, when the range check builtin was used, exactly the relocated addresses of its segment: it starts at one plus the sizes of all segments before it and is as long as the part of it that was used. The machine is given the program, layout and entry point asked for, with tracing and relocation on, and its failures are returned as errors. A Cairo 1 program is entered at its first function with the stacks of the builtins it uses, gas, the system segment and the call data.',
 ['programs','inputs'],'all programs, layouts, entry points and runs of the virtual machine',
 'The tests run sample programs and never look at the segment bounds or at failing runs.',
 [RUN,'src/cairo/cairo_layout.rs'],[('run_program',RUN),('CairoLayout::as_str','src/cairo/cairo_layout.rs')],['run_program()'])
p('S29','The debug validator accepts exactly the traces satisfying the constraints',
 'validate_trace returns true if and only if every boundary constraint equals the cell of the trace at its column and step and every transition constraint vanishes at every step it is not exempt from, reading frames at the declared offsets (wrapping at the end of the trace). One violation anywhere, at the first, last or any other step or constraint, makes it false.',
 ['inputs','programs'],'all constraint systems, traces and exemption counts',
 'The tests only validate honest traces, so a validator that always agrees passes.',
 ['src/starks/debug.rs'],[('validate_trace','src/starks/debug.rs')],['validate_trace()'])
p('S30','A set of boundary constraints answers for exactly the constraints it holds',
 'Constructors keep every boundary constraint with its column, step and value in order. Queries by column see all constraints of that column and no other, in order; the sets of steps and columns hold each once; the roots are the domain generator raised to the steps; and the zerofier of a column is the product of (x - w^step) over its constraints, the constant one when it has none.',
 ['inputs'],'all sets of boundary constraints, with several constraints per column and per step',
 'One test with two constraints in one column.',
 ['src/starks/constraints/boundary.rs'],[('BoundaryConstraints','src/starks/constraints/boundary.rs')],['BoundaryConstraints'])
p('S31','Every command works on exactly the files named on the command line',
 'prove and prove_and_verify run the program in the file named first, once, as a Cairo 1 program if the path has .casm in it and as a Cairo 0 program otherwise, without claiming an output range; prove writes one file, at the path named second, and nothing else is ever written; verify judges the proof and public inputs in the file it is given. Further arguments change nothing, and a file that does not exist stops the command.',
 ['inputs'],'all command lines and contents of the file system',
 'No test runs the program.',
 ['src/main.rs'],[('main and generate_proof','src/main.rs')],['main()'])
p('S32','No count, index, address or value is silently cut to fewer bits',
 'No program size, number of public cells, step, index, register value, address or range check value is reduced modulo 2^8 or 2^16 on its way through the prover, the verifier, the runner or an encoding: wherever the code narrows an integer to 16 bits or fewer, the value fits, for every length and value its source can have.',
 ['inputs'],'all programs, traces, public inputs, proofs and parameters',
 'Tests use programs of a few dozen cells and traces of a few hundred rows, where a cut count is still the right one.',
 ['src/cairo/air.rs','src/cairo/execution_trace.rs','src/cairo/runner','src/cairo/decode','src/starks'],[('Integer casts','src/cairo/decode/instruction_flags.rs')],['get_pub_memory_addrs()','PublicInputs::from_regs_and_mem()','build_main_trace()','ConstraintEvaluator::evaluate()','write_encoded_trace()'])
p('S90','Honest proofs of every valid program verify',
 'For every Cairo program that runs to completion on the supported layouts, the proof produced verifies under the same options and public inputs.',
 ['programs','inputs'],'all programs and options','Tests prove a few sample programs.',
 [P,V],[('prove then verify',P)],['generate_cairo_proof()','verify_cairo_proof()'])
p('S91','A false statement has only a negligible chance of an accepted proof',
 'No efficient prover can make the verifier accept a statement that has no valid execution, except with probability below the configured security level.',
 ['inputs','histories'],'all adversarial provers','A cryptographic reduction, not an observable on samples.',
 [V,OP],[('protocol soundness',V)],['verify()'])
p('S92','Field, FFT, hash and Merkle primitives are correct',
 'The field arithmetic, Fourier transforms, hash functions and Merkle trees the system builds on satisfy their mathematical specifications for all inputs.',
 ['inputs'],'all inputs of the external libraries','They live outside this repository.',
 ['Cargo.toml'],[('lambdaworks-math and lambdaworks-crypto dependencies','Cargo.toml')],[])
p('S93','Running a program yields the trace of the Cairo virtual machine',
 'The register history and memory obtained for a program are those of its execution by the Cairo virtual machine on the selected layout.',
 ['programs'],'all programs','The virtual machine is an external dependency.',
 [RUN],[('run_program',RUN)],['run_program()'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in props))
print(len(props))
