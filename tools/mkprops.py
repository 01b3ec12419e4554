#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script because the lines are long)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a))


G = "groth16/src/"
prop("C01", "Honest Groth16 proofs of satisfied circuits always verify",
     "For every rank-1 constraint system, every assignment that satisfies it and every proving randomness, if parameter generation succeeded for the circuit then creating a proof succeeds and the verifier accepts it for the circuit's public inputs. This holds whatever the shape of the circuit (unused or unconstrained variables, repeated variables, terms that cancel, empty combinations, no auxiliary variables, numbers of constraints next to powers of two) and however many threads are used.",
     ["programs", "inputs", "configurations"],
     "all circuits (sequences of alloc/alloc_input/enforce), satisfying assignments, toxic waste, blinding factors, thread counts",
     "The tests prove one fixed circuit (MiMC / XORDemo) with a handful of random witnesses; corner shapes such as cancelling or repeated terms are never reached.",
     [G + "prover.rs", G + "generator.rs", G + "verifier.rs", "src/domain.rs", "src/multiexp.rs"],
     [("query/density bookkeeping of the prover", G + "prover.rs: eval, ProvingAssignment"),
      ("which query elements the generator emits", G + "generator.rs: generate_parameters"),
      ("verification equation", G + "verifier.rs: verify_proof")],
     ["create_proof", "verify_proof"])
prop("C02", "The verifier accepts exactly when the Groth16 equation holds",
     "For every verifying key, proof and list of public inputs, verification succeeds if and only if the pairing equation of Groth16 holds for them; a changed public input, proof element or key element that breaks the equation is rejected with the invalid-proof error. A number of public inputs that differs from what the key was made for is reported as an invalid key, and an assignment that does not satisfy the circuit never yields a proof that the equation does not justify.",
     ["inputs", "programs"],
     "all keys, proofs, public inputs and numbers of them, honest or adversarial",
     "Tests check a valid proof and one or two wrong inputs of a fixed circuit; the exactness claim ranges over all of them.",
     [G + "verifier.rs", G + "prover.rs"],
     [("prepared key (sign of gamma/delta, alpha*beta)", G + "verifier.rs: prepare_verifying_key"),
      ("input accumulation and multi-Miller loop", G + "verifier.rs: verify_proof")],
     ["verify_proof"])
prop("C03", "Generated parameters equal the circuit's QAP evaluated at the toxic waste",
     "For every circuit and every toxic waste, each element of the generated proving and verifying keys is the one Groth16 defines from the circuit's constraints: the public-input and auxiliary queries, the powers times the vanishing polynomial, and the A and B queries with only the identities left out. Zero toxic values that make the key degenerate and auxiliary variables that take part in no constraint are reported as errors rather than producing a key, and random parameters depend on the random source only through independently drawn, non-zero toxic values.",
     ["programs", "inputs", "configurations"],
     "all circuits, all toxic values including 0, 1 and roots of unity, all thread counts and random sources",
     "One test compares against one hand-computed key for one 10-constraint circuit; the shape-dependent bookkeeping and the error cases are untested.",
     [G + "generator.rs", G + "lib.rs", "src/domain.rs"],
     [("QAP evaluation over the Lagrange basis in parallel chunks", G + "generator.rs: generate_parameters / eval"),
      ("toxic waste sampling", G + "generator.rs: generate_random_parameters"),
      ("unconstrained-variable and identity checks", G + "generator.rs")],
     ["Parameters"])
prop("C04", "Each proof is the Groth16 proof of its witness, perfectly blinded",
     "For every circuit, assignment and pair of blinding values the three proof elements equal the values Groth16 prescribes from the key, the assignment and the blinding values; random proofs draw the two blinding values independently from the random source. Consequently the distribution of a random proof depends only on the public inputs and the key, not on which satisfying witness was used.",
     ["programs", "inputs", "configurations"],
     "all circuits, assignments, blinding values, random sources, thread counts",
     "Tests compare one proof of one circuit for one (r, s); zero-knowledge is a statement about distributions and is never tested.",
     [G + "prover.rs", G + "lib.rs"],
     [("A/B/H/L multiexponentiations and blinding terms", G + "prover.rs: create_proof"),
      ("independent r and s", G + "prover.rs: create_random_proof")],
     ["Proof"])
prop("C05", "Proving with unusable parameters ends in an error, never a crash or hang",
     "For every way in which a parameter source can fail (an I/O error on any of its queries, a query with too few elements, an identity element where a non-zero exponent needs it, a key whose delta is the identity), proof creation returns an error of the corresponding kind. It never panics, aborts the process, hangs or returns a proof as if nothing had happened, under any thread count, and the work that is still running in the background stays harmless.",
     ["fault_sequences", "schedules", "configurations"],
     "each faulty query and combination of faults, truncation point and identity position; thread counts and schedules",
     "No test hands faulty parameters to the prover; the failure path races with background jobs.",
     [G + "prover.rs", "src/multiexp.rs", "src/multicore.rs"],
     [("error propagation through pending jobs", G + "prover.rs: create_proof"),
      ("source error detection", "src/multiexp.rs: Source for (Arc<Vec<G>>, usize)"),
      ("dropping a pending job", "src/multicore.rs: Waiter")],
     ["create_proof result", "process exit status"])
prop("C06", "Batch verification agrees with verifying every proof on its own",
     "A batch in which every proof verifies is accepted whatever the random source yields, and an empty batch is accepted. A batch with an invalid proof is rejected except with probability about one over the field size over the verifier's randomness (always when exactly one proof is invalid), including invalid proofs whose errors are built to cancel, and in the single-threaded and the multi-threaded variant alike; a proof with the wrong number of public inputs makes the batch fail.",
     ["inputs", "histories", "configurations"],
     "all batches (sizes, mixtures and orders of valid and invalid items, cancelling errors), random sources, thread counts",
     "The tests verify a batch of valid proofs and one batch with a single bad proof; the randomised soundness argument and the parallel variant are not exercised.",
     [G + "verifier/batch.rs"],
     [("random linear combination per item", G + "verifier/batch.rs: Verifier::verify"),
      ("chunked parallel accumulation", G + "verifier/batch.rs: Verifier::verify_multicore"),
      ("single-item fallback", G + "verifier/batch.rs: Item::verify_single")],
     ["Verifier::verify", "Verifier::verify_multicore"])
M = "src/multicore.rs"
prop("C07", "Every background job runs exactly once and is delivered to its own waiter",
     "For every number of jobs, every thread count and every order in which their results are awaited or dropped, each submitted job runs exactly once, each waiter returns precisely its own job's result, and a full backlog is worked off without deadlock and without unbounded queueing. Dropping a waiter early and submitting from many threads or from inside other jobs never crash the process or lose a job; waiting from inside the pool, which could deadlock, is refused.",
     ["schedules", "histories", "configurations"],
     "all interleavings of submissions, completions, waits and drops; numbers of threads and of jobs beyond the backlog limit",
     "The only test checks that the log base two of the number of threads is right; schedules are never explored.",
     [M],
     [("job submission with backlog limit", M + ": Worker::compute"), ("one-shot result channel", M + ": Waiter")],
     ["Waiter::wait"],
     [("running-task counter", "bounds how many jobs may be queued before callers run them inline", M + ": WORKER_SPAWN_COUNTER")])
prop("C08", "Work is split into non-empty chunks and results ignore the thread count",
     "For every number of elements and every number of threads, parallel regions receive a chunk size of at least one that splits the elements into pieces covering all of them, every spawned task has finished when the region returns, and the value of the region is returned. Every computation of the library gives the same result for any number of threads and without the multithreading feature.",
     ["configurations", "schedules", "inputs"],
     "all element counts (including zero), thread counts and builds with and without multithreading",
     "Tests run with one machine-dependent thread count and one feature set.",
     [M, "src/domain.rs", "src/multiexp.rs", G + "generator.rs"],
     [("chunk size computation", M + ": Worker::scope"), ("chunked loops", "src/domain.rs, " + G + "generator.rs")],
     ["Worker::scope", "outputs of FFT/multiexp/generator"])
X = "src/multiexp.rs"
prop("C09", "Multi-exponentiation equals the sum of base-times-exponent products",
     "For every list of exponents and every query-density map, multi-exponentiation returns the sum over the exponents that the map selects of exponent times the matching base, taken in order from the requested offset. This holds for all lengths (including zero and the sizes at which the window width changes), for zero, one, small and maximal exponents, and for identity bases that are multiplied by zero, with any number of threads.",
     ["inputs", "configurations"],
     "all lengths, exponents, density maps, offsets and thread counts",
     "One test compares one length of random exponents at full density and one random density map.",
     [X],
     [("window buckets and recursion over windows", X + ": multiexp_inner"), ("density queries", X + ": QueryDensity, DensityTracker, FullDensity")],
     ["multiexp(..).wait()"],
     [("density tracker", "which variables take part in a query and how many", X + ": DensityTracker")])
prop("C10", "Multi-exponentiation reports missing and identity bases and never misaligns",
     "If the bases run out before the selected exponents do, multi-exponentiation reports an unexpected end; if an identity base would be added for a non-zero exponent it reports an unexpected identity; in every other case it succeeds. Skipping bases never shifts the pairing of later exponents with bases, and a density map keeps an exact count of its set positions through any sequence of additions and increments.",
     ["fault_sequences", "inputs", "histories"],
     "all truncation points, identity positions, exponent patterns, offsets, and histories of density-map operations",
     "No test covers any error path of the base source.",
     [X],
     [("base source", X + ": Source for (Arc<Vec<G>>, usize)"), ("density bookkeeping", X + ": DensityTracker")],
     ["multiexp(..).wait()", "DensityTracker::get_total_density"])
D = "src/domain.rs"
prop("C11", "The FFT, its inverse and the coset variants are the transforms they claim",
     "For every domain size and coefficient vector the forward transform evaluates the polynomial at all powers of the primitive root of the domain's exact order in order, the inverse transform undoes it, and the coset variants do the same on the multiplicative-generator coset. The parallel and the serial algorithm agree for every size and number of threads, for field elements and for group elements.",
     ["inputs", "configurations"],
     "all sizes up to the field's two-adicity, vectors, thread counts and element types",
     "Random tests compare round trips for small sizes; a transform that is consistently wrong (wrong root, permuted outputs) can pass round trips.",
     [D],
     [("serial butterfly network", D + ": serial_fft"), ("split into sub-transforms", D + ": parallel_fft"),
      ("roots, inverses and coset scaling", D + ": EvaluationDomain")],
     ["EvaluationDomain::into_coeffs"])
prop("C12", "Evaluation-domain operations implement polynomial arithmetic and size limits",
     "Building a domain pads the coefficients with zeros to the next power of two and reports polynomials that exceed the field's capacity as too large; pointwise multiplication and subtraction act on every element; the vanishing polynomial is evaluated as x^n-1 and division by it on the coset is exact whenever the polynomial is divisible. The quotient that the prover computes is therefore the exact polynomial quotient.",
     ["inputs", "configurations"],
     "all coefficient vectors, lengths around powers of two and the field's limit, thread counts",
     "Only polynomial multiplication for random small polynomials is tested.",
     [D, G + "prover.rs"],
     [("padding and degree limit", D + ": EvaluationDomain::from_coeffs"), ("vanishing polynomial", D + ": z, divide_by_z_on_coset"),
      ("pointwise operations", D + ": mul_assign, sub_assign")],
     ["EvaluationDomain"])
prop("C13", "A circuit's constraints never depend on the witness",
     "For every gadget, the variables allocated and the constraints emitted are the same for all witness values and when witnesses are missing. Parameters generated without a witness therefore fit every proof made with one, and the same holds for the constraint counts that test systems report.",
     ["inputs", "programs"],
     "all gadgets, operand kinds and witness values, present or missing",
     "Tests synthesise gadgets with witnesses only and compare total counts for some of them.",
     ["src/gadgets/boolean.rs", "src/gadgets/num.rs", "src/gadgets/uint32.rs", "src/gadgets/lookup.rs", "src/gadgets/multieq.rs",
      "src/gadgets/multipack.rs", "src/gadgets/sha256.rs", "src/gadgets/blake2s.rs"],
     [("value closures separated from constraint emission", "src/gadgets/*.rs"), ("constant folding on operand kind only", "src/gadgets/boolean.rs: Boolean")],
     ["sequence of ConstraintSystem calls"])
B = "src/gadgets/boolean.rs"
prop("C14", "Boolean gadgets compute their truth tables and admit no other assignment",
     "For every combination of operands (allocated, negated, constant, and the same variable used twice), the Boolean operations return the value of the Boolean function, honest witnesses satisfy all constraints, and every satisfying assignment gives the output that value, in particular forcing allocated bits to 0 or 1. Conditional bit allocation forces the bit to zero exactly when its condition says so, equality enforcement is satisfiable exactly for equal operands, and the linear combination a Boolean contributes stands for its value.",
     ["inputs", "programs"],
     "all operations, operand kinds, aliasing and assignments of all variables",
     "Tests check witness values for distinct operands; they never show that wrong assignments are rejected nor use aliased operands.",
     [B],
     [("constraints per gate", B + ": AllocatedBit::{alloc,alloc_conditionally,xor,and,and_not,nor}"),
      ("operand folding", B + ": Boolean::{xor,and,enforce_equal,sha256_ch,sha256_maj,lc}")],
     ["constraints", "get_value"])
N = "src/gadgets/num.rs"
prop("C15", "Field-number gadgets compute the stated function and admit nothing else",
     "For every pair of field elements, multiplication, squaring and conditional reversal produce the stated results, honest witnesses satisfy the constraints, and every satisfying assignment has those outputs; enforcing non-zero is satisfiable exactly for non-zero values; making a number a public input exposes exactly its value. Accumulated number combinations always carry a value equal to the value of their linear combination.",
     ["inputs", "programs"],
     "all field elements, operand aliasing, sequences of combination operations and assignments",
     "Tests use a few random values and check single wrong assignments at most.",
     [N],
     [("constraints", N + ": AllocatedNum::{mul,square,assert_nonzero,conditionally_reverse,inputize}"), ("lazy combination", N + ": Num")],
     ["constraints", "get_value"])
prop("C16", "Bit decompositions are exact and, when strict, canonical",
     "Decomposing a number yields bits whose weighted sum is the number in the order of the method used, and bits of a number that has a witness are its true bits. The strict decomposition admits exactly one assignment of bits, the canonical representation below the field's modulus, for every field; the plain one admits only representations congruent to the number.",
     ["inputs", "configurations"],
     "all field elements, all primes (including those just above a power of two and with long runs of ones) and all bit assignments",
     "Tests check random values in one field whose modulus they cannot vary; non-canonical representations are tried only for r-1 style cases.",
     [N, B],
     [("run-of-ones AND chain against the modulus", N + ": to_bits_le_strict"), ("plain unpacking", N + ": to_bits_le; " + B + ": field_into_allocated_bits_le")],
     ["constraints", "bits"])
L = "src/gadgets/lookup.rs"
prop("C17", "Window-table lookups select the addressed point, negation included",
     "For every table, every address and every sign, the lookup returns the addressed table entry (with its second coordinate negated in the signed variant exactly when the sign bit is set), honest witnesses satisfy the constraints and every satisfying assignment returns that entry. This holds for allocated, negated and constant address bits.",
     ["inputs", "programs"],
     "all tables, addresses, bit kinds and assignments",
     "Tests draw random tables and check witness values only.",
     [L],
     [("multilinear interpolation of the table", L + ": synth"), ("selection constraints", L + ": lookup3_xy, lookup3_xy_with_conditional_negation")],
     ["constraints", "coordinates"])
prop("C18", "Packed equalities and packed public inputs hold bit for bit",
     "Any sequence of equalities of bounded-width values that is enforced through the accumulating helper is satisfiable exactly when each single equality holds, whatever the mixture of widths and however it splits over the field's capacity, and nothing that was accumulated is lost when the helper is dropped. Packing bits or bytes into public inputs yields, for every length, the field elements that the corresponding outside computation yields, in number and value, without losing or reordering bits.",
     ["inputs", "histories", "configurations"],
     "all sequences of widths and values, all lengths of bit strings and fields of different capacity",
     "Tests pack a few fixed lengths in one field and check that one accumulated sequence is satisfied.",
     ["src/gadgets/multieq.rs", "src/gadgets/multipack.rs"],
     [("capacity-bounded accumulation", "src/gadgets/multieq.rs: MultiEq"), ("packing", "src/gadgets/multipack.rs: pack_into_inputs, bytes_to_bits, bytes_to_bits_le, compute_multipacking")],
     ["constraints", "public inputs"])
U = "src/gadgets/uint32.rs"
prop("C19", "32-bit word gadgets compute word arithmetic and admit no other result",
     "Rotation, shift, exclusive or, choice, majority and modular addition of 32-bit words (any number of addends, constant or allocated, with repeated operands) return the word-level result, honest witnesses satisfy the constraints, and every satisfying assignment has that result. Conversion from and to bits keeps the documented bit order.",
     ["inputs", "programs"],
     "all words, shift amounts, operand kinds and counts of addends, and all assignments",
     "Tests check random witness values and that flipping one bit of one result is rejected.",
     [U],
     [("carry handling in modular addition", U + ": UInt32::addmany"), ("bitwise operations", U + ": rotr, shr, xor, sha256_ch, sha256_maj"),
      ("bit order", U + ": from_bits_be, from_bits, into_bits, into_bits_be")],
     ["constraints", "get_value"])
prop("C20", "The SHA-256 gadget computes SHA-256 for every message",
     "For every bit string of whole-byte length, including lengths around the padding boundaries, the gadget's output bits are the SHA-256 digest in big-endian order and honest witnesses satisfy all constraints; the single-block variant computes the compression without padding. The output is forced by the input bits.",
     ["inputs", "programs"],
     "all messages and lengths, constant or allocated bits",
     "Tests check the empty string, one two-block vector and random lengths against a reference implementation on witness values only.",
     ["src/gadgets/sha256.rs", U],
     [("padding and block loop", "src/gadgets/sha256.rs: sha256"), ("compression", "src/gadgets/sha256.rs: sha256_compression_function")],
     ["constraints", "digest bits"])
prop("C21", "The BLAKE2s gadget computes BLAKE2s for every message and personalization",
     "For every bit string of whole-byte length and every eight-byte personalization, the gadget's output bits are the unkeyed BLAKE2s-256 digest in little-endian order and honest witnesses satisfy all constraints, including empty messages, exact multiples of the block size and lengths whose counter spans more than one block. The output is forced by the input bits.",
     ["inputs", "programs"],
     "all messages, lengths and personalizations, constant or allocated bits",
     "Tests check a few fixed and random lengths with one personalization on witness values only.",
     ["src/gadgets/blake2s.rs", U, "src/gadgets/multieq.rs"],
     [("block loop, counter and finalisation", "src/gadgets/blake2s.rs: blake2s"), ("mixing schedule", "src/gadgets/blake2s.rs: mixing_g, blake2s_compression")],
     ["constraints", "digest bits"])
prop("C22", "Keys and proofs survive serialization and malformed bytes are rejected",
     "Writing and reading a proof, verifying key or parameter set gives back an equal object from exactly the bytes that were written, through any reader or writer that delivers or takes them in pieces. Truncated input, invalid or (when checking is on) off-subgroup or forbidden identity points and failing readers or writers give an error, and no input, however malformed its lengths, causes a panic, an abort or memory use out of proportion to the bytes supplied.",
     ["inputs", "fault_sequences"],
     "all objects, truncation points, corruptions of points and length fields, reader and writer faults and chunkings",
     "Tests round-trip one parameter set and one proof; no malformed input is tried.",
     [G + "lib.rs"],
     [("element and length parsing", G + "lib.rs: Proof::read, VerifyingKey::read, Parameters::read"), ("writing", G + "lib.rs: write")],
     ["read/write results"])
prop("C23", "Linear combinations behave as formal sums under every operation",
     "For every sequence of the supported additions, subtractions, scalings and merges, a linear combination's value under any assignment is the corresponding sum, and no operation alters the coefficients of terms it does not mention. Enforcing, evaluating and packing such combinations depends only on that value.",
     ["histories", "inputs"],
     "all sequences of operators with variables, scaled variables and other combinations (including the same one), and all assignments",
     "Tests exercise operators only incidentally, through gadgets.",
     ["src/lib.rs"],
     [("operators", "src/lib.rs: Add/Sub for LinearCombination")],
     ["terms of the combination"])
prop("C24", "The test constraint system reports satisfaction, names and edits faithfully",
     "For every history of allocations, constraints, namespaces and value changes, the test system says satisfied exactly when every constraint holds for the current values and otherwise names the first broken one by its full path; paths resolve to the values allocated under them, counts are exact and public inputs are verified exactly. Names are unique per system: a reused path or a malformed segment is refused, while nested and reopened namespaces are transparent to the constraints.",
     ["histories", "inputs"],
     "all histories of allocations, enforcement, namespace pushes and pops, value changes and queries",
     "One short test covers a fixed history with two constraints.",
     ["src/gadgets/test/mod.rs", "src/lib.rs"],
     [("named objects and namespaces", "src/gadgets/test/mod.rs: TestConstraintSystem"), ("namespace wrapper", "src/lib.rs: Namespace, ConstraintSystem for &mut CS")],
     ["is_satisfied", "which_is_unsatisfied", "get", "set", "verify"])
prop("C25", "A missing witness is reported and never silently replaced",
     "Whenever proving needs a value that the circuit was not given, synthesis ends with the assignment-missing error instead of a panic or a made-up value, for every gadget and every position of the missing value. Errors that a circuit itself raises pass unchanged through gadgets, generator and prover, and generating parameters never asks for a witness.",
     ["inputs", "fault_sequences", "programs"],
     "all gadgets and circuits, every subset of missing witnesses, every error raised by user code",
     "The tests never leave out a witness when proving and never inject an error from a circuit.",
     ["src/gadgets/boolean.rs", "src/gadgets/num.rs", "src/gadgets/uint32.rs", "src/gadgets/mod.rs", "src/gadgets/lookup.rs", G + "prover.rs", G + "generator.rs"],
     [("optional values", "src/gadgets/mod.rs: Assignment"), ("error propagation", G + "prover.rs, " + G + "generator.rs")],
     ["Result of synthesis"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
