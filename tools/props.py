# The properties, and how each is decided. gen.py turns this into
# properties.jsonl and MANIFEST.json.

EFF = ("Sound-by-construction for the effect rules listed in DESIGN.md on the analysed build variants (default amd64 and purego); "
       "trusts go/types, x/tools/ssa, the effect model of the standard library and of the assembly routines' declared operands.")

PROPS = [
dict(id="C01", title="Thread-safe copies are independent of their original",
 statement="A thread-safe copy of any worker object (evaluator, encryptor, decryptor, decomposer, transformer, key generator, sanitizer, bootstrapper) can be used from another goroutine at the same time as the original and as other copies. No operation of the copy or of the original modifies memory the two share; what they share is the same parameters, keys and read-only tables at the same place. The copy is complete: every part that a constructor fills is filled in the copy, with scratch memory of the same dimensions.",
 over=["schedules", "histories", "programs"], quantifier="every interleaving of operations on an original and its copies, for every worker type and every sequence of operations",
 why="Tests use SafeCopy only inside key generation and never run original and copy concurrently under the race detector; sharing a scratch buffer only shows under particular interleavings.",
 files=["tfhe/evaluator.go", "tfhe/encryptor.go", "tfhe/decomposer.go", "mktfhe/evaluator.go", "mktfhe/decryptor.go", "math/poly/poly_evaluator.go", "xtfhe/bfv_evaluator.go", "xtfhe/sanitization.go"],
 mechanism=[("SafeCopy methods allocate scratch memory and samplers anew", "tfhe/evaluator.go SafeCopy"), ("read-only tables shared by reference", "math/poly/poly_evaluator.go SafeCopy")],
 state=[("buf", "scratch memory of a worker", "tfhe/evaluator.go"), ("PartyBitMap", "registered parties", "mktfhe/evaluator.go")],
 technique="interprocedural points-to walk of the copy's object graph against the write effects of all methods",
 note=EFF),
dict(id="C02", title="Parallel routines are free of data races and wait for their work",
 statement="The routines that use several goroutines (parallel key generation, parallel multi-key blind rotation) are free of data races for every schedule, number of processors and parameter set: no two of their goroutines touch the same memory with one of them writing, and the caller's goroutine does not touch it before they have ended. They return only when all their goroutines have finished, every job is carried out exactly once, and no schedule can leave them waiting forever.",
 over=["schedules", "inputs", "programs"], quantifier="every interleaving of the goroutines, every number of workers, every parameter set",
 why="A test sees a few schedules on one machine without the race detector; two workers that share a random stream or a scratch polynomial give results that decrypt correctly almost always.",
 files=["tfhe/bootstrap_keygen.go", "xtfhe/fhew_bootstrap_keygen.go", "mktfhe/bootstrap.go"],
 mechanism=[("every worker has its own thread-safe copy of the encryptor", "tfhe/bootstrap_keygen.go GenBlindRotateKeyParallel"), ("every job names a different slot of the key", "tfhe/bootstrap_keygen.go jobs"), ("WaitGroup joins the workers", "mktfhe/bootstrap.go BlindRotateParallelTo")],
 technique="interprocedural effect analysis of goroutine bodies with symbolic slot indices; path checks on joins",
 note=EFF),
dict(id="C04", title="What WriteTo writes is what ReadFrom reads back",
 statement="For every type with WriteTo and ReadFrom, both process the same sequence of words, with the same width, byte order and number of elements, for either torus type; every word taken from a part of the object is stored back to that part without losing bits. Every header field written is restored to the same value, and all of the object's data is covered. MarshalBinary and UnmarshalBinary give exactly the bytes of WriteTo and ReadFrom and pass on their errors.",
 over=["inputs", "histories", "configurations"], quantifier="every serializable type, both torus widths, all dimensions and both build variants",
 why="The tests round-trip objects of one parameter set per type, mostly square in dimensions and 64-bit; a swapped dimension, a width or a skipped part goes unseen.",
 files=["tfhe/lwe_marshal.go", "tfhe/glwe_marshal.go", "tfhe/fft_glwe_marshal.go", "tfhe/keyswitch_key_marshal.go", "tfhe/bootstrap_key_marshal.go", "tfhe/encryptor_key_marshal.go", "tfhe/params.go", "mktfhe/params.go", "mktfhe/lwe_marshal.go", "mktfhe/glwe_marshal.go", "mktfhe/fft_glwe_marshal.go", "mktfhe/bootstrap_key_marshal.go"],
 mechanism=[("the header carries the dimensions the constructor needs", "tfhe/keyswitch_key_marshal.go headerReadFrom"), ("vectors go through fixed-width big-endian words", "tfhe/lwe_marshal.go vecWriteToBuf")],
 technique="byte-stream effect inference for writer and reader per torus type, structural comparison, abstract object shape from the constructor",
 note=EFF),
dict(id="C05", title="Serialization counts bytes exactly and passes on stream errors",
 statement="WriteTo and ReadFrom return exactly the number of bytes moved on every path, including those that end in an error, and ByteSize equals the number of bytes WriteTo writes. The error of every read and write of the stream is returned and never ignored, and no read relies on a single short Read. A buffer has exactly the length of the elements that pass through it.",
 over=["inputs", "fault_sequences", "configurations"], quantifier="every function that is given an io.Writer or io.Reader, every failing call, both torus widths",
 why="The tests use in-memory buffers that never fail or return short, so error paths and byte counts are never compared.",
 files=["tfhe/lwe_marshal.go", "tfhe/glwe_marshal.go", "tfhe/fft_glwe_marshal.go", "tfhe/keyswitch_key_marshal.go", "tfhe/bootstrap_key_marshal.go", "tfhe/encryptor_key_marshal.go", "tfhe/params.go", "mktfhe/params.go", "mktfhe/lwe_marshal.go", "mktfhe/glwe_marshal.go", "mktfhe/fft_glwe_marshal.go", "mktfhe/bootstrap_key_marshal.go"],
 mechanism=[("each stream call's count is added before returning its error", "tfhe/lwe_marshal.go LWESecretKey.WriteTo")],
 technique="typestate of stream errors and linear byte-count dataflow over all paths; byte-size polynomials",
 note=EFF),
dict(id="C06", title="Operations never modify their inputs",
 statement="No operation modifies memory reachable from an argument that is not its output: operands, plaintexts, keys, tables, parameters and look-up tables are left bit for bit as they were. A worker object modifies only its own scratch memory and random stream (apart from the documented registration of a key). No operation modifies package-level state.",
 over=["inputs", "programs", "histories"], quantifier="every exported operation, every argument that is not documented as modified, every execution path",
 why="A test that checks a result does not look at its inputs afterwards; an input damaged on one path (a rank boundary, a missing key, a rarely used method) goes unnoticed.",
 files=["math/vec/vec.go", "math/poly/poly_ops.go", "tfhe/lwe_ops.go", "tfhe/glwe_ops.go", "tfhe/bootstrap.go", "tfhe/keyswitch.go", "mktfhe/product.go", "xtfhe/bfv_evaluator.go"],
 mechanism=[("operations write only to the argument ending in Out and to the worker's buf", "tfhe/product.go"), ("copies are taken before in-place transforms", "math/poly/poly_mul.go")],
 technique="interprocedural write-effect analysis with symbolic access paths",
 note=EFF),
dict(id="C07", title="Results depend only on the inputs, not on previous contents",
 statement="An operation that is documented to compute its output overwrites all of it: the result does not depend on what the output held before the call, and no element of the output is left as it was. It does not depend on what the worker's scratch memory held, so the order and history of earlier calls on the same worker do not matter. Operations documented to accumulate read the output only to add to it.",
 over=["histories", "inputs", "programs"], quantifier="every operation, every previous content of output and scratch memory, every dimension",
 why="Tests use fresh (all zero) outputs and fresh workers almost everywhere, which is exactly the history in which a missing overwrite or clear does not show.",
 files=["tfhe/product.go", "tfhe/bootstrap.go", "tfhe/keyswitch.go", "tfhe/glwe_enc.go", "tfhe/lwe_enc_public.go", "mktfhe/product.go", "mktfhe/bootstrap.go", "xtfhe/bfv_evaluator.go", "math/poly/poly_ops.go"],
 mechanism=[("outputs are overwritten or cleared before they are accumulated into", "tfhe/product.go"), ("scratch memory is written before it is read", "tfhe/bootstrap.go")],
 state=[("buf", "scratch memory that survives between calls", "tfhe/evaluator.go")],
 technique="definite-write / upward-exposed-read dataflow with symbolic index ranges, interprocedural",
 note=EFF),
dict(id="C08", title="In-place use gives the same result as separate output",
 statement="Unless its documentation says that inputs and output should not overlap, an operation may be given an output that is one of its inputs of the same type (in-place use): no input element is read after the element of the output at the same place, or another one it may coincide with, has been written, so the result is the one it would have with a separate output. This holds for ciphertexts, polynomials, vectors and keys, at every level of the library and in every build variant. The library itself never calls an operation with overlapping operands in a way that this operation does not allow.",
 over=["inputs", "programs"], quantifier="every operation with an output argument, every way the output can coincide with an input of the same type, every execution path",
 why="Tests use distinct outputs almost everywhere; in-place use differs only when an element is overwritten before its last read, on the paths and dimensions where that happens.",
 files=["math/vec/vec.go", "math/poly/poly_ops.go", "math/poly/poly_mul.go", "tfhe/product.go", "tfhe/glwe_ops.go", "tfhe/keyswitch.go", "mktfhe/product.go", "xtfhe/bfv_evaluator.go"],
 mechanism=[("products are accumulated in scratch memory before the output is written", "tfhe/product.go"), ("element-wise loops read an index before they write it", "math/vec/vec.go")],
 technique="write-before-read hazard analysis over symbolic element ranges, interprocedural, per aliasing pattern",
 note=EFF),
dict(id="C09", title="Results belong to the caller and are not shared",
 statement="What an operation returns or fills belongs to the caller: no part of a returned ciphertext, key, plaintext, table or list is scratch memory of the worker, so a later call does not change an earlier result, and no part is memory of an argument. No operation stores a reference to one argument or to the worker's memory inside another argument (registering a key in a worker is the documented exception), and the elements of a returned list are distinct objects. Methods whose name ends in Buffer are documented to hand out scratch memory, and new workers keep the keys they are given.",
 over=["histories", "inputs", "programs"], quantifier="every exported operation, every later call on the same worker",
 why="A test checks a result before it calls the worker again; a result that shares its memory with the worker is right at that moment and changes later.",
 files=["tfhe/bootstrap.go", "tfhe/keyswitch.go", "tfhe/encryptor.go", "tfhe/decomposer.go", "tfhe/binary_encryptor.go", "mktfhe/evaluator.go", "mktfhe/decryptor.go", "xtfhe/sanitization.go"],
 mechanism=[("results are allocated by a constructor and filled by the To form", "tfhe/bootstrap.go BootstrapLUT"), ("values are copied, not references", "tfhe/glwe.go CopyFrom")],
 technique="interprocedural points-to walk of results and of stored references",
 note=EFF),
dict(id="C10", title="Copy, CopyFrom and Clear are deep and complete",
 statement="Copy returns an object that shares no memory with the original and holds all of it: every list in full and in the same order, every parameter set. CopyFrom overwrites every part of its receiver with the part of its argument at the same place, for every dimension and on every path. Clear overwrites every element of every part of its receiver.",
 over=["inputs", "histories", "programs"], quantifier="every type with Copy, CopyFrom or Clear, every dimension",
 why="Tests hardly use these methods; a part left out or shared shows only when the copy is changed afterwards or when source and target differ in that part.",
 files=["tfhe/lwe.go", "tfhe/glwe.go", "tfhe/fft_glwe.go", "tfhe/keyswitch_key.go", "tfhe/bootstrap_key.go", "mktfhe/glwe.go", "mktfhe/fft_glwe.go", "mktfhe/bootstrap_key.go", "math/poly/poly.go"],
 mechanism=[("containers copy element by element through the copy of the element", "tfhe/glwe.go GGSWCiphertext.Copy")],
 technique="points-to walk of copies; field- and range-complete read and write effects",
 note=EFF),
]

VAL = ("Value numbers are exact over the 64-bit ring for every length, index and input; places the analysis cannot bring to a value number are counted as undecided in the evidence and are not claimed. "
       "Trusts go/types, x/tools/ssa, the reference definitions under specs/ and, for telling two unequal value numbers apart, random interpretation (an alarm is raised only on a difference it exhibits).")
PROPS += [
dict(id="C03", title="Parallel forms compute what the sequential forms compute",
 statement="A routine with a parallel form gives with it what the sequential form gives, for every number of workers and processors: the same places filled with the same values, where fresh randomness stands for randomness of the same kind and size, drawn for every place anew. This holds for key generation (every row, level and component of the key, its noise and its dimensions) and for evaluation (functions, tables and gates, every party's accumulator combined in the same order).",
 over=["schedules", "inputs", "configurations"], quantifier="every parallel routine, parameter set, number of workers and of registered parties",
 why="Tests run either form and look at decrypted results; a key made in parallel with a row missing, the wrong noise or a reused mask, or a gate whose parallel form uses another constant, still decrypts for the tested values.",
 files=["tfhe/bootstrap_keygen.go", "mktfhe/bootstrap.go", "mktfhe/binary_evaluator.go", "mktfhe/bootstrap_keygen.go", "xtfhe/fhew_bootstrap_keygen.go"],
 mechanism=[("jobs enumerate the loops of the sequential form", "tfhe/bootstrap_keygen.go GenBlindRotateKeyParallel"), ("accumulators are computed apart and combined in order after the join", "mktfhe/bootstrap.go BlindRotateParallelTo")],
 technique="value-numbering dataflow over a sequentialised program (race freedom is C02), compared with the sequential form's value numbers",
 note=VAL),
dict(id="C22", title="Each named operation computes the arithmetic its name states",
 statement="An addition, subtraction, negation, multiplication by a scalar, a polynomial or a monomial, and every accumulating (Add, Sub) form of it, computes coefficient by coefficient in the ring Z_Q[X]/(X^N+1) exactly what its name states, for every rank, every monomial degree and every number of parts of a ciphertext. The forms agree with each other: the accumulating form of an operation adds (or subtracts) just what the plain form writes. All parts of a ciphertext (body and every mask) are treated.",
 over=["inputs", "configurations"], quantifier="every operation on vectors, polynomials, LWE and GLWE ciphertexts (plain and in the Fourier domain), every coefficient, dimension, scalar and degree",
 why="Tests compare a few operations at one rank with random operands; a wrong sign in one form, a boundary monomial degree, or a part left out for a larger rank is never sampled.",
 files=["math/vec/vec.go", "math/poly/poly_ops.go", "math/poly/fft_ops.go", "math/poly/poly_mul.go", "tfhe/lwe_ops.go", "tfhe/glwe_ops.go", "tfhe/fft_glwe_ops.go", "mktfhe/lwe_ops.go", "mktfhe/glwe_ops.go"],
 mechanism=[("an operation on a ciphertext applies one polynomial operation to each of its parts", "tfhe/glwe_ops.go"), ("monomial multiplication rotates with a sign change", "math/poly/poly_ops.go MonomialMulPolyTo")],
 technique="value-numbering dataflow with loop summaries, compared against reference definitions place by place",
 note=VAL),
dict(id="C23", title="The form returning a result equals the form writing to an output",
 statement="An operation that comes in two forms, one returning a newly made result and one writing to an output argument, gives the same values in both for the same arguments, in every part of the result and for every dimension. Neither form leaves out a step, exchanges operands or uses other parameters than the other.",
 over=["inputs", "configurations", "programs"], quantifier="every pair of forms of every package, every argument, every part of the result",
 why="Tests mostly use one of the two forms of each operation; the other one may compute something else unnoticed.",
 files=["math/poly/poly_ops.go", "math/poly/fft.go", "tfhe/lwe_ops.go", "tfhe/glwe_ops.go", "tfhe/product.go", "tfhe/keyswitch.go", "tfhe/bootstrap.go", "tfhe/fft_glwe_conv.go", "mktfhe/product.go", "mktfhe/bootstrap.go", "xtfhe/bfv_evaluator.go"],
 mechanism=[("the returning form makes an output and calls the writing form on it", "tfhe/product.go GadgetProdLWE")],
 technique="value-numbering dataflow with calls as uninterpreted functions; equality of value numbers of the two forms",
 note=VAL),
dict(id="C15", title="Ciphertexts have fresh masks and noise and decrypt to their message",
 statement="Encryption, with the secret or the public key and in every container (LWE, Lev, GSW, GLWE, GLev, GGSW, and their Fourier forms), draws a fresh uniform mask (or fresh binary mask of the public key) for every part, and sets the body to message minus mask times key plus fresh Gaussian noise of the standard deviation the parameters prescribe for that kind. Gadget encryptions carry the message at each level's scale and, in the rows after the first, times the matching part of the key. Decryption adds back mask times key with the same key, over all of the mask.",
 over=["inputs", "configurations"], quantifier="every encryption and decryption method, every message, dimension, rank, gadget length and bootstrapping order",
 why="A test that decrypts what it encrypted passes with a mask that is reused or partly zero, with noise that is missing or of the wrong size, and with a wrong row that no tested product reads.",
 files=["tfhe/lwe_enc.go", "tfhe/glwe_enc.go", "tfhe/fft_glwe_enc.go", "tfhe/lwe_enc_public.go", "tfhe/glwe_enc_public.go", "tfhe/encryptor.go"],
 mechanism=[("the body methods sample mask and noise into the ciphertext", "tfhe/lwe_enc.go EncryptLWEBody"), ("gadget ciphertexts encrypt scaled messages row by row", "tfhe/glwe_enc.go EncryptGGSWPolyTo")],
 technique="value-numbering dataflow with samplers as fresh atoms and key products as bilinear operators, compared against reference definitions",
 note=VAL),
dict(id="C26", title="Encoding scales a message and decoding rounds it back",
 statement="Encoding reduces each message modulo the message modulus and multiplies it by the scale; decoding divides by the same scale with rounding and reduces modulo the same modulus, so decoding an encoded message gives it back. Messages beyond the rank are ignored and missing ones count as zero. The forms with a custom modulus and scale use exactly those.",
 over=["inputs", "configurations"], quantifier="every message, every modulus and scale, every number of messages up to and beyond the rank",
 why="Tests encode few messages at one modulus; a wrong rounding or a scale taken from elsewhere shows only for a custom modulus or near a boundary.",
 files=["tfhe/encoder.go", "tfhe/binary_encoder.go", "tfhe/params.go"],
 mechanism=[("encode and decode use one scale", "tfhe/encoder.go EncodeLWECustom")],
 technique="value-numbering dataflow compared against reference definitions",
 note=VAL),
dict(id="C27", title="Gadget products, external products and key switching have their formula",
 statement="Decomposition gives the balanced digits of the rounded input, recomposition sums digits times their scales. A gadget product is the sum of digit times row over all levels, an external product the sum of those over all components, the selector gate the first input plus the external product with the difference; the adding and subtracting forms add and subtract exactly that. Key switching keeps the body, adds the gadget products of every mask component with its own row of the key, and leaves nothing out.",
 over=["inputs", "configurations"], quantifier="every ciphertext, key, gadget length, rank and dimension",
 why="Products are only tested through decryption at a few parameter sets: a skipped last level, a row taken twice or a digit off by the carry stays within the tolerated noise there, and is wrong for others.",
 files=["tfhe/product.go", "tfhe/keyswitch.go", "tfhe/decomposer.go", "tfhe/asm_decompose.go", "tfhe/bootstrap.go", "mktfhe/product.go"],
 mechanism=[("digits are taken from the last level up with a carry", "tfhe/decomposer.go DecomposeScalarTo"), ("products accumulate over levels and components", "tfhe/product.go ExternalProdGLWETo")],
 technique="value-numbering dataflow with transforms as linear operators and digits as an operator that has its own closed-form definition",
 note=VAL),
dict(id="C17", title="Bootstrapping composes its steps in the configured order",
 statement="Bootstrapping rescales every coefficient of the input to the ring of the look-up table by rounding, rotates the table, extracts the constant coefficient and switches keys, before or after the rotation as the parameters say; sequential and parallel form, function and table form are the same composition. A look-up table holds, for every message, its function value over that message's interval (centred by half an interval, with the wrapped part negated) and interleaved over the extension; the encoded form encodes each value with the same message modulus.",
 over=["inputs", "configurations", "programs"], quantifier="every function, message modulus, table size, extension factor, block size and bootstrap order",
 why="Tests bootstrap a few messages with the shipped parameter sets; a wrong branch for the other order, block size or extension, or an interval off by one slot, decrypts correctly there.",
 files=["tfhe/bootstrap.go", "tfhe/bootstrap_lut.go", "tfhe/glwe.go", "mktfhe/bootstrap.go", "mktfhe/glwe.go"],
 mechanism=[("the order of key switch and blind rotation follows the parameters", "tfhe/bootstrap.go BootstrapLUTTo"), ("tables are filled interval by interval and rotated by half an interval", "tfhe/bootstrap_lut.go GenLUTCustomFullTo")],
 technique="value-numbering dataflow against a definition in Go; rotations and key switches as uninterpreted operators, tables as folds over the messages",
 note=VAL),
dict(id="C18", title="Boolean gates compute the linear form their name demands",
 statement="A binary gate hands the bootstrapping, with the sign table, exactly the linear combination of its inputs whose sign is its truth table; XOR and XNOR double their inputs, negation is negation. Booleans are encoded as plus or minus an eighth and decoded by sign, for single-key and multi-key evaluators and for every input, including noisy and trivial ones.",
 over=["inputs", "configurations"], quantifier="every gate of both evaluators, every ciphertext, both torus widths",
 why="Tests try four input pairs per gate on 32-bit parameters; a constant that leaves too little room for noise, or a gate that reads one input twice, still passes them most of the time.",
 files=["tfhe/binary_evaluator.go", "tfhe/binary_encoder.go", "mktfhe/binary_evaluator.go", "mktfhe/binary_encryptor.go", "mktfhe/binary_decryptor.go"],
 mechanism=[("a linear combination and a constant, then a bootstrap with the sign table", "tfhe/binary_evaluator.go ANDTo")],
 technique="value-numbering dataflow against a definition in Go, bootstrapping as an uninterpreted operator",
 note=VAL),
]

NOT_APPLICABLE = [
dict(id="N01", title="Bootstrapped and switched ciphertexts decrypt except with tiny probability",
 statement="With every shipped parameter set the error after a bootstrapping, a gate, a product or a key switch stays below half of the message spacing, except with the failure probability the parameter set was chosen for.",
 over=["inputs", "configurations"], quantifier="every message, key, parameter set and circuit within the noise budget",
 why="A failure probability of 2^-64 and below is out of reach of sampling.",
 files=["tfhe/params_list.go", "mktfhe/params_list.go", "tfhe/bootstrap.go"],
 mechanism=[("standard deviations and gadget lengths are constants", "tfhe/params_list.go")],
 reason="The claim is a tail bound on a distribution of run-time values; no dataflow or type argument over the source bounds it (C15, C17, C18, C24, C27 decide the formulas the noise analysis starts from, which is as far as source analysis goes)."),
dict(id="N02", title="Fourier transforms are precise enough for the ring products they carry",
 statement="The error of a product of polynomials through the floating-point transform is below the rounding bound that the decomposition base, the ring degree and the word size require.",
 over=["inputs"], quantifier="every polynomial in the coefficient range of its use",
 why="The worst-case rounding error is attained on inputs no test draws.",
 files=["math/poly/fft.go", "math/poly/poly_mul.go", "math/poly/fft_ops.go"],
 mechanism=[("split multiplication keeps each part within the mantissa", "math/poly/poly_mul.go")],
 reason="Needs a floating-point error analysis of butterfly networks (partly in assembly) over run-time magnitudes, not a property of the program's dataflow; the checks treat the transform as an exact linear operator and say so."),
dict(id="N03", title="Samplers have the distributions their names state",
 statement="The Gaussian sampler is statistically close to the rounded Gaussian of its standard deviation, the block sampler draws one of the positions or none uniformly, and the random stream is indistinguishable from uniform.",
 over=["inputs"], quantifier="every seed and standard deviation",
 why="A statistical distance below 2^-40 cannot be seen from samples.",
 files=["math/csprng/gaussian_sampler.go", "math/csprng/uniform_sampler.go", "math/csprng/binary_sampler.go"],
 mechanism=[("samples are derived from a keyed XOF", "math/csprng/uniform_sampler.go")],
 reason="A distribution is a property of an ensemble of runs; the source fixes only the algorithm, and showing that the algorithm has the distribution is a mathematical proof, not a static analysis."),
dict(id="N04", title="No secret-dependent branch, index or timing",
 statement="Encryption, key generation and decryption take time and touch memory independently of the secret key and the message.",
 over=["inputs"], quantifier="every secret key and message",
 why="Timing differences are below what a functional test observes.",
 files=["tfhe/encryptor.go", "math/csprng/gaussian_sampler.go", "math/csprng/binary_sampler.go"],
 mechanism=[("none: the library does not claim constant time", "tfhe/encryptor.go")],
 reason="The library does not promise it: its samplers branch and index tables on secret randomness by design (rejection sampling), so the property does not hold and is not a guarantee users are given."),
dict(id="N05", title="Shipped parameter sets reach 128 bits of security",
 statement="Recovering the secret key from the public data of any shipped parameter set costs at least 2^128 operations.",
 over=["configurations"], quantifier="every shipped parameter set",
 why="No test measures the cost of an attack.",
 files=["tfhe/params_list.go", "mktfhe/params_list.go", "xtfhe/bfv_params_list.go"],
 mechanism=[("dimensions and standard deviations are constants", "tfhe/params_list.go")],
 reason="Depends on the best known lattice attacks (an external estimator), not on the program."),
]
