PBT = "property-based testing: "
p("C01", "A possibly-absent witness value behaves as an optional value, absent for free",
  "A value that is statically known to exist goes through every combinator exactly as an optional value holding it would, and a value statically known not to exist stays absent and never runs any of the closures handed to it. Taking from, or viewing, a value returns exactly what was stored, once, and failures inside a closure surface unchanged. The absent form occupies no space, the present form exactly that of its content, and asking the absent form for its content (or the present form to be absent) does not compile.",
  ["programs", "inputs"], "every sequence of combinators (just, map, and-then, with, view, clone, into, take, snag, cast …) over present and absent values, including closures that fail or panic",
  "Unit tests exercise a few fixed chains; the statement is about every composition of combinators over both kinds, with side effects, failures and ownership observed.",
  ["crates/ragu_core/src/maybe/mod.rs", "crates/ragu_core/src/maybe/always.rs", "crates/ragu_core/src/maybe/empty.rs"],
  [("Maybe/MaybeKind traits", "crates/ragu_core/src/maybe/mod.rs"), ("Always", "crates/ragu_core/src/maybe/always.rs"), ("Empty", "crates/ragu_core/src/maybe/empty.rs")],
  ["return values, number of closure calls, drops, sizes"],
  PBT + "generated combinator programs against an Option model", "Exploration of generated combinator programs, run on both kinds and compared with an Option model that also counts closure calls, clones and drops.")
p("C02", "Splitting a possibly-absent collection gives its parts in order",
  "Casting a possibly-absent tuple or array into its components yields one possibly-absent value per component, in order and each equal to the original component, for every supported size, nesting and mix of types; an absent collection yields all-absent components.",
  ["inputs", "configurations"], "every supported tuple arity and array length, element types equal or mixed, present or absent",
  "Existing tests cast a few small tuples; a swapped or duplicated component at another arity goes unseen.",
  ["crates/ragu_core/src/maybe/cast.rs", "crates/ragu_macros/src/lib.rs", "crates/ragu_macros/src/helpers.rs"],
  [("MaybeCast", "crates/ragu_core/src/maybe/cast.rs"), ("tuple implementation macro", "crates/ragu_macros/src")],
  ["components after the cast"], PBT + "generated tuples and arrays against their own components",
  "Every arity from 2 to 32 plus generated arrays and nestings, uniform and mixed component types, both kinds.")
p("C03", "Errors report what went wrong faithfully",
  "Every error value's message states the numbers and the condition it was built with, an underlying error handed in is reachable as its source and converts without loss, and no error claims a source it does not have.",
  ["inputs"], "every error kind with arbitrary bounds, counts, names and wrapped causes",
  "Tests check a couple of messages with fixed numbers; a message that swaps its numbers or drops its cause passes them.",
  ["crates/ragu_core/src/errors.rs"], [("Error enum", "crates/ragu_core/src/errors.rs")], ["Display, Debug, source()"],
  PBT + "generated error values against their documented message", "Generated payloads for every kind of error.")
p("A01", "Endoscalar bit strings behave as fixed-width unsigned integers",
  "The packed integer type behind endoscalars agrees with unsigned arithmetic modulo its declared width for every operation it offers: construction from machine integers, shifts by any amount, bitwise operations, equality and its printed form. No operation, and no randomly sampled value, loses, invents or moves a bit, or keeps one above the width.",
  ["inputs", "histories"], "all values and shift amounts, and every sequence of operations",
  "The operations have no unit tests of their own beyond a few fixed values; carries between words matter at specific positions only.",
  ["crates/ragu_arithmetic/src/uendo.rs"], [("Uendo", "crates/ragu_arithmetic/src/uendo.rs")], ["results of the operations"],
  PBT + "generated values against a bit-vector model", "Generated operands and operation programs, biased to word boundaries, against a bit-vector model.")
p("A02", "Work done in parallel gives the same result as work done in order",
  "Splitting a computation across threads (joined closures, scoped tasks, parallel iterators) runs every piece exactly once, returns results in their original order, and gives the same answer as running serially.",
  ["schedules", "inputs"], "all inputs, sizes and thread interleavings of the parallel helpers",
  "Tests run the helpers on one fixed input.",
  ["crates/ragu_arithmetic/src/multicore.rs", "crates/ragu_arithmetic/src/fft.rs", "crates/ragu_arithmetic/src/util.rs"],
  [("multicore helpers", "crates/ragu_arithmetic/src/multicore.rs"), ("parallel transform", "crates/ragu_arithmetic/src/fft.rs"), ("parallel multiscalar sum", "crates/ragu_arithmetic/src/util.rs")], ["results, call counts"],
  PBT + "generated workloads in pools of different sizes against serial execution", "Generated nested workloads, transforms and sums under real thread pools of 1 to 40 threads, and in a build without the multicore feature; interleavings are sampled, not enumerated.")
p("A03", "Evaluation domains convert exactly between coefficients and values",
  "For every supported size, the forward transform of a coefficient vector is its evaluation at the successive powers of the domain's generator, the inverse transform undoes it, and both work on anything that can be scaled and added (vectors of values, curve points). The Lagrange values a domain reports at any point - inside or outside the domain, for any requested number of them - are those of the Lagrange basis over that domain. Domain sizes, generators and inverses are consistent with each other, and inputs of the wrong length are refused.",
  ["inputs", "configurations"], "all domain sizes, coefficient vectors, evaluation points, fields and thread-pool sizes",
  "Tests use one field and a handful of sizes and points; an error in one size, one thread count or at one point of the domain passes them.",
  ["crates/ragu_arithmetic/src/domain.rs", "crates/ragu_arithmetic/src/fft.rs"], [("Domain", "crates/ragu_arithmetic/src/domain.rs"), ("fft and bit reversal", "crates/ragu_arithmetic/src/fft.rs")],
  ["transformed vectors, Lagrange values, generators"], PBT + "generated polynomials and points against direct evaluation and the product formula",
  "Random and exhaustive (tiny prime fields) domains, points on and off the domain, several pool sizes.")
p("A04", "Multiscalar sums and point conversions are exact",
  "A sum of scalar multiples of points equals the sum computed one term at a time for every number of terms and every scalar and point, identity, repeated and opposite points, zero and maximal scalars included. Converting batches of points to affine form preserves each point and the order, and a commitment to one value is that value times the generator plus blinding times the blinding generator.",
  ["inputs"], "all term counts, scalars and points on both curves", "Tests use a few random inputs of one size; window and bucket boundaries and degenerate points are not met by random scalars.",
  ["crates/ragu_arithmetic/src/util.rs", "crates/ragu_arithmetic/src/lib.rs"], [("mul", "crates/ragu_arithmetic/src/util.rs"), ("batch conversion", "crates/ragu_arithmetic/src/util.rs"), ("FixedGenerators", "crates/ragu_arithmetic/src/lib.rs")],
  ["resulting points"], PBT + "generated sums of points with known logarithms", "Bases with known discrete logarithms give the expected sum by field arithmetic alone.")
p("A05", "Polynomial helpers agree with schoolbook algebra",
  "Evaluation and inner products, division by a linear factor, products of linear factors given their roots, geometric sums, and extraction of the low bits of a field element give the algebraically exact result for every input, including empty and constant polynomials, zero points and repeated roots; mismatched lengths are refused.",
  ["inputs"], "all coefficient vectors, points, roots and term counts", "Tests sample one or two sizes; degenerate points and sizes have special-case code.",
  ["crates/ragu_arithmetic/src/util.rs", "crates/ragu_arithmetic/src/fft.rs"], [("eval, dot, factor, geosum, poly_with_roots", "crates/ragu_arithmetic/src/util.rs"), ("bit reversal", "crates/ragu_arithmetic/src/fft.rs")],
  ["returned coefficients and values"], PBT + "generated polynomials against schoolbook algebra", "Two pasta fields and tiny prime fields, sizes to 400.")
p("A06", "Compact coefficients denote the field elements they stand for",
  "Every way of writing a coefficient (zero, one, two, minus one, arbitrary and negated arbitrary values) denotes one field element, and sums, products and negation of coefficients denote the sum, product and negation of those elements, in every combination and however long the expression.",
  ["inputs", "histories"], "all sequences of additions, multiplications and negations over every encoding", "Tests try some combinations over one field; a wrong special case shows only for one pair of encodings.",
  ["crates/ragu_arithmetic/src/coeff.rs"], [("Coeff", "crates/ragu_arithmetic/src/coeff.rs")], ["value of the coefficient"],
  PBT + "generated expressions against field arithmetic, plus every pair of encodings over GF(5)", "Every operator on every pair of encodings over a five-element field, and random expressions.")
p("A07", "The built-in curve parameters are the ones the construction specifies",
  "The parameters shipped precomputed equal those generated from scratch: every generator lies on its curve, differs from every other and has no evident relation to the others, and commitments made with either agree. The hash function's round constants and mixing matrices on both fields are the ones its specification derives, and every square block of a mixing matrix is invertible.",
  ["inputs", "configurations"], "every generator and constant of both curves", "Tests compare the shipped generators with regenerated ones; nothing compares either, or any hash constant, with what the construction specifies.",
  ["crates/ragu_pasta/src/lib.rs", "crates/ragu_pasta/src/macros.rs", "crates/ragu_pasta/src/poseidon_fp.rs", "crates/ragu_pasta/src/poseidon_fq.rs"],
  [("baked and generated parameters", "crates/ragu_pasta/src"), ("Poseidon constants", "crates/ragu_pasta/src/poseidon_fp.rs")], ["parameters"],
  PBT + "every constant enumerated against an independent derivation; generated commitments", "The enumeration is complete; the Poseidon constants are re-derived with the Grain generator.")
MAC = ["programs", "configurations"]
p("M01", "Derived gadgets behave field by field, in declaration order",
  "For every struct accepted by the derives, cloning preserves every wire and witness value; mapping it to another driver converts each wire exactly once, in declaration order, keeps witness values when both sides carry them, and stops at the first failure; equating two instances constrains exactly the corresponding wires. Derived serialization writes exactly the unskipped gadget fields in declaration order, and derived consistency enforces exactly the constraints of every gadget field. This holds for every mix of type, lifetime and constant parameters, field annotations, nesting, and way the package names its dependencies.",
  MAC, "every struct declaration the derives accept, and every way a package can depend on the libraries",
  "The macro tests compare the expansion of a few fixed structs token by token; they never compile or run an expansion, and cannot cover parameter and annotation combinations.",
  ["crates/ragu_macros/src/derive/gadget.rs", "crates/ragu_macros/src/derive/gadgetwrite.rs", "crates/ragu_macros/src/derive/consistent.rs", "crates/ragu_macros/src/derive/mod.rs", "crates/ragu_macros/src/substitution.rs", "crates/ragu_macros/src/helpers.rs", "crates/ragu_macros/src/path_resolution.rs"],
  [("Gadget derive", "crates/ragu_macros/src/derive/gadget.rs"), ("Write derive", "crates/ragu_macros/src/derive/gadgetwrite.rs"), ("Consistent derive", "crates/ragu_macros/src/derive/consistent.rs")],
  ["behaviour of compiled programs that use the derives"],
  PBT + "generated programs compiled, run and compared with hand-computed listings", "Random struct declarations compiled with the real macros and run on recording drivers; the expected wire, value, write and constraint lists come from the generator, not from the macros.")
p("M02", "The kind named by placeholders is the kind of the gadget",
  "Naming a gadget's driver-independent kind with placeholders for its lifetime and driver denotes exactly the kind of that gadget over the given field, whatever its other arguments and wherever the placeholders occur in it; rebinding that kind to a driver gives back the gadget type.",
  MAC, "every gadget type with placeholders in its generic arguments or tuple components",
  "Two fixed invocations are compared token by token.",
  ["crates/ragu_macros/src/proc/kind.rs", "crates/ragu_macros/src/substitution.rs"],
  [("kind macro", "crates/ragu_macros/src/proc/kind.rs"), ("placeholder substitution", "crates/ragu_macros/src/substitution.rs")],
  ["type identity in compiled programs"], PBT + "generated programs compared by type identity", "Random gadget types and composites; compared by TypeId with the spelled-out type.")
p("M03", "Integer literals become exactly their 256-bit value, or are refused",
  "An integer literal in any base, with any separators and leading zeros, becomes its value as four 64-bit words, least significant first; a literal of 2^256 or more, or anything that is not one non-negative integer literal, is rejected at compile time.",
  ["inputs"], "every literal", "A handful of literals are tested.",
  ["crates/ragu_macros/src/proc/repr.rs"], [("literal macro", "crates/ragu_macros/src/proc/repr.rs")], ["words produced, or the compile error"],
  PBT + "generated literals against big-integer limbs, and generated bad literals", "Random literals around word boundaries and the upper limit, compiled with the real macro.")
p("M04", "The derives refuse declarations they cannot handle",
  "A derive never silently accepts a declaration outside what it supports: enums, unions, tuple and unit structs, where clauses, a field with more than one role, a driver annotation on something that is not a driver with a single lifetime, and fields whose type does not fit their role are all compile errors, while the same declaration without the fault is accepted.",
  MAC, "every declaration with one of the listed faults", "A few fixed faulty declarations are tested, mostly for one of the three derives.",
  ["crates/ragu_macros/src/derive/gadget.rs", "crates/ragu_macros/src/derive/gadgetwrite.rs", "crates/ragu_macros/src/derive/consistent.rs", "crates/ragu_macros/src/helpers.rs"],
  [("shape checks of the derives", "crates/ragu_macros/src/derive")], ["compiler verdict per item"],
  PBT + "generated faulty declarations with accepted twins", "Faults injected into random valid declarations; the verdict is the compiler's, per item.")

p("D01", "Linear expressions and derived driver operations mean what they say",
  "A linear expression is the sum of its terms, each scaled by its coefficient and by the product of the gains given before it, however it is built up. A driver that supplies only gates, sums and constraints gets the rest by derivation with their documented meaning: an allocation carries the given value, a constant is that multiple of one, a product gate relates three wires, enforcing equality enforces that the difference is zero. A value that fails to compute surfaces its own error, and is not computed at all where there is no witness.",
  ["programs", "inputs"], "every sequence of driver operations, every expression over any coefficients, any field, with and without witness",
  "Tests build a few expressions with fixed coefficients; the statement covers every order of gains and terms and every composition.",
  ["crates/ragu_core/src/drivers/linexp.rs", "crates/ragu_core/src/drivers.rs"],
  [("LinearExpression, DirectSum", "crates/ragu_core/src/drivers/linexp.rs"), ("Driver defaults", "crates/ragu_core/src/drivers.rs")],
  ["values of expressions; gates, constraints and wires recorded by a driver"], PBT + "generated driver programs against a driver-free model",
  "Generated programs run on a recording driver; every gate value, constraint and wire combination is compared with a model computed without a driver, over the pasta field and a 13-element field.")
p("D02", "Every emulator runs the same circuit code to the same values",
  "Running circuit code on the emulator with wires gives exactly the wire values the constraint system assigns, and listing a gadget's wires gives them in declaration order; running it without wires gives the same witness values. An emulator or no-op driver without wires or witness never runs the closures it has no use for, and no emulator ever rejects a witness or changes an error raised by the code it runs.",
  ["programs", "inputs"], "every circuit program (nested routines, predicted or not), witness and emulation mode",
  "Tests run small fixed snippets on each emulator.", ["crates/ragu_core/src/drivers/emulator.rs", "crates/ragu_core/src/drivers/phantom.rs"],
  [("Emulator modes", "crates/ragu_core/src/drivers/emulator.rs"), ("no-op driver", "crates/ragu_core/src/drivers/phantom.rs")], ["wire values, witness values, closure calls"],
  PBT + "generated driver programs, differential between drivers", "The same generated program on every emulation mode against plain evaluation.")
p("D03", "A routine call stands for the routine's own operations",
  "Calling a routine contributes exactly the gates, constraints and output wires that running its body on the argument wires in place would, at any nesting depth, and the auxiliary data its body receives is what its prediction computed from the argument values. A driver without wires uses a predicted output instead of executing the body, and gets the same values. Failures of prediction or execution reach the caller unchanged.",
  ["programs", "inputs"], "every routine body, call graph, argument and prediction outcome, with and without witness",
  "Tests call one or two fixed routines.", ["crates/ragu_core/src/routines.rs", "crates/ragu_core/src/drivers.rs", "crates/ragu_core/src/drivers/emulator.rs"],
  [("Routine, Prediction", "crates/ragu_core/src/routines.rs"), ("Driver::routine", "crates/ragu_core/src/drivers.rs"), ("short-circuiting", "crates/ragu_core/src/drivers/emulator.rs")], ["gates, constraints, values, number of executions"],
  PBT + "generated programs with nested routine calls against their inlined form", "Generated call graphs compared with a model in which calls are transparent, with execution counts.")
p("D04", "Gadgets built from gadgets map, count and compare wire by wire",
  "For arrays, pairs, boxes and nestings of gadgets: mapping converts every wire exactly once in declaration order and puts the result where the original was, keeping witness values; the wire count is the number of wires; enforcing equality of two gadgets enforces each corresponding pair equal and nothing else. A conversion that fails stops the mapping there and surfaces its error.",
  ["inputs", "configurations"], "every nesting of composite gadgets, wire assignment and converter, failing ones included",
  "Tests map a couple of two-wire gadgets.", ["crates/ragu_core/src/gadgets/foreign.rs", "crates/ragu_core/src/gadgets.rs", "crates/ragu_core/src/convert.rs"],
  [("composite gadgets", "crates/ragu_core/src/gadgets/foreign.rs"), ("WireMap, CloneWires, StripWires", "crates/ragu_core/src/convert.rs"), ("Gadget::num_wires", "crates/ragu_core/src/gadgets.rs")], ["converted wires, constraints"],
  PBT + "generated wire assignments over sixteen nestings against a structural listing", "Sixteen composite shapes with generated wires; the order and place of every wire is compared with a listing made without the library.")

CIR = ["inputs", "programs"]
PR = "crates/ragu_primitives/src/"
p("P01", "Element gadgets compute field arithmetic and pin their results down",
  "For every program of element operations, each driver yields the field value the operation is defined to have, an honest witness satisfies the constraints exactly when every enforced statement holds, and no assignment of the wires gives a result other than the defined one: multiplication, squaring, inversion, division, zero and equality tests, sums, folds, linear combinations and root-of-unity checks. What has no value (an inverse of zero) is an error with a witness and an unsatisfiable circuit without one, and the shape of the circuit never depends on the witness.",
  CIR, "every program of element operations, inputs (edge values included), driver, and assignment of the wires",
  "Tests run one operation at a time on a few inputs and almost never try a dishonest assignment; soundness quantifies over every assignment.",
  [PR + "element.rs", PR + "boolean.rs"], [("Element operations", PR + "element.rs"), ("zero and equality tests", PR + "boolean.rs")],
  ["values, wires, satisfiability, set of satisfying assignments"], PBT + "generated gadget programs; every satisfying assignment enumerated over small fields",
  "Programs over both pasta fields (differential against plain arithmetic, rank argument and tampering for soundness) and over tiny fields where every satisfying assignment is enumerated.")
p("P02", "Boolean gadgets are bits and obey boolean logic in every assignment",
  "An allocated boolean can only be 0 or 1; negation, conjunction, selection, conditional equality and packing give the value boolean logic defines, on every driver, and in every satisfying assignment. Packing is little-endian in chunks as long as the field can hold without wrapping.",
  CIR, "every program of boolean operations, inputs, driver and assignment of the wires", "Tests check truth tables with honest witnesses; a missing constraint is invisible to them.",
  [PR + "boolean.rs"], [("Boolean", PR + "boolean.rs"), ("multipack", PR + "boolean.rs")], ["values, wires, set of satisfying assignments"],
  PBT + "generated gadget programs; every satisfying assignment enumerated over small fields", "As P01, with bit inputs and packings across chunk boundaries.")
p("P03", "Point gadgets compute the group law and admit only curve points",
  "An allocated point can be exactly the affine points of the curve; doubling, incomplete addition, double-and-add, negation, the endomorphism and their conditional forms give the group law's result whenever they are defined, in every satisfying assignment. Inputs that a formula does not support never yield a wrong point from an honest run, and the accumulator of an incomplete addition vanishes exactly when some pair of points had equal x.",
  CIR, "every program of point operations over every curve point, and every assignment of the wires", "Tests add and double a few random points with honest witnesses.",
  [PR + "point.rs"], [("Point", PR + "point.rs")], ["coordinates, satisfiability, set of satisfying assignments"],
  PBT + "generated point programs against the textbook group law; every assignment enumerated over small curves",
  "Programs on both pasta curves and three tiny curves (all points, all pairs); over tiny curves all satisfying assignments are enumerated.")
p("P04", "Endoscalars: extraction, lifting and scaling agree in and out of circuit",
  "Extracting a challenge from an element gives, in circuit, on every driver and natively, the bits telling whether the element plus the bit's index is a square, and no assignment gives other bits except where that sum is zero. Lifting a challenge gives the same scalar in circuit and natively; scaling a point by it equals multiplying the point by the lifted scalar; distinct challenges lift to distinct scalars.",
  CIR, "every challenge, element, point, driver and assignment of the wires", "Tests compare one random challenge; the statement covers every challenge and every dishonest assignment.",
  [PR + "endoscalar.rs"], [("extract, lift, group_scale", PR + "endoscalar.rs"), ("native counterparts", PR + "endoscalar.rs")], ["bits, lifted scalars, scaled points"],
  PBT + "generated challenges and elements, differential between circuit, native code and definition; tampering; small-field enumeration",
  "Independent definition of extraction (Euler's criterion), lifting and scaling; soundness by enumeration over small fields and tampering on the real ones.")
p("P05", "The sponge follows its specification for every history of operations",
  "For every sequence of absorbs, squeezes, copies, saves and resumes, on every driver, the sponge yields what a plain sponge over the same permutation yields, permutes only when it must, and refuses to squeeze or save when there is nothing to. Saving and resuming is invisible to later output; in every satisfying assignment the squeezed values are the defined ones; and a digest depends on every absorbed value and its position.",
  ["histories", "inputs"], "every history of sponge operations, parameter shape, input and assignment of the wires", "Tests run a few fixed absorb/squeeze orders.",
  [PR + "poseidon.rs"], [("Sponge modes", PR + "poseidon.rs"), ("Permutation routine", PR + "poseidon.rs"), ("save_state, resume", PR + "poseidon.rs")], ["squeezed and saved values, errors"],
  PBT + "model-based histories against a plain sponge, over real and made-up parameters", "Generated histories; parameters of both pasta fields and made-up ones of other shapes over tiny fields (assignments enumerated).",
  state=[("mode and pending values", "absorbing or squeezing, and what is not yet permuted or handed out", PR + "poseidon.rs")])
p("P06", "Serialization and fixed-length vectors keep every item, in order",
  "Writing any nesting of gadgets hands the buffer exactly its elements, in declaration order and unchanged; a buffer that fails stops the writing there and surfaces its own error, and a pipe into another circuit makes one allocation per element there with the same values. A fixed-length vector is built only from exactly its number of items, refusals say how many were expected and given, an item that fails to be made surfaces its own error first, and items keep their order through every conversion, mapping and comparison.",
  ["inputs", "configurations"], "every nesting of gadgets, buffer (failing ones included), length and sequence of items", "Tests write a few fixed gadgets and build one vector of the wrong length.",
  [PR + "io.rs", PR + "io/pipe.rs", PR + "foreign.rs", PR + "vec.rs", PR + "element.rs"],
  [("Write, Buffer", PR + "io.rs"), ("Pipe", PR + "io/pipe.rs"), ("FixedVec", PR + "vec.rs")], ["elements written, errors, items"],
  PBT + "generated nestings and item sequences against structural listings", "Twenty nestings over a pasta curve and a tiny one; buffers of every kind; vectors of seven lengths.")
p("P07", "Consistency and demotion keep a gadget's meaning on bare wires",
  "Enforcing consistency of a gadget on wires about which nothing is known allows exactly the values such a gadget can have (any element, 0 or 1 for a boolean, curve points), part by part, accepts honest wires and notices wires that differ from the value claimed. Demoting a gadget keeps its wires, in order, through copies, moves between circuits and equality; promoting keeps the wire and takes the given value; wrapping a gadget to send it between threads changes nothing.",
  CIR, "every nesting of gadgets, wire values and circuits", "Tests check consistency of one gadget with honest values.",
  [PR + "consistent.rs", PR + "promotion.rs", PR + "sendable.rs", PR + "boolean.rs", PR + "point.rs"],
  [("Consistent", PR + "consistent.rs"), ("Demoted, Promotion", PR + "promotion.rs"), ("Sendable", PR + "sendable.rs")], ["set of allowed wire values, wires, constraints"],
  PBT + "generated nestings on unconstrained wires; allowed values enumerated over a small curve", "Twenty nestings; for each part the full set of values the constraints allow is computed over a 7-element field.")
p("P08", "The simulator accepts exactly the satisfied programs and counts them right",
  "The simulator accepts a program run if and only if every gate equation and every constraint of it holds, refuses with an invalid-witness error otherwise, and reports the wire values and the exact number of allocations, gates and constraints, with routine calls counted as the operations they stand for. Resetting starts the counts again.",
  CIR, "every driver program, witness and gate assignment", "Every gadget test relies on the simulator; none checks that it refuses what it should.",
  [PR + "simulator.rs"], [("Simulator", PR + "simulator.rs")], ["verdict, values, counts"], PBT + "generated driver programs and near-miss gates, differential against a recorded constraint system",
  "Generated programs with nested routines, and single gates and constraints that nearly hold.")

CC = "crates/ragu_circuits/src/"
p("R01", "Sparse polynomials behave as the dense polynomials they stand for",
  "For every history of operations (sums, differences, scaling, dilation, negation, reversed products, evaluation, assembly from the two wire views, folding), a sparse polynomial has exactly the coefficients, values and products of the dense polynomial built by the same history. Its commitment is the sum of the generators weighted by those coefficients plus the blinding, and more coefficients or gates than the rank allows are refused.",
  ["histories", "inputs"], "every history of operations, coefficient placement and evaluation point", "Tests compare a few operations on polynomials of random coefficients; the representation depends on where the zeros are.",
  [CC + "polynomials/sparse/mod.rs", CC + "polynomials/sparse/view.rs", CC + "polynomials/mod.rs"],
  [("block representation", CC + "polynomials/sparse/mod.rs"), ("trace and wiring views", CC + "polynomials/sparse/view.rs")], ["coefficients, values, commitments"],
  PBT + "model-based histories against dense coefficient vectors", "Histories of operations on several polynomials with clustered, touching and cancelling blocks.",
  state=[("blocks", "runs of consecutive coefficients, everything else is zero", CC + "polynomials/sparse/mod.rs")])
p("R02", "The gate polynomial t(X, Z) enforces every gate and nothing else",
  "Evaluating t natively at a point, restricting it to a polynomial in X and computing it in circuit agree at every point, zero included, for every rank. For every assignment of gate values, a trace multiplied in reverse with its dilation plus t vanishes exactly when ab = c and cd = 0 in every gate.",
  ["inputs"], "every pair of points and every assignment of gate values", "Tests compare the forms at one random point.",
  [CC + "polynomials/txz.rs", CC + "polynomials/mod.rs"], [("t(x, z), t(X, z)", CC + "polynomials/mod.rs"), ("Evaluate", CC + "polynomials/txz.rs")],
  ["values, coefficients, verdict of the product"], PBT + "differential between the three forms and the definition; near-miss gate assignments", "Generated points (edge values) and assignments of one to all gates.")
p("R03", "A circuit's wiring polynomial encodes exactly its constraints",
  "For every circuit the coefficients of s(X, Y) are, power of Y by power of Y, the constant-one constraint, the outputs (last first), then exactly the circuit's other constraints in some order, each at the places of the wires it names, with the registry key alone in the last coefficient. This holds however the circuit nests routines and combines, copies and drops wires, and s(x, y), s(X, y) and s(x, Y) agree at every point, zero included.",
  ["programs", "inputs"], "every circuit that fits the rank and every point", "Tests compare the three evaluators with one another on fixed circuits; nothing compares them with the circuit.",
  [CC + "s/sxy.rs", CC + "s/sx.rs", CC + "s/sy.rs", CC + "s/common.rs", CC + "s/mod.rs", CC + "raw.rs", CC + "floor_planner.rs"],
  [("s(x, y)", CC + "s/sxy.rs"), ("s(x, Y)", CC + "s/sx.rs"), ("s(X, y) and virtual wires", CC + "s/sy.rs"), ("floor plan", CC + "floor_planner.rs")],
  ["coefficients of s(X, Y), values"], PBT + "generated circuits against an independent layout model, every coefficient of s(X, Y) recovered by interpolation",
  "Generated programs with nested routines; all 128x128 coefficients are recovered and compared with the program's own constraints.")
p("R04", "Every wire value lands in its place whatever the scheduling of routines",
  "The trace of a circuit on a witness has every gate's and allocation's values at the gate the wiring polynomial refers to, zero elsewhere, one and the blinding in the first gate, and the circuit's auxiliary data comes out as computed. It does not depend on whether routine outputs were predicted and their execution put off, on one thread or many, and a failure anywhere, in deferred execution too, surfaces as that error.",
  ["programs", "schedules", "inputs"], "every circuit, witness, pattern of predictions and thread schedule", "Tests trace fixed circuits; the misplacements that matter need nested, partly predicted routines.",
  [CC + "trace.rs", CC + "floor_planner.rs", CC + "raw.rs"], [("trace driver and deferred routines", CC + "trace.rs"), ("Trace::assemble", CC + "trace.rs")],
  ["coefficients of the assembled trace, auxiliary data, errors"], PBT + "generated circuits with predicted and unpredicted nested routines against a layout model, single- and multi-threaded builds",
  "Every case traced twice, in builds with and without multicore.")
p("R05", "The circuit identity holds exactly for satisfying assignments",
  "For every circuit, assignment of all wires and claimed instance, the reversed product of the trace with its dilation, the wiring polynomial and the gate polynomial equals k(y) if and only if every gate, constraint, output and the constant one is right. k(y) is the instance's values, the first highest, followed by one.",
  ["programs", "inputs"], "every circuit, wire assignment (dishonest ones included) and instance", "Tests check that honest traces satisfy the identity; soundness is about all the others.",
  [CC + "lib.rs", CC + "raw.rs", CC + "ky.rs", CC + "trace.rs", CC + "s/sy.rs", CC + "polynomials/mod.rs"],
  [("CircuitExt::ky", CC + "ky.rs"), ("instance and constant constraints", CC + "raw.rs")], ["verdict of the identity, k(y)"],
  PBT + "generated circuits with honest, tampered and re-satisfied wire assignments against direct evaluation of the constraints", "Six kinds of change; the verdict must be exact both ways.")
p("R06", "Circuits are counted exactly, bounded exactly, and routines identified",
  "The gates and constraints counted for a circuit, and for each of its segments, are those it makes, and it is accepted if and only if they fit the rank, errors naming the bound exceeded. Two invocations of the same routine have the same fingerprint wherever they are called from, and routines of different types, sizes or constraints have different ones.",
  ["programs", "configurations"], "every circuit, sizes at and around both bounds, and every pair of routine invocations", "Tests count a few circuits and compare hand-picked routines.",
  [CC + "metrics.rs", CC + "lib.rs", CC + "raw.rs"], [("Counter", CC + "metrics.rs"), ("RoutineFingerprint", CC + "metrics.rs"), ("bounds", CC + "lib.rs")],
  ["counts, errors, fingerprints"], PBT + "generated circuits of exact sizes and families of near-identical routines against a structural model",
  "Circuits within two of either bound; routines compared across generated circuits with near-miss variants.", hook="ragu_circuits::verif::segments (cfg ragu_verif): segment fingerprints and sizes")
p("R07", "A registry interpolates its circuits, each at its own stable point",
  "m(W, X, Y) takes at each entry's point exactly that entry's wiring polynomial plus the key term, nothing but the key term at free points, and the interpolated value elsewhere, in all of its restrictions, at every point. Entries are ordered by kind then registration; the point of an index does not depend on how many entries there are; membership of the domain is exact; and one entry more than the rank has coefficients is refused.",
  ["histories", "inputs"], "every sequence of registrations, index, and points in or out of the domain", "Tests evaluate one fixed registry at random points.",
  [CC + "registry.rs", "crates/ragu_testing/src/registry.rs"], [("RegistryBuilder::finalize", CC + "registry.rs"), ("Registry restrictions", CC + "registry.rs"), ("CircuitIndex", CC + "registry.rs")],
  ["values of all restrictions, counts, indices, errors"], PBT + "generated registration histories against naive Lagrange interpolation of the entries alone", "Four kinds of entries in any order, points zero, in, next to and out of the domain.")
p("R08", "The registry digest is determined by the circuits and tells them apart",
  "The digest is the same for every registry with the same polynomial, whatever the order in which kinds were registered, and changes whenever any entry changes in a constraint, a factor, an output or a mask, or entries are added, removed or exchanged so that the polynomial changes: it is the end of a chain of hashes in which each of six values of the polynomial chooses the next point. It enters every wiring polynomial as its key.",
  ["configurations"], "every registry and every change to it", "Tests pin the digest of one or two registries.",
  [CC + "registry.rs"], [("compute_registry_digest, Key", CC + "registry.rs")], ["digests"], PBT + "metamorphic: generated registries and seven kinds of change, against equality of the interpolated polynomials; the chain of hashes against a plain one",
  "Pairs of registries one change apart; equality of polynomials decided without the library's interpolation.")
p("R09", "Stages of a circuit have disjoint wires and add up to one trace",
  "Each stage's polynomial has the stage's values at the stage's own gates and nothing else but its blinding; the final trace has zero there; and their sum is the trace the circuit's constraints speak of, so it satisfies the identity exactly when they hold, with a stage's consistency enforced if and only if asked for. A stage mask accepts exactly the polynomials that stay within the stage (or, finally, beyond all stages), stages with more values than declared or gates beyond the rank are refused, and the index of a value's generator is where the value is.",
  ["configurations", "inputs"], "every chain of stages, use of them, values, and polynomial held against a mask", "Tests use one or two fixed stages and random corruptions.",
  [CC + "staging/mod.rs", CC + "staging/builder.rs", CC + "staging/mask.rs"], [("StageExt::rx", CC + "staging/mod.rs"), ("StageBuilder, StageGuard", CC + "staging/builder.rs"), ("StageMask", CC + "staging/mask.rs")],
  ["coefficients, verdicts, errors"], PBT + "generated stage chains and programs against a layout model; generated polynomials within and just beyond a mask",
  "Three stages of any size, used in any combination and order, under single- and multi-threaded builds.")
p("R10", "A bonding polynomial vanishes exactly when its linear constraints hold",
  "For every circuit over stages that makes no gate, constant or reference to the constant wire, the reversed product of the stages' sum with the bonding polynomial is zero if and only if every linear constraint holds on the wires, and the polynomial's constant term in Y is zero in all forms. A circuit that makes any of those, in a routine too, is refused.",
  ["programs", "inputs"], "every linear circuit, wire assignment and forbidden operation", "Tests try one equality and one of each forbidden operation.",
  [CC + "staging/bonding.rs"], [("BondingValidator", CC + "staging/bonding.rs"), ("Stripped", CC + "staging/bonding.rs")], ["verdict of the product, values, errors"],
  PBT + "generated linear programs and wire assignments against direct evaluation", "Linear programs with and without one forbidden operation, anywhere.")
p("R11", "Horner buffers evaluate what is written to them, on every driver",
  "For every history of writes, copies and closings, each buffer yields the value at its point of the polynomial whose coefficients were written, highest first, zero when none was, with a final one when closed as an instance. The result is pinned down by the point and the values in every satisfying assignment, and copies are independent.",
  ["histories", "inputs"], "every history over any number of buffers, point, and assignment of the wires", "Tests evaluate one fixed sequence.",
  [CC + "horner.rs"], [("Horner", CC + "horner.rs")], ["values, set of satisfying assignments"], PBT + "generated histories against plain evaluation; every assignment enumerated over a small field",
  "Histories of up to ten operations over several buffers, both pasta fields and a field of seven elements.")
PC = "crates/ragu_pcd/src/"
THOOK = "ragu_pcd::verif (cfg ragu_verif): the parts of a proof, and internals re-exported"
p("T01", "Every honest computation yields proofs that verify and carry the right data",
  "Whatever tree of registered steps and rerandomizations is run over proofs made before, each used any number of times, proving succeeds, every proof verifies, and its data and what the steps tell are those of the plain computation. This holds for every number of registered steps and size of headers that fit the rank.",
  ["histories", "inputs", "configurations"], "every tree of steps, witness, application and source of randomness", "Tests fuse two leaves once.",
  [PC + "lib.rs", PC + "fuse/", PC + "verify.rs", PC + "step/"], [("Application::seed, fuse, rerandomize", PC + "lib.rs"), ("Application::verify", PC + "verify.rs")],
  ["verdicts, data, auxiliary values"], PBT + "stateful generation of computation trees against a plain interpreter",
  "Trees of up to nine steps of eleven kinds in applications of 26 to 44 circuits; sizes 0 to 18 steps.", hook=THOOK)
p("T02", "No proof is accepted with other data, headers, circuit or parts than its own",
  "verify answers false, not an error, for a proof carried with other data or as another header, with another circuit, child header, challenge, claim or commitment it checks, with any trace polynomial or stage changed, removed, exchanged or misplaced, or made from a false witness, and a proof of another application. What it leaves to the parent (restrictions of the registry, the quotient, the contents of bridges and the other commitments) is the only exception.",
  ["inputs", "histories"], "every honest proof and every change of one part, or moving of wires between parts", "Tests corrupt a few fields of one proof.",
  [PC + "verify.rs", PC + "internal/native/claims.rs", PC + "internal/claims.rs"], [("Application::verify", PC + "verify.rs")],
  ["verdicts"], PBT + "generated honest proofs with generated single changes, which must be refused",
  "Sixteen honest proofs of every type of data; any one of 13 scalars, 19 native and 10 or more nested polynomials and the checked commitments changed.", hook=THOOK)
p("T03", "No proof is accepted above a child that is wrong",
  "If a proof with changed data, circuit, header, challenge, claim, commitment or native polynomial is merged with honest proofs or rerandomized, neither the proof nor any proof further up is accepted, on whichever side it stands. What is left out of the recursion is the child's nested polynomials, which are not folded yet.",
  ["histories", "inputs"], "every honest proof, change, position and number of further steps", "No test merges a proof that is wrong.",
  [PC + "fuse/", PC + "internal/native/", PC + "verify.rs"], [("fuse", PC + "fuse/mod.rs"), ("hashes_1, hashes_2, inner_collapse, outer_collapse, compute_v", PC + "internal/native/circuits/")],
  ["verdicts"], PBT + "generated proofs with generated single changes, merged into further honest steps",
  "Sixteen honest proofs; one change; up to two further steps.", hook=THOOK)
p("T04", "Headers and steps are encoded and registered without ambiguity",
  "A header is encoded as its elements, zeros and its suffix, each not up to the prover, or refused when it does not fit; the uniform encoding and the circuit of a rerandomization are the same for all headers. A step's circuit gives the encodings of both inputs and the output and is satisfied exactly when the step is. Registration refuses exactly steps out of order and different headers with one suffix, no suffix is one of the reserved, and a step that is not registered proves nothing.",
  ["inputs", "histories"], "every header, size, step and sequence of registrations", "Tests use one clash and a few headers that fit.",
  [PC + "header.rs", PC + "step/", PC + "lib.rs"], [("Encoded", PC + "step/encoder.rs"), ("padded", PC + "step/internal/padded.rs"), ("Adapter", PC + "step/internal/adapter.rs"), ("Suffix", PC + "header.rs"), ("ApplicationBuilder::register", PC + "lib.rs")],
  ["elements, set of satisfying assignments, errors"], PBT + "generated data and registration histories against a plain model of encodings and suffixes", "Header sizes 1 to 10, 0 to 9 elements, up to 8 registrations of 72 types.", hook=THOOK)
p("T05", "Challenges are the transcript's, and commitments are of what is proved",
  "Each challenge of a proof is what a plain sponge gives after the protocol's tag, the registry digest and the bridge commitments so far, in order; each bridge commits to exactly the commitments and values it stands for; each commitment of a proof is of its polynomial. A transcript's challenges are determined by what was written, also when saved and resumed, and different tags, even in trailing zeros, give different challenges.",
  ["histories", "inputs"], "every proof, transcript history and pair of tags", "Tests compare two transcripts of one write.",
  [PC + "internal/transcript.rs", PC + "fuse/", PC + "internal/nested/"], [("Transcript", PC + "internal/transcript.rs"), ("fuse", PC + "fuse/mod.rs")],
  ["challenges, commitments"], PBT + "generated proofs and transcript histories recomputed with an independent sponge and commitments", "Up to 30 operations; tags up to 71 bytes; honest proofs with children.", hook=THOOK)
p("T06", "Folding many claims into one is faithful",
  "The claim the circuit folds from the individual values and error terms is the reversed product of the folded polynomials, in each layer and both together, for every number of groups and claims that fits, missing claims counting as zero; it changes when any one value does, is determined by its inputs, and values at a point fold as the polynomials do. A claim more than fits is refused.",
  ["inputs", "configurations"], "every number and size of groups, set of claims and challenges", "Tests fold random claims of two sizes.",
  [PC + "internal/fold_revdot.rs"], [("ClaimFolder, fold_two_layer, fold_inner, fold_outer", PC + "internal/fold_revdot.rs")],
  ["folded values, error terms, set of satisfying assignments"], PBT + "generated claims against direct reversed products", "1 to 5 groups of 1 to 7, and the recursion's own.", hook=THOOK)
p("T07", "Endoscaling steps prove exactly the scaled sum of the points",
  "For every number of points, the sums witnessed are those of Horner's rule with the lifted challenge, four points to a step, and each step's circuit holds for them, stops holding when a result, point, start or the challenge is another, and never holds when a point is added to itself or its negation.",
  ["inputs", "configurations"], "every number of points, points of either curve, including coinciding ones, and challenge", "Tests use honest random points only.",
  [PC + "internal/endoscalar.rs"], [("PointsWitness, EndoscalingStep", PC + "internal/endoscalar.rs")],
  ["interstitial points, satisfiability of each step"], PBT + "generated points and challenges against naive scalar multiplication; single changes", "1 to 37 points.", hook=THOOK)
p("T08", "Proofs of the same statement share nothing but what is public",
  "Two proofs of one step over the same children, a proof and its rerandomization, and two rerandomizations have no commitment, challenge or blinding in common except the registry's public polynomials, and every trace polynomial of both fields carries blinding of its own.",
  ["inputs", "histories"], "every step, children and source of randomness", "No test compares two proofs.",
  [PC + "fuse/", PC + "lib.rs"], [("rerandomize, fuse", PC + "lib.rs")], ["commitments, challenges, coefficients"],
  PBT + "metamorphic: pairs of proofs of one statement", "Pairs over the same children; all parts compared.", hook=THOOK)
p("T09", "The challenges of a proof are derived in circuit as its transcript says",
  "For all children, commitments and stages, the two circuits that hash hold exactly when every instance value saved for a child is the plain k(y) of that child's claims, headers and data, the saved transcript is the one the commitments give, and both circuit ids are in the registry's domain. They then output exactly the transcript's challenges and the children's headers, and every value that is derived is determined by the rest.",
  ["inputs", "configurations"], "every pair of children, set of commitments, stage values and registry size", "Tests run no internal circuit by itself.",
  [PC + "internal/native/circuits/hashes_1.rs", PC + "internal/native/circuits/hashes_2.rs", PC + "internal/native/stages/preamble.rs"],
  [("hashes_1", PC + "internal/native/circuits/hashes_1.rs"), ("hashes_2", PC + "internal/native/circuits/hashes_2.rs"), ("unified_ky_values, application_ky", PC + "internal/native/stages/preamble.rs")],
  ["satisfiability, outputs, set of satisfying assignments"], PBT + "generated children and stages, with and without one thing wrong, against a plain sponge and plain k(y)", "Made-up children, not only honest ones; one of six kinds of error in three of four cases.", hook=THOOK)
p("T10", "The folded claim is derived in circuit from the children's",
  "For all children and error terms, the circuits that collapse hold exactly when every group's collapsed value is the fold of its error terms and the children's claims in order, missing ones being zero, and the proof's claim is the fold of those; only when the data of both children are of the empty kind may the claim be any other.",
  ["inputs"], "every pair of children, error terms, challenges, collapsed values and claim", "Tests run no internal circuit by itself.",
  [PC + "internal/native/circuits/inner_collapse.rs", PC + "internal/native/circuits/outer_collapse.rs", PC + "internal/native/claims.rs"],
  [("inner_collapse", PC + "internal/native/circuits/inner_collapse.rs"), ("outer_collapse", PC + "internal/native/circuits/outer_collapse.rs"), ("ky_values, TwoProofKySource", PC + "internal/native/claims.rs"), ("is_base_case", PC + "internal/native/stages/preamble.rs")],
  ["satisfiability, outputs"], PBT + "generated children and error terms, with and without one value wrong, against a plain double sum", "Each combination of empty and other children; one value wrong in three of four cases.", hook=THOOK)
p("T11", "The evaluation a proof claims is derived in circuit from what was queried",
  "For all children, challenges, queried and evaluated values, the circuit outputs the combination by the lifted challenge of the evaluations and of the quotients (p(u) - v) / (u - point), one for each query of the protocol; the folded polynomials' values are those of the children's claims. The output is determined, children's points are on the curve, and nothing holds when u is a queried point.",
  ["inputs"], "every pair of children, challenges, queries and evaluations", "Tests run no internal circuit by itself.",
  [PC + "internal/native/circuits/compute_v.rs", PC + "internal/native/stages/query.rs", PC + "internal/native/stages/eval.rs"],
  [("compute_v", PC + "internal/native/circuits/compute_v.rs"), ("fold_two_layer", PC + "internal/fold_revdot.rs")],
  ["satisfiability, output, set of satisfying assignments"], PBT + "generated values against the protocol's list of queries, the output interpolated as a polynomial in the challenge", "All queries told apart by value in each case.", hook=THOOK)
p("T12", "A proof is a function of the application, its inputs and the randomness",
  "The same steps over the same inputs with the same randomness give the same proof in every part, on any number of threads, with or without threads compiled in, by an application built anew, and whatever else the application has proved or verified in between. A rerandomization depends besides on the application's first one, which sets its filler, and on nothing else.",
  ["schedules", "histories", "configurations"], "every tree of steps, number of threads, order of proving and build", "No test compares two runs.",
  [PC + "fuse/", PC + "lib.rs", "crates/ragu_circuits/src/trace.rs", "crates/ragu_arithmetic/src/multicore.rs"], [("Application::seed, fuse, rerandomize", PC + "lib.rs"), ("segment evaluation on threads", "crates/ragu_circuits/src/trace.rs")],
  ["every part of every proof, verdicts"], PBT + "differential: each generated tree run on one thread, on several, among others, and in two builds",
  "Trees of two to five steps, 1 to 9 threads; interleavings are sampled.", hook=THOOK)
