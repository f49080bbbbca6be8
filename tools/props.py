IN, HI, PG, CF = "inputs", "histories", "programs", "configurations"
AI = "abstract interpretation of the SSA form over a value-number domain"

P("A01", "Extension-field arithmetic is exact for every operand and aliasing",
  "Every arithmetic operation of the quadratic, sextic and dodecic extension fields under the pairing returns exactly the field element its definition prescribes, for every integer representative of the operands (negative or unreduced ones included), and stores it in the receiver, which it also returns where it returns one. This also holds when the receiver and operands are the same object in any combination, and operands that are not the receiver keep their value. Normalisation brings every coordinate into [0,p) without changing the element, and the zero and one tests are exact on normalised elements.",
  [IN], "all integer coordinates of the operands, all ways in which receiver and full operands coincide, any content of scratch numbers",
  "Unit tests multiply a few elements with distinct receivers; carries, cancellations and in-place use are not enumerable.",
  a([PR+"gfp2.go", PR+"gfp6.go", PR+"gfp12.go"], [("field formulas", PR+"gfp2.go"), ("tower formulas and Frobenius", PR+"gfp6.go, "+PR+"gfp12.go")]),
  AI+" (polynomial identities over GF(p), alias enumeration)", "proof",
  "Each operation is analysed with symbolic coordinates for every alias partition and compared with an independent definition of the tower; exact equality of polynomials modulo p. Exponentiation is A03. Trusted: the model of math/big and the analyser.")

P("A02", "Group operations of G1 and G2 follow the curve group law",
  "Addition, doubling, negation, copying and affine normalisation of points of both source groups give the group-law result for every operand class: generic, equal, opposite and infinite points, in any projective representation, and also when the output object is one of the inputs. Infinity is recognised exactly, and normalising a finite point yields z=1 without moving the point. Operands that are not the output keep their value.",
  [IN], "all pairs of points in all projective representations and coordinate representatives, all aliasings",
  "Tests exercise a handful of sums with fresh receivers; equal, opposite, infinite and aliased operands form classes that sampling misses.",
  a([PR+"curve.go", PR+"twist.go"], [("Jacobian formulas and special cases", PR+"curve.go, "+PR+"twist.go")]),
  AI+" (rational-function identities modulo the curve equation, case split on zero tests)", "proof",
  "Every path of every operation is compared with the affine group law as rational functions modulo the curve equation; zero tests must be on exact zeros. Trusted: the model of math/big, A01 for the G2 coordinates.")

P("A03", "Scalar multiplication and exponentiation are exact",
  "Multiplying a point of either source group by a non-negative integer gives exactly that multiple, raising an element of the extension fields to a non-negative power gives exactly that power, and raising an element of the scalar field to a non-negative exponent below the group order gives that power, for every exponent including zero, one, values around word and group-order boundaries, and for infinite or identity bases. Base, exponent and generator keep their value, and the receiver may be the base. The public operations of G1, G2 and the target group (addition, negation, scalar and base multiplication) return the corresponding element, in the receiver, even when the receiver is empty or is an operand.",
  [IN], "all bases and all exponents; receiver new, separate, or equal to an operand",
  "The ladders are only tested with a few exponents and fresh receivers.",
  a([PR+"curve.go", PR+"twist.go", PR+"gfp12.go", PR+"gfp2.go", PR+"bn256.go", UT+"finiteField.go"], [("double-and-add and square-and-multiply ladders", "Mul/Exp in "+PR), ("public group operations", PR+"bn256.go"), ("field exponentiation", UT+"finiteField.go Exp, ExpInt")]),
  AI+" (discrete-logarithm domain, ladders unrolled for constant exponents)", "other",
  "Ladders are unrolled in a domain that names every group element by its logarithm over a symbolic base, for a set of constant exponents that covers every bit transition, word boundaries and the group order; bases are symbolic. Relies on A01 and A02 for the single steps.")

P("A04", "Scratch numbers have one owner and are never used after release",
  "A number that an operation of the pairing package releases into the scratch pool is never read, written or released again by it, and is not reachable from its results, its receiver or its arguments. Nothing that belongs to the caller or to a package-level constant is ever released. The pool never hands out a number that it still holds or that is still in use.",
  [IN, HI], "all control paths of all operations, all aliasings of full operands, all sequences of acquisitions and releases",
  "A stale alias only shows when a later operation happens to reuse the number; tests see a few fixed reuse patterns.",
  a([PR], [("scratch pool", PR+"bn256.go bnPool"), ("acquire/release pairs", "every operation of pairing/")]),
  "typestate and ownership analysis of pooled numbers on the SSA form (path-sensitive abstract interpretation)", "other",
  "Every path of every operation with abstract operands; called operations are replaced by their summaries, which are checked at their own entry. Exponent ladders are analysed for constant exponents that cover every bit transition. Leaked (never released) numbers are not reported.")


P("A05", "Decoders of the source groups accept exactly the valid encodings",
  "Decoding an element of G1 or G2 succeeds exactly when the input has the fixed length, every coordinate is below the field modulus and the coordinates are all zero or describe a point of the group (on the curve, and for G2 of the group order). On success the element is exactly the encoded one, with all-zero bytes decoding to infinity, and no decoder modifies its input. All other byte strings are rejected with an error, whatever the receiver held before.",
  [IN], "all byte strings of every length, all previous receiver contents",
  "The set of byte strings is unbounded and invalid ones (off curve, wrong subgroup, unreduced) are hard to sample.",
  a([PR+"bn256.go", PR+"curve.go", PR+"twist.go"], [("decoders", PR+"bn256.go Unmarshal"), ("membership tests", PR+"curve.go, "+PR+"twist.go IsOnCurve")]),
  AI+" (path classification of accepting and rejecting returns)", "other",
  "Every path of the decoders is classified by the conditions it implies on symbolic bytes; input lengths from an enumerated set around the fixed one. The scalar multiplication by the order inside the membership test is a contract (A03).")

P("A06", "Encodings place each coordinate canonically in a fixed slot",
  "Encoding an element of G1, G2 or the target group yields a byte string of fixed length in which every coordinate stands big-endian in its own 32-byte slot as the least non-negative representative, whatever the projective representation and coordinate representatives of the element. Infinity encodes as all zeros. Decoding an encoding of the target group returns the same element, and wrong lengths are rejected.",
  [IN], "all elements in all internal representations",
  "Leading zero bytes, infinity and unreduced representatives occur with negligible probability in random tests.",
  a([PR+"bn256.go"], [("encoders", PR+"bn256.go Marshal"), ("coordinate access", PR+"bn256.go")]),
  AI+" (byte-slot domain)", "other",
  "Output buffers are tracked as slots of symbolic numbers; variable-length Bytes results are tracked by their length so that every shorter coordinate is covered at once.")

P("A07", "The pairing is the reduced optimal ate pairing",
  "Pairing two points yields the identity of the target group when either point is infinity, and otherwise the optimal ate Miller function of 6u+2 with the two Frobenius lines raised to (p^12-1)/n, independent of the projective representation of the points, which keep their value. Checking a list of pairs succeeds exactly when the product of the pairings of all pairs is the identity, skipping pairs with an infinite point.",
  [IN], "all pairs of points in all representations, all lists of pairs",
  "A wrong line or exponent chain may still be non-degenerate and consistent on the few points of a test.",
  a([PR+"optate.go", PR+"bn256.go"], [("line functions and Miller loop", PR+"optate.go"), ("final exponentiation", PR+"optate.go finalExponentiation"), ("product check", PR+"bn256.go PairingCheck")]),
  AI+" (divisor-class and exponent domains, polynomial identities for the line functions)", "other",
  "Line functions are compared with the tangent and chord up to factors killed by the final exponentiation; the Miller loop is unrolled over the constant digits in a domain of divisors; the final exponentiation is an exact integer exponent modulo p^12-1. Product checks are analysed for up to three pairs.")

P("A08", "Curve parameters are consistent and never change",
  "The package-level parameters satisfy the Barreto-Naehrig relations: field modulus and group order as polynomials in u, powers of xi, the twist coefficient, affine generators of the group order, digits that sum to 6u+2, and the group order as modulus of the circuit and polynomial field. No operation of the pairing package modifies or releases storage of a package-level value, hands it out in a receiver or result, or keeps references to the storage of its operands, so no sequence of calls can change a parameter.",
  [IN, HI], "all operations with all operands, all call histories",
  "Aliasing of a constant corrupts only later computations, depending on the history of calls.",
  a([PR, UT+"finiteField.go"], [("parameters", PR+"constants.go, "+PR+"curve.go, "+PR+"twist.go, "+PR+"optate.go"), ("field modulus", UT+"finiteField.go, "+CC+"factorHandling.go")]),
  "constant propagation through package initialisers; effect and escape analysis of package-level storage", "other",
  "Effects are established per operation (with operands in every aliasing and the package-level points as operands); since no single operation writes, exposes or captures such storage, no sequence does. Exponent ladders for constant exponents.")

P("B01", "Scalar-field operations are exact and return reduced elements",
  "Sums, differences, products, negations, doublings, squares, reductions and copies in the scalar field return, for arbitrary integer operands, the representative in [0, order) of the field result. Inverses and quotients of reduced operands are exact, with the inverse of zero being zero, and equality and zero tests are exact on reduced operands. Scalar products, polynomial evaluation and the conversion of decimal text agree with their definition. Operands keep their value, also when they are the same number.",
  [IN], "all integers (inverse, quotient and tests: all reduced integers); operands distinct, equal or the same object",
  "Boundary values (zero, order-1, unreduced and negative integers) and shared operands form classes that random tests miss.",
  a([UT+"finiteField.go"], [("field operations", UT+"finiteField.go Fq")]),
  AI+" (residue and interval of symbolic integers)", "other",
  "Unbounded symbolic integers plus boundary constants for each operation; vectors of up to four entries. Exponentiation is A03; random elements are Z04. The inverse of a non-zero multiple of the order is outside the property.")

P("B02", "Numbers and group elements are only modified by whoever created them",
  "Outside of the pairing package, a number, a group element, an entry of a list of these, or a coefficient tree is only modified by the function invocation that created it (or by a helper that this invocation hands it to), and a number or element not any more once it was handed out: stored where others can see it, sent, or held in a second place. Hence no exported operation changes what its arguments, its receiver or shared constants refer to (except for the tree that a tree operation is called on), and results never change later.",
  [IN, HI, PG], "all functions, all paths, all inputs and program shapes, without bound",
  "In-place arithmetic on a shared number corrupts a value far away and much later; tests see only the value just computed.",
  a([UT+"finiteField.go", UT+"polynomialField.go", UT+"sparsePolynomial.go", CC+"factorHandling.go", CC+"Programm.go", CC+"ER1CS.go", ZK+"wol19.go"], [("in-place arithmetic", "every call of a mutating method of big.Int, G1, G2, GT"), ("trees", UT+"avl.go AvlTree, AvlNode")]),
  "ownership (points-to, escape and effect) analysis on the SSA form with bottom-up summaries", "other",
  "Sound up to: contents of structures are distinguished by type, not by field; function values are any function of that type used as a value; slices of structures (factor lists) are not protected themselves, only the numbers in them (D09 decides their value). Library functions are modelled as not retaining their arguments.")

P("B03", "Dense polynomial operations are exact ring operations",
  "Products, sums, differences and scalar multiples of dense polynomials are the ring operations; division yields a quotient and remainder with a = q*b + r and deg r < deg b; interpolation returns the polynomial of degree below the number of points through all points, no matter which data and lengths were interpolated before with the same field; domain polynomials vanish exactly at 0..n-1; transposition and linear combinations agree with their definition. Operands keep their value.",
  [IN, HI], "all coefficient vectors, including zero and leading-zero coefficients, of the analysed lengths; all histories of cached bases of those lengths",
  "Leading zeros, vanishing remainders and reuse of cached bases with other data are corner cases of unbounded inputs.",
  a([UT+"polynomialField.go"], [("dense polynomials", UT+"polynomialField.go PolynomialField"), ("cached Lagrange bases", UT+"polynomialField.go LagrangeInterpolation")]),
  AI+" (polynomial identities in symbolic coefficients, all paths of zero tests)", "other",
  "Coefficients are symbolic; the number of coefficients is bounded (quick: dividends of up to 6, other operands of up to 3, interpolation up to 5 points; thorough: one or two more).")

P("B04", "Sparse polynomial operations are exact ring operations",
  "Products, sums, differences and scalar multiples of polynomials stored in trees are the ring operations, whatever the order in which coefficients were inserted and whether terms cancel; division yields a = q*b + r with deg r < deg b and rejects the zero divisor; evaluation, scalar products and linear combinations agree with their definition; interpolation returns the polynomial of degree below the number of points through the data (zero where absent), no matter what was interpolated before; transposition keeps every entry. Zero coefficients are never stored in a result, and operands keep their value.",
  [IN, HI], "all non-zero coefficients at the analysed exponent sets and insertion orders, cancelling or not; all histories of cached bases of the analysed lengths",
  "Cancellation patterns, absent terms and cached bases interact; a test fixes one pattern.",
  a([UT+"sparsePolynomial.go", UT+"avl.go"], [("sparse polynomials", UT+"sparsePolynomial.go"), ("storage", UT+"avl.go AvlTree")]),
  AI+" (polynomial identities over the analysed tree heap, all zero/non-zero paths)", "other",
  "Coefficients are symbolic; exponent sets have up to 3 terms (thorough: 4) of degree up to 5 (evaluation: up to 100), interpolation of all data sets on up to 4 points and of few data on up to 6 points (thorough: 7).")

P("B05", "Traversals and background goroutines share nothing unsynchronised",
  "A coefficient tree is never modified while its nodes are traversed, and every traversal is received to its end, so that no goroutine stays blocked holding the tree's lock. More generally, wherever code starts a goroutine (tree traversal, lexer, parser), it does not write what the goroutine still reads and does not touch what the goroutine still writes before it has received a value sent afterwards or seen the channel closed.",
  [HI], "all interleavings of starter and goroutine, on every path of the analysed families",
  "Whether an insertion into a traversed tree does harm depends on the scheduler and on rebalancing; the race detector only sees the executions a test happens to produce.",
  a([UT+"avl.go", UT+"sparsePolynomial.go", CC+"lexer.go", CC+"parser.go", CC+"ER1CS.go", "zkSNARK/wol19.go"], [("tree traversal", UT+"avl.go ChannelNodes"), ("lexer and parser goroutines", CC+"lexer.go Start, "+CC+"parser.go Parse")]),
  "happens-before analysis of goroutines (accesses ordered by sends and receives) on the paths of an abstract interpretation", "other",
  "All goroutines started on the paths of the families of B04, B06, Z01, Z02, D02, D04 and D08. A goroutine's accesses after it closes its channel (release of the lock) are not compared.")

P("B06", "The coefficient tree behaves as a map without zero entries",
  "After any sequence of insertions, accumulating insertions and removals the tree stores exactly the key-value pairs of the corresponding map, never a zero value, and every query (lookup, membership, size, extreme keys, ascending and descending traversals, arrays, clones) agrees with that map. A non-overwriting insertion never replaces a stored value, a removal reports whether the key was present, and a clone shares no node with its original. Keys are only ordered, never transformed.",
  [HI, IN], "all sequences of operations up to the bound with every order of keys, all values",
  "Rotations and removals of inner nodes depend on the whole history of operations.",
  a([UT+"avl.go"], [("search tree", UT+"avl.go AvlNode, AvlTree")]),
  AI+" (heap shapes of the tree enumerated over operation sequences, symbolic values) and a syntactic key-use rule", "other",
  "Sequences of 4 operations over 3 keys (thorough: 5), all insertion orders of 5 keys (thorough: 6) followed by removals, and monotone, inward and outward sequences of 24 keys. Balance is not claimed. Traversal producers are run to completion; interleavings are B05.")

P("Z01", "The setup publishes exactly the elements its definition prescribes",
  "For every constraint system and every number of public inputs, the dense and the sparse trusted setup publish exactly the group elements of the defined exponents: generators scaled by alpha, beta, gamma, delta, the powers of x, the wire combinations of public wires divided by gamma and of private wires divided by delta, and the powers times the domain polynomial divided by delta, in this order and number, with the pairing of alpha and beta precomputed. Both setups agree, leave the constraint system unchanged, and refuse more public inputs than wires.",
  [IN, CF], "all matrix entries of the analysed system sizes, all secrets, every number of public inputs",
  "A key with one wrong or missing exponent still verifies for circuits that do not use it, and secrets are random.",
  a([ZK+"wol19.go"], [("dense and sparse setup", ZK+"wol19.go GenerateTrustedSetup, GenerateTrustedSetupSparse"), ("domain and interpolation", UT+"polynomialField.go, "+UT+"sparsePolynomial.go")]),
  AI+" (discrete-logarithm domain: keys as rational functions of the secrets)", "other",
  "Systems of a few gates and wires with symbolic entries (thorough: more and larger shapes); group operations are the contracts decided by A02, A03 and A07; values in general position.")

P("Z02", "Proofs are the prescribed combinations of key, witness and polynomial",
  "For every witness and every combined polynomial divisible by the domain polynomial, the dense and the sparse prover return the proof whose four elements are the defined combinations of key elements: the left, right and exponent parts from alpha and beta and all wires, and the last from the private wires and the quotient polynomial. A polynomial that is not divisible by the domain polynomial never yields a proof. Key, witness and polynomial keep their value.",
  [IN], "all witnesses and all polynomials of the analysed sizes; every number of public inputs",
  "Wires that happen to be zero, public wires and high-degree quotients mask wrong summands in single examples.",
  a([ZK+"wol19.go"], [("provers", ZK+"wol19.go GenerateProofs, GenerateProof_Sparse"), ("quotient", UT+"polynomialField.go, "+UT+"sparsePolynomial.go Div")]),
  AI+" (discrete-logarithm domain: proofs as rational functions of secrets and witness)", "other",
  "Symbolic witnesses, with zero, one and minus one as special entries, for the systems of Z01; group operations are contracts (A02, A03).")

P("Z03", "The verifier accepts exactly the proofs that satisfy its equation",
  "For every verification key with at least the constant-one input, every proof and every list of public values, the verifier returns true exactly when the verification equation over the pairing holds for the key, the four proof elements and the public values, in which each public value is bound to its own key element. A list with fewer or more public values than the key provides is rejected. Key, proof and public values keep their value, and neither representation of the circuit makes a difference.",
  [IN], "all keys, proofs and public values; every mismatch of lengths within the analysed counts",
  "Forged proofs and permuted or padded publics form an unbounded space; a test tries a few.",
  a([ZK+"wol19.go"], [("verification equation", ZK+"wol19.go VerifyProof"), ("product of pairings", PR+"bn256.go")]),
  AI+" (discrete-logarithm domain, all returns classified by the condition they imply)", "other",
  "Keys with one to a few public inputs, all other values symbolic; the pairing is a contract (A07). Soundness of the scheme itself is not decided.")

P("Z04", "Setup secrets are uniform, independent and never leave as numbers",
  "Each setup draws its five secrets independently and uniformly from the whole scalar field with the operating system's cryptographic generator, as do random field and group elements. Failure of the generator never yields a key or a predictable secret. A secret leaves the setup only as the exponent of a published group element: it is not stored in the returned key, in package-level state or in the arguments, and is not printed.",
  [IN, HI], "all outcomes of the random source including failure, all constraint systems of the analysed sizes",
  "Predictable or leaked secrets do not change any result that a test could compare.",
  a([ZK+"wol19.go", UT+"finiteField.go", PR+"bn256.go"], [("toxic waste", ZK+"wol19.go GenerateTrustedSetup, GenerateTrustedSetupSparse"), ("random elements", UT+"finiteField.go Rand, "+PR+"bn256.go RandomG1, RandomG2")]),
  "information-flow analysis (taint by symbolic unknowns) on top of abstract interpretation", "other",
  "Every draw is a fresh unknown whose range is recorded; values that depend on it other than through a group element are reported at returns, stores to globals and prints. Rejection sampling is followed for a few rounds.")

P("Z05", "Proofs for satisfying witnesses verify, deviating ones are refused",
  "For every witness the combined polynomial is the product of the left and right polynomials plus the exponentiation polynomial minus the output polynomial, all interpolated through the gates. A witness that satisfies all gates of a circuit yields a proof that the verifier accepts for every choice of secrets; a witness with one wire that deviates from its gate never yields a proof. The verifier's answer depends on every public value. All this holds in the dense and in the sparse representation.",
  [IN, CF], "all witnesses of the analysed circuits, all secrets, each wire deviating",
  "Tests run a few circuits with random secrets; agreement of setup, prover and verifier for all values is an identity.",
  a([ZK+"wol19.go"], [("combined polynomial", ZK+"wol19.go CombinePolynomials2, CombineSparsePolynomials"), ("setup, prover, verifier", ZK+"wol19.go")]),
  AI+" (composition of the interpreted protocol steps, rational-function identities)", "other",
  "The polynomial for the systems of Z01; the composition on four circuits of up to 3 gates (thorough: five, up to 5 gates); values in general position. Honest proofs with exponentiation gates are rejected: recorded as known findings.")

P("D01", "Every compiled gate becomes exactly its constraint",
  "Translating a list of gates into a constraint system yields one row of L, R, E and O per gate, in gate order, that expresses the gate: products and quotients of sums of wires and numbers, sums, equality checks, exponentiations, the bit condition z*(z-1) = 0 and the bit sum. Numbers act on the constant-one wire, negative coefficients keep their meaning, and the optional randomiser is a row of its own on two wires of its own. The dense and the sparse system express the same constraints, transposition keeps every entry, and gates keep their coefficients.",
  [IN, CF], "all coefficients (positive, negated, one, zero) of gates of every kind over the analysed operand lists, with and without randomiser",
  "A constraint with a wrong coefficient is still satisfied by the witness computed from it, so tests that prove their own witness pass.",
  a([CC+"Programm.go", CC+"ER1CS.go"], [("lowering", CC+"Programm.go GatesToR1CS, GatesToSparseR1CS"), ("transposition", CC+"ER1CS.go Transpose, TransposeSparse")]),
  AI+" (each emitted row read back as a polynomial in the wires)", "other",
  "Operand lists of up to three entries (bit sums: up to 13) in lists of up to 225 gates, coefficients symbolic.")

P("D02", "The wires of a constraint system are numbered consistently",
  "Both constraint builders number the wires without gaps or collisions: the constant one is wire 0, the declared public inputs follow in the order of their declaration, then the remaining inputs in order, then the output of every gate that defines a wire, then the two randomiser wires if requested. Checks define no wire, the bits of a split value are listed from the least significant one, and two gates defining the same wire or a gate using an undefined wire are refused.",
  [IN, CF], "every ordered choice of public inputs among the analysed inputs, all analysed gate lists, with and without randomiser",
  "The verifier binds public values by position; permuted positions are invisible when prover and verifier share the mistake or values coincide.",
  a([CC+"Programm.go"], [("index map", CC+"Programm.go GatesToR1CS, GatesToSparseR1CS")]),
  AI+" (the index maps are read back and compared with the declared order)", "other",
  "Up to four inputs with every ordered subset of three as public, up to 225 gates.")

P("D10", "The gates of a program compute exactly what the program says",
  "Compiling a valid program yields gates whose meaning is that of the program: every gate defines one new wire from wires defined before it (or states an equality or the recombination of a split value), the returned value is carried by a wire, the equalities stated by the gates are exactly those stated with equal(), the split values are exactly those split, and main inputs and public inputs are the declared ones in declared order. Functions, closures, recursion, pre-loaded arguments, arrays, loops, static branches, returns inside loops and branches, bracketed arithmetic, scalar multiplications and additions behind gates all keep this, whatever the numerals and inputs are.",
  [IN, PG], "program schemas with numerals standing for any non-zero number, all inputs, all bracketed expressions up to a depth",
  "Tests compare a few outputs for one numeral each; wrong merging, sign or scaling of gates shows only for particular coefficients and operand shapes.",
  a([CC+"Programm.go", CC+"parser.go", CC+"lexer.go", CC+"circuit.go", CC+"factorHandling.go", CC+"gate.go"],
    [("lexing, parsing and execution of programs", CC+"parser.go Parse, "+CC+"Programm.go (*Program).Execute, (*function).compile"), ("factor algebra and gate merging", CC+"factorHandling.go, "+CC+"gate.go")]),
  "abstract interpretation of the compiler on program schemas with symbolic numerals (value-number domain), compared with an independent reference semantics of the language", "other",
  "About a hundred program schemas and a family of bracketed expressions over two inputs and a numeral (a third of depth two in quick; all of them, a second numeral and samples of depth three in thorough). Numerals of a schema stand for any non-zero number, inputs for any field element. Identifiers of gates are taken as collision free. Brackets are needed around operators of equal or mixed precedence: the reference covers the language as documented.")

P("D04", "A calculated witness satisfies every constraint, or an error says why not",
  "For every constraint system built from a program (dense or sparse) and every assignment of its inputs, witness calculation either returns a vector with 1 first, each input at its wire, the value its gate defines at every other wire and bits at the wires of split values, such that every constraint L*R + X(g^E) = O holds; or it returns an error, and it does so only when a divisor vanishes, a stated equality or check does not hold, an exponent or more than one wire of a constraint has no value, or a value is supplied for a name that is no input. It never panics and does not modify the system or the inputs. The randomiser wire is drawn anew for each witness.",
  [IN], "all inputs and all coefficients, all positions of the unknown wire, all compiled program schemas",
  "Tests solve fixed programs for fixed inputs: a wrong sign or coefficient in one branch of the solver, a dropped check of an equality, or a division by a vanishing divisor shows only for particular systems and inputs.",
  a([CC+"ER1CS.go", CC+"Programm.go"], [("witness calculation", CC+"ER1CS.go CalculateWitness, CalculateSparseWitness"), ("arguments", CC+"Programm.go InputArgument, CombineInputs")]),
  "abstract interpretation of both solvers on systems with symbolic coefficients and inputs (value-number domain with path conditions, bits of split values as unknowns that recombine), compared with the meaning of the gates", "other",
  "Single rows with the unknown at every position among up to two known wires per side, two- and three-row systems, gate lists of up to eight gates, splits of 5, 13 and 254 bits, and the compiled language schemas. Tests of a bit against zero take both ways only for the lowest two bits of a split value. The abscissa of g^E is an uninterpreted function.")

P("D03", "Gates are merged only when they are the same operation on the same operands",
  "The compiler drops a gate only because a gate of the same kind on the same operands (with the same coefficients, up to the order of the operands of a product) is already there: two gates that get the same name define the same value, or state the same equality. A gate keeps the name it was given, names do not depend on the order in which operands were collected, and the gate container keeps the first gate of every name in order of arrival.",
  [IN, PG], "all pairs of gates over small operand lists, with any coefficients",
  "A wrong merge needs two particular gates in one program, for instance two squares, or products that differ in a sign or a coefficient only.",
  a([CC+"gate.go", CC+"factorHandling.go", CC+"Programm.go"], [("gate names", CC+"gate.go ID, setAndGetID; "+CC+"factorHandling.go hashFactorsToBig, factor.String"), ("gate container", CC+"Programm.go gateContainer")]),
  AI+" (injective model of the hash, names compared for all pairs of gates)", "other",
  "About 2000 gates of every kind on lists of up to three entries over three wires and two numbers with unit, symbolic and negated coefficients; collisions of the (truncated) hash itself are excluded.")

P("D07", "Lexing ends, and the tokens are the text",
  "For every program text the lexer ends, and either hands out exactly the tokens of the text or refuses it: numerals, names, keywords, function calls (a name directly followed by an opening parenthesis), the operators including every two-character one, brackets and separators are cut at the longest match, with the text they have in the program; white space separates and disappears, comments run to the end of their line, a run of line breaks counts as one, and nothing is lost, invented or joined. A text with a character the language does not have, or an unclosed string, is refused. This holds for every text, also with bytes that are no valid UTF-8.",
  [IN, PG], "every program text",
  "The few program texts in tests use common spellings; a token cut differently at an unusual neighbour changes the circuit that is proven without any error.",
  a([CC+"lexer.go", CC+"rune_stack.go"],
    [("states of the lexer", CC+"lexer.go"), ("rewinding", CC+"rune_stack.go"), ("hand-over of tokens", CC+"lexer.go NextToken")]),
  "abstract interpretation of the lexer's states on texts made of classes of runes, compared with a reference tokenisation", "other",
  "Texts of up to two runes over all classes that the lexer distinguishes, of three over 19 classes and with any class inside of every kind of token, of four over 7 (thorough: more), keywords with every class of neighbour, long tokens. The lexer looks at most two runes ahead and starts afresh after every token.")

P("D08", "Compilation is a function of the program text",
  "Parsing and executing a program text and turning its gates into a constraint system always yields the same gates (kinds, names, operands, coefficients, order), inputs, public names, wire numbering and rows: whatever the order in which maps are traversed, whatever was compiled before in the same process, and when the same program is executed, or its gates are lowered, once more. Prover, verifier and setup can therefore compile independently. Compilation does not write package-level variables.",
  [PG, HI], "all traversal orders of maps (represented by three), programs compiled before, repeated execution and lowering",
  "A test compiles each text once in a fresh process; traversal orders and leftovers of an earlier compilation differ from run to run.",
  a([CC+"Programm.go", CC+"circuit.go", CC+"parser.go", CC+"gate.go"], [("execution", CC+"Programm.go (*Program).Execute, (*function).compile"), ("copies of functions", CC+"circuit.go flatCopy"), ("constraint builders", CC+"Programm.go GatesToR1CS, GatesToSparseR1CS")]),
  "abstract interpretation of the compiler under several traversal orders and histories, comparison of canonical descriptions of the results; package-level state frozen", "other",
  "About a hundred program schemas with symbolic numerals; reversed and rotated traversal orders (a third in thorough); one preceding program each.")

P("D09", "The algebra of factor lists preserves the value",
  "Sums, scalar products, negation, inversion and extraction of common factors of lists of weighted wires give lists whose value as a linear form is exactly the result of the operation; no wire occurs twice in a sum; a product of two wires is never formed as a list; the numbers of the operands and shared constants are not modified.",
  [IN], "all coefficients (zero, unit, negative, any), all pairs of small lists",
  "Cancellation, sign and divisibility cases of the coefficients are not enumerable by tests, and an aliased coefficient corrupts a gate far away.",
  a([CC+"factorHandling.go", CC+"gate.go"], [("factor lists", CC+"factorHandling.go addFactors, mulFactors, negateFactors, invertFactors, extractConstant, factorSignature")]),
  AI+" (lists as linear forms with symbolic coefficients)", "other",
  "Lists of up to three entries over three wires and numbers, all pairs in thorough, a third of the pairs in quick.")

P("D05", "Malformed programs are rejected",
  "A program text that breaks a rule of the language is never compiled to a constraint system: compilation stops with a panic. This covers undeclared, out-of-scope and redeclared names, duplicate arguments, public names that are repeated or are no inputs of main, calls with too many arguments, missing or partial function values used as operands, wrong argument counts of the built-in functions, splitting something that is no single wire, dynamic conditions, loop bounds and indices, indices outside an array, division by the constant zero, unbalanced or mismatched brackets, missing operators or operands, malformed declarations, loops and conditions, else without if, else-if without else, code after return, and statements outside of functions.",
  [IN, PG], "a list of programs breaking each rule; every removal of a bracket or operator and every replacement of a name in the valid program schemas",
  "Tests compile valid programs only; a rule that is no longer enforced leaves every valid program unchanged and lets a wrong one through as a weaker constraint system.",
  a([CC+"parser.go", CC+"circuit.go", CC+"Programm.go", CC+"lexer.go"],
    [("syntax checks of the parser", CC+"parser.go (*Parser).statementMode, parseExpression, checkBrackets"), ("semantic checks", CC+"circuit.go (*function).preCompile, contextCheck, RegisterFunctionFromConstraint; "+CC+"Programm.go (*function).compile, getsLoadedWith, resolveArrayName")]),
  "abstract interpretation of parser and compiler on malformed program schemas (every path must end in a panic; a reference semantics decides which renamed programs are malformed)", "other",
  "About 270 programs that break one rule each, and about 4000 one-token mutations of the hundred valid program schemas (every seventh in quick). Numerals that the schema leaves open stand for any number. Which message is given is not compared; a declaration that refers to itself (endless recursion) and trailing commas are outside the property.")

P("D06", "Static conditions and loops follow the integer values of the program",
  "if, else-if, else and for are resolved at compile time by comparing integers: exactly one branch of a chain is compiled, the one the first true condition selects, and a loop body is compiled once for every value of the running variable for which the condition holds, in order. All six comparisons (<, <=, >, >=, ==, !=) mean the comparison of the two integers, for every pair of numerals or static values of any size, also when the compared values are computed, are arguments of functions, or are loop variables; nested conditions, conditions inside loops and in called functions, and code after them behave accordingly.",
  [IN, PG], "every pair of compared integers between 0 and the field order, in all conditions of the analysed program schemas",
  "Tests compare a few small constants; a comparison that looks at the wrong part of a number or swaps a bound is right on most pairs.",
  a([CC+"Programm.go", CC+"circuit.go", CC+"parser.go"],
    [("resolution of conditions and loops", CC+"Programm.go (*function).compile, checkStaticCondition"), ("grouping of nested bodies", CC+"parser.go")]),
  "abstract interpretation of the compiler on program schemas whose compared numerals are symbolic integers (interval and order domain), compared with a reference semantics", "other",
  "Every comparison operator on symbolic integers in if, else-if chains, loops, nested and called code. Loop bounds are known numbers of iterations (up to 8), the order of two symbolic integers is any. Numbers are taken as less than the field order, as the language defines them.")


def N(id, title, statement, over, text, why, anchors, reason):
    P(id, title, statement, over, text, why, anchors, na=reason)

N("N01", "No proof verifies for public values without a satisfying witness",
  "No efficient prover, given only the key, produces a proof that the verifier accepts for public values for which no witness satisfies the constraint system.",
  [IN], "all efficient provers and all keys", "Adversaries cannot be enumerated by tests.",
  a([ZK+"wol19.go"], [("protocol", ZK+"wol19.go")]),
  "Knowledge soundness quantifies over efficient adversaries and rests on a hardness assumption in the pairing groups; static analysis of the code can decide that the equations are the prescribed ones (Z01, Z02, Z03) and that deviating witnesses yield no proof from the honest prover (Z05), not that no adversary exists.")
N("N02", "Proofs reveal nothing about the witness",
  "The distribution of proofs for the same public values does not depend on the private part of the witness.",
  [IN], "all pairs of witnesses with equal public values", "A distribution over secrets cannot be observed by samples.",
  a([ZK+"wol19.go", CC+"Programm.go"], [("randomiser wire", CC+"Programm.go GatesToR1CS")]),
  "The prover is deterministic by design and hiding rests on one randomiser wire and a computational assumption on the exponentiation term; equality of distributions is no property of program paths. D01 and D04 decide that the randomiser row and its fresh value are there.")
N("N03", "Secret-dependent timing",
  "The running time and memory access pattern of setup and prover do not depend on secrets or private wires.",
  [IN], "all pairs of secrets", "Timing differences are below test resolution.",
  a([PR, UT+"finiteField.go"], [("big integer arithmetic", "math/big throughout")]),
  "All arithmetic uses math/big and branches on bits and zero tests of secret scalars by design; the property is false by construction and not claimed by the repository, so there is nothing for an analysis to establish.")
N("N04", "Compilation and witness calculation end within practical bounds",
  "For every program text the compiler ends, and time and memory stay polynomial in the number of gates.",
  [PG], "all programs", "Programs are unbounded.",
  a([CC+"Programm.go"], [("recursion and loops", CC+"Programm.go (*function).compile")]),
  "The language has static recursion and loops, so whether compilation of a program ends is undecidable in general; run times depend on runtime sizes that no sound static argument in reach bounds. Termination of the lexer, which is decidable, is D07.")
N("N05", "Different gates never share a name",
  "Two gates with different meaning never get the same identifier.",
  [PG], "all pairs of gates of all programs", "Collisions of a hash are not met by tests.",
  a([CC+"gate.go", CC+"factorHandling.go"], [("hash of operands", CC+"factorHandling.go hashFactorsToBig")]),
  "Identifiers are truncated digests, so collisions exist; that they are not met is a statement about a hash function, not about the code. D03 decides that the hashed descriptions of different gates differ.")
N("N06", "The coefficient tree stays balanced",
  "The height of a coefficient tree is logarithmic in the number of entries after every history of operations.",
  [HI], "all histories of insertions and removals", "Histories are unbounded.",
  a([UT+"avl.go"], [("rotations", UT+"avl.go")]),
  "Stored heights are not updated on every removal path, so the bound does not hold for all histories on the current tree; it affects running time only, is not relied on by any caller, and a repair would be a redesign of the removal. The map behaviour of the tree is B06.")
