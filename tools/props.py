#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": observe} if observe else {}), hook_needed=None)))
C="src/CrsMatrix.h"; M="src/Matrix.h"; V="src/Vector.h"; G="src/Geometry/"
p("P01","Sparse matrix arithmetic equals the dense arithmetic it stands for",
  "For any compressed-row sparse matrices of compatible shape, sum, weighted sum, in-place add, scaling, product, scaled product, matrix-vector product (plain and accumulating) and the lazy operator expressions give the matrix or vector that the textbook dense operation on their dense forms gives. Explicit zeros, empty rows and differing sparsity patterns never change the result. The operands are left unmodified.",
  ["inputs"],"every sparsity pattern and every entry value of matrices up to the stated dimension",
  "closuresTest and testCRSMatrix try a handful of fixed or random matrices and mostly print; no test compares all patterns (empty rows, disjoint/overlapping columns, cancelling values) with a dense oracle.",
  [C],[("operatorPlus / sum merging of rows",C+":sum, operatorPlus"),("row-by-row product with column scatter",C+":multiply"),("matrixVectorProduct",C+":matrixVectorProduct"),("closures operator= / +=",C+":operator=, operator+=")])
p("P02","Dense/sparse conversion is lossless and yields a well-formed structure",
  "Converting a dense matrix to sparse form and back, building a sparse matrix row by row or from coordinate triplets, copying, resizing, swapping and converting it between element types all represent exactly the entries given, whatever the destination held before. In the sparse structure the row offsets start at zero, never decrease and end at the number of stored entries, and every stored column index is smaller than the number of columns.",
  ["inputs","histories"],"every matrix pattern/value up to the stated dimension, every construction route, every prior content of the destination",
  "Tests build matrices by one route each into fresh objects and print them; the structural invariant is never asserted, and re-use of a non-empty destination is not exercised.",
  [C],[("constructors from dense, triplets, block",C+":CrsMatrix ctors"),("setRow/pushCol/pushValue/checkValidity",C),("fullMatrixToCrsMatrix, crsMatrixToFullMatrix",C)])
p("P03","Sparse transpose-conjugate, equality and hermiticity/diagonal tests are exact",
  "The transpose-conjugate of a sparse matrix has at (i,j) the conjugate of the entry at (j,i) and applying it twice gives the original matrix. The hermiticity, diagonal, identity, antihermiticity and zero tests answer exactly according to the represented entries, equality compares shape, structure and stored values, and the squared norm is the sum of the squared moduli of the entries.",
  ["inputs"],"every pattern/value of real and complex matrices up to the stated dimension",
  "The tests call these on a few matrices built in code; wrong answers for rare patterns (explicit zeros, missing partner entry, duplicates) are not sampled.",
  [C],[("transposeConjugate",C),("isHermitian/isDiagonal/isTheIdentity/isZero",C),("equality, norm2",C)])
p("P04","Sparse Kronecker products and block embeddings match their definition",
  "The external (Kronecker) product of a sparse matrix with an identity on either side, with or without per-row fermionic signs, and of two sparse matrices with an index permutation, equals the dense Kronecker product under the documented row/column ordering. Embedding a block on the diagonal at an offset moves every entry to exactly the prescribed place and creates no other entry.",
  ["inputs"],"every pattern/value, every permutation/sign vector/offset within the stated dimensions",
  "No existing test checks these element by element; the applications that depend on them are outside this repository.",
  [C],[("externalProduct (two overloads)",C),("fromBlockToFull",C)])
p("P05","Dense matrix operators follow the entrywise definitions",
  "For dense matrices of any compatible sizes, sum, difference, scaling, product, matrix-vector product, transpose, transpose-conjugate, outer (Kronecker) product, trace, commutator-style expressions and in-place variants produce exactly the entrywise definitions, and operand sizes that do not match are rejected or handled without touching memory out of range. Resizing that changes only the number of columns keeps the entries of the common columns, and hermiticity, zero, identity and diagonal tests agree with the entries.",
  ["inputs"],"every element value (ring-valued and complex) and every shape up to the stated dimension",
  "closuresTest checks a few square matrices with literal values; non-square shapes and aliasing between operand and result are not sampled.",
  [M,"src/Matrix.cpp","src/MatrixNonOwned.h"],[("expression closures",M+":operator=, operator+=, operator*"),("transposeConjugate/outerProduct",M),("resize/reset",M)])
p("P06","Vector expressions, scalar products and vector file-free utilities are exact",
  "Lazy vector expressions (sums, differences, scalings by a number, matrix-vector products) assigned to or accumulated in a vector give the elementwise result, independently of the previous content of the destination, also when the number is an entry of the destination. Norms and sums follow their definitions, scalarProduct conjugates its first argument while the product written with `*` of two vectors conjugates its second, and searching for an element returns its first position or reports absence.",
  ["inputs"],"every element value and every length up to the bound",
  "closuresTest samples a few literals; zero lengths, destinations of another size and complex arguments are not covered.",
  [V],[("closure operators",V),("scalarProduct, norm, indexOrMinusOne",V)])
p("P07","Sorting returns an ordered permutation of the input with a correct index map",
  "Sorting a vector, with or without the accompanying index vector, leaves the values in nondecreasing order and a rearrangement of the input, and the index vector is the permutation such that element i of the output is the input element it names. This holds for every length and for repeated values.",
  ["inputs"],"every vector of every length up to the bound, duplicates included",
  "No test checks Sort directly; it is only used inside larger runs with generic random data without duplicates.",
  ["src/Sort.h"],[("sort with permutation","src/Sort.h:sort")])
p("P08","Sparse vectors behave as the dense vectors they represent",
  "A sparse vector built by inserting values, from a dense vector or a sub-range of one represents, after sorting with duplicate merging, the dense vector in which repeated indices add up. Scalar products, sums, scaling, equality, sub-range extraction and partition lookup agree with the dense vector, and never read or write outside their storage.",
  ["inputs","histories"],"every insertion order and index/value choice (duplicates included) up to the bound",
  "No test exercises this class; insertion orders with duplicates and partition edges are the rare inputs.",
  ["src/SparseVector.h"],[("sort with merge, scalarProduct, operator+=, toChunk","src/SparseVector.h")])
p("P09","Row accumulators merge repeated columns exactly",
  "Accumulating (column, value) pairs into a row accumulator in any order, with repeats, and finalizing it into a sparse matrix yields for each column the sum of the values added for it. Multiplying the accumulated row by a vector equals the dense dot product, and clearing starts from an empty row.",
  ["inputs","histories"],"every sequence of additions up to the bound",
  "No test exercises the row accumulators with repeated or unordered columns.",
  ["src/SparseRow.h","src/SparseRowCached.h"],[("finalize with sort and merge","src/SparseRow.h"),("cached rows","src/SparseRowCached.h")])
p("P10","Packing several indices into one is a bijection",
  "Packing a pair of in-range indices gives a number below the product of the sizes, unpacking it gives the same indices back, and packing after unpacking is the identity for every in-range number.",
  ["inputs"],"all sizes and all index values with products within the stated bound, checked as machine words",
  "No test uses these conversions directly.",
  ["src/PackIndices.h"],[("pack/unpack","src/PackIndices.h")])
p("P11","Bit counting, binary length and exact division are right for every word",
  "Counting set bits returns the population count of any machine word by every provided method, the integer-logarithm helper returns the number of binary digits of any word, and exact integer division returns the quotient or reports an error when the division leaves a remainder.",
  ["inputs"],"every machine word",
  "Tests only reach these through run-identifier checks on a few numbers.",
  ["src/BitManip.h","src/PsimagLite.cpp"],[("count, countKernighan","src/BitManip.h"),("log2Integer, integerDivision","src/PsimagLite.cpp")])
p("P12","Permutation stepping enumerates every ordering exactly once",
  "Starting from the sorted arrangement of the given values, each successful step gives the lexicographically next arrangement, always a rearrangement of the given values, and the step reports the end exactly at the last one and changes nothing then; so that every ordering (n! of them for distinct values, each distinct arrangement once for repeated values) is visited exactly once.",
  ["inputs","histories"],"every sequence of values of every length up to the bound, repeats included, and every step from it",
  "No test enumerates permutations or checks the step from arbitrary states.",
  ["src/Permutations.h"],[("increase","src/Permutations.h")])
p("P13","Sum decomposition enumerates each composition in range exactly once",
  "Enumerating the ways to write an integer as an ordered sum of a given number of non-negative parts yields only valid decompositions, each exactly once, and misses none; asking only for their number gives that number, and asking for the one at an index gives the decomposition the full enumeration has at that index.",
  ["inputs","configurations"],"every (parts, sum, selection) within the bound",
  "The example prints one decomposition; nothing checks completeness or uniqueness.",
  ["src/SumDecomposition.h"],[("recursive enumeration","src/SumDecomposition.h")])
p("P14","Base64 decoding inverts encoding for every byte string",
  "Encoding any byte string produces standard base64 text with correct alphabet, padding and length, and decoding that text gives back exactly the original bytes, including zero bytes and bytes above 127.",
  ["inputs"],"every byte string up to the stated length",
  "base64test encodes one fixed sentence and prints it.",
  ["src/PsiBase64.h","src/PsiBase64.cpp"],[("Encode/Decode","src/PsiBase64.h, src/PsiBase64.cpp")])
p("P15","String helpers split, replace and classify numbers exactly",
  "Splitting gives exactly the maximal delimiter-free pieces in order, replacing every occurrence scans left to right without rescanning inserted text, and the file-name helper returns what follows the last slash. The integer and floating-literal recognisers accept exactly the documented character sets, and number conversion either returns the value of the text or reports an error.",
  ["inputs"],"every string up to the bound over all byte values",
  "Tests only call these with a few literal strings via input files.",
  ["src/PsimagLite.cpp"],[("split, replaceAll, basename, isAnInteger, isAfloat, atoi","src/PsimagLite.cpp")])
p("P16","Textual predicates evaluate to the boolean they spell",
  "A predicate expression made of comparisons and the modulus test joined by conjunction (and by disjunction in the extended form) evaluates, for every assignment of the named variables, to the boolean value of the expression; expressions with the named substitution and remainder operators use the substituted numbers. Malformed expressions are reported as errors rather than silently evaluated.",
  ["inputs"],"every comparison operator, operand and variable value within the bound",
  "testPredicate evaluates a couple of predicates typed on the command line.",
  ["src/PredicateSimple.h","src/PredicateAnd.h","src/PredicateAwesome.h","src/PredicateSimple.cpp"],[("comparisons","src/PredicateSimple.h:isTrueInternal"),("conjunction","src/PredicateAnd.h"),("disjunction and substitution","src/PredicateAwesome.h")])
p("P17","Operator-first arithmetic expressions evaluate to their arithmetic value",
  "An operator-first expression of numbers, arithmetic operators and the supported functions, in the level-order form the library reads (each operator, in the order written, takes as its operands the next tokens not yet taken), evaluates to the value obtained by applying each operator to its own operands in order. Tokens after the complete expression are ignored and expressions with missing operands are reported as errors.",
  ["inputs"],"every operator tree up to the stated depth/size with arbitrary operand values",
  "The calculator example evaluates the sum of two numbers.",
  ["src/AST/ExpressionForAST.h","src/AST/Node.h","src/AST/Tree.h","src/AST/PlusMinusMultiplyDivide.h"],[("building of the operator tree","src/AST/ExpressionForAST.h"),("evaluation","src/AST/Tree.h, src/AST/Node.h")])
p("P18","Operator expressions evaluate to the sum of the products written",
  "An expression made of terms joined by +, each a product of numbers, imaginary numbers, parenthesised scalar arithmetic and symbols, evaluates to the sum over its terms of the product of all the scalars of the term times the product of its symbols in the order written, for any position of the scalars among the symbols and whatever the result held before. A term that evaluates to nothing contributes nothing. Nested, unbalanced or misplaced parentheses and minus signs, malformed numbers, imaginary numbers in real expressions and symbols of unlike kinds are reported as errors.",
  ["inputs"],"every expression of the grammar up to the stated size with arbitrary digits",
  "No test reaches the expression evaluator.",
  ["src/CanonicalExpression.h","src/QuasiCanonical.h","src/CmplxOrReal.h"],[("splitting into terms","src/QuasiCanonical.h"),("products and sums","src/CanonicalExpression.h")])
p("P19","Input-language statements give each declared name its assigned value",
  "In the typed input language (Ainur), a script is a list of statements separated by semicolons, each a declaration (type name), a declaration with a value (type name = value) or an assignment (name = value). Every name is bound to the last value written for it, regardless of white space, line ends and comments between tokens, of blanks around values, and of the form of the name (letters, digits, underscores, colons); reading a name as an integer, a number, a string, a vector or a matrix (of numbers or complex numbers a, aib, ib, i, -i) returns that value, and an ellipsis [v,...] or [v,...xN] repeats the value. Reading or assigning an undeclared name, re-declaring a name, reading a name without a value, characters outside printable ASCII, text that is not a statement anywhere in the script, values that are not of the form of the type read, negative values read as unsigned integers, and rows of unequal length are reported as catchable errors, and nothing is ever read out of bounds or silently misread. The keys whose type ends in ! and that were never read are exactly the ones reported as unused.",
  ["inputs"],"every short script, every edit of a longer one, and every value of the stated shapes",
  "The Ainur tests run a couple of fixed scripts end to end.",
  ["src/Ainur/AinurSpirit1.cpp","src/Ainur/AinurSpirit.h","src/Ainur/AinurState.h","src/Ainur/AinurConvert.hh","src/Ainur/AinurConvert1.cpp","src/Ainur/AinurComplex.hh","src/Ainur/AinurLexical.h"],[("grammar","src/Ainur/AinurSpirit1.cpp"),("store","src/Ainur/AinurState.h"),("typed reads","src/Ainur/AinurConvert.hh, src/Ainur/AinurConvert1.cpp"),("characters","src/Ainur/AinurLexical.h")])
p("P20","Input-language macros expand to exactly the defined text",
  "Every use \\name of a declared name in a value, wherever it stands in the value (at its start, at its end, next to another use) and whatever the order of the statements, is replaced by exactly the value of that name (without the quotes around it), repeatedly until none is left, and all other text is left unchanged. A function macro made of a table file, a separator and two columns, applied to a number that is in its first column, gives the number in the second column to full precision; blank lines in the table are ignored. An undefined macro, an argument that is not in the table, a table that is missing, has lines with too few columns or things that are not numbers, and an unknown separator are reported as errors.",
  ["inputs"],"every macro position and surrounding text, and every small table, up to the bound",
  "No test uses macros at the beginning or end of a value, next to each other, or with a missing definition.",
  ["src/Ainur/AinurMacros.hh","src/Ainur/AinurState.h"],[("replacement","src/Ainur/AinurState.h:expandOneValue"),("tables","src/Ainur/AinurMacros.hh")])
p("P21","Label/value input files deliver each label's own values in order",
  "In the label=value input format every label reads back exactly the text or numbers given for it, vectors deliver exactly the announced count, repeated labels are delivered in file order, comments and blank space are ignored; matrices (real or complex) have the announced shape and entries, and a map of named numbers has exactly the entries given under its own label. Missing labels, vectors of no entries, negative values for unsigned labels, and vectors whose count does not match, are reported as errors.",
  ["inputs"],"every file of the stated shape up to the bound",
  "testInputNg reads one fixed file.",
  ["src/InputNg.h"],[("state machine parser","src/InputNg.h:parseInternal"),("duplicate labels","src/InputNg.h:adjLabelForDuplicates, cleanLabelsIfNeeded"),("typed reads","src/InputNg.h:Readable")])
p("P22","Comma-separated options are recognised exactly and checked against the list",
  "An option is reported as set exactly when it appears as a whole comma-separated item (in the case-sensitive or insensitive form documented), and an option that is not registered is rejected.",
  ["inputs"],"every option string over the stated alphabet up to the bound",
  "The options example tries one string.",
  ["src/Options.h","src/InputCheckBase.h"],[("Readable::isSet / Writeable registration","src/Options.h")])
p("P23","Operator and bra-ket specifications parse into the parts they spell",
  "A specification of an operator with optional site, internal degree of freedom and transpose mark, and a bra or ket specification, decompose into exactly the written label, numbers and marks; ill-formed specifications are reported as errors.",
  ["inputs"],"every string up to the bound over the relevant alphabet",
  "No test parses these specifications.",
  ["src/OneOperatorSpec.h","src/GetBraOrKet.h"],[("OneOperatorSpec","src/OneOperatorSpec.h"),("GetBraOrKet","src/GetBraOrKet.h")])
p("P24","Parallel loops run every task exactly once on a valid thread slot",
  "For any number of tasks, threads and any assignment policy, a parallel loop executes every task in its range exactly once, each under a thread number below the number of threads used, all writes of the tasks are visible when the loop returns, and no two tasks executing concurrently share a thread slot. This holds for every schedule of the worker threads and without data races in the library itself.",
  ["schedules","configurations"],"every thread schedule at synchronisation points and every (tasks, threads, weights) within the bound",
  "Tests run a few loops with whatever schedule the machine gives; an index skipped only for some task/thread ratio is not seen.",
  ["src/PthreadsNg.h","src/Parallelizer2Pthread.h","src/Parallelizer.h","src/LoadBalancerDefault.h","src/LoadBalancerWeights.h"],[("thread start routine and task list","src/PthreadsNg.h, src/Parallelizer2Pthread.h"),("block distribution","src/LoadBalancerDefault.h"),("weighted distribution","src/LoadBalancerWeights.h")])
p("P25","Weighted load balancing partitions the tasks",
  "For any task weights and number of threads, the balanced assignment gives every task to exactly one thread, the per-thread lists contain only valid tasks, and no thread receives two tasks while the greedy rule would put one on an idle thread.",
  ["inputs"],"every weight vector and thread count within the bound",
  "loadImbalance prints timings for a single configuration.",
  ["src/LoadBalancerWeights.h","src/LoadBalancerDefault.h"],[("greedy assignment","src/LoadBalancerWeights.h")])
p("P26","Lattice neighbour relations are symmetric and match the lattice definition",
  "For chains, ladders, ladders with diagonals, ladders with baths, stars, honeycombs (columns of four-site cells, three bonds per inner site) and the copper-oxide lattice, two sites are connected exactly when the lattice definition with its boundary conditions joins them; the relation is symmetric, irreflexive and its direction does not depend on argument order. Translations and reflections are permutations of the sites that respect the lattice. The fringe of a honeycomb, of an open chain and of an open two-leg ladder with diagonals split in two consists of the sites with a neighbour in the other half, that of an open ladder of the sites at most one column away from the cut.",
  ["inputs","configurations"],"every site pair of every lattice size/leg/periodicity within the bound",
  "Nothing in the tests queries the lattice classes.",
  [G+"LongChain.h",G+"Ladder.h",G+"LadderX.h",G+"LadderBath.h",G+"Star.h",G+"KTwoNiFFour.h",G+"Honeycomb.h"],[("connected, calcDir, translate, findReflection",G+"*.h")])
p("P27","Each lattice bond owns its own connector value",
  "With site-dependent connectors, distinct bonds of one direction use distinct entries of that direction's connector list, every entry index is inside the list whose length the lattice demands, and the coupling reported between two sites is exactly the connector the user gave for their bond, whichever site is named first (a matrix connector is read conjugate-transposed when the sites are swapped, except that an all-to-all coupling is the entry of the matrix given for the two sites as named); unconnected sites have zero coupling. With whole columns in the middle of an open chain or ladder left out, a site of the left half and one of the right half couple, and are connected, as if the gap were closed.",
  ["inputs","configurations"],"every site pair and connector value of every lattice size/leg/periodicity within the bound",
  "Nothing in the tests queries couplings.",
  [G+"GeometryTerm.h",G+"GeometryDirection.h",G+"LongChain.h",G+"Ladder.h",G+"LadderX.h",G+"LadderBath.h",G+"LongRange.h"],[("handle/getVectorSize",G+"*.h"),("cacheValues",G+"GeometryTerm.h")])
p("P28","Splitting a lattice into blocks covers every site exactly once",
  "Splitting any lattice into the left block, the growing system pieces, the environment pieces and the right block assigns every site to exactly one piece, in order (the left block first, the system pieces ascending after it, the environment pieces from the right end inwards, the right block last), for every number of sites and block size accepted. The classification of a pair of sites as inside or across the two halves agrees with their positions.",
  ["inputs","configurations"],"every lattice size and block size within the bound",
  "No test performs the split.",
  [G+"Geometry.h"],[("split, connectionKind",G+"Geometry.h")])
p("P29","Blocked parallel matrix multiplication equals the plain product",
  "For every size, block size, number of threads, transposition choice, leading dimension and scaling factors, the blocked multiplication updates the result matrix exactly as the unblocked operation does and touches nothing outside it.",
  ["inputs","schedules","configurations"],"every dimension/block/thread choice and element value within the bound",
  "testGemmR compares a few sizes in floating point with tolerance.",
  ["src/GemmR.h"],[("block computation","src/GemmR.h:bigMatrices")])
p("P30","Pseudo-random generators follow their recurrence and stay in range",
  "The 32-bit generator's state update and output transformation are the published 624-word twister recurrence from any state, equal seeds give equal streams (those of the library's own seeding recurrence) and the real-valued output lies between zero and one. The portable test generator follows the minimal-standard multiplicative congruential recurrence, never leaves its range and never gets stuck, for every seed.",
  ["inputs","histories"],"every seed and every generator state (one inductive step)",
  "randomTest prints numbers from one seed.",
  ["src/MersenneTwister.cpp","src/RandomForTests.h"],[("generate/random/seed","src/MersenneTwister.cpp"),("operator()","src/RandomForTests.h")])
p("P31","Spectral functions assemble and accumulate exactly what they store",
  "The dense form of a tridiagonal matrix is hermitian with exactly the stored diagonal and off-diagonal entries, a spectral function plots at every frequency of the grid the weighted sum over its levels, what is saved of a function or of a collection loads as the same function or collection, plotting a collection of spectral functions gives point by point the sum of the individual plots, and collections whose frequency grids differ are rejected.",
  ["inputs"],"every stored coefficient and grid up to the bound",
  "The continued fraction examples print one plot.",
  ["src/TridiagonalMatrix.h","src/ContinuedFractionCollection.h"],[("buildDenseMatrix","src/TridiagonalMatrix.h"),("accumulate","src/ContinuedFractionCollection.h")])
p("P32","Chebyshev polynomial evaluation satisfies the three-term recurrence",
  "Both evaluators of the Chebyshev polynomials return the polynomial of the requested order: value one and x for the first two orders and twice x times the previous minus the one before for every further order, and they agree with each other.",
  ["inputs"],"every argument of the coefficient ring and every order up to the bound",
  "kernelPolynomial plots one function.",
  ["src/ChebyshevFunction.h","src/ChebyshevFunctionExplicit.h"],[("recursive halving","src/ChebyshevFunction.h"),("explicit low orders","src/ChebyshevFunctionExplicit.h")])
p("P33","Interpolation and root bracketing stay inside their data",
  "Spline interpolation evaluates a query with the data interval that contains it and returns the tabulated value at every data point; queries outside the table are reported. Bisection only evaluates inside the initial bracket and returns a point whose bracket still contains a sign change, or reports that there is none.",
  ["inputs"],"every table / every sign pattern of the function within the bound",
  "The spline example interpolates one file.",
  ["src/AkimaSpline.h","src/RootFindingBisection.h"],[("interval search","src/AkimaSpline.h"),("bisection","src/RootFindingBisection.h")])
p("P34","Text serialization of containers round-trips",
  "Vectors, matrices, stacks and sparse matrices written to text and read back give an equal object, leaving the input positioned after the object, and labelled records (no label being the beginning of other text in the file) in the simple text file format deliver the record asked for by label and occurrence.",
  ["inputs","histories"],"every integer-valued container up to the bound",
  "Tests write one object and inspect it by eye.",
  ["src/Matrix.h","src/Vector.h","src/Stack.h","src/Io/IoSimple.h","src/CrsMatrix.h"],[("operator<< / operator>>","src/Matrix.h, src/Vector.h, src/Stack.h, src/CrsMatrix.h"),("advance/readline","src/Io/IoSimple.h")])
p("P35","Complex number literals parse to the number they spell",
  "Every complex literal parses to the real and imaginary part written, with the right signs, and anything else is reported as an error. Forms of the calculator: a, bi, i, a+bi, a-bi, a+-bi; of the input language: a, aib, ib, i, -i, where a and b are signed numbers; of input files: a or (a,b).",
  ["inputs"],"every literal of the documented forms with symbolic digits and signs up to the bound",
  "No test parses a negative imaginary part in every form.",
  ["src/Complex.h","src/Ainur/AinurComplex.hh","src/InputNg.h"],[("literal parsers","src/Complex.h, src/Ainur/AinurComplex.hh, src/InputNg.h")])
p("P36","Eigen-solvers return eigenpairs of the given matrix",
  "The Lanczos and Davidson solvers and the dense diagonalisation return energies and vectors satisfying the eigenvalue equation within the requested tolerance for every hermitian matrix.",
  ["inputs"],"every hermitian matrix",
  "Tests run a few fixed matrices.",
  ["src/LanczosCore.h","src/DavidsonSolver.h","src/Matrix.cpp"],[("iteration","src/LanczosCore.h, src/DavidsonSolver.h"),("LAPACK calls","src/Matrix.cpp")])
p("P37","Archives (HDF5) give back every object that was written",
  "What is written to a hierarchical archive (IoNg) and read back under the same label, after the archive was closed by close(), by flush() and close() or by its destructor, equals what was written, bit for bit and whatever the destination held: numbers of every type, booleans, enumerations (of any underlying type and value), strings (empty ones and any bytes), pairs, vectors (empty ones included) of numbers, complex numbers, booleans, pairs, enumeration values, vectors and objects, stacks (emptied by writing), matrices and sparse matrices (empty ones included), and entries appended one by one. Whole numbers can be read as any whole-number type that can hold them and real vectors as complex ones; other mixtures of real, complex and whole-number vectors are refused, and a refused reading leaves the archive usable and not held open. Writing to a label in use replaces what it holds if overwriting is permitted and leaves it alone otherwise, permission to overwrite does not require that the label exist, and no other label changes. Reading a label never written is an error. An archive opened for truncation starts empty, exclusive creation refuses an existing file and otherwise starts empty, read-write and read-only opening need an existing file and keep its content, through constructors and open() alike; a file without the mark of completion is refused for reading. A group can be created once, inside an existing group.",
  ["inputs","histories","configurations"],"every value, every content of the destination, every sequence of writes, overwrites and reopenings",
  "testIoNg and testIsOperators write a fixed set of objects, always to a new file, and never read empty or overwritten ones.",
  ["src/Io/IoNg.h","src/Io/IoNgSerializer.h","src/Io/TypeToH5.h","src/Io/TypeToH5.cpp","src/Matrix.h","src/CrsMatrix.h"],[("writing and reading of each kind of object","src/Io/IoNgSerializer.h"),("overwriting","src/Io/IoNgSerializer.h IoNgSerializer::overwrite"),("opening and the mark of completion","src/Io/IoNgSerializer.h IoNgSerializer::openFile, readCanary, writeCanary"),("entries and open modes","src/Io/IoNg.h IoNg::Out, IoNg::In"),("matrices in archives","src/Matrix.h, src/CrsMatrix.h read, write, overwrite")])
p("P38","Message passing (MPI) delivers, combines and gathers the data of all ranks",
  "In a build with message passing: after a broadcast of a number, pair, vector (real, complex, of vectors or of matrices) or dense or sparse matrix every rank has what the root had, lengths included (vectors of matrices being as long on every rank). A reduction gives the root, and an all-reduction every rank, the elementwise sum, product, greatest or smallest of the values of all ranks, for every kind of number, and leaves the other ranks' values alone. What is received is what was sent, whatever the receiver held. A gather point by point gives the root each task's value from the rank whose block holds the task and changes nothing elsewhere. A loop over the ranks does each task of its range on exactly one rank and ends only when all ranks are done. All this holds for every root and communicator and whether sends return at once or wait for the receiver; no rank waits for ever, and calls match as the standard demands. A call that fails ends the program. Without a communicator a rank is alone. A text file opened for writing by all ranks gets what the first one writes, once.",
  ["schedules","inputs","configurations"],"every number of ranks, root, communicator, length and data within the bound",
  "No test runs with message passing; this code is not even compiled in the usual build.",
  ["src/MpiYes.h","src/MpiYes.cpp","src/InterNodeMpi.h","src/LoadBalancerMpi.h","src/Matrix.h","src/CrsMatrix.h","src/Io/IoSimple.h"],[("send, recv, bcast, reduce, allReduce, pointByPointGather","src/MpiYes.h"),("types, checkError, info","src/MpiYes.cpp"),("parallelFor","src/InterNodeMpi.h"),("send, recv, bcast, allReduce of matrices","src/Matrix.h, src/CrsMatrix.h")])
p("P39","Lanczos and time-stepping recursions follow their definition",
  "A Lanczos decomposition stores one vector and one pair of coefficients per step: the first vector is the initial one normalised, each diagonal coefficient is the expectation of the matrix in the vector of that step, each off-diagonal one the norm of the residual (matrix times vector, minus diagonal coefficient times vector, minus off-diagonal coefficient times the vector before), and the next vector is that residual normalised; with full orthogonalisation it also loses its overlap with all earlier vectors and is normalised again. There are no more steps than asked for and than the dimension, and fewer only if every eigenvalue estimate that matters (those asked for, the state asked for and those below it included) changed by less than the tolerance and, for more than four rows, the least number of steps was done. Energies and states returned are those of the tridiagonal problem, states being the combinations of the stored vectors it says; states that do not exist and initial vectors of another size are errors. A Runge-Kutta step is the classic fourth-order one, for slope functions that may depend on time, with one result per step, the first one being the initial value.",
  ["inputs","configurations","histories"],"every matrix, initial vector, number of steps and course of the estimates within the bound",
  "The Lanczos tests run a few fixed matrices and only print what they find.",
  ["src/LanczosCore.h","src/LanczosSolver.h","src/LanczosVectors.h","src/TridiagonalMatrix.h","src/RungeKutta.h"],[("decomposition","src/LanczosCore.h"),("computeOneState, computeAllStatesBelow","src/LanczosSolver.h"),("oneStepDecomposition, excitedVector","src/LanczosVectors.h"),("rk4","src/RungeKutta.h")])
p("P40","Dense factorisations hand LAPACK the whole matrix and return what it computes",
  "Diagonalising a dense hermitian matrix (real or complex, of either precision), general complex eigenvalues and vectors, singular values, the inverse and the eigenvalues of a tridiagonal matrix: LAPACK is called exactly once to compute, after being asked for and given at least the workspace it needs, for the matrix given and with arguments it permits; eigenvalues, singular values, vectors, factors and inverse come back as it returned them, in containers of the right shape whatever these held before; every failure it reports, in asking or computing, is an error (singular values that did not converge may instead be warned about), and nothing else is; wrong jobs, methods, kinds and shapes are errors. A function (exponential, phase) of a hermitian matrix V diag(w) V^+ is V diag(f(w)) V^+. Linear prediction solves the normal equations of the second half of the points and continues the points by the recurrence found, for any number of points in one or several calls; an odd number of points and equations without a solution are errors.",
  ["inputs","faults","configurations"],"every matrix of the shapes within the bound, every answer and failure of LAPACK",
  "Tests use a few small well-behaved matrices; LAPACK never fails in them, and complex exponentials and linear prediction are not tested.",
  ["src/Matrix.cpp","src/Matrix.h","src/LAPACK.h","src/Svd.h","src/TridiagonalMatrix.cpp","src/LinearPrediction.h"],[("diag, geev","src/Matrix.cpp"),("inverse, exp, expIpi","src/Matrix.h"),("svd","src/Svd.h"),("diag2","src/TridiagonalMatrix.cpp"),("linear prediction","src/LinearPrediction.h")])
p("P41","Solver parameters come from the closest label given",
  "For a solver with number i every solver parameter (steps, minimum steps, tolerance, options, threads and so on) is the value of the label made of the prefix, the largest number not above i that is given, and the parameter's name; of the plain label if no such numbered label is given; and the documented default if neither is. A solver without a number takes the plain label or the default. Labels of other parameters, other prefixes and larger numbers make no difference.",
  ["inputs","configurations"],"every combination of labels given for a parameter within the bound",
  "No test reads solver parameters with numbered labels.",
  ["src/ParametersForSolver.h","src/InputNg.h"],[("label fallback","src/ParametersForSolver.h"),("typed reads","src/InputNg.h:Readable")])
p("P42","Chebyshev moments, their plot and their files are those of the scaled matrix",
  "The matrix is shifted and scaled so that the lowest and highest eigenvalue found lie in -1..1. A Chebyshev decomposition of n steps gives, for k below 2n, the k-th moment: the real part of the expectation, in the starting vector, of the k-th Chebyshev polynomial of the scaled matrix (even ones in the first coefficients, odd ones in the second), and keeps one vector per step, the polynomial of that order applied to the starting vector. The plot has one point per frequency, as many as fit: zero outside the band, and inside it the sum of the moments (all, or those below the cutoff if that is smaller and not zero) times kernel factor times Chebyshev polynomial, twice but for the first, over the root of 1-x^2, where x is the frequency shifted by the energy and scaled like the matrix and the factor is Jackson's, Lorentz's or one. What is saved as text is loaded back: energy, scaling and every moment.",
  ["inputs","configurations"],"every matrix, scaling, starting vector, number of steps, moments, cutoff and kernel within the bound",
  "No test runs the Chebyshev solver, its plots or its files.",
  ["src/ChebyshevSolver.h","src/ChebyshevSerializer.h","src/ChebyshevFunction.h","src/LanczosVectors.h","src/TridiagonalMatrix.h"],[("computeAandB, decomposition, oneStepDec","src/ChebyshevSolver.h"),("plot, kernels, write, read","src/ChebyshevSerializer.h"),("storage of vectors","src/LanczosVectors.h")])
p("P43","Progress messages are complete, kept while buffering, and measure rightly",
  "A progress message appears exactly once, after its caller and the clock and complete to the last byte, if it comes from the main thread, and not at all from other threads; the precision of the stream it goes to stays. A message holder is empty after its message is printed, so that the next message holds just its own text. A signal starts buffering and the next one ends it: the buffer file then has exactly the messages printed in between, in order. A timed scope reports its start once and its end once, whether ended explicitly (then with the text given first), by leaving or both. A memory entry is the text after its label up to the end of the line, without the blanks before it, as of the last update, and entries that are not there are said not to be found. Differences and sums of times are exact to the microsecond.",
  ["inputs","histories"],"every course of messages and signals, message, memory table and pair of times within the bound",
  "Tests print progress messages but check none of them; buffering, scopes and memory entries are not tested.",
  ["src/ProgressIndicator.h","src/ProgressIndicator.cpp","src/Profiling.h","src/MemoryUsage.h"],[("printline, print, updateBuffer","src/ProgressIndicator.h"),("scopes","src/Profiling.h"),("findEntry, update, times","src/MemoryUsage.h")])
p("P44","Redirected standard output goes, complete and in order, to the named file",
  "After standard output is redirected to a file, everything printed on it is in that file, in order and to the last byte, once flushed, and at once if unbuffered output was asked for; nothing of it goes where standard output went before, and what was printed before is where it was. What the file had is replaced, or continued if asked. A redirection that is refused (the file cannot be opened, or output is redirected already) is an error and leaves standard output where it goes; whether it has been redirected is known.",
  ["inputs","histories"],"every text, course of printing and refused or accepted redirections within the bound",
  "No test redirects standard output.",
  ["src/RedirectOutput.hh"],[("doIt, hasBeenRedirected","src/RedirectOutput.hh")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
