D["P01"]='''Operands are CSR matrices whose pattern bits and entry values are symbolic (h/mat.h builds every pattern, explicit zeros,
columns ascending and descending); the oracle is the dense operation on the dense forms, entry by entry, in the same exact
arithmetic. Covers +, weighted sums, +=, -=, *=, products, scaled products, the closures of operator= and +=,
matrixVectorProduct (accumulating), aliasing (a = a*b, a += a), and that operands do not change.'''
D["P02"]='''Each way of building a sparse matrix (from dense, coordinate triplets, row by row, diagonal, copy, swap, another element
type, into a used object) is run on symbolic entries; oracle: the dense matrix meant, plus the structural invariant (offsets from zero,
never decreasing, ending at the number of entries, columns in range).'''
D["P03"]='''Transposed conjugates, equality, isHermitian/isAntiHermitian/isDiagonal/isTheIdentity/isZero and norm2, against their
definitions on the dense form, real and complex, also for non-square matrices and the dense counterparts.'''
D["P04"]='''externalProduct in its two forms and the embedding constructor, against the index formulas in the documented comments, with every
pattern and value, every sign and every permutation in the bound.'''
D["P05"]='''Every dense operator (sums, differences, scaling, products, matrix-vector, outer products, adjoints, tests, rotate, resize,
MatrixNonOwned views), entrywise against the definition; shape mismatches must be refused, not read out of range.'''
D["P06"]='''Lazy vector expressions, in-place forms, scalar products, norms, search and file-name helpers against componentwise definitions.'''
D["P07"]='''Sort on fully symbolic contents: the result is ascending, equals the input rearranged by the returned index map, and the
map is a permutation. Long inputs (beyond the insertion-sort threshold of the C++ library) have a few symbolic elements.'''
D["P08"]='''SparseVector against a dense shadow vector updated in the harness.'''
D["P09"]='''SparseRow and SparseRowCached against a dense accumulator, with repeated and cancelling columns.'''
D["P10"]='''pack(unpack(x)) = x and the converse over symbolic words (a non-linear division query for a symbolic size, exact for each size
up to the listed one), and packing through a permutation.'''
D["P11"]='''Bit counts are decided for every 64-bit word: one window of each mask step is an identity of bit-vectors; Kernighan's loop by
the number of set bits. log2Integer and integerDivision against their defining inequalities.'''
D["P12"]='''Every arrangement of symbolic values (with repeats) is stepped to the end; the successor is compared with the definition of the
next lexicographic arrangement.'''
D["P13"]='''All compositions are generated by the code and compared with an independent counter; single selections and the count must
agree with the full enumeration.'''
D["P14"]='''Encoding of symbolic bytes against the bit-level definition, decode(encode(x)) = x, and safety of decoding arbitrary text.'''
D["P15"]='''split, replaceAll, basename, the number recognisers, atoi/atof on symbolic bytes, against one-line specifications
written over the characters.'''
D["P16"]='''Predicates are assembled from enumerated operators and symbolic digits and variable values; oracle: the comparison itself, and the
boolean combination for & and |; texts outside the grammar must be errors.'''
D["P17"]='''Every complete prefix expression of the given length is generated with its value computed alongside; incomplete or
over-complete ones must be errors.'''
D["P18"]='''Canonical expressions over free non-commuting symbols (formal polynomials in h), compared as polynomials.'''
D["P19"]='''Scripts of the typed input language: a reference grammar decides which texts are well formed and what each name holds; the real
parser (boost::spirit instantiations included, executed symbolically) must agree. '''
D["P20"]='''Macro uses in every arrangement against textual substitution of the definition; tables and functions against their definition; cycles
must be errors.'''
D["P21"]='''Files of label=value entries with symbolic digits in every layout; reading each label in order gives the values in
order; announced counts, loop lines, maps and matrices; arbitrary short texts must not break memory safety.'''
D["P22"]='''Symbolic option strings and names; an option is set exactly if it is one of the comma-separated items; registration in the three
modes.'''
D["P23"]='''All strings over the significant characters up to the length bound, against a reference parser in the harness.'''
D["P24"]='''Real Parallelizer/Parallelizer2/PthreadsNg code over modelled pthreads, all schedules; every task is run once, on a thread slot below
the number of threads, nothing left unjoined, no data race, thread-creation failures survived.'''
D["P25"]='''Load balancers with symbolic weights and counts: the tasks of all threads together are each task once.'''
D["P26"]='''Each lattice class against the geometric definition of its bonds over symbolic sites; symmetry; translations and
reflections as permutations.'''
D["P27"]='''Couplings read back for every pair of sites against the numbering of bonds; distinct bonds have distinct entries (two symbolic
bonds), connector matrices, all-to-all matrices and several terms.'''
D["P28"]='''Blocks of every split against the documented order; each site once.'''
D["P29"]='''GemmR over a reference GEMM, which isolates the blocking, against the whole product; leading dimensions, transpositions, every
schedule.'''
D["P30"]='''The twister's regeneration, tempering and seeding stream for all states/seeds as bit-vector identities; the
portable generator against its recurrence.'''
D["P31"]='''Dense form of tridiagonal matrices, values of spectral functions, functions and collections saved and loaded, accumulation of plots, grids and
refusals.'''
D["P32"]='''T_m computed by the doubling formulas equals the three-term recurrence as a polynomial identity over words and exactly on
small integers.'''
D["P33"]='''Spline pieces, continuity and the parabola rule at the ends as polynomial identities; refusal outside the table; bisection
brackets for every function on the points used.'''
D["P34"]='''What is printed and read back (operator<<, operator>>, IoSimple) equals the object, with used destinations; labelled records found by
occurrence.'''
D["P35"]='''All texts over the significant characters against reference grammars of the three readers of complex numbers.'''
D["P37"]='''IoNgSerializer over an in-memory model of HDF5, all bit patterns; histories of writes, overwrites and openings. Sampled paths run
with the real HDF5 library.'''
D["P38"]='''No MPI is installed, and the paths are not compiled by the usual build; the check compiles them (-DUSE_MPI) over a model of the library
(h/mpi/mpi.h). Ranks are run one after another: a rank runs until it needs what another has not done, is unwound by an exception, and
is run again with what it already did answered from its log. No call of this code receives from any rank, so the outcome is the same in
every order of progress, and one order stands for all schedules; whether sends return at once or wait for the receiver is a case split. The model
asserts the rules of the standard (kinds, roots, operations, types and lengths match, buffers do not overlap, messages do not
overtake, nothing is left over) and that some rank can always go on. Data are symbolic; results are compared with the combination
computed directly. Failures are injected into every call. Outside: vectors and matrices of no elements, dynamic communicators, accuracy of
floating-point sums.'''
D["P39"]='''The recursions with a number type of words modulo 2^32 with formal roots and quotients: coefficients, vectors and states are
compared with their definitions as polynomials; the course of the estimates is symbolic, so every stopping decision is covered.'''
D["P40"]='''LAPACK is a model that checks the documented demands on every argument, stores what it is given and answers with arbitrary results
(or failures); what the routine passed and returned is compared with the matrix and the answer entry by entry. Exponentials use exact stand-ins for exp, cos
and sin, so the assembly from eigenvectors is decided exactly. Rounding and LAPACK itself are outside.'''
D["P41"]='''Input files that give every combination of plain and numbered labels of a parameter, with symbolic values, read for solvers with and
without a number; the value read is that of the closest label or the default, whatever else the file holds.'''
D["P42"]='''ChebyshevSolver is instantiated over the ring of words (P39's method): matrix, scaling and starting vector are symbolic, and the moments and
stored vectors are compared, as polynomials, with the expectations of T_k got from T_{k+1} = 2xT_k - T_{k-1} applied 2n times, i.e. without the doubling
formulas the code uses. The scaling runs on doubles with symbolic estimates. Plots have a symbolic moment at each place in turn (exact dyadic arithmetic up to the final
division); files are written and read through the text reader.'''
D["P43"]='''Real streams and files with symbolic bytes: what is in the stream or file is taken apart into prefix and text, and compared with the messages given.'''
D["P36"]='''the accuracy of eigenpairs is the accuracy of LAPACK's iterations on IEEE doubles (outside this repository, compiled
Fortran, iterations whose number depends on the data); no solver decides such floating-point iterations even at 2x2. The part written here is P39 (recursions,
stopping, assembly of states) and P40 (what LAPACK is given and what is made of its answers).'''
D["P44"]='''Real redirection with symbolic bytes: the harness first puts a text buffer under standard output, prints, redirects
(after a refused attempt or not), prints on and tries again, and compares the bytes of the file and of the buffer with what was printed.
A stale or lost stream buffer needs a refusal or an earlier text in the file to show, which no test has. The restoring at the
exit of the process happens outside the harness; the replays on the real code go through it.'''
