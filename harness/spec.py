SAN_COMMON = '-g1 -fno-omit-frame-pointer -DNDEBUG -D_GLIBCXX_ASSERTIONS'
ASAN = '-O1 -fsanitize=address,undefined -fno-sanitize=alignment,vptr,object-size -fno-sanitize-recover=all ' + SAN_COMMON
TSAN = '-O1 -fsanitize=thread ' + SAN_COMMON
SPEC = {}
SPEC['C01'] = dict(builds=['asan'], rule='random scenario (generic, locality, inflation, Pauli) and random word/sign pushed through every construction route; a case is a distinct (scenario, word, sign); all words up to a bound for hashing',
   assumptions=['word lengths for which the shortlex index fits in 64 bits'])
SPEC['C02'] = dict(builds=['asan'], rule='random scenario + random operator strings (laws, values on actual operators) and every string up to a length bound (partition); distinct by scenario and strings',
   assumptions=['random projective measurements / matrices are generic: distinct reduced words act differently'])
SPEC['C03'] = dict(builds=['asan'], rule='random rule sets (with a concrete monomial-matrix model, or free), with Hermitian/bunched/interleaved conjugation, commutative/normal flags; distinct by rule set',
   assumptions=['rule sets whose theory does not collapse (identity equal to zero)', 'normal-form equality is judged where the independent completion terminates within 60 rules'])
SPEC['C04'] = dict(builds=['asan'], rule='random scenario, levels requested in random order; every listed word compared with the set of normal forms of all words of the level, or with all adjacent site patterns (chain/lattice); distinct by scenario and level',
   assumptions=['algebraic rule sets that complete', 'wrapped lattices without translation symmetry are unsupported above pairs (reported by an exception)'])
SPEC['C05'] = dict(builds=['asan'], rule='random system of each scenario driven through a random history of moment/localizing/polynomial matrices, dictionaries, merges, look-ups; after every step the whole symbol table is compared with an independent moment-equivalence model; distinct by scenario and history',
   assumptions=['algebraic rule sets that complete', 'word classes are computed by enumerating all source-copy permutations / translations'])
SPEC['C06'] = dict(builds=['asan'], rule='random system of each scenario, random sequence of moment/localizing/polynomial-localizing matrices (signed words, complex weights); every entry, operator matrix, flag and basis set compared with the reference moment of adj(w_i) X w_j, and with values on random quantum states / classical network models; distinct by scenario and sequence of requests',
   assumptions=['algebraic rule sets that complete'])
SPEC['C07'] = dict(builds=['asan', 'tsan'], rule='two identical systems receive the same random matrix requests, one with worker threads and one without; every entry, operator matrix, flag and the symbol tables compared; mt_ sections under ThreadSanitizer; distinct by scenario and request history',
   assumptions=['schedules are those the OS produces with 8 worker threads'])
SPEC['C08'] = dict(builds=['asan'], rule='random Pauli systems (chains, lattices, wrapped, translation symmetric), random sequences of moment/localizing/commutator/anticommutator matrices (words with phases, polynomials raw or of symbols, neighbour-restricted levels); every entry compared with both products of Pauli strings, and with traces over explicit matrices; distinct by system and request history',
   assumptions=['wrapped lattices without translation symmetry and lattice neighbours beyond 1 are unsupported (reported by an exception)'])

SPEC['C09'] = dict(builds=['asan'], rule='every string of every chain and lattice of at most 5 sites, random strings on chains and lattices up to 256 sites (wrapped, all storage sizes, columns straddling storage words) and 1600 (unwrapped): canonical forms against brute-force translation; offsets of either sign; packed-hash operations; averages; symbols; distinct by lattice and string',
   assumptions=['averages of polynomials on unwrapped lattices are taken over the translations (towards higher rows and columns) that keep the polynomial on the lattice'])
SPEC['C10'] = dict(builds=['asan', 'tsan'], rule='matrices of every scenario, hand-made monomial and polynomial matrices over arbitrary symbol tables (real, imaginary, complex symbols), sums, numeric matrices: all eight basis forms evaluated on random assignments against the entries; polynomials, rulebooks and masks to vectors and back; distinct by matrix / polynomial',
   assumptions=['coefficient vectors returned for a polynomial multiply Re(X) and Im(X); vectors given to BasisVecToPolynomial multiply Re(X) and i.Im(X) (as existing tests pin)'])
SPEC['C11'] = dict(builds=['asan'], rule='random programs of polynomial operations over random symbol tables (real, imaginary, complex symbols, both term orderings) and of matrix additions/multiplications over matrices of every scenario, each result evaluated on random assignments; distinct by program',
   assumptions=['in scenarios with aliases a symbol multiplies a matrix as the word it is registered for'])
SPEC['C12'] = dict(builds=['asan'], rule='random sets of equations (zeros, values, relations, directions of complex symbols, duplicates, conjugates, contradictions) over random symbol tables with both term orderings, added in one batch, singly, in parts or by merging; an independent linear solver decides consistency and rank and samples solutions on which every rule and reduction is evaluated; distinct by table and equations',
   assumptions=['sets whose real linear system is numerically well-conditioned (pivots clearly zero or not)', 'rulebooks belong to systems with zero tolerance 1e6 epsilon'])
SPEC['C13'] = dict(builds=['asan', 'tsan'], rule='random rulebooks (monomial and general) applied to hand-made matrices over symbols of every kind and to matrices of every scenario, directly and through histories of matrix creation, rulebook addition, merging and repeated requests: every entry compared with the reduction of the source entry and evaluated on random solutions; properties against the entries; distinct by rules and matrix / history',
   assumptions=['as C12 for the rulebooks'])
SPEC['C14'] = dict(builds=['asan'], rule='random Bell scenarios (1 to 6 parties, unequal measurements, 1 to 5 outcomes) and inflated networks (projective and free observables), tensors requested before, between and after growth of the symbol table, stored or computed on demand; every entry, range, conditional and value rule evaluated on an actual quantum state or classical network; distinct by scenario and history',
   assumptions=['random projective measurements and network functions are generic for the scenario'])
SPEC['C15'] = dict(builds=['asan'], rule='random binary Bell scenarios (1 to 6 parties) and inflated binary networks: every correlator entry evaluated on an actual state before, between and after growth of the symbol table, stored or on demand; conversion of functionals evaluated on states and on arbitrary behaviours, and round trips; distinct by scenario and history / functional',
   assumptions=['random two-outcome measurements are generic for the scenario'])
SPEC['C16'] = dict(builds=['asan'], rule='random inflated networks (up to 5 observables, 4 sources, 4 copies, private observables, free observables): every word up to a length bound and random longer words; canonical forms against enumeration of all source-copy permutations, factors against an independent connectivity computation, values on independent classical sources; index arithmetic against own tables; distinct by network and word',
   assumptions=['identification is complete only up to repeated first-appearance relabelling, as existing tests pin'])
SPEC['C17'] = dict(builds=['asan', 'tsan'], rule='random inflated networks and histories of moment/localizing/extended matrices (suggested, arbitrary, repeated, reducible, zero and one scalars; with and without threads), dictionaries, rulebooks and tensors: after every step the whole factor table against an independent factorisation, every extended entry against the multiset of factors of its row and column generators, products, suggestions, substituted entries and tensor entries evaluated on independent classical sources; distinct by network and history',
   assumptions=['random sources are generic', 'value rules are taken from an actual distribution'])
SPEC['C18'] = dict(builds=['asan', 'tsan'], rule='finite groups (signed permutations, rotations, affine outcome flips, party/measurement/outcome relabellings, Cliffords, adjoint swaps) acting on free, locality, algebraic (commuting, anticommuting, projector, with adjoints), Pauli and inflation systems: generated set against own closure, representation of every word length against products of images of letters, every symbol, polynomial and matrix entry against the group average computed on words, target symbols against the rank of the averages; distinct by system and generators',
   assumptions=['generators act as automorphisms of the scenario', 'floating-point group elements are compared to 1e-7'])
SPEC['C22'] = dict(builds=['asan', 'tsan'], rule='every container driven through random histories next to a reference sequence, set or map and compared in full after every step; every enumerator compared element by element with brute-force enumeration, random access against iteration; queue and object store by several threads with exactly-once, order, lost-wakeup and key-uniqueness monitors; distinct by history or parameters',
   assumptions=['element types are trivially destructible, as everywhere in the library', 'iterators are used within their asserted preconditions'])
SPEC['C20'] = dict(builds=['asan', 'tsan'], rule='several threads issue shuffled, overlapping requests (dictionary levels, matrices of every kind, tensors, rulebooks, derived systems, extended matrices) on one system with random pauses, next to readers holding the read lock; object identity across threads, re-reading of earlier results, comparison with an identical system used by one thread, liveness by time limit; under AddressSanitizer and ThreadSanitizer; distinct by workload and observed order of events',
   assumptions=['threads follow the documented protocol: look-ups that return references into tables happen under the read lock', 'schedules are those the OS produces with random pauses'])
SPEC['C21'] = dict(builds=['asan', 'tsan'], rule='random histories of valid requests, repeats, raw requests, clones, deletions, rulebooks and substitutions on every kind of system, interleaved with failing requests; after every step each promised index, object, description and content is read back; an identical system that never sees the failing requests must give the same matrices; faults injected into the context at a chosen call with and without worker threads; distinct by history',
   assumptions=['deletion is exercised for matrices that no description refers to, as its documentation requires', 'a failing request may leave behind additional symbols, or matrices it needed, but nothing existing may change'])
SPEC['C19'] = dict(builds=['asan'], rule='random histories of imports (real, complex, symmetric, Hermitian; signs, phases and conjugates; consistent and spoilt), deletions, rulebooks and substitutions on real and complex systems, and every 2x2 Hermitian/symmetric pattern over a few entries: acceptance and the reality of every symbol against an own solver of the structural constraints; after each step all entries, flags, numeric bases and basis numbering of all matrices against the literal content on random assignments; distinct by history',
   assumptions=['a symmetric or Hermitian matrix has the same symbol (possibly conjugated, scaled) at mirrored positions', 'a structure that forces a symbol to zero, or on a line other than the real or imaginary axis, is to be refused'])
SPEC['C23'] = dict(builds=['asan'], rule='every alphabetic name up to 40000 and around every change of length, every Unicode code point, random factors, words of every scenario with every sign under every formatter, polynomials in every display mode: compared with names computed from the description of the scenario, and read back by an independent reader that evaluates them on random values of the words; name tables, measurement and outcome names, rules, matrix descriptions; distinct by text',
   assumptions=['coefficients are shown to the precision of the stream', 'symbol numbers are displayed with the hash sign (without it a number and a symbol look alike)', 'custom names do not themselves end in digits'])

SPEC['C24'] = dict(builds=['asan'], rule='arguments just inside and just outside every range, and extreme ones (0, -1, limit, limit+1, wrap-around of 16, 32 and 64 bits, NaN, infinities, empty and oversized lists), at the public request entry points of every part of the library, mixed into otherwise valid sequences of calls: the domain is computed from the description of the scenario; valid calls must be accepted with the right result, invalid ones refused, neither may upset the sanitizers, and the objects must still answer properly afterwards; distinct by argument',
   assumptions=['accessors documented as unchecked (operators [] and functions marked noexcept with asserted preconditions) are only given valid arguments', 'exhaustion of memory by enormous but representable requests is not judged'])
