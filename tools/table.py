"""The properties and the checks that decide them (source of properties.jsonl and MANIFEST.json)."""

def P(id, title, statement, over, text, tests, files, mech, technique, note, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
            'why_tests_cant': tests, 'anchors': a, 'technique': technique, 'level_note': note}

DIFF = 'Random search, not a proof: it covers the generated systems (counts and samples in the evidence file). '
NEOGB = ['src/neogb/f4.c', 'src/neogb/update.c', 'src/neogb/symbol.c', 'src/neogb/la_ff_32.c', 'src/neogb/la_ff_16.c',
         'src/neogb/la_ff_8.c', 'src/neogb/hash.c', 'src/neogb/convert.c', 'src/neogb/order.c']
MS = ['src/msolve/msolve.c', 'src/fglm/fglm_core.c', 'src/msolve/hilbert.c', 'src/msolve/linear.c']

PROPS = [
P('C01', 'Groebner bases over prime fields',
  'For every finite list of polynomials over a prime field, asking for a Groebner basis prints the reduced Groebner basis of the '
  'ideal they generate with respect to the degree reverse lexicographic order in the order in which the variables are given: '
  'monic, inter-reduced, sorted, without missing or superfluous elements. This holds for 8, 16 and 32 bit characteristics, for '
  'every linear algebra option, hash table size, pair selection bound and SIMD code path; zero polynomials among the '
  'generators change nothing and the whole ring prints 1.',
  ['inputs', 'configurations'], 'all input systems over every prime field below 2^31, all linear algebra, hash table, pair selection '
  'and SIMD configurations',
  'The test suite compares a handful of fixed systems at fixed characteristics with stored outputs; 8 and 16 bit fields, non-default '
  'linear algebra, tiny hash tables, non-homogeneous and degenerate inputs are barely visited.',
  NEOGB + ['src/neogb/basis.c', 'src/msolve/iofiles.c'],
  [('F4 loop', 'src/neogb/f4.c core_f4'), ('pair update and criteria', 'src/neogb/update.c insert_and_update_spairs'),
   ('symbolic preprocessing', 'src/neogb/symbol.c'), ('finite field linear algebra', 'src/neogb/la_ff_8.c la_ff_16.c la_ff_32.c'),
   ('monomial hashing and ordering', 'src/neogb/hash.c src/neogb/order.c'), ('final reduction', 'src/neogb/f4.c reduce_final_basis')],
  'property-based testing: generated systems, differential against an independent Buchberger implementation plus certificate checks',
  DIFF + 'Oracle: an independent signature-free Buchberger implementation (lib/oracle.cpp) gives the unique reduced basis, output is '
  'compared term by term.', ['output of -g 2']),
P('C02', 'Elimination orders over prime fields',
  'For every input over a prime field and every block of k leading variables to eliminate, asking for a Groebner basis with '
  'elimination prints the reduced Groebner basis of the ideal with respect to the two-block elimination order (both blocks degree reverse '
  'lexicographic); in particular its elements free of the first k variables are the reduced Groebner basis of the elimination ideal. Nothing is '
  'missing, superfluous, or outside the ideal, whatever linear algebra, hash table size or code path is in use.',
  ['inputs', 'configurations'], 'all input systems over prime fields, all block sizes, all configurations of the linear algebra',
  'The suite has a few fixed elimination examples over one prime; block sizes, small fields and degenerate ideals are not covered.',
  NEOGB + ['src/msolve/msolve.c'],
  [('block elimination order comparison', 'src/neogb/order.c'), ('elimination basis reduction', 'src/neogb/f4.c'),
   ('restriction to the remaining variables', 'src/msolve/iofiles.c')],
  'property-based testing: differential against an independent Buchberger implementation with a block order',
  DIFF + 'Oracle: the reduced Groebner basis for the same block order from lib/oracle.cpp.', ['output of -e k -g 2']),
P('C03', 'Groebner bases over the rationals',
  'For every finite list of polynomials with integer or rational coefficients, asking for a Groebner basis in characteristic zero prints '
  'the reduced degree reverse lexicographic Groebner basis of the ideal they generate over the rationals, each element scaled to integer coefficients. '
  'The result does not depend on which random primes the modular computation uses, also when some of them are unlucky for the input: they '
  'are detected and discarded.',
  ['inputs', 'configurations', 'fault_sequences'], 'all rational input systems, all prime sequences including unlucky primes, all '
  'linear algebra options and SIMD paths',
  'Tests fix a few systems; primes are drawn from the clock, so an unlucky prime is practically never met, and coefficient growth is small.',
  ['src/msolve/lifting-gb.c', 'src/neogb/modular.c', 'src/msolve/primes.c', 'src/msolve/iofiles.c'] + NEOGB,
  [('tracer based multi-modular F4', 'src/neogb/modular.c, src/neogb/f4.c initialize_f4'),
   ('CRT and rational reconstruction with verification primes', 'src/msolve/lifting-gb.c'),
   ('bad prime detection', 'src/msolve/lifting-gb.c, src/neogb/f4.c compute_new_elements')],
  'property-based testing with injected unlucky primes: certificate checking of the output modulo independent 61-bit primes',
  DIFF + 'Coefficients divisible by the primes the run is going to draw are generated on purpose (the clock is controlled). The printed basis is '
  'compared with the reference basis modulo 61-bit primes outside of the range msolve uses and its shape is checked exactly.',
  ['output of -g 2 in characteristic 0']),
P('C04', 'Elimination ideals over the rationals',
  'For every rational input and every block of leading variables, asking for elimination in characteristic zero prints the reduced '
  'Groebner basis of the elimination ideal over the rationals with integer coefficients. A zero elimination ideal is reported as such, '
  'and unlucky primes do not change the answer.',
  ['inputs', 'configurations', 'fault_sequences'], 'all rational systems, block sizes and prime sequences',
  'One or two fixed examples exist; zero and unit elimination ideals, large blocks and unlucky primes are not tested.',
  ['src/msolve/lifting-gb.c', 'src/neogb/modular.c', 'src/neogb/order.c', 'src/msolve/msolve.c'],
  [('lifting restricted to the elimination part', 'src/msolve/lifting-gb.c'), ('block order', 'src/neogb/order.c')],
  'property-based testing with injected unlucky primes: reference basis comparison modulo independent primes',
  DIFF + 'Same oracle as C03 with a block order.', ['output of -e k -g 2 in characteristic 0']),
P('C05', 'Classification: no solution, finitely many, infinitely many',
  'For every polynomial system over the rationals or a prime field, solving reports an empty solution set exactly when the system has no '
  'solution over the algebraic closure, positive dimension exactly when it has infinitely many, and otherwise a finite description. '
  'The answer does not depend on options, variable order or the primes drawn.',
  ['inputs', 'configurations'], 'all systems, over the rationals and over prime fields, and all solver options',
  'A few fixed inputs of each kind; borderline systems (components at infinity, unit ideals detected late, monomial and linear '
  'systems, single variables) are not enumerated.',
  MS + ['src/msolve/iofiles.c'],
  [('dimension test from the leading monomials', 'src/msolve/hilbert.c'), ('output of the classification', 'src/msolve/iofiles.c')],
  'property-based testing: differential against the dimension computed from an independent Groebner basis',
  DIFF + 'Oracle: dimension from the reference Groebner basis over the same prime field, or modulo a 61-bit prime for rational inputs.',
  ['first entries of the printed solution']),
P('C06', 'Real solutions are enclosed exactly once',
  'For every system with finitely many complex solutions over the rationals, the printed boxes are in one-to-one correspondence with the real '
  'solutions: every real solution lies in its box, every box contains a real solution, no solution is missing, invented or repeated. This holds '
  'with multiple, close, huge, tiny and exactly rational solutions and for every permutation and linear change of the variables.',
  ['inputs', 'configurations'], 'all zero-dimensional systems over the rationals, all precisions and solver options',
  'The suite compares the textual output of a few systems; roots that are multiple, clustered, zero or dyadic and systems not in shape '
  'position are the hard cases and mostly absent.',
  MS + ['src/usolve/usolve.c', 'src/usolve/descartes.c', 'src/usolve/evaluate.c', 'src/usolve/refine.c', 'src/usolve/libusolve.h',
        'src/usolve/taylor_shift.c'],
  [('real root isolation', 'src/usolve/usolve.c'), ('evaluation of the parametrization at isolating intervals', 'src/msolve/msolve.c isolate_real_roots_param'),
   ('refinement until boxes are separated', 'src/msolve/msolve.c, src/usolve/refine.c')],
  'property-based testing: printed boxes matched against certified enclosures of all real solutions',
  DIFF + 'The parametrization printed with -P 2 for the same run is verified against the system modulo 61-bit primes and then certified root '
  'enclosures (interval arithmetic with exact sign tests) decide incidence; one recognised class of failures is a known finding.',
  ['printed boxes']),
P('C07', 'Requested precision of real solutions is honoured',
  'For every zero-dimensional rational system and every requested precision the printed boxes are as narrow as the precision demands and still contain the '
  'solutions; asking for more precision never loses, moves or merges solutions: the boxes of a higher precision run enclose the same '
  'solutions in the same number.',
  ['inputs', 'configurations'], 'all zero-dimensional rational systems with real solutions, all values of the precision option',
  'Tests run at the default precision only and compare text.',
  ['src/msolve/msolve.c', 'src/usolve/refine.c', 'src/usolve/evaluate.c'],
  [('precision driven refinement', 'src/msolve/msolve.c isolate_real_roots_param, src/usolve/refine.c')],
  'property-based testing: metamorphic relation between runs at different precisions, plus width and containment bounds',
  DIFF + 'Widths are bounded by what the code guarantees on the unchanged tree over long campaigns, with the tolerance stated in the check.',
  ['printed boxes with -p']),
P('C08', 'Rational parametrizations describe all complex solutions',
  'For every rational system with finitely many solutions the printed parametrization is correct: its eliminating polynomial is square-free with as many '
  'roots as the system has distinct complex solutions, substituting the parametrized coordinates satisfies every input equation, '
  'the printed linear form takes the value of the parameter at each solution and the degree is the number of solutions counted with multiplicity. This holds for every '
  'choice of primes, linear form strategy and change-of-order option.',
  ['inputs', 'configurations', 'fault_sequences'], 'all zero-dimensional rational systems, all prime sequences, all options that select or change linear forms',
  'Tests compare a few outputs; systems that need a new linear form, squares outside the staircase, unlucky primes or vanishing '
  'coordinates are rarely met.',
  MS + ['src/msolve/lifting.c', 'src/msolve/msolve-data.c', 'src/fglm/berlekamp_massey.c', 'src/fglm/linalg-fglm.c'],
  [('FGLM by a block Wiedemann style algorithm', 'src/fglm/fglm_core.c'), ('staircase and multiplication matrix', 'src/msolve/hilbert.c'),
   ('multi-modular lifting of the parametrization', 'src/msolve/msolve.c msolve_trace_qq'), ('choice of linear forms', 'src/msolve/linear.c')],
  'property-based testing with injected unlucky primes: substitution of the parametrization into the system modulo independent primes',
  DIFF + 'Identities are checked modulo one 61-bit prime, failures are confirmed modulo a second; one recognised class of failures is a known finding.',
  ['output of -P 1 and -P 2']),
P('C09', 'Parametrizations over prime fields',
  'For every system over a prime field in the supported range with finitely many solutions over the algebraic closure, the printed parametrization has a monic '
  'square-free eliminating polynomial whose degree is the number of distinct solutions, satisfies every input equation after substitution, and '
  'reports the number of solutions with multiplicity and the linear form in use correctly.',
  ['inputs', 'configurations'], 'all zero-dimensional systems over prime fields between 2^16 and 1518500213, all solver options',
  'The suite has a few prime field systems in generic position compared textually.',
  MS + ['src/fglm/berlekamp_massey.c', 'src/fglm/linalg-fglm.c'],
  [('FGLM', 'src/fglm/fglm_core.c'), ('multiplication matrix', 'src/msolve/hilbert.c'), ('choice of linear forms', 'src/msolve/linear.c')],
  'property-based testing: exact substitution of the parametrization into the system over the field',
  DIFF + 'Exact oracle over the same field; primes below 2^16 are outside of the domain because no separating linear form may exist.',
  ['output over a prime field']),
P('C10', 'Normal forms',
  'For every system over a prime field and every list of targets, asking for normal forms prints for each target, in the order given, the unique remainder '
  'modulo the ideal with respect to the monomial order in use: zero exactly for members of the ideal, supported on standard monomials, and congruent to '
  'the target. This holds when the generators are declared to be a Groebner basis already, with elimination orders, and for every linear algebra option.',
  ['inputs', 'configurations'], 'all prime fields, generators, target lists (members, multiples, random, zero, constants), orders and options',
  'Tests contain two or three fixed normal form calls with generic data.',
  NEOGB + ['src/neogb/nf.c', 'src/msolve/msolve.c'],
  [('normal form computation', 'src/neogb/nf.c core_nf'), ('selection of multiples', 'src/neogb/symbol.c'),
   ('application of the reducers', 'src/neogb/la_ff_32.c')],
  'property-based testing: differential against independent division by the reference Groebner basis',
  DIFF + 'Normal forms are unique, so outputs are compared term by term.', ['output of -n']),
P('C11', 'Saturation',
  'For every system over a prime field of 17 to 31 bits and every polynomial f, asking for the saturation prints the reduced Groebner basis of the ideal of all h with '
  'h*f^k in the ideal for some k: nothing outside of it and nothing missing, for principal ideals, ideals of any dimension, ideals that '
  'are already saturated and ideals whose saturation is the whole ring.',
  ['inputs', 'configurations'], 'all systems over prime fields of 17 to 31 bits, all polynomials f, all options',
  'Three stored examples in generic position; small, principal, non-monic or already saturated inputs are not covered.',
  ['src/neogb/f4sat.c'] + NEOGB,
  [('F4SAT loop', 'src/neogb/f4sat.c core_f4sat'), ('kernel computation', 'src/neogb/la_ff_32.c compute_kernel_sat_ff_32'),
   ('test for saturation', 'src/neogb/f4sat.c is_already_saturated')],
  'property-based testing: differential against an independent saturation by an auxiliary variable',
  DIFF + 'Oracle: elimination of t from F, 1-t*f in lib/oracle.cpp. A recognised incompleteness in positive dimension is a known finding.',
  ['output of -S -g 2']),
P('C13', 'Thread count and schedule do not influence the result',
  'For every input and every thread count, and for every interleaving of the threads in the linear algebra, the modular computations, the change of order '
  'and the root isolation, the program terminates with the same correct result as with one thread: no lost or duplicated pivot, no use of a pivot row before '
  'it is complete, no state shared between threads by accident.',
  ['inputs', 'schedules'], 'all inputs, 2 to 12 threads, all schedules with preemption at memory accesses of the code under test',
  'The suite runs with one thread, or with the few schedules the machine happens to produce on small inputs.',
  ['src/neogb/la_ff_8.c', 'src/neogb/la_ff_16.c', 'src/neogb/la_ff_32.c', 'src/neogb/la_qq.c', 'src/neogb/convert.c', 'src/neogb/update.c', 'src/neogb/hash.c', 'src/neogb/modular.c',
   'src/neogb/f4sat.c', 'src/msolve/msolve.c', 'src/fglm/linalg-fglm.c', 'src/usolve/taylor_shift.c', 'src/usolve/descartes.c'],
  [('publication of new pivots by compare and swap', 'src/neogb/la_ff_8.c src/neogb/la_ff_16.c src/neogb/la_ff_32.c'),
   ('kernel elements in a critical section', 'src/neogb/la_ff_32.c'), ('parallel computations modulo several primes', 'src/msolve/msolve.c'),
   ('per-thread buffers', 'src/neogb/la_ff_32.c src/fglm/linalg-fglm.c src/usolve/taylor_shift.c')],
  'property-based testing with generated schedules: a seeded scheduler replaces the OpenMP runtime (lib/sched.c)',
  'Threads are coroutines; the schedule (seed, preemption rate) is part of the generated case and replays exactly. Results are judged by the oracle of '
  'the check the input comes from, or compared with the single-threaded result.',
  ['output and exit status under each schedule']),
P('C14', 'Every rendering of a system means the same system',
  'For every polynomial system and every way the input format allows to write it down (white space, line breaks, carriage returns, several polynomials per '
  'line, a trailing comma, any order of terms and factors, explicit exponents 0 and 1, explicit coefficients 1, leading zeros, rational, negative and unreduced '
  'coefficients of any size, zero terms and zero polynomials, variable names of any length including names that are prefixes of each other), the program reads '
  'exactly that system: the result is the one of the plainest rendering, with the variables under the names given.',
  ['inputs'], 'all systems over the rationals and prime fields, all admissible renderings',
  'All test inputs use the same plain layout, short variable names and small reduced coefficients.',
  ['src/msolve/iofiles.c', 'src/neogb/io.c'],
  [('scanning of the header, variables and terms', 'src/msolve/iofiles.c get_data_from_file'), ('conversion of coefficients', 'src/msolve/iofiles.c get_coeffs_and_exponents_mpz'),
   ('import of generators', 'src/neogb/io.c')],
  'property-based testing: metamorphic relation between random renderings of one system, differential against the reference basis',
  DIFF + 'Over prime fields the result is compared with the independent reference basis, over the rationals with the result for the plain rendering.',
  ['output of -g 2 on the rendered text']),
P('C15', 'Valid input never causes a memory error',
  'For every valid input file and every combination of documented options, the program runs to completion without reading or writing outside of allocated '
  'memory, using freed memory, or executing undefined operations (signed overflow, out-of-range indices, division by zero, invalid values), and exits with status 0; the '
  'result is the same as that of an ordinary build.',
  ['inputs', 'configurations'], 'all valid inputs, all documented options',
  'The suite runs without instrumentation on a handful of inputs; overruns by a few elements go unnoticed there.',
  NEOGB + ['src/neogb/f4sat.c', 'src/neogb/nf.c', 'src/neogb/modular.c', 'src/msolve/iofiles.c', 'src/msolve/lifting-gb.c', 'src/msolve/lifting.c',
           'src/fglm/fglm_core.c', 'src/usolve/usolve.c', 'src/usolve/refine.c'],
  [('growth of hash tables, matrices, pair sets and bases', 'src/neogb/hash.c src/neogb/symbol.c src/neogb/update.c src/neogb/basis.c'),
   ('buffers of the input parser', 'src/msolve/iofiles.c'), ('saturation and kernels', 'src/neogb/f4sat.c'),
   ('FGLM buffers', 'src/fglm/fglm_core.c')],
  'property-based testing under AddressSanitizer and UndefinedBehaviorSanitizer: generated systems and options of all other checks',
  DIFF + 'The sanitized build is scalar; the result of each run is judged by the oracle of the check the case was taken from.',
  ['exit status and sanitizer reports']),
P('C16', 'Library interface: histories of calls',
 'In one process, for every sequence of calls of the exported functions export_f4, export_groebner_qq, export_nf and msolve_julia, with any mix of fields, '
 'variable counts, monomial orders (degree reverse lexicographic, lexicographic, elimination), hash table sizes, thread counts, bounds on the number of '
 'pairs, hash table resets, linear algebra variants and reduction flags, each call returns the Gröbner basis, normal forms or solutions of its own '
 'input - independent of the calls before it - in the documented array layout, allocated with the allocator handed in, with monic elements sorted by '
 'leading monomial and terms in decreasing order, and leaves the input arrays unmodified.',
 ['inputs', 'histories', 'configurations'], 'call sequences of length 1 to 7 over generated systems, all orders and flags',
 'No test calls the library; state surviving a call (global function pointers set per field and order, static seeds) cannot show in one call per process.',
 ['src/neogb/f4.c', 'src/neogb/nf.c', 'src/neogb/io.c', 'src/neogb/order.c', 'src/msolve/lifting-gb.c', 'src/msolve/msolve.c'],
 [('export_f4', 'src/neogb/f4.c'), ('export_nf', 'src/neogb/nf.c'), ('export_data, return_zero, set_function_pointers', 'src/neogb/io.c'),
  ('export_groebner_qq', 'src/msolve/lifting-gb.c'), ('msolve_julia', 'src/msolve/msolve.c'), ('lexicographical comparisons', 'src/neogb/order.c')],
 'stateful property-based testing: random call histories against per-call reference results',
 'Each call of a random history, made by a small harness with a tagging allocator, is compared with the reference Gröbner basis, normal forms or '
 'solutions computed for it alone.',
 ['arrays returned by each call, input arrays before and after']),
P('C17', 'Real root isolation of univariate polynomials',
  'For every square-free univariate polynomial with integer coefficients the root isolation returns as many pairwise disjoint, '
  'increasingly sorted isolating intervals as the polynomial has distinct real roots; each contains exactly one root, roots reported as '
  'exact are roots, the numbers of negative and non-negative roots are right, and every interval is at most as wide as the requested '
  'precision allows. This holds for clustered, dyadic, huge, tiny and zero roots, for every degree and for every thread count.',
  ['inputs', 'configurations'], 'all square-free integer polynomials, all precisions and thread counts',
  'No test exercises the isolation directly; end to end tests reach it with a few polynomials of moderate size.',
  ['src/usolve/usolve.c', 'src/usolve/descartes.c', 'src/usolve/evaluate.c', 'src/usolve/refine.c', 'src/usolve/taylor_shift.c',
   'src/usolve/libusolve.h'],
  [('Descartes bisection', 'src/usolve/usolve.c bisection_rec'), ('Taylor shift', 'src/usolve/taylor_shift.c'),
   ('refinement of intervals', 'src/usolve/refine.c'), ('root bounds', 'src/usolve/usolve.c')],
  'property-based testing: generated polynomials against an exact oracle (Sturm root count plus exact sign changes over every interval)',
  DIFF + 'The number of roots comes from a Sturm sequence, every interval is checked by exact signs at its end points.',
  ['return value of real_roots']),

P('C18', 'Leading ideals and truncated bases',
  'For every system, over prime fields and over the rationals, with and without elimination: printing only leading monomials (-g 1) gives '
  'exactly the minimal generators of the leading ideal (the leading monomials of the reduced basis that -g 2 prints, 1 for the whole ring), '
  'a basis truncated to k elements (-N k) consists of the k smallest elements of the basis that is printed without truncation, and the '
  'header names the characteristic, the variables, the monomial order and the number of elements of what follows.',
  ['inputs', 'configurations'], 'all systems in the supported input domain, all monomial orders, numbers of elements and options',
  'The tests contain no run with -N and one leading ideal; which elements a truncated computation returns depends on the order the basis grows in.',
  ['src/msolve/iofiles.c', 'src/msolve/lifting-gb.c', 'src/neogb/io.c', 'src/msolve/main.c'],
  [('printing of leading monomials and headers', 'src/msolve/iofiles.c print_msolve_polynomials_ff'), ('truncation', 'src/msolve/lifting-gb.c truncate_lifting, gb_modpoly_init')],
  'property-based testing: generated systems, leading ideals and truncations compared with a reference Buchberger implementation',
  DIFF + 'The complete reduced basis comes from the reference; leading monomials and the first k elements are compared with it.',
  ['output file of -g 1 and -N']),
]

NA = {}
NOTES = ''
