COMMON_ASSUMPTIONS = [
    "NTL (polynomial arithmetic, MinPolySeq, IterIrredTest, kernel) computes what it documents",
    "the harnesses are compiled with the sandbox's g++ -std=c++17 -O2, unset automatic variables and heap memory filled with a pattern",
]
CHECKS = {}
NOT_APPLICABLE = {}


def check(prop, level="model_checking", rule="", bounds="", technique="", note="", units=(), assumptions=()):
    CHECKS[prop] = dict(level=level, rule=rule, bounds=bounds, technique=technique, note=note,
                        units=list(units), assumptions=list(assumptions))


check("C01",
      technique="explicit-state enumeration of all linear registers, real code vs Krylov/BM reference",
      bounds="all sequences of linear complexity <= 8 (quick) / 10 (thorough) from every start state; all transition "
             "matrices up to 3x3 (4x4 thorough), every state and state bit; every bit position of 16/32/64-bit outputs for "
             "complexity <= 5/6 with exact and over-long size arguments; all trinomial registers at lengths around machine "
             "word sizes up to 160 (521 thorough); irreducible trinomial registers of 10 Mersenne degrees from 521 to 44497, mirrored, "
             "from 4 states, declared with 6 amounts of slack",
      rule="a case is a linear machine with a start state; non-trivial when the true minimal polynomial has degree >= 1",
      note="Complete for every bit sequence of linear complexity within the bound; larger generators only through the "
           "trinomial families.",
      units=[dict(name="c01", src="c01.cpp")])
check("C02",
      technique="exhaustive enumeration of polynomials, real verdicts vs sieve and explicit order",
      bounds="every polynomial of degree <= 16 (19 thorough) in every calling form; every trinomial of degree <= 127; every "
             "pentanomial of degree 31 (61, 32, 64 thorough); every trinomial of degree 521, 607, 1279, 2281, 3217 (4423); "
             "cyclotomic polynomials of degree up to 4374; isMexp below 26 million; for each of the 17 "
             "built-in lists a primitive polynomial, and for each prime q of 2^d-1 an irreducible polynomial of order (2^d-1)/q",
      rule="a case is a polynomial; non-trivial when it is irreducible",
      note="Complete below the degree bound; above it the enumerated families.",
      units=[dict(name="c02", src="c02.cpp")])
check("C03",
      technique="exhaustive enumeration of polynomials and degrees, real verdict and factor vs sieve factorisation",
      bounds="every polynomial of degree <= 14 (17 thorough) with every degree above half its own; products of 9 large "
             "irreducible trinomials with every cofactor of degree <= 6 (9); products of two trinomials",
      rule="a case is a polynomial; non-trivial when a factor of the asked degree exists",
      note="Complete below the degree bound.",
      units=[dict(name="c03", src="c03.cpp")])
check("C04",
      technique="exhaustive enumeration of all integers / all table entries against recomputed number theory",
      bounds="every integer below 2^28 and the top 2^21 32-bit integers (all 2^32 thorough); every entry of the 17 lists",
      rule="a case is a range of integers or a list entry; non-trivial when it contains an exponent or is an entry",
      note="The list of Mersenne exponents below 25964951 is a published complete list, recomputed up to 1300 (4500).",
      units=[dict(name="c04", src="c04.cpp")])
check("C05",
      technique="explicit-state enumeration of linear machines, real k(v) vs rank definition",
      bounds="every cyclic module F2[t]/m, m of degree <= 5 (8 thorough) including singular ones, with every output map of "
             "<= 12 (16) functionals in 16/32/64-bit words; every matrix up to 3x3 (4x4) with every start state; full-width words "
             "whose bits are every geometric family of functionals for 5 (10) moduli; windows of registers up to 60 (63) bits",
      rule="a case is a linear machine (module, output map, start state, word type, accuracy); non-trivial when k(1) > 0",
      note="Every linear generator with one output stream is a cyclic module with functionals, so below the size bound the space "
           "is complete up to isomorphism; two definitions of k(v) (enumeration of states, stream rank) are cross-checked.",
      units=[dict(name="c05", src="c05.cpp")])
check("C06",
      technique="explicit-state enumeration of reducible machines, real code vs module arithmetic",
      bounds="every matrix up to 3x3, state and polynomial of degree <= 5 (7 thorough); every module of degree 6 (8) with every "
             "polynomial; x^i and x^i+x^j up to i = 1100; every module of degree <= 6 (7) observed through every pair of its "
             "submodules, from every divisor as starting polynomial; every coprime pair of an irreducible f of degree <= 6 (7) "
             "and q of degree <= 4 with all or an evenly spaced subset of output maps of <= 3 bits; lcm of all pairs below degree 7 (8)",
      rule="a case is a machine (with a polynomial or a factor); non-trivial when the result is neither trivial nor zero",
      note="Complete for the small modules. The starting polynomial of the characteristic polynomial is always a divisor of it, "
           "as in every caller; components are checked for invertible transitions.",
      units=[dict(name="c06", src="c06.cpp")])
check("C07",
      technique="explicit-state enumeration of reducible machines and all their states, real parity search vs invariant subspace",
      bounds="every invertible matrix up to 4x4 with every simple irreducible factor and 5 check words, every state and orbit; "
             "direct sums of an irreducible f of degree <= 6 (8) and cofactors of degree <= 10 in 6 twisted bases; word-oriented "
             "generators of 2 or 3 16-bit and 2 32-bit words for every triple of shifts (a third of them in quick)",
      rule="a case is a machine with its check word; non-trivial when a parity vector was found and checked",
      note="Complete for all invertible matrices within the size; larger ones by family. Assumes, as the search does, that the "
           "factor is simple, the transition invertible and the complement smaller than the check word.",
      units=[dict(name="c07", src="c07.cpp")])
check("C08",
      technique="explicit-state exploration of all candidate histories and budget splits, real search vs reference",
      bounds="6-7 alphabets of 6 candidate kinds (primitive, irreducible, reducible, smaller, singular, invisible), every stream "
             "of 4-5 (5-6 thorough) candidates with every split of the budget; every module of degree 3..13 as a candidate",
      rule="a case is a candidate stream; non-trivial when some call succeeds",
      note="Complete up to the stream length for the alphabets.",
      units=[dict(name="c08", src="c08.cpp")])
check("C09",
      technique="explicit-state exploration of all candidate histories and budget splits, real search vs reference",
      bounds="3 alphabets of 5-6 candidate kinds (factor with and without cofactor, cofactor not observed, factor not observed, "
             "wrong degrees, singular), every stream of 4-5 (5-6 thorough) candidates with every split of the budget; every module "
             "of degree 3..10 (12) as a candidate for every exponent above half of it",
      rule="a case is a candidate stream; non-trivial when some call succeeds",
      note="Complete up to the stream length for the alphabets, and for all single candidates up to the degree.",
      units=[dict(name="c09", src="c09.cpp")])
check("C10",
      technique="exhaustive re-judgement of every step of the real search over a family of small tempered generators",
      bounds="21 (27 thorough) configurations of word type, tempering width (full or shorter than the word), parameter count 1..4, "
             "tried bits, step and bit order, times 96 generators each (6-12 moduli, 4 spacings, 4 shift sets), zero and non-zero "
             "initial parameters, stale preparation and reversed order on entry; all patterns of every step",
      rule="a case is a configuration with a generator; non-trivial when the patterns of some step differ in defect",
      note="Each step is judged on the choices the search itself made before it, so ties are free. Complete for the enumerated family.",
      units=[dict(name="c10", src="c10.cpp")])
check("C11",
      technique="exhaustive level-wise reference search compared with the real search over a family of small tempered generators",
      bounds="one and two tempering parameters, 8-15 x 5-8 shift pairs for 16-bit words and chosen ones for 32- and 64-bit words, "
             "depth limits 0..12 (14 thorough), times 27-90 generators (moduli, spacings, folds), with non-zero initial "
             "parameters, stale preparation and reversed order on entry; every candidate of every level; one level with three "
             "and four parameters against every choice of the top bits",
      rule="a case is a configuration with a generator; non-trivial when candidates of some level differ in defect",
      note="Complete for the enumerated family; deeper levels with at most two parameters, the number the class documents as tested.",
      units=[dict(name="c11", src="c11.cpp")])
check("C13",
      technique="explicit-state exploration of operation histories, real generators vs reference streams",
      bounds="every history of 4 (5 thorough) operations over 12 (integer, array and string seeds, copy, assignment, short and long runs of "
             "32- and 64-bit draws crossing every wrap of the buffer); every one-bit seed and complement with 5 (20) buffer cycles; "
             "every array length up to 70 past the state size (twice the state size); strings of every length below 64 (1248); a "
             "run of 10^6 (2*10^7) draws",
      rule="a case is a history or a seeding; non-trivial when something is drawn after it",
      note="The reference is std::mt19937(_64) for the recurrence with initialisers written from the published definition and checked "
           "against published values. Seed arrays and strings are non-empty and strings are ASCII.",
      units=[dict(name="c13", src="c13.cpp")])
check("C14",
      technique="explicit-state exploration of operation histories, real counter vs model",
      bounds="every history of 5 (6-7 thorough) operations over 9 (three draw forms, three reseedings, copy, assignment, switch to copy) from 4 start "
             "values and 3 masks for 8/16/32/64-bit counters; complete countdowns from every 8-bit value and 600 wider ones; every "
             "mask of the 8-bit counter; starts around every power of two; the form without arguments in memory of any content",
      rule="a case is a history; every history draws and is non-trivial",
      note="Complete for 8-bit counters; the wider ones share the code and are explored near 0 and around powers of two.",
      units=[dict(name="c14", src="c14.cpp")])
check("C15",
      technique="explicit-state enumeration of linear and non-linear machines and fault positions, real verdict vs definition",
      bounds="all linear machines of <= 3 state bits and <= 3 output functionals from every pair of seed states; all 65536 machines "
             "with 4 states and arbitrary next-state and output tables; a fault of every output bit at every one of the first 103 "
             "outputs for every subset of the four streams compared; every imperfect copy of a 4-bit machine",
      rule="a case is a machine; all are non-trivial",
      note="Complete for the machine sizes. A violation first seen after the hundredth output may be accepted or rejected.",
      units=[dict(name="c15", src="c15.cpp")])
check("C12",
      technique="explicit-state exploration of candidate streams and tempering outcomes, real reported figures vs the machine left",
      bounds="every module of degree 3..8 (10 thorough) as a candidate before a good one with 10 modes (verbosity, low-bit stage, single "
             "searcher, reporting low-bit order) and 2 searches; every subset of 4-6 (8-10) tempering bits left by the stages at 3-6 "
             "shifts; every stream of 4 (6) candidates; good candidates around and past the rounds of trials; four pairs of the "
             "library's own searchers",
      rule="a case is a candidate, outcome or stream; non-trivial when a search succeeded and its figures were compared",
      note="Complete for the families. Streams always hold a good candidate, as the search does not stop without one.",
      units=[dict(name="c12", src="c12.cpp")])
check("C24",
      technique="explicit-state exploration of reducible machines, candidate streams and modes, real reported figures vs the machine left",
      bounds="products of every irreducible f of degree 2..7 (8 thorough; an evenly spaced subset from degree 6 in quick) with every "
             "cofactor of degree 1..5 below it, 3 kinds of seed state, 3 word types, 10 modes (verbosity, low-bit stage, single searcher, "
             "order) and 2 searches each; machines parts of which some output bits do not show, with cofactors also larger than the factor; larger products of 18-20 bits; every stream of 4 (6) candidates over 6 kinds; good candidates "
             "around the rounds of trials; four pairs of the library's own searchers",
      rule="a case is a machine or stream; non-trivial when a search succeeded and its figures were compared",
      note="Complete for the families. Accepted candidates have invertible steps and the exponent exceeds half of the state size.",
      units=[dict(name="c24", src="c24.cpp")])
check("C19",
      technique="exhaustive enumeration of word values and patterns, real helpers vs their definitions",
      bounds="every 16-bit and every 32-bit value for counting, locating and reversing; wider words by all one- and two-bit patterns, runs, "
             "all two-byte patterns and the complements of these; every position and value for bit access; every n below 2^22 and "
             "around all powers of two for floor2p; 2800 ranges with negative and wide bounds; every table size up to 32 and all powers of two "
             "to 1024; every pair of polynomials of degree <= 8 (10 thorough); every polynomial below degree 12 and families to 200 printed",
      rule="a case is a block of values; non-trivial unless all are zero",
      note="Complete for 16- and 32-bit words; 64-bit words by pattern.",
      units=[dict(name="c19", src="c19.cpp")])
check("C20",
      technique="exhaustive enumeration of patterns, shift counts and positions, real operators vs 128-bit integers",
      bounds="all one- and two-bit patterns (three-bit thorough), all runs, six dense words in every rotation, and the complements, with every "
             "shift 0..127 and bit position; operators on 4 million pairs; every mask length 0..128; both samples' copies of the type",
      rule="a case is a block of patterns; all are non-trivial",
      note="The operators act bitwise or on whole halves, so the patterns excite every carry between halves.",
      units=[dict(name="sfmt", src="c20.cpp", inc=["samples/sfmtdc"]), dict(name="dsfmt", src="c20.cpp", inc=["samples/dSFMTdc"])])

_S = [("mt1", ["-DGEN_MT1"], "MTDC"), ("mt2", ["-DGEN_MT2"], "MTDC"), ("mtgp", ["-DGEN_MTGP"], "MTGPDC"), ("tinymt", ["-DGEN_TINY"], "TinyMTDC"),
      ("rmt", ["-DGEN_RMT"], "RMT"), ("sfmt", ["-DGEN_SFMT"], "sfmtdc"), ("dsfmt", ["-DGEN_DSFMT"], "dSFMTdc")] + \
     [("xorshift%d" % k, ["-DGEN_XS=%d" % k], "XORSHIFT") for k in (2, 3, 4, 5)]
check("C16",
      technique="explicit-state exploration of operation histories and of a complete basis of states, real objects vs superposition",
      bounds="11 classes; small sizes (89..640 state bits) of the parametrised ones with several positions and tables each; a spanning set of "
             "states made by adding real objects; every live bit alone at every position, pairs of bits for states under 200 bits; every "
             "cancelled sum at every position; sums for every pair of positions of two cycles; every output width in both bit orders; all "
             "histories of 5 (6 thorough) operations over 20 on two objects; SFMT and dSFMT also over all histories of 4 (5) operations "
             "including start and weight modes, and every previous word of one or two bits; assignments in these histories and between objects of "
             "different sizes for the classes that have them; objects of another class (TinyMT: also every one-bit change of the parameters) "
             "offered for adding at every position; MT19937 through its module structure: 2178 "
             "(all 19937) one-bit states at each of 624 positions; sums, their undoing and copies for 15 x 15 pairs of positions and every one-bit state "
             "of the sizes the creators are made for, 11213..44497 (2203..216091)",
      rule="a case is a configuration with a position, width or history prefix; non-trivial when the configuration is observable",
      note="Complete for the histories and for one-bit states of the listed configurations. That a zero test is right on the states in between "
           "rests on its reading state bits. Zero is claimed only where the outputs determine the state.",
      units=[dict(name=n, src="c16.cpp", flags=f, inc=["samples/" + d]) for n, f, d in _S])
check("C17",
      technique="exhaustive enumeration over bases of states and parameter grids, real outputs vs the published recurrence",
      bounds="for 10 classes, windows of 3n+8 outputs from more states than the dimension, all in the output space of the recurrence "
             "(89..1279 bits); TinyMT from every state of at most two bits and complements; every (a,b,c) of xorshift-3 and every pattern of "
             "xorshift-4; MT, MTGP, RMT, SFMT and dSFMT sequences of three cycles for 6-15 exponents up to 216091 with 8-24 parameter sets; "
             "stand-alone xorshift from every state of at most two bits, 2^27 (2^32 thorough) seeds and all small keys of up to 20 words",
      rule="a case is a parameter set or block; all are non-trivial",
      note="For linear objects (C16) agreement on a basis is agreement on every state. The real objects are reached by seeding and stepping.",
      units=[dict(name=n, src="c17.cpp", flags=f, inc=["samples/" + d]) for n, f, d in _S] +
            [dict(name="xorshift128", src="c17.cpp", flags=["-DGEN_X128", "-fno-operator-names"], inc=["samples/XORSHIFT"], extra=["samples/XORSHIFT/xorshift128.c"])])
check("C18",
      technique="explicit-state enumeration of SIMD machines and of components of real parameter sets, real k(v) vs rank definition",
      bounds="every module F2[t]/m, deg m <= 3 (4 thorough), with every choice of one visible bit per element; modules of degree up to 23 (31) with "
             "arithmetic families of functionals on up to 32 bits per element in 3 twists and two start states; real SFMT / dSFMT parameter sets of "
             "2..5 words projected to each simple factor, products of two and the whole (components up to 520 / 1400 bits); 32-, 64- and "
             "128-bit elements from both ends (SFMT), 52-bit (dSFMT); every accuracy",
      rule="a case is a machine or component; non-trivial when some k(v) is not a whole number of words",
      note="The definition is evaluated on the stream of elements of every start position separately.",
      units=[dict(name="sfmt", src="c18.cpp", flags=["-DGEN_SFMT"], inc=["samples/sfmtdc"]), dict(name="dsfmt", src="c18.cpp", flags=["-DGEN_DSFMT"], inc=["samples/dSFMTdc"])])
check("C22",
      technique="exhaustive enumeration of parity and check words on real objects; fixed point vs explicit affine model",
      bounds="every one- and two-bit parity vector and 80 (400 thorough) dense ones with every lowest bit, against 0, all ones, every single bit "
             "(every 13th for pairs in quick), dense words, the vector and its complement, for 5 fixed points with and without using it; 24 vectors for sizes 4253..44497 (..216091); fixed points of every "
             "simple component of 44 (207) small dSFMT parameter sets, and of the parameter sets created from the first 24 (1600) seeds for 521",
      rule="a case is a parity vector or a parameter set; non-trivial when a state had to be corrected or the fixed point is not zero",
      note="States are reached by seeding and adding one-bit states. The fixed point is compared with the only one the affine model reproduces.",
      units=[dict(name="sfmt", src="c22.cpp", flags=["-DGEN_SFMT"], inc=["samples/sfmtdc"]),
             dict(name="dsfmt", src="c22.cpp", flags=["-DGEN_DSFMT"], inc=["samples/dSFMTdc"], extra=["samples/dSFMTdc/calc_fixpoint.cpp", "samples/dSFMTdc/Annihilate.cpp"])])
check("C23",
      technique="exhaustive enumeration of draw streams, identifiers and field values; printed line read back and rebuilt into a generator",
      bounds="8 classes, 1-7 exponents each: every one-bit word, its complement and dense words at every position of the draw stream over 4 "
             "backgrounds; all 65536 identifiers of mt2, and for 32-bit identifiers all one- and two-bit ones and all 65536 low and high halves, with "
             "2-3 (12 thorough) draws; every value of every documented range; every pair of free bits of a set; every draw of xorshift-3 and -4; every fixed dSFMT shift; every one-bit "
             "value of every field of the four parameter classes, copied and assigned, over 3 backgrounds",
      rule="a case is a block of draws, identifiers or a field value; all are non-trivial",
      note="The line is read by an independent reader with the field names of the header; a generator rebuilt from the line alone must give the same "
           "outputs. A trailing comma is allowed, as the programs append further fields.",
      units=[dict(name=n, src="c23.cpp", flags=f, inc=["samples/" + d]) for n, f, d in _S if n not in ("mt1", "xorshift2", "xorshift5")] +
            [dict(name="mtgp_sha", src="c23.cpp", flags=["-DGEN_MTGP", "-DUSE_SHA"], inc=["samples/MTGPDC"], libs=["-lcrypto"]),
             dict(name="sfmt_fixed", src="c23.cpp", flags=["-DGEN_SFMT", "-DSFMT_PARAM_FIXED"], inc=["samples/sfmtdc"])])
check("C21",
      technique="stateless exploration of schedules: calculations nested in, preempted by and interleaved with each other, vs each alone",
      bounds="48 calculations (52 thorough) covering every algorithm class, the twisters, the counter and copies of them, plus 9 with 128-bit "
             "generators of each SIMD sample; every ordered pair in sequence (every triple thorough); one whole calculation inside every generator "
             "call of the other (every k-th call for long pairs); every schedule with two preemptions for pairs up to a cost limit; switching at "
             "every s-th call, s <= 4 (12); all interleavings of all operation lists of length 3 (2 for twisters; one more thorough) on two objects; "
             "for 12 sample classes all interleavings of all lists of 2 of 13 operations (3 thorough for the first two) on two objects of "
             "every pair of up to 5 (8) configurations; 18 to 24 procedures of each of 6 samples (polynomials, component, parity, fixed point, "
             "certified start, dimensions, tempering, search; on 2 or 3 sets of parameters, 6 or more thorough), every ordered pair one after another and back again; "
             "copies and assignments of equidistribution objects before and after use, 15 programs on each",
      rule="a case is a pair of calculations under one kind of schedule, or a list of operations; all are non-trivial",
      note="Switches happen at calls of generator members, draws and object boundaries, on one operating system thread. The oracle of a calculation is "
           "its own result in a process of its own. Each case runs in a forked child.",
      units=[dict(name="core", src="c21.cpp"), dict(name="sfmt", src="c21.cpp", flags=["-DGEN_SFMT"], inc=["samples/sfmtdc"]),
             dict(name="dsfmt", src="c21.cpp", flags=["-DGEN_DSFMT"], inc=["samples/dSFMTdc"])] +
            [dict(name="objects_" + n, src="c21o.cpp", flags=f, inc=["samples/" + d]) for n, f, d in _S] +
            [dict(name="procedures_" + n, src="c21s.cpp", flags=f, inc=["samples/" + d], extra=["samples/%s/%s" % (d, e) for e in x]) for n, f, d, x in
             [("rmt", ["-DGEN_RMT"], "RMT", []), ("sfmt", ["-DGEN_SFMT"], "sfmtdc", ["Annihilate.cpp"]),
              ("dsfmt", ["-DGEN_DSFMT"], "dSFMTdc", ["Annihilate.cpp", "calc_fixpoint.cpp", "calc_parity.cpp"]),
              ("tinymt", ["-DGEN_TINY"], "TinyMTDC", []), ("mt2", ["-DGEN_MT2"], "MTDC", []), ("mtgp", ["-DGEN_MTGP"], "MTGPDC", [])]] +
            [dict(name="objects_xorshift128", src="c21o.cpp", flags=["-DGEN_X128", "-fno-operator-names"], inc=["samples/XORSHIFT"], extra=["samples/XORSHIFT/xorshift128.c"])])

# the programs that create parameters; the longest units first
_G = [("mtgp", "-DGEN_MTGP", "MTGPDC", "MTGP32dc.cpp", ["parse_opt.cpp"]), ("mt2", "-DGEN_MT2", "MTDC", "", []),
      ("dsfmt", "-DGEN_DSFMT", "dSFMTdc", "dSFMTdc.cpp", ["Annihilate.cpp", "calc_fixpoint.cpp"]),
      ("sfmt", "-DGEN_SFMT", "sfmtdc", "sfmtdc.cpp", ["Annihilate.cpp"]),
      ("sfmt_fixed", "-DGEN_SFMT -DSFMT_PARAM_FIXED=1", "sfmtdc", "sfmtdcfixed.cpp", ["Annihilate.cpp"]),
      ("rmt", "-DGEN_RMT", "RMT", "rmt64dc.cpp", []), ("tinymt", "-DGEN_TINY", "TinyMTDC", "tinymt32dc.cpp", ["parse_opt.cpp"]),
      ("xorshift3", "-DGEN_XS=3 -fno-operator-names", "XORSHIFT", "", []), ("xorshift4", "-DGEN_XS=4 -fno-operator-names", "XORSHIFT", "", [])]
check("C26",
      technique="exhaustive exploration of command lines of the real creator programs, every printed set vs the published recurrence",
      bounds="9 programs: for 1 to 24 (160 thorough) exponents, identifiers and seeds the list of up to 4 sets, every shorter list, every bound "
             "on the defect at which the list changes, verbose, to a file, in both option spellings and orders; tinymt32dc's complete list from 12 "
             "starts; the complete lists of xorshift-3 and -4; every exponent from -5 to 700 (50000) and around every Mersenne exponent; "
             "54 identifiers around the powers of two; counts of two digits and with leading zeros; two MTGP sets shown verbosely into a file; a list of wrong and right options",
      rule="a case is an exponent, identifier and seed with all command lines for it, or a block of command lines; all are non-trivial",
      note="Each set is rebuilt from its printed line alone with the published recurrence: full period by NTL, defects by rank, characteristic polynomial, "
           "weight, parity vector and fixed point from their definitions. Each program runs as a process, in a scratch directory.",
      units=[dict(name=n, src="c26.cpp", flags=f.split() + (['-DPROG="%s"' % p] if p else []), inc=["samples/" + d], extra=["samples/%s/%s" % (d, e) for e in x])
             for n, f, d, p, x in _G])

# the programs that examine a given set
_X = [("sfmt_equidist", "-DGEN_SFMT -DCALC=3", "sfmtdc", "calc_equidist.cpp", ["Annihilate.cpp"]),
      ("dsfmt_equidist", "-DGEN_DSFMT -DCALC=5", "dSFMTdc", "calc_equidist.cpp", ["Annihilate.cpp"]),
      ("sfmt_period", "-DGEN_SFMT -DCALC=4", "sfmtdc", "test_period.cpp", ["Annihilate.cpp"]),
      ("rmt_equidist", "-DGEN_RMT -DCALC=1", "RMT", "calc_equidist.cpp", []), ("rmt_period", "-DGEN_RMT -DCALC=2", "RMT", "calc_period.cpp", []),
      ("dsfmt_fixpoint", "-DGEN_DSFMT -DCALC=6", "dSFMTdc", "calc_fixpoint_main.cpp", ["Annihilate.cpp", "calc_fixpoint.cpp", "printBinary.cpp"]),
      ("dsfmt_parity", "-DGEN_DSFMT -DCALC=61", "dSFMTdc", "calc_parity_main.cpp", ["Annihilate.cpp", "calc_parity.cpp", "printBinary.cpp"]),
      ("mt1", "-DGEN_MT1 -DCALC=7", "MTDC", "", []), ("xorshift1", "-DCALC=9 -fno-operator-names", "XORSHIFT", "xorshift-1.cpp", []),
      ("xorshift2", "-DGEN_XS=2 -DCALC=8 -fno-operator-names", "XORSHIFT", "", []), ("xorshift5", "-DGEN_XS=5 -DCALC=8 -fno-operator-names", "XORSHIFT", "", []),
      ("sfmt_linearity", "-DGEN_SFMT -DCALC=11 -DOWN_MAIN", "sfmtdc", "test_linearity.cpp", []), ("dsfmt_linearity", "-DGEN_DSFMT -DCALC=12 -DOWN_MAIN", "dSFMTdc", "test_linearity.cpp", []),
      ("dsfmt_period", "-DGEN_DSFMT -DCALC=4", "dSFMTdc", "calc_period.cpp", ["Annihilate.cpp"]),
      ("sfmt_parity", "-DGEN_SFMT -DCALC=61 -DMAIN", "sfmtdc", "calc_parity.cpp", []),
      ("mtgp_linearity", "-DCALC=13", "MTGPDC", "test_linearity.cpp", []),
      ("dsfmt_oldform", "-DGEN_DSFMT -DCALC=14", "dSFMTdc", "make_old_format.cpp", ["Annihilate.cpp", "printBinary.cpp"]),
      ("xorshift128", "-DCALC=15 -DOWN_MAIN -fno-operator-names", "XORSHIFT", "xorshift128_main.c", ["xorshift128.c"])]
check("C27",
      technique="exhaustive exploration of the calculator programs over parameter sets and all sets one field away, vs the published recurrence",
      bounds="18 programs: 13 RMT, 20 SFMT and 28 dSFMT sets made by the creators or published, in every form of the command line; every set "
             "one field away (every shift and position, every bit of every mask; in quick of 4 sets, of 1 for the SFMT dimensions), most of which lack the "
             "period and have to be refused; missing and wrong arguments; the tables of mt1 and of xorshift-1, -2 and -5, "
             "the outputs of xorshift128",
      rule="a case is a parameter set; all are non-trivial",
      note="Dimensions by rank, fixed point and parity from their definitions, out of the recurrence alone; the table of MT19937 is the published one.",
      units=[dict(name=n, src="c27.cpp", flags=f.split() + (['-DPROG="%s"' % p] if p else []), inc=["samples/" + d], extra=["samples/%s/%s" % (d, e) for e in x],
                  libs=["-Wl,--wrap=main"] if "OWN_MAIN" in f else [])
             for n, f, d, p, x in _X])

# The explorations of the other properties again, with every execution monitored for memory errors and undefined behaviour.
_M = dict(C12=3, C06=3, C07=11, C16=13, C18=23, C02=3, C21=13, c21_core=61, c21_procedures_sfmt=17, c21_procedures_dsfmt=17, c21_procedures_rmt=11, c23_mtgp_sha=17, c23_mtgp=11, C14=7, c22_dsfmt=5, c23_mt2=5, C19=5, C24=3, C20=7, C15=5, C04=5, C08=3,
          C10=3, C11=3, c17_xorshift128=5)       # odd, so that no dimension of a case list is skipped


def _monitored():
    us = []
    for p in sorted(CHECKS):
        for u in CHECKS[p]["units"]:
            n = p.lower() + ("" if u["name"] == p.lower() else "_" + u["name"])
            us.append(dict(u, name=n, tier="quick", stride=dict(quick=_M.get(n, _M.get(p, 1)), thorough=1)))
    return us


check("C25",
      technique="the explorations of all other properties repeated with every execution monitored by AddressSanitizer, LeakSanitizer and UBSan",
      bounds="the quick case lists of the other properties (in quick, of the long ones every k-th case, k <= 61 and stated per unit; every case thorough)",
      rule="a case is a case of another property's exploration; non-trivial as there",
      note="Monitored: accesses outside or after the life of stack, heap and static objects, wrong deallocation, signed overflow, oversized shifts, division by "
           "zero, bad bool/enum values, null and misaligned accesses; memory lost when the whole exploration of a unit is over. Left shifts of negative values "
           "(defined since C++20) are not reported, nor is what the programs still hold when they end.",
      units=_monitored())
CHECKS["C25"]["cxx"] = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=shift-base", "-fno-sanitize-recover=all", "-DMC_SAN"]
