ASSUME_COMMON = [
    "x86-64 Linux, glibc, gcc 13 (the flags of the repository's build; -O1 with sanitizers)",
    "the oracle models in /verif/harness are correct",
]
PROPS = {
    "C01": dict(
        units=["m_avl"],
        rule="a case is a random history of put/pop/detach/remove/copy/search operations on one to "
             "three trees (8 shapes of history, 4 comparator scalings), judged against std::map after "
             "every operation; non-trivial if a tree held more than three keys; distinct by the hash "
             "of the operation sequence; sweeps count every distinct toggle sequence of k keys",
        must_see=["avl.put.new", "avl.put.replace", "avl.put.same", "avl.pop", "avl.detach",
                  "avl.remove", "avl.copy", "avl.search", "avl.traverse"],
    ),
    "C02": dict(
        units=["m_avl"],
        rule="as C01; the monitored comparator records the stored keys each search compares with, and "
             "their number is judged against the largest height of an AVL tree of that size",
        must_see=["path.judged"],
    ),
}
PROPS["C03"] = dict(units=["m_hash"],
    rule='a case is a random history of put/pop/detach/remove/pop_any/traversal on tables of capacity hints 0 to thousands and hash functions from perfect to constant, judged against a reference map after every operation; sweeps: one big table, hash functions on equal and different keys; distinct by the hash of the operation sequence, trivial if no key was ever put',
    must_see=["hash.put.new","hash.put.replace","hash.put.same","hash.pop","hash.detach","hash.remove","hash.pop_any","hash.traverse","hash.traverse.lookup","hash.waves","hash.functions"])
PROPS["C04"] = dict(units=["m_list"],
    rule='a case is a random history of append/prepend/insert/remove/pop/copy/foreach on up to three lists, judged against std::vector after every operation by walking it both ways; the sweep runs every operation sequence of bounded length; distinct by the operation sequence',
    must_see=["list.append","list.prepend","list.insert","list.remove","list.pop_first","list.pop_last","list.copy","list.audit"])
PROPS["C05"] = dict(units=["m_priorq"],
    rule='a case is a random history of enqueue/dequeue/peek/pop/remove with and without relocation callbacks, judged against a multiset and against the locators last announced; the sweep runs all insertion orders of small queues; distinct by the operation sequence',
    must_see=["pq.enqueue","pq.enqueue.again","pq.dequeue","pq.peek","pq.pop","pq.remove","pq.waves"])
PROPS["C06"] = dict(units=["m_intset"],
    rule='a case is a random history of add/remove/fill/find on a set of random size, judged against a vector<bool> with all elements audited; the sweep takes every size up to a bound; distinct by the operation sequence',
    must_see=["intset.add","intset.add.outside","intset.remove","intset.fill","intset.find","intset.huge"])
PROPS["C07"] = dict(units=["m_bytearray"],
    rule='a case is a random history of append/copy/append_stream/resize/clear/share/destroy with faulty streams, self-sources and sizes around max_size, judged against a byte-string model with the NUL and the maximum; sweeps: all short histories, arrays beyond 2 and 4 GiB; distinct by the operation sequence',
    must_see=["ba.append","ba.append.nospace","ba.append.self","ba.copy","ba.copy.gap","ba.copy.nospace","ba.copy.self","ba.stream","ba.stream.error","ba.stream.nospace","ba.resize","ba.share","ba.unshare","ba.huge","ba.beyond4g"])
PROPS["C08"] = dict(units=["m_base64"],
    rule='a case encodes random bytes into exact buffers of random size with random code characters 62 and 63, judged against an independent encoder; sweeps: all lengths and destination sizes up to a bound, sizes near overflow, inputs beyond 4 GiB; distinct by input and parameters',
    must_see=["b64.encode.whole","b64.encode.short","b64.encode.none","b64.size.overflow","b64.encode.simple"])
PROPS["C09"] = dict(units=["m_base64"],
    rule='a case decodes a valid, mutated or random text with random destination size, terminator, code characters and whitespace option, judged against an independent acceptor/decoder; sweeps: all texts of up to 3 characters and all 4-character groups of a reduced alphabet; distinct by input and parameters',
    must_see=["b64.decode.accept","b64.decode.reject","b64.decode.simple"])
PROPS["C17"] = dict(units=["udata", "m_ucd"], data=True,
    rule='the sweep asks for category, case mappings, combining class and normal-form flags of all 1,114,112 code points, compared with the Unicode 13.0 database (committed copy); cases query them in random order; distinct by code point',
    must_see=["ucd.codepoint", "ucd.lower", "ucd.upper", "ucd.mark", "ucd.nf", "ucd.unassigned", "ucd.random"])
PROPS["C19"] = dict(units=["udata", "m_ucd"], data=True,
    rule='the sweep asks for all status predicates, the status name and the mapping of all 1,114,112 code points, compared with the UTS #46 table (committed copy); distinct by code point',
    must_see=["idna.codepoint", "idna.mapping"])
PROPS["C12"] = dict(units=["udata", "m_utf8", "m_huge"], data=True,
    rule='the sweeps decode every string of up to 3 bytes and every 4-byte string of the critical ranges, encode every code point and every number around the limits into every output size; cases judge random and mutated texts; all against an independent decoder; distinct by input',
    cxxflags={"m_utf8": ["-O2"], "udata": ["-O2"]}, must_see=["huge.text", "utf8.decode.short", "utf8.decode.four", "utf8.encode", "utf8.encode.noroom", "utf8.text.valid", "utf8.bounded.valid"])
PROPS["C13"] = dict(units=["udata", "m_utf8", "m_huge"], data=True,
    rule='a case sanitizes a random, mutated or structured byte string, judged against an independent implementation (each offending byte replaced); the sweep takes all strings of up to 2 bytes and critical longer ones; distinct by input',
    must_see=["huge.text", "sane.call", "sane.valid", "sane.replaced"])
O2U = {"udata": ["-O2"], "m_norm": ["-O2"]}
PROPS["C14"] = dict(units=["udata", "m_norm", "m_huge"], data=True,
    rule='a case normalizes random text (rich in marks, composites, Hangul) into exact buffers of every or random size, judged against an independent NFD; sweeps: every code point alone and between marks, all pairs of marks of different classes; distinct by input',
    cxxflags=O2U, must_see=["huge.text", "nfd.noroom", "nfd.exact", "nfd.idempotent", "nfd.illegal", "nfd.cut", "nfd.decomposed", "nfd.markpairs", "nfd.long"])
PROPS["C15"] = dict(units=["udata", "m_norm", "m_huge"], data=True,
    rule='as C14 for NFC of canonically decomposed text; sweeps: every composite, every pair that composes, all Hangul syllables, long runs of marks up to the documented hundred; distinct by input',
    cxxflags=O2U, must_see=["huge.text", "nfc.noroom", "nfc.composed", "nfc.same", "nfc.illegal", "nfc.cut", "nfc.hundred", "nfc.composite", "nfc.pairs", "nfc.hangul"])
PROPS["C16"] = dict(units=["udata", "m_norm", "m_huge"], data=True,
    rule='a case asks for the normal-form verdicts of random, normalized and flawed texts, judged against the quick-check algorithm of UAX #15 and against the reference normalizations; sweeps: every code point, pairs of marks; distinct by input',
    cxxflags=O2U, must_see=["huge.text", "detect.allowed", "detect.disallowed", "detect.maybe", "detect.error", "detect.disallowed.flawed", "detect.markpairs"])
PROPS["C18"] = dict(units=["udata", "m_idna", "m_huge"], data=True,
    rule='a case encodes a random, mapped, mutated, over-long or ill-formed hostname, judged against an independent UTS #46 / RFC 3492 implementation; the sweep puts every code point into a name in three ways; distinct by input',
    cxxflags={"udata": ["-O2"], "m_idna": ["-O2"]}, must_see=["huge.text", "idna.encode.exact", "idna.encode.ascii", "idna.encode.lenient", "idna.encode.longest", "idna.encode.finaldot", "idna.fail.utf8", "idna.fail.disallowed", "idna.fail.nothing", "idna.fail.hyphen", "idna.fail.label", "idna.fail.name", "idna.long"])
PROPS["C20"] = dict(units=["m_url", "m_huge"],
    rule='cases encode, decode and custom-encode random strings, judged against the documented table, an independent decoder and the inverse law; the sweep takes all bytes in all positions, all %XX pairs of bytes and single-character encoders; distinct by input',
    must_see=["huge.text", "url.encode", "url.decode.accept", "url.decode.reject", "url.decode.nul", "url.custom.create", "url.custom.destroy", "url.custom.encode", "url.inverse"])
PROPS["C21"] = dict(units=["m_str", "m_huge"],
    rule='cases split, strip and duplicate random strings in exact buffers, judged against independent splitters and the join law, with every array slot audited; the sweep takes all strings of a small alphabet up to a bound with all limits; distinct by input',
    must_see=["huge.text", "str.split.several", "str.split.limited", "str.split.many", "str.split.array", "str.split.str.several", "str.atoms", "str.atoms.none", "str.strip", "str.strip.all", "str.dup", "str.dupsub"])
PROPS["C22"] = dict(units=["m_str", "m_huge"],
    rule='the sweep takes all 256 bytes in several locales and all pairs of bytes; cases compare, skip prefixes and convert random strings, judged against independent definitions, also for antisymmetry and transitivity; distinct by input',
    must_see=["huge.text", "str.byte", "str.locales", "str.cmp", "str.cmp.casediff", "str.ncmp", "str.prefix.yes", "str.prefix.no", "str.suffix.yes", "str.suffix.no", "str.inplace", "str.inplace.all"])
PROPS["C23"] = dict(units=["m_date"],
    rule='the sweep takes the first, last and a random second of every day of 11,600 years and of 800 years at each end of the domain and every second of 16 days, judged by counting days; cases take random epochs in random time zones, judged by an independent calendar; distinct by epoch',
    cxxflags={"m_date": ["-mno-red-zone"]}, must_see=["date.call", "date.tz", "date.negative", "date.leapday", "date.far"])
PROPS["C24"] = dict(units=["m_date"], variants=["plain"],
    rule='a case single-steps four calls with the trap flag; at every, at one, or at some of the instruction boundaries the signal handler makes another call for the same, a near or any other time; both results, errno, the allocators and every control transfer out of the program are judged; evaluations count the nested calls; distinct by the times and the interruption mask',
    cxxflags={"m_date": ["-mno-red-zone"]}, must_see=["signal.instructions", "signal.nested", "signal.call"])
PROPS["C25"] = dict(units=["m_num"],
    rule='sweeps take all exponents with structured fractions and the floats around all powers of two and limits; cases take random patterns; each judged in 128-bit integer arithmetic for both target types with the destination watched; distinct by pattern',
    must_see=["float.signed", "float.unsigned", "float.negative", "float.refused"])
PROPS["C27"] = dict(units=["m_num"],
    rule='the sweep takes all pairs of boundary values; cases take random pairs and triples, judged by 64-bit comparison, round trips and the equality of hashes; distinct by value pair',
    must_see=["int.pair", "int.signs", "int.hash", "int.random"])
PROPS["C26"] = dict(units=["m_alloc"],
    rule="cases run random allocation histories under four recording, failing and scrambling reallocators and three counters that are replaced all the time, containers and strings under changing reallocators, the default reallocator's contents, and impossible requests in child processes; sweeps: release of freed blocks, zeroed blocks beyond 4 GiB; distinct by the operation sequence",
    must_see=["alloc.replace", "alloc.replace.counter", "alloc.skew", "alloc.alloc", "alloc.fail", "alloc.calloc", "alloc.calloc.zero", "alloc.calloc.overflow", "alloc.free", "alloc.free.null", "alloc.realloc", "alloc.realloc.zero", "alloc.realloc.fail", "alloc.users.calls", "alloc.default.realloc", "alloc.default.abort", "alloc.default.release", "alloc.huge"])
PROPS["C28"] = dict(units=["m_printf"],
    rule='a case formats a random format (flags, width, precision, length modifiers, all conversions) with up to six arguments, judged against vsnprintf, three times (variadic, stdarg, and with a copied argument list), also with a reallocator that disturbs errno; sweeps: all result lengths up to 5000 and around powers of two, results near INT_MAX; distinct by format',
    must_see=["printf.call", "printf.int", "printf.double", "printf.string", "printf.bounded", "printf.wide", "printf.errno", "printf.refused", "printf.manyargs", "printf.long", "printf.empty", "printf.lengths", "printf.huge", "printf.toolong"])
ALL_UNITS = ["udata", "m_avl", "m_hash", "m_list", "m_priorq", "m_intset", "m_bytearray", "m_base64", "m_ucd", "m_utf8", "m_norm", "m_idna", "m_url", "m_str", "m_date", "m_num"]
PROPS["C29"] = dict(units=ALL_UNITS + ["m_threads"], variants=["tsan", "plain"], shards=4, workers=4, data=True,
    rule="a case is a round: a fresh process in which 2 to 8 threads run cases of the other monitors (the same module, the same cases, random modules, or the pure functions on shared inputs), under ThreadSanitizer and in the plain build; a failure counts only if none of the threads' work fails alone; distinct by the round and the observed order in which the threads' cases began",
    cxxflags={"m_date": ["-mno-red-zone"]}, must_see=["thread.rounds", "thread.cases", "thread.shared"])
PROPS["C30"] = dict(units=["m_cxx", "m_cxx2"],
    rule="a case is a random history of construction, move, assignment, reset, release, swap, sharing, scope exit, unwinding and adoption of four wrappers of one of five kinds under three recording reallocators that are swapped, every object's blocks audited after each operation; the headers are compiled alone and together in three translation units; distinct by the operation sequence",
    preprobe="cxx_headers", must_see=["cxx.construct", "cxx.null", "cxx.destroy", "cxx.move", "cxx.assign", "cxx.reset", "cxx.reset.other", "cxx.release", "cxx.swap", "cxx.scope", "cxx.shared", "cxx.units"])
PROPS["C11"] = dict(units=["m_hostile"],
    rule='a case sends one hostile byte string through some 45 text functions, each time in a buffer that ends (or begins) at inaccessible memory, with random bounds and output sizes; sweeps: all strings of up to two bytes, of three from 17 critical bytes; distinct by the byte string, trivial if empty',
    must_see=["hostile.bytes", "hostile.nul", "hostile.long", "hostile.sweep", "hostile.verylong", "hostile.null"])
PROPS["C10"] = dict(units=ALL_UNITS + ["m_printf", "m_hostile", "m_own"], data=True,
    rule="a case is a history of one of the other monitors or a mixed history over all kinds of objects, judged by the monitoring reallocator alone: every block registered, freed once, canaries and sanitizer intact, none left at the end, no malloc-family call from the library's objects; cases another property's oracle condemns are counted apart and not judged; distinct by the operation sequence",
    cxxflags={"m_date": ["-mno-red-zone"], "udata": ["-O2"]}, must_see=["own.mixed", "own.destroy.full"])
PROPS["C29"]["units"] += ["m_hostile", "m_own"]
PROPS["C31"] = dict(units=["m_priorq"],
    rule='the workloads of C05 and queues hovering around every power of two, with the calls of the comparator and of the relocation callback counted in every single operation and judged against four times the height of the heap plus eight; distinct by the operation sequence',
    must_see=["cost.judged", "cost.large", "cost.hover"])
PROPS["C32"] = dict(units=["m_cost"],
    rule='a case fills a table of random capacity hint with up to three times as many keys (scrambled objects, numbered names, consecutive numbers), looks up present and absent ones, replaces all keys by others and all values, and judges the comparisons of each of these phases; distinct by the history',
    must_see=["cost.within", "cost.beyond", "cost.churn", "cost.big"])
PROPS["C33"] = dict(units=["m_cost"],
    rule='a case grows a byte array or a priority queue in small steps, or makes one string or list of a long text, under a reallocator that adds up the bytes requested, judged against 16 times the contents; the sweep grows them to 64 MiB; distinct by the history',
    must_see=["cost.array", "cost.queue", "cost.string", "cost.grown"])
PROPS["C34"] = dict(units=["m_nest"],
    rule='a case is a random history over two to nine objects of all kinds in which every comparator, hash function, relocation callback, reader and visitor may run operations on the other objects (and destroy and make some), to a depth of three, each judged by its own model; distinct by the history; evaluations count the nested operations',
    must_see=["nest.call", "nest.deep", "nest.pure", "nest.replaced"])
PROPS["C35"] = dict(units=["m_work"], variants=["work"],
    rule='a case is a random history of one list, tree, table, priority queue, integer set or byte array in which the basic blocks each single operation executes (and the bytes the C library passes over for it) are counted and judged against the constant, logarithmic or linear allowance of that operation; distinct by the history; the sweep does it with 131,000 to 262,000 elements',
    must_see=["work.constant", "work.logarithmic", "work.linear", "work.average", "work.search", "work.bytes", "work.big"])
PROPS["C36"] = dict(units=["m_work"], variants=["work"],
    rule='a case runs one text function on repetitions of a random pattern, once at some length and once at sixteen times that length, and judges the steps of the second run by those of the first; the sweep does so with every function at 64 KiB; distinct by function, length and pattern',
    must_see=["text.fixed", "text.grown", "text.short", "text.function"])
PROPS["C37"] = dict(units=["m_work"], variants=["plain"],
    rule='a case runs one text function, or the operations of one container, on a stack of its own that is zero before, and looks how deep it was written; every function with texts of 2 MiB and containers of 200,000 elements in the sweep; distinct by function, size and pattern',
    must_see=["stack.judged", "stack.large", "stack.marks"])

PROPS["C38"] = dict(units=ALL_UNITS + ["m_printf", "m_hostile", "m_own"], variants=["memcheck"], data=True,
    rule="a case is one of the cases of the other monitors, run under valgrind's memcheck with the library compiled without optimization and every fresh block marked as never written; the results are then looked at by those monitors' models, so that what they compare must be written as well; cases those models condemn are counted apart; distinct by the history or input",
    cxxflags={"m_date": ["-mno-red-zone"], "udata": ["-O2"]}, must_see=["memcheck.results-used"])

PROPS["C39"] = dict(units=ALL_UNITS + ["m_printf", "m_hostile", "m_own"], variants=["uchar", "clang", "gcc0", "plain"], reference="builds", data=True,
    rule="a case is one of the cases or sweeps of the other monitors, with the library compiled by another compiler, at another level of optimization or with unsigned characters; a complaint of the monitors counts if the same case passes in another of the builds (the shipped one is among them); distinct by the history or input",
    cxxflags={"m_date": ["-mno-red-zone"], "udata": ["-O2"]}, must_see=[])

PROPS["C40"] = dict(units=ALL_UNITS + ["m_printf", "m_hostile", "m_own"], variants=["plain"], reference="calm", data=True, locales=True,
    rule="a case is one of the cases or sweeps of the other monitors, in surroundings drawn for it: locale, time zone, rounding and denormal mode, errno on entry and after allocations; a complaint of the monitors counts if the same case passes in ordinary surroundings; that the surroundings are left as found is looked at after each case; distinct by the history or input",
    cxxflags={"m_date": ["-mno-red-zone"], "udata": ["-O2"]},
    must_see=["env.decimal-comma", "env.multibyte-locale", "env.8-bit-locale", "env.other-collation-or-case", "env.time-zone", "env.rounding", "env.flush-to-zero", "env.errno", "env.left-as-found"])

# the deciding method of each property, in a few words
TECHNIQUE = {
    "C01": "ASan/UBSan and plain runs; online reference-model monitor (std::map) over random and exhaustive histories",
    "C02": "monitored comparator counting compared keys per search over random, exhaustive and adversarial histories",
    "C03": "ASan/UBSan and plain runs; online reference-map monitor with adversarial hash functions",
    "C04": "ASan/UBSan and plain runs; online reference-sequence monitor over random and exhaustive histories",
    "C05": "ASan/UBSan and plain runs; multiset, priority and locator monitor over random and exhaustive histories",
    "C06": "ASan/UBSan and plain runs; online bit-vector reference monitor",
    "C07": "ASan/UBSan and plain runs; byte-sequence reference monitor with faulty readers and a moving reallocator",
    "C08": "ASan/UBSan runs in exact buffers; independent RFC 4648 encoder as online oracle",
    "C09": "ASan/UBSan runs in exact buffers; independent RFC 4648 acceptor/decoder as online oracle",
    "C39": "the other monitors' workloads and reference models on builds by gcc -O0, gcc -O3 with unsigned char, and clang",
    "C40": "the other monitors' workloads and reference models in varied locales, time zones, floating-point modes and errno values",
    "C38": "the other monitors' workloads under valgrind memcheck, fresh blocks and stack tracked bit by bit",
    "C10": "monitoring reallocator (registry, canaries, poison, moves) plus ASan and redirected malloc family",
    "C11": "ASan/UBSan and guard-page runs of all text functions on hostile bytes",
    "C12": "exhaustive and random runs against an independent UTF-8 codec, under ASan/UBSan",
    "C13": "runs against an independent sanitizer specification, under ASan/UBSan",
    "C14": "runs against an independent NFD built from the Unicode 13.0 database, exact buffers, ASan/UBSan",
    "C15": "runs against an independent NFC built from the Unicode 13.0 database, exact buffers, ASan/UBSan",
    "C16": "runs against the UAX #15 quick check and reference normalizations, ASan/UBSan",
    "C17": "exhaustive run over all code points against the Unicode 13.0 database",
    "C18": "runs against an independent UTS #46 + RFC 3492 encoder, ASan/UBSan",
    "C19": "exhaustive run over all code points against the UTS #46 table",
    "C20": "runs against the documented table, an independent decoder and the inverse law, ASan/UBSan",
    "C21": "runs against independent splitters and the join law in exact buffers, ASan/UBSan",
    "C22": "exhaustive byte runs in several locales; independent comparison oracle, ASan/UBSan",
    "C23": "day-counting sweep and independent calendar oracle in changing time zones, UBSan",
    "C24": "single-stepped execution with a re-entrant call injected at every instruction boundary",
    "C25": "structured and random bit patterns judged in 128-bit integer arithmetic, UBSan",
    "C26": "recording, failing and scrambling reallocators checked call by call against an allocation model",
    "C27": "boundary and random value pairs judged by 64-bit comparison",
    "C28": "random formats judged against vsnprintf, with a reallocator that disturbs errno, ASan/UBSan",
    "C29": "ThreadSanitizer and result-equality monitor over multi-threaded rounds in fresh processes",
    "C30": "recording reallocators and ownership ledger over random wrapper histories, ASan/UBSan; header compile probes",
    "C31": "callback-counting monitor over random, adversarial and large histories",
    "C32": "comparator-counting monitor over fills, lookups and replacements of all table sizes",
    "C33": "byte-counting reallocator over long growths, judged against the contents",
    "C35": "step-counting instrumentation (basic-block coverage and counted C library calls) over random and large histories",
    "C36": "step-counting instrumentation of text functions at two lengths of the same pattern",
    "C37": "stack high-water monitor: functions run on a zeroed stack of their own",
    "C34": "reference models of all objects, with operations on others injected into every callback",
}
