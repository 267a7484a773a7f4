"""Which harness builds and runs decide which property."""
THOROUGH_FACTOR = 12

HARNESSES = {
    "net_netio": dict(src="h_net.cpp", flags=["-DP_NETIO"]),
    "net_hsio":  dict(src="h_net.cpp", flags=["-DP_HSIO"]),
    "fault":     dict(src="h_fault.cpp"),
    "mem":       dict(src="h_memfile.cpp", flags=["-DP_MEM"]),
    "typed":     dict(src="h_memfile.cpp", flags=["-DP_TYPED"]),
    "aes":   dict(src="h_crypto.cpp", flags=["-DP_AES"]),
    "prg":   dict(src="h_crypto.cpp", flags=["-DP_PRG"]),
    "fresh": dict(src="h_crypto.cpp", flags=["-DP_FRESH"]),
    "hash":  dict(src="h_crypto.cpp", flags=["-DP_HASH"]),
    "prp":   dict(src="h_crypto.cpp", flags=["-DP_PRP"]),
    "mit":   dict(src="h_crypto.cpp", flags=["-DP_MIT"]),
    "f2k":   dict(src="h_field.cpp", flags=["-DP_F2K"]),
    "conv":  dict(src="h_field.cpp", flags=["-DP_CONV"]),
    "int":    dict(src="h_int.cpp", flags=["-DP_INT"]),
    "sort":   dict(src="h_int.cpp", flags=["-DP_SORT"]),
    "intw":   dict(src="h_int.cpp", flags=["-DP_INT", "-DBV_WORDS=36"]),   # widths 258..2058
    "reveal": dict(src="h_int.cpp", flags=["-DP_REVEAL", "-DBV_WORDS=80"]),
    "float":  dict(src="h_float.cpp", float=True),
    "bristol": dict(src="h_bristol.cpp", flags=["-DP_BRISTOL"]),
    "gen":     dict(src="h_bristol.cpp", flags=["-DP_GEN"]),
    "incirc":  dict(src="h_incirc.cpp", circ=True),
    "gc":      dict(src="h_gc.cpp"),
    "pool":    dict(src="h_pool.cpp", ldflags=["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE,--wrap=_ZNSt18condition_variable10notify_oneEv,--wrap=_ZNSt18condition_variable10notify_allEv"]),
    "threads": dict(src="h_threads.cpp", float=True, circ=True),
    "group": dict(src="h_field.cpp", flags=["-DP_GROUP"]),
}

def J(harness, variant, part="all", **k):
    return dict(harness=harness, variant=variant, part=part, **k)

SAN = "Sanitizer builds use -O1; the native builds of the same workload use the project's instruction-set flags."
SSL = "OpenSSL's EVP implementations are the trusted reference."

PROPS = {}
def prop(pid, rule, jobs, assumptions=(), **k):
    PROPS[pid] = dict(rule=rule, jobs=jobs, assumptions=list(assumptions), **k)

prop("C01", "distinct = sessions (random bidirectional scripts) with different content keys; evaluations = channel operations executed and monitored",
     [J("net_netio", "nat", shards=3, scale=100, timeout=250), J("net_netio", "asan", scale=40, timeout=250), J("net_netio", "tsan", scale=25, timeout=250), J("net_netio", "nat", "huge", timeout=250)],
     ["The kernel's loopback TCP is correct.", SAN], min_evals=500)
prop("C02", "distinct = sessions (random turn sequences); evaluations = turns",
     [J("net_hsio", "nat", shards=3, scale=100, timeout=250), J("net_hsio", "asan", scale=40, timeout=250), J("net_hsio", "nat", "huge", timeout=250)],
     ["Only turn-based histories are generated, as the channel requires.", SAN], min_evals=100)
prop("C03", "distinct = operation histories hashed by operation sizes; evaluations = operations",
     [J("mem", "nat", shards=2, scale=150), J("mem", "asan", scale=60), J("mem", "nat", "huge")], [SAN], min_evals=5000)
prop("C04", "distinct = (length, sender alignment, receiver alignment, content kind, call form) tuples plus mixed typed sessions",
     [J("typed", "nat", scale=300), J("typed", "nobmi2", scale=100), J("typed", "asan", scale=100), J("typed", "asan_nobmi2", scale=100), J("typed", "nat", "huge")], [SAN], min_evals=5000)
prop("C05", "distinct = fault scenarios (channel, role, bytes delivered, bytes asked, way of dying) and audits",
     [J("fault", "nat", "peers", shards=2, timeout=300), J("fault", "nat", "files", timeout=200), J("fault", "nat", "fds", timeout=300),
      J("fault", "asan", "peers", timeout=300, scale=30), J("fault", "asan", "fds", timeout=300, scale=40)],
     ["A wait is called endless after 45 s without an outcome, twice."], min_evals=100)
prop("C06", "distinct = (key, shape) cases", [J("aes", "nat", "aes", scale=200), J("aes", "clang", "aes"), J("aes", "o3", "aes"), J("aes", "asan", "aes")], [SSL, SAN], min_evals=1000)
prop("C07", "distinct = request histories and requests hashed by kind, size and alignment", [J("prg", "nat", "prg", scale=200), J("prg", "clang", "prg"), J("prg", "asan", "prg"), J("prg", "nat", "huge")], [SSL, SAN], min_evals=1000)
prop("C08", "distinct = first output blocks observed", [J("fresh", "nat", "fresh"), J("fresh", "rdseed", "fresh", optional=True), J("fresh", "tsan", "fresh", scale=5), J("fresh", "nat", "runs"), J("fresh", "rdseed", "runs", optional=True), J("fresh", "asan", "fresh", scale=5)],
     ["Collisions among the observed seeds are the only evidence of low entropy when the seed is not exposed."], min_evals=100)
prop("C09", "distinct = chunking histories", [J("hash", "nat", "hash", scale=200), J("hash", "asan", "hash"), J("hash", "nat", "huge")], [SSL, SAN], min_evals=500)
prop("C10", "distinct = (key, batch size, aliasing, scratch) cases with random inputs", [J("prp", "nat", "prp", scale=200), J("prp", "clang", "prp"), J("prp", "asan", "prp"), J("prp", "nat", "huge")], [SSL, SAN], min_evals=500)
prop("C11", "distinct = call histories", [J("mit", "nat", "mit", scale=200), J("mit", "clang", "mit"), J("mit", "asan", "mit")], [SSL, SAN], min_evals=500)
prop("C12", "distinct = operand pairs, 256-bit values reduced and vectors", [J("f2k", "nat", scale=300), J("f2k", "clang"), J("f2k", "o3"), J("f2k", "asan", scale=50)], [SAN], min_evals=10000)
prop("C13", "distinct = (dimensions, content kind) matrices and converted values", [J("conv", "nat", scale=400), J("conv", "o3", "big"), J("conv", "clang"), J("conv", "asan")], [SAN], min_evals=5000)
prop("C14", "distinct = operand tuples (points by encoding, scalars by value) and malformed encodings", [J("group", "nat", scale=4000, shards=3), J("group", "asan", scale=150)], ["Plain BIGNUM modular arithmetic is the trusted base of the reference curve.", SAN], min_evals=500)
prop("C15", "distinct = (operation, width, operands) batches of 128 operand pairs and random programs", [J("int", "nat", "arith", shards=3, scale=600), J("int", "clang", "arith", scale=200), J("intw", "nat", "arith", scale=80), J("int", "asan", "arith", scale=60)], ["Multi-word reference arithmetic of the harness.", SAN], min_evals=10000)
prop("C16", "distinct = (operation, width, operands) batches of 128 operand pairs and random programs", [J("int", "nat", "cmp", shards=3, scale=600), J("int", "clang", "cmp", scale=200), J("intw", "nat", "cmp", scale=600), J("int", "asan", "cmp", scale=60)], ["Multi-word reference arithmetic of the harness.", SAN], min_evals=10000)
prop("C17", "distinct = (length, key width, direction, payload) arrays, 128 executions each", [J("sort", "nat", scale=400), J("sort", "nat", "big", timeout=250), J("sort", "asan", scale=60)], [SAN], min_evals=2000)
prop("C18", "distinct = (type, width, value, party, reveal form) cases", [J("reveal", "nat", scale=400), J("reveal", "pattern", scale=100), J("reveal", "asan", scale=100)], [SAN], min_evals=2000)
FPU = "The processor's IEEE single-precision arithmetic (SSE, round to nearest) is the reference."
prop("C19", "distinct = batches of 128 operand tuples per operation; evaluations = operand tuples", [J("float", "nat", "arith", shards=4, scale=1500), J("float", "nat", "roots", shards=4, tshards=2), J("float", "asan", "arith", scale=60)], [FPU, SAN], min_evals=1000000)
prop("C20", "distinct = batches of 128 operand pairs", [J("float", "nat", "cmp", shards=4, scale=1000), J("float", "asan", "cmp", scale=60), J("reveal", "nat", scale=400)], [FPU, SAN], min_evals=1000000)
prop("C21", "distinct = batches of 128 arguments per function", [J("float", "nat", "elem", shards=4, scale=1000), J("float", "nat", "binades", shards=8), J("float", "asan", "elem", scale=60)], ["glibc's long double functions are the reference.", SAN], min_evals=1000000)
prop("C22", "distinct = (circuit, buffer mode) executions, 128 inputs each, plus rounds of the shipped circuits", [J("bristol", "nat", "random", shards=2, scale=1000), J("bristol", "nat", "shipped", scale=1000), J("bristol", "asan", scale=200)], [SSL, SAN], min_evals=100000)
prop("C23", "distinct = random programs and the circuits written for them, each evaluated on 128 inputs", [J("gen", "nat", shards=3, scale=1000), J("gen", "clang", scale=300), J("gen", "asan", scale=150)], ["Inputs are fed before the first gate, as the format requires (in any order of the parties: input wires are numbered as fed, the header counts each party's); each program has at least one secret input.", SAN], min_evals=10000)
prop("C24", "distinct = (form, mode, length, start chunk) and (message length, form, pieces) cases, 128 executions each", [J("incirc", "nat", shards=2, scale=300), J("incirc", "asan", scale=30), J("incirc", "nat", "huge")], [SSL, "The Keccak-f circuit comes from tools/keccak_circuit.py because the project ships none.", "Chunk numbers stay below 2^64.", SAN], min_evals=10000)
GC = "Input labels are handed to the evaluator by the harness, in place of oblivious transfer."
prop("C25", "distinct = random programs and gate sequences; evaluations = wires whose labels were compared on both sides", [J("gc", "nat", "halfgates", shards=3, scale=800), J("gc", "clang", "halfgates", scale=200), J("gc", "asan", "halfgates", scale=100)], [GC, SAN], min_evals=100000)
prop("C26", "distinct = random programs and gate sequences; evaluations = wires whose labels were compared on both sides", [J("gc", "nat", "privfree", shards=3, scale=800), J("gc", "clang", "privfree", scale=200), J("gc", "asan", "privfree", scale=100)], [GC, "Zero-labels of inputs have low bit 0, as the scheme requires.", SAN], min_evals=100000)
prop("C27", "distinct = sessions by offset and first set-up block, and random programs", [J("gc", "nat", "transcript", shards=2, scale=400), J("gc", "asan", "transcript", scale=60)], [GC, "Only exact combinations of up to three visible blocks are searched for secrets.", SAN], min_evals=100000)
prop("C28", "distinct = interleavings observed (order in which tasks ran and on which worker, per history) and shapes of barrier, order, ping-pong and stopping rounds; evaluations = tasks",
     [J("pool", "nat", shards=3, scale=800), J("pool", "cxx20", scale=500), J("pool", "tsan", shards=2, scale=200), J("pool", "tsan_cxx20", scale=200), J("pool", "asan", scale=400, leaks=1)],
     ["Delays and spurious wake-ups are injected around the pool's lock, wait and notify calls.", "A task that has not run after 40 s is taken as lost.", SAN], min_evals=5000)
prop("C29", "distinct = (kind of session, seed) executed both alone and beside others; evaluations = sessions, hand-overs and backend steps",
     [J("threads", "thr", shards=2, scale=150), J("threads", "nat", scale=100), J("threads", "tsan_thr", shards=2, scale=50), J("threads", "tsan", scale=50), J("threads", "asan_thr", scale=60)],
     ["Sessions are compared with the same session run alone on a fresh thread.", SAN], min_evals=500)

# C30: every workload again, judged only by the memory monitors (ASan + UBSan + LeakSanitizer, and memcheck for uninitialised values).
VG = ["valgrind", "-q", "--error-exitcode=99", "--track-origins=no", "--num-callers=14"]
_MEM = [J("net_netio", "asan", scale=25), J("net_hsio", "asan", scale=25), J("mem", "asan", scale=50), J("typed", "asan", scale=60), J("typed", "asan_nobmi2", scale=40),
        J("aes", "asan", scale=40), J("prg", "asan", "prg", scale=60), J("fresh", "asan", "fresh", scale=5), J("hash", "asan", scale=60), J("prp", "asan", scale=60), J("mit", "asan", scale=60),
        J("f2k", "asan", scale=30), J("conv", "asan", scale=80), J("group", "asan", scale=10), J("int", "asan", scale=40), J("sort", "asan", scale=40), J("reveal", "asan", scale=60), J("float", "asan", scale=15),
        J("bristol", "asan", scale=60), J("gen", "asan", scale=60), J("incirc", "asan", scale=20), J("gc", "asan", scale=50), J("pool", "asan", scale=60), J("threads", "asan_thr", scale=30)]
_VG = [J(h, "vg", scale=s, **k) for h, s, k in [("typed", 4, {}), ("mem", 3, {}), ("prg", 6, {}), ("hash", 4, {}), ("prp", 4, {}), ("mit", 4, {}), ("f2k", 2, {}), ("conv", 4, {}), ("group", 2, {}), ("aes", 3, {}),
       ("int", 3, {}), ("reveal", 4, {}), ("bristol", 2, {}), ("gen", 4, {}), ("incirc", 2, {}), ("gc", 2, {}), ("sort", 1, {}), ("float", 1, {}), ("net_netio", 3, {}), ("net_hsio", 3, {}), ("pool", 3, {})]]
for _j in _MEM: _j.update(only_memory=True, leaks=1, timeout=250)
for _j in _VG: _j.update(only_memory=True, wrap=VG, timeout=300)
prop("C30", "distinct = cases of the other properties executed under the memory monitors; evaluations = cases", _MEM + [J("fault", "asan", "peers", only_memory=True, scale=15, timeout=250)] + _VG,
     ["Misaligned access through pointer types is not judged: the library targets x86, and its interface accepts unaligned buffers.", "Undefined behaviour is what ASan, UBSan and memcheck detect.", SAN], min_evals=100000)
