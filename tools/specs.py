"""What each check builds and runs."""

ASAN_O0 = ["-O0", "-gline-tables-only", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
ASAN_O1 = ["-O1", "-gline-tables-only", "-fsanitize=address"]
PLAIN = ["-O1", "-gline-tables-only"]
GCC_ASAN = ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
TSAN = ["-O1", "-gline-tables-only", "-fsanitize=thread", "-pthread"]

ASSUMPTIONS = [
    "only executions of the workloads described are decided",
    "the compilers, their sanitizers and the C++ standard library are trusted",
]


def T(tier, quick, thorough):
    return thorough if tier == "thorough" else quick


# ----------------------------------------------------------------- sequences

SEQ_CFG = {
    # name: (element, policy, B, BL, leak checking)
    "trk-2-2": ("vt::tracked<>", "vt::mp_mon", 2, 2, True),
    "trk-emb-2-1": ("vt::tracked<>", "vt::mp_emb", 2, 1, True),
    "int-def": ("int", "vt::mp_def", "immer::default_bits",
                "(immer::detail::rbts::derive_bits_leaf<int,vt::mp_def,immer::default_bits>)", True),
    "str-2-1": ("std::string", "vt::mp_emb", 2, 1, True),
    "str-def-3-2": ("std::string", "vt::mp_def", 3, 2, True),
    "trk16-fl-2-3": ("vt::tracked<0,16>", "vt::mp_fl", 2, 3, True),
    "pod3-norv-3-0": ("vt::pod3", "vt::mp_norv", 3, 0, True),
    "int-gc-2-2": ("int", "vt::mp_gc", 2, 2, False),
    "trk-gc-2-2": ("vt::tracked<>", "vt::mp_gc", 2, 2, False),
    "trk-gcemb-3-1": ("vt::tracked<>", "vt::mp_gc_emb", 3, 1, False),
    "trk-leak-2-2": ("vt::tracked<>", "vt::mp_leak", 2, 2, False),
    "u8-5-6": ("unsigned char", "vt::mp_mon", 5, 6, True),
    "ld-ufl-6-3": ("long double", "vt::mp_ufl", 6, 3, True),
    "trk-3-1": ("vt::tracked<24>", "vt::mp_mon", 3, 1, True),
    "greedy-2-1": ("vt::greedy", "vt::mp_mon", 2, 1, True),
    "ld-def": ("long double", "vt::mp_def", "immer::default_bits",
               "(immer::detail::rbts::derive_bits_leaf<long double,vt::mp_def,immer::default_bits>)", True),
}


def seq(name, mode, iters, which="VFA", flags=ASAN_O0, jobs=1, max_s=60, defs=None, tag="", **kw):
    t, mp, b, bl, leaks = SEQ_CFG[name]
    d = {"VT_T": t, "VT_MP": mp, "VT_B": b, "VT_BL": bl}
    for c in "VFA":
        d["VT_" + c] = 1 if c in which else 0
    d.update(defs or {})
    return dict(name="seq:%s:%s:%s%s" % (name, which, mode, tag), src="seq.cpp", flags=flags, leaks=leaks, defs=d,
                jobs=[{"args": {"mode": mode, "iters": iters, "max_s": max_s}, "timeout": max_s + 240} for _ in range(jobs)], **kw)


def interface(what, iters, max_s=20):
    """Documented uses: failing to compile is the violation."""
    return dict(name="interface:%d" % what, src="interface.cpp", flags=ASAN_O0, leaks=True, defs={"VT_WHAT": what}, must_compile=True,
                jobs=[{"args": {"iters": iters, "max_s": max_s}, "timeout": max_s + 100}])


SPECS = {}


def spec(prop, rule, level="exploration", **kw):
    def deco(fn):
        SPECS[prop] = dict(rule=rule, builds=fn, level=level, **kw)
        return fn
    return deco


SEQ_RULE = ("random histories over a pool of values and transients per iteration, operands, positions and ownership "
            "drawn from boundary-biased distributions; a case is an operation on a non-empty operand, distinct by "
            "configuration, operation, operand size and arguments")



# --------------------------------------------------------------- associative

ASSOC_CFG = {
    # name: (key, mapped, policy, B, leak checking)
    "trk-2": ("vt::tracked<>", "vt::tracked<>", "vt::mp_mon", 2, True),
    "trk-5": ("vt::tracked<>", "vt::tracked<>", "vt::mp_mon", 5, True),
    "int-def": ("int", "int", "vt::mp_def", 5, True),
    "str-emb-3": ("std::string", "std::string", "vt::mp_emb", 3, True),
    "trk16-fl-5": ("vt::tracked<0,16>", "vt::tracked<>", "vt::mp_fl", 5, True),
    "trk-norv-6": ("vt::tracked<>", "int", "vt::mp_norv", 6, True),
    "trk-gc-5": ("vt::tracked<>", "std::string", "vt::mp_gc", 5, False),
    "trk-gc-2": ("vt::tracked<>", "vt::tracked<>", "vt::mp_gc", 2, False),
    "int-leak-3": ("int", "vt::tracked<>", "vt::mp_leak", 3, False),
    "u16-ld-4": ("unsigned short", "long double", "vt::mp_mon", 4, True),
    "int-trk16-ufl-2": ("int", "vt::tracked<0,16>", "vt::mp_ufl", 2, True),
    "greedy-2": ("vt::greedy", "vt::greedy", "vt::mp_emb", 2, True),
    "str-def-5": ("std::string", "vt::tracked<>", "vt::mp_def", 5, True),
}


def assoc(name, mode, iters, which="SMT", flags=ASAN_O0, jobs=1, max_s=60, defs=None, tag="", **kw):
    k, t, mp, b, leaks = ASSOC_CFG[name]
    d = {"VT_K": k, "VT_T": t, "VT_MP": mp, "VT_B": b}
    for c, n in (("S", "SET"), ("M", "MAP"), ("T", "TABLE")):
        d["VT_" + n] = 1 if c in which else 0
    d.update(defs or {})
    return dict(name="assoc:%s:%s:%s%s" % (name, which, mode, tag), src="assoc.cpp", flags=flags, leaks=leaks, defs=d,
                jobs=[{"args": {"mode": mode, "iters": iters, "max_s": max_s}, "timeout": max_s + 240} for _ in range(jobs)], **kw)


# -------------------------------------------------------------------- nested

NEST_CFG = {
    # name: (element, policy, B, BL, assoc B, leak checking)
    "trk": ("vt::tracked<>", "vt::mp_mon", 2, 1, 2, True),
    "trk-emb": ("vt::tracked<>", "vt::mp_emb", 2, 2, 3, True),
    "int-def": ("int", "vt::mp_def", "immer::default_bits", 2, 5, True),
    "str-fl": ("std::string", "vt::mp_fl", 2, 1, 5, True),
    "trk-ufl": ("vt::tracked<>", "vt::mp_ufl", 3, 1, 2, True),
    "trk-norv": ("vt::tracked<>", "vt::mp_norv", 2, 1, 2, True),
    "trk-gc": ("vt::tracked<>", "vt::mp_gc", 2, 1, 2, False),
}


def nest(name, iters, max_s=60, **kw):
    t, mp, b, bl, hb, leaks = NEST_CFG[name]
    d = {"VT_T": t, "VT_MP": mp, "VT_B": b, "VT_BL": bl, "VT_HB": hb}
    return dict(dict(name="nest:%s" % name, src="nest.cpp", flags=ASAN_O0, leaks=leaks, defs=d,
                jobs=[{"args": {"iters": iters, "max_s": max_s}, "timeout": max_s + 240}]), **kw)


ASSOC_RULE = ("random histories over a pool of values and transients per iteration, one of ten hash functions each "
              "(good, identity, constant, few values, colliding prefixes and suffixes), keys from small and large domains; "
              "a case is an operation on a non-empty operand, distinct by configuration, operation, operand size, hash "
              "function and arguments")
NEST_RULE = "; and documents nested in containers of every kind, whose parts replace the whole and whose updates use the value being updated"
BOTH_RULE = SEQ_RULE + "; and the same for associative containers with ten hash functions"


@spec("P01", SEQ_RULE)
def p01(tier):
    n, s = T(tier, 12000, 150000), T(tier, 45, 600)
    return [seq(c, "persist", n, "V", max_s=s) for c in ("trk-2-2", "int-def", "str-2-1", "trk16-fl-2-3", "pod3-norv-3-0", "u8-5-6", "trk-3-1", "ld-ufl-6-3")] + [
        seq("greedy-2-1", "mix", n, "V", max_s=s, cxx="g++", flags=GCC_ASAN)]


@spec("P02", SEQ_RULE)
def p02(tier):
    n, s = T(tier, 12000, 150000), T(tier, 45, 600)
    return [seq(c, "persist", n, "F", max_s=s) for c in ("trk-2-2", "int-def", "str-def-3-2", "trk-emb-2-1", "pod3-norv-3-0", "trk-gc-2-2", "trk-3-1")] + [
        seq("trk-2-2", "mix", n, "VF", max_s=s), seq("greedy-2-1", "mix", n, "F", max_s=s, cxx="g++", flags=GCC_ASAN)]


@spec("P03", SEQ_RULE)
def p03(tier):
    n, s = T(tier, 12000, 150000), T(tier, 45, 600)
    return [seq(c, m, n, "A", max_s=s) for c, m in (("trk-2-2", "persist"), ("int-def", "mix"), ("str-2-1", "mix"), ("trk16-fl-2-3", "mix"),
                                                    ("pod3-norv-3-0", "mix"), ("ld-def", "persist"), ("trk-gc-2-2", "mix"), ("trk-2-2", "move"))] + [
        seq("greedy-2-1", "mix", n, "A", max_s=s, cxx="g++", flags=GCC_ASAN), interface(3, T(tier, 2000, 50000))]


def assoc_basic(which):
    def f(tier):
        n, s = T(tier, 6000, 100000), T(tier, 45, 600)
        return [assoc(c, m, n, which, max_s=s) for c, m in (
            ("trk-2", "persist"), ("int-def", "mix"), ("str-emb-3", "persist"), ("trk16-fl-5", "mix"), ("trk-norv-6", "persist"),
            ("trk-gc-5", "mix"), ("u16-ld-4", "mix"), ("trk-5", "persist"))] + [
            assoc("greedy-2", "mix", n, which, max_s=s, cxx="g++", flags=GCC_ASAN)]
    return f


spec("P04", ASSOC_RULE)(assoc_basic("S"))
spec("P05", ASSOC_RULE)(assoc_basic("M"))
spec("P06", ASSOC_RULE)(assoc_basic("T"))


@spec("P07", BOTH_RULE + NEST_RULE + "; after every operation all live values are compared with their models and the addresses of their elements with those recorded")
def p07(tier):
    n, s = T(tier, 4000, 100000), T(tier, 45, 600)
    return [seq(c, "iso", n, max_s=s) for c in ("trk-2-2", "trk-emb-2-1", "int-def", "trk-gc-2-2")] + [
        assoc(c, "iso", n, max_s=s) for c in ("trk-2", "int-def", "trk-gc-5", "str-emb-3")] + [
        nest(c, n, s) for c in ("trk-norv", "trk-gc")]


@spec("P08", BOTH_RULE + NEST_RULE)
def p08(tier):
    n, s = T(tier, 7000, 100000), T(tier, 40, 600)
    return [seq(c, "move", n, max_s=s) for c in ("trk-2-2", "trk-emb-2-1", "str-def-3-2", "trk-gc-2-2", "trk-3-1")] + [
        assoc(c, "move", n, max_s=s) for c in ("trk-2", "int-def", "trk-5", "str-emb-3")] + [nest("trk", n, s)]


@spec("P09", SEQ_RULE)
def p09(tier):
    n, s = T(tier, 7000, 100000), T(tier, 45, 600)
    return [seq(c, "trans", n, max_s=s) for c in ("trk-2-2", "trk-emb-2-1", "int-def", "str-2-1", "pod3-norv-3-0", "trk-gc-2-2", "trk-gcemb-3-1", "trk16-fl-2-3")]


@spec("P10", ASSOC_RULE)
def p10(tier):
    n, s = T(tier, 6000, 100000), T(tier, 45, 600)
    return [assoc(c, "trans", n, max_s=s) for c in ("trk-2", "trk-5", "int-def", "str-emb-3", "trk-norv-6", "trk-gc-5", "trk-gc-2", "u16-ld-4")]


@spec("P11", SEQ_RULE)
def p11(tier):
    n, s = T(tier, 5000, 100000), T(tier, 45, 600)
    return [seq(c, "eq", n, max_s=s) for c in ("trk-2-2", "trk-emb-2-1", "int-def", "str-2-1", "pod3-norv-3-0", "trk-gc-2-2", "u8-5-6", "trk-3-1")]


@spec("P12", ASSOC_RULE)
def p12(tier):
    n, s = T(tier, 5000, 100000), T(tier, 45, 600)
    return [assoc(c, "eq", n, max_s=s) for c in ("trk-2", "trk-5", "int-def", "str-emb-3", "trk-norv-6", "trk-gc-5", "u16-ld-4", "int-trk16-ufl-2")]


@spec("P13", ASSOC_RULE)
def p13(tier):
    n, s = T(tier, 5000, 100000), T(tier, 45, 600)
    return [assoc(c, "diff", n, max_s=s) for c in ("trk-2", "trk-5", "int-def", "str-emb-3", "trk-norv-6", "trk-gc-5", "u16-ld-4", "int-trk16-ufl-2")]


# -------------------------------------------------------------------- faults

FAULT_CFG = {
    # name: (key, element, policy, B, BL, assoc B, strong)
    "trk": ("vt::tracked<>", "vt::tracked<>", "vt::mp_mon", 2, 2, 3, 1),
    "emb": ("vt::tracked<>", "vt::tracked<>", "vt::mp_emb", 2, 1, 3, 1),
    "int": ("int", "vt::tracked<>", "vt::mp_mon", 2, 2, 5, 1),
    "str": ("std::string", "std::string", "vt::mp_emb", 3, 2, 4, 1),
    "ints": ("int", "int", "vt::mp_mon", 2, 2, 3, 1),
    "norv": ("vt::tracked<>", "vt::tracked<>", "vt::mp_norv", 2, 2, 3, 1),
    "trk-3-1": ("vt::tracked<>", "vt::tracked<>", "vt::mp_mon", 3, 1, 2, 1),
    "thrmv": ("vt::tracked<0,8,true>", "vt::tracked<0,8,true>", "vt::mp_mon", 2, 2, 3, 0),
    "thrmv-emb": ("vt::tracked<0,8,true>", "vt::tracked<0,8,true>", "vt::mp_emb", 3, 1, 3, 0),
    "thrmv-int": ("int", "vt::tracked<0,8,true>", "vt::mp_mon", 2, 2, 5, 0),
}


def faults(name, which, mode, iters, max_s=90, **kw):
    k, t, mp, b, bl, hb, strong = FAULT_CFG[name]
    d = {"VT_K": k, "VT_T": t, "VT_MP": mp, "VT_B": b, "VT_BL": bl, "VT_HB": hb, "VT_STRONG": strong}
    for c, n in (("V", "V"), ("F", "F"), ("A", "A"), ("X", "BOX"), ("S", "SET"), ("M", "MAP"), ("T", "TABLE")):
        d["VT_" + n] = 1 if c in which else 0
    return dict(name="fault:%s:%s:%s" % (name, which, mode), src="fault.cpp", flags=ASAN_O0, defs=d,
                jobs=[{"args": {"mode": mode, "iters": iters, "max_s": max_s}, "timeout": max_s + 240}], **kw)


FAULT_RULE = ("every fault point (allocation, element copy, default construction, hash, equality, callback; and element "
              "move in the builds with throwing moves) that an operation passes is made to throw once, in turn, until the "
              "operation completes; operands and operations drawn at random; a case is one operation with one injected "
              "fault, distinct by container, operation, operand size and arguments")
TECH_FAULT = "exhaustive single-fault injection at run time with object, heap and content monitors under ASan and UBSan"


@spec("P17", FAULT_RULE, technique=TECH_FAULT)
def p17(tier):
    n, s = T(tier, 8000, 200000), T(tier, 40, 600)
    return [faults(c, w, "persist", n, s) for c, w in (
        ("trk", "VFAX"), ("emb", "VFA"), ("trk-3-1", "VFA"), ("norv", "VFAX"), ("trk", "SMT"), ("int", "SMT"), ("str", "SMT"), ("thrmv", "VFAX"), ("ints", "VFA"))]


@spec("P18", FAULT_RULE, technique=TECH_FAULT)
def p18(tier):
    n, s = T(tier, 8000, 200000), T(tier, 40, 600)
    return [faults(c, w, "inplace", n, s) for c, w in (
        ("trk", "VFAX"), ("emb", "VFA"), ("trk-3-1", "VFA"), ("trk", "SMT"), ("int", "SMT"), ("str", "SMT"),
        ("thrmv", "VFAX"), ("thrmv-emb", "VFA"), ("thrmv-int", "SMT"))]


# -------------------------------------------------------------- memory safety


def memcheck(b):
    b = dict(b, flags=["-O1", "-g"], name=b["name"] + ":memcheck",
             wrap=["valgrind", "-q", "--vgdb=no", "--error-exitcode=98", "--exit-on-first-error=yes", "--leak-check=no", "--undef-value-errors=yes"])
    b["defs"] = dict(b["defs"], VT_VALGRIND=1)
    return b


@spec("P15", BOTH_RULE + NEST_RULE, technique="random histories over instrumented elements and heaps under ASan, UBSan (and alignment) monitors")
def p15(tier):
    n, s = T(tier, 5000, 100000), T(tier, 40, 600)
    return [seq(c, "mix", n, max_s=s) for c in ("trk16-fl-2-3", "ld-ufl-6-3", "pod3-norv-3-0", "trk-2-2", "trk-emb-2-1", "ld-def")] + [
        assoc(c, "mix", n, max_s=s) for c in ("trk16-fl-5", "int-trk16-ufl-2", "u16-ld-4", "trk-2")] + [
        memcheck(seq("int-def", "mix", n, max_s=s, defs={"VT_MP": "vt::mp_mon", "VT_B": 2, "VT_BL": 2})),
        memcheck(assoc("int-def", "mix", n, max_s=s, defs={"VT_MP": "vt::mp_mon"}))] + [nest(c, n, s) for c in ("int-def", "str-fl")]


@spec("P16", BOTH_RULE + NEST_RULE + "; all values are destroyed at the end of each history and every element and block must then be gone",
      technique="conservation monitors on elements and heap blocks (double release, wrong size, leak) over random histories under ASan and LSan")
def p16(tier):
    n, s = T(tier, 5000, 100000), T(tier, 40, 600)
    return [seq(c, m, n, max_s=s) for c, m in (("trk-2-2", "mix"), ("trk-emb-2-1", "mix"), ("pod3-norv-3-0", "trans"), ("str-def-3-2", "mix"), ("trk-3-1", "move"))] + [
        assoc(c, m, n, max_s=s) for c, m in (("trk-2", "mix"), ("trk-5", "trans"), ("str-emb-3", "mix"), ("trk-norv-6", "mix"))] + [nest(c, n, s) for c in ("trk", "trk-emb", "trk-ufl")]


# ------------------------------------------------- traversals, identity, calls

TRAV_CFG = {
    "trk-2-2": ("vt::tracked<>", "vt::tracked<>", "vt::mp_mon", 2, 2, 3, True),
    "int-def": ("vt::tracked<>", "int", "vt::mp_def", 5, 5, 5, True),
    "str-3-1": ("int", "std::string", "vt::mp_emb", 3, 1, 2, True),
    "gc-2-2": ("vt::tracked<>", "vt::tracked<>", "vt::mp_gc", 2, 2, 3, False),
    "pod3-3-0": ("unsigned short", "vt::pod3", "vt::mp_norv", 3, 0, 6, True),
    "u8-5-6": ("std::string", "unsigned char", "vt::mp_mon", 5, 6, 4, True),
}


def trav(name, iters, max_s=90, kinds=(1, 1), **kw):
    k, t, mp, b, bl, hb, leaks = TRAV_CFG[name]
    d = {"VT_K": k, "VT_T": t, "VT_MP": mp, "VT_B": b, "VT_BL": bl, "VT_HB": hb, "VT_SEQ": kinds[0], "VT_ASSOC": kinds[1]}
    return dict(name="traverse:%s" % name, src="traverse.cpp", flags=ASAN_O0, leaks=leaks, defs=d,
                jobs=[{"args": {"iters": iters, "max_s": max_s}, "timeout": max_s + 240}], **kw)


@spec("P14", "values and transients left behind by random histories are traversed by every kind of iterator step, a random walk "
             "of iterators, whole and sub-range chunk traversals with and without stopping, and the algorithms; an evaluation "
             "is one traversal or step compared with the model; distinct by range, size, hash function and configuration",
      technique="traversal monitors comparing contents, addresses and positions with a model under ASan and UBSan")
def p14(tier):
    n, s = T(tier, 6000, 100000), T(tier, 45, 600)
    return [trav(c, n, s) for c in TRAV_CFG]


@spec("P28", BOTH_RULE + "; the identities of all pairs of live values are compared after every operation",
      technique="pairwise identity monitor over random histories")
def p28(tier):
    n, s = T(tier, 5000, 100000), T(tier, 40, 600)
    return [seq(c, "id", n, max_s=s) for c in ("trk-2-2", "trk-emb-2-1", "int-def", "trk-gc-2-2", "trk-leak-2-2")] + [
        assoc(c, "id", n, max_s=s) for c in ("trk-2", "int-def", "trk-gc-5", "int-leak-3")]


@spec("P30", BOTH_RULE + "; every call of a function, hash or equality and the state of what it is given are watched",
      technique="call monitors (count, argument, liveness of keys, allocation and construction census around lookups) over random histories")
def p30(tier):
    n, s = T(tier, 5000, 100000), T(tier, 40, 600)
    return [assoc(c, "calls", n, max_s=s) for c in ("trk-2", "trk-5", "int-def", "str-emb-3", "trk-norv-6", "trk-gc-5")] + [
        seq(c, "mix", n, max_s=s) for c in ("trk-2-2", "trk-emb-2-1", "trk-gc-2-2")]


# -------------------------------------------------------------------- threads

CONC_CFG = {
    # name: (element, policy, B, BL, key, assoc B, seq, assoc)
    "chaos-seq": ("vt::tracked<>", "vt::mp_chaos", 2, 2, "vt::tracked<>", 3, 1, 0),
    "chaos-emb-seq": ("vt::tracked<>", "vt::mp_chaos_emb", 2, 1, "vt::tracked<>", 3, 1, 0),
    "chaos-emb-assoc": ("vt::tracked<>", "vt::mp_chaos_emb", 2, 1, "vt::tracked<>", 3, 0, 1),
    "chaos-assoc": ("vt::tracked<>", "vt::mp_chaos", 2, 1, "vt::tracked<>", 2, 0, 1),
    "int-def": ("int", "vt::mp_def", 2, 2, "int", 5, 1, 1),
    "str-def": ("std::string", "vt::mp_def", 3, 1, "std::string", 5, 1, 1),
    "chaos-fl": ("vt::tracked<>", "vt::mp_chaos_fl", 2, 2, "vt::tracked<>", 2, 1, 1),
    "chaos-all": ("vt::tracked<>", "vt::mp_chaos", 2, 2, "vt::tracked<>", 3, 1, 1),
    "gc": ("int", "vt::mp_gc", 2, 2, "int", 3, 1, 1),
}
ASAN_T = ASAN_O1 + ["-pthread"]
GCC_TSAN = ["-O1", "-g1", "-fsanitize=thread", "-pthread"]


def conc_defs(name):
    t, mp, b, bl, k, hb, sq, asc = CONC_CFG[name]
    return {"VT_T": t, "VT_MP": mp, "VT_B": b, "VT_BL": bl, "VT_K": k, "VT_HB": hb, "VT_SEQ": sq, "VT_ASSOC": asc}


def conc(name, mode, san, iters, max_s, jobs=1):
    flags = {"tsan": TSAN, "asan": ASAN_T, "plain": ["-O2", "-gline-tables-only", "-pthread"]}[san]
    return dict(name="conc:%s:%s:%s" % (name, mode, san), src="conc.cpp", flags=flags, defs=conc_defs(name),
                leaks=name != "gc",
                jobs=[{"args": {"mode": mode, "iters": iters, "max_s": max_s}, "timeout": max_s + 200} for _ in range(jobs)])


def preempt(name, iters, max_s, flags=None, jobs=1):
    return dict(name="preempt:%s" % name, src="preempt.cpp", flags=flags or ASAN_O0, defs=conc_defs(name),
                jobs=[{"args": {"iters": iters, "max_s": max_s}, "timeout": max_s + 240} for _ in range(jobs)])


CONC_RULE = ("rounds of 2 to 6 threads that run random operations with models on values that share structure, with random "
             "delays at the reference count operations and allocations; a case is an operation; distinct counts are windows "
             "of six operations ordered by a global ticket in which at least two threads take part (sequences of thread "
             "numbers), plus the operations of each thread by kind, size and arguments")


def first(name, mp, san, types, jobs):
    return dict(name="first:%s:%s" % (name, san), src="first.cpp", flags={"tsan": TSAN, "asan": ASAN_T}[san], defs={"VT_MP": mp, "VT_TYPES": types},
                leaks=not name.startswith("gc"),
                jobs=[{"args": {"iters": types, "max_s": 60}, "timeout": 260} for _ in range(jobs)])


@spec("P19", CONC_RULE + "; and first uses of the containers of a type by threads that start together", technique="ThreadSanitizer (happens-before race detection) and per-thread model comparison over stressed threads with injected delays")
def p19(tier):
    n, s = T(tier, 1000, 20000), T(tier, 25, 300)
    return [conc(c, "read", "tsan", n, s) for c in ("chaos-seq", "chaos-emb-seq", "chaos-emb-assoc", "int-def", "str-def", "chaos-fl", "gc")] + [
        conc(c, "read", "asan", n, s) for c in ("chaos-all",)] + [
        first("def", "vt::mp_def", "tsan", 5, T(tier, 8, 80)), first("mon", "vt::mp_mon", "asan", 12, T(tier, 8, 80)),
        first("gc-emb", "vt::mp_gc_emb", "tsan", 4, T(tier, 6, 60))]


@spec("P20", CONC_RULE + "; and, in one thread, operations of one pool of values interrupted at chosen reference count "
      "operations and allocations by whole operations (or the release) of another pool that shares structure with it; "
      "distinct there by operation, operand, boundary index",
      technique="simulated interleavings at atomic operation boundaries with content, object and heap monitors; ThreadSanitizer and AddressSanitizer over stressed threads")
def p20(tier):
    n, s = T(tier, 1000, 20000), T(tier, 25, 300)
    m = T(tier, 2500, 100000)
    return [preempt(c, m, T(tier, 40, 600)) for c in ("chaos-seq", "chaos-emb-seq", "chaos-assoc", "chaos-all")] + [
        conc(c, "mutate", "tsan", n, s) for c in ("chaos-seq", "chaos-emb-assoc", "int-def", "chaos-fl")] + [
        conc(c, "mutate", "asan", n, s) for c in ("chaos-all", "chaos-fl")]


# ---------------------------------------------------------------------- heaps


def heaps(mode, san, iters, max_s, extra=(), libs=(), tag="", defs=None):
    flags = {"asan": ["-O0", "-gline-tables-only", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-pthread"],
             "asan1": ASAN_T, "tsan": TSAN, "plain": ["-O2", "-gline-tables-only", "-pthread"]}[san] + list(extra)
    return dict(name="heaps:%s:%s%s" % (mode, san, tag), src="heaps.cpp", flags=flags, libs=list(libs), defs=defs or {},
                jobs=[{"args": {"mode": mode, "iters": iters, "max_s": max_s}, "timeout": max_s + 200}])


@spec("P23", "random allocate / deallocate sequences over every heap and stack of adaptors; every block is checked for overlap with "
             "the live ones, alignment, content until it is deallocated, and the calls that reach the parent; an evaluation is a "
             "call; distinct by heap, call, size and number of live blocks",
      technique="block ledger (overlap, alignment, canaries, parent call log) over random call sequences under ASan and UBSan")
def p23(tier):
    n, s = T(tier, 12000, 300000), T(tier, 40, 500)
    return [heaps("single", "asan", n, s, libs=["-lgc"], defs={"VT_GC": 1}),
            heaps("single", "asan1", n, s, ["-DNDEBUG"], tag=":ndebug"),
            heaps("single", "plain", n, s, ["-DNDEBUG"], tag=":ndebug")]


@spec("P24", "2 to 8 threads allocate, fill, hand over, check and deallocate blocks of the thread safe heaps, with delays inside; an "
             "evaluation is a call; distinct by heap and by windows of calls in the order of a global ticket",
      technique="ownership ledger and canaries over stressed threads under TSan and ASan")
def p24(tier):
    n, s = T(tier, 5000, 100000), T(tier, 40, 400)
    return [heaps("threads", "tsan", n, s), heaps("threads", "asan1", n, s), heaps("threads", "plain", n * 3, s, ["-DNDEBUG"], tag=":ndebug")]


# ------------------------------------------------------------- boxes and atoms


def boxes(t, mp, iters, max_s, leaks=True):
    return dict(name="box:%s:%s" % (t, mp), src="box.cpp", flags=ASAN_O0, defs={"VT_T": t, "VT_MP": mp}, leaks=leaks,
                jobs=[{"args": {"iters": iters, "max_s": max_s}, "timeout": max_s + 240}])


@spec("P22", "random operations over a pool of boxes (and over trees of a recursive type made of boxes) with their contents and "
             "sharing as models; an evaluation is an operation; distinct by operation, number of owners and aliasing of operands",
      technique="model, sharing, call and object-count monitors over random histories with injected construction failures under ASan and UBSan")
def p22(tier):
    n, s = T(tier, 8000, 200000), T(tier, 40, 500)
    return [boxes(t, mp, n, s, leaks) for t, mp, leaks in (
        ("vt::tracked<>", "vt::mp_mon", True), ("std::string", "vt::mp_def", True), ("vt::tracked<0,16>", "vt::mp_fl", True),
        ("vt::tracked<>", "vt::mp_gc", False), ("long double", "vt::mp_ufl", True), ("int", "vt::mp_norv", True))]


def atoms(t, mp, san, iters, max_s, gc=False, solo=0):
    flags = {"tsan": TSAN, "asan": ASAN_T, "plain": ["-O2", "-DNDEBUG", "-gline-tables-only", "-pthread"]}[san]
    return dict(name="atom:%s:%s:%s" % (t, mp, san), src="atom.cpp", flags=flags, libs=["-lgc"] if gc else [],
                defs=dict({"VT_T": t, "VT_MP": mp, "VT_SOLO": solo}, **({"VT_GC": 1} if gc else {})), leaks="gc" not in mp,
                jobs=[{"args": {"iters": iters, "max_s": max_s}, "timeout": max_s + 200}])


@spec("P21", "rounds of 2 to 6 threads calling load, store, exchange, update and conversions on one atom with unique values, with random "
             "delays inside; every round's history (tickets before and after each call) is decided by exhausting the linearization "
             "orders; counting, token and container rounds check conservation; other calls are also put inside the function of "
             "update; an evaluation is a call; distinct counts are patterns of overlapping calls",
      technique="offline linearizability checking of recorded histories, conservation monitors, TSan and ASan, injected delays")
def p21(tier):
    n, s = T(tier, 1500, 60000), T(tier, 30, 400)
    return [atoms("vt::tracked<>", "vt::mp_chaos", "tsan", n, s), atoms("vt::tracked<>", "vt::mp_chaos_fl", "tsan", n, s),
            atoms("vt::tracked<>", "vt::mp_chaos", "asan", n, s), atoms("int", "vt::mp_def", "plain", n * 2, s),
            atoms("std::string", "vt::mp_def", "tsan", n, s), atoms("vt::tracked<>", "vt::mp_norv", "asan", n, s, solo=1),
            atoms("int", "vt::mp_ufl", "asan", n, s, solo=1),
            atoms("vt::tracked<>", "vt::mp_gc", "tsan", n, s), atoms("long double", "mp_real_gc", "plain", n, s, gc=True)]


# ------------------------------------------------------------ garbage collection


def gcreal(tag, iters, max_s, flags=(), **d):
    return dict(name="gcreal:%s" % tag, src="gcreal.cpp", flags=["-O1", "-gline-tables-only", "-pthread"] + list(flags), libs=["-lgc"],
                defs={"VT_" + k.upper(): v for k, v in d.items()}, leaks=False,
                jobs=[{"args": {"iters": iters, "max_s": max_s}, "timeout": max_s + 200}])


def with_libgc(b, policy):
    b = dict(b, libs=["-lgc"], leaks=False, flags=["-O1", "-gline-tables-only", "-pthread"], env={"GC_MARKERS": "1"}, name=b["name"] + ":libgc")
    b["defs"] = dict(b["defs"], VT_GC=1, VT_MP=policy)
    return b


@spec("P25", BOTH_RULE + "; and chains of values made through transients in memory collected by libgc, with forced collections, overwriting "
      "of what was given back and reuse of the identities of collected transients (counted)",
      technique="model and isolation monitors over histories under no-op reference counting, with a leaking heap under ASan and with a real collector under forced collections")
def p25(tier):
    n, s = T(tier, 3000, 80000), T(tier, 30, 500)
    m, w = T(tier, 1200, 24000), T(tier, 30, 600)
    k = T(tier, 1000, 20000)
    return [seq(c, md, n, max_s=s) for c, md in (("trk-gc-2-2", "trans"), ("trk-gcemb-3-1", "iso"), ("int-gc-2-2", "mix"), ("trk-leak-2-2", "move"))] + [
        assoc(c, md, n, max_s=s) for c, md in (("trk-gc-5", "trans"), ("trk-gc-2", "iso"), ("int-leak-3", "mix"))] + [
        gcreal("int", m, w), gcreal("int-emb", m, w, emb=1, bl=1), gcreal("box:ndebug", m, w, ["-DNDEBUG"], elem=1),
        gcreal("box-3-1:ndebug", m, w, ["-DNDEBUG"], elem=1, b=3, bl=1),
        with_libgc(seq("int-gc-2-2", "iso", k, max_s=s), "vt::mp_libgc"), with_libgc(seq("int-def", "trans", k, max_s=s), "vt::mp_libgc_emb"),
        with_libgc(assoc("int-def", "iso", k, max_s=s), "vt::mp_libgc"), with_libgc(assoc("int-def", "trans", k, max_s=s), "vt::mp_libgc_emb")]


# ---------------------------------------------------------------- huge sequences


def huge(tag, mode, iters, max_s, t, mp, b, bl, flags=ASAN_O0, leaks=True, **d):
    return dict(name="huge:%s:%s" % (mode, tag), src="huge.cpp", flags=flags, leaks=leaks,
                defs=dict({"VT_T": t, "VT_MP": mp, "VT_B": b, "VT_BL": bl}, **d),
                jobs=[{"args": {"mode": mode, "iters": iters, "max_s": max_s}, "timeout": max_s + 300}])


@spec("P31", "random histories of flex vectors whose sizes grow by doubling to 2^35 and beyond, against ropes as models, and single "
             "histories on sequences that were pushed one element at a time past 2^32; positions at both ends, around powers of two and "
             "anywhere; an evaluation is an operation; distinct (beyond 2^32 only) by operation, size, position and branching",
      technique="differential monitoring against ropes of histories on structurally shared sequences of up to 2^45 elements, under ASan and UBSan")
def p31(tier):
    n, s = T(tier, 600, 20000), T(tier, 45, 500)
    fast = ["-O2", "-DNDEBUG", "-gline-tables-only"]
    return [huge("3-10", "regular", T(tier, 1, 4), 300, "vt::u8", "vt::mp_def", 3, 10, fast),
            huge("vector-3-10", "regular", T(tier, 1, 4), 300, "vt::u8", "vt::mp_def", 3, 10, fast, VT_VECTOR=1),
            huge("3-3", "concat", n, s, "int", "vt::mp_mon", 3, 3), huge("3-1", "concat", n, s, "int", "vt::mp_def", 3, 1),
            huge("def", "concat", n, s, "int", "vt::mp_def", 5, 4), huge("emb-6-5", "concat", n, s, "int", "vt::mp_emb", 6, 5),
            huge("trk-4-0", "concat", n, s, "vt::tracked<>", "vt::mp_mon", 4, 0),
            huge("gc-3-3", "concat", n, s, "int", "vt::mp_gc", 3, 3, leaks=False),
            huge("u8-4-2", "concat", n * 2, s, "vt::u8", "vt::mp_def", 4, 2, ["-O1", "-gline-tables-only"])]


# ---------------------------------------------------------------- cost, shape

COST_CFG = [
    # policy, B, BL, bits of hashed containers, element
    ("vt::mp_mon", 3, 2, 5, "vt::tracked<>"), ("vt::mp_emb", 2, 2, 2, "vt::tracked<>"), ("vt::mp_mon", 5, 4, 6, "vt::tracked<24>"),
    ("vt::mp_gc", 3, 2, 3, "vt::tracked<>"), ("vt::mp_norv", 3, 0, 5, "vt::tracked<0,16>"), ("vt::mp_gc_emb", 2, 1, 4, "vt::tracked<>"),
    ("vt::mp_emb", 4, 5, 4, "vt::tracked<>")]


def measured(src, mode, cfg, iters, max_s):
    mp, b, bl, hb, t = cfg
    return dict(name="%s:%s:%s-%d-%d-%d" % (src, mode or "all", mp[4:], b, bl, hb), src=src + ".cpp", flags=PLAIN, leaks="gc" not in mp,
                defs={"VT_T": t, "VT_MP": mp, "VT_B": b, "VT_BL": bl, "VT_HB": hb},
                jobs=[{"args": {"mode": mode, "iters": iters, "max_s": max_s}, "timeout": max_s + 200}])


@spec("P26", "values of up to 50000 elements, regular, relaxed by joining and cutting, or hashed in ways that make paths long; every operation on a "
             "shared value, on a transient and on an r-value is measured in blocks allocated, elements copied and moved, hashes and "
             "comparisons, and held to a bound from tree height and node width; an evaluation is a measurement held to its bound; distinct "
             "by operation, quantity, amount and size",
      technique="runtime monitors on the heap and the elements that count what every operation allocates, copies, moves, hashes and compares")
def p26(tier):
    n, s = T(tier, 8000, 200000), T(tier, 40, 500)
    return [measured("cost", "", c, n, s) for c in COST_CFG]


@spec("P27", "populations of sequences evolved towards deep trees by joining, cutting, inserting and erasing (up to 2^34 elements), cycles of doubling and "
             "cutting, long lives of single values that grow and shrink with their memory monitored at every step, and hashed containers "
             "compared in order and memory with fresh ones of the same contents; an evaluation is a depth, an amount of memory or a "
             "shape held to its bound; distinct by depth, size and memory",
      technique="runtime monitors of blocks per path copy (depth) and live bytes over long and adversarially evolved histories; differential comparison of the shapes of hashed containers")
def p27(tier):
    s = T(tier, 25, 500)
    out = []
    for c in COST_CFG:
        if "gc" in c[0]:
            continue
        c = c[:4] + ("vt::u64",)
        for mode, n in (("search", T(tier, 1500, 100000)), ("churn", T(tier, 2500, 100000)), ("hashed", T(tier, 600, 20000))):
            out.append(measured("shape", mode, c, n, s))
    return out


# ------------------------------------------------------- configurations compared


@spec("P29", "one set of random histories over all containers, executed in every build: element types of the same meaning, memory policies, "
             "branching parameters, configuration macros, language standards, compilers and optimization levels; every result of every "
             "operation goes into a digest, those of all builds are compared history by history; an evaluation is an operation in one build",
      technique="offline comparison of recorded digests of the same histories between builds of differing configuration")
def p29(tier):
    n, s = T(tier, 16000, 100000), T(tier, 30, 500)
    out = [interface(29, T(tier, 2000, 50000))]

    def add(tag, t="int", mp="vt::mp_def", b=None, bl=None, hb=5, flags=("-O1",), leaks=True, libs=(), **kw):
        d = {"VT_T": t, "VT_MP": mp, "VT_HB": hb}
        if b is not None:
            d.update(VT_B=b, VT_BL=bl)
        d.update(kw.pop("defs", {}))
        out.append(dict(name="config:" + tag, src="config.cpp", flags=list(flags) + ["-gline-tables-only" if kw.get("cxx") != "g++" else "-g1"],
                        defs=d, leaks=leaks, libs=list(libs), compare=True, order_group=hb,
                        jobs=[{"args": {"iters": n, "max_s": s, "seed": "%(seed)d"}, "timeout": s + 200}], **kw))
    add("default")
    add("trk-mon-2-2", "vt::tracked<>", "vt::mp_mon", 2, 2, 2)
    add("str-emb-3-1", "std::string", "vt::mp_emb", 3, 1, 5, flags=("-O1", "-fsanitize=address"))
    add("u8-gc-4-3", "vt::u8", "vt::mp_gc", 4, 3, 3, leaks=False)
    add("ld-norv-6-0", "long double", "vt::mp_norv", 6, 0, 6)
    add("trk-gcemb-2-1", "vt::tracked<>", "vt::mp_gc_emb", 2, 1, 4, leaks=False)
    add("pod-leak-3-3", "vt::u64", "vt::mp_leak", 3, 3, 5, leaks=False)
    add("ufl-5-4", "vt::u64", "vt::mp_ufl", 5, 4, 5)
    add("trk16-fl-3-2", "vt::tracked<0,16>", "vt::mp_fl", 3, 2, 2)
    add("c++14", std="c++14")
    add("c++20", std="c++20")
    add("c++23-ndebug-O3", std="c++23", flags=("-O3", "-DNDEBUG"))
    add("gcc-O2-ndebug", cxx="g++", flags=("-O2", "-DNDEBUG"))
    add("gcc-c++14-O3", cxx="g++", std="c++14", flags=("-O3",))
    add("no-thread-safety", "vt::u64", flags=("-O1", "-DIMMER_NO_THREAD_SAFETY=1"))
    add("no-free-list", "std::string", flags=("-O1", "-DIMMER_NO_FREE_LIST=1"))
    add("untagged", flags=("-O1", "-DIMMER_TAGGED_NODE=0"))
    add("tagged-ndebug", flags=("-O1", "-DNDEBUG", "-DIMMER_TAGGED_NODE=1"))
    add("no-debug-size-heap", flags=("-O1", "-DIMMER_ENABLE_DEBUG_SIZE_HEAP=0"))
    add("deep-check", "vt::u64", "vt::mp_mon", 2, 2, 3, flags=("-O1", "-DIMMER_DEBUG_DEEP_CHECK=1"))
    add("deep-check-emb", "vt::u64", "vt::mp_emb", 3, 0, 5, flags=("-O1", "-DIMMER_DEBUG_DEEP_CHECK=1"))
    add("no-exceptions", flags=("-O1", "-DIMMER_NO_EXCEPTIONS"))
    add("no-exceptions-no-rtti", "vt::u64", flags=("-O2", "-fno-exceptions", "-fno-rtti", "-DIMMER_NO_EXCEPTIONS"))
    add("debug-stats", "vt::u64", "vt::mp_mon", 3, 2, 4, flags=("-O1", "-DIMMER_DEBUG_STATS=1"))
    add("broken-layout-detection", "std::string", "vt::mp_emb", 2, 3, 6, flags=("-O1", "-DIMMER_BROKEN_STANDARD_LAYOUT_DETECTION=1"))
    add("gcc-trk-gc", "vt::tracked<>", "vt::mp_gc", 3, 2, 3, cxx="g++", flags=("-O2",), leaks=False)
    add("clang-Os-emb", "std::string", "vt::mp_emb", 4, 2, 4, flags=("-Os", "-DNDEBUG"))
    add("libgc", mp="vt::mp_libgc", flags=("-O1", "-pthread"), leaks=False, libs=["-lgc"], defs={"VT_GC": 1}, env={"GC_MARKERS": "1"})
    return out


# ------------------------------------------------------------- experimental

@spec("P32", "random histories of push_back, assoc and update over a pool of versions of the experimental vector, each compared with its model by "
             "index and by iterators that go forwards, backwards and in jumps, also after their vector is gone; a case is an operation, "
             "distinct by configuration, operation, size, position and position of the operation before",
      technique="model, isolation, conservation and failure-injection monitors over random histories under ASan and UBSan")
def p32(tier):
    n, s = T(tier, 4000, 100000), T(tier, 40, 600)

    def dv(t, mp, b, leaks=True, flags=ASAN_O0, **kw):
        return dict(dict(name="dvektor:%s:%s:%d" % (t, mp, b), src="dvektor.cpp", flags=flags, leaks=leaks, defs={"VT_T": t, "VT_MP": mp, "VT_B": b},
                         jobs=[{"args": {"iters": n, "max_s": s}, "timeout": s + 200}]), **kw)
    return [dv("vt::tracked<>", "vt::mp_mon", 1), dv("vt::tracked<>", "vt::mp_mon", 2), dv("int", "vt::mp_def", 5), dv("std::string", "vt::mp_fl", 3),
            dv("vt::tracked<0,16>", "vt::mp_fl", 2), dv("long double", "vt::mp_ufl", 3), dv("std::string", "vt::mp_def", 2, cxx="g++", flags=GCC_ASAN)]


@spec("P33", "random histories of append and set over a pool of vectors of the Python binding in an embedded interpreter, with valid, negative and "
             "invalid positions, repetitions of objects, nested vectors, weak references, collections and operations that are not implemented; a case "
             "is an operation, distinct by size and object",
      technique="model, reference-count and exception monitors on an embedded interpreter under ASan and UBSan")
def p33(tier):
    n, s = T(tier, 3000, 60000), T(tier, 40, 500)
    py = ["-isystem", "/usr/include/python3.12"]

    def b(name, n, jobs=1, **defs):
        return dict(name="python:" + name, src="python.cpp", flags=ASAN_O0 + py, leaks=False, libs=["-lpython3.12"], defs=defs,
                    jobs=[{"args": {"iters": n, "max_s": s}, "timeout": s + 200} for _ in range(jobs)])
    return [b("raw", n, 2), b("cycles", 200, VT_CYCLES=1)]
