#!/usr/bin/env python3
"""Measures what the workloads and monitors can see, with small changes of the
library made by rule.

  mutants.py GROUP COUNT [SEED] [WORKERS]     GROUP: rbts hamts arrays small all

Every mutant is a copy of immer/ in a scratch directory with one change. It is
run against a short list of builds (a small part of what the checks run) until
one of them reports. The survivors are printed with the changed line; most are
equivalent or slower code, the others show what to strengthen. No check uses
this; it never touches /repo.
"""
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402
import specs as S  # noqa: E402

FILES = {
    "rbts": ["detail/rbts/%s.hpp" % f for f in ("operations", "position", "node", "rbtree", "rrbtree", "rbtree_iterator",
                                                "rrbtree_iterator", "visitor")] + [
             "vector.hpp", "flex_vector.hpp", "vector_transient.hpp", "flex_vector_transient.hpp"],
    "hamts": ["detail/hamts/%s.hpp" % f for f in ("champ", "node", "bits", "champ_iterator")] + [
              f + ".hpp" for f in ("set", "map", "table", "set_transient", "map_transient", "table_transient")],
    "arrays": ["detail/arrays/%s.hpp" % f for f in ("no_capacity", "with_capacity", "node")] + ["array.hpp", "array_transient.hpp"],
    "small": ["algorithm.hpp", "atom.hpp", "box.hpp", "detail/util.hpp", "detail/iterator_facade.hpp", "heap/debug_size_heap.hpp",
              "heap/free_list_heap.hpp", "heap/unsafe_free_list_heap.hpp", "heap/thread_local_free_list_heap.hpp", "heap/split_heap.hpp",
              "heap/heap_policy.hpp", "heap/gc_heap.hpp", "heap/with_data.hpp", "lock/spinlock_policy.hpp", "refcount/refcount_policy.hpp",
              "refcount/unsafe_refcount_policy.hpp", "transience/gc_transience_policy.hpp", "memory_policy.hpp",
              "detail/combine_standard_layout.hpp", "refcount/enable_intrusive_ptr.hpp"],
}


def builds(group):
    q = 25
    seq = [S.seq("trk-2-2", "mix", 500, "VF", max_s=q), S.seq("trk-emb-2-1", "mix", 400, "VF", max_s=q),
           S.faults("trk", "VF", "inplace", 300, q), S.seq("trk-gc-2-2", "iso", 300, "VF", max_s=q), S.faults("emb", "VF", "persist", 300, q),
           S.seq("str-def-3-2", "move", 400, "VF", max_s=q), S.trav("trk-2-2", 300, q, (1, 0)), S.seq("int-def", "eq", 500, "VF", max_s=q),
           S.seq("pod3-norv-3-0", "trans", 400, "VF", max_s=q), S.huge("3-3", "concat", 80, q, "int", "vt::mp_mon", 3, 3),
           S.measured("cost", "", S.COST_CFG[1], 400, q), S.measured("cost", "", S.COST_CFG[0], 400, q),
           S.measured("shape", "search", S.COST_CFG[1][:4] + ("vt::u64",), 60, q),
           S.measured("shape", "churn", S.COST_CFG[0][:4] + ("vt::u64",), 120, q), S.seq("trk-emb-2-1", "id", 400, "VF", max_s=q),
           S.trav("str-3-1", 300, q, (1, 0)), S.faults("thrmv-emb", "VF", "inplace", 300, q), S.seq("ld-ufl-6-3", "mix", 400, "VF", max_s=q)]
    ass = [S.assoc("trk-2", "mix", 500, max_s=q), S.assoc("int-def", "diff", 400, max_s=q), S.assoc("trk-5", "eq", 400, max_s=q),
           S.assoc("trk-gc-5", "iso", 300, max_s=q), S.faults("trk", "SMT", "inplace", 300, q), S.faults("int", "SMT", "persist", 300, q),
           S.assoc("trk-5", "calls", 400, max_s=q), S.assoc("trk-norv-6", "trans", 400, max_s=q), S.trav("int-def", 300, q, (0, 1)),
           S.measured("cost", "", S.COST_CFG[0], 400, q), S.measured("cost", "", S.COST_CFG[1], 400, q),
           S.measured("shape", "hashed", S.COST_CFG[0][:4] + ("vt::u64",), 80, q), S.assoc("trk16-fl-5", "move", 400, max_s=q),
           S.assoc("trk-gc-2", "trans", 400, max_s=q), S.assoc("str-emb-3", "id", 400, max_s=q), S.faults("thrmv-int", "SMT", "inplace", 300, q)]
    arr = [S.seq("trk-2-2", "mix", 600, "A", max_s=q), S.seq("int-def", "mix", 600, "A", max_s=q), S.seq("trk16-fl-2-3", "mix", 500, "A", max_s=q),
           S.faults("trk", "A", "inplace", 300, q), S.faults("trk", "A", "persist", 300, q), S.seq("trk-gc-2-2", "trans", 400, "A", max_s=q),
           S.seq("trk-2-2", "eq", 400, "A", max_s=q), S.trav("trk-2-2", 300, q, (1, 0)), S.measured("cost", "", S.COST_CFG[0], 400, q),
           S.seq("ld-def", "iso", 300, "A", max_s=q), S.seq("pod3-norv-3-0", "id", 300, "A", max_s=q), S.faults("thrmv", "A", "inplace", 300, q)]
    small = S.p23("quick") + S.p24("quick") + S.p21("quick")[:5] + S.p22("quick")[:4] + [seq[0], seq[2], ass[0], seq[6], seq[7], seq[3], seq[8], ass[8],
                                                                                        ass[1], arr[0], seq[10], ass[9]]
    return {"rbts": seq, "hamts": ass, "arrays": arr, "small": small}[group]


def mutations(path):
    """[(line number, new line, rule)]"""
    out = []
    lines = open(path).read().split("\n")
    block = False
    for i, l in enumerate(lines):
        s = l.strip()
        if block or s.startswith(("/*", "//", "*", "#", "template", "static_assert", "assert", "using", "friend", "public", "private", "IMMER_ASSERT",
                                  "typename", "namespace", "case", "operator")) or not s:
            if s.startswith("/*"):
                block = True
            if "*/" in s:
                block = False
            continue
        if "assert" in l or "static constexpr" in l or "enable_if" in l or "noexcept(" in l:
            continue

        def rep(pat, to, rule):
            for m in re.finditer(pat, l):
                out.append((i, l[:m.start()] + m.expand(to) + l[m.end():], rule))
        rep(r" < (?!\w+>)", " <= ", "<")
        rep(r" <= ", " < ", "<=")
        rep(r" > ", " >= ", ">")
        rep(r" >= ", " > ", ">=")
        rep(r" == ", " != ", "==")
        rep(r" != ", " == ", "!=")
        rep(r" \+ 1\b", "", "+1")
        rep(r" - 1\b", "", "-1")
        rep(r" \+ (?!1\b)", " - ", "+")
        rep(r" - (?!1\b)", " + ", "-")
        rep(r" \+= ", " -= ", "+=")
        rep(r" -= ", " += ", "-=")
        rep(r" && ", " || ", "&&")
        rep(r" \|\| ", " && ", "||")
        rep(r"\bif \(([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*)\)", r"if (!(\1))", "not")
        rep(r"\btrue\b(?!_)", "false", "true")
        rep(r"\bfalse\b(?!_)", "true", "false")
        rep(r"memory_order_(acquire|release|acq_rel|seq_cst)", "memory_order_relaxed", "order")
        rep(r"->inc\(\)", "", "inc")
        rep(r"\bmin\(", "max(", "min")
        rep(r"\b0\b(?!x)", "1", "0") if "return" in l or "," in l else None
        rep(r"\+\+(\w)", r"--\1", "++") if "for (" not in l else None
        rep(r"(\w)_lr\b", r"\1_l", "lr") if 0 else None
        if s.endswith(";") and s.count("(") == s.count(")") and not re.match(
                r"(return|auto|const|static|T\b|size_t|using|node_t|count_t|shift_t|edit_t|else|for|if|while|throw|constexpr|break|continue|typename|bool|void|int|throw;|\}|goto|default|new)\b", s) \
                and re.match(r"[\w+\-*:(]", s) and not re.match(r"[\w:<>,]+[&*]* +[\w*&]+( =|;|\{|\()", s):
            prev = lines[i - 1].strip()
            if prev.endswith((";", "{", "}", ")", ":", "else")) or not prev:
                out.append((i, l[:len(l) - len(l.lstrip())] + ";", "delete"))
        if s in ("break;", "continue;"):
            out.append((i, ";", "delete"))
        if re.match(r"return (true|false);", s) is None and re.match(r"return \w+;$", s) and 0:
            pass
    return out


def one(a):
    k, group, f, ln, new, rule, old = a
    d = tempfile.mkdtemp(prefix="vt-mut-")
    try:
        shutil.copytree("/repo/immer", d + "/immer")
        p = d + "/immer/" + f
        lines = open(p).read().split("\n")
        lines[ln] = new
        open(p, "w").write("\n".join(lines))
        check.REPO = d
        for b in builds(group):
            out = d + "/bin"
            r = subprocess.run(check.compile_cmd(b, out), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return a, "compile", ""
            job = dict(b["jobs"][0])
            job["args"] = dict(job["args"], seed=7000 + k)
            job["args"]["max_s"] = min(25, job["args"].get("max_s", 25))
            job["timeout"] = 70
            res = check.run_job(out, b, job, d, "j")
            bad = check.classify(res)
            if bad:
                return a, b["name"], "%s %s" % (bad[0], bad[1][:100])
        return a, "", ""
    except Exception as e:  # noqa: BLE001
        return a, "error", repr(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    group, count = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    workers = int(sys.argv[4]) if len(sys.argv) > 4 else 6
    todo = []
    for g in FILES if group == "all" else [group]:
        for f in FILES[g]:
            src = open("/repo/immer/" + f).read().split("\n")
            for ln, new, rule in mutations("/repo/immer/" + f):
                todo.append((g, f, ln, new, rule, src[ln]))
    random.Random(seed).shuffle(todo)
    print("%d mutants possible" % len(todo), flush=True)
    todo = [(k,) + t for k, t in enumerate(todo[:count])]
    tally = {}
    with mp.Pool(workers) as pool:
        for a, who, msg in pool.imap_unordered(one, todo):
            k, g, f, ln, new, rule, old = a
            tally[who] = tally.get(who, 0) + 1
            print("%s %s:%d [%s] %s | %s => %s" % ("SURVIVED" if not who else who, f, ln + 1, rule, msg, old.strip(), new.strip()), flush=True)
    print(tally)


if __name__ == "__main__":
    main()
