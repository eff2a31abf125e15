#!/usr/bin/env python3
"""check.py Cxx            decides one property (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE  performs a recorded history again and judges it
   check.py --setup        builds everything the checks need"""
import json, os, random, re, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from engine import *

ASSUME = [
    "TLC evaluates the specification correctly",
    "the driver records what the library returned (it decides nothing itself)",
    "trees stay small enough not to overflow the stack, texts under 4 GiB",
]
RULE = ("one session is one history of library calls from a fresh start; every call and result of it is judged "
        "by TLC against the specification; distinct sessions are counted by their content")

# models and conformance per property:
#  trees:  size of the trees enumerated by MCForest, all of them performed
#  scen:   scenarios enumerated by MCSession: (environment, how many to perform or None for all)
#  gen:    profile of the random sessions
S3 = {"SIZE": 3, "DEPTH": 1}
S4 = {"SIZE": 4, "DEPTH": 1}
C2 = {"SIZE": 3, "DEPTH": 2, "COPY": 1}
D2 = {"SIZE": 3, "DEPTH": 2}
# scenarios with client code called in the middle of the last operation
A3 = {"SIZE": 3, "DEPTH": 1, "ASIDE": 1}
A4 = {"SIZE": 3, "DEPTH": 1, "ASIDE": 1, "COPY": 1}
A2 = {"SIZE": 2, "DEPTH": 2, "ASIDE": 1}
# hist:   histories of MCCursors, in the same way (handles come and go between the edits)
E3 = {"SIZE": 3, "DEPTH": 3}
E4 = {"SIZE": 3, "DEPTH": 4}
K4 = {"SIZE": 3, "DEPTH": 4, "COPY": 1}
K5 = {"SIZE": 3, "DEPTH": 5, "COPY": 1}
# histories of one child iterator between other operations
I2 = {"SIZE": 3, "DEPTH": 5, "ITER": 1, "HANDLES": 2}
I3 = {"SIZE": 3, "DEPTH": 4, "ITER": 1}
I1 = {"SIZE": 3, "DEPTH": 4, "ITER": 1, "HANDLES": 2}
J2 = {"SIZE": 3, "DEPTH": 5, "ITER": 1, "HANDLES": 2, "COPY": 1}
J3 = {"SIZE": 3, "DEPTH": 5, "ITER": 1, "COPY": 1}
HIST = {
    "C06": ([(I1, 12000), (J2, 8000)], [(I2, None), (I3, None), (J3, None)]),
    "C04": ([(E3, 4000)], [(E4, 60000), (K4, 30000)]),
    "C08": ([(E4, 12000)], [(E4, None), ({"SIZE": 4, "DEPTH": 3}, 100000)]),
    "C09": ([(K4, 8000)], [(K5, 150000)]),
    "C10": ([(E3, 4000), (K4, 4000)], [(E4, 100000), (K4, None)]),
    "C11": ([(E4, 6000), (K4, 8000), (I1, 4000), (J2, 3000)], [(E4, 150000), (K5, 100000), (I2, 60000), (J3, 60000)]),
}
WEAK_ITER = [("it-late", 0), ("it-late", 1), ("it-share", 1), ("it-give", 1), ("it-leak", 0)]
# forgotten handles: (which element and kind of tree, a green element?, as a power of two) per tier
FLOODS = ([(0, 0, 20), (4, 0, 20), (1, 1, 20)] + [(i, 0, 32) for i in range(6)],
          [(i, j, 20) for i in range(6) for j in range(2)] + [(i, 0, 32) for i in range(6)] + [(1, 1, 32)])
# mistakes that the laws of MCCursors have to notice: (name, mode)
WEAK = [("head", 0), ("unlink", 0), ("keep-green", 0), ("parent", 0), ("offset", 1), ("take", 1), ("take-off", 1),
        ("old-root", 0), ("no-adjust", 0), ("adjust-self", 0), ("detach-unlink", 0), ("detach-own", 0),
        ("detach-parent", 0), ("no-shift", 0), ("shift", 0), ("steal", 0)]
# builder: (calls per enumerated history, how many of the histories) per tier
PROPS = {
    "C01": dict(trees=None, scen=([], []), gen=None, builder=((7, 40000), (8, 400000))),
    "C02": dict(trees=None, scen=([], []), gen="C02", builder=((7, 20000), (8, 400000))),
    "C03": dict(trees=(5, 6), scen=([], []), gen="C03"),
    "C04": dict(trees=(5, 6), scen=([(S3, 6000)], [(S4, None), (C2, None)]), gen="C04"),
    "C05": dict(trees=(5, 6), scen=([(S3, 6000)], [(S4, 100000)]), gen="C05"),
    "C06": dict(trees=(5, 6), scen=([], []), gen="C06"),
    "C07": dict(trees=(5, 6), scen=([], []), gen="C07"),
    "C08": dict(trees=None, scen=([(S3, None)], [(S4, None), (D2, 250000)]), gen="C08"),
    "C09": dict(trees=None, scen=([(C2, 20000), (S3, 4000)], [(C2, None), (S3, None), (S4, 60000)]), gen="C09"),
    "C10": dict(trees=(5, 6), scen=([(S3, 6000)], [(S4, 100000)]), gen="C10"),
    "C11": dict(trees=(4, 5), scen=([(S3, 4000), (C2, 12000)], [(C2, None), (S3, None), (S4, 40000)]), gen="C11",
                builder=((6, None), (7, None)), module="HeapTrace", bmodule="BuilderHeapTrace"),
    "C13": dict(trees=(5, 6), scen=([], []), gen="C13"),
    "C14": dict(trees=(5, 6), scen=([], []), gen="C14"),
    "C15": dict(trees=(5, 6), scen=([], []), gen="C15"),
    "C16": dict(trees=(5, 6), scen=([], []), gen="C16"),
    "C17": dict(trees=None, scen=([(S3, 6000)], [(S4, 100000)]), gen="C17", builder=((6, None), (7, None))),
    "C18": dict(trees=None, scen=([(A3, 8000), (A4, 3000)], [(A3, 80000), (A4, None), (A2, 40000)]), gen="C18",
                module="HeapTrace"),
}
# histories over trees with very many children and very long texts: (per shard and round, shards) per tier
WIDE = {p: ((25, 3), (100, 4)) for p in PROPS if p not in ("C17", "C18")}
EVENTS = {"quick": 16000, "thorough": 15000}
BUDGET = {"thorough": 600}


def sharded(c, exe, mode, prof, lines, tag, shards=CPUS, module=None):
    module = module or PROPS[c.prop].get("module", "SessionTrace")
    f = os.path.join(c.work, tag + ".in")
    with open(f, "w") as o:
        o.write("\n".join(lines) + "\n")
    for i in range(shards):
        c.job(c.conform, exe[i % len(exe)], [mode, prof, f, "@", i, shards], "%s-%d" % (tag, i), timeout=300, module=module,
              judge_timeout=850)


def random_rounds(c, target, first=0, rounds=1):
    """One shard per core and round, from the sources of the property in turn."""
    p = PROPS[c.prop]
    src = []
    if p["gen"]:
        src.append(("session", p["gen"], p.get("module", "SessionTrace"), p.get("load", 1)))
    if p.get("builder"):
        src.append(("builder", c.prop, p.get("bmodule", "BuilderTrace"), 0.6))
    for r in range(first, first + rounds):
        for i in range(CPUS):
            seed = (c.seed * 1000 + r) * 64 + i
            binary, prof, module, f = src[i % len(src)]
            exe = os.path.join(target, ("debug", "release")[(i // len(src) + r) % 2], binary)
            c.job(c.conform, exe, ["gen", prof, seed, int(EVENTS[c.tier] * f), "@"],
                  "gen-%s-%d-%d" % (binary, r, i), module=module, note={"seed": seed})
    if c.prop in WIDE:
        n, shards = WIDE[c.prop][c.tier == "thorough"]
        for r in range(first, first + rounds):
            for i in range(shards):
                seed = (c.seed * 1000 + r) * 64 + i
                exe = os.path.join(target, ("debug", "release")[(i + r) % 2], "wide")
                c.job(c.conform, exe, ["gen", c.prop, seed, n, "@"], "wide-%d-%d" % (r, i), module="RunsTrace",
                      note={"seed": seed}, timeout=150)


def noticed(c, module, envs):
    """The laws of a model have to fail when a mistake is built into it."""
    for env in envs:
        def one(env=env):
            r = tlc(module, env=env, workers=1, work=c.work)
            if r.ok or r.timeout or not re.search("is violated|unexpected exception|Evaluating invariant .* failed", r.out):
                raise ToolError("the laws of %s do not notice %s\n%s" % (module, env, r.out[-500:]))
        c.job(one)
    c.notes.append("laws of %s notice %s" % (module, [e["WEAK"] for e in envs]))


def proved(c, module, needs):
    """A proof, checked by tlapm."""
    d = os.path.join(c.work, "proof")
    os.makedirs(d)
    for m in [module] + needs:
        shutil.copy(os.path.join(SPEC, m + ".tla"), d)
    out = ""
    for stretch in ("2", "8"):
        rc, out, to = run(["tlapm", "--threads", "4", "--stretch", stretch, module + ".tla"], 400, cwd=d)
        m = re.search(r"All (\d+) obligations proved", out)
        if m:
            c.exhaustive.append("%s: all %s proof obligations, for any number of threads and operations" % (module, m[1]))
            return
    raise ToolError("no proof of %s\n%s" % (module, out[-2000:]))


def session_check(c):
    p = PROPS[c.prop]
    th = c.tier == "thorough"
    target = build()
    exe = [os.path.join(target, b, "session") for b in ("debug", "release")]
    rng = random.Random(c.seed)
    random_rounds(c, target)
    if p["trees"]:
        size = p["trees"][th]
        lines = c.model("MCForest", {"SIZE": size}, emit="TREE", what="laws of the queries, all trees", timeout=850)
        sharded(c, exe, "trees", c.prop, lines, "trees", CPUS * (4 if th else 1))
        c.exhaustive.append("all %d trees of at most %d elements (empty, one and two byte tokens, childless nodes), "
                            "every query at every element" % (len(lines), size))
    for k, (env, limit) in enumerate(p["scen"][th]):
        lines = c.model("MCSession", env, emit="SCEN", what="laws of the edits, all trees and sets of handles", timeout=850)
        total = len(lines)
        if limit and total > limit:
            lines = rng.sample(lines, limit)
        sharded(c, exe, "scen", c.prop, lines, "scen%d" % k, CPUS * (1 if len(lines) < 40000 else 6))
        c.exhaustive.append("%d of the %d scenarios of MCSession at %s" % (len(lines), total, env))
    for k, (env, limit) in enumerate(HIST[c.prop][th] if c.prop in HIST else []):
        lines = c.model("MCCursors", env, emit="HIST", timeout=850, workers=8,
                        what="the cursor layer as it is built against what clients are promised, all histories")
        total = len(lines)
        if limit and total > limit:
            lines = rng.sample(lines, limit)
        sharded(c, exe, "scen", c.prop, lines, "hist%d" % k, CPUS * (1 if len(lines) < 40000 else 6))
        c.exhaustive.append("%d of the %d histories of MCCursors at %s" % (len(lines), total, env))
    if c.prop == "C11":
        noticed(c, "MCCursors", [{"WEAK": w, "SIZE": "3", "DEPTH": "4", "COPY": str(m)} for w, m in WEAK])
        noticed(c, "MCCursors", [{"WEAK": w, "SIZE": "3", "DEPTH": "5", "HANDLES": "2", "COPY": str(m), "ITER": "1"}
                                 for w, m in WEAK_ITER])
    if p.get("builder"):
        n, limit = p["builder"][th]
        lines = c.model("MCBuilder", {"CALLS": n}, emit="CALLS", timeout=850,
                        what="laws of the builder and of sharing, all call sequences, colliding hashes")
        total = len(lines)
        if limit and total > limit:
            lines = rng.sample(lines, limit)
        sharded(c, [os.path.join(target, b, "builder") for b in ("debug", "release")], "calls", c.prop, lines, "calls",
                CPUS, module=p.get("bmodule", "BuilderTrace"))
        c.exhaustive.append("%d of the %d sequences of %d builder calls (at most one of them refused)" % (len(lines), total, n))
    if c.prop in WIDE:
        edits = c.prop in ("C08", "C09", "C11")
        c.model("MCRuns", {"RUNS": 2 if th else 1, "EDITS": int(edits)}, timeout=850,
                what="closed forms for very wide trees and long texts against explicit trees")
    if c.prop == "C11":
        for which, green, n in FLOODS[th]:
            c.job(c.conform, exe[1], ["flood", which, green, n, "@"], "flood-%d-%d-%d" % (which, green, n), module="HeapTrace",
                  timeout=300)
        c.exhaustive.append("2^n - 1 handles forgotten (element, green, n): %s" % FLOODS[th])
    c.wait()
    r = 1
    while th and c.left(BUDGET["thorough"]) > 0 and not c.violations and not c.errors:
        random_rounds(c, target, r, 2)
        r += 2
        c.wait()
    return c.finish(RULE, ASSUME)


def arc_check(c):
    """C12: schedules of the atomic operations, and what may cross threads."""
    th = c.tier == "thorough"
    plain = build()
    hooked, why = plain, None
    try:
        hooked = build_hooked()
    except ToolError as x:
        # without the reports of the library: threads that run freely, and no judgement of memory orders
        why = str(x)
    exe = [os.path.join(hooked, b, "arcs") for b in ("debug", "release")]
    free = [os.path.join(plain, b, "arcs") for b in ("debug", "release")]
    c.job(c.conform, free[0], ["types", "@"], "types", module="ArcTrace")

    def rounds(r):
        for i in range(CPUS):
            seed = (c.seed * 1000 + r) * 64 + i
            c.job(c.conform, exe[(i + r) % 2], ["gen", "hb", seed, 20000 if not th else 60000, "@"],
                  "hb-%d-%d" % (r, i), module="ArcTrace", note={"seed": seed})
            c.job(c.conform, free[(i + r) % 2], ["gen", "free", seed, 10000 if not th else 30000, "@"],
                  "free-%d-%d" % (r, i), module="ArcTrace", note={"seed": seed})
    rounds(0)
    rng = random.Random(c.seed)
    for n, k, limit in [(2, 4, None), (3, 3, 12000)] if not th else [(2, 4, None), (2, 5, None), (3, 3, None), (4, 2, None)]:
        lines = c.model("MCArc", {"THREADS": n, "OPS": k}, emit="SCHED", cfg="MCArcEmit", timeout=850,
                        what="counts, releases and happens-before, all programs and schedules")
        total = len(lines)
        if limit and total > limit:
            lines = rng.sample(lines, limit)
        sharded(c, exe, "plan", "_", lines, "plan%d%d" % (n, k), CPUS * (1 if not th else 2), module="ArcTrace")
        c.exhaustive.append("%d of the %d schedules of all programs of %d threads with %d operations each"
                            % (len(lines), total, n, k))
    for n, k in [(2, 6), (3, 4)] if not th else [(2, 8), (3, 5), (4, 3)]:
        c.model("MCArc", {"THREADS": n, "OPS": k}, what="counts, releases and happens-before, all programs", timeout=850)
    noticed(c, "MCArc", [{"THREADS": "2", "OPS": "4", "WEAK": w} for w in ("sub", "load", "split", "early")])
    c.model("MCArcShare", {"THREADS": 2, "OPS": 4 if th else 3}, timeout=850,
            what="the protocol of the count with borrowed handles, handles that move, and owners that are no threads")
    noticed(c, "MCArcShare", [{"THREADS": "2", "OPS": "4", "WEAK": w} for w in ("sub", "load", "split", "early")])
    if th:
        c.job(proved, c, "ArcProof", ["ArcShare"])
    c.wait()
    r = 1
    while th and c.left(BUDGET["thorough"]) > 0 and not c.violations and not c.errors:
        rounds(r)
        r += 1
        c.wait()
    return c.finish("one session is one run of threads under one schedule; every atomic operation, allocation, release and "
                    "result of it is judged by TLC; distinct sessions are counted by their content",
                    ASSUME[:2] + ["every atomic operation sees the latest value of its location",
                                  "the count is kept in atomics of src/arc.rs, which the hook reports"],
                    {"memory_orders_judged": why is None})


def replay(path):
    with open(path) as f:
        lines = f.readlines()
    head = json.loads(lines[0])
    if head["exe"].startswith("hooked"):
        build_hooked()
    else:
        build()
    c = Check(head["property"], "quick", 0)
    src = os.path.join(c.work, "in.ndjson")
    with open(src, "w") as f:
        f.write("".join(lines[1:]))
    exe = os.path.join(BUILD, head["exe"])
    try:
        c.conform(exe, ["exec", src, "@"], "replay", module=head["module"], env=head["env"], note=head["extra"])
    except ToolError as x:
        c.errors.append(str(x))
    c.pool.shutdown()
    shutil.rmtree(c.work, ignore_errors=True)
    for p, why in c.violations:
        log("  " + why[:1500])
        log("VIOLATION property=%s replay=%s" % (c.prop, p))
    for e in c.errors:
        log(e)
    log("reproduced" if c.violations else "not reproduced")
    return 1 if c.violations else 2 if c.errors else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build()
        try:
            build_hooked()
        except ToolError as x:
            log(str(x))
        return 0
    if a and a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(a) > 1:
        tier = a[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(prop, tier, seed)
    try:
        return arc_check(c) if prop == "C12" else session_check(c)
    except ToolError as x:
        c.errors.append(str(x))
        return c.finish(RULE, ASSUME)
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
