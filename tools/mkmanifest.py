"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
WIDE = "; trees with millions of children and long texts judged in closed form, the closed forms model checked against explicit trees"
CURS = "; histories of a second TLA+ model, of the cursor layer as it is built, which TLC checks to refine the first, performed as well"
TECH = {
    "C01": "TLA+ model of the builder checked with TLC; call sequences enumerated by TLC and random ones performed on the real builder, traces validated with TLC" + WIDE,
    "C02": "TLA+ model of hash-consing checked with TLC; histories of real caches validated with TLC, sharing observed as addresses" + WIDE,
    "C11": "TLA+ models of ownership (handles, cursors, green elements) checked with TLC; their histories and random ones performed under a tracking allocator, block counts validated with TLC" + WIDE,
    "C12": "TLA+ model of the atomic reference count with happens-before checked with TLC, and for any number of threads proved with TLAPS (thorough); all schedules of the model driven through the real Arc by a scheduler hook, recorded runs validated with TLC",
    "C18": "TLA+ specification checked with TLC; every call of client code in every small scenario (enumerated by TLC) and in random histories panics, edits, drops or formats; recorded traces and block counts validated with TLC",
}
DEF = ("TLA+ specification checked with TLC over all small trees; TLC-enumerated scenarios and random histories performed "
       "on the real library, recorded traces validated with TLC against the specification")
def tech(p):
    return TECH.get(p) or DEF + (CURS if p in ("C04", "C06", "C08", "C09", "C10") else "") + ("" if p == "C17" else WIDE)
NOTE = ("Model checking of the specification (laws that do not repeat its definitions) in the bounds named in the evidence; "
        "binding by trace validation: every call and every result of the real code in the enumerated scenarios and the random "
        "histories is judged by TLC. Trusts TLC, the recording driver, and that behaviour outside the bounds resembles that inside.")
NA = {}
def main(claimed):
    checks = [{
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick python3 tools/check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p["id"],
        "technique": tech(p["id"]), "level": "model_checking", "level_note": NOTE,
    } for p in props if p["id"] in claimed]
    m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": checks,
         "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check under construction")}
                            for p in props if p["id"] not in claimed]}
    if "C12" in claimed:
        m["hooks"] = {"guard": "cfg(rowan_sched_hooks)",
                      "enable": "RUSTFLAGS='--cfg rowan_sched_hooks' (separate target directory, only for the C12 check)",
                      "source_commits": HOOKS}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
HOOKS = ["2df6bf41c56c6ab359abf30b2edda3b499babdf1"]
CLAIMED = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"]
main(CLAIMED)
