#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = ("TLC decides that every recorded execution of the real code is a behaviour of spec/Tecs.tla; programs come from TLC (GenTecs.tla: all short "
         "operation sequences) and from seeded generators. ")
NOTE = ("Bounded: the executions explored (counts in evidence). The specification itself is model-checked by TLC (MCTecs.tla) against the property as an "
        "invariant or action property. Trusts TLC, the script interpreter of /verif/harness and its logging; checked mode, g++, allocation batch size 2.")
CONC = ("Real threads under a deterministic scheduler that controls every atomic operation, wait, notify and yield of the unmodified sources (instrumented "
        "std::atomic); schedules: bounded systematic, PCT and random. Sequentially consistent interleavings. ")
API = ["C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C22", "C28"]
CHECKS = {}
for p in API:
    CHECKS[p] = ("TLA+ model (TLC), spec-generated and random programs replayed on the real code, trace validation by TLC", TRACE + NOTE)
WAIT = ("TLC decides that every recorded execution of the real code is a behaviour of spec/TraceWait.tla (waiting at quiescence as in TecsWait.tla); scenarios are the transitions of "
        "the model-checked MCWait.tla, plus seeded random programs. ")
for p in ["C04", "C05", "C06", "C07"]:
    CHECKS[p] = ("TLA+ model (TLC), scenarios from its transitions run on the real code, trace validation by TLC at quiescent points", CONC + WAIT + "Bounded: the executions explored (counts in evidence). Trusts TLC, the scheduler and script interpreter of /verif/harness.")
for p in ["C01", "C02", "C03"]:
    CHECKS[p] = ("TLA+ model (TLC), systematic and randomised schedules of the real code, trace validation by TLC", CONC + TRACE + NOTE)
CHECKS["C08"] = ("TLA+ model of C++20 happens-before (vector clocks), TLC validates recorded atomic operations and memory accesses of real executions",
                 "The unmodified sources are compiled with the compiler's memory-access instrumentation and run under the deterministic scheduler; TLC decides by spec/TecsHB.tla whether "
                 "any two conflicting accesses are unordered by the acquire/release orders requested (not by what one CPU does). Executions are sequentially consistent interleavings, so an "
                 "atomic read always reads the last write. Bounded: the executions explored. Trusts TLC, clang's instrumentation and the runtime in /verif/harness.")
CHECKS["C21"] = ("TLA+ model (TLC), scenarios from its transitions run on the real code, trace validation by TLC",
                 "TLC decides that every recorded execution of the real code is a behaviour of spec/Tecs.tla (nested starts rejected exactly when they must be) and of TraceWait.tla (a rejected start "
                 "leaves no lock behind); scenarios are the transitions of the model-checked TecsNest.tla. Library builds (a header-only build has no nesting detection). One known finding. Bounded.")
CHECKS["C23"] = ("TLA+ specification (TLC): TLC enumerates the programs of subviews and validates what the real views answered",
                 "spec/TecsView.tla defines the entities of a view; TLC checks consequences of the definition, enumerates every chain of two subviews of small lists as programs, and decides whether "
                 "every access path of the real EntityView (checked and unchecked builds) yielded those entities. Bounded: list lengths up to 257, chains up to 8. Trusts TLC and harness/viewdrv.cc.")
CHECKS["C24"] = ("TLA+ specification (TLC): recorded executions of the traced library under a deterministic scheduler with a virtual clock, validated by TLC",
                 CONC + "The library's clock is replaced by a virtual one that orders its events and the calls. TLC decides by spec/TracePerf.tla whether each performance trace is exactly what the calls "
                 "inside it lock, wait for and unlock, in an order that is a legal lock history, cut at its start, stop and capacity. One thread starts and stops traces. Bounded: the executions explored.")
CHECKS["C26"] = ("TLA+ specification (TLC): values enumerated by TLC and random ones; TLC validates the results of the real conversions and comparisons",
                 "spec/TecsId.tla works on bytes; three combinations of integer types, two compilers. TLC checks that the specified conversions are inverse and the order total over chosen words, then decides "
                 "whether the real functions agree. Bounded: the values tried (counts in evidence), not all 2^64.")
CHECKS["C25"] = ("TLA+ model (TLC): the programs of the other checks run in other build configurations, recorded executions validated by TLC against the one specification",
                 "One specification (spec/Tecs.tla, TraceWait.tla) judges every configuration: unchecked mode (with programs that TLC's reference run shows valid), header only, both, C++17 and C++20, "
                 "g++ and clang++, other allocation batch sizes and id widths, 64 and more component types. A configuration that does not build while the reference does is a violation. Bounded: the configurations and programs listed in evidence.")
CHECKS["C27"] = ("TLA+ specification (TLC): TLC enumerates permission lists and judges what the compiler accepted and what the traits of real lock types are",
                 "spec/TecsPerm.tla defines what each permission list allows; TLC proves over all pairs of lists that a lock converts exactly if the target can do nothing more, then decides whether traits, "
                 "conversions and thousands of generated one-line uses (accepted or rejected by the compiler) of the real headers agree. Bounded: lists of up to two permissions over two or three components. Trusts TLC and the compilers.")
for p in ["C01", "C03", "C09", "C11", "C14", "C16", "C17", "C22"]:
    t, n = CHECKS[p]
    CHECKS[p] = (t, n + " Large numbers (spec/TecsBulk.tla): groups of up to 10^5 entities, judged by counts, sums and digests.")
for p, m in {"C05": "TecsLock.tla (the lock words, one step per atomic operation)", "C13": "TecsBuf.tla (the two copies and the steps of a commit)", "C14": "TecsBuf.tla (the two copies and the steps of a commit)"}.items():
    t, n = CHECKS[p]
    CHECKS[p] = (t, n + f" TLC also checks a design-level model of the implementation, spec/{m}; that one is not bound to the code.")
PENDING = {p: "not yet built" for p in ["C%02d" % i for i in range(1, 29)] if p not in CHECKS}


def main():
    m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
    for p in sorted(CHECKS):
        t, n = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 lib/check.py {p} quick", "thorough_cmd": f"python3 lib/check.py {p} thorough",
                            "technique": t, "level": "model_checking", "level_note": n})
    for p, r in sorted(PENDING.items()):
        m["not_applicable"].append({"property": p, "reason": r})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
