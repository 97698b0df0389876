#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, spec, technique, note, level="model_checking", state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, level=level, spec=spec, state=state))

prop("C01", "Chunking of the input never changes the result",
     "For every conversion and every input, feeding the input in any sequence of pieces (empty ones, one byte at a time, several calls, the last piece empty or not) and flushing at the end yields exactly the output bytes, the two error counts and the named counters that one call with the whole input yields. No piece boundary may fall at a place that matters.",
     ["inputs", "schedules"], "all conversions made of shipped modules, all inputs, all ways to cut them into pieces",
     "The test suite feeds each of 120 inputs once, whole (or through the CLI in one block); a boundary inside a multi-byte sequence, a shift state, a partial match or a lookahead is never exercised.",
     ["src/libbsdconv.c", "modules/from", "modules/inter", "modules/to"],
     [("rewindable match state (struct state, F_MATCH/F_PENDING/F_LOOPBACK) and the phase loop", "src/libbsdconv.c: bsdconv()"),
      ("per-codec private state kept between calls", "modules/*/*.c: cbconv/cbflush/cbinit")],
     ["bsdconv()", "bsdconv_counter()"],
     "Converter.tla, TraceConverter.tla",
     "TLA+ specification of the instance life cycle (Converter.tla) + TLC trace validation of recorded runs",
     "Converter.tla is model checked in a closed instance; recorded histories of the real library over every shipped module, with many random cuts of corpus-derived inputs, must be behaviours of it (TLC decides). Inputs and cuts are sampled, not exhausted, for shipped modules; C02 exhausts cuts for table conversions.")

prop("C02", "First codec with a match wins with its longest match; phases compose",
     "In every phase, at every position, the first codec in the list that has any match there takes its longest match; if none matches, a FROM phase skips one byte and counts one input error, an INTER phase passes the unit through, a TO phase drops the unit and counts one output error. The conversion's result is the composition of its phases over the whole input, however the input arrives.",
     ["inputs", "schedules", "configurations"], "all mapping tables, codec lists, phase lists, inputs and input cuts",
     "Backtracking over a longest match, fallback codecs and several phases interact; tests use the shipped tables on a handful of whole inputs and never observe rewinding across a call boundary.",
     ["src/libbsdconv.c", "src/libbsdconv_module.c", "src/bsdconv.h"],
     [("match/backtrack loop of the three phase kinds", "src/libbsdconv.c: bsdconv()"),
      ("flush order of pending phases", "src/libbsdconv.c: bsdconv() phase_begin")],
     ["bsdconv()"],
     "Table.tla, Engine.tla",
     "TLA+ model of the incremental engine, explored by TLC over all schedules and cuts against a closed form; its predictions replayed on the compiled library",
     "For randomly drawn small conversions TLC explores every input up to the bound, every cut and every phase schedule of the operational model and checks it equals the closed form; the same tables are compiled with the real table compiler and each predicted behaviour is replayed on the real engine with every cut. Bounded in table size and input length.")

prop("C03", "An initialised instance carries nothing over from earlier use",
     "After bsdconv_init an instance behaves exactly as a newly created one, whatever was converted before, including input abandoned in the middle of a character, a match, a shift state or a buffered run.",
     ["histories", "inputs"], "all conversions, all earlier inputs with or without flush, all later inputs",
     "Tests create one instance per conversion and never reuse it after abandoning input.",
     ["src/libbsdconv.c", "modules/from", "modules/inter", "modules/to"],
     [("bsdconv_init resets phases, queues and calls each codec's cbinit", "src/libbsdconv.c: bsdconv_init()"),
      ("codec private state reset", "modules/*/*.c: cbinit")],
     ["bsdconv_init()", "bsdconv()"],
     "Converter.tla, TraceConverter.tla",
     "TLA+ life-cycle specification + TLC trace validation of histories that abandon input before re-initialising",
     "Histories over every shipped module; the specification's learned oracle makes any dependence on the abandoned input a rejected trace. Sampled inputs.")

prop("C04", "Output modes agree and lose nothing",
     "Whatever way output is collected — allocated result, caller's buffer of any size repeated until drained, file descriptor, stream, next conversion's input, or discarded — the same bytes come out in the same order; the caller's buffer is never overrun, and discarding changes only what is delivered, not counts or later behaviour.",
     ["inputs", "schedules", "configurations"], "all conversions, inputs, cuts, output modes and buffer sizes",
     "The suite only ever uses the allocated result (and the CLI the FILE mode); small buffers, and interleaving of modes on one instance, are not exercised.",
     ["src/libbsdconv.c"],
     [("output stage of bsdconv() by output_mode", "src/libbsdconv.c: bsdconv() output switch")],
     ["bsdconv() with BSDCONV_AUTOMALLOC, PREMALLOCED, FILE, FD, PASS, NULL, HOLD"],
     "Converter.tla, TraceConverter.tla",
     "TLA+ delivery actions (drained/partial/held) + TLC trace validation",
     "Recorded histories mixing every mode, with buffer sizes from 0 up, validated against Converter.tla; address sanitizer watches the buffers.")

prop("C05", "A conversion 'A|B' equals running A and feeding its result to B",
     "Joining two conversions with '|' gives the result of running the first and feeding its output to the second, with error counts added; chaining two instances by passing output as input behaves the same, for all inputs and cuts.",
     ["inputs", "schedules", "configurations"], "all pairs of conversions, inputs and cuts",
     "Tests contain a few fixed pipes and no chained instances.",
     ["src/libbsdconv.c"],
     [("phase list of several FROM..TO groups", "src/libbsdconv.c: bsdconv_create(), bsdconv()"),
      ("BSDCONV_PASS output mode", "src/libbsdconv.c: bsdconv()")],
     ["bsdconv_create()", "bsdconv()"],
     "Converter.tla, TraceConverter.tla",
     "TLA+ composition actions (Composes, ChainCall) + TLC trace validation",
     "Random pipes built from shipped modules, run joined, separately and chained; validated against Converter.tla.")

prop("C10", "Instances are independent of each other",
     "Any number of instances may exist and be used in any interleaving in one process, or at the same time by different threads once they are created, of the same or different conversions, without one affecting the output, counts, counters or stored values of another.",
     ["schedules", "histories"], "all sets of instances and all interleavings of their operations",
     "The tests run one instance at a time.",
     ["src/libbsdconv.c", "src/libbsdconv_counter.c", "src/libbsdconv_hash.c", "modules/inter", "modules/from", "modules/to"],
     [("all conversion state hangs off the instance (per-codec priv)", "src/libbsdconv.c: bsdconv_create(), modules/*/*.c: cbcreate")],
     ["bsdconv_create()", "bsdconv()", "bsdconv_destroy()"],
     "Converter.tla, TraceConverter.tla",
     "TLA+ specification with several instances + TLC trace validation of interleaved histories and of histories of threads run at the same time, with accesses outside the instance reported (-fsanitize=thread)",
     "Random interleavings of create/init/feed/destroy on several instances, validated against Converter.tla, whose instances share nothing but the (learned) meaning of a conversion string.")

exec(open(os.path.join(V, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(V, "tools", "more_props.py")) else None

NA = []
def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as fp:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                             "observe_at": p["observe"], "hook_needed": None}}
            if p["state"]:
                d["anchors"]["state"] = [{"name": a, "meaning": b, "where": w} for a, b, w in p["state"]]
            fp.write(json.dumps(d, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(V, "checks", p["id"] + ".py")):
            checks.append({"property": p["id"], "quick_cmd": "python3 checks/%s.py" % p["id"],
                           "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % p["id"],
                           "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "not built yet"})
    m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na + NA,
         "notes": "Specification language: TLA+ with TLC (see DESIGN.md). No hooks in /repo: everything observed goes through the public API, the CLI and the table compiler."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
        json.dump(m, fp, indent=1, ensure_ascii=False)
        fp.write("\n")
main()
