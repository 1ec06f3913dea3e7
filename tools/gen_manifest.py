#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import registry

NOTES = {
 "sim": ("TLA+ specification of the trading simulator; TLC explores it exhaustively (small prices/signals) and every explored "
         "history is replayed into TradingSimulation; recorded simulations are validated against the specification by TLC",
         "All histories up to the stated depth over small price alphabets, and random long recorded ones; trusts TLC, the exact "
         "rational arithmetic override (Rat.java, cross-checked by RatCheck.tla) and pandas/numpy."),
 "ind": ("TLA+ definitions of all 57 indicators (exact rationals); TLC enumerates small markets that are replayed into the "
         "implementation, and validates recorded indicator data day by day",
         "Every market over a small alphabet of bars up to the stated depth for several parameter choices, plus recorded longer "
         "markets; input prices lie on a dyadic grid so that float sums are exact; tolerance is the documented rounding."),
 "sig": ("TLA+ signal rules of all indicators; TLC enumerates windows of critical indicator/price values that are injected into "
         "real objects, and validates the signals recorded at the end of every prefix of real data",
         "All windows of critical values up to the length the rule looks back; recorded signals on market data. Where the code "
         "compares unrounded internal averages a tie within 1e-9 is left open."),
 "api": ("TLA+ specification of objects, frames and calls; TLC enumerates call sequences that are replayed into the "
         "implementation, and validates recorded histories",
         "All call sequences up to the stated depth over a few objects and frames, plus recorded longer histories."),
 "frame": ("TLA+ specification of input normalisation; TLC enumerates small frames that are replayed into the implementation, "
           "and validates recorded constructions",
           "All frames up to the stated size over a small alphabet, plus recorded ones."),
 "ctor": ("TLA+ catalog of parameters (types, domains, defaults, minimum rows); TLC enumerates constructor calls with their "
          "expected outcome, replayed into the implementation",
          "Every parameter with every value of a critical alphabet, pairs for related parameters, every size around the minimum."),
 "life": ("TLA+ specification of an indicator's life as its data grow day by day; TLC enumerates continuations of a market that are "
          "replayed into real indicators (fresh objects per prefix, simulations), and validates the recorded lives",
          "All continuations over a small alphabet of bars after a warm-up, for every indicator and several parameter choices, plus "
          "recorded random markets with and without missing values."),
 "value": ("TLA+ specification of getTiValue as a partial function of dates; TLC enumerates small calendars and requests that are "
           "replayed into the implementation, and validates recorded requests",
           "All subsets of a small calendar and all requests over it in every form, for several indicators; unique dates, no time zone."),
 "args": ("TLA+ specification of the acceptance of simulation arguments; TLC enumerates calendars, close frames and numbers that are "
          "replayed into getTiSimulation and TradingSimulation, and validates recorded calls",
          "All combinations of a critical alphabet of arguments up to the stated size, plus recorded random ones."),
 "graph": ("TLA+ specification of the graph's panels and lines; recorded graphs (read back from matplotlib) are validated by TLC",
           "Graphs of all indicators on recorded data, read back through matplotlib's Axes objects."),
}

def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in registry.MAP:
            tech, note = NOTES[registry.KIND[i]]
            cmd = "/opt/venv/bin/python check.py " + i
            checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd + " --thorough", "technique": tech,
                           "level": "model_checking", "level_note": note})
        else:
            na.append({"property": i, "reason": "not built yet: specification and conformance check in preparation"})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python check.py --setup", "checks": checks, "not_applicable": na,
         "notes": "TLA+ checked with TLC; conformance by replaying TLC behaviours into, and validating traces recorded from, the "
                  "unmodified code through its public API. No hooks in /repo."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
