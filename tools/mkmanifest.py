"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "an independent backtracking reference model"
T = {
 "C01": "monitor comparing every call of the real code with " + REF + " on generated patterns and inputs",
 "C02": "reference-model monitor on quantifier grids (count x mode x body x continuation x iterator category x unroll)",
 "C03": "reference-model monitor, every element on all 256 byte values",
 "C04": "reference-model monitor on token-pair and overlapping-alternative workloads",
 "C05": "reference-model monitor of all groups by number and name",
 "C06": "reference-model monitor on backreference workloads; compiler runs for undefined references",
 "C07": "reference-model monitor on lookaround workloads (all kinds x bodies x nestings)",
 "C08": "reference-model monitor at every position, all byte pairs around anchors",
 "C09": "reference-model monitor over all 32 flag sets and all spellings of a flag set",
 "C10": "verdict monitor: real compile-time parser against a reference parser, plus compiler runs that must fail",
 "C11": "online monitor of iteration histories against a sequential model; checked containers",
 "C12": "reference-model monitor over iterator kinds, containers and overloads",
 "C13": "AddressSanitizer, UBSan, checked containers and bounds-checking iterators under generated workloads",
 "C14": "processor-time watchdog, small-stack runs on long inputs, work counters on iterators",
 "C15": "differential monitor: compiler-evaluated result tables against run time, two compilers, all levels",
 "C16": "reference-model monitor on generated expression-API programs",
 "C17": "monitor reading every accessor of every result; owned copies re-read after input is destroyed",
 "C18": "ThreadSanitizer and history monitors over concurrent and interleaved operation sequences",
}
NOTE = ("Held on the executions of this run only (counts in the evidence file). Trusts the reference model in lib/refre.cpp, written from the README and the semantics of leftmost-first backtracking, the compilers and the sanitizers. "
        "Patterns, flags, iterator kinds and inputs are sampled with VERIF_SEED on top of fixed grids.")
EXTRA = {
 "C03": " Exhaustive in the 256 byte values per element; elements are a fixed list plus sampled sets.",
 "C10": " All strings of up to 3 characters over a 27-character alphabet (4 in the thorough tier) and every byte after about 90 parser states, plus sampled mutations.",
 "C14": " Termination is decided as bounded progress (a processor-time bound per call far above what the reference needs); stack as success under a 512 KiB limit; linearity as the growth of counted iterator operations.",
 "C18": " Interleavings are those the scheduler produced.",
}
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.exit(0)\" && g++ --version >/dev/null && clang++ --version >/dev/null",
  checks=[dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p, evidence_file="evidence/%s.json" % p,
               technique=T[p], level="exploration", level_note=NOTE + EXTRA.get(p, "")) for p in sorted(T)],
  not_applicable=[],
  notes="No hooks in /repo: the library is header-only and everything is observed at its public API, through instrumented iterators and sanitizers. Replay a violation with: python3 check.py --replay evidence/<id>-replay-<k>.json")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
