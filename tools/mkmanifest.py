#!/usr/bin/env python3
# Writes /verif/MANIFEST.json. Run after editing; the json is what is committed and read.
import json, os
LEVEL="seeded search over simulated runs of the real code; every interleaving point, fault and crash is the simulator's; nothing is exhaustive. Trusted: the reference model in sim/harness, badger's recovery between its own commits, the page cache surviving a process crash (C20: only what was synced survives a loss of power)"
WHAT={
"C01":"exporters, flushes and scans interleaved; must/may reference model",
"C02":"crashes and restarts at arbitrary points, torn index logs; must/may reference model",
"C03":"crashes and write errors inside flushes; whole-or-absent reference model",
"C04":"stop requests at any moment; everything acknowledged is there after the next start",
"C05":"label-rich exports and filter conjunctions over dictionaries of any life; model of filters",
"C06":"windows, units, clocks and zones; model of time units",
"C07":"instant scans under concurrency, restarts, crashes; acceptance order model",
"C08":"near-identical telemetry of all kinds, merged; multiset of uniquely marked points",
"C09":"read errors at every layer; error or complete answer",
"C10":"write errors for a while; everything acknowledged is stored afterwards, once",
"C11":"concurrent translators and lookups with crashes and errors; bijection and stability model",
"C12":"degenerate requests in any mix; responses, process life and model of the rest",
"C13":"overlapping scans and flushes; atomic, isolated, monotonic by model",
"C14":"faults, cancellation, stalls; bounded progress after they stop, no open transactions, clean stop",
"C15":"concurrent scripts with skewed clocks against the server; point level filter model",
"C16":"concurrent compressed streams with failing, truncated, corrupt and abandoned peers; identical or error",
"C17":"concurrent query runs sharing a cache, crashes and file errors; output equals that of a fresh compile",
"C18":"concurrent scripts rendering to failing outputs; exact model of the printed text and decoded JSON",
"C19":"the server's own spans and metrics recorded concurrently with flushes, faults and stops; model of every span and cumulative value",
"C20":"losses of power that take or tear whatever was not synced, in flushes, starts and after stops; must/may reference model",
}
NA={
"C31":"row-set algebra is a pure function of its input and not used by the server: nothing for a simulator to decide",
}
CLAIMED=open(os.path.join(os.path.dirname(__file__),"claimed")).read().split()
m=dict(version=1,setup_cmd="bash sim/build.sh",
 hooks=dict(guard="none: /repo carries no hooks; the simulator instruments copies of its source files and of its dependencies through go's -overlay and -modfile when it builds",enable="bash sim/build.sh",source_commits=[]),
 checks=[dict(property=c,quick_cmd=f"bash check.sh {c} quick",thorough_cmd=f"bash check.sh {c} thorough",technique="deterministic simulation with fault injection: "+WHAT[c],level="exploration",level_note=LEVEL) for c in CLAIMED],
 not_applicable=[dict(property=k,reason=v) for k,v in NA.items()]+[dict(property=k,reason="its harness is not finished") for k in WHAT if k not in CLAIMED],
 notes="Replay a violation with: bash replay.sh FILE [-v]")
with open(os.path.join(os.path.dirname(__file__),"..","MANIFEST.json"),"w") as f: json.dump(m,f,indent=1); f.write("\n")
