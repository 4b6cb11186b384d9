#!/usr/bin/env python3
"""Writes MANIFEST.json. Run by hand when the list of checks changes."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": ("TLA+ state machine with crash states (Transport.tla/TransportCore.tla); real process killed at every memory-changing instruction, survivors' observations validated by TLC",
         "every crash point of the scripted and sampled critical sections at machine-instruction granularity; scripts are bounded"),
 "C02": ("TLA+ state machine of the transport (Transport.tla), TLC-exhaustive; recorded executions of the real code validated against it by TLC",
         "model exhaustively checked in the stated bounds; the implementation is bound to it by validating exhaustive short and random longer histories, not by proof"),
 "C03": ("TLA+ state machine of the robust mutex (Mutex.tla), TLC-exhaustive; the library's code run one shared access at a time under systematically chosen schedules and deaths, call/return histories validated by TLC",
         "schedules exhaustive up to a bound on forced switches and deaths for short scripts, random beyond; the kernel's futexes are simulated"),
 "C04": ("TLA+ state machines of condition variable (Mutex.tla), event and latch (EventLatch.tla); systematically scheduled executions of the real code validated by TLC",
         "as C03"),
 "C05": ("TLA+ state machine of the transport with waiting (Transport.tla), TLC-exhaustive; systematically scheduled executions of the real code with deaths and passing time validated by TLC",
         "as C03"),
 "C06": ("TLA+ state machine of readers over a log (Reader.tla), TLC-exhaustive; exhaustive short and random longer histories of all polling readers, and systematically scheduled executions of all background readers, validated by TLC",
         "as C02 for the polling readers, as C03 for the background ones"),
 "C07": ("TLA+ state machines of the handles with closing; systematically scheduled executions of the real code with a close at every point validated by TLC",
         "as C03"),
 "C08": ("TLA+ state machine of the deadman (Deadman.tla), TLC-exhaustive; systematically scheduled executions of the real code with deaths validated by TLC; real processes on deadman files, some killed",
         "as C03"),
 "C15": ("TLA+ definition of which file a topic or path means (Topic.tla); every protocol object and file operation of the real code run with enumerated names, templates and roots, the files that appear validated by TLC",
         "enumerated and sampled texts, not all"),
 "C19": ("TLA+ definition of matching (Glob.tla), TLC shows the single-fallback matcher (GlobImpl.tla) equal to it; all short patterns against all short paths and derived longer ones in the real code, answers validated by TLC",
         "all texts up to the stated lengths, sampled beyond"),
 "C20": ("TLA+ finite map (Map.tla), TLC shows the robin-hood table (MapImpl.tla) refines it for every hash function in bounds; exhaustive short and random longer histories of the real map validated by TLC",
         "as C02"),
 "C21": ("TLA+ definition of times, texts and calendar (Time.tla), calendar formulas checked by TLC day by day (Calendar.tla); conversions by the real code over boundary values, all field values and mutated texts validated by TLC",
         "boundary and sampled values, not all"),
 "C09": ("TLA+ model of packets with replayed traces; cell-level model of the serialised form",
         "packet values, iterator machines and statistics as a TLA+ specification; the driver's runs of the real code are checked against it step by step"),
 "C10": ("TLA+ state machine of writers and middleware chains (Writer.tla), TLC-exhaustive; recorded programs and systematically scheduled executions of the real code validated by TLC",
         "as C02 for programs, as C03 for schedules"),
 "C11": ("TLA+ specification of a configuration topic checked with TLC; recorded sequential programs and scheduled executions (with crashes) of the real code validated against it",
         "every value under every patch; users, watchers and crash points systematically up to 3 forced switches (4 thorough), random beyond; JSON library replaced by a stand-in"),
 "C12": ("TLA+ state machine of remote calls (Calls.tla), TLC-exhaustive; random programs of the real code with real threads and systematically scheduled executions validated by TLC",
         "as C02 for programs, as C03 for schedules"),
 "C13": ("TLA+ state machine of remote calls with progress (Calls.tla), TLC-exhaustive; random programs of the real code with real threads and systematically scheduled executions validated by TLC",
         "as C12"),
 "C14": ("TLA+ state machine of log topics (Log.tla), TLC-exhaustive; random programs of the real code with real threads and systematically scheduled executions validated by TLC",
         "as C12"),
 "C16": ("TLA+ state machine of opening files (File.tla) and of the algorithm used (FileImpl.tla, TLC-exhaustive); real processes stepped one system call at a time with injected failures and deaths, every execution validated by TLC",
         "exhaustive interleavings of system calls up to the stated bounds; the trace spec decides each execution"),
 "C17": ("TLA+ specification of a directory tree with removal and listing, model check of the removal algorithm on every small tree, trace validation of real operations by an unprivileged process",
         "Every tree of up to 3 (4) nodes over two names and every path in it; random larger trees; the whole tree compared with the specification after every operation."),
 "C18": ("TLA+ specification of discovery over the pattern specification, model check of the watch-and-scan algorithm, trace validation of real processes stepped by system call",
         "One interruption at every system call, two or more up to a cap; fixed and random histories of up to 14 changes at depth up to 4; queue overflow."),
 "C22": ("TLA+ specification of the transport started from arbitrary logs, model check of the upgrade at every instant and death of its old users, trace validation of the real transport opening arenas of the previous layout",
         "Seeded random rings in the old layout and random histories after the upgrade; one opener at a time."),
}
HOOKS = None
NA = []
def main():
    checks = []
    for pid in sorted(TECH):
        t, note = TECH[pid]
        checks.append({"property": pid, "quick_cmd": "bin/check %s quick" % pid, "thorough_cmd": "bin/check %s thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": t, "level": "model_checking", "level_note": note})
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
    m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
         "not_applicable": NA,
         "notes": "Specifications in spec/, drivers in harness/, verdict logic in lib/. Checks build /repo's working tree into /verif/.build."}
    if HOOKS: m["hooks"] = HOOKS
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    missing = [p for p in props if p not in TECH and p not in [n["property"] for n in NA]]
    print("without check:", missing)
main()
