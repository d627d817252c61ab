#!/usr/bin/env python3
import json
ROOT=__file__.rsplit('/',2)[0]
T="seeded deterministic simulation with fault injection: "
N="Sampled, not exhaustive: holds on every simulated run explored (both build flavours). Trusts the simulator's kernel, shell and network models and the oracle; real sharg, libstdc++ and glibc user-space code runs."
checks={
"U01":("histories of runs with crashes, storage faults, concurrency; consent model over the recorded history"),
"U02":("days of simulated runs with crashes; once-per-day and liveness checks over the history"),
"U03":("histories after an answer with crashes, torn writes and storage errors; stored decision as reference"),
"U04":("opted-out runs in generated environments; whole file system compared before and after"),
"U05":("hostile environments and failing calls; differential against a healthy run with notifications off"),
"U06":("virtual time, seeded thread interleavings, hanging servers, clock jumps; bounded-wait and termination checks"),
"U07":("download/notice histories with torn, concurrent and failing file access; notice model"),
"U08":("every shell command parsed by a model of sh in generated environments and compared with the documented request"),
"U09":("histories with faults, crashes and concurrent runs; every lasting change of the file system must be one of the licensed ones"),
"F01":("validations with faults and crashes in generated file systems; file system compared before and after"),
"F02":("validations with injected failures; leftover entries and descriptors"),
"F03":("validations against an executable reference model of the contracts, with and without injected failures"),
"F04":("every system call of a validation may fail; only validation_error may escape, no termination"),
"F05":("interleavings of 2-4 validating and writing processes with crashes; ownership over the event history"),
"P01":("interleaved threads and sequences of parsers; differential against solo runs"),
"P02":("failing allocations and callbacks at seeded positions; leak, termination and follow-up checks"),
"P03":("terminal sizes, failing ioctl, short writes, stalls; differential over page bytes"),
"P05":("one parser in seeded settings (environment, locale, memory contents, streams, history, failing calls); differential against the default setting"),
"P06":("pages printed while writes to standard output fail; bytes and exit status against the undisturbed page"),
"P04":("runs with faults in generated environments; process-wide state compared before and after"),
}
NA="depends on nothing but the parser specification and the command line: no schedule, clock, I/O, fault or second party is involved, so a simulator has nothing to decide; only input generation would be left, which is another technique"
m={"version":1,"setup_cmd":"./check --build",
"hooks":{"guard":"none","enable":"no hooks in /repo: system calls, clocks, threads, shell commands and allocations are intercepted at the process boundary","source_commits":[]},
"checks":[{"property":k,"quick_cmd":f"./check {k}","thorough_cmd":f"VERIF_TIER=thorough ./check {k}","evidence_file":f"evidence/{k}.json","technique":T+v,"level":"exploration","level_note":N} for k,v in checks.items()],
"not_applicable":[{"property":f"G0{i}","reason":NA} for i in range(1,8)],
"notes":"Replay: ./check --replay FILE [--trace]. Findings: KNOWN_FINDINGS.txt. Design: DESIGN.md."}
json.dump(m,open(ROOT+'/MANIFEST.json','w'),indent=1)
