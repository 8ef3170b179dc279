#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "deterministic simulation with fault injection: "
SIMOS = TECH + "the shipped binary under a simulated kernel (seeded threads, clock, %s), seeded search, "
NOTE = "Seeded search over simulated executions, not exhaustive: it shows the property on every execution explored. Trusts the simulated kernel (simos) to behave like Linux for the calls made; preemption at system calls and lock operations."
C = {
 "R01": ("terminal, signals", "line-editor model and one-shot evaluations as oracle"),
 "R02": ("terminal, signals", "reference model of session variables as oracle"),
 "R03": ("terminal, signals", "reference model of the history as oracle"),
 "R04": ("terminal, signals", "terminal emulator inspected at every wait"),
 "R05": ("terminal, signals", "signals placed at every kind of moment, bounded-time liveness"),
 "R06": ("terminal, signals", "hostile input, bounded-time probe lines"),
 "R07": ("output stream faults", "delivered bytes against the fault-free output"),
 "R08": ("random device, environment, signals", "differing processes compared with each other"),
 "S01": ("sockets, clients", "window model of the request limit as oracle"),
 "S02": ("sockets, clients", "window model of the request limit as oracle"),
 "S03": ("sockets, clients", "fresh-instance answers as oracle"),
 "S04": ("sockets, clients", "request/response history check"),
 "S05": ("sockets, clients", "explicit answers as oracle"),
 "S06": ("sockets, clients", "failing evaluations beside probe clients, bounded-time liveness"),
 "S07": ("sockets, clients", "stalled and dead clients beside probe clients, bounded-time liveness"),
 "S08": ("sockets, clients, signals", "termination at seeded moments, history check"),
 "S09": ("sockets, clients", "window model per identity as oracle"),
}
LIB = {
 "L01": "user callbacks that fail or panic at every call of seeded expressions, against a reference evaluator and an untouched twin",
 "L02": "recorded user callbacks with side effects and re-entrancy, against a reference evaluator",
 "L03": "seeded histories of registrations with refusals, against a reference name table",
 "L04": "a controlled random source with extreme and seeded values behind the random-number function",
 "L05": "seeded interleavings of several evaluators over threads, against each evaluator alone",
}
LNOTE = "Seeded search over histories and injected failures, not exhaustive: it shows the property on every execution explored. The library itself is real code; user callbacks, the random source and the interleaving are simulated."
NA = {
 "P01": "a pure function of one expression: no schedule, time, I/O, fault or history takes part, so simulation with fault injection would only be random testing",
 "P02": "pure arithmetic on its operands: nothing for a scheduler or fault injector to decide",
 "P03": "pure formatting and parsing of one value: nothing for a scheduler or fault injector to decide",
 "P04": "pure numerical accuracy of single calls: nothing for a scheduler or fault injector to decide",
 "P05": "a pure function of one text: nothing for a scheduler or fault injector to decide",
 "P06": "a static relation between tables of names: no execution history, schedule or fault takes part",
}
def check(i, tech, note):
    return {"property": i, "quick_cmd": "python3 driver/check.py %s --tier quick" % i, "thorough_cmd": "python3 driver/check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "exploration", "level_note": note}
checks = [check(i, SIMOS % a + b, NOTE) for i, (a, b) in C.items()]
na = [{"property": i, "reason": r} for i, r in NA.items()]
if os.path.isdir(os.path.join(HERE, "libsim")):
    checks += [check(i, TECH + b, LNOTE) for i, b in LIB.items()]
else:
    na += [{"property": i, "reason": "check under construction"} for i in LIB]
M = {"version": 1, "setup_cmd": "python3 driver/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the binaries run unmodified under an LD_PRELOAD simulated kernel, the library through its public interface."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
