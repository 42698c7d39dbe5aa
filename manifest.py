#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
T = "deterministic simulation with fault injection: seeded search over "
CLAIMED = {
    "C01": (T + "kill, power-loss and I/O-failure points of single commands", "Every output file is compared with its previous and its complete content after each simulated crash or failure."),
    "C02": (T + "I/O failures, full disks, short and interrupted calls", "An exit status of 0 is checked against the output of the undisturbed run."),
    "C04": (T + "the sizes of all reads and writes, interruptions and stream kinds", "Output and status are compared with the run whose I/O is not split."),
    "C05": (T + "entropy, clock, pid, memory layout, directory order, environment and other files lying about", "Output and status are compared between differently seeded machines."),
    "C13": (T + "I/O failures and failing helper programs", "The simulated disk is listed after each command that ended by itself."),
    "C03": (T + "invalid inputs, option values and file states, under seeded I/O pieces", "The simulated disk and the exit status after the refusal are compared with the state before."),
    "C06": (T + "kill, power-loss and failure points of merges that overwrite their inputs, and repetitions of them", "The transactions of all inputs are looked for on the surviving disk."),
    "C07": (T + "bank histories, overlapping downloads, sessions and the points at which their commands are disturbed and retried", "The journal is compared with the bank's records after each completed step."),
    "C08": (T + "histories of repeated merges, interrupted and retried", "The bytes of successive results are compared."),
    "C09": (T + "divisions of a merge into sessions, interrupted and retried", "The final journal is compared with that of the merge in one session."),
    "C10": (T + "ambiguous merges and their resolutions on differently seeded machines, with crashes and failures", "The result and its candidate marks are compared with an executable model of the README's matching algorithm."),
    "C11": (T + "entropy, interrupted random-number calls, crashes and failures over histories of fingerprint generation", "Fingerprints are checked for presence, uniqueness and permanence over the recorded history."),
    "C12": (T + "failure points, exit statuses and output sizes of simulated helper programs", "The import is compared with the statement the simulated helpers were given."),
    "C14": (T + "schedules of concurrent commands at system-call granularity, with crashes", "The files that are read and left are compared with those of the possible serial orders."),
    "C15": (T + "the byte at which a statement ends and the pieces in which it is read", "The import is compared with that of the complete statement."),
    "C16": (T + "histories of merge sessions, resolutions and reformatting with crashes between and inside sessions", "Each state is compared with an executable model of the matching rules (refinement)."),
    "C17": (T + "histories of interrupted runs followed by an undisturbed one", "The outputs are compared with those of the run that was never disturbed."),
    "C18": (T + "commands over protected files, who may open each file being looked at after every call", "Permission bits of each file and the directories above it against those of the file it replaces or copies."),
    "C19": (T + "damaged files, standard input, arguments and helper output, with failing calls and helpers", "Each command is watched for its end: a status with a reason, no panic, no signal, a bounded number of calls."),
    "C20": (T + "sequences of commands, each reading what the one before wrote, over damaged files and disturbed calls", "The status of each command, and an independent reader's view of the journal before and after it."),
}
COMMON = " Real: the accountmerge binary built from /repo, every system call executed on a scratch file system. Simulated: clock, entropy, process ids, directory order, durability of disk writes, helper programs, scheduling. Trusted: the shim that hands each system call to the simulator, the durability model (ordered metadata, data durable at fsync), the oracle. Sampled, not exhaustive."
m = json.load(open(os.path.join(V, "MANIFEST.json")))
m["setup_cmd"] = "./run.sh build"
m.pop("hooks", None)
m["checks"] = [
    {"property": k, "quick_cmd": f"./run.sh check {k} quick", "thorough_cmd": f"./run.sh check {k} thorough",
     "technique": t, "level": "exploration", "level_note": n + COMMON}
    for k, (t, n) in sorted(CLAIMED.items())
]
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = {x["property"]: x["reason"] for x in m.get("not_applicable", [])}
m["not_applicable"] = [{"property": i, "reason": na.get(i, "check under construction")} for i in ids if i not in CLAIMED]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
