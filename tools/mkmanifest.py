#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks below."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl") if l.strip()]
found = set(re.findall(r'^\s*"([A-Z]\d\d)" =>', open(f"{root}/harness/src/props/mod.rs").read(), re.M))
TRUST = "Says nothing about executions that were not run; trusts the harness's own model and encoder, which share no code with the library. "
ENC = "online oracle over executions of the real readers on generated wire data (independent encoder), panic/overflow/allocation/CPU monitors on"
MODEL = "lockstep runtime monitor: an independent reference model steps beside the real iterator and is compared after every event"
DIFF = "differential runtime monitoring of repeated executions with an offline checker over the recorded event logs"
FILES = "runtime monitoring of the real readers over generated directories and damaged archives, with an independent oracle for the result"
EXP = "offline conservation checker: exported rows against rows predicted from the recorded event log and the reference model"
T = {
 "D01": (ENC, "Every bit width 0..64 with every start position, plus random buffers."),
 "D02": (ENC, "All boundary values of every width and random ones, short and padded encodings, all tags wrong once."),
 "D03": (ENC, "Every event kind, every field, generated streams of both protocols' tracker layouts."),
 "D04": (ENC, "Every supported event kind and all union alternatives in both protocols' layouts."),
 "D05": (ENC, "Generated headers, details, lobby data and chats in both layouts, alone and from archives."),
 "D06": ("runtime monitoring under hostile workloads: panic, integer overflow, allocation peak and CPU monitors while mutated, cut and random sections are read", "Memory bound proportional to the input, CPU limit per case."),
 "D07": (ENC, "Every cut point of every generated stream and corrupted tails."),
 "D08": (ENC, "Every build boundary, and every section of a replay with each layout."),
 "D09": (ENC, "Every mismatch at every depth of every tagged structure, in both layouts, and with the harness's own oracle for the error that names it."),
 "S01": (DIFF, "Against an order oracle computed in exact integer arithmetic."),
 "S02": (DIFF, "Every suspension point of generated iterations: clone, save/restore and re-run against the uninterrupted log."),
 "S03": (DIFF, "Filtered iteration against the filtered log of the unfiltered one, all filter combinations."),
 "S04": (MODEL, "Registry compared unit by unit after every event."),
 "S05": (MODEL, "Selection and all ten groups of every player compared after every event."),
 "S06": (MODEL, "Hints of every command compared."),
 "S07": (MODEL, "Positions compared after every event; tag packing over all boundary and random pairs."),
 "S08": (MODEL, "Names on every item compared."),
 "R01": (FILES, "Panics inside the third-party archive reader are recorded findings, any other panic is a violation."),
 "R02": (FILES, "Identity recomputed from the file with an independent SHA-256 and calendar."),
 "E01": (EXP, "All six kinds of export, every column."),
 "E02": (EXP + "; serial and parallel exports compared under scheduling stress", "Arrow files are read back with the arrow crate."),
 "E03": (FILES, "Directory trees with links, odd names, unreadable and deep folders against an independent walk."),
 "E04": (FILES + "; serial and parallel runs compared", "Counts recomputed from what was generated."),
 "E05": (DIFF, "Round trip through serde_json of every value met in generated and sample replays."),
 "B01": ("runtime monitoring of the embedded tables against the asset files", "All versions and units, every field of the JSON files."),
 "B02": (FILES, "Generated balance XML directories, every field, with damaged files mixed in."),
 "C02": (ENC, "Oracle: the frame definitions in the documentation of coords.rs, in integers."),
 "L01": ("differential runtime monitoring of builds: the same generated inputs through three builds of the working tree and with logging on, complete outputs compared", "Configurations: default, no features, tracing off. Levels below info are compiled out by a dependency's own default in every build."),
 "C01": (ENC, "All sizes, versions and field orders of generated map files, cut and inconsistent ones refused."),
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in found:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "technique": T[i][0], "level": "exploration", "level_note": TRUST + T[i][1]})
    else:
        na.append({"property": i, "reason": "no check built yet; the technique applies"})
json.dump({"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": na}, open(f"{root}/MANIFEST.json", "w"), indent=1)
