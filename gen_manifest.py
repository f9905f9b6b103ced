#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, subprocess
T = {
 # id: (technique, level, note)
}
MODEL = "runtime monitoring: model-based oracle over random table histories on an instrumented in-memory object store"
for i in ["C01","C02","C03","C04","C06","C07","C08","C09","C23","C24","C25","C26"]:
    T[i] = (MODEL, "exploration", "holds on every history generated for this seed; trusts the simulated writer and reference model in harness/src/sim.rs and the Arrow and Parquet crates")
T["C05"] = (MODEL + "; writers cut at every storage operation", "exploration", "holds on every history and cut point generated for this seed except the known finding's class; trusts the simulated writer and reference model")
T["C10"] = ("runtime monitoring: differential oracle (the same call run alone) plus hang watchdog under injected delays, yields and orders", "exploration", "holds on the schedules observed for this seed; schedules are sampled, not enumerated")
T["C11"] = ("runtime monitoring: fault injection at every storage operation with a fault-free oracle", "exploration", "holds for every fault injected for this seed, at object-store operation granularity")
T["C28"] = ("runtime monitoring: fault injection into commit metadata with the undamaged table's answers as oracle, and a panic monitor", "exploration", "holds for the damage generated for this seed")
T["C29"] = ("runtime monitoring: differential oracle (the same call run alone), storage-operation log and hang watchdog while calls are dropped at random points", "exploration", "holds for the cancellations and schedules observed for this seed; they are sampled, not enumerated")
T["C27"] = ("runtime monitoring: checker over the recorded storage-operation log", "exploration", "holds on every operation log recorded for this seed; operations that bypass the object store (none in this code base) would not be seen")
T["C12"] = ("runtime monitoring: panic, allocation and hang monitors plus a row oracle over mutated and truncated log files", "exploration", "holds on the damaged files generated for this seed; bytes inside Avro/Parquet payloads are decoded by those crates, whose own panics are only counted")
T["C13"] = ("runtime monitoring: round-trip oracle over random Avro schemas, values and batch sizes written by an independent encoder", "exploration", "holds on the schemas and values generated for this seed")
T["C14"] = ("runtime monitoring: reference oracle over random timeline directories", "exploration", "holds on the directories generated for this seed, in a time zone with daylight saving and in UTC")
T["C15"] = ("runtime monitoring: round-trip and order oracle over random and mutated instant file names", "exploration", "holds on the names generated for this seed")
T["C16"] = ("runtime monitoring: reference model of the option precedence over random option sets, process environments and defaults files", "exploration", "holds on the option sets generated for this seed")
T["C17"] = ("runtime monitoring: panic monitor and acceptance oracle over random valid and invalid table properties, options and timestamps", "exploration", "holds on the properties and arguments generated for this seed")
T["C18"] = ("runtime monitoring: reference grammar and permutation oracle over random and mutated file names", "exploration", "holds on the names generated for this seed")
T["C19"] = ("runtime monitoring: differential oracle (the same SQL over the model's rows in memory) over random queries, plans and tables", "exploration", "holds on the queries and tables generated for this seed; trusts DataFusion's own evaluation over in-memory tables")
T["C20"] = ("runtime monitoring: differential oracle (the same call on the Rust library) over the Python package built from the tree, with interpreter-exit and hang monitors", "exploration", "holds on the tables and calls generated for this seed; debug build of the extension module, CPython 3.12")
T["C21"] = ("runtime monitoring: differential oracle (the same table in memory under a plain name) over random odd names and address forms on disk, every reported path followed", "exploration", "holds on the names and address forms generated for this seed except the known finding's class; Linux file names only")
T["C22"] = ("runtime monitoring: differential oracle over an S3-compatible HTTP endpoint with fault injection; every request's signature recomputed independently", "exploration", "holds on the tables, listings and faults generated for this seed; S3 only (Azure and Google stores are not emulated)")
try:
    from manifest_extra import EXTRA
    T.update(EXTRA)
except ImportError:
    pass
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        tech, lvl, note = T[i]
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"bash run.sh {i}",
                       "technique": tech, "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
log = subprocess.run(["git","-C","/repo","log","--format=%H %s","8d0985b..HEAD"],capture_output=True,text=True).stdout
hooks = [l.split()[0] for l in log.splitlines() if l.split(" ",1)[1].startswith("verif hook")]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "cfg(hudi_verif)", "enable": "RUSTFLAGS='--cfg hudi_verif' (build.sh sets it)", "source_commits": hooks[::-1]},
     "checks": checks, "not_applicable": na,
     "notes": "run.sh <id> [--case N] builds from /repo's working tree and runs one check; VERIF_SEED and VERIF_TIER select seed and depth."}
json.dump(m, open("MANIFEST.json","w"), indent=1)
open("MANIFEST.json","a").write("\n")
