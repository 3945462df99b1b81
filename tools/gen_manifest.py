#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
TECH = "deterministic simulation with fault injection: seeded search over schedules, faults and build histories of the real code, "
ORACLE = {
 "C01": "outputs compared with a from-scratch reference model after every successful run",
 "C02": "generator outputs compared with a reference model after every successful run",
 "C03": "ordering and exactly-once checked on the recorded history of command and callback events",
 "C04": "exit status, post-build step and tests checked against the injected and modelled failures of each run",
 "C05": "containment checked on the event history, redo and outputs checked on the following runs",
 "C06": "executed steps of undisturbed runs compared with the model's affected steps",
 "C07": "kills at arbitrary simulated instants, then recovery runs compared with the reference model",
 "C08": "edits at arbitrary simulated instants, then the following run compared with the reference model",
 "C09": "injected storage errors; exit status, files and recovery compared with the reference model",
 "C10": "the same history under several schedules and worker counts, results compared",
 "C11": "happens-before race detection on every instrumented access of every simulated schedule",
 "C12": "deadlock detection and step budget in the simulated scheduler",
 "C13": "test executions, captured output and exit status checked on the event history",
 "C14": "command execution against simulated processes with scripted exit, signal, spawn failure and output chunking",
 "C15": "save/load round trips under injected errors and short transfers compared with the bytes on the simulated disk",
 "C16": "toolchain search and queries over generated directories, failing and chunked answers, compared with a reference",
 "C17": "database parsed and compared with the reference model after every successful run",
 "C18": "stored state damaged between runs, then the following run compared with the reference model",
 "C19": "concurrent expansions in simulated worker threads compared with a reference expansion",
 "C20": "descriptions recorded by simulated concurrent threads, stored and loaded under injected storage errors, compared with what was recorded",
 "C21": "generated command lines and configuration files, with injected errors on the files, compared with the settings they stand for",
 "C22": "the same history under other spellings of its paths compared run by run; the tool that compiled each source checked; files of other kinds declared",
 "C23": "program searches over generated directories and variables, directory order shuffled and errors injected, compared with a reference search",
 "C24": "the same history with options declared through shared descriptions compared run by run with directly declared ones",
 "C25": "contradictory declarations injected into build scripts at any point of a history; nothing may run and the run must fail",
 "C26": "the whole buildexe program run over generated homes, workspaces, settings and histories with failing commands, kills and storage errors; each run compared with its settings and with a run from scratch",
}
NOTE = ("No violation on the seeds explored; not exhaustive. All of buildcc, Taskflow, spdlog, fmt and libstdc++ run unmodified; "
        "threads, clock, file-system calls and child processes are simulated, compilers and other tools are deterministic models. "
        "Assumes sequentially consistent memory between scheduling points, kills without power loss, and edits that change the modification time.")
NA = {}
checks = [{"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
           "evidence_file": "evidence/%s.json" % p, "technique": TECH + o, "level": "exploration", "level_note": NOTE}
          for p, o in ORACLE.items()]
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
     "notes": "No hooks in /repo: every seam is interposed at link time (pthread, file-system and clock functions) or at compile time "
              "(-fsanitize=thread call-backs answered by the simulator; process.hpp of tiny-process-library replaced). "
              "The commits in /repo are repairs (fix:) only; they are listed in known_findings.txt."}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
