#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
MC = "model_checking"
checks = {
 "P01": (MC, "exhaustive enumeration of scripts, values and states with crash and hang detection", "Every script and program within the stated bounds was run on the real parser and evaluator: each ended with a result or an error. Assumes ordinary memory limits; a hang is a step of more than 90 s."),
 "P02": (MC, "exhaustive state exploration with an invariant on every reached state", "The bounds invariant was evaluated on the implementation in every state reached by every command sequence within the bounds."),
 "P03": (MC, "exhaustive state exploration against an executable reference model, every transition replayed on the implementation", "Every insertion and deletion from every state within the bounds compared with the reference model."),
 "P04": (MC, "exhaustive state exploration against an executable reference model, every transition replayed on the implementation", "Every movement from every state within the bounds compared with the reference model."),
 "P05": (MC, "exhaustive state exploration against an executable reference model, every transition replayed on the implementation", "Every mark command from every state within the bounds compared with the reference model."),
 "P06": (MC, "exhaustive state exploration against an executable reference model, every transition replayed on the implementation", "Every search from every state within the bounds compared with the reference model; Go's regexp is trusted as the meaning of patterns."),
 "P07": (MC, "exhaustive state exploration against an executable reference model, every transition replayed on the implementation", "Every search / edit / replace sequence within the bounds compared with the reference model."),
 "P08": (MC, "exhaustive state exploration against an executable reference model, every transition replayed on the implementation", "Every query in every state within the bounds compared with the reference model."),
 "P09": (MC, "exhaustive enumeration of arguments against an executable reference model", "Every string function on every argument tuple within the bounds compared with the reference model."),
 "P10": (MC, "exhaustive enumeration of programs, compared with their step-by-step execution", "Every program within the bounds compared with calling its functions one by one."),
 "P11": (MC, "exhaustive enumeration of calls by count and type of arguments in every kind of state", "Every call shape within the bounds; documented parameters are the oracle."),
 "P12": (MC, "exhaustive enumeration of programs, traced against untraced execution", "Every program within the bounds run with and without tracing."),
 "P13": (MC, "exhaustive enumeration of script texts against a reference parser", "Every text within the bounds parsed by the implementation and by an independent reader."),
 "P14": (MC, "exhaustive enumeration of programs in every syntax, compared with running the program itself", "Every program within the bounds, written in every syntax and style, run on the implementation."),
 "P15": (MC, "exhaustive enumeration of programs and conversion chains, with read-back", "Every program within the bounds converted along every chain of formats and read back by the implementation and an independent reader."),
 "P16": (MC, "exhaustive enumeration of scripts, contents, permissions and ways to edit, on real files", "Every combination within the bounds run on real files through every front end."),
 "P17": (MC, "exhaustive enumeration of file lists, compared with editing each file alone", "Every list of files within the bounds edited by every front end."),
 "P18": (MC, "exhaustive enumeration of option combinations on the real command line, whole file tree compared with a reference model", "Every option combination within the bounds run with the real binary."),
 "P19": (MC, "exhaustive enumeration of scripts and texts run through every front end and compared", "Every script and text within the bounds through every front end."),
 "P20": (MC, "exhaustive enumeration of crash points (before, after and within every system call) and of single faults before the crash, on the real binary under a controlled system call layer", "Every system call of every run within the bounds was killed before, after and, for writes, within; the files left behind were read back. A killed process, not a killed machine."),
 "P21": (MC, "exhaustive enumeration of failing and short system calls on the real binary, library and tools under a controlled system call layer", "Every system call of every run within the bounds failed in every listed way, alone and (in part) in pairs."),
 "P22": (MC, "exhaustive enumeration of looping scripts and inputs against a round-by-round reference", "Every script and list of files within the bounds."),
 "P23": (MC, "stateless exploration of thread interleavings of the real code under a controlled scheduler, preemption bounded, with happens-before race detection on every schedule", "Every preemption point of every pair of requests (1 preemption), and the points that may touch shared data (2 preemptions, pairs and triples), were scheduled. Switches are invisible to the race detector, so accesses of two requests conflict unless the code itself orders them."),
 "P24": (MC, "exhaustive enumeration of histories of runs in one process, compared with the first run in a fresh process", "Every ordered history within the bounds."),
 "P25": (MC, "exhaustive enumeration of map iteration orders, queries and query histories, with the runtime's choice under control", "Every query and every history within the bounds, under every iteration offset of the runtime."),
 "P26": (MC, "exhaustive enumeration of scripts and expectations against an independent verdict", "Every combination of script and expectations within the bounds, in the library and on the command line."),
 "P28": (MC, "exhaustive enumeration of expression lists, inputs and options on the real command line", "Every list of expressions within the bounds."),
 "P29": (MC, "exhaustive enumeration of sessions of the real server against a reference that keeps the files", "Every sequence of requests within the bounds."),
 "P27": (MC, "exhaustive enumeration of pairs and triples of values", "Every pair and triple within the bounds compared with structural equality."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: checks use exported functions, the texted binary, and build overlays. All 'fix:' commits are listed in known_findings.json."}
for p in props:
    if p in checks:
        lvl, tech, note = checks[p]
        m["checks"].append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
                            "technique": "model checking: " + tech, "level": lvl, "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not finished yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
