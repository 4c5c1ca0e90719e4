#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from the table of checks and the notes below."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks
NOTES = {
 "C01": ("TLA+ shape state machine, TLC trace validation", "Exhaustive TLC check of the layout algebra for ranks 1-3 and small constants; every recorded history of real shape objects, references and arrays (ranks 0-4, 36 static type mixes) must be a behaviour of ShapeTrace."),
 "C02": ("TLA+ stride resolution, TLC-generated cases replayed and validated", "Resolution is specified independently of the code, model-checked (keeps, minimal, injective, compact, idempotent) for all shapes within the constants; TLC's enumerated shapes are replayed through every construct that resolves and the results validated."),
 "C03": ("TLA+ loop-nest machine, TLC trace validation", "Loop nest machine checked exhaustively; the sequence of calls of the real iteration must be exactly the machine's behaviour."),
 "C04": ("TLA+ value traversal model, TLC trace validation", "Model of traversal after sorting and fusing dimensions is checked to touch each element once; recorded touches of the real traversal over a guarded arena are validated."),
 "C05": ("TLA+ view-stack machine, TLC trace validation", "Random and TLC-generated compositions of slices and crops on real arrays are validated step by step against the view machine."),
 "C06": ("TLA+ split iterator machine, TLC trace validation", "Exhaustive over small intervals and piece sizes in the model and in the replay."),
 "C07": ("TLA+ z-order machine, TLC trace validation", "Exhaustive over small range sizes in the model; real traversals validated call by call."),
 "C08": ("TLA+ transfer machine over two buffers, TLC trace validation", "Copies and moves between random layouts on instrumented elements, whole buffers compared with the model."),
 "C09": ("TLA+ equality specification, TLC trace validation", "Comparisons over layouts, contents, single differences and padding differences validated."),
 "C10": ("TLA+ container/heap machine, TLC histories replayed and validated", "Every construct/destroy/allocate/deallocate event of histories on instrumented arrays is validated against the heap machine."),
 "C11": ("TLA+ container value machine, TLC histories replayed and validated", "Histories enumerated by TLC from the container machine and random longer ones; all arrays observed after every operation."),
 "C12": ("TLA+ container machine (reshape), TLC trace validation", "Reshape between all pairs of bounds of a menu, with element identity and lifetime events."),
 "C13": ("TLA+ container machine (allocators), TLC histories validated", "All combinations of propagation traits and allocator equality."),
 "C14": ("TLA+ allocator machine, TLC histories replayed and validated", "Histories of allocation, release, copy and move enumerated by TLC."),
 "C15": ("TLA+ interpretation of Einstein expressions, TLC trace validation", "Expressions evaluated by the specification and compared with the real result, evaluation order included."),
 "C16": ("TLA+ view-stack machine, TLC trace validation", "Transpose, reorder, convert, reinterpret and set_shape steps validated on addresses."),
 "C17": ("TLA+ contract specification, TLC trace validation", "Abort exactly when the contract is violated, observed in forked children."),
 "C18": ("TLA+ compaction specification, TLC trace validation", "Some 600 static shape types with random run-time values validated."),
 "C19": ("TLA+ crop machine, TLC trace validation", "Crops enumerated around image bounds for all layouts."),
 "C20": ("TLA+ loop-nest machine, TLC trace validation", "The calls and stores of index-driven fills validated against the loop-nest machine."),
}
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
chk, na = [], []
for p in props:
    i = p["id"]
    if i in checks.TABLE:
        chk.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                    "evidence_file": "evidence/%s.json" % i, "technique": NOTES[i][0], "level": "model_checking",
                    "level_note": NOTES[i][1] + " Bounded to the explored inputs; compilers and TLC are trusted."})
    else:
        na.append({"property": i, "reason": checks.NOT_YET.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bin/setup", "hooks": {"guard": "NONE", "enable": "no hooks are needed: the public API exposes the abstract state", "source_commits": []},
     "checks": chk, "not_applicable": na,
     "notes": "Specifications in spec/ (TLA+), drivers in harness/, runner in lib/ and bin/check. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(chk), "checks,", len(na), "not claimed")
