#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
TRACE = "TLA+ specification checked with TLC; recorded histories of the real code validated against it"
NOTES = {
    "C01": "TLC decodes every module from its bytes by the specification TwWasm and compares all sizes with the parsed items. Random modules (padded encodings, empty and odd sections), corrupted ones that are still accepted, and fixtures; not every module.",
    "C02": "As C01, for item names, kinds, roots and counts. Names of mangled symbols are left to C20.",
    "C03": "As C01, for the set of edges. Open finding F1 (constant-address loads) is matched exactly and nothing beyond it.",
    "C04": "Reachability, rows and remainder of the garbage report are computed by TLC from the item graph and compared with all three formats.",
    "C05": "Dominance is decided by its definition (removing an item) in TLC, on random graphs, for all limits, selections and formats.",
    "C06": "Retained sizes by definition (what becomes unreachable) in TLC, compared with queries and top --retained.",
    "C07": "Rows, order, remainder and totals of top specified in TwTop and compared with all formats.",
    "C08": "The set of simple reference chains, their order and cut-offs specified in TwPaths and compared with all formats.",
    "C09": "Grouping, bloat, order and remainders specified in TwMonos and compared with all formats.",
    "C10": "Per-name deltas, order, remainder and totals specified in TwDiff and compared with all formats.",
    "C11": "The languages of the outputs are machines in TwFormats (JSON and CSV character by character, the text table as a rendering of its cells); TLC runs them over the raw outputs of the real code, with hostile names, and compares the names read back and the reports of the three formats with the item graph.",
    "C12": "Every schedule of a few requests from the model MCHistory, random histories over two processes and copies built in another order, and repeated runs of the command; the specification remembers the answer to each request.",
    "C13": "The run of a command is a state machine (TwRun) over inputs, options, destinations and faults; every configuration of the model MCRun is realised with the real command (missing and unreadable files, directories, full devices, file size limits, closed pipes, unprivileged user) and its exit status, streams and files are checked against the machine.",
    "C14": "The option slots are a state machine (TwOpts); command lines enumerated by the model MCOpts and random histories of parsing and setters are replayed into the real option types, with the effect on reports compared as well.",
    "C15": "Selection by exact name and by pattern is specified in TwSelect (patterns as syntax trees); reports of the selecting commands compared with it for near-identical and hostile names and bad patterns.",
    "C16": "The decision between the two parsers is specified in TwFormat; every combination of name, mode and contents of the model MCFormat is run with the real command, and reports of equal readings are compared.",
    "C17": "Abstract compilation units (versions 2 to 5, both offset sizes, 32 and 64 bit addresses, all forms of addresses, sizes, range lists and names) are encoded into ELF and Mach-O files and read by the real parser; TLC walks the units entry by entry with 64-bit arithmetic and compares items, names and sizes. Relocations of unlinked files are not applied by the code and not covered.",
    "C18": "The specification decides from the bytes whether a module is broken; all truncations of sampled modules, random corruptions and bad references must be rejected without a crash; the same for object files (spoiled entries, truncations, sections outside the file, random corruption). Open findings F3 and F4 are matched by their call sites in the dependencies.",
    "C19": "The objects of the browser interface (parsed modules, options with their constructors, getters and setters) are state carried by TwApi; every short history of the model MCApi and random histories over several objects are run in the real WebAssembly build of twiggy-wasm-api under node, next to the real command with the command line that the specification says means the same; options read back, reports and refusals must agree.",
    "C20": "TwName reads symbols byte by byte as mangled Rust names of both kinds and (a described part of) C++ names and says how each is shown and what it instantiates; all symbols of a few pieces (MCName), random ones and spoiled ones are compared with the real code, directly, as names of functions in modules and as linkage names in object files. C++ and newer Rust features outside the described part are only required not to crash and not to be emptied.",
}
MORE = {}
path = os.path.join(ROOT, "lib", "notes.json")
if os.path.exists(path):
    NOTES.update(json.load(open(path)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "Specification language: TLA+ with TLC. See DESIGN.md. Known and fixed defects: known_findings.txt."}
for p in props:
    i = p["id"]
    if i in NOTES:
        n = NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                            "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": TRACE, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "The check for this property is not built yet."})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
