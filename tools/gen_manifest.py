#!/usr/bin/env python3
"""Writes MANIFEST.json. Edit CHECKS here."""
import json, os
T = {
 "C01": ("stateful property-based testing against a list model", "Random valid edit sequences with snapshots of every state; inverses and redo compared structurally. Sampled, not exhaustive."),
 "C02": ("model-based property testing (list surgery as the model)", "Random formulas, edits and ranges; full structural comparison after each edit. Sampled."),
 "C03": ("model-based property testing (column/row model of a table)", "Random tables up to 4x4 and growing, edits composed up to 5 deep; full structural comparison. Sampled."),
 "C04": ("model-based property testing with identity-tagged elements", "All positions of each generated formula tracked through up to 4 edits. Row edits only, as grid tracking is unimplemented in the code."),
 "C05": ("property testing of all pairs against a reading-order list", "All pairs (up to 120 positions) of each generated formula. Formulas sampled."),
 "C06": ("property testing of all pairs against a brute-force smallest cover", "All pairs (up to 40 positions) of each generated formula. Formulas sampled."),
 "C07": ("property testing: exhaustive walk of generated formulas", "Every row, element and position of each generated formula. Formulas sampled."),
 "C08": ("round-trip property testing with an independent reader", "Arbitrary symbols including quotes and backslashes. Sampled."),
 "C09": ("property testing against plain arithmetic", "All cells plus a margin of each generated grid (up to 8x8) and random moves. Block extents are not claimed."),
 "C10": ("round-trip property testing", "Element lists over arbitrary Unicode, addresses, selections, and copying between two editors. Sampled; nesting up to 16 levels."),
 "C11": ("structure-aware fuzzing of clipboard texts with a differential check of the history", "Up to three structural changes of valid texts, text-level damage, arbitrary and deeply nested text; every operation exercised on accepted results. Sampled."),
 "C12": ("stateful property testing against recorded states, with a twin editor for hidden intermediate states", "Histories of up to 22 operations (stretches of up to 70 in part long), fully undone and redone at the end. Sampled."),
 "C13": ("stateful property testing with validity invariants", "Histories of up to 24 operations over three rule sets. Sampled."),
 "C14": ("model-based property testing", "Single operations on random formulas and carets, half of them mostly empty formulas. Sampled."),
 "C15": ("property testing against the reading order of all positions", "Complete walks of each generated formula. Formulas sampled."),
 "C16": ("model-based property testing", "All positions of each generated formula. Formulas sampled."),
 "C17": ("differential property testing against a direct search", "Rules and rows over small and multi-byte alphabets, and the published rules. Sampled."),
 "C18": ("differential property testing against an editor without rules", "Histories of up to 9 operations over overlapping rules of our own and the published ones. Sampled."),
 "C19": ("grammar-aware fuzzing (crash, termination and error-node invariants)", "Rows of up to some 40 symbols and several thousand in part long. Sampled. The parsing library is a stand-in (see DESIGN.md)."),
 "C20": ("property testing of tree invariants and leaf reconstruction", "The same inputs as C19. Sampled. The parsing library is a stand-in (see DESIGN.md)."),
 "C21": ("property testing by printing and parsing expression trees", "Random expression trees, minimal and redundant brackets, all spacings. Sampled. The parsing library is a stand-in (see DESIGN.md)."),
 "C22": ("stateful property testing against a second parser instance", "Histories of up to 13 operations with questions at random points. Sampled."),
 "C23": ("model-based property testing", "Random pairs, pairs within a table, all pairs of small formulas. Sampled."),
 "C27": ("stateful property testing against a map model", "Registration sequences and arbitrary name strings. Sampled."),
 "C29": ("property testing of token round trips", "Random numbers, names, strings and token sequences. Sampled. The parsing library is a stand-in (see DESIGN.md)."),
}
T.update({
 "C31": ("round-trip property testing with an independent reader", "Trees of arbitrary rows and expressions, and freely built ones. Sampled. The parsing library is a stand-in (see DESIGN.md)."),
 "C32": ("metamorphic and model-based property testing", "Random choices and orders of the nine modules; up to seven claimed symbols. Sampled. The parsing library is a stand-in (see DESIGN.md)."),
 "C24": ("model-based property testing of the import against a table of element meanings", "Documents of all supported and several unsupported elements, wrong numbers of children included. Simulated document. Sampled."),
 "C25": ("property testing of drawings against the formula's own reading order", "Formulas through the native parser, drawn into a simulated document, development and production builds. Sampled."),
 "C26": ("property testing of hit tests and caret places against measured boxes and a brute-force nearest place", "Simulated layouts with random metrics; all places, all symbols, random points, all selections of small rows. Sampled."),
 "C28": ("differential property testing against brute-force geometry", "Coordinates on a grid of quarters. Sampled."),
 "C30": ("stateful property testing of the element against an editor driven directly", "Up to 14 events per case in a simulated document; native build in place of WebAssembly. Sampled."),
 "C33": ("stateful property testing of pages with several editors, each against an editor driven directly", "Pages of up to five pieces, up to 12 interleaved events, in a simulated document. Sampled."),
 "C34": ("differential stateful property testing against the editor itself", "Histories of up to 11 calls. The bindings are called from Rust; the generated JavaScript glue is not run. Sampled."),
 "C35": ("metamorphic property testing of the parser", "Rows with elements nested up to four deep (rarely deeper or longer), each row compared with its own reading; exchanged contents, kinds of elements, brackets and names. Sampled. The parsing library is a stand-in (see DESIGN.md)."),
 "C36": ("property testing of error recovery against the expression with its faults", "Expressions of up to 30 nodes with any number of missing operands, missing operators, unknown symbols and lone brackets, over the published and over random operator tables. Sampled. The parsing library is a stand-in (see DESIGN.md)."),
})
NA = []
PENDING = {}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
checks = []
for i in ids:
    if i in T:
        checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
                       "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        NA.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": NA},
          open(here + "/MANIFEST.json", "w"), indent=1)
