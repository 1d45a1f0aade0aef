#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "explicit-state exploration of an executable model of ed; every explored trace replayed on the real code and compared (conformance)"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, level="model_checking", technique=MC, note="", state=None, obs=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, level=level, technique=technique, note=note, state=state or [], obs=obs or ["standard output", "exit status", "files written"]))

FI = "exhaustive fault, crash and signal point enumeration on the real code; every outcome checked against the states of an executable model"
COMMON = " Bounded: alphabets and depths are those of the generator in mc/*.cc; trusted: the reference model, the C library and kernel."
prop("C01", "Editing commands yield exactly the specified buffer and current line",
 "After any sequence of the commands a, i, c, d, j, m, t, r and k, the buffer holds exactly the lines in exactly the order the command definitions prescribe, and the current line is the one prescribed. No line is lost, duplicated, reordered or altered otherwise.",
 ["histories", "inputs"], "every sequence of editing commands, from every buffer size and current line",
 "The scripts of the suite fix a few dozen sequences; corruption of the linked list, the line cache or the current line shows only for particular combinations of addresses, buffer ends and preceding commands.",
 ["src/cmds.c", "src/exec.c", "src/buf.c"], [("append_lines, delete_lines, join_lines, copy_lines, move_lines", "src/cmds.c"), ("get_line_node cache", "src/buf.c")],
 note="Exhaustive over all command sequences of the alphabet to the depth, from five start buffers; each run of the model is replayed on the real editor and outputs, status and files compared." + COMMON,
 state=[dict(name="ed->state", meaning="line count, current line, flags", where="src/ed.h")])
prop("C02", "Every address expression selects the specified lines or is rejected",
 "Any combination of line numbers, '.', '$', marks, searches, offsets and the separators ',', ';' and '%' addresses exactly the lines defined by the language. An expression that denotes a line outside the buffer or a reversed range is rejected with an error.",
 ["inputs"], "every address expression up to three addresses, every buffer size and current line",
 "Tests try isolated addresses; the rules for omitted addresses, wrap-around offsets, discarded addresses and ';' changing the current line interact combinatorially.",
 ["src/parse.c", "src/re.c"], [("address_range, next_address, line_address, address_offset", "src/parse.c")],
 note="Exhaustive over pairs of 45 address tokens with each separator and triples of 15, in six start states." + COMMON)
prop("C03", "A command that fails leaves buffer, marks, undo and files unchanged",
 "When a command is rejected, the lines of the buffer, the marks, what undo would restore, the default file name, the modified flag and all files are as they were before it. The editor reports the error and goes on.",
 ["histories", "inputs"], "every rejected command of the catalogue in every start state",
 "Tests check that an error is reported, not that nothing else changed afterwards.",
 ["src/exec.c", "src/parse.c", "src/main.c"], [("exec_command, is_valid_range", "src/exec.c")],
 note="Exhaustive over the catalogue of failing commands, start states and observers." + COMMON)
prop("C04", "Undo restores the state before the last modifying command, and itself",
 "u restores the buffer text, its order and the current line as they were before the last command that changed the buffer, whatever that command was (including global commands, reads and filters). A second u restores the change.",
 ["histories"], "every sequence of modifying commands, undos and writes up to the depth",
 "Undo records are kept per primitive operation; wrong inverse order or a missed reset shows only for particular sequences, of which the suite has one.",
 ["src/undo.c", "src/cmds.c", "src/exec.c"], [("append_undo_node, undo_last_command, reset_undo_queue", "src/undo.c")],
 note="Exhaustive over all triples of 27 modifying commands and all sequences of 4 (thorough: 6) of 11, with undo, undo again and the modified flag observed." + COMMON)
prop("C05", "A global command visits each matching line once and no other line",
 "g and v run the command list once, in order, for every line that matched (or did not match) when the command started, skipping exactly those since deleted, moved by the list or replaced; G and V do so for the commands entered interactively. The whole effect is undone by one u.",
 ["inputs", "histories"], "every global command of the grammar on buffers of 0 to 40 lines",
 "What matters is how the command list disturbs lines not yet visited: deletion, moves and joins around the current line; the suite has five samples.",
 ["src/glbl.c", "src/cmds.c"], [("mark_global_nodes, exec_global, delete_global_nodes", "src/glbl.c")],
 note="Exhaustive over the products of patterns, ranges, one and two command lists, and of three interactive responses." + COMMON)
prop("C06", "Substitution replaces exactly the selected matches with the expansion",
 "s replaces exactly the matches its count, g and $ modifiers select, in exactly the addressed lines, with the expansion of the replacement (back-references, case conversion, line breaks, the previous replacement); text outside the matches is unchanged. Repeat forms of s apply the pattern, replacement and modifiers remembered, as modified.",
 ["inputs", "histories"], "every combination of pattern, replacement and modifier of the catalogues; every sequence of repeat forms",
 "The space of pattern x replacement x modifier x line content, and what each command leaves remembered, cannot be sampled by a handful of scripts.",
 ["src/sub.c", "src/exec.c", "src/re.c"], [("substitute_matching, count_matches, substitution_template", "src/sub.c")],
 note="Exhaustive over the catalogue products; matching is decided by an independent regular-expression engine (mc/rx.hh)." + COMMON)
prop("C07", "Searches and patterns match as POSIX regular expressions, wrapping round",
 "A pattern selects a line exactly if POSIX leftmost-longest matching of the basic (or, with -E, extended) expression succeeds; /re/ and ?re? find the nearest such line in their direction, wrapping round the buffer; an empty pattern stands for the last one used.",
 ["inputs", "histories"], "every pattern over the token alphabet up to the length bound, every sequence of searches to depth three",
 "Delimiter handling, brackets, wrap-around and the memory of patterns interact; the suite contains a handful of fixed patterns.",
 ["src/re.c", "src/parse.c", "lib/regexec.c", "lib/regcomp.c"], [("get_compiled_regex, regular_expression, get_matching_node_address", "src/re.c")],
 note="Exhaustive over token strings to length 4 (thorough 5), BRE and ERE; constructs POSIX leaves undefined are skipped and counted." + COMMON)
prop("C08", "A mark stays with its line until that line is deleted",
 "'x addresses the line last marked x wherever it has been moved, through undo, and through substitution in the line; once the line is gone it is reported as invalid rather than addressing another line.",
 ["histories"], "every sequence of marking and editing commands up to the depth",
 "Requires histories that combine moves, deletions, undo and reuse of marks.",
 ["src/cmds.c", "src/sub.c", "src/buf.c"], [("mark_line_node, get_marked_node_address", "src/cmds.c")],
 note="Exhaustive over sequences of 26 commands to depth 3 and of 10 commands to depth 5 (thorough 6)." + COMMON)
exec(open(os.path.join(R, "tools", "meta2.py")).read()) if os.path.exists(os.path.join(R, "tools", "meta2.py")) else None

P.sort(key=lambda p: p['id'])
for p in P:
    for f in p['files']: assert os.path.exists('/repo/' + f), f
NA = []
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
            why_tests_cant=p["why"], anchors=dict(files=p["files"], state=p["state"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["obs"], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="./setup.sh",
  checks=[dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P],
  not_applicable=NA,
  hooks=dict(guard="none", enable="No hooks are needed: the checks compile /repo's sources unchanged (-Dmain=ed_main, link-time --wrap of library calls).", source_commits=[]),
  notes="See DESIGN.md. known-findings.txt lists genuine defects found and repaired.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
