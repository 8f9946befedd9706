#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Source of truth for claims, techniques and level notes."""
import json, os
NA_PENDING = "no check yet"
CL = {
"C01": ("abstract derivation: every action interpreted on every form its construct can take; abstract interpretation of the exported functions down to the first rule and back with match, failure, reported errors and panics all possible",
        "All forms of every construct (optional parts, lists of 0 to 4, valid and invalid expressions), all paths. Trusts go/parser. Deep nesting excluded."),
"C02": ("left-recursion and nullability fixpoints over the grammar read from the program by constant propagation; abstract matching of every node for progress; loop and recursion classification over SSA",
        "Every rule, repetition, loop and recursion reachable from the parsing functions. Trusts go/parser and go/ast."),
"C03": ("grammar comparison in normal form; abstract derivation: actions interpreted on every form with symbolic texts, trees compared field by field; abstract interpretation of the entry and exit",
        "All forms of every construct with lists of 0 to 4 elements; longer lists by absence of larger counts in the actions. Rests on C07 for matching. One known finding."),
"C04": ("error-flow by abstract interpretation: expression front end, actions on derivations with malformed expressions, matching engine, error list, exported functions with every outside call able to fail",
        "Every path. Trusts go/parser and that outside functions report failure by their error result."),
"C05": ("grammar comparison of layout in normal form; abstract interpretation of the expression traversal for one arbitrary node of each kind (positions set to constants)",
        "Every place of the grammar and every position field of every accepted go/ast kind. Layout inside embedded expressions is outside the property."),
"C06": ("grammar file and built grammar table compared in normal form; actions compared as source, else by abstract derivation of both",
        "All rules and actions. Where source differs, equality is decided on all forms with lists of 0 to 4."),
"C07": ("abstract matching of every node of the built grammar by the parser's own engine with an oracle for operands, compared with parsing-expression semantics; literals and classes decided by cases over all characters",
        "Every node (some 300) and path; repetitions followed 4 times, with a check that the engine has no larger counts."),
"C08": ("abstract interpretation of the printer into guarded output summaries, matched against notation templates per node kind",
        "Every path of every printing function, for every combination of parts and every list length (loop summaries), is matched against the notation template of its node kind. Trusts the models of fmt/io/strings/bytes used and the template of the notation."),
"C09": ("abstract interpretation of the accepted-forms and printed-forms functions per go/ast expression type; set inclusion and per-form template match",
        "Decides, for each go/ast expression type, whether the parser lets it through and whether the printer writes all its parts; forms accepted must be printed. Trusts go/ast's definition of expression nodes."),
"C10": ("constant propagation of the token-joining and precedence code over every operator and token boundary, against the Go scanner's and parser's rules",
        "Enumerates go/token's operators and precedence levels and folds the printer's decision code on each; obligations are per pair. Trusts go/token's tables and the models of strings functions folded on constants."),
"C11": ("typestate analysis: the error state of the printer and of its entry points, assume-guarantee per function",
        "Every path after a failed write keeps the error and writes nothing more, up to the public entry points' result. Trusts io.Writer's contract."),
"C12": ("abstract interpretation of the traversal into sequences of visits, matched against a template per node type; finite-automaton analysis of Contains",
        "All node types, list lengths and nil/absent parts. Assumes well-formed trees and visitors that do not modify the tree."),
"C13": ("abstract interpretation of each feature predicate on an arbitrary node, composed with the verified traversal",
        "All rules. Rests on C12 for Walk, Inspect and Contains."),
"C14": ("abstract interpretation of the expander, assume-guarantee over its recursion; results compared pointwise, for an arbitrary index, with the i-th choice of every source",
        "Every path of every expanding function, for any number of alternatives, arguments and parts. Comparisons of counts are decided by enumerating a small model of the difference constraints. Assumes well-formed trees."),
"C15": ("abstract interpretation of the expander; running counts shown to be the common count by checking each loop iteration against the join; error paths matched with mismatched counts",
        "Every path of every expanding function: success implies all counts agree and every part expanded, errors imply the opposite, index operations are in bounds, the file is written on success only. Assumes well-formed trees."),
"C16": ("field-based, type-filtered provenance of every write over SSA (which memory an assignment, append, copy or outside call may change); abstract interpretation of the expander where provenance alone cannot tell",
        "Every function reachable from the exported functions of ast, printer, pass, rules and smt2. Trusts that listed standard library functions do not write through their arguments; visitors and writers of the caller are outside."),
"C17": ("abstract interpretation of the generator and the operator table on arbitrary rules: each success path is compared with the parts it examined; helpers verified for every table opcode and argument count",
        "All rules, all depths (assume-guarantee over the recursion). The operator table is evaluated as built by the package's own initialiser. Trusts go/types' relations on basic types."),
"C18": ("abstract interpretation of the generator into a script summary, parsed as S-expressions and matched with the required layout; separation of name shapes",
        "All rules; declarations, sorts and the question asked are read from the summary of every success path. Rests on C17 for which rules are accepted."),
"C19": ("abstract evaluation of every entry of the operator table for every requested type, compared with a frozen table of SMT-LIB meanings",
        "Every opcode of the table and of the frozen table, with 0 to 3 arguments and every basic type. The frozen table is the oracle."),
"C20": ("field-based, type-filtered provenance of every write over SSA: no write after initialisation reaches a package-level variable",
        "Every function of the library reachable from its exported functions or from the tables built at initialisation."),
"C21": ("rule-based scan of every instruction and call of the type-checked SSA for sources of nondeterminism, with an order-insensitivity analysis of map iteration",
        "Every function of the library. Trusts that functions of the listed standard library packages depend on their arguments alone."),
"C22": ("abstract interpretation of main from initialiser to exit: every library call may succeed or fail, every feature of a rule is open; what was written where is compared with what was asked on every path",
        "All feature combinations of a rule, all failing steps; file and rule lists of sample lengths, and script names of all indices up to 20000 by constant propagation. Trusts the models of os, ioutil, log, flag and filepath."),
"C23": ("composition of grammar comparison, abstract derivation, abstract matching, output templates, accepted and printed expression kinds, token separation by constant propagation, and cleared positions; joined by an argument on the two fixed descriptions (notation, templates)",
        "All texts: every part is decided from the source for every construct and node. That the templates are texts of the notation with the same tree is argued once in DESIGN.md; it does not depend on the code. Two known findings."),
"C24": ("induction over the rule, its cases decided by abstract interpretation of the generator: the term of a node is the SMT-LIB operator with the opcode's meaning (frozen table) applied to the terms of its arguments; variables are constants of the sort of their type; the one assertion is that the sides differ",
        "All rules. No solver is run: what is decided is that the script says what the rule says, for each opcode, type and argument count; SMT-LIB's semantics of the operators is the oracle (frozen table)."),
"C25": ("emptiness of the intersection of regular languages: for every place of the built grammar where matching goes on after a failure, texts on which the failed part gets in depth against those on which the rest does (automata with a bounded stack); abstract matching of every node for the number of attempts; call graph of actions",
        "Every alternative, repetition, option and look-ahead containing a recursive rule. Number of steps only: stack depth and the time of go/parser are outside."),
"C27": ("abstract interpretation of the parser's own functions: one step of reading for line and column, one attempt of every node of the grammar for what is recorded as looked for and where errors are reported (inductive step over attempts), the reporting functions for the text of the message, and the exported functions from start state to returned error",
        "Every node, every relation of the place to the farthest one, both polarities. How the list of expected texts and the list of errors are turned into the message is followed for sample lists (repetitions, end of input, up to 5 entries)."),
"C28": ("abstract interpretation of main as for C22, the messages followed symbolically; what is said is compared with what was done on every path",
        "Same cases as C22. Messages are those of log (default and own loggers) and fmt to standard output and error; a message mentions a rule, error or file name if the term of it is part of its text. How a message is worded is left open."),
"C29": ("abstract interpretation of every evaluating, expanding and printing function and of the expression inspection, as for C15, C17-C19, C11 and C09; the text of the error of each refusing path is followed symbolically and compared with what the path has found",
        "Every error path, assume-guarantee over the recursion (an inner error is a term that has to survive). A feature goes by the name of its field; other wording is left open. Arguments: 0 to 3 per opcode, as for C19."),
"C30": ("abstract interpretation of the dumping functions with the library's dumper as a call that may fail; field filters are interpreted",
        "Every path. What go/ast.Fprint writes for a node is taken as given."),
}
NA = {
"C26": "Quantifies over files and a generator that are not in this repository; there is no source here to decide it from.",
}
allp = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
checks, na = [], []
for p in allp:
    if p in CL:
        t, n = CL[p]
        checks.append({"property": p, "quick_cmd": "./run.sh " + p, "thorough_cmd": "./run.sh " + p,
            "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": p, "reason": NA.get(p, NA_PENDING)})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: the analyzer in analyzer/ type-checks /repo and interprets it abstractly; no code of /repo is run."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
