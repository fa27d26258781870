"""Writes MANIFEST.json from the checks that exist."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks_parser, checks_app
PROPS = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
CLAIMED = set(checks_parser.CHECKS) | set(checks_app.CHECKS)
TECH = {
 "P01": ("TLA+ lexer state machine (spec/Lexer) as trace specification; every parse of the real parser is validated against it with TLC", "Every explored text is judged by TLC stepping the longest-match lexer specification over the real leaves. Texts are sampled (generated templates, repository snippets, mutations, token soup), not exhaustive."),
 "P02": ("TLA+ grammar generates damaged templates (spec/Gen, Grammar) and a well-formedness predicate (spec/WellFormed) judges every error-free real tree with TLC", "Required delimiters are those of the grammar specification; accepted texts are sampled."),
 "P03": ("TLA+ grammar specification generates templates together with their tree; TLC compares the real parser's tree (spec/Gen, Grammar, ParseTrace)", "Sampled derivations of the whole specified grammar with seeds, depth and size bounds."),
 "P04": ("TLA+ precedence-climbing state machine model-checked against the declarative grouping (spec/ExprMC), all operator chains up to the bound generated and replayed on the real parser (spec/ExprGen, ParseTrace)", "Exhaustive for all pairs (thorough: triples) of operators in every operand form; longer chains sampled."),
 "P05": ("TLA+ grammar specification inserts malformed elements into generated templates; TLC compares the surroundings with the error-free tree (spec/Broken, Gen, ParseTrace)", "About 280 malformed elements and the generated constructs without an inner token, in every statement and place and at random positions of generated templates."),
 "P23": ("TLA+ definition of the parts of a node over the tree (spec/Typed); TLC compares everything the real typed tree says about every node of recorded trees with it (spec/TypedTrace)", "All 118 typed nodes and all accessors; trees of derived templates (every construct in every form and place), snippets, mutations and token soup."),
 "P24": ("TLA+ definition of the printed report (spec/Report: lines, columns, shown lines, marks); TLC judges the real program's output for recorded findings (spec/ReportTrace)", "Documents, configurations and thread counts sampled; wording isn't judged; marks only on lines of ASCII characters without labels of several lines."),
 "P25": ("TLA+ specification of configuration resolution and of what is told about it (spec/Config, Told); TLC judges the output of real runs (spec/ToldTrace)", "Sampled configuration files, environments and options; wording isn't judged (where a file is read or not: learned from two reference runs)."),
 "P26": ("TLA+ specification of where errors lie (spec/ErrorTrace): over the lexer specification's tokens, over derived templates cut anywhere, and over derived templates with a malformed element; TLC judges the errors of the real parser", "Sampled texts, cuts and malformed elements; cuts inside of quoted attribute values are only judged for the tokens they name."),
 "P06": ('TLA+ definition of the scope of ignore directives (spec/Ignore): the walk that implements it is model-checked against it for all small trees (spec/IgnoreMC), and recorded lint runs of the same documents with and without directives are judged by TLC (spec/IgnoreTrace, and LintTrace with spec/Rules)', 'Model exhaustive for all trees of 5 (thorough: 6) nodes; recorded documents are sampled.'),
 "P07": ('TLA+ definition of what the configured rules find (spec/Active); TLC compares the findings of every sampled list of rules with those of each rule run alone (spec/ActiveTrace)', 'Recorded runs with every single rule, all rules, none, and sampled subsets, orders, repetitions and misspelt names; documents sampled.'),
 "P08": ("TLA+ state machine of the fix loop (spec/Fix), model-checked, then trace validation of every recorded --fix round", "Sampled documents; the choice of edits of every round is validated byte for byte."),
 "P09": ("TLA+ state machine of the fix loop (spec/Fix), trace validation of --fix runs and re-runs", "Sampled documents."),
 "P10": ("TLA+ state machine of file processing (spec/App), exhaustive model plus validation of recorded runs with injected read/write failures", "Sampled documents and failure placements in a scratch directory."),
 "P11": ("TLA+ equivalence of token streams and trees before and after each fix (spec/Meaning) evaluated by TLC on recorded --fix runs", "Sampled documents."),
 "P12": ("TLA+ model of walkers, workers, channel and output processing (spec/App) checked exhaustively; recorded runs validated against it", "Model exhaustive for small file and worker counts; runs sampled over core counts."),
 "P13": ('TLA+ specification of file selection (spec/Select): the parallel walk is model-checked against it (spec/SelectMC), and the files scanned by the real program in generated worlds are judged by TLC (spec/SelectTrace)', 'Model exhaustive for a small tree, all placements of a few ignore files; worlds sampled.'),
 "P14": ('TLA+ specification of configuration resolution (spec/Config): the merge is model-checked against it (spec/ConfigMC), and the values in effect in real runs are judged by TLC (spec/ConfigTrace)', 'Every value in every combination of sources, valid and invalid, and sampled combinations of many values.'),
}
RULES = ("TLA+ reference definition of the rule over recorded syntax trees (spec/Rules); TLC compares it with the findings of the real program", "Every recorded tree is judged completely (missing, additional and wrong findings); documents are sampled from the grammar specification, snippets, mutations and fixed outputs.")
HOOK = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
m = {"version": 1,
     "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'lib'); import vlib; vlib.build_harness(); vlib.build_cli()\"",
     "hooks": {"guard": "ludtwig_verif", "enable": "RUSTFLAGS=\"--cfg ludtwig_verif\" (trace file named by VERIF_LUDTWIG_TRACE)", "source_commits": HOOK},
     "checks": [], "not_applicable": []}
for p in PROPS:
    i = p["id"]
    if i in CLAIMED:
        t, n = TECH.get(i, RULES)
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet: the specification module for it is still being written"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
