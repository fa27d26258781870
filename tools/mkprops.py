import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
PP="crates/ludtwig-parser/src/"
L="crates/ludtwig/src/"
H="cfg(ludtwig_verif) trace of each file's rounds (source, tree, findings, chosen suggestions), of file outcomes and of the output thread's messages"
p("P01","Parsing is total and lossless",
 "For every input text the parser terminates without crashing and returns a syntax tree whose tokens, read in order, are exactly the input text, byte for byte and without gaps or overlaps. The pieces the tree is made of are the longest-match tokens of the language (a tree token is one such token, or several neighbouring ones joined), and every reported syntax error points at a range inside the text on character boundaries.",
 ["inputs"],"every text: templates, malformed and truncated templates, arbitrary characters, any mix of line endings; nesting depth bounded by the thread's stack",
 "The unit tests compare some 400 fixed snippets; losslessness and termination are about all inputs, in particular malformed ones, on which error recovery runs.",
 [PP+"lexer.rs",PP+"parser.rs",PP+"parser/source.rs",PP+"parser/event.rs",PP+"parser/sink.rs",PP+"grammar.rs"],
 [("maximal-munch lexer with an unknown-token fallback",PP+"lexer.rs"),("trivia-skipping cursor",PP+"parser/source.rs"),("event log to green tree, asserts all tokens are consumed",PP+"parser/sink.rs"),("no-progress guard in the element loop",PP+"grammar.rs parse_many")],
 ["public parse()"],None)
p("P02","No malformed template is accepted silently",
 "When parsing reports no syntax error, the tree contains no error region, every non-void HTML element has a matching closing tag, every Twig block tag has its matching end tag (with an equal name where the end tag repeats it), every bracket, quote and delimiter pair is complete, every operator has its operands, the elements of every list are separated by commas, the parts of a block tag come in their order (nothing follows the else of an if), and no character that belongs to no token stands inside a Twig tag, except in strings. Consequently deleting a required closing or inner delimiter, an end tag or a required keyword from a valid template is reported as at least one syntax error.",
 ["inputs"],"every text the parser accepts without error, and every valid template with one required element removed or damaged",
 "Tests contain a few dozen hand-picked broken snippets; that no other damage slips through is a statement about all inputs.",
 [PP+"grammar/html.rs",PP+"grammar/twig/tags.rs",PP+"grammar/twig/literal.rs",PP+"grammar/twig/expression.rs",PP+"grammar/twig/shopware.rs"],
 [("expect/recover_expect report an error for a missing token",PP+"parser.rs"),("closing-tag name comparison",PP+"grammar/html.rs"),("end-block name comparison",PP+"grammar/twig/tags.rs")],["public parse()"])
p("P03","Valid templates parse to the tree their text spells out",
 "Every template built from the supported HTML, Twig and Shopware constructs, in any nesting the documentation allows, parses without any syntax error. Its tree has exactly the nesting of the source: each construct becomes one node of its kind, containing the nodes of its parts in source order and nothing else, whatever whitespace or line breaks separate the parts.",
 ["inputs","programs"],"every template derivable from the documented grammar, with arbitrary whitespace between tokens",
 "Tests check each construct in one or two fixed contexts; constructs combined and nested in one another are unbounded in number.",
 [PP+"grammar.rs",PP+"grammar/html.rs",PP+"grammar/twig.rs",PP+"grammar/twig/tags.rs",PP+"grammar/twig/literal.rs",PP+"grammar/twig/shopware.rs"],
 [("recursive-descent grammar functions, one per construct",PP+"grammar"),("marker discipline of nodes",PP+"parser/event.rs")],["public parse()"])
p("P04","Expressions group by Twig's operator precedence",
 "A Twig expression is grouped according to Twig's operator precedence and associativity: for every combination of binary, unary, conditional, null-coalescing, test, filter, accessor, call and parenthesised expressions the tree has exactly the operand structure those rules prescribe.",
 ["inputs","programs"],"all expression trees over all operators, any depth, written with minimal or redundant parentheses",
 "Tests fix a handful of operator pairs; the table has about 35 operators, hence over a thousand pairs and unbounded deeper combinations.",
 [PP+"grammar/twig/expression.rs",PP+"grammar/twig/literal.rs"],
 [("binding powers of the operator-precedence parser",PP+"grammar/twig/expression.rs"),("postfix parsing of accessors, calls, filters",PP+"grammar/twig/literal.rs")],["public parse()"])
p("P05","A syntax error stays local",
 "When one element of a template is malformed but self-contained (its own delimiters, tags, brackets and quotes stay paired, or only an HTML element inside of a Twig element lacks its closing tag), the parser reports an error for it and the well-formed elements before and after it, at its own nesting level and at the enclosing levels, get the same tree as if the malformed element were not there; only plain text directly behind it may be joined to it.",
 ["inputs"],"every valid template with one self-contained malformed element inserted at any element position",
 "Tests show recovery for single snippets and compare one tree; they do not relate the surroundings to the error-free parse.",
 [PP+"parser.rs",PP+"grammar.rs",PP+"grammar/twig/tags.rs",PP+"grammar/html.rs"],
 [("recovery sets",PP+"parser.rs recover"),("error nodes are skipped by the rules",L+"check.rs")],["public parse()"])
p("P06","Ignore directives suppress exactly their scope",
 "A ludtwig-ignore comment removes the findings (and automatic fixes) of the rules it lists, or of all rules if it lists none, for the whole element that follows it and for nothing else; a ludtwig-ignore-file comment at the top level removes those of the listed rules, or all, for the whole file. All other findings stay as they would be without the directive, and directives nested in an ignored element do not end the outer one early.",
 ["inputs","configurations"],"every template, every placement and nesting of ignore directives, every subset of rules",
 "Tests use two fixed directives; scope exactness quantifies over where the directive is and every finding of every rule.",
 [L+"check.rs",L+"check/rule.rs",L+"check/rules.rs",L+"check/rules/indentation.rs",L+"check/rules/twig_block_duplicate.rs",L+"check/rules/html_duplicate_id.rs",PP+"grammar.rs"],
 [("ignored-rules list maintained on enter/leave of the tree walk",L+"check.rs run_rules"),("the same bookkeeping for whole-tree rules",L+"check/rule.rs"),("file directive filter",L+"check/rules.rs get_file_active_rule_definitions")],["findings of each file"],H)
p("P07","Exactly the configured rules run, independently of each other",
 "For each file the findings are exactly those of the rules listed as active, each rule reporting what it would report if it alone were active, whatever else is active and in whatever order rules are listed. If a listed rule does not exist the program says so and exits with code 1 without reading or changing any file.",
 ["configurations","inputs"],"all subsets and orders of active rules, unknown names included, over all templates",
 "Tests run every rule alone; there are 2^22 activations.",
 [L+"check/rules.rs",L+"check.rs",L+"main.rs"],
 [("active rule selection and validation",L+"check/rules.rs get_config_active_rule_definitions"),("all rules evaluated on each element",L+"check.rs run_rules")],["findings of each file","exit code"],H)
p("P08","A fix round applies non-overlapping edits exactly",
 "In every round of --fix the edits applied come from the current findings, no two of them overlap, the edits belonging to one finding are applied together or not at all, and the new text is the old text with precisely those ranges replaced. At least one finding is fixed in each round in which something is fixable.",
 ["inputs","configurations"],"every template, every set of active rules, every overlap pattern of suggested edits",
 "Tests fix with one rule active at a time, so edits of different rules never meet.",
 [L+"process.rs",L+"check.rs"],
 [("overlap filter",L+"process.rs iteratively_apply_suggestions"),("back-to-front splicing",L+"process.rs apply_suggestions_to_text")],["text and chosen edits of every round"],H)
p("P09","--fix reaches a fixed point and reports on the fixed text",
 "When --fix completes for a file, no finding in it carries an automatic fix any more, and running it again changes nothing. The syntax errors and findings reported are exactly those a plain run reports on the file as it is now on disk. --fix gives up on a file only if ten rounds were not enough although the number of fixable findings kept decreasing.",
 ["inputs","configurations","histories"],"every template and configuration, repeated runs",
 "Tests compare one rule's result after fixing; termination, idempotence and rule interaction are about all rules together on all inputs.",
 [L+"process.rs",L+"check.rs",L+"check/rules"],
 [("bounded re-parse and re-check loop",L+"process.rs iteratively_apply_suggestions"),("diagnostics from the last round",L+"check.rs produce_diagnostics")],["files on disk","reported findings"],H)
p("P10","Files are only ever left original or completely fixed",
 "Without --fix no file is ever modified. With --fix a file is rewritten only if fixing completed and changed it, and then holds exactly the completed result; if reading, fixing or writing fails, the file keeps its content, the failure counts as an error, and all other files are processed as usual.",
 ["fault_sequences","inputs","schedules"],"every template, fault (unreadable, non-UTF-8, unwritable, not converging) and mixture of files",
 "Tests never touch the file system or the failure paths.",
 [L+"process.rs",L+"main.rs",L+"error.rs"],
 [("write only after convergence",L+"process.rs run_analysis"),("per-file error isolation",L+"main.rs handle_input_paths")],["file contents before/after","stderr, exit code"],H)
p("P11","--fix never breaks a template or changes its meaning",
 "A template without syntax errors still has none after --fix. The fixed template has the same content: apart from whitespace and line breaks between elements, only quote characters, the quotes of hash keys, attribute and block names, and the operators, keywords and filters a rule names are replaced, and the structure of elements and expressions stays the same. Text in Twig strings and inside pre, textarea, script and style elements keeps its whitespace, and so do attribute values except for the indentation of their lines, apart from the configured line-ending character sequence.",
 ["inputs","configurations"],"every error-free template and configuration",
 "Tests compare fixed text for a few inputs per rule; none re-parses the result or compares meaning.",
 [L+"process.rs",L+"check/rules"],
 [("suggestion ranges and replacements of each rule",L+"check/rules"),("whitespace-sensitivity flag",L+"check.rs")],["tree before and after"],H)
p("P12","Summary and exit code account for every file and finding once",
 "Each selected file is processed exactly once, and the summary counts exactly the files processed and the errors, warnings, helps and infos reported for them. The exit code is 1 if and only if a file was scanned and at least one error, warning or help was reported; neither depends on how the work is scheduled over threads.",
 ["schedules","inputs"],"all interleavings of directory walker, workers and output thread; any number of files",
 "Tests do not run the program; counts and exit code are produced by concurrent threads.",
 [L+"main.rs",L+"output.rs",L+"process.rs",L+"check.rs"],
 [("message channel closed when the last sender is dropped",L+"main.rs app"),("counting loop",L+"output.rs handle_processing_output"),("scoped worker spawn per file",L+"main.rs handle_input_paths")],["summary line","exit code","messages received"],H)
p("P13","The files scanned are exactly the selected templates",
 "Given files and directories as arguments, exactly these files and the template files (.twig, .html, .htm, .ejs) below these directories are scanned, each once, except those that an ignore file excludes (.ludtwig-ignore in the working directory or at or above the file's directory, .ignore, or .gitignore and .git/info/exclude inside of a git repository, with git's patterns and precedence) or that are in a hidden directory; the arguments themselves are never excluded. The selection does not depend on the other arguments, their order or the timing of threads, and no other file is changed.",
 ["configurations","inputs"],"all directory trees, file names, ignore patterns and argument lists",
 "No test runs the walker.",
 [L+"main.rs"],[("walker construction: type filter and ignore files",L+"main.rs handle_input_paths")],["set of files processed"],H)
p("P14","Configuration values come from environment over file over defaults",
 "Every configuration value in effect is the one from its environment variable if set, else from the configuration file (the one named, or ludtwig-config.toml in the working directory; no other), else the built-in default, each value independently of the others. An unreadable or invalid configuration value aborts with exit code 1 before any file is processed, and creating the default configuration never overwrites an existing file.",
 ["configurations"],"all combinations of layers per option, missing/invalid files and values, both ways to name the file",
 "Tests only merge two in-memory layers for one section.",
 [L+"config.rs",L+"main.rs","crates/ludtwig/ludtwig-config.toml"],
 [("layered merge",L+"config.rs Config::new"),("create-config and abort paths",L+"config.rs handle_config_or_exit")],["effective configuration","exit code, files"],H)
p("P15","Line-ending and empty-line whitespace rules are exact",
 "The line-ending rule reports each line break that is not the configured one, with an edit to the configured one, and never a correct one. The empty-line rule reports exactly the whitespace standing alone between two line breaks, with an edit that removes it, outside of whitespace-sensitive content.",
 ["inputs","configurations"],"every template, mixtures of line endings, both configured styles",
 "Tests use two or three texts per style.",
 [L+"check/rules/line_ending.rs",L+"check/rules/whitespace_between_line_breaks.rs",L+"config.rs"],
 [("regex over line-break tokens",L+"check/rules/line_ending.rs"),("neighbouring-token test",L+"check/rules/whitespace_between_line_breaks.rs")],["findings of each file"],H)
p("P16","Indentation findings follow the nesting depth",
 "The first token of every line, outside whitespace-sensitive elements, malformed regions and ignored elements, must be indented by the configured character times the configured count times its nesting depth, plus the alignment of a start tag's attributes; the indentation rule reports exactly the lines where this does not hold, with the edit that makes it hold. Children of Twig blocks add a level only if so configured.",
 ["inputs","configurations"],"every template, all indentation settings",
 "Tests compare about ten texts with mostly default settings.",
 [L+"check/rules/indentation.rs"],[("level and alignment counters of the tree walk",L+"check/rules/indentation.rs check_root")],["findings of each file"],H)
p("P17","Block line-break findings follow the configured spacing",
 "The block line-break rule reports a Twig block (one with a start and an end tag) exactly if the line breaks before it (or before the comment preceding it) or after it differ from the configured number and kind: one next to the parent's boundary, and between siblings two or one as configured. Its edit establishes that spacing, and nothing is reported inside whitespace-sensitive content or for a block that starts the file.",
 ["inputs","configurations"],"every template, arrangement of blocks, comments and siblings, all spacing and line-ending settings",
 "Tests compare about ten texts.",
 [L+"check/rules/twig_block_line_breaks.rs",L+"check.rs"],[("sibling and neighbouring token inspection",L+"check/rules/twig_block_line_breaks.rs")],["findings of each file"],H)
p("P18","Duplicate blocks and ids are reported exactly once each",
 "Every Twig block whose name, and every id attribute whose static non-empty value, already occurred earlier in the file, outside malformed and ignored regions, is reported once, and each such report refers to the first occurrence. First occurrences, dynamic ids and names differing in case are never reported.",
 ["inputs"],"every template, any number and nesting of blocks and ids",
 "Tests have a few files with one duplicate.",
 [L+"check/rules/twig_block_duplicate.rs",L+"check/rules/html_duplicate_id.rs"],[("first-occurrence table in document order",L+"check/rules/twig_block_duplicate.rs, html_duplicate_id.rs")],["findings of each file"],H)
p("P19","Unknown filters, tests and functions are reported exactly",
 "Every use of a filter, test or stand-alone function named by a word is not in the corresponding configured list is reported at its name, and no other use is: filters with and without arguments in a pipe, tests with and without arguments after is or is not, functions only where they are called as functions and not as filter or test.",
 ["inputs","configurations"],"every template, every position in an expression, every configured list",
 "Tests check one use per form.",
 [L+"check/rules/twig_valid_filter.rs",L+"check/rules/twig_valid_test.rs",L+"check/rules/twig_valid_function.rs",PP+"syntax/typed.rs"],
 [("typed access to filter, test and call names",PP+"syntax/typed.rs"),("list lookup",L+"check/rules")],["findings of each file"],H)
p("P20","Quotation findings follow the configured quote",
 "Every Twig string and every HTML attribute value whose quotes are not the configured ones (including unquoted values) is reported once. It gets an edit of both quotes exactly if the value does not contain the configured quote, does not lack just one of its quotes and would not turn into an interpolation, and Twig strings with interpolation are left alone when single quotes are configured.",
 ["inputs","configurations"],"every template, both quotes for both languages, empty, nested and interpolated strings",
 "Tests use one or two strings per setting.",
 [L+"check/rules/twig_string_quotation.rs",L+"check/rules/html_string_quotation.rs",PP+"syntax/typed.rs"],
 [("opening/closing quote inspection",L+"check/rules/twig_string_quotation.rs, html_string_quotation.rs")],["findings of each file"],H)
p("P21","Operator and keyword findings are exact",
 "Each use of &&, ||, === and !== as an operator, each extends tag, each raw filter after json_encode, each needlessly quoted hash key, and each misplaced file-ignore comment is reported once at its place with the documented severity and replacement (none for === and !== where it would regroup the left operand), and no other use is reported.",
 ["inputs"],"every template and position of these constructs",
 "Tests use one or two texts per rule.",
 [L+"check/rules/twig_logic_and.rs",L+"check/rules/twig_logic_or.rs",L+"check/rules/twig_use_is_same_as.rs",L+"check/rules/twig_use_is_not_same_as.rs",L+"check/rules/twig_prefer_shopware_extends.rs",L+"check/rules/twig_json_encode_escape_js.rs",L+"check/rules/twig_hash_key_no_quotes.rs",L+"check/rules/ludtwig_ignore_file_not_on_top.rs"],
 [("operator token of binary expressions",PP+"syntax/typed.rs"),("filter chain walk",L+"check/rules/twig_json_encode_escape_js.rs")],["findings of each file"],H)
p("P22","Naming findings and suggested names follow the conventions",
 "A block name is reported exactly if it is not snake_case, an HTML attribute name exactly if it is not kebab-case (attributes of Twig components excepted), a variable defined by set or for exactly if it is not camelCase (SCREAMING_SNAKE_CASE when set to a constant() call). Every suggested name is itself a valid name of that convention that keeps the letters and digits of the original in order.",
 ["inputs"],"all names the language allows, all places where names are defined",
 "Tests list a few dozen names.",
 [L+"check/naming_convention.rs",L+"check/rules/twig_block_name_snake_case.rs",L+"check/rules/html_attribute_name_kebab_case.rs",L+"check/rules/twig_variable_definition_naming.rs"],
 [("character classification and name conversion",L+"check/naming_convention.rs")],["findings of each file"],H)
p("P23","Typed views of the syntax tree name the right parts",
 "For every syntax tree each typed node of the parser library exists exactly for the nodes of its kind, and its accessors return exactly the parts its text has at this place, in order: names, attributes written directly in a start tag, body, start and end tag and the construct they belong to, the attribute's tag, the operator and its operands, quotes and quoted content, interpolations, ignored rule names, the sides of a filter, the parts of a call, and the whitespace control of its opening and closing delimiter; and nothing where the part is absent. A node's range without leading trivia begins at its first character that is no whitespace.",
 ["inputs","programs"],"every node of every tree the parser can return, for well-formed and malformed templates",
 "Tests call the accessors on a few trees each; whether they name the right part depends on everything else the node may contain.",
 [PP+"syntax/typed.rs",PP+"syntax/untyped.rs"],
 [("first child of a kind, operands before and behind the operator token, quotes around the inner node, first and last token for whitespace control",PP+"syntax/typed.rs"),("range without leading trivia",PP+"syntax/untyped.rs SyntaxNodeExt")],["public typed API on the result of parse()"],None)
p("P24","Every finding is printed once, with its place and its lines",
 "For every scanned file the program prints one block for each syntax error and each finding of a rule, with its severity, its name, the file, and the line and column (counted from 1, columns in characters) at which it begins; the block shows every line the finding and its suggestions begin in and marks exactly the finding's text. Nothing else is printed as a finding, the blocks of one file are not mixed with those of another, and with --inspect the syntax tree of every file is printed once.",
 ["inputs","schedules","configurations"],"every set of files, configuration, mode (--fix, --inspect) and interleaving of the workers",
 "Tests compare the rendering of a few findings of one file each.",
 [L+"check.rs",L+"output.rs",L+"process.rs"],
 [("diagnostics with labels from the findings' ranges",L+"check.rs produce_diagnostics"),("one buffer per file printed at once by the output thread",L+"output.rs")],["standard error of the program"],H)
p("P25","The program tells which configuration it uses",
 "A run with a usable configuration names the configuration file and says whether it was read, and lists every LUDTWIG_ environment variable that is set, each with its value, and no other. It warns, naming both versions, exactly if the version in effect is not the program's own or a configuration file that is not empty doesn't mention a version. With --verbose it prints the configuration values in effect, all of them and no others, and without it none.",
 ["configurations"],"every combination of configuration file, environment and options",
 "No test reads what is printed about the configuration.",
 [L+"config.rs"],
 [("messages of handle_config_or_exit",L+"config.rs")],["standard output and error of the program"],H)
p("P26","Syntax errors point to where the text goes wrong",
 "Every syntax error points to exactly one token of the text that is no whitespace and names its kind, or, where the end of the text was reached, to its last token. In a text that can be continued to a valid template (cut anywhere outside of a quoted attribute value) every error points to its end, or to a final `</`. The errors of a self-contained malformed element among well-formed ones lie in that element or at the next token behind it. Where a token that no Twig code takes (like `;`, `@` or an opening delimiter) stands between the tokens of Twig code, or one that no HTML tag takes between the tokens of a tag, the first error points to exactly this token.",
 ["inputs"],"every text, every place where a valid template can be cut, every malformed element in every place, every stray token between any two",
 "Tests compare the errors of single malformed texts.",
 [PP+"parser.rs",PP+"parser/parse_error.rs",PP+"grammar.rs",PP+"grammar/html.rs",PP+"grammar/twig/tags.rs"],
 [("error at the current token or at the last one",PP+"parser.rs add_error"),("error at a token that was already consumed",PP+"parser/parse_error.rs at_token")],["errors of parse()"],None)
import re
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(q)+"\n" for q in P))
print(len(P))
