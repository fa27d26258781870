"""P06..P22: the linter program against spec/Rules, Ignore, Fix, Select, Config, App."""
from concurrent.futures import ThreadPoolExecutor
import json, os, random, re, shutil
import vlib, corpus, app
from vlib import THOROUGH

CHECKS = {}

CONFIGS = [
    {},
    dict(lineEnding="windows_CRLF", indentationMode="tab", indentationCount=1, indentChildrenOfBlocks=False, linebreaksAroundBlocks=False,
         twigQuotation="double", htmlQuotation="single"),
    dict(indentationCount=2, linebreaksAroundBlocks=False, twigQuotation="double", validFilters=["raw"], validTests=["same as", "divisible by"], validFunctions=["max", "block"]),
    dict(indentationCount=0, indentChildrenOfBlocks=False, htmlQuotation="single", validFilters=[], validTests=[], validFunctions=[]),
    dict(lineEnding="windows_CRLF", indentationCount=3, validFilters=["json_encode", "foo_filter", "default", "e"], validTests=["defined", "null", "constant"],
         validFunctions=["constant", "path", "foo_func", "even"]),
    dict(indentationMode="tab", indentationCount=2, twigQuotation="double", htmlQuotation="single", linebreaksAroundBlocks=True, indentChildrenOfBlocks=False,
         validFilters=["json_encode", "e", "upper"]),
]

SPACES = ["", " ", "  ", "\t", "\n", "\n\n", "\r\n", "\r\n\r\n", "\n  \n", "\n\t\n", "\r\n \r\n", "\n    ", "\n\t", "\r\n        ", "    ", "\n \n \n", "\n\r\n", "\n\n\n", " \n"]


def respaced(rng, s, rate=0.3):
    """The same text with some of its whitespace replaced by other whitespace."""
    return re.sub(r"[ \t\r\n]+", lambda m: rng.choice(SPACES[1:]) if rng.random() < rate else m.group(0), s)


def base_docs(ctx, n, seed, pairs=True, marks=True):
    docs = [g["text"] for g in corpus.gen_docs(ctx.dir, n, seed=seed)]
    if marks:
        docs += [m["text"] for g in corpus.gen_docs(ctx.dir, n // 4, seed=seed + 1, marks=1) for m in g["marks"]]
    if pairs:
        docs += [g["text"] for g in corpus.pair_docs(ctx.dir, seed=seed + 2)]
    return docs + corpus.snippets()


def odd(rng, x):
    """The text with a character few templates have: a byte order mark, a lone \\r, control and wide characters..."""
    c = rng.choice(["\ufeff", "\ufeff", "\r", "\r", "\f", "\v", "\0", "\u2028", "\u00a0", "\x1b", "\U0001f600", "e\u0301"])
    k = rng.choice([0, 0, len(x), rng.randrange(len(x) + 1)])
    return x[:k] + c + x[k:]


def lint_docs(ctx, seed, scale=1):
    """Templates, well-formed and not, ugly and nearly clean."""
    rng = random.Random(seed)
    docs = base_docs(ctx, 300 * scale, seed)
    # templates as --fix leaves them, and what a little change makes of them
    tidy = []
    for k in range(2 * scale):
        some = rng.sample(docs, min(len(docs), 250))
        tidy += [x.after for x in app.scan(some, ctx.dir, CONFIGS[(seed + k) % len(CONFIGS)], fix=True) if x.st == "ok"]
    docs += tidy + [respaced(rng, t, 0.06) for t in tidy]
    docs += [respaced(rng, x) for x in rng.sample(docs, min(len(docs), 400 * scale))]
    docs += [odd(rng, faulty(rng)) for _ in range(60 * scale)] + [odd(rng, x) for x in rng.sample(docs, min(len(docs), 60 * scale))]
    docs += corpus.mutations(docs, 700 * scale, seed=seed + 3, limit=1500)
    return list(dict.fromkeys(docs))


def lint_check(ctx, pid, rules, extra=()):
    """What the given rules report on every text under several configurations, against spec/Rules."""
    vlib.build_cli()
    rng = random.Random(vlib.SEED * 613 + int(pid[1:]))
    docs = lint_docs(ctx, vlib.SEED * 1000 + int(pid[1:]), 5 if THOROUGH else 1)
    extra = list(extra)
    path = os.path.join(ctx.dir, "rules.json")
    with open(path, "w") as f:
        json.dump(rules, f)
    recs, src, reports = [], [], 0
    for k, cfg in enumerate(CONFIGS):
        some = extra + rng.sample(docs, len(docs) // (1 if THOROUGH else 3))
        for x, text in zip(app.scan(some, ctx.dir, dict(cfg, rules=rules)), some):
            recs.append(app.lint_record(len(recs), x))
            src.append((text, k))
            reports += len(recs[-1]["results"])
    vlib.log("%d texts, %d checks, %d findings" % (len(docs) + len(extra), len(recs), reports))
    j = vlib.judge("LintTrace", ctx.dir, recs, env={"LINT_RULES": path}, chunk=4000)
    ctx.count(j)
    for r in sorted(j.rejected, key=lambda r: len(src[r["id"]][0])):
        text, k = src[r["id"]]
        ctx.violation("%s: %s" % (r["rule"], r["why"]) if r["rule"] else r["why"], rule=r["rule"], source=text, config=recs[r["id"]]["cfg"], finding=r["finding"], other=r["other"])
    per = {}
    for r in recs:
        for x in r["results"]:
            per[x["rule"]] = per.get(x["rule"], 0) + 1
    ctx.extra.update(findings_judged=per, configurations=len(CONFIGS))
    for i in range(0, len(recs), max(1, len(recs) // 3)):
        ctx.sample({"text": src[i][0][:250], "config": src[i][1], "findings": len(recs[i]["results"])})


def p15(ctx):
    lint_check(ctx, "P15", ["line-ending", "whitespace-between-line-breaks"])


def p16(ctx):
    lint_check(ctx, "P16", ["indentation"])


def blocks(rng):
    """Blocks and what may stand next to them, with all kinds of whitespace in between."""
    def el(d):
        k = rng.randrange(12 if d else 8)
        if k in (0, 1): return rng.choice(["{# c #}", "{# c\n c #}", "<!-- c -->", "{##}"])
        if k in (2, 3): return rng.choice(["{# ludtwig-ignore #}", "{# ludtwig-ignore foo #}", "{# ludtwig-ignore twig-block-line-breaks #}", "<!-- ludtwig-ignore foo, bar -->",
                                           "{# ludtwig-ignore-file foo #}", "<!-- ludtwig-ignore line-ending -->"])
        if k == 4: return rng.choice(["text", "{{ a }}", "<i></i>", "<br>", "{% set a = 1 %}", "{% block s 'x' %}"])
        if k == 5: return "{% block " + rng.choice("abc") + " %}{% endblock %}"
        if k in (6, 7): return ""
        w = rng.choice(["{%% block x %%}%s{%% endblock %%}", "{%% block x %%}%s{%% endblock %%}", "<div>%s</div>", "{%% if a %%}%s{%% endif %%}", "<pre>%s</pre>", "{%% block y %%}%s{%% endblock y %%}"])
        return w % run(d - 1)

    def run(d):
        return sp() + "".join(el(d) + sp() for _ in range(rng.randrange(1, 4)))
    sp = lambda: rng.choice(SPACES)
    return run(rng.randrange(1, 4))


def p17(ctx):
    rng = random.Random(vlib.SEED + 17)
    docs = [blocks(rng) for _ in range(900 * (8 if THOROUGH else 1))]
    # every kind of comment between, before and behind blocks
    sp = lambda: rng.choice(SPACES)
    for c in ["{# c #}", "<!-- c -->", "{# ludtwig-ignore foo #}", "<!-- ludtwig-ignore foo -->", "{# ludtwig-ignore-file foo #}", "<!-- ludtwig-ignore-file foo -->"]:
        for form in ["<div>%sB%sC%sB%s</div>", "B%sC%sB%sC%s", "x%sB%sC%sx%s", "<div>%sC%sB%s<p></p>%s</div>", "{%% block o %%}%sC%sB%sC%s{%% endblock %%}"]:
            for _ in range(12 * (8 if THOROUGH else 2)):
                docs.append((form % (sp(), sp(), sp(), sp())).replace("B", "{% block a %}{% endblock %}").replace("C", c))
    lint_check(ctx, "P17", ["twig-block-line-breaks"], dict.fromkeys(docs))


def p18(ctx):
    rng = random.Random(vlib.SEED + 18)
    ids = ["a", "A", "b", "a ", " a", "", "a-b", "{{ a }}", "a{{ b }}", "{% if a %}a{% endif %}", "a b", "{# c #}a", "1", "ä"]
    names = ["a", "b", "A", "a_b", "if", "date"]
    wrap = ["%s", "<pre>%s</pre>", "{%% if x %%}%s{%% endif %%}", "<div>%s</div>", "{# ludtwig-ignore #}\n<p>%s</p>", "{# ludtwig-ignore twig-block-duplicate #}<p>%s</p>",
            "{# ludtwig-ignore html-duplicate-id, other #}<p>%s</p>", "{%% block w %%}%s{%% endblock %%}", "{%% foo %%}%s", "{%% embed 'x' %%}{%% block z %%}%s{%% endblock %%}{%% endembed %%}",
            "<a id='%s'></a>"]
    docs = []
    for _ in range(400 * (6 if THOROUGH else 1)):
        parts = []
        for _ in range(rng.randrange(2, 7)):
            q = rng.choice(["'", '"', '"', '"', ""])
            el = rng.choice(["{%% block %s %%}%s{%% endblock %%}" % (rng.choice(names), rng.choice(["", "x", "{%% block %s %%}{%% endblock %%}" % rng.choice(names)])),
                             "{%% block %s 'x' %%}" % rng.choice(names),
                             "<i %s=%s%s%s></i>" % (rng.choice(["id", "id", "id", "ID", "data-id"]), q, rng.choice(ids), q),
                             rng.choice(["{% block %}{% endblock %}", "{% block \"a\" %}{% endblock %}", "<i id></i>", "<i class id=%s a></i>" % rng.choice(["a", "b"]), "<i id=></i>"]) if rng.random() < 0.3 else ""])
            parts.append(rng.choice(wrap) % el)
        docs.append("\n".join(parts))
    # a repetition around, behind and in front of something that is none
    for x in ["<i id></i>", "<i id=></i>", "<i id=''></i>", "<i id='{{ a }}'></i>", "<i id='a{% if a %}b{% endif %}'></i>", "<i ID='a'></i>", "<i class='a' id></i>", "<Id id=b c>", "{% block %}{% endblock %}",
              "{% block 'a' %}{% endblock %}", "{% block a", "{# ludtwig-ignore #}<i id='a'></i>", "{# ludtwig-ignore #}{% block a %}{% endblock %}", "{# ludtwig-ignore foo #}<i id='a'></i>",
              "<!-- <i id='a'></i> -->", "{# {% block a %} #}", "<i id=\"'a'\"></i>", "<i id='a", "</i>", "{% embed 'x' %}{% block a %}{% endblock %}{% endembed %}", "<script id='a'></script>", "<i id= 'a'>", "{% x %}"]:
        for y in ["<i id='a'></i>", "<b class id=\"a\" c></b>", "{% block a %}{% endblock %}", "{% block a 'x' %}"]:
            docs += [x + y + y, y + "\n" + x + y, y + y + x, "<div>%s%s</div>%s" % (y, x, y), "{%% if a %%}%s%s{%% endif %%}\n%s" % (x, y, y)]
    lint_check(ctx, "P18", ["twig-block-duplicate", "html-duplicate-id"], docs)


def expressions(ctx, families, amount):
    res = []
    for fam in families:
        res += [g["text"] for g in vlib.tlc_lines("ExprGen", ctx.dir, {"GEN_FAMILY": str(fam), "GEN_SEED": str(vlib.SEED), "GEN_AMOUNT": str(amount)}, "GEN")]
    return res


def called(rng):
    """Expressions full of filters, tests and functions."""
    names = ["raw", "json_encode", "foo", "path", "even", "date", "max", "a", "foo_filter", "foo_func", "block", "defined", "constant", "fooFilter"]
    args = ["", "()", "(1)", "(a, b=1)", "('x')", "( x|%s )" % rng.choice(names), "(%s(1))" % rng.choice(names)]

    def ex(d):
        k = rng.randrange(12 if d else 2)
        n = rng.choice(names)
        if k == 0: return n
        if k == 1: return rng.choice(["1", "'s'", "[a]", "{a: 1}", "-1"])
        if k in (2, 3): return ex(d - 1) + rng.choice(["|", " | ", "\n|"]) + n + rng.choice(args)
        if k in (4, 5): return n + rng.choice(["()", "(%s)" % ex(d - 1), "(%s, b=%s)" % (ex(d - 1), ex(d - 1))])
        if k in (6, 7): return ex(d - 1) + rng.choice([" is ", " is not "]) + rng.choice([n, n + rng.choice(args), "same as(%s)" % ex(d - 1), "divisible by(%s)" % ex(d - 1), "same as " + ex(0), n + "(%s)" % ex(d - 1)])
        if k == 8: return ex(d - 1) + rng.choice([" + ", " ** ", " ~ ", " and ", " == ", " ?? ", " in ", " .. ", " b-and "]) + ex(d - 1)
        if k == 9: return "(" + ex(d - 1) + ")"
        if k == 10: return "a." + n + rng.choice(["", "(%s)" % ex(d - 1)])
        return ex(d - 1) + rng.choice(["[%s]" % ex(d - 1), " ? %s : %s" % (ex(d - 1), ex(d - 1))])
    return rng.choice(["{{ %s }}", "{%% if %s %%}{%% endif %%}", "<a b=\"{{ %s }}\"></a>", "{%% for i in %s %%}{%% endfor %%}", "{%% set a = %s %%}", "{{ \"#{%s}\" }}"]) % ex(rng.randrange(1, 5))


def p19(ctx):
    rng = random.Random(vlib.SEED + 19)
    docs = [called(rng) for _ in range(900 * (8 if THOROUGH else 1))]
    lint_check(ctx, "P19", ["twig-valid-filter", "twig-valid-test", "twig-valid-function"], dict.fromkeys(docs))


def quoted(rng):
    inner = "".join(rng.choice(["a", " ", "b", "\n", "'", "\"", "\\'", "\\\"", "#", "{", "}", "#{a}", "#{ 'x' }", "#{b['c']}", "#{b[\"c\"]}", "#{ \"x#{a}\" }", "{{ a }}", "{{ 'a' }}", "{{ \"a\" }}", "", "&quot;", "ä"])
                    for _ in range(rng.randrange(0, 5)))
    q = rng.choice("'\"")
    k = rng.randrange(8)
    if k == 0: return "{{ %s%s%s }}" % (q, inner, q)
    if k == 1: return "<a b=%s%s%s></a>" % (q, inner, q)
    if k == 2: return "<a b=%s%s></a>" % (rng.choice(["", " ", "\n"]), rng.choice(["a", "a-b", "{{ a }}", "{{ 'a' }}", "1", "a{{ b }}", "{{ 'x' }}{{ \"y\" }}", "{% if a %}b{% endif %}", "/a/b"]))
    if k == 3: return "{{ {%s%s%s: %s%s%s} }}" % (q, inner, q, q, inner, q)
    if k == 4: return "{%% include %s%s%s %%}" % (q, inner, q)
    if k == 5: return "<a {%% if a %%}b=%s%s%s{%% endif %%}></a>" % (q, inner, q)
    if k == 6: return "{%% set a = %s%s%s %%}" % (q, inner, q)
    return "{{ %s%s" % (q, inner)


def p20(ctx):
    rng = random.Random(vlib.SEED + 20)
    docs = [quoted(rng) for _ in range(700 * (8 if THOROUGH else 1))]
    lint_check(ctx, "P20", ["twig-string-quotation", "html-string-quotation"], dict.fromkeys(docs))


def operated(rng):
    def ex(d):
        k = rng.randrange(10 if d else 2)
        if k == 0: return rng.choice(["a", "foo", "raw", "json_encode"])
        if k == 1: return rng.choice(["1", "'s'", "null", "[a, b]", "(a)"])
        if k in (2, 3, 4): return ex(d - 1) + rng.choice([" && ", " || ", " === ", " !== ", "===", "&&", "||", "!=="]) + ex(d - 1)
        if k == 5: return rng.choice(["not ", "-", "!"]) + ex(d - 1)
        if k == 6: return ex(d - 1) + rng.choice([" and ", " == ", " ~ ", " ** ", " is ", " != ", " or ", " + "]) + ex(d - 1)
        if k == 7: return ex(d - 1) + "".join(rng.choice(["|", "|", " | "]) + rng.choice(["json_encode", "json_encode", "raw", "raw", "raw", "json_encode(1)", "raw()", "upper", "raw(1, 2)", "escape('js')", "escape", "e"]) for _ in range(rng.choice([1, 1, 2, 3, 4, 6])))
        if k == 8: return "{%s: %s, %s}" % (rng.choice(["'a'", "\"b\"", "c", "'a b'", "'a-b'", "'1'", "''", "'_x1'", "'ä'", "(1)", "' a'", "'if'", "\"a#b\"", "2"]), ex(d - 1), rng.choice(["b", "'c': 1", "(a): 'b'"]))
        return "(" + ex(d - 1) + ")"
    k = rng.randrange(9)
    if k == 0: return "{%% %s %s %%}" % (rng.choice(["extends", "extends", "sw_extends"]), ex(1))
    if k == 1: return rng.choice(["", "<p>", "{% block a %}", "a"]) + "{#%s ludtwig-ignore-file%s #}" % (rng.choice(["", "-"]), rng.choice(["", " line-ending", " foo, bar"])) + rng.choice(["", "</p>", "{% endblock %}"])
    return rng.choice(["{{ %s }}", "{%% if %s %%}{%% endif %%}", "{%% set a = %s %%}", "<a b='{{ %s }}'></a>", "<script>{{ %s }}</script>"]) % ex(rng.randrange(1, 5))


def p21(ctx):
    rng = random.Random(vlib.SEED + 21)
    docs = [operated(rng) for _ in range(900 * (8 if THOROUGH else 1))]
    lint_check(ctx, "P21", ["twig-logic-and", "twig-logic-or", "twig-use-is-same-as", "twig-use-is-not-same-as", "twig-prefer-shopware-extends", "twig-json-encode-escape-js",
                            "twig-hash-key-no-quotes", "ludtwig-ignore-file-not-on-top"], dict.fromkeys(docs))


def p22(ctx):
    import itertools
    rng = random.Random(vlib.SEED + 22)
    # every short name over letters of both cases, digits and separators; many names per text
    names = ["".join(t) for n in range(1, 5 if not THOROUGH else 6) for t in itertools.product("aB1_-", repeat=n)]
    names += ["".join(rng.choice("abcXYZ019_-") for _ in range(rng.randrange(5, 14))) for _ in range(400)]
    names = [n for n in names if n[0] not in "1-" or rng.random() < 0.4]
    docs, size = [], 40
    for a in range(0, len(names), size):
        some = names[a:a + size]
        docs.append("\n".join("{%% block %s %%}{%% endblock%s %%}" % (n, " " + n if i % 3 == 0 else "") for i, n in enumerate(some)))
        docs.append("<div " + " ".join("%s%s" % (rng.choice(["", "", "", "@", ":", "#", "v-on:"]) + n, rng.choice(["", "=1", "='a'"])) for n in some) + "></div>")
        docs.append("\n".join(rng.choice(["{%% set %s = 1 %%}", "{%% set %s = constant('A') %%}", "{%% set %s %%}{%% endset %%}", "{%% for %s in a %%}{%% endfor %%}", "{%% set a, %s = 1, 2 %%}",
                                          "{%% for k, %s in a %%}{%% endfor %%}", "{%% set %s = a.constant('A') %%}", "{%% set %s = constant('A')|foo %%}", "{%% set %s = foo(constant('A')) %%}"]) % n for n in some))
        docs.append("<%s %s></div>" % (rng.choice(["twig:Foo", "twig:foo:bar", "div", "my-el"]), " ".join(rng.choice(["%s", "{%% if a %%}%s='1'{%% else %%}%s=2{%% endif %%}", "{%% block b %%}%s{%% endblock %%}"]).replace("%s", n).replace("%%", "%") for n in some[:12])))
        # elements inside of components, and components inside of elements
        for n in some[:4]:
            docs.append(rng.choice(["<twig:Foo a='b'>\n<%s %s></%s>\n</twig:Foo>", "<twig:Foo>{%% if a %%}<div><%s %s='1'></%s></div>{%% endif %%}</twig:Foo>", "<div><%s %s></%s></div>"]) % ((lambda t: (t, n, t))(rng.choice(["p", "twig:Bar", "my-el"]))))
    lint_check(ctx, "P22", ["twig-block-name-snake-case", "html-attribute-name-kebab-case", "twig-variable-definition-naming"], docs)


def entangled(rng):
    """Templates in which the edits of different findings meet."""
    def ex(d):
        k = rng.randrange(9 if d else 2)
        if k == 0: return rng.choice(["a", "'s'", "\"t\"", "\"äö\"", "'€𝄞'", "1", "{'k': \"v\"}", "b|json_encode|raw"])
        if k == 1: return rng.choice(["\"a'b\"", "'#{x}'", "\"#{ 'y' }\"", "[ 'a', \"b\" ]", "{\n'k' : 'v'\n}"])
        if k in (2, 3, 4): return ex(d - 1) + rng.choice([" === ", " !== ", "===", "!==", "\n=== "]) + ex(d - 1)
        if k in (5, 6): return ex(d - 1) + rng.choice([" && ", " || ", "\n&&\n", "||"]) + ex(d - 1)
        if k == 7: return "(%s)" % ex(d - 1)
        return rng.choice(["{'k': %s, \"l\": %s}" % (ex(d - 1), ex(d - 1)), "[%s,\n%s]" % (ex(d - 1), ex(d - 1)), "f(%s)" % ex(d - 1), "%s|raw" % ex(d - 1), "%s is same as(%s)" % (ex(d - 1), ex(d - 1))])

    def el(d):
        k = rng.randrange(9 if d else 3)
        sp = lambda: rng.choice(SPACES)
        if k in (0, 1): return "{{ %s }}" % ex(rng.randrange(1, 5))
        if k == 2: return rng.choice(["text", "{# c #}", "{# ludtwig-ignore foo #}", "ä", "<a someAttr=%s></a>" % rng.choice(["x", "'x'", "{{ 'x' }}", "'{{ \"x\" }}'", "\"{{ a === 'b' }}\""]), "{% extends 'a' %}"])
        if k in (3, 4): return sp() + "{%% block %s %%}" % rng.choice(["a", "fooBar", "x-Y", "A"]) + sp() + el(d - 1) + sp() + "{% endblock %}" + sp()
        if k == 5: return "<%s someAttr='a' B=\"{{ %s }}\">" % ("div", ex(2)) + sp() + el(d - 1) + sp() + "</div>"
        if k == 6: return "{%% if %s %%}" % ex(2) + sp() + el(d - 1) + sp() + "{% endif %}"
        if k == 7: return "<pre>" + sp() + el(d - 1) + sp() + "</pre>"
        return el(d - 1) + sp() + el(d - 1)
    return el(rng.randrange(1, 5))


def fix_runs(ctx, docs, cfgs, later=False, per=1.0, rng=None):
    """--fix runs over the documents; later: and what a plain run and a second --fix do afterwards."""
    for cfg in cfgs:
        some = docs if per >= 1 else rng.sample(docs, int(len(docs) * per))
        first = app.scan(some, ctx.dir, cfg, fix=True)
        after = [x.after for x in first]
        yield cfg, some, first, app.scan(after, ctx.dir, cfg) if later else [None] * len(some), app.scan(after, ctx.dir, cfg, fix=True) if later else [None] * len(some)


def fix_judge(ctx, pid, recs, src, chunk=1500):
    j = vlib.judge("FixTrace", ctx.dir, recs, env={"FIX_PROPERTY": pid}, chunk=chunk)
    ctx.count(j)
    for r in sorted(j.rejected, key=lambda r: len(src[r["id"]][0])):
        text, cfg = src[r["id"]]
        rec = recs[r["id"]]
        ctx.violation(r["why"], source=text, config=cfg, after=rec["after"], rounds=[x["text"] for x in rec["rounds"]][:4], chosen=rec["chosen"][:3])
    rounds = {}
    for r in recs:
        rounds[len(r["rounds"])] = rounds.get(len(r["rounds"]), 0) + 1
    ctx.extra.update(rounds=rounds, files=len(recs))
    for i in range(0, len(recs), max(1, len(recs) // 3)):
        ctx.sample({"text": src[i][0][:250], "after": recs[i]["after"][:250], "rounds": len(recs[i]["rounds"])})


def p08(ctx):
    vlib.build_cli()
    from checks_parser import model_check
    model_check(ctx, "FixMC", "FixMC.cfg")
    model_check(ctx, "FixMC", "FixMCDeep.cfg")
    rng = random.Random(vlib.SEED + 8)
    docs = list(dict.fromkeys([odd(rng, entangled(rng)) for _ in range(60)] + [entangled(rng) for _ in range(900 * (8 if THOROUGH else 1))])) + rng.sample(lint_docs(ctx, vlib.SEED * 1000 + 8, 5 if THOROUGH else 1), 700 if not THOROUGH else 8000)
    recs, src = [], []
    for cfg, some, first, _, _ in fix_runs(ctx, docs, CONFIGS, per=1 if THOROUGH else 0.5, rng=rng):
        for x, text in zip(first, some):
            recs.append(app.fix_record(len(recs), x, text))
            src.append((text, cfg))
    vlib.log("%d --fix runs" % len(recs))
    fix_judge(ctx, "P08", recs, src)
    ctx.extra["edits_applied"] = sum(len(c) for r in recs for c in r["chosen"])


def p09(ctx):
    vlib.build_cli()
    rng = random.Random(vlib.SEED + 9)
    docs = list(dict.fromkeys([odd(rng, entangled(rng)) for _ in range(60)] + [entangled(rng) for _ in range(500 * (8 if THOROUGH else 1))])) + lint_docs(ctx, vlib.SEED * 1000 + 9, 4 if THOROUGH else 1)
    # deeper than ten rounds
    for n in (3, 9, 10, 11, 14):
        docs.append("{{ " + " === (".join("a" * (n + 1)) + ")" * n + " }}")
    recs, src = [], []
    for cfg, some, first, plain, again in fix_runs(ctx, docs, CONFIGS, later=True, per=1 if THOROUGH else 0.3, rng=rng):
        for x, text, p, a in zip(first, some, plain, again):
            recs.append(app.fix_record(len(recs), x, text, p, a))
            src.append((text, cfg))
    vlib.log("%d --fix runs" % len(recs))
    fix_judge(ctx, "P09", recs, src)


def p11(ctx):
    vlib.build_cli()
    rng = random.Random(vlib.SEED + 11)
    n = 6 if THOROUGH else 1
    base = base_docs(ctx, 350 * n, vlib.SEED * 1000 + 11, marks=False)
    docs = [entangled(rng) for _ in range(700 * n)] + base + [respaced(rng, x) for x in base] + [quoted(rng) for _ in range(250 * n)] + [operated(rng) for _ in range(250 * n)]
    docs = list(dict.fromkeys(docs))
    recs, src = [], []
    x = "{% extends foo %}"
    recs.append(app.fix_record(0, app.scan([x], ctx.dir, {}, fix=True)[0], x, trees=True))
    src.append((x, {}))
    for cfg, some, first, _, _ in fix_runs(ctx, docs, CONFIGS, per=1 if THOROUGH else 0.28, rng=rng):
        for x, text in zip(first, some):
            if x.st == "ok" and x.rounds and x.rounds[0]["errors"]:
                continue
            recs.append(app.fix_record(len(recs), x, text, trees=True))
            src.append((text, cfg))
    vlib.log("%d --fix runs on templates without syntax errors" % len(recs))
    fix_judge(ctx, "P11", recs, src, chunk=800)


DIRECTIVE_AT = {"HTML_TAG", "TWIG_BLOCK", "TWIG_VAR", "HTML_TEXT", "TWIG_IF", "TWIG_FOR", "TWIG_SET", "TWIG_INCLUDE", "TWIG_EXTENDS", "HTML_ATTRIBUTE", "TWIG_EMBED", "TWIG_MACRO", "TWIG_WITH",
                "TWIG_APPLY", "TWIG_COMMENT", "HTML_COMMENT", "TWIG_AUTOESCAPE", "TWIG_VERBATIM", "TWIG_DO", "TWIG_COMPONENT", "SHOPWARE_TWIG_SW_EXTENDS", "TWIG_CACHE", "HTML_ENDING_TAG",
                "TWIG_ENDIF_BLOCK", "TWIG_ELSE_BLOCK", "TWIG_ENDING_BLOCK", "LUDTWIG_DIRECTIVE_IGNORE", "HTML_DOCTYPE", "ERROR"}


def directive(rng, file=False):
    word = "ludtwig-ignore-file" if file else "ludtwig-ignore"
    rules = [] if rng.random() < 0.3 else [rng.choice(app.RULES + ["unknown-rule"]) for _ in range(rng.choice([1, 1, 2, 2, 3, 8]))]
    listed = rng.choice([", ", ",", " , "]).join(rules)
    return rng.choice(["{# %s %s #}", "{# %s %s #}", "{#- %s %s -#}", "<!-- %s %s -->", "{# %s\n%s #}"]) % (word, listed)


def directed(rng, text, tree):
    """The text with ignore directives in front of some of its elements."""
    at = []
    for i, (k, p, s, t) in enumerate(tree):
        if k in DIRECTIVE_AT:
            j = i
            while j < len(tree) and (tree[j][3] is None or tree[j][0] in ("TK_WHITESPACE", "TK_LINE_BREAK")):
                j += 1
            if j < len(tree):
                at.append(tree[j][2])
        # words in attribute values and scripts are no elements
        if t is not None and k not in ("TK_WHITESPACE", "TK_LINE_BREAK") and tree[p - 1][0] in ("HTML_STRING_INNER", "HTML_RAW_TEXT"):
            at += [s, s]
    b = text.encode("utf-8")
    for o in sorted(set(rng.choice(at) for _ in range(rng.choice([1, 1, 2, 3, 5]))) if at else [], reverse=True):
        b = b[:o] + (directive(rng) + rng.choice(["", "", " ", "\n", "\n    "])).encode() + b[o:]
    if rng.random() < 0.15:
        b = (directive(rng, True) + rng.choice(["", "\n"])).encode() + b
    if rng.random() < 0.05:
        o = rng.choice(at) if at else 0
        b = b[:o] + directive(rng, True).encode() + b[o:]
    return b.decode("utf-8", "replace")


def faulty(rng):
    """Elements in which many rules find something."""
    def el(d):
        sp = rng.choice(["", " ", "\n", "\r\n", "\n\n", "\n  \n", "\n    ", "\n\t"])
        k = rng.randrange(12 if d else 5)
        if k == 11:
            mixed = lambda: rng.choice([" ", "\n", "", " "]).join(rng.choice(["a", "x b", "{{ a && b }}", "{{ a||b }}", "{{ a === b }}", "{{ \"x\" }}" if rng.random() < 0.3 else "{{ f('x') }}", "{% if a || b %} c{% endif %}"]) for _ in range(rng.randrange(1, 6)))
            return sp + rng.choice(["<p class='%s'></p>", "<p someAttr=\"%s\" id=a>x</p>", "<script>%s</script>", "<style>%s</style>"]) % mixed()
        if k == 0: return "{{ %s }}" % rng.choice(["a && b", "a||\"x\"", "a === 'b'", "b!==c", "fooFunc()|fooFilter", "a|json_encode|raw", "a|json_encode|foo|raw|raw", "a|raw|json_encode", "{'k': \"v\"}", "a is fooTest", "x"])
        if k == 1: return "<i id=%s someAttr='a'></i>" % rng.choice(["'x'", "\"x\"", "y"])
        if k == 2: return rng.choice(["text", "a b\n  c", "{# c #}", "{% extends 'a' %}", "{% set FooBar = 1 %}", "{% include \"a\" %}"])
        if k == 3: return "<br {% if a %}fooBar='1'{% endif %} B={{ \"x\" }}>"
        if k == 4: return "\n  \n\r\n x"
        if k in (5, 6): return sp + "{%% block %s %%}" % rng.choice(["a", "fooBar", "b"]) + sp + el(d - 1) + sp + "{% endblock %}" + sp
        if k in (7, 8): return "<div someAttr='a' id=\"x\">" + sp + el(d - 1) + sp + el(d - 1) + sp + "</div>"
        if k == 9: return "{% if a && \"b\" %}" + sp + el(d - 1) + sp + "{% else %}" + el(d - 1) + "{% endif %}"
        return el(d - 1) + sp + el(d - 1)
    return el(rng.randrange(1, 5))


def p06(ctx):
    vlib.build_cli()
    vlib.build_harness()
    from checks_parser import model_check
    model_check(ctx, "IgnoreMC", "IgnoreMC.cfg")
    if THOROUGH:
        model_check(ctx, "IgnoreMC", "IgnoreMCDeep.cfg")
    rng = random.Random(vlib.SEED + 6)
    n = 6 if THOROUGH else 1
    base = [faulty(rng) for _ in range(700 * n)] + rng.sample(lint_docs(ctx, vlib.SEED * 1000 + 6, n), 600 * n)
    docs = []
    for x, r in zip(base, vlib.parse_docs(base, ctx.dir)):
        if r["st"] == "ok":
            docs.append(directed(rng, x, r["tree"]))
    # directives inside of what another directive ignores
    for x, r in zip(docs[:500 * n], vlib.parse_docs(docs[:500 * n], ctx.dir)):
        if r["st"] == "ok":
            docs.append(directed(rng, x, r["tree"]))
    docs = [x for x in dict.fromkeys(docs) if "ludtwig-ignore" in x]
    # in pairs with the same texts without directives
    recs, src = [], []
    lint, lsrc = [], []
    for cfg in CONFIGS if THOROUGH else CONFIGS[:3]:
        some = rng.sample(docs, len(docs) // (1 if THOROUGH else 2))
        with_, without = app.scan(some, ctx.dir, cfg), app.scan([x.replace("ludtwig-ignore", "xudtwig-ignore") for x in some], ctx.dir, cfg)
        for text, x, y in zip(some, with_, without):
            r = app.lint_record(len(recs), x)
            a = app.lint_record(0, y)
            lint.append(dict(r, id=len(lint)))
            lsrc.append((text, cfg))
            recs.append(dict(id=len(recs), st="ok" if r["st"] == a["st"] == "ok" else "crash", nodes=r["nodes"], got=r["results"], all=a["results"],
                             malformed=r["errors"] != a["errors"]))
            src.append((text, cfg))
    vlib.log("%d pairs of checks" % len(recs))
    j = vlib.judge("IgnoreTrace", ctx.dir, recs, chunk=4000)
    ctx.count(j)
    for r in sorted(j.rejected, key=lambda r: len(src[r["id"]][0])):
        ctx.violation(r["why"], source=src[r["id"]][0], config=src[r["id"]][1])
    # and, with the rules about more than one element, against spec/Rules
    path = os.path.join(ctx.dir, "rules.json")
    with open(path, "w") as f:
        json.dump(app.RULES, f)
    lint = lint if THOROUGH else [dict(r, id=i) for i, r in enumerate(lint[::3])]
    step = 1 if THOROUGH else 3
    j = vlib.judge("LintTrace", ctx.dir, lint, env={"LINT_RULES": path}, chunk=4000)
    ctx.count(j)
    for r in sorted(j.rejected, key=lambda r: len(lsrc[r["id"] * step][0])):
        text, cfg = lsrc[r["id"] * step]
        ctx.violation("%s: %s" % (r["rule"], r["why"]), rule=r["rule"], source=text, config=cfg, finding=r["finding"], other=r["other"])
    ctx.extra.update(pairs=len(recs), findings_without_directives=sum(len(r["all"]) for r in recs), findings_suppressed=sum(len(r["all"]) - len(r["got"]) for r in recs))
    for i in range(0, len(recs), max(1, len(recs) // 3)):
        ctx.sample({"text": src[i][0][:250], "findings": len(recs[i]["got"]), "findings_without_directives": len(recs[i]["all"])})


def p07(ctx):
    vlib.build_cli()
    rng = random.Random(vlib.SEED + 7)
    n = 6 if THOROUGH else 1
    docs = [faulty(rng) for _ in range(250 * n)] + rng.sample(lint_docs(ctx, vlib.SEED * 1000 + 7, n), 350 * n)
    docs = list(dict.fromkeys(docs))
    strip = lambda rs: [dict(rule=r["rule"], sev=r["sev"], prim=r["prim"], sec=r["sec"], sug=r["sug"]) for r in rs]
    found = lambda x: strip(x.rounds[0]["results"]) if x.rounds else []
    recs, src = [], []
    for cfg in CONFIGS if THOROUGH else [CONFIGS[vlib.SEED % 3], CONFIGS[3 + vlib.SEED % 3]]:
        some = docs if THOROUGH else rng.sample(docs, len(docs) * 2 // 3)
        alone = {R: app.scan(some, ctx.dir, dict(cfg, rules=[R])) for R in app.RULES}
        lists = [app.RULES, app.RULES[::-1], []]
        lists += [rng.sample(app.RULES, rng.randrange(1, 22)) for _ in range(10 * n)]
        lists += [rng.choices(app.RULES, k=rng.randrange(1, 30)) for _ in range(3 * n)]
        lists += [[R for R in app.RULES if R != off] for off in rng.sample(app.RULES, 4)]
        runs = [(l, app.scan(some, ctx.dir, dict(cfg, rules=l))) for l in lists]
        for i, text in enumerate(some):
            st = "ok" if all(x[i].st == "ok" for x in alone.values()) and all(x[i].st == "ok" for _, x in runs) else "crash"
            recs.append(dict(id=len(recs), kind="runs", st=st, alone={R: found(x[i]) for R, x in alone.items()}, runs=[dict(list=l, got=found(x[i])) for l, x in runs]))
            src.append(dict(source=text, config=cfg))
    # lists with names of rules that don't exist
    near = lambda r: rng.choice([r.upper(), r + " ", " " + r, r[:-1], r + "s", r.replace("-", "_"), r.title(), "", "unknown", r + "," + r])
    texts = [faulty(rng) for _ in range(4)]
    for k in range(40 * n):
        l = rng.sample(app.RULES, rng.randrange(0, 22))
        if k % 4:
            l.insert(rng.randrange(len(l) + 1), near(rng.choice(app.RULES)))
        fix = k % 2 == 0
        base = os.path.join(ctx.dir, "names")
        os.makedirs(os.path.join(base, "files"))
        with open(os.path.join(base, "conf.toml"), "w") as f:
            f.write(app.toml(dict(rules=l)))
        for i, x in enumerate(texts):
            with open(os.path.join(base, "files", "%d.twig" % i), "w", newline="") as f:
                f.write(x)
        r = app.program((["--fix"] if fix else []) + ["-c", "../conf.toml", "."], os.path.join(base, "files"))
        after = []
        for i in range(len(texts)):
            with open(os.path.join(base, "files", "%d.twig" % i), newline="") as f:
                after.append(f.read())
        shutil.rmtree(base)
        recs.append(dict(id=len(recs), kind="names", list=l, rc=-1 if r.rc is None else r.rc, touched=len(r.of("file")), changed=after != texts))
        src.append(dict(rules=l, fix=fix))
    vlib.log("%d files, %d runs each" % (len([r for r in recs if r["kind"] == "runs"]), 22 + len(lists)))
    j = vlib.judge("ActiveTrace", ctx.dir, recs, chunk=500)
    ctx.count(j)
    for r in sorted(j.rejected, key=lambda r: len(str(src[r["id"]]))):
        ctx.violation(r["why"], **src[r["id"]])
    ctx.extra.update(rule_lists=len(lists), files=len(recs))
    for i in range(0, len(recs), max(1, len(recs) // 3)):
        ctx.sample({k: str(v)[:250] for k, v in src[i].items()})


class Folder:
    """A scratch folder with templates and other files, and runs of the program in it."""
    def __init__(self, d, files, cfg=None):
        self.base = os.path.join(d, "folder-%d" % random.randrange(10 ** 9))
        self.work = os.path.join(self.base, "work")
        os.makedirs(self.work)
        os.chmod(d, 0o755)
        self.files = files
        for n, x in files.items():
            p = os.path.join(self.work, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(x if isinstance(x, bytes) else x.encode("utf-8"))
        with open(os.path.join(self.base, "conf.toml"), "w") as f:
            f.write(app.toml(cfg or {}))

    def text(self, n):
        with open(os.path.join(self.work, n), "rb") as f:
            return f.read()

    def content(self):
        res = {}
        for root, dirs, names in os.walk(self.work):
            for n in names:
                p = os.path.join(root, n)
                with open(p, "rb") as f:
                    res[os.path.relpath(p, self.work)] = f.read()
        return res

    def run(self, i, selected, args, fix=False, inspect=False, walk_errors=0, faults=None, **k):
        """Run the program; selected: the files it has to process."""
        before = self.content()
        flags = (["--fix"] if fix else []) + (["--inspect"] if inspect else [])
        r = app.program_traced(flags + ["-c", os.path.join(self.base, "conf.toml")] + args, self.work, **k)
        after = self.content()
        real = lambda n: os.path.realpath(os.path.join(self.work, n))
        others = {n: b for n, b in before.items() if n not in selected} != {n: b for n, b in after.items() if n not in selected}
        rec = app.run_record(i, r, self.work, {real(n): (hexed(before[n]), hexed(after.get(n, b"<deleted>"))) for n in selected}, fix, inspect, walk_errors, others, {real(n): w for n, w in (faults or {}).items()})
        return r, rec

    def remove(self):
        shutil.rmtree(self.base)


def hexed(b):
    """Text as it is, bytes that are no text in hexadecimal."""
    try:
        return b.decode("utf-8")
    except UnicodeDecodeError:
        return "bytes " + b.hex()


def some_file(rng):
    k = rng.randrange(6)
    if k == 0: return "<p></p>\n"
    if k == 1: return rng.choice(["{{ a b }}", "<div>", "{% if %}", "{% block %}", ""])
    if rng.random() < 0.15: return odd(rng, faulty(rng))
    if k == 2: return "\n".join(faulty(rng) for _ in range(rng.randrange(1, 4)))
    return faulty(rng)


def some_tree(rng, n):
    dirs = [""] + ["%s/" % "/".join(rng.choice(["a", "b", "sub", "x y", "ä"]) for _ in range(rng.randrange(1, 4))) for _ in range(rng.randrange(4))]
    files = {}
    for k in range(n):
        files[rng.choice(dirs) + "f%d%s" % (k, rng.choice([".twig", ".html.twig", ".html"]))] = some_file(rng)
    return files


def app_judge(ctx, pid, recs, src):
    j = vlib.judge("AppTrace", ctx.dir, recs, env={"APP_PROPERTY": pid}, chunk=400)
    ctx.count(j)
    for r in j.rejected:
        rec = recs[r["id"]]
        ctx.violation(r["why"], at=r["at"], **src[r["id"]])
    ctx.extra.update(runs=len(recs), files=sum(len(r["files"]) for r in recs), events=sum(len(r["events"]) for r in recs))
    for i in range(0, len(recs), max(1, len(recs) // 4)):
        ctx.sample(src[i])


def p12(ctx):
    vlib.build_cli()
    from checks_parser import model_check
    model_check(ctx, "AppMC", "AppMC.cfg")
    model_check(ctx, "AppMC", "AppMCPlain.cfg")
    if THOROUGH:
        model_check(ctx, "AppMC", "AppMCDeep.cfg", timeout=1500)
    rng = random.Random(vlib.SEED + 12)
    recs, src, groups, gsrc = [], [], [], []
    sizes = [1, 2, 3, 5, 8, 13, 20, 30] * (12 if THOROUGH else 2) + [60, 120, 400] * (4 if THOROUGH else 1)
    for k, n in enumerate(sizes):
        files = some_tree(rng, n)
        broken = {}
        if k % 4 == 1:
            for f in rng.sample(sorted(files), max(1, len(files) // rng.choice([1, 2, 5]))):
                files[f] = rng.choice([b"\xff{{ a && b }}", b"{{ a }}\xc3"])
                broken[f] = "unreadable"
        if k % 3 == 2 and k % 2:
            for f in rng.sample(sorted(files), max(1, len(files) // 4)):
                if f not in broken:
                    files[f] = endless(rng)
                    broken[f] = "endless"
        extra = {"other.txt": "{{ a && b }}", "sub/readme.md": "x"}
        fix = k % 3 == 2
        runs = []
        tops = sorted({f.split("/")[0] for f in files})
        names = sorted(files)
        ways = [["."], tops, names[:40] + ["."], [".", ".", "./."], tops + ["missing.twig"], ["."], ["."], ["missing"] + tops]
        rng.shuffle(ways)
        if k == 3:
            ways.append(["missing"])
        for t, args in enumerate([["."]] + ways[:5 if n < 100 else 3]):
            inspect = rng.random() < 0.2
            one = Folder(ctx.dir, dict(files, **extra), rng.choice(CONFIGS[:3]) if t == 0 else cfg_of(k))
            threads = [None, 1, 2, 3, 8, 16, 5, 1][t % 8]
            slow = 0.4 if t == 2 and n > 50 else 0.0
            missing = len([a for a in args if a.startswith("missing")])
            selected = [] if args == ["missing"] else names
            r, rec = one.run(len(recs), selected, args, fix, inspect, missing, faults=broken, threads=threads, slow=slow)
            recs.append(rec)
            src.append(dict(files=len(files), args=args[:8], fix=fix, inspect=inspect, threads=threads, slow=slow, tree={n: str(x[:80]) for n, x in list(files.items())[:6]}, broken=len(broken)))
            if t > 0 and selected and not missing and not inspect:
                found = sorted([[os.path.relpath(os.path.join(one.work, e["path"]), one.work), len(e["errors"]), sorted(json.dumps(x) for x in e["results"])] for e in r.of("reported")])
                runs.append(dict(rc=rec["rc"], summary=rec["summary"], findings=vlib.bmp(json.dumps(found)), after=sorted([f["path"], f["after"]] for f in rec["files"])))
            one.remove()
        if len(runs) > 1:
            groups.append(dict(id=len(groups), runs=runs))
            gsrc.append(dict(files=len(files), fix=fix, runs=len(runs)))
    vlib.log("%d runs" % len(recs))
    app_judge(ctx, "P12", recs, src)
    j = vlib.judge("Schedules", ctx.dir, groups)
    ctx.count(j)
    for r in j.rejected:
        ctx.violation(r["why"], **gsrc[r["id"]])
    ctx.extra["groups_of_schedules"] = len(groups)


def cfg_of(k):
    return CONFIGS[k % len(CONFIGS)]


def endless(rng):
    n = rng.randrange(12, 16)
    return "{{ " + " === (".join("a" * (n + 1)) + ")" * n + " }}"


def p10(ctx):
    vlib.build_cli()
    from checks_parser import model_check
    model_check(ctx, "AppMC", "AppMC.cfg")
    if THOROUGH:
        model_check(ctx, "AppMC", "AppMCDeep.cfg", timeout=1500)
    rng = random.Random(vlib.SEED + 10)
    setuid = app.may_setuid()
    if not setuid:
        ctx.notes.append("no other user could be taken on: files without permissions were not tried")
    recs, src, kinds = [], [], {}
    for k in range(110 * (8 if THOROUGH else 1)):
        files = some_tree(rng, rng.randrange(1, 12))
        faults, opts, fix = {}, {}, rng.random() < 0.8
        what = ["none", "bytes", "endless", "size", "permissions", "folder", "mixed"][k % 7]
        some = lambda: rng.sample(sorted(files), rng.randrange(1, max(2, len(files) // 2)))
        kinds[what] = kinds.get(what, 0) + 1
        if what in ("bytes", "mixed"):
            for n in some():
                files[n] = rng.choice([b"\xff{{ a && b }}", b"{{ a && b }}\xc3", b"\xfe\xff\x00a", b"<p>\xe4</p>{{ a && b }}", b"{{ a && b }}" * 50 + b"\x80"])
                faults[n] = "unreadable"
        if what in ("endless", "mixed") and fix:
            for n in some():
                if n not in faults:
                    files[n] = endless(rng)
                    faults[n] = "endless"
        if what == "size":
            fix = True
            opts["fsize"] = rng.choice([1500, 2000, 2048, 3000, 4096])
            for n in some():
                # shorter, longer or as long as the limit, growing and shrinking
                size = max(1, opts["fsize"] + rng.choice([-900, -300, -40, -1, 0, 1, 40, 700, 3000]))
                line = rng.choice(["{{ a && b }}\n", "{{ a||b }}\n", "{% block a %}x{% endblock %}\n", "{{ \"a\" }}\n", "   \n\n", "<a b='c'></a>\n"])
                files[n] = (line * (size // len(line) + 1))[:size] if rng.random() < 0.5 else line * (size // len(line))
                faults[n] = "unwritable"
            for n in files:
                if n not in faults:
                    files[n] = rng.choice(["{{ a && b }}", "<p></p>", "<i id='a'></i>"])
        one = Folder(ctx.dir, dict(files, **{"other.txt": "{{ a && b }}"}), cfg_of(k))
        if what == "folder":
            os.makedirs(os.path.join(one.work, "folder.html.twig", "empty.twig"))
        if what == "permissions" and setuid:
            opts["user"] = 65534
            for root, dirs, names in os.walk(one.base):
                os.chown(root, 65534, 65534)
                for n in names:
                    os.chown(os.path.join(root, n), 65534, 65534)
            for n in some():
                m = rng.choice([0o000, 0o444, 0o200])
                os.chmod(os.path.join(one.work, n), m)
                faults[n] = "unwritable" if m == 0o444 else "unreadable"
            if rng.random() < 0.3:
                os.chmod(one.work, 0o555)
        r, rec = one.run(len(recs), sorted(files), ["."], fix, faults=faults, threads=rng.choice([None, 1, 2, 8]), **opts)
        recs.append(rec)
        src.append(dict(kind=what, fix=fix, options=opts, faults=faults, tree={n: str(x[:120]) for n, x in files.items()}))
        for root, dirs, names in os.walk(one.base):
            os.chmod(root, 0o755)
        one.remove()
    vlib.log("%d runs" % len(recs))
    ctx.extra["kinds_of_faults"] = kinds
    app_judge(ctx, "P10", recs, src)


NAMES = ["a", "b", "sub", "x y", "ä", ".h", "vendor", "a.twig", "Sub"]
LEAVES = ["x.twig", "y.twig", "x.html", "y.htm", "z.ejs", "x.html.twig", "n.txt", "twig", ".x.twig", "X.TWIG", "x.twig.bak", "#c.twig", "!e.twig", "ä.twig", "[q].twig", "a b.twig", "v1.twig", "v2.html", ".twig"]


def some_pattern(rng, paths):
    """A line of an ignore file which is likely to be about one of the given paths."""
    esc = lambda n: "".join("\\" + c if c in "[]*?\\" else c for c in n)
    p = rng.choice(paths)
    n = [esc(x) for x in p]
    if n[-1][0] in "#!" and rng.random() < 0.7 and len(n) == 1:
        n[-1] = "\\" + n[-1]
    last = n[-1] if n[-1][0] not in "#!" else "\\" + n[-1]
    k = rng.randrange(19)
    t = last if k < 3 else \
        "/" + "/".join(n) if k in (3, 4) else \
        "/".join(n) if k == 5 else \
        last + "/" if k == 6 else \
        "/" + n[0] if k == 7 else \
        "*" + (p[-1][p[-1].rindex("."):] if "." in p[-1][1:] else "") if k == 8 else \
        n[0] + "/*" if k == 9 else \
        "**/" + last if k == 10 else \
        n[0] + "/**" if k == 11 else \
        n[0] + "/**/" + n[-1] if k == 12 else \
        "?" + esc(p[-1][1:]) if k == 13 else \
        rng.choice(["[a-z]", "[!a-m]", "[xyv]", "[^x]"]) + rng.choice(["*", esc(p[-1][1:])]) if k == 14 else \
        rng.choice(["*", "/*", "*/", ".*", "*.twig", "/*.twig", "**", "*/*.twig", "x*", "*.t?ig", "v[0-9].*", "**/", "/**/x.twig"]) if k == 15 else \
        rng.choice(["", "   ", "# " + last, "#" + last]) if k == 16 else \
        last + rng.choice([" ", "  ", "\t"]) if k == 17 else "*/" + n[-1]
    if rng.random() < 0.25 and t.strip() and not t.startswith(("#", "\\")):
        t = "!" + t
    return t


def some_world(rng):
    dirs = {()}
    for _ in range(rng.randrange(1, 9)):
        d = rng.choice(sorted(dirs))
        if len(d) < 4:
            dirs.add(d + (rng.choice(NAMES),))
    files = set()
    for _ in range(rng.randrange(3, 22)):
        f = rng.choice(sorted(dirs)) + (rng.choice(LEAVES),)
        if f not in dirs:
            files.add(f)
    return sorted(dirs), sorted(files)


def in_world(rng, k):
    """One run: a world with ignore files, the working directory and the arguments."""
    dirs, files = some_world(rng)
    gits = [d for d in dirs if rng.random() < (0.5 if d == () else 0.08)] if k % 3 else []
    ignores = []
    cwd = () if rng.random() < 0.6 else rng.choice(dirs)
    inside = lambda d: [x[len(d):] for x in files + dirs if len(x) > len(d) and x[:len(d)] == d] or [("x.twig",)]
    for kind, share in (("custom", 0.35), ("git", 0.25), ("ignore", 0.1), ("exclude", 0.5)):
        for d in dirs:
            if rng.random() < share * (1.5 if d in ((), cwd) else 0.6) and (kind != "exclude" or d in gits):
                ignores.append(dict(dir=d, kind=kind, lines=[some_pattern(rng, inside(d)) for _ in range(rng.randrange(1, 5))], end=rng.choice(["\n", "\n", "\r\n"])))
    args = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4])):
        args.append(rng.choice([(), cwd, rng.choice(dirs), rng.choice(dirs), rng.choice(files)]))
    missing = rng.choice([0, 0, 0, 0, 1, 2])
    return dirs, files, gits, ignores, cwd, args, missing


def spelled(rng, root, cwd, a):
    """An argument for the path a, seen from cwd."""
    full = os.path.join(root, *a)
    k = rng.randrange(5)
    if k == 0:
        return full
    rel = os.path.relpath(full, os.path.join(root, *cwd))
    if k == 1 and not rel.startswith("."):
        return "./" + rel
    if k == 2 and os.path.isdir(full):
        return rel + "/"
    return rel if not rel.startswith("-") else "./" + rel


def p13(ctx):
    vlib.build_cli()
    from checks_parser import model_check
    model_check(ctx, "SelectMC", "SelectMC.cfg")
    model_check(ctx, "SelectMC", "SelectMCWide.cfg")
    if THOROUGH:
        model_check(ctx, "SelectMC", "SelectMCWider.cfg", timeout=1500)
        model_check(ctx, "SelectMC", "SelectMCDeep.cfg", timeout=1500)
    rng = random.Random(vlib.SEED + 13)
    jobs = [in_world(rng, k) for k in range(700 * (10 if THOROUGH else 1))]
    # one pattern at a time in one rich world
    rich_dirs = [(), ("a",), ("a", "b"), ("sub",), ("sub", "a"), (".h",), ("x y",)]
    rich = [d + (f,) for d in rich_dirs for f in LEAVES[:9]] + [("a", f) for f in LEAVES[9:]]
    for k in range(250 * (4 if THOROUGH else 1)):
        jobs.append((rich_dirs, rich, [()] if k % 2 else [], [dict(dir=rng.choice([(), (), ("a",)]), kind=["custom", "git"][k % 2], lines=[some_pattern(rng, rich)], end="\n")],
                     rng.choice([(), (), ("a",), ("sub",)]), [rng.choice([(), (), ("a",), ("sub",)])], 0))
    # several directories with the same names inside, and ignore files above them
    for k in range(60 * (4 if THOROUGH else 1)):
        tops = rng.sample(["a", "b", "sub", "x y"], rng.choice([2, 2, 3]))
        dirs = [()] + [(t,) for t in tops] + [(t, "d") for t in tops]
        files = [(t, "d", "f%d.twig" % i) for t in tops for i in range(rng.choice([1, 20, 150]))] + [(t, "x.twig") for t in tops]
        t = rng.choice(tops)
        lines = [rng.choice(["/%s/d", "%s/d/", "/%s/x.twig", "%s/*", "%s/**/f1*.twig", "/%s/d/f?.twig"]) % t for t in rng.sample(tops, 1) * rng.choice([1, 2])]
        jobs.append((dirs, files, [()] if k % 2 else [], [dict(dir=(), kind=["ignore", "git", "custom", "exclude"][k // 2 % 4] if k % 2 else ["ignore", "custom"][k // 2 % 2], lines=lines, end="\n")],
                     rng.choice([(), (), (t,)]), [(t,) for t in tops] + rng.choice([[], [()], [(t, "d")]]), 0))
    seeds = [rng.randrange(10 ** 9) for _ in jobs]
    os.makedirs(os.path.join(ctx.dir, "worlds"))

    def one(k):
        rng = random.Random(seeds[k])
        dirs, files, gits, ignores, cwd, args, missing = jobs[k]
        base = os.path.join(ctx.dir, "worlds", str(k))
        root = os.path.join(base, "w")
        for d in dirs:
            os.makedirs(os.path.join(root, *d), exist_ok=True)
        fix = rng.random() < 0.3
        for f in files:
            with open(os.path.join(root, *f), "w") as h:
                h.write("{{ a && b }}\n" if fix else "<p></p>\n")
        for g in gits:
            os.makedirs(os.path.join(root, *g, ".git", "info"), exist_ok=True)
            with open(os.path.join(root, *g, ".git", "HEAD"), "w") as h:
                h.write("ref: refs/heads/main\n")
        for i in ignores:
            n = dict(custom=".ludtwig-ignore", git=".gitignore", ignore=".ignore", exclude=".git/info/exclude")[i["kind"]]
            with open(os.path.join(root, *i["dir"], n), "w", newline="") as h:
                h.write(i["end"].join(i["lines"] + [""]))
        with open(os.path.join(base, "conf.toml"), "w") as h:
            h.write(app.toml({}))
        line = [spelled(rng, root, cwd, a) for a in args] + ["no-such-%d.twig" % i for i in range(missing)]
        rng.shuffle(line)

        def content():
            res = {}
            for at, ds, ns in os.walk(root):
                for n in ns:
                    with open(os.path.join(at, n), "rb") as h:
                        res[tuple(os.path.relpath(os.path.join(at, n), root).split("/"))] = h.read()
            return res
        before = content()
        work = os.path.join(root, *cwd)
        r = app.program((["--fix"] if fix else []) + ["-c", os.path.join(base, "conf.toml")] + line, work, threads=rng.choice([None, 1, 4]),
                        env=dict(VERIF_LUDTWIG_TRACE=os.path.join(base, "trace"), HOME=base, XDG_CONFIG_HOME=base))
        after = content()
        got = [tuple(os.path.relpath(os.path.realpath(os.path.join(work, e["path"])), root).split("/")) for e in r.of("file")]
        end = r.of("finished")
        # patterns of git are about bytes
        raw = lambda x: x.encode("utf-8").decode("latin-1") if isinstance(x, str) else [raw(y) for y in x] if isinstance(x, (list, tuple)) else {a: raw(b) for a, b in x.items()} if isinstance(x, dict) else x
        rec = dict(id=k, st="ok" if r.rc in (0, 1) and end else "crash", files=files, ignores=[dict(dir=i["dir"], kind=i["kind"], lines=i["lines"]) for i in ignores], gits=gits,
                   cwd=cwd, args=args, missing=missing, walkErrors=end[0]["counts"][1] if end else 0, got=got, fixable=files if fix else [],
                   changed=sorted(n for n in set(before) | set(after) if before.get(n) != after.get(n)))
        src = dict(arguments=line, cwd="/".join(cwd), files=["/".join(f) for f in files], git=["/".join(g) for g in gits],
                   ignore_files=[dict(i, dir="/".join(i["dir"])) for i in ignores], fix=fix, scanned=sorted("/".join(g) for g in got))
        shutil.rmtree(base)
        return raw(rec), src
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(jobs))))
    recs, src = [x[0] for x in res], [x[1] for x in res]
    vlib.log("%d runs" % len(recs))
    j = vlib.judge("SelectTrace", ctx.dir, recs, chunk=3000)
    ctx.count(j)
    for r in sorted(j.rejected, key=lambda r: len(str(src[r["id"]]))):
        ctx.violation(r["why"], **src[r["id"]])
    ctx.extra.update(runs=len(recs), files=sum(len(r["files"]) for r in recs), scanned=sum(len(r["got"]) for r in recs), ignore_files=sum(len(r["ignores"]) for r in recs))
    for i in range(0, len(recs), max(1, len(recs) // 4)):
        ctx.sample(src[i])


OPTIONS = ["version", "general.active-rules", "format.line-ending", "format.indentation-mode", "format.indentation-count", "format.indent-children-of-blocks",
           "format.linebreaks-around-blocks", "format.twig-quotation", "format.html-quotation", "twig.valid-filters", "twig.valid-tests", "twig.valid-functions"]
TRACED = dict(zip(OPTIONS, ["version", "activeRules", "lineEnding", "indentationMode", "indentationCount", "indentChildrenOfBlocks", "linebreaksAroundBlocks",
                            "twigQuotation", "htmlQuotation", "validFilters", "validTests", "validFunctions"]))
TOLD = dict(lineEnding={"\n": "unix_LF", "\r\n": "windows_CRLF"}, indentationMode={" ": "space", "\t": "tab"}, twigQuotation={"'": "single", '"': "double"}, htmlQuotation={"'": "single", '"': "double"})


def typed(x):
    """A value as a record for spec/Config."""
    t = "list" if isinstance(x, list) else "boolean" if isinstance(x, bool) else "integer" if isinstance(x, int) else "float" if isinstance(x, float) else "string"
    v = "" if t == "list" else {True: "true", False: "false"}[x] if t == "boolean" else str(x)
    return dict(t=t, v=vlib.bmp(v), items=[typed(y) for y in x] if t == "list" else [], inRange=t == "integer" and 0 <= x <= 255)


def layer(l):
    return [dict(option=o, value=typed(x)) for o, x in l.items()]


def some_value(rng, o, wrong):
    if o == "version":
        return rng.choice([1, True, 1.5, ["0.1.0"]]) if wrong else rng.choice(["0.1.0", "0.13.0", "x", "next version"])
    if o == "general.active-rules":
        l = rng.sample(app.RULES, rng.randrange(0, 5))
        return rng.choice([l + ["no-such-rule"], l + [3], "indentation", True, ["Indentation"] + l]) if wrong else l
    if o.startswith("twig."):
        l = rng.sample(["a", "b_c", "same as", "Trans", "true", "ä", "x-y", "12", "d.e", "false positive", 'q"t'], rng.randrange(0, 5))
        return rng.choice([l + [1], l + [[]], "a", 7, False, [True] + l]) if wrong else l
    if o == "format.indentation-count":
        return rng.choice([256, -1, 1000, "4", True, [4], 2.5]) if wrong else rng.choice([0, 1, 2, 3, 4, 8, 255])
    if o in ("format.indent-children-of-blocks", "format.linebreaks-around-blocks"):
        return rng.choice(["yes", 1, 0, [True], "true"]) if wrong else rng.random() < 0.5
    words = {"format.line-ending": ["unix_LF", "windows_CRLF"], "format.indentation-mode": ["space", "tab"]}.get(o, ["single", "double"])
    return rng.choice([words[0].upper(), words[1].title(), "", "other", 1, True, words]) if wrong else rng.choice(words)


def toml_value(x):
    return "[" + ", ".join(toml_value(y) for y in x) + "]" if isinstance(x, list) else json.dumps(x, ensure_ascii=False)


def toml_file(rng, values):
    """A configuration file with these values, written in one of several ways."""
    way, top, sections = rng.randrange(3), [], {}
    eq = rng.choice([" = ", " = ", "=", "  =\t"])
    for o in rng.sample(sorted(values), len(values)):
        if "." in o and way != 1:
            sections.setdefault(o.split(".")[0], []).append("%s%s%s" % (o.split(".")[1], eq, toml_value(values[o])))
        else:
            top.append("%s%s%s" % (o, eq, toml_value(values[o])))
    if way == 2:
        top += ["%s = { %s }" % (n, ", ".join(l)) for n, l in sections.items()]
        sections = {}
    if rng.random() < 0.3:
        top.insert(0, rng.choice(["# version", "unknown-value = 1", "other = [1, 2]"]))
    lines = top + ["\n".join(["[%s]" % n] + rng.sample(l + ["# comment", "not-known = true"], len(l) + 2)) for n, l in sections.items()]
    return "\n".join(lines) + rng.choice(["", "\n"])


def env_value(rng, x, inside=False):
    if isinstance(x, list):
        return "[" + rng.choice([",", ", "]).join(env_value(rng, y, True) for y in x) + "]"
    if isinstance(x, str):
        if re.fullmatch(r"[A-Za-z][A-Za-z_-]*( [a-z]+)*|\d+\.\d+\.\d+", x) and not x.startswith(("true", "false")) and rng.random() < 0.6:
            return x
        return json.dumps(x, ensure_ascii=False)
    return {True: "true", False: "false"}[x] if isinstance(x, bool) else str(x)


BROKEN = ["[format", "format = ", "version = \"a\nversion = 'b'", "[general]\nactive-rules = [", "= 1", "[format]\nindentation-count = 1\nindentation-count = 2", b"version = '\xff'", b"\xff\xfe", "format = 3", "twig = [1]", "general = 'x'"]


def p14(ctx):
    import tomllib
    vlib.build_cli()
    from checks_parser import model_check
    model_check(ctx, "ConfigMC", "ConfigMC.cfg")
    rng = random.Random(vlib.SEED + 14)
    os.makedirs(os.path.join(ctx.dir, "configs"))
    base = os.path.join(ctx.dir, "configs", "default")
    os.makedirs(base)
    app.program(["-C", "-c", "d.toml"], base)
    with open(os.path.join(base, "d.toml"), "rb") as f:
        d = tomllib.load(f)
    default = {o: d[o] if "." not in o else d[o.split(".")[0]][o.split(".")[1]] for o in OPTIONS}
    told = lambda o, x: TOLD.get(TRACED[o], {}).get(x, x) if isinstance(x, str) else x
    jobs = []
    # every value in every combination of the sources, valid and not
    for o in OPTIONS:
        for f in (None, False, True):
            for e in (None, False, True):
                for _ in range(3 if THOROUGH else 2):
                    jobs.append(dict(file=None if f is None else {o: some_value(rng, o, f)}, env={} if e is None else {o: some_value(rng, o, e)}))
    # many values at once
    for k in range(500 * (8 if THOROUGH else 1)):
        wrong = rng.choice([0, 0, 0.1])
        some = lambda: {o: some_value(rng, o, rng.random() < wrong) for o in rng.sample(OPTIONS, rng.randrange(0, 13))}
        jobs.append(dict(file=some() if rng.random() < 0.8 else None, env=some() if rng.random() < 0.7 else {}))
    for b in BROKEN + ["directory"]:
        for e in range(2):
            # the environment may well replace a broken section
            jobs.append(dict(file={}, broken=b, env={o: some_value(rng, o, False) for o in rng.sample(OPTIONS, 4 * e) if not (isinstance(b, str) and b.startswith(o.split(".")[0] + " ="))}))
    creates = [dict(kind="create", there=t, way=w) for t in (None, "", "x = 1", "version = \"0.1.0\"", "directory", "no folder") for w in range(6)] * (3 if THOROUGH else 1)
    for k, j in enumerate(jobs + creates):
        j.update(id=k, seed=rng.randrange(10 ** 9))

    def place(rng, base):
        """The folder the program runs in, the arguments and the configuration file they name."""
        work = os.path.join(base, *rng.choice([["w"], ["w", "sub"], ["w", "a", "b"]]))
        os.makedirs(os.path.join(work, "conf"))
        rel = rng.choice([None, None, "ludtwig-config.toml", "./other.toml", "conf/x.toml", "../up.toml", "conf/../y", "abs"])
        named = os.path.join(work, "ludtwig-config.toml") if rel is None else os.path.join(base, "abs.toml") if rel == "abs" else os.path.join(work, rel)
        args = [] if rel is None else [rng.choice(["-c", "--config-path"]), named if rel == "abs" else rel]
        return work, args, os.path.normpath(named)

    def decoys(rng, base, work, named):
        """Configuration files in other places, which don't count."""
        for at in [base, os.path.dirname(work), work]:
            for n in ("ludtwig-config.toml", os.path.basename(named), "conf/x.toml"):
                p = os.path.join(at, n)
                if os.path.normpath(p) != named and os.path.isdir(os.path.dirname(p)) and rng.random() < 0.4:
                    with open(p, "w") as f:
                        f.write(rng.choice(["[format]\nindentation-count = 77\n", "broken = [", "[twig]\nvalid-filters = ['decoy']\n"]))

    def content(base):
        res = {}
        for at, ds, ns in os.walk(base):
            for n in ns:
                with open(os.path.join(at, n), "rb") as h:
                    res[os.path.normpath(os.path.join(at, n))] = h.read()
        return res

    def effective(r):
        run = r.of("run")
        return {o: told(o, run[0]["config"][TRACED[o]]) for o in OPTIONS} if run else {}

    def one(j):
        rng = random.Random(j["seed"])
        base = os.path.join(ctx.dir, "configs", str(j["id"]))
        work, args, named = place(rng, base)
        env = dict(VERIF_LUDTWIG_TRACE=os.path.join(base, "trace"))
        if rng.random() < 0.2:
            env[rng.choice(["SOME_VALUE", "LUDTWIGX", "ALUDTWIG_FORMAT__INDENTATION_COUNT"])] = rng.choice(["1", os.fsdecode(b"\xff")])
        if rng.random() < 0.2:
            env[rng.choice(["LUDTWIG_UNKNOWN", "LUDTWIG_FORMAT__UNKNOWN", "LUDTWIG_OTHER__A__B"])] = "1"
        if j.get("kind") == "create":
            if j["there"] == "directory":
                os.makedirs(named, exist_ok=True)
            elif j["there"] == "no folder":
                args, named = ["-c", "none/x.toml"], os.path.join(work, "none", "x.toml")
            elif j["there"] is not None:
                with open(named, "w") as f:
                    f.write(j["there"])
            decoys(rng, base, work, named)
            if rng.random() < 0.5:
                env["LUDTWIG_FORMAT__INDENTATION_COUNT"] = rng.choice(["7", "wrong"])
            before = content(base)
            r = app.program(args + [rng.choice(["-C", "--create-config"])], work, env=env)
            after = content(base)
            b, a = before.pop(named, None), after.pop(named, None)
            loads = False
            if a is not None:
                with open(os.path.join(work, "x.twig"), "w") as f:
                    f.write("<p></p>")
                got = effective(app.program(args + ["x.twig"], work, env=dict(VERIF_LUDTWIG_TRACE=os.path.join(base, "trace"))))
                loads = got == default
            rec = dict(id=j["id"], kind="create", exists=j["there"] not in (None, "no folder"), possible=j["there"] != "no folder", before=str(b), after=str(a), touched=before != after,
                       rc=-1 if r.rc is None else r.rc, loads=loads)
            src = dict(create=args, there=j["there"])
        else:
            with open(os.path.join(work, "x.twig"), "w") as f:
                f.write("<p></p>")
            if j.get("broken") == "directory":
                os.makedirs(named)
            elif j["file"] is not None:
                text = j.get("broken") or toml_file(rng, j["file"])
                with open(named, "wb") as f:
                    f.write(text if isinstance(text, bytes) else text.encode("utf-8"))
            decoys(rng, base, work, named)
            shown = {"LUDTWIG_" + o.replace(".", "__").replace("-", "_").upper(): env_value(rng, x) for o, x in j["env"].items()}
            env.update(shown)
            before = content(base)
            r = app.program(args + (["--fix"] if rng.random() < 0.3 else []) + ["x.twig"], work, env=env)
            after = content(base)
            rec = dict(id=j["id"], kind="layers", default=layer(default), file=layer(j["file"] or {}), env=layer(j["env"]), got=layer(effective(r)), unreadable="broken" in j,
                       rc=-1 if r.rc is None else r.rc, processed=len(r.of("file")), changed=before != after)
            src = dict(arguments=args, cwd=os.path.relpath(work, base), file=toml_file(rng, j["file"]) if j["file"] and "broken" not in j else str(j.get("broken")), environment=shown)
        shutil.rmtree(base)
        return rec, src
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs + creates))
    recs, src = [x[0] for x in res], [x[1] for x in res]
    vlib.log("%d runs" % len(recs))
    path = os.path.join(ctx.dir, "rules.json")
    with open(path, "w") as f:
        json.dump(app.RULES, f)
    j = vlib.judge("ConfigTrace", ctx.dir, recs, env={"CONFIG_RULES": path}, chunk=2000)
    ctx.count(j)
    for r in sorted(j.rejected, key=lambda r: len(str(src[r["id"]]))):
        ctx.violation(r["why"], **src[r["id"]])
    ctx.extra.update(runs=len(recs), refused=sum(r["rc"] == 1 for r in recs))
    for i in range(0, len(recs), max(1, len(recs) // 4)):
        ctx.sample(src[i])


def p25(ctx):
    """What the program tells about the configuration it uses."""
    import tomllib
    vlib.build_cli()
    rng = random.Random(vlib.SEED + 25)
    top = os.path.join(ctx.dir, "told")
    os.makedirs(top)

    def run(base, args, env):
        r = app.program(args + ["x.twig"], base, env=dict(env, VERIF_LUDTWIG_TRACE=os.path.join(base, "..", os.path.basename(base) + ".trace")))
        return r

    def about(r, path):
        """The lines that name the configuration file, without its name."""
        return [l.replace("./" + path, path).replace(path, "\0") for l in r.out.split("\n") if path in l and "LUDTWIG_" not in l]
    # the words used where a file is read, or not, are not judged
    ref = os.path.join(top, "ref")
    os.makedirs(ref)
    with open(os.path.join(ref, "x.twig"), "w") as f:
        f.write("<p></p>\n")
    app.program(["-C", "-c", "d.toml"], ref)
    with open(os.path.join(ref, "d.toml"), "rb") as f:
        d = tomllib.load(f)
    default = {o: d[o] if "." not in o else d[o.split(".")[0]][o.split(".")[1]] for o in OPTIONS}
    own = default["version"]
    words = {"file": about(run(ref, ["-c", "d.toml"], {}), "d.toml"), "none": about(run(ref, ["-c", "e.toml"], {}), "e.toml")}

    def strings(lines):
        return [json.loads('"%s"' % x) for l in lines for x in re.findall(r'"((?:[^"\\]|\\.)*)"', l)]
    jobs = []
    for k in range(250 * (8 if THOROUGH else 1)):
        wrong = rng.choice([0, 0, 0, 0, 0.1])
        some = lambda: {o: some_value(rng, o, rng.random() < wrong) for o in rng.sample(OPTIONS, rng.randrange(0, 13))}
        jobs.append(dict(id=k, file=rng.choice([None, {}, some(), some(), some(), some()]), env=some() if rng.random() < 0.6 else {}, broken=rng.choice(BROKEN) if rng.random() < 0.05 else None, seed=rng.randrange(10 ** 9)))
        for l in (jobs[-1]["file"], jobs[-1]["env"]):
            if l and "version" in l and rng.random() < 0.5 and isinstance(l["version"], str):
                l["version"] = own

    def one(j):
        rng = random.Random(j["seed"])
        base = os.path.join(top, "c%d" % j["id"])
        os.makedirs(base)
        with open(os.path.join(base, "x.twig"), "w") as f:
            f.write("<p></p>\n")
        name = rng.choice([None, "conf.toml", "./a.toml", "../up%d.toml" % j["id"], os.path.join(base, "abs.toml")])
        args = [] if name is None else [rng.choice(["-c", "--config-path"]), name]
        name = name or "ludtwig-config.toml"
        at = os.path.join(base, name)
        text = None
        if j["file"] is not None:
            text = j["broken"] or (toml_file(rng, j["file"]) if j["file"] else rng.choice(["", "", "# nothing\n", "\n"]))
            text = text if isinstance(text, bytes) else text.encode("utf-8")
            with open(at, "wb") as f:
                f.write(text)
        shown = {"LUDTWIG_" + o.replace(".", "__").replace("-", "_").upper(): env_value(rng, x) for o, x in j["env"].items()}
        if rng.random() < 0.3:
            shown[rng.choice(["LUDTWIG_UNKNOWN", "LUDTWIG_FORMAT__UNKNOWN", "LUDTWIG_OTHER__A__B"])] = "1"
        env = dict(shown)
        if rng.random() < 0.3:
            env[rng.choice(["SOME_VALUE", "LUDTWIGX", "ALUDTWIG_FORMAT__INDENTATION_COUNT"])] = "1"
        verbose = rng.random() < 0.6
        r = run(base, args + ([rng.choice(["-v", "--verbose"])] if verbose else []), env)
        plain = run(base, args, env) if verbose else r
        lines = r.out.split("\n")
        if verbose:
            for l in plain.out.split("\n"):
                if l in lines:
                    lines.remove(l)
        else:
            lines = [l for l in lines if "LUDTWIG_" not in l and name not in l]
        got = about(r, name)
        read = "" if not got else "other" if words["file"] == words["none"] or got not in words.values() else "file" if got == words["file"] else "none"
        said = [m.group(1) for l in r.out.split("\n") for m in [re.search(r"(?<![A-Z_])(LUDTWIG_[A-Z_]+=.*)$", l)] if m]
        outside = re.sub(r'"(?:[^"\\]|\\.)*"', "", "\n".join(lines))
        version = j["env"].get("version", (j["file"] or {}).get("version", own))
        rec = dict(id=j["id"], default=layer(default), file=layer(j["file"] or {}), env=layer(j["env"]), unreadable=bool(j["broken"]) and j["file"] is not None,
                   there=text is not None, empty=not text, mentions=b"version" in (text or b""), own=own, verbose=verbose,
                   read=read, variables=sorted(vlib.bmp(x) for x in said), set=sorted(vlib.bmp("%s=%s" % x) for x in shown.items()),
                   warned=own in r.err, named=str(version) in r.err, texts=[vlib.bmp(x) for x in strings(lines)],
                   numbers=re.findall(r"(?<![\w\"])\d+(?![\w\"])", outside) if verbose else [],
                   trues=len(re.findall(r"\btrue\b", outside)) if verbose else 0,
                   falses=len(re.findall(r"\bfalse\b", outside)) if verbose else 0)
        src = dict(arguments=args, verbose=verbose, file=None if text is None else text.decode("utf-8", "replace"), environment=shown, out=r.out[:600], err=r.err[:300])
        shutil.rmtree(base)
        return rec, src
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    recs, src = [x[0] for x in res], [x[1] for x in res]
    path = os.path.join(ctx.dir, "rules.json")
    with open(path, "w") as f:
        json.dump(app.RULES, f)
    j = vlib.judge("ToldTrace", ctx.dir, recs, env={"CONFIG_RULES": path}, chunk=2000)
    ctx.count(j)
    for r in sorted(j.rejected, key=lambda r: len(str(src[r["id"]]))):
        ctx.violation(r["why"], **src[r["id"]])
    ctx.extra.update(runs=len(recs), verbose=sum(r["verbose"] for r in recs), warned=sum(r["warned"] for r in recs), refused=sum(r["read"] == "" for r in recs))
    for i in range(0, len(recs), max(1, len(recs) // 4)):
        ctx.sample(src[i])


def p24(ctx):
    """What is printed about every finding."""
    vlib.build_cli()
    rng = random.Random(vlib.SEED + 240)
    n = 10 if THOROUGH else 1
    docs = lint_docs(ctx, vlib.SEED * 1000 + 24, n)
    docs = [faulty(rng) for _ in range(300 * n)] + rng.sample(docs, min(len(docs), 900 * n)) + [faulty(rng).replace("a", "\u00fc").replace("x", "\U0001F600") for _ in range(60 * n)]
    rng.shuffle(docs)
    recs, src, k = [], [], 0
    while docs:
        some, docs = docs[:30], docs[30:]
        names = ["%s%02d.twig" % (rng.choice(["", "sub/", "a b/\u00e4/"]), i) for i in range(len(some))]
        fix, inspect = k % 4 == 3, k % 3 == 1
        # files that can't be read stand between them
        bad = {"bad%d.twig" % i: b"{{ a \xff" for i in range(k % 3)}
        names += sorted(bad)
        one = Folder(ctx.dir, dict(zip(names, some), **bad), cfg_of(k))
        flags = (["--fix"] if fix else []) + (["--inspect"] if inspect else [])
        args = [["."], names, [one.work]][k % 3]
        r = app.program(flags + ["-c", os.path.join(one.base, "conf.toml")] + args, one.work, threads=[None, 8, 1, 16][k % 4])
        new, where = app.report_records(len(recs), r)
        for rec, p in zip(new, where):
            src.append(dict(args=flags, files=len(some)) if p is None else dict(args=flags, path=p, source=rec["source"]))
        recs += new
        one.remove()
        k += 1
    j = vlib.judge("ReportTrace", ctx.dir, recs, chunk=600)
    ctx.count(j)
    for r in sorted(j.rejected, key=lambda r: len(src[r["id"]].get("source", ""))):
        ctx.violation(r["why"], finding=r["key"], **src[r["id"]])
    ctx.extra.update(runs=k, files=len(recs) - k, findings=sum(len(r.get("findings", [])) for r in recs), blocks=sum(len(r.get("blocks", [])) for r in recs),
                     trees=sum(len(r.get("trees", [])) for r in recs), marked=sum(len(b["marks"]) for r in recs for b in r.get("blocks", [])))
    for r in [r for r in recs if r["mode"] == "file" and r["blocks"]][:3]:
        ctx.sample(dict(source=r["source"][:300], printed=r["blocks"][0]))


CHECKS.update(P06=p06, P07=p07, P08=p08, P09=p09, P10=p10, P11=p11, P12=p12, P13=p13, P14=p14, P15=p15, P16=p16, P17=p17, P18=p18, P19=p19, P20=p20, P21=p21, P22=p22, P24=p24, P25=p25)
