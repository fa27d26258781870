"""Inputs: templates derived by the specification, the repository's snippets, and seeded damage to both."""
import json, os, random, re
import vlib

def gen_docs(d, n, seed=None, start="Doc", depth=5, fuel=60, style=0, drops=0, first=1, marks=0, timeout=900, broken=None):
    """Templates derived by spec/Gen.tla."""
    env = {"GEN_SEED": str(vlib.SEED if seed is None else seed), "GEN_FIRST": str(first), "GEN_LAST": str(first + n - 1),
           "GEN_START": start, "GEN_DEPTH": str(depth), "GEN_FUEL": str(fuel), "GEN_STYLE": str(style),
           "GEN_DROPS": str(drops), "GEN_MARKS": str(marks)}
    if broken:
        env["GEN_BROKEN"] = os.path.join(d, "broken.json")
        with open(env["GEN_BROKEN"], "w") as f:
            json.dump(broken, f)
    docs = vlib.tlc_lines("Gen", d, env, "GEN", timeout=timeout)
    if len(docs) != n and start != "Forms":
        raise vlib.ToolError("the generator printed %d of %d templates" % (len(docs), n))
    docs.sort(key=lambda x: x["id"])
    return docs

def form_docs(d, seed=None, combinations=45, drops=0):
    """Every construct with the combinations of its optional parts, and each without each of its required tokens."""
    return gen_docs(d, 95 * combinations, seed=seed, start="Forms", fuel=1, drops=drops)

def snippets():
    with open(os.path.join(vlib.VERIF, "corpus", "snippets.json")) as f:
        return json.load(f)

ALPHABET = list("abzXY019_-@#$ \t\n\r.,:;!?%~|&/\\(){}[]<>=+*\"'`") + ["\u00fc", "\u20ac", "\U0001F600", "\u00a0", "\u0000", "\u2028", "\r\n"]
PIECES = ["{{", "}}", "{%", "%}", "{#", "#}", "<!--", "-->", "<div", "</div>", "/>", ">", "<", "{% block a %}", "{% endblock %}", "{% if a %}",
          "{% endif %}", "{% else %}", "{% for a in b %}", "{% endfor %}", "{% set x %}", "{% endset %}", "'", "\"", "#{", "(", ")", "[", "]", "{", "}", "|", ".",
          "not in", "is not", "same as", "divisible by", "ignore missing", "starts with", "ends with", "not", "is", "in", "and", "or", "b-or", "?", ":", "??", "=>",
          "=", "==", "===", "..", "...", "twig:Foo", "<twig:Foo:bar", "&amp;", "&#12;", "&#x1f;", "1.5E+3", "1.", "ludtwig-ignore", "ludtwig-ignore-file",
          "<script>", "</script>", "<textarea>", "</textarea>", "{% trans %}", "{% endtrans %}", "{% verbatim %}", "{% endverbatim %}", "DOCTYPE", "<!DOCTYPE html>",
          "(a, b)", "(a, b) => a", "{a}", "{a: 1}", "[1, 2]", "a ? b : c", "a ?: b", "{%-", "-%}", "{{~", "~}}", "\r\n", "\n\n", "\t", "only", "with", "as", "import", "null", "True"]

def mutate(rng, s, other):
    """One to three small damages."""
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(9)
        a = rng.randrange(len(s) + 1); b = min(len(s), a + rng.choice([1, 1, 2, 3, 5, 12]))
        if k == 0: s = s[:a] + s[b:]
        elif k == 1: s = s[:a] + rng.choice(PIECES) + s[a:]
        elif k == 2: s = s[:a] + rng.choice(ALPHABET) + s[a:]
        elif k == 3: s = s[:a] + rng.choice(ALPHABET) + s[b:]
        elif k == 4: s = s[:a] + s[a:b] + s[a:]
        elif k == 5: s = s[:a]
        elif k == 6: s = s[a:]
        elif k == 7: s = s[:a] + " " + rng.choice(PIECES) + " " + s[b:]
        else:
            c = rng.randrange(len(other) + 1); e = min(len(other), c + rng.choice([4, 10, 30]))
            s = s[:a] + other[c:e] + s[a:]
    return s

def mutations(base, n, seed=None, limit=4000):
    rng = random.Random(vlib.SEED * 7919 + 13 if seed is None else seed)
    out = []
    base = [b for b in base if len(b) <= limit]
    for _ in range(n):
        out.append(mutate(rng, rng.choice(base), rng.choice(base)))
    return out

def soup(n, seed=None):
    """Texts made of random pieces."""
    rng = random.Random(vlib.SEED * 104729 + 7 if seed is None else seed)
    return ["".join(rng.choice([rng.choice(PIECES), rng.choice(PIECES), rng.choice(ALPHABET), rng.choice(["a", "foo", " ", " ", "\n"])])
                    for _ in range(rng.randrange(1, 25))) for _ in range(n)]

PAIRS, NESTED_PAIRS = 864, 13824          # see PairDoc in spec/Gen.tla

def pair_docs(d, nested=0, seed=None, fuel=25, **kw):
    """Every statement in every place; nested: so many of the statements within statements (0: none)."""
    docs = gen_docs(d, PAIRS, seed=seed, start="Pairs", fuel=fuel, **kw)
    step = 1000
    for a in range(PAIRS + 1, PAIRS + 1 + min(nested, NESTED_PAIRS), step):
        n = min(step, PAIRS + 1 + min(nested, NESTED_PAIRS) - a)
        # a different part of them for every seed
        off = (vlib.SEED * 1009 + (a - PAIRS - 1)) % (NESTED_PAIRS - n + 1) if nested < NESTED_PAIRS else a - PAIRS - 1
        docs += gen_docs(d, n, seed=seed, start="Pairs", fuel=fuel, first=PAIRS + 1 + off, **kw)
    return docs

AROUND = 394          # AroundDocs in spec/Gen.tla

def around_docs(d, seed=None, marks=10, n=AROUND, broken=None):
    """Malformed elements (records' marks) in small places and within every statement."""
    return gen_docs(d, n, seed=seed, start="Around", fuel=25, marks=marks, broken=broken)

# tokens in the middle of a tag: without one of them, the tag is malformed and nothing else
INNER = {",", "with", "as", "import", "sw_import", "=", "in", ":", "include", "sw_include", "sw_use", "use", "extends", "sw_extends", "from", "sw_from",
         "sw_icon", "sw_thumbnails", "deprecated", "props", "do", "return", "flush", "doctype", "DOCTYPE", "html", "else", "elseif", "renderItem"}

def broken_forms(d, seed=None, combinations=12):
    """Constructs without one of their inner tokens."""
    out = {}
    for g in form_docs(d, seed=seed, combinations=combinations, drops=1):
        for x in g["drops"]:
            # `{% set a b %}` begins a captured text and `{% endwith %}` is left over
            if x["tok"] in INNER and not (x["tok"] == "=" and re.match(r"\{%[-~]?\s*set\s", x["text"])) and not (x["tok"] == "with" and "endwith" in x["text"]):
                out[x["text"]] = x["tok"]
    return sorted(out)

OPENERS = ["{%", "{{", "{#", "<!--", "<", "</", "<!", "{%-", "{{~", "'", "\"", "#{", "(", "[", "{", "=", "|", ".", "?", ":", ",", "=>", "<div", "<div a=\"", "{% if", "{% set a",
           "{% block", "{% for a in", "not in", "is", "is not", "same as", "ludtwig-ignore", "\\", "\u00fc", "a", "1", " ", "\n", "}}", "%}", "#}", "-->", ">", "/>", ")", "]", "}"]

def cuts(base, n, seed=None):
    """Texts that end anywhere: a beginning of a text, then perhaps one more token."""
    rng = random.Random(vlib.SEED * 31 + 3 if seed is None else seed)
    out = []
    for _ in range(n):
        s = rng.choice(base)
        s = s[:rng.randrange(len(s) + 1)]
        if rng.random() < 0.75:
            s += rng.choice(["", "", " "]) + rng.choice(OPENERS)
        out.append(s)
    return out
