"""P01..P05: the parser against spec/Lexer, Grammar, Expr, WellFormed."""
import json
import vlib, corpus
from vlib import THOROUGH


def rows_of(r):
    out, dep = [], []
    for k, p, s, t in r.get("tree", []):
        dd = dep[p - 1] + 1 if p else 0
        dep.append(dd)
        out.append([dd, k, t or ""])
    return out


def lex_records(docs, res):
    recs = []
    for i, (x, r) in enumerate(zip(docs, res)):
        m = vlib.char_map(x)
        at = lambda b: m[b] if 0 <= b < len(m) else -1
        recs.append(dict(id=i, st=r["st"], text=vlib.bmp(x),
                         leaves=[[k, at(s), vlib.bmp(t)] for k, p, s, t in r.get("tree", []) if t is not None],
                         errors=[[at(a), at(b), f] for a, b, f in r.get("errors") or []]))
    return recs


def p01(ctx):
    """Every text: the parser returns, and its tree is the text cut into longest-match tokens."""
    vlib.build_harness()
    n = 6 if THOROUGH else 1
    gen = corpus.gen_docs(ctx.dir, 400 * n)
    base = [g["text"] for g in gen] + corpus.snippets()
    base += [g["text"] for g in corpus.pair_docs(ctx.dir, seed=vlib.SEED + 9) + corpus.form_docs(ctx.dir, seed=vlib.SEED + 8)]
    docs = base + corpus.cuts(base, 2500 * n) + corpus.mutations(base, 1200 * n) + corpus.mutations(corpus.snippets(), 900 * n, seed=vlib.SEED + 5) + corpus.soup(900 * n)
    docs = list(dict.fromkeys(docs))
    vlib.log("%d texts" % len(docs))
    res = vlib.parse_docs(docs, ctx.dir)
    j = vlib.judge("LexTrace", ctx.dir, lex_records(docs, res), chunk=4000)
    ctx.count(j)
    for r in j.rejected:
        ctx.violation(r["why"], source=docs[r["id"]], at=r["at"], detail=res[r["id"]].get("msg"))
    for i in (3, len(base) + 5, len(docs) - 3):
        ctx.sample({"text": docs[i][:300], "leaves": len([1 for t in res[i].get("tree", []) if t[3] is not None]), "errors": len(res[i].get("errors") or [])})
    ctx.extra["malformed_texts"] = sum(1 for r in res if r.get("errors"))


def parse_records(items, res):
    recs = []
    for i, (it, r) in enumerate(zip(items, res)):
        rec = dict(id=i, st=r["st"], mode=it["mode"], rows=it.get("rows", []), real=rows_of(r) if it["mode"] != "damaged" else [],
                   errors=len(r.get("errors") or []), at=it.get("at", 0), place=it.get("place", ""), depth=it.get("depth", 0))
        recs.append(rec)
    return recs


def judge_items(ctx, items, chunk=3000):
    res = vlib.parse_docs([it["text"] for it in items], ctx.dir)
    j = vlib.judge("ParseTrace", ctx.dir, parse_records(items, res), chunk=chunk)
    ctx.count(j)
    for r in sorted(j.rejected, key=lambda r: len(items[r["id"]]["text"])):
        it = items[r["id"]]
        ctx.violation(r["why"], source=it["text"], dropped=it.get("tok"), element=it.get("element"),
                      expected=r["expected"], found=r["found"], panic=res[r["id"]].get("msg"))
    return res


def p03(ctx):
    vlib.build_harness()
    items = []
    plan = [(700, 5, 60), (150, 8, 250)] if not THOROUGH else [(6000, 5, 60), (1500, 8, 250), (150, 11, 900)]
    for k, (n, depth, fuel) in enumerate(plan):
        for g in corpus.gen_docs(ctx.dir, n, seed=vlib.SEED + 100 * k, depth=depth, fuel=fuel):
            items.append(dict(mode="equal", text=g["text"], rows=g["rows"]))
    for g in corpus.pair_docs(ctx.dir, nested=corpus.NESTED_PAIRS if THOROUGH else 500, seed=vlib.SEED + 30):
        items.append(dict(mode="equal", text=g["text"], rows=g["rows"]))
    for g in corpus.form_docs(ctx.dir, seed=vlib.SEED + 31, combinations=600 if THOROUGH else 95):
        items.append(dict(mode="equal", text=g["text"], rows=g["rows"]))
    judge_items(ctx, items)
    kinds = {r[1] for it in items for r in it["rows"]}
    ctx.extra["kinds_covered"] = len(kinds)
    for it in items[:3]:
        ctx.sample({"template": it["text"][:400], "rows": len(it["rows"])})


def p05(ctx):
    vlib.build_harness()
    items = []
    n = 6000 if THOROUGH else 600
    forms = corpus.broken_forms(ctx.dir, seed=vlib.SEED + 54, combinations=40 if THOROUGH else 10)
    docs = corpus.around_docs(ctx.dir, seed=vlib.SEED + 55, marks=40 if THOROUGH else 4, broken=forms)
    for g in docs + corpus.around_docs(ctx.dir, seed=vlib.SEED + 53, marks=600 if THOROUGH else 10) + corpus.gen_docs(ctx.dir, n, seed=vlib.SEED + 51, depth=5, fuel=60, marks=3) + corpus.pair_docs(ctx.dir, nested=0 if not THOROUGH else 2000, seed=vlib.SEED + 52, marks=1):
        for m in g["marks"]:
            items.append(dict(mode="local", text=m["text"], rows=g["rows"], at=m["at"], depth=m["depth"], place=m["place"], element=m["element"]))
    judge_items(ctx, items)
    ctx.extra["malformed_elements"] = len({it["element"] for it in items})
    for it in items[:3]:
        ctx.sample({"template": it["text"][:400], "malformed": it["element"]})


CHECKS = {"P01": p01, "P03": p03, "P05": p05}


def model_check(ctx, module, cfg, timeout=600):
    """Exhaustive TLC run of a model; any error is a violation of the model itself and hence of the machinery."""
    rc, out = vlib.tlc(module, cfg, ctx.dir, timeout=timeout)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        print(out[-5000:])
        raise vlib.ToolError("model %s/%s does not hold" % (module, cfg))
    g, n = vlib.state_counts(out)
    ctx.states += n
    ctx.transitions += g
    ctx.extra.setdefault("models", []).append("%s/%s: %d states" % (module, cfg, n))


def p04(ctx):
    vlib.build_harness()
    model_check(ctx, "ExprMC", "ExprMC.cfg")
    model_check(ctx, "ExprMC", "ExprMCPre.cfg")
    if THOROUGH:
        model_check(ctx, "ExprMC", "ExprMCDeep.cfg", timeout=1500)
    items = []
    full = 1 if THOROUGH else 0
    for fam, amount in ((1, 0), (2, 0), (3, full), (4, 0), (5, 0), (6, full), (7, 40000 if THOROUGH else 1500)):
        for g in vlib.tlc_lines("ExprGen", ctx.dir, {"GEN_FAMILY": str(fam), "GEN_SEED": str(vlib.SEED), "GEN_AMOUNT": str(amount)}, "GEN"):
            items.append(dict(mode="equal", text=g["text"], rows=g["rows"], family=fam))
        vlib.log("family %d: %d expressions so far" % (fam, len(items)))
    judge_items(ctx, items, chunk=20000)
    ctx.extra["expressions"] = len(items)
    for it in items[::len(items) // 4][:4]:
        ctx.sample({"expression": it["text"]})


CHECKS["P04"] = p04


def tree_nodes(r):
    nodes = [dict(k=k, t=vlib.bmp(t or ""), c=[]) for k, p, s, t in r.get("tree", [])]
    for i, (k, p, s, t) in enumerate(r.get("tree", [])):
        if p:
            nodes[p - 1]["c"].append(i + 1)
    return nodes


def delete_tokens(r, text, rng, n):
    """The text with one token of its tree left out, n times."""
    b = text.encode("utf-8")
    toks = [(s, len(t.encode("utf-8"))) for k, p, s, t in r.get("tree", []) if t is not None and k not in ("TK_WHITESPACE", "TK_LINE_BREAK")]
    out = []
    small = [(s, l) for s, l in toks if l == 1]
    for k in range(n if toks else 0):
        s, l = rng.choice(small if small and k % 2 else toks)
        out.append((b[:s] + (b" " if rng.random() < 0.5 else b"") + b[s + l:]).decode("utf-8", "replace"))
    return out


def deletions(parsed, docs):
    """For every kind of node and every token that stands between two certain neighbours in it: the shortest text with it, without that token."""
    seen, res = set(), []
    for r, text in sorted(zip(parsed, docs), key=lambda p: len(p[1])):
        b, inner = text.encode("utf-8"), {}
        for i, (k, p, s, t) in enumerate(r.get("tree", [])):
            if k not in ("TK_WHITESPACE", "TK_LINE_BREAK"):
                inner.setdefault(p, []).append((k, s, t))
        for p, row in inner.items():
            kind = r["tree"][p - 1][0] if p else ""
            ks = [""] + [k for k, _, _ in row] + [""]
            for i, (k, s, t) in enumerate(row):
                key = (kind, ks[i], k, ks[i + 2])
                if t is not None and key not in seen:
                    seen.add(key)
                    res.append((b[:s] + b[s + len(t.encode("utf-8")):]).decode("utf-8", "replace"))
    return res


def altered_words(r, text, rng, n):
    """The text with one word (a name, mostly) spelled a little differently, n times."""
    b = text.encode("utf-8")
    toks = [(s, t) for k, p, s, t in r.get("tree", []) if t is not None and k in ("TK_WORD", "TK_TWIG_COMPONENT_NAME")]
    out = []
    for _ in range(n if toks else 0):
        s, t = rng.choice(toks)
        w = rng.choice([t.upper(), t.swapcase(), t[:-1] or "q", t + "x", "x" + t, t[1:] or "q", t.replace("_", ""), t + "_", t[0].upper() + t[1:]])
        out.append((b[:s] + w.encode("utf-8") + b[s + len(t.encode("utf-8")):]).decode("utf-8", "replace"))
    return out


def p02(ctx):
    import random
    vlib.build_harness()
    rng = random.Random(vlib.SEED + 2)
    n = 6 if THOROUGH else 1
    gen = corpus.gen_docs(ctx.dir, 600 * n, seed=vlib.SEED + 20, drops=3) + corpus.pair_docs(ctx.dir, nested=300 * (n - 1), seed=vlib.SEED + 24, drops=2)
    gen += corpus.form_docs(ctx.dir, seed=vlib.SEED + 25, combinations=600 if THOROUGH else 60, drops=1)
    # 1. a required delimiter, tag or keyword is missing: at least one error
    items = [dict(mode="damaged", text=x["text"], tok=x["tok"]) for g in gen for x in g["drops"]]
    # ... or a malformed element stands somewhere
    marked = corpus.gen_docs(ctx.dir, 300 * n, seed=vlib.SEED + 23, depth=3, fuel=25, marks=3) 
    items += [dict(mode="damaged", text=m["text"], tok=m["element"]) for g in marked for m in g["marks"]]
    items += [dict(mode="damaged", text=g["text"], tok=g["text"]) for g in vlib.tlc_lines("BrokenGen", ctx.dir, {}, "GEN")]
    judge_items(ctx, items)
    # 2. whatever is accepted without an error is well formed
    base = [g["text"] for g in gen] + corpus.snippets()
    parsed = vlib.parse_docs(base, ctx.dir)
    docs = list(base)
    for x, r in zip(base, parsed):
        docs += delete_tokens(r, x, rng, 3) + altered_words(r, x, rng, 3)
    ok = [(r, x) for r, x in zip(parsed, base) if r["st"] == "ok" and not r["errors"]]
    docs += deletions([r for r, _ in ok], [x for _, x in ok])
    docs += corpus.mutations(corpus.snippets() + [b for b in base if len(b) < 250], 2500 * n, seed=vlib.SEED + 21) + corpus.soup(1500 * n, seed=vlib.SEED + 22)
    docs = list(dict.fromkeys(docs))
    res = vlib.parse_docs(docs, ctx.dir)
    recs = [dict(id=i, st=r["st"], errors=len(r.get("errors") or []), tree=tree_nodes(r) if r["st"] == "ok" and not r["errors"] else []) for i, r in enumerate(res)]
    silent = sum(1 for r in recs if r["errors"] == 0)
    j = vlib.judge("WellFormedTrace", ctx.dir, recs, chunk=6000)
    ctx.count(j)
    for r in sorted(j.rejected, key=lambda r: len(docs[r["id"]])):
        ctx.violation(r["why"], source=docs[r["id"]], node=r["node"])
    ctx.extra.update(damaged=len(items), accepted_without_error=silent, texts=len(docs))
    for it in items[:2]:
        ctx.sample({"damaged": it["text"][:300], "missing": it["tok"]})
    ctx.sample({"text": docs[-1], "errors": recs[-1]["errors"]})


CHECKS["P02"] = p02


def typed_record(i, r):
    """The tree with parents, children and extents, and what was said about every node."""
    rows = r.get("tree", [])
    tree = [dict(k=k, p=p, s=s, t=vlib.bmp(t or ""), tok=t is not None, e=s + len((t or "").encode("utf-8")), last=n + 1, c=[])
            for n, (k, p, s, t) in enumerate(rows)]
    for n in range(len(tree) - 1, 0, -1):
        up = tree[tree[n]["p"] - 1]
        up["e"], up["last"] = max(up["e"], tree[n]["e"]), max(up["last"], tree[n]["last"])
    for n in range(1, len(tree)):
        tree[tree[n]["p"] - 1]["c"].append(n + 1)
    views = [[] for _ in tree]
    for node, what, values in r.get("views", []):
        views[node - 1].append([what, [vlib.bmp(v) if isinstance(v, str) else v for v in values]])
    return dict(id=i, st=r["st"], errors=len(r.get("errors") or []), tree=tree, views=views)


def p23(ctx):
    vlib.build_views()
    n = 8 if THOROUGH else 1
    docs = [g["text"] for g in corpus.gen_docs(ctx.dir, 500 * n, seed=vlib.SEED + 230) +
            corpus.pair_docs(ctx.dir, nested=500 * (n - 1), seed=vlib.SEED + 231) +
            corpus.form_docs(ctx.dir, seed=vlib.SEED + 232, combinations=100 if THOROUGH else 12)]
    base = docs + corpus.snippets()
    docs = base + corpus.mutations([b for b in base if len(b) < 250], 2000 * n, seed=vlib.SEED + 233) + corpus.soup(800 * n, seed=vlib.SEED + 234)
    docs = list(dict.fromkeys(docs))
    for k in range(0, len(docs), 6000):
        part = docs[k:k + 6000]
        recs = [typed_record(i, r) for i, r in enumerate(vlib.parse_docs(part, ctx.dir, program="vviews"))]
        j = vlib.judge("TypedTrace", ctx.dir, recs, chunk=1500)
        ctx.count(j)
        for r in sorted(j.rejected, key=lambda r: len(part[r["id"]])):
            ctx.violation(r["why"], source=part[r["id"]], node=r["node"], said=r["real"], is_=r["said"])
        ctx.extra["views"] = ctx.extra.get("views", 0) + sum(len(v) for r in recs for v in r["views"])
        ctx.extra["without_error"] = ctx.extra.get("without_error", 0) + sum(1 for r in recs if r["errors"] == 0)
        ctx.extra["kinds"] = sorted(set(ctx.extra.get("kinds", [])) | {t["k"] for r in recs for t in r["tree"] if not t["tok"]})
        if k == 0:
            for r in recs[:2]:
                ctx.sample({"text": part[r["id"]][:300], "views": sum(len(v) for v in r["views"])})
    ctx.extra["kinds"] = len(ctx.extra["kinds"])


CHECKS["P23"] = p23


def error_records(docs, res):
    """The errors with the places they point to, in characters."""
    for x, r in zip(docs, res):
        m = vlib.char_map(x)
        at = lambda b: m[b] if 0 <= b < len(m) else -1
        yield m, [[at(a), at(b), f] for a, b, f in r.get("errors") or []]


def p26(ctx):
    """Where syntax errors point to."""
    import random
    vlib.build_harness()
    rng = random.Random(vlib.SEED + 26)
    n = 8 if THOROUGH else 1
    gen = corpus.gen_docs(ctx.dir, 300 * n, seed=vlib.SEED + 261) + corpus.pair_docs(ctx.dir, seed=vlib.SEED + 262, nested=1500 * n) + corpus.form_docs(ctx.dir, seed=vlib.SEED + 263)
    base = [g["text"] for g in gen] + corpus.snippets()
    docs = corpus.cuts(base, 700 * n, seed=vlib.SEED + 264) + corpus.mutations(base, 1000 * n, seed=vlib.SEED + 265) + corpus.mutations(corpus.snippets(), 600 * n, seed=vlib.SEED + 266) + corpus.soup(600 * n)
    docs = [x for x in dict.fromkeys(docs) if x]
    recs, src = [], []
    res = vlib.parse_docs(docs, ctx.dir)
    for x, r, (m, e) in zip(docs, res, error_records(docs, res)):
        if e or r["st"] != "ok":
            recs.append(dict(id=len(recs), mode="token", st=r["st"], text=vlib.bmp(x), errors=e))
            src.append(dict(source=x))
    vlib.log("%d malformed texts" % len(recs))
    # beginnings of valid templates
    whole = vlib.parse_docs([g["text"] for g in gen], ctx.dir)
    cut = []
    for g, r in zip(gen, whole):
        if r["st"] != "ok" or r.get("errors"):
            continue                                # judged by P03
        real = [(t[2], t[3]) for t in r["tree"] if t[0] not in ("TK_WHITESPACE", "TK_LINE_BREAK")]
        if [x[1] or "" for x in real] != [x[2] for x in g["rows"]]:
            continue
        leaves = [k for k, x in enumerate(real) if x[1]]
        for i in rng.sample(range(1, len(leaves)), min(len(leaves) - 1, 5 if THOROUGH else 2)) if len(leaves) > 1 else []:
            k, b = leaves[i], leaves[i - 1]
            text = g["text"].encode("utf-8")[:real[k][0]].decode("utf-8")
            if rng.random() < 0.3:
                text = g["text"].encode("utf-8")[:real[b][0] + len(real[b][1].encode("utf-8"))].decode("utf-8")
            # what precedes the cut leaf: nodes that begin there don't count
            cut.append(dict(text=text, rows=g["rows"], cut=k + 1, before=b + 1, last=real[b][0]))
    texts = [c["text"] for c in cut]
    res = vlib.parse_docs(texts, ctx.dir)
    for c, r, (m, e) in zip(cut, res, error_records(texts, res)):
        recs.append(dict(id=len(recs), mode="beginning", st=r["st"], rows=c["rows"], cut=c["cut"], before=c["before"], lastFrom=m[c["last"]], errors=e))
        src.append(dict(source=c["text"]))
    vlib.log("%d beginnings" % len(cut))
    # malformed elements
    forms = corpus.broken_forms(ctx.dir, seed=vlib.SEED + 267, combinations=40 if THOROUGH else 10)
    marked = corpus.around_docs(ctx.dir, seed=vlib.SEED + 268, marks=40 if THOROUGH else 4, broken=forms) + corpus.around_docs(ctx.dir, seed=vlib.SEED + 269, marks=200 if THOROUGH else 10) + corpus.gen_docs(ctx.dir, 200 * n, seed=vlib.SEED + 270, depth=5, fuel=60, marks=3)
    items = [(g, m) for g in marked for m in g["marks"]]
    items = rng.sample(items, min(len(items), 5000 * n))
    texts = [m["text"] for g, m in items]
    res = vlib.parse_docs(texts, ctx.dir)
    for (g, k), r, (m, e) in zip(items, res, error_records(texts, res)):
        rows = rows_of(r)
        real = [row + [m[t[2]], m[t[2] + len((t[3] or "").encode("utf-8"))]] for row, t in zip(rows, r.get("tree", [])) if t[0] not in ("TK_WHITESPACE", "TK_LINE_BREAK")]
        real = [[a, b, vlib.bmp(c), x, y] for a, b, c, x, y in real]
        recs.append(dict(id=len(recs), mode="element", st=r["st"], rows=g["rows"], at=k["at"], real=real, errors=e))
        src.append(dict(source=k["text"], element=k["element"]))
    vlib.log("%d malformed elements" % len(items))
    # tokens where they can't stand
    stray = []
    for g, r in zip(gen, whole):
        if r["st"] != "ok" or r.get("errors"):
            continue
        real = [(t[2], t[3]) for t in r["tree"] if t[0] not in ("TK_WHITESPACE", "TK_LINE_BREAK")]
        if [x[1] or "" for x in real] != [x[2] for x in g["rows"]]:
            continue
        code, tags, inside, tag = [], [], False, False
        for k, (_, t) in enumerate(real):           # a rough choice; the specification decides what place it is
            if not t:
                continue
            if inside or tag:
                (code if inside else tags).append(k)
            inside = t[:2] in ("{{", "{%") or (inside and t[-2:] not in ("}}", "%}"))
            tag = not inside and (t in ("<", "</") or (tag and t not in (">", "/>")))
        b = g["text"].encode("utf-8")
        for k in rng.sample(code, min(len(code), 3 * (1 + THOROUGH))) + rng.sample(tags, min(len(tags), 2)):
            what = rng.choice([";", "€", "@", "`", "$", "\\", "&amp;", "<!--", "{{", "{%", "<!", "{#", "/>"] if k in code else [";", "`", ")", "}}", "%}", "|", "&amp;", "[", "12"])
            head = b[:real[k][0]].decode("utf-8") + " "
            stray.append(dict(text=head + what + " " + b[real[k][0]:].decode("utf-8"), rows=g["rows"], cut=k + 1, stray=what, at=len(head)))
    texts = [c["text"] for c in stray]
    res = vlib.parse_docs(texts, ctx.dir)
    for c, r, (m, e) in zip(stray, res, error_records(texts, res)):
        recs.append(dict(id=len(recs), mode="stray", st=r["st"], rows=c["rows"], cut=c["cut"], stray=c["stray"], errors=e, **{"from": c["at"], "to": c["at"] + len(c["stray"])}))
        src.append(dict(source=c["text"], stray=c["stray"]))
    vlib.log("%d stray tokens" % len(stray))
    j = vlib.judge("ErrorTrace", ctx.dir, recs, chunk=6000)
    ctx.count(j)
    for r in sorted(j.rejected, key=lambda r: len(src[r["id"]]["source"])):
        ctx.violation(r["why"], errors=recs[r["id"]]["errors"][:5], **src[r["id"]])
    ctx.extra.update(malformed_texts=sum(r["mode"] == "token" for r in recs), beginnings=len(cut), elements=len(items), strays=len(stray), errors=sum(len(r["errors"]) for r in recs))
    for i in range(0, len(recs), max(1, len(recs) // 4)):
        ctx.sample(dict(src[i], errors=recs[i]["errors"][:3]))


CHECKS["P26"] = p26
