"""Running the real ludtwig program with its trace hooks."""
import json, os, random, re, resource, shutil, subprocess, threading, time, unicodedata
import vlib

RULES = ["ludtwig-ignore-file-not-on-top", "whitespace-between-line-breaks", "line-ending", "indentation", "twig-block-line-breaks", "twig-block-name-snake-case",
         "html-attribute-name-kebab-case", "twig-logic-and", "twig-logic-or", "twig-string-quotation", "html-string-quotation", "twig-hash-key-no-quotes",
         "twig-prefer-shopware-extends", "twig-use-is-same-as", "twig-use-is-not-same-as", "twig-block-duplicate", "twig-json-encode-escape-js",
         "html-duplicate-id", "twig-variable-definition-naming", "twig-valid-filter", "twig-valid-test", "twig-valid-function"]

DEFAULT = dict(rules=RULES, lineEnding="unix_LF", indentationMode="space", indentationCount=4, indentChildrenOfBlocks=True,
               linebreaksAroundBlocks=True, twigQuotation="single", htmlQuotation="double",
               validFilters=["trans", "raw", "json_encode", "length", "upper", "date", "merge", "e", "escape", "foo"],
               validTests=["defined", "empty", "even", "odd", "same as", "null", "none", "foo"],
               validFunctions=["path", "include", "max", "range", "date", "block", "constant", "parent", "foo"])


def toml(cfg):
    c = dict(DEFAULT)
    c.update(cfg)
    s = lambda l: "[" + ", ".join(json.dumps(x) for x in l) + "]"
    b = lambda x: "true" if x else "false"
    return "\n".join(['version = "x"', "[general]", "active-rules = " + s(c["rules"]), "[format]", 'line-ending = "%s"' % c["lineEnding"],
                      'indentation-mode = "%s"' % c["indentationMode"], "indentation-count = %d" % c["indentationCount"],
                      "indent-children-of-blocks = " + b(c["indentChildrenOfBlocks"]), "linebreaks-around-blocks = " + b(c["linebreaksAroundBlocks"]),
                      'twig-quotation = "%s"' % c["twigQuotation"], 'html-quotation = "%s"' % c["htmlQuotation"], "[twig]",
                      "valid-filters = " + s(c["validFilters"]), "valid-tests = " + s(c["validTests"]), "valid-functions = " + s(c["validFunctions"])]) + "\n"


class Run:
    """One run of the program: exit code, output and the recorded events."""
    def __init__(self, rc, out, err, events):
        self.rc, self.out, self.err, self.events = rc, out, err, events

    def of(self, ev):
        return [e for e in self.events if e["ev"] == ev]


def program(args, cwd, env=None, threads=None, limit=300, user=None, preexec=None):
    """Run the real program in cwd; a Run with rc=None if it did not end in time."""
    trace = os.path.join(cwd, "..", "trace-%d.ndjson" % random.randrange(10 ** 9)) if env is None or "VERIF_LUDTWIG_TRACE" not in env else env["VERIF_LUDTWIG_TRACE"]
    trace = os.path.abspath(trace)
    e = {k: v for k, v in os.environ.items() if not k.startswith("LUDTWIG_")}
    e.update(NO_COLOR="1", TERM="dumb", VERIF_LUDTWIG_TRACE=trace, RUST_BACKTRACE="0")
    if threads:
        e["RAYON_NUM_THREADS"] = str(threads)
    e.update(env or {})
    try:
        r = subprocess.run([os.path.join(vlib.TARGET, "debug", "ludtwig")] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, user=user, preexec_fn=preexec)
        rc, out, err = r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        rc, out, err = None, "", ""
    events = []
    if os.path.exists(trace):
        with open(trace, encoding="utf-8") as f:
            for l in f:
                try:
                    events.append(json.loads(l))
                except ValueError:
                    pass
        os.unlink(trace)
    return Run(rc, out, err, events)


def program_traced(args, cwd, env=None, threads=None, limit=120, user=None, fsize=None, slow=0.0):
    """Like program, but the trace goes through a pipe: it works for other users and under limits of file sizes.
    slow: nobody reads what the program prints for that long."""
    base = os.path.dirname(os.path.abspath(cwd))
    fifo = os.path.join(base, "trace-%d.fifo" % random.randrange(10 ** 9))
    os.mkfifo(fifo)
    os.chmod(fifo, 0o666)
    fd = os.open(fifo, os.O_RDWR | os.O_NONBLOCK)
    chunks, over = [], threading.Event()

    def drain():
        while True:
            try:
                b = os.read(fd, 1 << 20)
                chunks.append(b)
            except BlockingIOError:
                if over.is_set():
                    return
                time.sleep(0.001)
    t = threading.Thread(target=drain)
    t.start()
    e = {k: v for k, v in os.environ.items() if not k.startswith("LUDTWIG_")}
    e.update(NO_COLOR="1", TERM="dumb", VERIF_LUDTWIG_TRACE=fifo, RUST_BACKTRACE="0")
    if threads:
        e["RAYON_NUM_THREADS"] = str(threads)
    e.update(env or {})

    def limited():
        if fsize:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
    p = subprocess.Popen([os.path.join(vlib.TARGET, "debug", "ludtwig")] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         user=user, group=user, extra_groups=[] if user else None, preexec_fn=limited, restore_signals=False)
    try:
        if slow:
            time.sleep(slow)
        out, err = p.communicate(timeout=limit)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        rc, out, err = None, b"", b""
    over.set()
    t.join()
    os.close(fd)
    os.unlink(fifo)
    events = []
    for l in b"".join(chunks).decode("utf-8", "replace").split("\n"):
        try:
            events.append(json.loads(l))
        except ValueError:
            pass
    return Run(rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), events)


def may_setuid():
    try:
        return subprocess.run(["true"], user=65534, group=65534, extra_groups=[]).returncode == 0
    except (PermissionError, OSError, subprocess.SubprocessError):
        return False


SEVERITY = {"error": "error", "warning": "warning", "help": "help", "info": "info"}


def run_record(i, r, cwd, files, fix, inspect, walk_errors=0, others=False, faults=None):
    """A run as a record for spec/AppTrace; files: {real path: (before, after)}."""
    paths = sorted(files)
    index = {p: k + 1 for k, p in enumerate(paths)}
    last = {p: files[p][0] for p in paths}
    wrote = set()
    events = []
    for e in r.events:
        if e["ev"] == "received":
            events.append(dict(ev="received", what=e["what"], f=0, count={}))
        elif "path" in e:
            p = os.path.realpath(os.path.join(cwd, e["path"]))
            count = {}
            if e["ev"] == "reported":
                count = dict(syntax=len(e["errors"]), error=0, warning=0, help=0, info=0)
                for x in e["results"]:
                    count[x["sev"]] += 1
            elif e["ev"] == "checked":
                last[p] = e["source"]
            elif e["ev"] == "write":
                wrote.add(p)
            events.append(dict(ev=e["ev"], f=index.get(p, 0), what="", count=count))
    text = r.err if r.rc == 1 else r.out
    nums = [[int(x) for x in re.findall(r"\d+", l)] for l in text.split("\n")]
    nums = [x for x in nums[-3:] if len(x) == 6]
    shown = [len(re.findall(r"(?m)^%s\[" % w, r.err)) for w in ("error", "warning", "help", "note")]
    return dict(id=i, st="ok" if r.rc in (0, 1) and r.of("finished") else "crash", rc=-1 if r.rc is None else r.rc, fix=fix, inspect=inspect, walkErrors=walk_errors,
                others=others, events=events, summary=nums[-1] if nums else [], shown=shown,
                files=[dict(path=os.path.basename(p), before=vlib.bmp(files[p][0]), after=vlib.bmp(files[p][1]), last=vlib.bmp(last[p]), wrote=p in wrote, fault=(faults or {}).get(p, "")) for p in paths])


class Scanned:
    """What one run of the program did to one document."""
    def __init__(self, st, rounds, chosen, reported, write, after, cfg, rc=None):
        self.st, self.rounds, self.chosen, self.reported, self.write, self.after, self.cfg, self.rc = st, rounds, chosen, reported, write, after, cfg, rc


def scan(docs, d, cfg, fix=False, threads=None):
    """Run the program once over a folder that holds every document; st: ok, failed (file not reported), crash."""
    base = os.path.join(d, "scan-%d" % random.randrange(10 ** 9))
    work = os.path.join(base, "files")
    os.makedirs(work)
    conf = os.path.join(base, "conf.toml")
    with open(conf, "w") as f:
        f.write(toml(cfg))
    names = ["%06d.html.twig" % i for i in range(len(docs))]
    for n, x in zip(names, docs):
        with open(os.path.join(work, n), "w", encoding="utf-8", newline="") as f:
            f.write(x)
    r = program((["--fix"] if fix else []) + ["-c", conf, work], work, threads=threads)
    after = []
    for n in names:
        with open(os.path.join(work, n), encoding="utf-8", newline="", errors="replace") as f:
            after.append(f.read())
    shutil.rmtree(base, ignore_errors=True)
    ended = bool(r.of("finished")) and r.rc in (0, 1)
    if not ended and len(docs) > 1:
        m = len(docs) // 2
        return scan(docs[:m], d, cfg, fix, threads) + scan(docs[m:], d, cfg, fix, threads)
    res = [Scanned("crash" if not ended else "failed", [], [], None, False, a, None, r.rc) for a in after]
    run = r.of("run")
    for x in res:
        x.cfg = run[0]["config"] if run else None
    for e in r.events:
        if "path" not in e:
            continue
        x = res[int(os.path.basename(e["path"])[:6])]
        if e["ev"] == "checked":
            x.rounds.append(e)
        elif e["ev"] == "chosen":
            x.chosen.append(e["chosen"])
        elif e["ev"] == "write":
            x.write = True
        elif e["ev"] == "reported":
            x.reported = e
            if ended:
                x.st = "ok"
    return res


# ---------------------------------------------------------------- records for the trace specifications

def nodes_of(checked):
    """The tree of a `checked` event with character offsets and links; nothing but structure is computed here."""
    src = checked["source"]
    m = vlib.char_map(src)
    tree = checked["tree"]
    n = [dict(k=k, p=p, s=m[s], e=0, t=vlib.bmp(t or ""), c=[], v=0, w=0, pt=0, nt=0, l=0) for k, p, s, t in tree]
    for i, (k, p, s, t) in enumerate(tree):
        if p:
            sib = n[p - 1]["c"]
            if sib:
                n[i]["v"] = sib[-1]
                n[sib[-1] - 1]["w"] = i + 1
            sib.append(i + 1)
    prev = 0
    for i, (k, p, s, t) in enumerate(tree):
        if t is not None:
            n[i]["e"] = m[s + len(t.encode("utf-8"))]
            n[i]["pt"] = prev
            if prev:
                n[prev - 1]["nt"] = i + 1
            prev = i + 1
    for i in range(len(n) - 1, -1, -1):
        n[i]["l"] = n[n[i]["c"][-1] - 1]["l"] if n[i]["c"] else i + 1
        if tree[i][3] is None:
            n[i]["e"] = n[n[i]["c"][-1] - 1]["e"] if n[i]["c"] else n[i]["s"]
    return n, m


def at(m, b):
    return m[b] if 0 <= b < len(m) else -1


def results_of(results, m):
    return [dict(rule=r["rule"], sev=r["sev"], prim=[[at(m, a), at(m, b)] for a, b in r["prim"]], sec=[[at(m, a), at(m, b)] for a, b in r["sec"]],
                 sug=[[at(m, a), at(m, b), vlib.bmp(t)] for a, b, t in r["sug"]]) for r in results]


def lint_record(i, x, k=0):
    """Round k of a scanned document."""
    if x.st == "crash" or len(x.rounds) <= k:
        return dict(id=i, st="crash", nodes=[], results=[], cfg=x.cfg or {}, rules=[], errors=0)
    c = x.rounds[k]
    n, m = nodes_of(c)
    return dict(id=i, st="ok", nodes=n, results=results_of(c["results"], m), cfg=x.cfg, rules=c["rules"], errors=len(c["errors"]))


def text_round(c):
    m = vlib.char_map(c["source"])
    return dict(text=vlib.bmp(c["source"]), errors=[[at(m, a), at(m, b)] for a, b in c["errors"]], results=results_of(c["results"], m))


def fix_part(x, before):
    """One run over one document: before, after and everything in between."""
    rs = [text_round(c) for c in x.rounds]
    ch = []
    for c, s in zip(x.rounds, x.chosen):
        m = vlib.char_map(c["source"])
        ch.append([[at(m, a), at(m, b), vlib.bmp(t)] for a, b, t in s])
    rep = text_round(x.reported) if x.reported else dict(text="", errors=[], results=[])
    return dict(st=x.st, before=vlib.bmp(before), after=vlib.bmp(x.after), write=x.write, chosen=ch, reported=rep,
                rounds=[dict(text=r["text"], errors=len(r["errors"]), results=r["results"]) for r in rs])


def fix_record(i, x, before, plain=None, again=None, trees=False):
    r = fix_part(x, before)
    small = lambda y, b: {k: v for k, v in fix_part(y, b).items() if k != "rounds"}
    r.update(id=i, plain=small(plain, x.after) if plain else {}, again=small(again, x.after) if again else {}, trees=[])
    if trees and len(x.rounds) > 1:
        r["trees"] = [nodes_of(x.rounds[0])[0], nodes_of(x.rounds[-1])[0]]
    return r


# ---------------------------------------------------------------- what the program prints

def printed(err):
    """The blocks the program printed: findings with their places, and syntax trees."""
    blocks, block = [], None
    for line in err.split("\n"):
        m = re.match(r"^(error|warning|help|note)\[([^\]]*)\]: ", line)
        if m:
            block = dict(sev=m.group(1), code=m.group(2), path="", line=0, col=0, shown=[], marks=[], tree=[], single=True)
            blocks.append(block)
            last = 0
            continue
        if block is None:
            continue
        m = re.match(r"^ *┌─ (.*):(\d+):(\d+)$", line)
        if m and not block["path"]:
            block.update(path=m.group(1), line=int(m.group(2)), col=int(m.group(3)))
            continue
        m = re.match(r"^ *(\d+) │ ?(.*)$", line, re.S)
        if m and block["path"]:
            last = int(m.group(1))
            block["shown"].append([last, m.group(2)])
            continue
        m = re.match(r"^ *│ ([ ^\-]*)", line)
        if m and last:
            row = m.group(1)
            if row[-1:] == "-" and row[-2:-1] == " " and "^" in row:
                row = row[:-1]          # the message begins with it
            block["marks"].append([last, [i + 1 for i, c in enumerate(row) if c == "^"], [i + 1 for i, c in enumerate(row) if c == "-"]])
        last = 0
        m = re.match(r"^( *=? *)([A-Z_]+)@(\d+)\.\.(\d+)(?: (\".*\"))?$", line, re.S)
        if m and not block["path"]:
            t = re.sub(r"\\(u\{([0-9a-f]+)\}|.)", lambda c: chr(int(c.group(2), 16)) if c.group(2) else {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(c.group(1), c.group(1)), m.group(5)[1:-1]) if m.group(5) else ""
            block["tree"].append([len(m.group(1)), m.group(2), int(m.group(3)), int(m.group(4)), vlib.bmp(t)])
    for b in blocks:
        # the gutter of a text without labels of several lines is two characters wide
        left = b["tree"][0][0] if b["tree"] else 0
        # of a long token only the beginning is printed
        b["tree"] = [[(d - left) // 2] + r[:3] + [r[3][:5]] for d, *r in b["tree"]]
        b["shown"] = [[n, vlib.bmp(t)] for n, t in b["shown"]]
    return blocks


def report_records(first, r):
    """Records for spec/ReportTrace: one for the run and one for every file that was reported."""
    ended = r.rc in (0, 1) and bool(r.of("finished"))
    blocks = printed(r.err)
    recs = []
    norm = lambda p: os.path.normpath(p) if p else ""
    for b in blocks:
        b["path"] = norm(b["path"])
    reported = {norm(e["path"]): e for e in r.of("reported")}
    checked = {norm(e["path"]): e for e in r.of("checked")}
    trees = []
    if r.of("run") and r.of("run")[0]["inspect"]:
        for p in reported:
            t = checked[p]["tree"]
            end = [s + len((x or "").encode("utf-8")) for k, up, s, x in t]
            depth = [0] * len(t)
            for i in range(len(t) - 1, 0, -1):
                end[t[i][1] - 1] = max(end[t[i][1] - 1], end[i])
            for i in range(1, len(t)):
                depth[i] = depth[t[i][1] - 1] + 1
            trees.append([[depth[i], k, s, end[i], vlib.bmp(x or "")[:5]] for i, (k, up, s, x) in enumerate(t)])
    order = [b["path"] for b in blocks if b["path"]]
    recs.append(dict(id=first, mode="run", st="ok" if ended else "crash", order=[p for i, p in enumerate(order) if i == 0 or order[i - 1] != p],
                     strangers=sorted({p for p in order if p not in reported}), trees=trees, printed=[b["tree"] for b in blocks if b["code"] == "SyntaxTree"]))
    where = [None]
    for p, e in sorted(reported.items()):
        src = e["source"]
        m = vlib.char_map(src)
        at = lambda x: [m[x[0]], m[x[1]]]
        findings = [dict(rule="SyntaxError", sev="error", prim=[at(x)], sec=[], sug=[]) for x in e["errors"]]
        findings += [dict(rule=x["rule"], sev=x["sev"], prim=[at(y) for y in x["prim"]], sec=[at(y) for y in x["sec"]], sug=[at(y[:2]) for y in x["sug"]]) for x in e["results"]]
        lines = [l.rstrip("\r") for l in src.split("\n")]
        strange = [n + 1 for n, l in enumerate(lines) if any(unicodedata.category(c)[0] == "C" or (c.isspace() and c != " ") for c in l)]
        wide = sorted(set(strange) | {n + 1 for n, l in enumerate(lines) if not l.isascii()})
        mine = [{k: b[k] for k in ("sev", "code", "path", "line", "col", "shown", "marks")} for b in blocks if b["path"] == p]
        recs.append(dict(id=first + len(recs), mode="file", st="ok" if ended else "crash", source=vlib.bmp(src), strange=strange, wide=wide, findings=findings, blocks=mine))
        where.append(p)
    return recs, where
