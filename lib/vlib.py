"""Shared glue of the checks: building, running the real code, running TLC, reporting.

The glue only moves data: every judgement is made by a TLA+ specification in /verif/spec.
"""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
T0 = time.time()
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def scratch():
    d = tempfile.mkdtemp(prefix="ludtwig-verif-")
    return d


# ---------------------------------------------------------------- building

def cargo_env():
    e = dict(os.environ)
    for k in ("CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    e["CARGO_PROFILE_DEV_OPT_LEVEL"] = "0"
    e["CARGO_TARGET_DIR"] = TARGET
    e["RUSTFLAGS"] = "--cfg ludtwig_verif"
    return e


def _cargo(args, cwd):
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise ToolError("build failed")


def build_cli():
    _cargo(["build", "--offline", "--locked", "--bin", "ludtwig"], REPO)
    log("built ludtwig with the trace hooks")
    return os.path.join(TARGET, "debug", "ludtwig")


def build_harness():
    _cargo(["build", "--offline", "--locked"], os.path.join(VERIF, "harness"))
    log("built the parser harness")
    return os.path.join(TARGET, "debug", "vharness")


# ---------------------------------------------------------------- the real parser

def build_views():
    """The same program, which reports what the typed tree says as well."""
    _cargo(["build", "--offline", "--locked", "--features", "views", "--bin", "vviews"], os.path.join(VERIF, "harness"))
    log("built the parser harness with the typed tree")


def _parse_once(docs, d, limit, program):
    inp, out = os.path.join(d, "docs.bin"), os.path.join(d, "trees.json")
    if os.path.exists(out):
        os.unlink(out)
    with open(inp, "wb") as f:
        for doc in docs:
            b = doc.encode("utf-8")
            f.write(struct.pack("<I", len(b)) + b)
    env = dict(os.environ, VHARNESS_LIMIT=str(limit))
    try:
        r = subprocess.run(["bash", "-c", "ulimit -v 12000000; exec \"$0\" \"$@\"",
                            os.path.join(TARGET, "debug", program), inp, out],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, timeout=600)
        ok = r.returncode == 0 and os.path.exists(out)
    except subprocess.TimeoutExpired:
        ok = False
    if not ok:
        return None
    with open(out) as f:
        return [json.loads(l) for l in f]


def parse_docs(docs, d, limit=20, program="vharness"):
    """Parse every document with the real parser; a document that kills the process gets st=crash."""
    res = _parse_once(docs, d, limit, program)
    if res is not None:
        return res
    if len(docs) == 1:
        return [{"i": 0, "st": "crash"}]
    m = len(docs) // 2
    return parse_docs(docs[:m], d, limit, program) + parse_docs(docs[m:], d, limit, program)


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, workdir, env=None, args=(), timeout=600, workers=8, heap="8g", simulate=None, seed=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>; returns (returncode, stdout)."""
    meta = tempfile.mkdtemp(prefix="tlcmeta-", dir=workdir)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Dtlc2.tool.impl.Tool.cdot=true", "-Djava.io.tmpdir=" + meta,
           "-cp", JARS, "tlc2.TLC", "-noTE", "-metadir", meta,
           "-workers", str(workers), "-config", os.path.join(SPEC, cfg)]
    if simulate:
        cmd += ["-simulate", simulate]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=e, cwd=workdir, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def tlc_lines(module, workdir, env, tag, timeout=600, cfg=None, workers=8, heap="8g", args=(), need_finish=True):
    """The JSON values a run of TLC printed behind the given tag."""
    rc, out = tlc(module, cfg or module + ".cfg", workdir, env=env, timeout=timeout, workers=workers, heap=heap, args=args)
    if need_finish and (rc != 0 or "Model checking completed. No error has been found." not in out):
        sys.stdout.write("\n".join(l for l in out.split("\n") if not l.startswith('"'))[-5000:] + "\n")
        raise ToolError("TLC did not finish on %s (exit %d)" % (module, rc))
    res = []
    for l in out.split("\n"):
        if l.startswith('"' + tag + " "):
            res.append(json.loads(json.loads(l)[len(tag) + 1:]))
    return res


def state_counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    return (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)


class Judged:
    def __init__(self, ok, rejected, states, transitions):
        self.ok, self.rejected, self.states, self.transitions = ok, rejected, states, transitions


def judge(module, workdir, records, env=None, timeout=600, workers=8, heap="10g", cfg=None, chunk=None, name="trace"):
    """Let the trace specification `module` accept or reject every record.

    Every record has an id; the specification prints OK <id> or REJECT {id, ..} for each of them, and a record it
    says nothing about is an error of the machinery."""
    ok, rej, states, trans = set(), [], 0, 0
    ids = [r["id"] for r in records]
    assert len(set(ids)) == len(ids)
    chunk = chunk or max(1, len(records))
    for a in range(0, len(records), chunk):
        path = os.path.join(workdir, "%s-%s.ndjson" % (name, module))
        with open(path, "w") as f:
            for r in records[a:a + chunk]:
                f.write(json.dumps(r) + "\n")
        e = {"TRACE": path}
        e.update(env or {})
        rc, out = tlc(module, cfg or module + ".cfg", workdir, env=e, timeout=timeout, workers=workers, heap=heap)
        if rc != 0 or "Model checking completed. No error has been found." not in out:
            sys.stdout.write("\n".join(l for l in out.split("\n") if not l.startswith('"'))[-5000:] + "\n")
            raise ToolError("TLC did not finish on %s (exit %d)" % (module, rc))
        for l in out.split("\n"):
            if l.startswith('"OK '):
                ok.add(int(json.loads(l)[3:]))
            elif l.startswith('"REJECT '):
                rej.append(json.loads(json.loads(l)[7:]))
        g, n = state_counts(out)
        states, trans = states + n, trans + g
    silent = set(ids) - ok - {r["id"] for r in rej}
    if silent:
        raise ToolError("%s says nothing about %d records, e.g. %s" % (module, len(silent), sorted(silent)[:5]))
    return Judged(ok, rej, states, trans)


def char_map(text):
    """byte offset -> character offset, -1 inside of a character"""
    m = [-1] * (len(text.encode("utf-8")) + 1)
    b = 0
    for i, c in enumerate(text):
        m[b] = i
        b += len(c.encode("utf-8"))
    m[b] = len(text)
    return m


def bmp(text):
    """one string element per character: TLC counts UTF-16 units"""
    return "".join(c if ord(c) < 0x10000 and not 0xd800 <= ord(c) < 0xe000 and ord(c) != 0 else "\ufffd" for c in text)
