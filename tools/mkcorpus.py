#!/usr/bin/env python3
"""Collect the template snippets of the repository's own unit tests and fixtures into corpus/snippets.json
(a snapshot: inputs only, no expectations)."""
import json, os, re
REPO = "/repo"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus", "snippets.json")
strings = []
raw = re.compile(r'r(#*)"(.*?)"\1', re.S)
plain = re.compile(r'"((?:[^"\\]|\\.)*)"', re.S)
def unescape(s):
    s = re.sub(r'\\\n\s*', '', s)
    return s.replace('\\n', '\n').replace('\\r', '\r').replace('\\t', '\t').replace('\\"', '"').replace("\\'", "'").replace('\\\\', '\\')
for root, _, files in os.walk(os.path.join(REPO, "crates")):
    if "target" in root: continue
    for f in sorted(files):
        p = os.path.join(root, f)
        if f.endswith(".rs"):
            src = open(p).read()
            i = src.find("#[cfg(test)]")
            if i < 0: continue
            src = src[i:]
            for m in re.finditer(r'(check_parse|test_rule|test_rule_fix|test_rule_does_not_fix)\(\s*("[a-z-]+",\s*)?', src):
                rest = src[m.end():]
                r = raw.match(rest); q = plain.match(rest)
                if r: strings.append(r.group(2))
                elif q: strings.append(unescape(q.group(1)))
for root, _, files in os.walk(REPO):
    if "/target" in root: continue
    for f in sorted(files):
        if f.endswith(".twig"): strings.append(open(os.path.join(root, f)).read())
seen = []
for s in strings:
    if s not in seen and len(s) < 6000: seen.append(s)
json.dump(sorted(seen), open(OUT, "w"), indent=0, ensure_ascii=True)
print(len(seen), sum(map(len, seen)), max(map(len, seen)))
