#!/usr/bin/env python3
"""seed.py make SPEC.py   creates /verif/seeded/<id>/ for every entry of SEEDS in SPEC.py that is not there yet
seed.py verify [ID...]    runs the whole confirmation for planted bugs: applies, changes base lines only, builds, passes the
                          stable tests, demonstration passes without and fails with it; and runs the checks given in CHECKS=... (default:
                          the bug's property; "all": every check)
Works on scratch copies under /tmp, never on /repo."""
import importlib.util, json, os, re, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
SEED = V + "/seeded"
BASE = "e45e371"
LANES_AT = os.environ.get("LANES_AT", "/tmp/seedlane")  # one per run of this program
PRELUDE = '''package main

import (
	"errors"
	"fmt"
	"os"
	"strings"
%s
	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
)

var _ = errors.As
var _ = strings.Repeat
var _ erroring.EOFError
var _ navigation.Direction

func fail(f string, a ...interface{}) {
	fmt.Printf("FAIL: "+f+"\\n", a...)
	os.Exit(1)
}

func parse(doc string, ns bool, opts ...parser.Option) (*navigation.VtdNav, error) {
	p, err := parser.NewVtdParser(append([]parser.Option{parser.WithXmlDoc([]byte(doc)), parser.WithNameSpaceAware(ns)}, opts...)...)
	if err != nil {
		return nil, err
	}
	if err := p.Parse(); err != nil {
		return nil, err
	}
	return p.GetNav()
}

func accept(doc string, ns bool, opts ...parser.Option) *navigation.VtdNav {
	n, err := parse(doc, ns, opts...)
	if err != nil {
		fail("refused (%%T %%v): %%.120q", err, err, doc)
	}
	return n
}

func refuse(doc string, ns bool, opts ...parser.Option) error {
	_, err := parse(doc, ns, opts...)
	if err == nil {
		fail("accepted: %%.120q", doc)
	}
	return err
}

func main() {
%s
	fmt.Println("ok")
}
'''
DEMO = '#!/bin/bash\n# run in /repo: 0 when the behaviour is right\nexport GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off\n%s\n'

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str), executable="/bin/bash" if isinstance(cmd, str) else None)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def make(s, repo):
    d = f"{SEED}/{s['id']}"
    if os.path.exists(d): return None
    for f, old, new in s["edits"]:
        p = f"{repo}/vtdxml/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            raise SystemExit(f"{s['id']}: {t.count(old)} matches in {f} of {old!r}")
        open(p, "w").write(t.replace(old, new))
    sh(["gofmt", "-w", f"{repo}/vtdxml"])
    rc, diff = sh(["git", "diff"], cwd=repo)
    sh("git checkout -q -- .", cwd=repo)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    imp = "".join(f'\t"{i}"\n' for i in s.get("imports", []))
    body = textwrap.indent(textwrap.dedent(s["demo"]).strip("\n"), "\t")
    open(d + "/demo.go", "w").write((s.get("prelude") or PRELUDE) % (imp.rstrip("\n"), body))
    sh(["gofmt", "-w", d + "/demo.go"])
    open(d + "/demo.sh", "w").write(DEMO % s.get("cmd", 'exec timeout 200 go run "$(dirname "$0")/demo.go"'))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
    return s["id"]

def blame_ok(repo, diff):
    """every removed line must come from the original repository; a pure insertion is attached to its context"""
    bad = []
    f = None; ln = 0; removed = 0
    for l in diff.split("\n"):
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            removed += 1
            rc, o = sh(["git", "blame", "-s", "-l", f"-L{ln},{ln}", "HEAD", "--", f], cwd="/repo")
            if not o.lstrip("^").startswith(BASE): bad.append((f, ln, o[:8] + " " + l[1:].strip()))
            ln += 1
        elif l.startswith(" "): ln += 1
    return bad, removed

def lane_setup(k):
    d = f"{LANES_AT}{k}"
    if not os.path.exists(d):
        os.makedirs(d + "/vd"); os.makedirs(d + "/tmp")
    sh(f"rsync -a --delete {V}/harness/ {d}/harness/ 2>/dev/null || cp -a {V}/harness/. {d}/harness/" if os.path.exists(d + "/harness") else f"cp -a {V}/harness {d}/harness")
    sh(f"sed -i 's#=> /repo#=> {d}/repo#' {d}/harness/go.mod; cp {V}/known_findings.jsonl {d}/vd/")
    if not os.path.exists(d + "/repo"): sh(f"cp -a /repo {d}/repo")
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=d + "/repo")
    return d

def tests(repo):
    base = json.load(open("/opt/vp/BASELINE.json"))
    rc, o = sh("go test -json ./... 2>/dev/null", cwd=repo)
    passed = set()
    for l in o.split("\n"):
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Action") == "pass" and "Test" in e: passed.add((e["Package"], e["Test"]))
    fails = [l for l in o.split("\n") if '"Action":"fail"' in l and '"Test"' in l]
    return len(passed), fails

def verify(i, d, checks):
    repo = d + "/repo"; sd = f"{SEED}/{i}"; out = []
    meta = json.load(open(sd + "/meta.json"))
    diff = open(sd + "/patch.diff").read()
    env = {"GOFLAGS": "-mod=mod", "GOPROXY": "off"}
    sh("git checkout -q -- .", cwd=repo)
    rc, o = sh(["bash", sd + "/demo.sh"], cwd=repo)
    if rc != 0: out.append(f"DEMO-FAILS-CLEAN rc={rc} {o[-300:]}")
    rc, o = sh(["git", "apply", sd + "/patch.diff"], cwd=repo)
    if rc != 0: return i, meta["property"], ["NOAPPLY " + o[:200]]
    bad, removed = blame_ok(repo, diff)
    if bad: out.append(f"NOT-BASE {bad[:3]}")
    if not removed: out.append("ONLY-ADDS")
    rc, o = sh("go vet ./vtdxml/... 2>&1 | head; go build ./...", cwd=repo, env=env)
    if rc != 0: out.append("NOBUILD " + o[:300])
    n, fails = tests(repo)
    if n < 171 or fails: out.append(f"TESTS pass={n} fails={[json.loads(x)['Test'] for x in fails][:4]}")
    rc, o = sh(["bash", sd + "/demo.sh"], cwd=repo)
    if rc == 0: out.append("DEMO-PASSES-PATCHED")
    why = o.strip().split("\n")[-1][:100] if rc else ""
    res = {}
    built = {}
    for c in checks or [meta["property"]]:
        race = c == "C18"
        b = f"{d}/vh" + ("r" if race else "")
        if race not in built:
            rc, o = sh(f"go build -trimpath {'-race' if race else ''} -o {b} .", cwd=d + "/harness", env=env)
            built[race] = rc
            if rc: out.append("HARNESS " + o[:300])
        rc, o = sh([b, "check", c], env={"VH_DIR": d + "/vd", "TMPDIR": d + "/tmp", "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"})
        v = [l for l in o.split("\n") if l.startswith("VIOLATION")]
        res[c] = "caught" if rc == 1 and v else f"rc={rc} {o[-200:] if rc != 0 else ''}"
    sh("git checkout -q -- .", cwd=repo)
    if len(res) == 1: r = list(res.values())[0]
    else: r = "caught by " + " ".join(c for c in res if res[c] == "caught") + "".join(f" {c}:{res[c]}" for c in res if res[c] != "caught" and not res[c].startswith("rc=0"))
    return i, meta["property"], [r] + out + [why]

def main():
    if sys.argv[1] == "make":
        spec = importlib.util.spec_from_file_location("spec", sys.argv[2]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        d = lane_setup("m")
        ids = [x for x in (make(s, d + "/repo") for s in m.SEEDS) if x]
        print("made", len(ids), *ids)
        if not ids: return
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
    lanes = int(os.environ.get("LANES", "3"))
    checks = os.environ.get("CHECKS", "")
    if checks == "all": checks = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
    else: checks = checks.split()
    ds = [lane_setup(k) for k in range(lanes)]
    import queue
    q = queue.Queue()
    for d in ds: q.put(d)
    def one(i):
        d = q.get()
        try: return verify(i, d, checks)
        except Exception as e: return i, "?", [repr(e)]
        finally: q.put(d)
    with ThreadPoolExecutor(lanes) as ex:
        for i, p, o in ex.map(one, ids):
            print(i, p, " | ".join(x for x in o if x), flush=True)
main()
