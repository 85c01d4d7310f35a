#!/usr/bin/env python3
"""seed.py SPEC.py [ID...]: build planted bugs from a spec, confirm them in scratch
copies of /repo (compiles, stable tests pass, demo quiet without and loud with the
change) and run the property's quick check against the copy.

A spec defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo=<main.go or {name: text}>,
needs, breaks, run="go run -race" | "go run" (optional))]."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "5ca42db"
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local",
           GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
DEMO = '''#!/bin/bash
# Exit 0 if the property's promise holds in this demonstration, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp "$here"/*.go "$tmp"/
{ echo "module demo"; grep -v '^module ' "$repo/go.mod"; echo "require github.com/unsafe-risk/utilx v0.0.0"; echo "replace github.com/unsafe-risk/utilx => $repo"; } > "$tmp/go.mod"
cp "$repo/go.sum" "$tmp/go.sum"
cd "$tmp" || exit 3
@ENV@go build @FLAGS@ -o demo . || exit 3
@RUN@
'''


def sh(cmd, cwd, timeout=600, env=ENV):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"


def stable(copy):
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    got = set()
    pk = [p for p in sh(["go", "list", "-e", "./..."], copy)[1].split() if not p.endswith("/poolx/gopoolx")]
    for args in (pk, ["-cpu", "1", "./poolx/gopoolx"]):
        _, out = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "5m"] + args, copy)
        for l in out.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get("Action") == "pass" and e.get("Test"):
                got.add(e["Package"] + "/" + e["Test"])
    return sorted(want - got)


def one(s):
    sid = s["id"]
    d = os.path.join(VERIF, "seeded", sid)
    log = []
    work = tempfile.mkdtemp(prefix="seed-%s-" % sid)
    try:
        copy = os.path.join(work, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        for f, old, new in s["edits"]:
            p = os.path.join(copy, f)
            t = open(p).read()
            if old is None:  # the whole file
                open(p, "w").write(new)
                continue
            if t.count(old) != 1:
                return sid, "BAD edit: %d matches in %s: %r" % (t.count(old), f, old[:60])
            open(p, "w").write(t.replace(old, new))
        sh(["gofmt", "-l", "-w"] + sorted({e[0] for e in s["edits"]}), copy)
        _, diff = sh(["git", "diff"], copy)
        for f in {e[0] for e in s["edits"]}:
            # removed lines have to be the original repository's
            _, bl = sh(["git", "blame", "-s", "HEAD", "--", f], copy)
            orig = {i + 1 for i, l in enumerate(bl.splitlines()) if l.startswith("^") or l.startswith(BASE)}
            hunks = diff.split("diff --git a/" + f)[1].split("\ndiff --git")[0]
            n, rem, foreign = 0, 0, 0
            for l in hunks.splitlines():
                m = re.match(r"@@ -(\d+)", l)
                if m:
                    n = int(m.group(1))
                    continue
                if n == 0:
                    continue
                if l.startswith("-"):
                    rem += 1
                    if n not in orig:
                        foreign += 1
                if not l.startswith("+"):
                    n += 1
            log.append("removed %d, of those not original %d" % (rem, foreign))
            if rem - foreign < 1 and len({e[0] for e in s["edits"]}) == 1:
                return sid, "BAD changes no original line"
        rc, out = sh(["go", "build", "./..."], copy)
        if rc:
            return sid, "BAD does not build\n" + out
        missing = stable(copy)
        if missing:
            return sid, "BAD stable tests fail: %s" % missing
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        demo = s["demo"] if isinstance(s["demo"], dict) else {"main.go": s["demo"]}
        for k, v in demo.items():
            open(os.path.join(d, k), "w").write(v)
        if "demo.sh" not in demo:
            text = DEMO.replace("@FLAGS@", s.get("flags", "")).replace("@ENV@", s.get("env", "")).replace("@RUN@", s.get("run", "timeout 120 ./demo"))
            open(os.path.join(d, "demo.sh"), "w").write(text)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        for i in range(s.get("repeat", 2)):
            rc, out = sh(["bash", os.path.join(d, "demo.sh")], "/repo", 300)
            if rc:
                return sid, "BAD demo fails on the unchanged tree (%d)\n%s" % (rc, out[-1500:])
            rc, out = sh(["bash", os.path.join(d, "demo.sh")], copy, 300)
            if rc == 0 or rc == 3:
                return sid, "BAD demo passes with the patch (%d)\n%s" % (rc, out[-1500:])
        log.append("demo: " + out.strip()[-160:].replace("\n", " | "))
        res = []
        for p in [s["prop"]] + s.get("also", []):
            env = dict(ENV, VERIF_REPO_COPY=copy, VERIF_EVIDENCE_DIR=os.path.join(work, "ev"), VERIF_SEED="1")
            import time
            t = time.time()
            rc, out = sh(["python3", os.path.join(VERIF, "run.py"), p, "quick"], VERIF, 900, env)
            what = re.findall(r'^ "what": (.*)$', out, re.M)
            res.append("%s rc=%d %.0fs %s" % (p, rc, time.time() - t, (what or out.strip().splitlines()[-1:])[:1]))
        return sid, ("CAUGHT " if "rc=1" in res[0] else "MISSED ") + "; ".join(res) + "  [" + "; ".join(log) + "]"
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    if sys.argv[2:]:
        seeds = [s for s in seeds if s["id"] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        for sid, r in ex.map(one, seeds):
            print("%-28s %s" % (sid, r), flush=True)


main()
