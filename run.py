#!/usr/bin/env python3
"""run.py <PROPERTY> [quick|thorough]: build the check from /repo's working tree and run it.

exit 0: the property held on everything explored (KNOWN-FINDING lines possible)
exit 1: a line 'VIOLATION property=<id> replay=<path>'
other : no verdict (build failure, harness error, time limit)
"""
import concurrent.futures, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("VERIF_REPO_COPY", "/repo")  # another tree only for trying out planted bugs
GOROOT = "/opt/veriftools/go1.27.3"
TARGET = "github.com/unsafe-risk/utilx/"


def env(extra=None):
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = GOROOT + "/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off",
             GONOSUMDB="*", GOTELEMETRY="off", CGO_ENABLED="1")
    e.pop("GODEBUG", None)
    e.update(extra or {})
    return e


def go(args, extra=None, **kw):
    return subprocess.run([GOROOT + "/bin/go"] + args, cwd=HARNESS, env=env(extra), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


BUILDS = threading.Semaphore(12)


class Build:
    """One test binary: a package, race or not, with some packages instrumented."""

    def __init__(self, work, pkg, race, instr, tags="", clock=False, arch=""):
        self.work, self.pkg, self.race, self.instr, self.tags, self.clock = work, pkg, race, tuple(instr), tags, clock
        self.arch = arch
        self.key = "%s-%s-%d%s" % (pkg, "race" if race else "plain", abs(hash((self.instr, tags, clock))) % 10**8, arch)
        self.bin = os.path.join(work, self.key + ".test")
        self.log = ""
        self.ok = False
        self.plain = False

    def overlay(self, instr):
        d = tempfile.mkdtemp(prefix="ov", dir=self.work)
        r = subprocess.run([os.path.join(self.work, "instr"), "-repo", REPO, "-out", d] +
                           (["-clock", GOROOT + "/src/time"] if self.clock else []) + list(instr),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.log += r.stdout
        return os.path.join(d, "overlay.json") if r.returncode == 0 else None

    def attempt(self, instr):
        ov = self.overlay(instr)
        if ov is None:
            return False
        mod = tempfile.mkdtemp(prefix="mod", dir=self.work)  # go writes to it: one per build
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(self.work, f), mod)
        a = ["test", "-c", "-vet=off", "-modfile=" + os.path.join(mod, "go.mod"), "-overlay", ov, "-o", self.bin]
        if self.race:
            a.append("-race")
        if self.tags:
            a += ["-tags", self.tags]
        r = go(a + ["./checks/" + self.pkg], dict(GOARCH=self.arch, CGO_ENABLED="0") if self.arch else None)
        self.log += r.stdout
        return r.returncode == 0 and os.path.exists(self.bin)

    def run(self):
        with BUILDS:
            self.run1()

    def run1(self):
        self.ok = self.attempt(self.instr)
        if not self.ok and self.instr:
            # The instrumented form does not build: fall back to the plain one.
            self.plain = True
            self.ok = self.attempt(())


def prepare(work):
    with open(os.path.join(HARNESS, "go.mod")) as f, open(os.path.join(work, "go.mod"), "w") as g:
        g.write(f.read().replace("=> /repo\n", "=> %s\n" % REPO))
    shutil.copy(os.path.join(HARNESS, "go.sum"), work)
    r = go(["build", "-modfile=" + os.path.join(work, "go.mod"), "-o", os.path.join(work, "instr"), "./cmd/instr"])
    if r.returncode != 0:
        print(r.stdout)
        print("ERROR: instrumenter does not build")
        sys.exit(2)


def only_32(work):
    """What the compiler says when the module builds for this machine but not for 32-bit ones."""
    mod = tempfile.mkdtemp(prefix="mod", dir=work)
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), mod)
    a = [GOROOT + "/bin/go", "build", "-modfile=" + os.path.join(mod, "go.mod"), "./..."]
    kw = dict(cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if subprocess.run(a, env=env(), **kw).returncode:
        return ""
    r = subprocess.run(a, env=env(dict(GOARCH="386", CGO_ENABLED="0")), **kw)
    return r.stdout if r.returncode else ""


def has_target_frames(text):
    for l in text.splitlines():
        if TARGET in l and "utilx/zzvyield" not in l and not l.startswith("\t"):
            return True
    return False


def violation(pid, phase, what, text, replay_dir, seed, tier):
    os.makedirs(replay_dir, exist_ok=True)
    path = os.path.join(replay_dir, "%s-%s.json" % (pid, phase))
    with open(path, "w") as f:
        json.dump(dict(property=pid, phase=phase, seed=seed, tier=tier, what=what, report=text[-60000:],
                       rerun="cd /verif && VERIF_SEED=%s python3 run.py %s %s" % (seed, pid, tier)), f, indent=1)
    print(what)
    print(text[-5000:])
    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    return 1


def run_phase(pid, ph, build, work, tier, seed, evdir):
    """Returns (exit code, partial evidence or None)."""
    name = ph["name"]
    out = os.path.join(work, "out-%s.json" % name)
    scratch = os.path.join(work, "scratch-" + name)
    os.makedirs(scratch)
    replay_dir = os.path.join(evdir, "replay")
    extra = dict(VK_ID=pid, VK_PHASE=ph.get("as", name), VK_OUT=out, VK_REPLAY=replay_dir, VK_SCRATCH=scratch, VERIF_TIER=tier,
                 VERIF_SEED=str(seed), VK_KNOWN=os.path.join(VERIF, "known_findings.jsonl"), TMPDIR=scratch,
                 GOTRACEBACK="all", GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=4",
                 VK_REPO=REPO, VK_WORK=work)
    extra.update(ph.get("env", {}))
    cpus = sorted(os.sched_getaffinity(0))[:ph.get("cpus", 1 << 20)]

    def narrow():  # phases that ask for a small machine
        try:
            os.sched_setaffinity(0, cpus)
        except OSError:
            pass
    limit = ph.get("timeout", 420 if tier == "quick" else 6 * 3600)
    try:
        r = subprocess.run([build.bin, "-test.run=^TestCheck$", "-test.timeout=0", "-test.count=1"], cwd=scratch, env=env(extra),
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit,
                           preexec_fn=narrow if "cpus" in ph else None)
        code, so, se = r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        print((e.stdout or b"").decode(errors="replace")[-2000:])
        print("INCONCLUSIVE: phase %s ran into its %d s limit" % (name, limit))
        return 4, None
    part = None
    if os.path.exists(out):
        part = json.load(open(out))
        part["phase"] = name
    if code == 0:
        sys.stdout.write("".join(l + "\n" for l in so.splitlines() if l.startswith(("KNOWN-FINDING", "INFO", "not executed"))))
        return 0, part
    if code == 1 and "VIOLATION property=" in so:
        sys.stdout.write(so)
        return 1, part
    text = so + se
    if "WARNING: DATA RACE" in text:
        i = text.index("WARNING: DATA RACE")
        rep = text[i:].split("==================")[0]
        if has_target_frames(rep.replace("\n  ", "\n")):
            return violation(pid, name, "data race in the code under test", rep, replay_dir, seed, tier), part
        print(text[-6000:])
        print("ERROR: data race outside the code under test")
        return 3, part
    m = re.search(r"^(panic: |fatal error: |SIG|unexpected fault|checkptr)", text, re.M)
    if m and has_target_frames(text[m.start():]):
        return violation(pid, name, "the process crashed inside the code under test", text[m.start():], replay_dir, seed, tier), part
    print(text[-8000:])
    print("ERROR: phase %s ended with exit status %s" % (name, code))
    return 3, part


def merge(pid, tier, seed, parts, wall, viol, evdir):
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], phases={})
    rules, assume = [], []
    for p in parts:
        cov["evaluations"] += p["evaluations"]
        cov["distinct_nontrivial"] += p["distinct_nontrivial"]
        if p["rule"] not in rules:
            rules.append(p["rule"])
        cov["samples"] += (p["samples"] or [])[:1 if len(parts) > 8 else 4]
        cov["phases"][p["phase"]] = dict(evaluations=p["evaluations"], distinct_nontrivial=p["distinct_nontrivial"],
                                         observed=p["counts"], wall_s=round(p["wall_s"], 2), known_findings=p.get("known_findings") or [])
        assume += [a for a in (p["assumptions"] or []) if a not in assume]
    cov["rule"] = " ".join(rules)
    ev = dict(property=pid, tier=tier, seed=int(seed), level="exploration", coverage=cov, assumptions=assume,
              wall_s=round(wall, 2), violations=viol)
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        work = tempfile.mkdtemp(prefix="vk-setup-")
        try:
            prepare(work)
            subprocess.run([GOROOT + "/bin/go", "version"], env=env(), check=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return 0
    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    if not re.fullmatch(r"\d+", seed):
        seed = "1"
    pkg = pid.lower()
    evdir = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(VERIF, "evidence"))
    cfg = json.load(open(os.path.join(HARNESS, "checks", pkg, "check.json")))
    t0 = time.time()
    ev = os.path.join(evdir, pid + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    work = tempfile.mkdtemp(prefix="vk-%s-" % pid)
    try:
        prepare(work)
        phases = [p for p in cfg["phases"] if tier == "thorough" or not p.get("thorough_only")]
        if tier == "thorough" and "rounds" in cfg:  # the quick workloads, several times
            phases = [dict(p, name="%s-%d" % (p["name"], k + 1), seed=str(int(seed) + 1000 * k), tier="quick")
                      for k in range(cfg["rounds"]) for p in phases]
        only = os.environ.get("VK_ONLY")
        if only:
            phases = [p for p in phases if p["name"] in only.split(",")]
        builds = {}
        for p in phases:
            b = Build(work, p.get("check", pkg), p.get("race", False), p.get("instr", []), p.get("tags", ""), p.get("clock", False), p.get("arch", ""))
            p["_b"] = builds.setdefault(b.key, b)
        ths = {k: threading.Thread(target=b.run) for k, b in builds.items()}
        for t in ths.values():
            t.start()
        parts, codes = [], []

        def phase(p):
            ths[p["_b"].key].join()
            b = p["_b"]
            if 1 in codes:
                return
            if not b.ok and b.arch:
                said = only_32(work)
                if said:
                    codes.append(violation(pid, p["name"], "the module does not build for 32-bit machines", said,
                                           os.path.join(evdir, "replay"), seed, tier))
                    return
            if not b.ok:
                print(b.log[-6000:])
                print("ERROR: the check does not build against the current tree")
                codes.append(2)
                return
            if b.plain:
                print("INFO: instrumented build failed, using the plain one\n" + b.log[-1500:])
            rc, part = run_phase(pid, p, b, work, p.get("tier", tier), p.get("seed", seed), evdir)
            if part:
                parts.append((phases.index(p), part))
            codes.append(rc)
        with concurrent.futures.ThreadPoolExecutor(cfg.get("parallel", 1)) as ex:
            for x in [ex.submit(phase, p) for p in phases]:
                x.result()
        parts = [p for _, p in sorted(parts, key=lambda x: x[0])]
        code = 1 if 1 in codes else next((x for x in codes if x), 0)
        for t in ths.values():
            t.join()
        merge(pid, tier, seed, parts, time.time() - t0, 1 if code == 1 else 0, evdir)
        if code == 0:
            ne = sum(p["evaluations"] for p in parts)
            nd = sum(p["distinct_nontrivial"] for p in parts)
            if ne == 0 or nd == 0 or any(p["evaluations"] == 0 for p in parts):
                print("ERROR: a phase observed nothing")
                return 3
            print("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs" % (pid, tier, ne, nd, time.time() - t0))
        return code
    finally:
        shutil.rmtree(work, ignore_errors=True)


sys.exit(main())
