#!/usr/bin/env python3
"""Decide one property of /repo by contract-based verification.

usage: check.py PID [--tier quick|thorough]

1. the functions of /repo/src are extracted mechanically into a Verus crate and
   annotated with the contracts of /verif/contracts (extract/, EXTRACTION.md);
2. Verus discharges every obligation of every function (a function whose text
   is outside the verifier's reach is dropped to a trusted contract and named);
3. failing obligations are attributed to properties (see DESIGN.md, "From a
   failed obligation to an alarm");
4. a bounded search on the real crate looks for a failing input (replay of a
   failed obligation; stand-in for trusted and degraded functions).
"""
import fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RP_REPO", "/repo")
CPUS = os.cpu_count() or 4
T0 = time.time()
LIMIT = 780.0  # of the 900 s a check is given


def left():
    return LIMIT - (time.time() - T0)


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
def cache_dir():
    for d in (os.path.join(V, ".cache"), "/var/tmp/rp-verif-cache"):
        try:
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, ".w"), "w") as f:
                f.write("x")
            return d
        except OSError:
            continue
    return tempfile.mkdtemp(prefix="rp-cache-")


def cargo_build(crate, target, env_extra=None, timeout=400):
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_NET_OFFLINE"] = "true"
    env.update(env_extra or {})
    with open(target + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=crate, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def build_extractor():
    t = os.path.join(cache_dir(), "extract")
    rc, out = cargo_build(os.path.join(V, "extract"), t)
    if rc != 0:
        raise RuntimeError("extractor does not build:\n" + out[-3000:])
    return os.path.join(t, "release", "extract")


def build_harness():
    t = os.path.join(cache_dir(), "harness")
    crate = os.path.join(V, "harness")
    if REPO != "/repo":  # development only: the harness of a scratch copy
        c2 = os.path.join(cache_dir(), "harness-crate")
        shutil.rmtree(c2, ignore_errors=True)
        shutil.copytree(crate, c2, ignore=shutil.ignore_patterns("target"))
        p = os.path.join(c2, "Cargo.toml")
        s = open(p).read().replace('path = "/repo"', 'path = "%s"' % REPO)
        open(p, "w").write(s)
        crate, t = c2, t + "-dev"
    rc, out = cargo_build(crate, t)
    if rc != 0:
        raise RuntimeError("harness does not build against the repository:\n" + out[-3000:])
    return os.path.join(t, "release", "harness")


# ---------------------------------------------------------------- extraction
class Extraction:
    def __init__(self, exe, work, degraded):
        self.dir = os.path.join(work, "gen")
        shutil.rmtree(self.dir, ignore_errors=True)
        dl = os.path.join(work, "degraded.txt")
        with open(dl, "w") as f:
            f.write("".join(d + "\n" for d in sorted(degraded)))
        p = subprocess.run([exe, os.path.join(REPO, "src"), os.path.join(V, "contracts"), os.path.join(V, "spec"), self.dir, dl],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        if p.returncode != 0:
            raise RuntimeError("extraction failed: " + p.stdout[-2000:])
        self.fns = {}
        for l in open(os.path.join(self.dir, "functions.tsv")):
            k, f, line, st, loops, shape, h = l.rstrip("\n").split("\t")
            self.fns[k] = dict(file=f, line=int(line), status=st, loops=int(loops), shape=shape, hash=h)
        self.lost = [l.strip() for l in open(os.path.join(self.dir, "lost-anchors.txt")) if l.strip()]
        self.index()

    def index(self):
        """generated line ranges of the functions"""
        self.ranges = {}  # file -> [(start, end, key)]
        self.text = {}
        for root, _, fs in os.walk(self.dir):
            for f in fs:
                if not f.endswith(".rs"):
                    continue
                p = os.path.join(root, f)
                rel = os.path.relpath(p, self.dir)
                t = open(p).read()
                self.text[rel] = t
                cur, out = None, []
                for i, l in enumerate(t.split("\n"), 1):
                    for m in re.finditer(r"/\*@@fn (.*?)\*/|/\*@@end\*/", l):
                        if m.group(1):
                            cur = (i, m.group(1))
                        elif cur:
                            out.append((cur[0], i, cur[1]))
                            cur = None
                self.ranges[rel] = out

    def at(self, rel, line):
        for a, b, k in self.ranges.get(rel, []):
            if a <= line <= b:
                return k
        return None

    def body(self, key):
        f = self.fns[key]["file"]
        for a, b, k in self.ranges.get(f, []):
            if k == key:
                return "\n".join(self.text[f].split("\n")[a - 1:b])
        return ""


# --------------------------------------------------------------------- verus
def run_verus(gen, extra, timeout):
    cmd = ["verus", "--edition", "2018", "--crate-type", "lib", "lib.rs", "--num-threads", str(CPUS),
           "--error-format=json", "--output-json", "--time-expanded"] + extra
    t = time.time()
    p = subprocess.Popen(cmd, cwd=gen, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=max(5, timeout))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, [], time.time() - t
    try:
        js = json.loads(out)
    except ValueError:
        js = {}
    diags = []
    for l in err.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due"):
                diags.append(d)
        elif "panicked at" in l:
            diags.append({"message": "verus: " + l, "spans": [], "code": None, "level": "error", "rendered": l})
    return js, diags, time.time() - t


VERIF_MSG = re.compile(
    r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|arithmetic underflow|"
    r"arithmetic overflow|division by zero|bit shift|decreases not satisfied|could not prove termination|"
    r"loop ensures not satisfied|cannot prove|unable to prove|split|"
    r"recommendation not met|failed|might not|not satisfied|possible ")
LABEL = re.compile(r"/\*@((?:[A-Z]\d+,?)+)\*/")


class Failure:
    def __init__(self, ex, d):
        self.msg = d["message"]
        self.rendered = d.get("rendered") or self.msg
        sp = d.get("spans") or []
        pri = [s for s in sp if s.get("is_primary")] or sp
        self.loc = [(s["file_name"], s["line_start"], s["column_start"], s["line_end"], s["column_end"], bool(s.get("is_primary")), s.get("label") or "") for s in sp]
        self.clause = None  # span of the failed clause
        self.site = None    # span of the place where it fails
        self.fn = None
        self.labels = set()
        p = pri[0] if pri else None
        m = self.msg
        others = [s for s in sp if s is not p]
        if p is None:
            return
        if "precondition" in m:
            self.site = p
            for s in sp:
                if "failed precondition" in (s.get("label") or ""):
                    self.clause = s
            if self.clause is None and others:
                self.clause = others[0]
        elif "postcondition" in m:
            self.clause = p
            for s in sp:
                if "failed this postcondition" in (s.get("label") or ""):
                    self.clause = s
            ex_ = [s for s in sp if "exit" in (s.get("label") or "") or "end of" in (s.get("label") or "")]
            self.site = ex_[0] if ex_ else p
        elif "invariant" in m or "ensures" in m:
            self.clause = p
            self.site = p
        elif "assertion failed" in m:
            self.clause = p
            self.site = p
        else:
            self.site = p
        for s in [self.site] + sp:
            if s and s["file_name"] in ex.ranges:
                k = ex.at(s["file_name"], s["line_start"])
                if k:
                    self.fn = k
                    break
        if self.clause is not None and self.clause["file_name"] in ex.text:
            l = clause_head(ex.text[self.clause["file_name"]], self.clause)
            ml = LABEL.search(l)
            if ml:
                self.labels = set(ml.group(1).rstrip(",").split(","))
        if re.search(r"decreases|termination", m):
            self.kind = "termination"
            self.labels = {"C02"}
        elif self.labels:
            self.kind = "labelled"
        elif self.clause is None:
            self.kind = "safety"      # overflow, division, shift, unreachable code
        elif "precondition" in m and self.clause["file_name"] not in ex.ranges:
            self.kind = "safety"      # precondition of a library function
        elif "precondition" in m and not ex.at(self.clause["file_name"], self.clause["line_start"]):
            self.kind = "safety"      # precondition stated in a specification file
        else:
            self.kind = "support"
        if self.kind == "safety":
            self.labels = {"C01"}

    def key(self):
        c = self.clause or self.site
        return (self.fn, self.kind, (c["file_name"], c["line_start"], c["column_start"]) if c else self.msg)

    def text(self, ex):
        c = self.clause or self.site
        if not c or c["file_name"] not in ex.text:
            return self.msg
        return cut(ex.text[c["file_name"]], c).strip()


def offs(text, line, col):
    """1-based line / 1-based character column -> index"""
    ls = text.split("\n")
    return sum(len(x) + 1 for x in ls[:line - 1]) + col - 1


def cut(text, s):
    return text[offs(text, s["line_start"], s["column_start"]):offs(text, s["line_end"], s["column_end"])]


def clause_head(text, s):
    """the source line of a clause up to the clause (where its label stands)"""
    a = offs(text, s["line_start"], s["column_start"])
    b = text.rfind("\n", 0, a) + 1
    return text[b:a] + text[a:a + 30]


# ------------------------------------------------------------------- harness
def harness_limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Search:
    """a bounded search for failing inputs, several processes with own seeds"""

    def __init__(self, exe, pid, seed, secs, procs, work, tag=""):
        self.exe, self.pid, self.secs = exe, pid, secs
        self.ps = []
        for i in range(procs):
            cur = os.path.join(work, "cur%s-%d" % (tag, i))
            open(cur, "w").close()
            p = subprocess.Popen([exe, "search", pid, str(seed * 1000 + i + 1), str(secs), cur], stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, text=True, preexec_fn=harness_limits)
            self.ps.append((p, cur))
        self.evals = self.distinct = 0
        self.samples = []
        self.found = None
        self.t0 = time.time()

    def wait(self):
        stuck = {}
        live = list(self.ps)
        while live and not self.found:
            time.sleep(0.1)
            for p, cur in list(live):
                rc = p.poll()
                if rc is None:
                    # an input that takes more than 25 s
                    try:
                        st = os.stat(cur)
                        sig = (st.st_mtime_ns, st.st_size)
                    except OSError:
                        continue
                    if stuck.get(cur, (None, 0))[0] != sig:
                        stuck[cur] = (sig, time.time())
                    elif time.time() - stuck[cur][1] > 25 and time.time() - self.t0 > 25:
                        p.kill()
                        p.communicate()
                        live.remove((p, cur))
                        self.suspect(cur, "does not terminate within 25 s")
                    continue
                out, _ = p.communicate()
                live.remove((p, cur))
                if rc == 0 and out.startswith("OK\t"):
                    _, n, d, s = out.rstrip("\n").split("\t", 3)
                    self.evals += int(n)
                    self.distinct += int(d)
                    self.samples.append(s)
                elif rc == 1 and out.startswith("FAIL"):
                    self.found = (open(cur, errors="surrogateescape").read(), out.strip())
                else:
                    self.suspect(cur, "the process ended abnormally (%s)" % rc)
        for p, _ in self.ps:
            if p.poll() is None:
                p.kill()
                p.communicate()
        return self.found

    def failed(self):
        """some process has reported an input already"""
        return any(p.poll() == 1 for p, _ in self.ps)

    def suspect(self, cur, why):
        """confirm a hang or crash in a process of its own"""
        try:
            p = subprocess.run([self.exe, "check", self.pid, cur], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               text=True, timeout=30, preexec_fn=harness_limits)
            if p.returncode == 0:
                return
            why = p.stdout.strip() or why
        except subprocess.TimeoutExpired:
            why = "FAIL does not terminate within 30 s"
        if self.pid in ("C01", "C02"):
            self.found = (open(cur, errors="surrogateescape").read(), why)


# ---------------------------------------------------------------------- main
def load_baseline():
    b = {}
    p = os.path.join(V, "baseline", "functions.tsv")
    if os.path.exists(p):
        for l in open(p):
            f = l.rstrip("\n").split("\t")
            b[f[0]] = dict(shape=f[5], status=f[3])
    return b


def tainted_functions(ex, base):
    """functions whose proof may fail because of how they are written now"""
    t = {}
    new = [k for k in ex.fns if k not in base]
    gone = [k for k in base if k not in ex.fns]
    names = {re.split(r"::", k)[-1] for k in new}
    for k, f in ex.fns.items():
        if k not in base:
            t[k] = "new function"
        elif f["shape"] != base[k]["shape"]:
            t[k] = "loops changed (%s, were %s)" % (f["shape"], base[k]["shape"])
    for l in ex.lost:
        m = re.search(r" (?:of|in) (\S.*)$", l)
        if m and m.group(1) in ex.fns:
            t.setdefault(m.group(1), "annotation lost: " + l)
    if names:
        pat = re.compile(r"\b(" + "|".join(map(re.escape, names)) + r")\b")
        for k in ex.fns:
            if k not in t and pat.search(ex.body(k)):
                t[k] = "calls a new function"
    return t, new, gone


def scan_trusted(ex):
    out = []
    for f, t in sorted(ex.text.items()):
        for m in re.finditer(r"external_body\]|assume_specification|\bassume\(|\badmit\(|verifier::external\]|external_type_specification|axiom fn", t):
            ln = t.count("\n", 0, m.start()) + 1
            s = " ".join(t[m.start():m.start() + 260].split())
            n = re.search(r"\bfn ([A-Za-z0-9_]+)|\[ *([^\]]+?) *\]\s*\(|struct ([A-Za-z0-9_]+)", s)
            out.append("%s:%d %s %s" % (f, ln, m.group(0).strip("](["), (n.group(1) or n.group(2) or n.group(3)) if n else ""))
    return out


class Verifier:
    def __init__(self, work, thorough):
        self.work, self.thorough = work, thorough
        self.exe = build_extractor()
        self.base = load_baseline()
        self.degraded = {}
        self.notes = []
        self.solver_s = 0.0
        self.runs = 0
        self.complete = False
        self.ex = None
        self.failures = []     # stable failures
        self.verified = self.errors = 0

    def extract(self):
        self.ex = Extraction(self.exe, self.work, self.degraded)
        self.taint, self.new, self.gone = tainted_functions(self.ex, self.base)

    def verus(self, extra=()):
        js, diags, t = run_verus(self.ex.dir, list(extra), left() - 30)
        self.solver_s += t
        self.runs += 1
        if js is None:
            self.notes.append("verus stopped after %.0f s (time limit)" % t)
            return None, []
        r = js.get("verification-results", {})
        self.verified, self.errors = r.get("verified", 0) or 0, r.get("errors", 0) or 0
        self.times = js.get("times-ms", {})
        log("verus: %s verified, %s errors, %d messages, %.1f s" % (self.verified, self.errors, len(diags), t))
        return r, diags

    def front_end(self):
        """until the generated crate is accepted: functions outside the reach
        of the verifier are dropped to their (trusted) contract"""
        for it in range(8):
            self.extract()
            r, diags = self.verus(["--no-verify"])
            if r is None:
                return False
            bad = [d for d in diags]
            if not bad and not r.get("encountered-vir-error"):
                return True
            keys = {}
            for d in bad:
                for s in d.get("spans") or []:
                    k = self.ex.at(s["file_name"], s["line_start"])
                    if k:
                        keys.setdefault(k, d["message"])
                        if s.get("is_primary"):
                            break
            keys = {k: m for k, m in keys.items() if k not in self.degraded}
            log("outside the verifier's reach:", keys or [d["message"] for d in bad][:3])
            if not keys:
                self.notes.append("the extracted crate is not accepted by the verifier: " + "; ".join(d["message"] for d in bad[:3]))
                return False
            for k, m in keys.items():
                self.degraded[k] = "outside the verifier's reach: " + m
        return False

    def prove(self, stop=lambda: False):
        if not self.front_end():
            return
        raised = False
        for it in range(6):
            if stop():
                self.notes.append("the proof was not finished: the bounded search has found a failing input")
                return
            r, diags = self.verus(["--multiple-errors", "8"] + (["--rlimit", "60"] if raised else []))
            if r is None:
                self.failures = []
                return
            if r.get("encountered-vir-error"):
                self.notes.append("verifier error: " + "; ".join(d["message"] for d in diags[:3]))
                self.failures = []
                return
            again = False
            fs = []
            for d in diags:
                f = Failure(self.ex, d)
                if re.search(r"[Rr]esource limit|rlimit|timed? ?out|solver", f.msg):
                    k = f.fn or "?"
                    log("resource limit in", k)
                    if raised and k in self.ex.fns:
                        self.degraded[k] = "resource limit"
                    again = True
                    continue
                if f.fn is None and f.clause is None and f.site is None:
                    self.notes.append("verifier message without a place: " + f.msg)
                    continue
                fs.append(f)
            self.failures = fs
            # unproved functions written in a way the annotations do not fit
            # are not evidence of anything: their contracts are assumed
            t = {f.fn for f in fs if f.fn in self.taint and f.fn not in self.degraded}
            if t:
                for k in t:
                    self.degraded[k] = "not proved as written now: " + self.taint[k]
                log("not proved, tainted:", sorted(t))
                self.failures = [f for f in fs if f.fn not in t]
                again = True
            if not again or left() < 200:
                break
            if t or raised:
                if not self.front_end():
                    self.failures = []
                    return
            raised = True
        self.complete = True


def vacuity(ver, thorough):
    """assert(false) at the start of every function under contract must fail:
    otherwise its precondition (or the ambient axioms) is contradictory"""
    ex = ver.ex
    probes = 0
    saved = {}
    for rel, rs in ex.ranges.items():
        t = ex.text[rel]
        saved[rel] = t
        ls = t.split("\n")
        for a, b, k in rs:
            f = ex.fns.get(k)
            if not f or f["status"] != "contract":
                continue
            seg = "\n".join(ls[a - 1:b])
            if "unimplemented!()" in seg and seg.count(";") <= 1:
                continue
            # the body opens on a line that consists of `{`
            for i in range(a - 1, b):
                if ls[i].startswith("{"):
                    ls[i] = "{ proof { assert(false); } " + ls[i][1:]
                    probes += 1
                    break
        open(os.path.join(ex.dir, rel), "w").write("\n".join(ls))
    ex.index()
    js, diags, t = run_verus(ex.dir, ["--multiple-errors", "1"], left() - 20)
    ver.solver_s += t
    failed = set()
    for d in diags:
        f = Failure(ex, d)
        if f.fn:
            failed.add(f.fn)
    for rel, t in saved.items():
        open(os.path.join(ex.dir, rel), "w").write(t)
    ex.index()
    return probes, failed


def clause_counts(ex, pid):
    n, fns = 0, set()
    for rel, t in ex.text.items():
        for m in re.finditer(r"/\*@((?:[A-Z]\d+,?)+)\*/", t):
            if pid in m.group(1).split(","):
                n += 1
                k = ex.at(rel, t.count("\n", 0, m.start()) + 1)
                if k:
                    fns.add(k)
    return n, sorted(fns)


def known_findings(pid):
    p = os.path.join(V, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) input=(\"(?:[^\"\\]|\\.)*\") (.*)", l)
            if m and m.group(1) == pid:
                out.append((json.loads(m.group(2)), m.group(3).strip()))
    return out


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    thorough = tier == "thorough"
    work = tempfile.mkdtemp(prefix="rp-check-")
    ev = os.path.join(V, "evidence")
    os.makedirs(ev, exist_ok=True)
    try:
        rc = decide(pid, tier, seed, thorough, work, ev)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def decide(pid, tier, seed, thorough, work, ev):
    exe = build_harness()
    log("harness built")
    search = Search(exe, pid, seed, 60 if thorough else 20, max(2, CPUS // 2), work)
    ver = Verifier(work, thorough)
    try:
        ver.prove(search.failed)
    except RuntimeError as e:
        ver.notes.append(str(e))
    found = search.wait()
    mine = [f for f in ver.failures if pid in f.labels and f.fn not in ver.taint and f.fn not in ver.degraded]
    if ver.degraded:
        log("degraded:", ver.degraded)
    for f in ver.failures:
        log("failed:", f.kind, sorted(f.labels), f.fn, "|", f.msg, "|", " ".join(f.text(ver.ex).split())[:120])
    evals, distinct, samples = search.evals, search.distinct, search.samples
    if not found and (mine or ver.degraded or ver.failures or thorough) and left() > 60:
        # look longer where the proof is not complete
        secs = min(left() - 40, 240 if thorough else 90)
        s2 = Search(exe, pid, seed + 7, secs, CPUS, work, "b")
        found = s2.wait()
        evals += s2.evals
        distinct += s2.distinct
        samples += s2.samples
    probes, refuted = 0, set()
    if thorough and ver.complete and not ver.failures and left() > 150:
        probes, refuted = vacuity(ver, thorough)
        log("vacuity: %d probes, %d functions refuted" % (probes, len(refuted)))
    lines, violations = [], 0
    known = known_findings(pid)
    replay = None
    if found:
        replay = os.path.join(ev, pid + ".replay.txt")
        open(replay, "w", errors="surrogateescape").write(found[0])
        info = [found[1], "replay: %s check %s %s" % (os.path.relpath(exe, V), pid, replay)]
        for f in mine:
            info += ["", "failed obligation in %s: %s" % (f.fn, f.msg), f.rendered]
        open(os.path.join(ev, pid + ".replay.info.txt"), "w").write("\n".join(info) + "\n")
        if any(k == found[0] for k, _ in known):
            pass
        else:
            lines.append("VIOLATION property=%s replay=%s" % (pid, replay))
            violations += 1
            print("  " + found[1][:400])
    elif mine:
        replay = os.path.join(ev, pid + ".replay.txt")
        with open(replay, "w") as o:
            for f in mine:
                o.write("failed obligation of %s (%s:%s)\n  %s\n  clause: %s\n%s\n" % (f.fn, ver.ex.fns.get(f.fn, {}).get("file"), ver.ex.fns.get(f.fn, {}).get("line"), f.msg, f.text(ver.ex), f.rendered))
        for f in mine[:5]:
            print("  failed obligation of %s: %s: %s" % (f.fn, f.msg, " ".join(f.text(ver.ex).split())[:200]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
        violations += 1
    for k, what in known:
        lines.append("KNOWN-FINDING: property=%s %s" % (pid, what))
    ex = ver.ex
    nclauses, cfns = clause_counts(ex, pid) if ex else (0, [])
    trusted = scan_trusted(ex) if ex else []
    under = [k for k, f in (ex.fns.items() if ex else []) if f["status"] == "contract"]
    cov = {
        "obligations": ver.verified + ver.errors,
        "discharged": ver.verified,
        "checker_cmd": "verus --edition 2018 --crate-type lib lib.rs (on the crate extracted from /repo/src; back end Z3)",
        "trusted_base": trusted,
        "functions_total": len(ex.fns) if ex else 0,
        "functions_under_contract": len(under),
        "clauses_stating_this_property": nclauses,
        "functions_stating_this_property": cfns,
        "verifier_runs": ver.runs,
        "solver_wall_s": round(ver.solver_s, 1),
        "degraded_to_bounded": ver.degraded,
        "lost_annotations": ex.lost if ex else [],
        "functions_new": getattr(ver, "new", []),
        "failed_obligations": ["%s: %s: %s" % (f.fn, f.msg, " ".join(f.text(ex).split())[:120]) for f in ver.failures],
        "vacuity_probes": probes,
        "vacuity_refuted": len(refuted),
        "bounded_search_evaluations": evals,
        "bounded_search_distinct": distinct,
        "bounded_search_samples": samples[:4],
        "notes": ver.notes,
    }
    proved = ver.complete and not ver.failures and not ver.degraded
    if not proved:
        cov["explanation"] = "not every obligation was discharged on this run; the functions listed are covered by the bounded search only"
    assumptions = [
        "the contracts marked external_body / assume_specification / assume in trusted_base (std, num, enum-iterator, f64 parsing, derived trait impls)",
        "the extraction rules of EXTRACTION.md preserve meaning",
        "source text shorter than 2 GiB; stack exhaustion by deep nesting and memory exhaustion are outside the model",
        "the bounded search is a cross-check of the real code, not part of the proof",
    ]
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assumptions,
               "wall_s": round(time.time() - T0, 1), "violations": violations}, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    for l in lines:
        print(l)
    log("done", "proved" if proved else "not fully proved", "violations", violations)
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
