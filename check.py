#!/usr/bin/env python3
"""Runs the check of one property: builds the harness against /repo's working
tree, replays the saved cases, explores, and writes the evidence file.

    check.py P07 [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: held on everything explored. 1: violated (VIOLATION line). 2: no answer.
"""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shutil, signal
import subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
NCPU = os.cpu_count() or 4

# Properties whose cases are concurrent: built with the race detector, and the
# number of processes and of cores each may use.
RACE = {"P08", "P10", "P11", "P13", "P20", "P22", "P26", "P28"}
SHARDS = {"P11": 4}

# By how much the basic number of cases of each property is multiplied.
CASES = {"P02": 6, "P06": 8, "P07": 10, "P08": 1, "P09": 24, "P10": 2, "P11": 2, "P12": 10, "P13": 1, "P14": 20, "P15": 8, "P16": 8,
         "P18": 6, "P20": 4, "P21": 12, "P22": 2, "P25": 8, "P26": 5, "P27": 12, "P28": 1, "P29": 4, "P30": 1, "P35": 12}
DEFAULT_CASES = 4
DEFAULT_SHARDS = 8

# A thorough run is spread over so many processes, one after another, for each
# that runs at a time: the workers of every agent that was ever started stay.
WAVES = 4
BUDGET = {"quick": 150, "thorough": 640}  # seconds, after which no more cases are begun

EXIT_HANG, EXIT_HARNESS, EXIT_SLOW, EXIT_RACE = 71, 72, 73, 66


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("VERIF_", "RAPID")) or k in ("GODEBUG", "GOMAXPROCS", "GOGC", "GOMEMLIMIT", "GORACE", "GOTRACEBACK"):
            del e[k]
    go = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(go):
        e["PATH"] = go + ":" + e.get("PATH", "/usr/bin:/bin")
    e.update(HOME=e.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly",
             GOWORK="off", GOTRACEBACK="all", LANG="C.UTF-8")
    cache = "/root/.cache/go-build"
    try:
        os.makedirs(cache, exist_ok=True)
        with tempfile.TemporaryFile(dir=cache):
            pass
    except OSError:
        cache = os.path.join(VERIF, "build", "gocache")
    e["GOCACHE"] = cache
    if os.path.isdir("/root/go/pkg/mod"):
        e["GOMODCACHE"] = "/root/go/pkg/mod"
    return e


ENV = env()


class NoAnswer(Exception):
    pass


def build(race):
    out = os.path.join(VERIF, "build", "checks-race.test" if race else "checks.test")
    out += ".%d" % os.getpid()
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + ["./checks"]
    p = subprocess.run(cmd, cwd=HARNESS, env=ENV, capture_output=True, text=True)
    if p.returncode != 0:
        raise NoAnswer("the harness does not build:\n" + p.stdout + p.stderr)
    return out


class Result:
    def __init__(self, rc, out, work):
        self.rc, self.out, self.work = rc, out, work

    def read(self, name):
        try:
            with open(os.path.join(self.work, name)) as f:
                return json.load(f)
        except FileNotFoundError:
            return None
        except ValueError:
            return None

    def journal(self):
        try:
            with open(os.path.join(self.work, "journal")) as f:
                head, body = f.read().split("\n", 1)
            part, idx = head.rsplit(" ", 1)
            return part, int(idx), json.loads(body)
        except (OSError, ValueError):
            return None


def run(exe, prop, work, timeout, **vars):
    """Runs the test binary in its own process group."""
    os.makedirs(work, exist_ok=True)
    e = dict(ENV, VERIF_PROP=prop, VERIF_WORK=work, TMPDIR=work,
             GOMEMLIMIT="2000MiB", GORACE="halt_on_error=1 exitcode=%d" % EXIT_RACE)
    e.update({k: str(v) for k, v in vars.items()})
    log = os.path.join(work, "log")
    with open(log, "wb") as f:
        p = subprocess.Popen([exe, "-test.run=^TestVerif$", "-test.timeout=0"], cwd=work, env=e,
                             stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    with open(log, errors="replace") as f:
        out = f.read(4 << 20)
    return Result(rc, out, work)


CRASH = re.compile(r"^(panic: |fatal error: |unexpected fault address|SIGSEGV|SIGBUS|SIGABRT|WARNING: DATA RACE|VERIF-HANG: )", re.M)


def crashed(r):
    """What the code under test did to the process, or None."""
    if r.rc in (0, 1, None, EXIT_HARNESS, EXIT_SLOW):
        return None
    if r.rc is not None and r.rc < 0:
        return None  # killed from outside
    m = CRASH.search(r.out)
    if not m:
        return None
    return r.out[m.start():m.start() + 4000]


class Check:
    def __init__(self, prop, tier, seed, scale, keep):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scale = scale * CASES.get(prop, DEFAULT_CASES)
        self.race = prop in RACE
        self.began = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.keep = keep
        self.known = []
        self.assume = []

    def work(self, name):
        d = os.path.join(self.tmp, name)
        os.makedirs(d, exist_ok=True)
        return d

    def replay(self, exe, file, repeat=1, name=None):
        """None if the case passes, else what fails."""
        r = run(exe, self.prop, self.work(name or "replay-" + os.path.basename(file)), 300,
                VERIF_REPLAY=os.path.abspath(file), VERIF_REPEAT=repeat)
        if r.rc == 0:
            return None
        m = re.search(r"^REPLAY-FAILS: (.*)", r.out, re.M | re.S)
        if r.rc == 1 and m:
            return m.group(1)[:2000]
        c = crashed(r)
        if c:
            return c
        raise NoAnswer("replaying %s: exit %s\n%s" % (file, r.rc, r.out[-3000:]))

    def violation(self, case, what):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        case["Error"] = what
        body = json.dumps(case, indent=1)
        name = "%s-%s.json" % (self.prop, hashlib.sha1(body.encode()).hexdigest()[:10])
        path = os.path.join(d, name)
        with open(path, "w") as f:
            f.write(body + "\n")
        print("%s: %s" % (case.get("Part"), what[:3000]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        return path

    def findings(self):
        """(replay file, text) of the known findings of this property."""
        l = []
        try:
            with open(os.path.join(VERIF, "known_findings.txt")) as f:
                for line in f:
                    m = re.match(r"known: property=(\S+) replay=(\S+) (.*)", line)
                    if m and m.group(1) == self.prop:
                        l.append((os.path.join(VERIF, m.group(2)), m.group(3)))
        except FileNotFoundError:
            pass
        return l

    def shards(self, exe, parallel, n, limit):
        budget = max(BUDGET[self.tier] * parallel // n, 1)
        with concurrent.futures.ThreadPoolExecutor(parallel) as ex:
            fs = [ex.submit(run, exe, self.prop, self.work("shard%d" % i), limit,
                            VERIF_SEED=self.seed, VERIF_TIER=self.tier, VERIF_SHARD="%d/%d" % (i, n),
                            VERIF_SCALE=self.scale, VERIF_BUDGET=budget) for i in range(n)]
            return [f.result() for f in fs]

    def isolate(self, exe, i, n, part, idx):
        """Re-runs a shard from the case that took the process down, each case
        in a process of its own, so that it can be made smaller."""
        r = run(exe, self.prop, self.work("isolate"), 60,
                VERIF_SEED=self.seed, VERIF_TIER=self.tier, VERIF_SHARD="%d/%d" % (i, n),
                VERIF_SCALE=self.scale, VERIF_SKIP="%s:%d" % (part, idx))
        return r.read("fail.json")

    def go(self):
        exe = build(self.race)
        self.exe = exe
        # 1. Minimal cases of defects found earlier.
        regress = sorted(glob.glob(os.path.join(VERIF, "regress", self.prop + "-*.json")))
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda f: self.replay(exe, f), regress))
        for f, what in zip(regress, res):
            if what:
                with open(f) as g:
                    self.violation(json.load(g), what)
                self.evidence(None, len(regress), 1)
                return 1
        # 2. Known findings: still there?
        for f, text in self.findings():
            if self.replay(exe, f):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, text), flush=True)
                self.known.append(text)
        # 3. Exploration.
        parallel = SHARDS.get(self.prop, DEFAULT_SHARDS)
        n = parallel * (WAVES if self.tier == "thorough" else 1)
        limit = 700 if self.tier == "quick" else 3600
        rs = self.shards(exe, parallel, n, limit)
        fails = [(len(json.dumps(c["Case"])), i, c) for i, r in enumerate(rs) if (c := r.read("fail.json"))]
        if fails:
            fails.sort(key=lambda f: f[:2])
            _, i, case = fails[0]
            what = case.get("Error", "")
            tmp = os.path.join(self.tmp, "candidate.json")
            first = rs[i].read("first.json") or case
            # Prefer the small case, unless only the one that failed first
            # fails again (schedules may differ between runs).
            for c in (case, first):
                with open(tmp, "w") as f:
                    json.dump(c, f)
                try:
                    again = self.replay(exe, tmp, repeat=5, name="candidate")
                except NoAnswer:
                    again = None
                if again:
                    case, what = c, again
                    break
            self.violation(case, what)
            self.evidence(rs, len(regress), 1)
            return 1
        for i, r in enumerate(rs):
            c = crashed(r)
            if not c:
                continue
            j = r.journal()
            if not j:
                raise NoAnswer("a process died before its first case:\n" + r.out[-3000:])
            part, idx, case = j
            if r.rc != EXIT_HANG:
                small = self.isolate(exe, i, n, part, idx)
                if small:
                    case, c = small, small.get("Error", c)
            self.violation(case, c)
            self.evidence(rs, len(regress), 1)
            return 1
        for i, r in enumerate(rs):
            if r.rc != 0 or r.read("stats.json") is None:
                raise NoAnswer("shard %d: exit %s\n%s" % (i, r.rc, r.out[-4000:]))
        self.evidence(rs, len(regress), 0)
        return 0

    def evidence(self, rs, nregress, violations):
        ev, nontrivial, parts, labels, counts, samples, rule = 0, set(), {}, {}, {}, [], ""
        for r in rs or []:
            s = r.read("stats.json")
            if not s:
                continue
            rule = s.get("Rule") or rule
            ev += s["Evaluations"]
            nontrivial.update(s["Nontrivial"] or [])
            for p, st in s["Parts"].items():
                q = parts.setdefault(p, dict(evaluations=0, nontrivial=0))
                q["evaluations"] += st["Evaluations"]
                q["nontrivial"] += st["Nontrivial"]
            for a, b in ((labels, s["Labels"]), (counts, s["Counts"])):
                for k, v in (b or {}).items():
                    a[k] = a.get(k, 0) + v
            samples += s["Samples"] or []
        if not rule:
            m = [p["Rule"] for p in json.loads(subprocess.run([self.exe], env=dict(ENV, VERIF_LIST="1"), capture_output=True, text=True).stdout) if p["ID"] == self.prop]
            rule = m[0] if m else ""
        # A few samples of each part, of different sizes.
        by = {}
        for s in samples:
            by.setdefault(s["Part"], []).append(s)
        chosen = []
        for p in sorted(by):
            l = sorted(by[p], key=lambda s: len(json.dumps(s["Case"])))
            chosen += [l[i] for i in sorted({0, len(l) // 2, len(l) - 1})]
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration",
                 coverage=dict(evaluations=ev + nregress, distinct_nontrivial=len(nontrivial), rule=rule,
                               samples=chosen, parts=parts, labels=dict(sorted(labels.items())),
                               totals=counts, saved_cases_replayed=nregress,
                               race_detector=self.race),
                 assumptions=ASSUMPTIONS,
                 wall_s=round(time.time() - self.began, 1), violations=violations)
        if self.known:
            e["coverage"]["known_findings_reproduced"] = self.known
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(e, f, indent=1)
            f.write("\n")
        os.replace(path + ".tmp", path)

    def close(self):
        if self.keep:
            print("work:", self.tmp)
        else:
            shutil.rmtree(self.tmp, ignore_errors=True)
        try:
            os.unlink(self.exe)
        except (OSError, AttributeError):
            pass


ASSUMPTIONS = [
    "the reference codecs in harness/ref state the SPOE and peers wire formats correctly",
    "Go toolchain, testing/synctest and pgregory.net/rapid work as documented",
    "exploration: no claim about cases that were not generated",
]


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a.add_argument("--scale", type=float, default=1.0)
    a.add_argument("--replay")
    a.add_argument("--keep", action="store_true")
    o = a.parse_args()
    c = Check(o.prop, o.tier, abs(o.seed) % (1 << 40), o.scale, o.keep)
    try:
        if o.replay:
            c.exe = build(c.race)
            what = c.replay(c.exe, o.replay, repeat=20 if c.race else 1)
            if what:
                print(what)
                print("VIOLATION property=%s replay=%s" % (o.prop, os.path.abspath(o.replay)))
                return 1
            print("passes")
            return 0
        return c.go()
    except NoAnswer as e:
        print("NO ANSWER:", e, file=sys.stderr)
        return 2
    finally:
        c.close()


if __name__ == "__main__":
    sys.exit(main())
