#!/usr/bin/env python3
"""Tries planted bugs in private copies of /repo and /verif (mount namespace).

    plant.py [--checks P01,P02] [--no-tests] [--seeds 1,2] [--keep] ID|PATCH ...

For each: does it apply, build, pass the stable tests, does demo.sh tell it
apart, and which checks catch it. Development tool: no check uses it.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IN_NS = r'''
set -e
mount --bind "$S/repo" /repo
mount --bind "$S/verif" /verif
mount --bind "$S/tmp" /tmp
'''


def sh(s, script, timeout, net=False):
    head = IN_NS + ("ip link set lo up\n" if net else "")
    cmd = ["unshare", "-Urmn" if net else "-Urm", "bash", "-c", head + "set +e\ncd /repo\n" + script]
    try:
        p = subprocess.run(cmd, env=dict(os.environ, S=s), capture_output=True, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        return None, "TIMEOUT " + str(e.output)[-500:]


def one(target, a):
    s = tempfile.mkdtemp(prefix="plant-", dir="/var/tmp")
    res = {"target": target}
    try:
        d = os.path.join(VERIF, "seeded", target)
        if os.path.isdir(d):
            patch, meta = os.path.join(d, "patch.diff"), json.load(open(os.path.join(d, "meta.json")))
            checks = a.checks or [meta["property"]]
            demo = os.path.join(d, "demo.sh")
        else:
            patch, checks, demo = target, a.checks, None
        subprocess.run(["cp", "-a", "/repo", s + "/repo"], check=True)
        os.makedirs(s + "/tmp"), os.makedirs(s + "/verif")
        subprocess.run("cp -a check.py harness findings known_findings.txt regress MANIFEST.json properties.jsonl %s/verif/" % s, shell=True, cwd=VERIF, check=True)
        if demo:
            shutil.copytree(d, s + "/tmp/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            if not a.no_tests:
                rc, out = sh(s, "bash /opt/vp/build.sh; timeout 300 bash /tmp/demo/demo.sh", 400)
                res["demo_clean"] = rc
                if rc != 0:
                    res["demo_clean_out"] = out[-1500:]
        p = subprocess.run(["git", "apply", patch], cwd=s + "/repo", capture_output=True, text=True)
        if p.returncode:
            res["apply"] = p.stderr
            return res
        rc, out = sh(s, "bash /opt/vp/build.sh", 300)
        res["build"] = rc
        if rc != 0:
            res["build_out"] = out[-2000:]
            return res
        if not a.no_tests:
            if demo:
                rc, out = sh(s, "timeout 300 bash /tmp/demo/demo.sh", 400)
                res["demo_patched"], res["demo_out"] = rc, out[-600:]
            for _ in range(2):
                rc, out = sh(s, "bash /opt/vp/test.sh /tmp/out.json", 600, net=True)
                try:
                    got = json.load(open(s + "/tmp/out.json"))
                    base = json.load(open("/opt/vp/BASELINE.json"))
                    ok = {k for k, v in flat(got).items() if v}
                    want = {k for k, v in flat(base).items() if v}
                    res["tests_missing"] = sorted(want - ok)
                except Exception as e:
                    res["tests_missing"] = [repr(e), out[-300:]]
                if not res["tests_missing"]:
                    break
        res["checks"] = {}
        for c in checks:
            for seed in a.seeds:
                rc, out = sh(s, "python3 /verif/check.py %s --tier %s --seed %s" % (c, a.tier, seed), 1000)
                m = re.search(r"^VIOLATION.*", out, re.M)
                res["checks"]["%s/%s" % (c, seed)] = (rc, bool(m), out[-a.tail:] if rc != 0 else "")
        return res
    finally:
        if a.save and os.path.isdir(s + "/verif/replays"):
            for n in os.listdir(s + "/verif/replays"):
                shutil.copy(s + "/verif/replays/" + n, a.save)
        if a.keep:
            print("kept", s)
        else:
            shutil.rmtree(s, ignore_errors=True)


def flat(x):
    """The baseline and the results are {"passed": [...]} or {name: status}."""
    for k in ("passed", "stable", "tests"):
        if isinstance(x.get(k), list):
            return {t if isinstance(t, str) else t["name"]: True for t in x[k]}
        if isinstance(x.get(k), dict):
            x = x[k]
            break
    return {k: v in (True, "pass", "passed", "ok") for k, v in x.items()}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--checks"), ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--seeds", default="1"), ap.add_argument("--keep", action="store_true")
    ap.add_argument("--tier", default="quick"), ap.add_argument("--tail", type=int, default=600)
    ap.add_argument("--save", help="copy the replay files there")
    ap.add_argument("targets", nargs="*")
    a = ap.parse_args()
    a.checks = a.checks.split(",") if a.checks else None
    a.seeds = a.seeds.split(",")
    ts = a.targets or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    for t in ts:
        r = one(t, a)
        good = r.get("build") == 0 and (a.no_tests or (r.get("demo_clean") == 0 and r.get("demo_patched") not in (0, None) and not r.get("tests_missing")))
        print("==", t, "VALID" if good else "INVALID", {k: ("CAUGHT" if v[0] == 1 and v[1] else "quiet" if v[0] == 0 else "RC%s" % v[0]) for k, v in r.get("checks", {}).items()})
        if not good:
            print(json.dumps({k: v for k, v in r.items() if k != "checks"}, indent=1)[:3000])
        for k, v in r.get("checks", {}).items():
            if v[2] and a.tail:
                print("   ", k, v[2].replace("\n", "\n      "))
        sys.stdout.flush()


main()
