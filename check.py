#!/usr/bin/env python3
"""Decide one property:  python3 check.py ID quick|thorough
Re-run a stored case:   python3 check.py --replay FILE

Builds harness/ against the current tree of /repo in a temporary directory, runs the generated
cases in parallel shards, merges what they covered into evidence/ID.json and, on a failure that a
fresh process confirms, prints "VIOLATION property=ID replay=PATH" and exits 1.
"""
import array
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
EVID = os.path.join(ROOT, "evidence")
REPO = "/repo"
NSHARDS = 8
RACE_IDS = {"I10"}
CPU_LIMIT = {"quick": 500, "thorough": 3000}     # seconds of CPU per shard, far above what a shard uses
EXIT_HANG, EXIT_MEM = 97, 98


def environment():
    env = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", "set -a; . /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                env[k.decode()] = v.decode("utf-8", "replace")
    except OSError:
        pass
    for k in list(env):
        if k.startswith("RAPID_"):
            del env[k]
    env["GOFLAGS"] = "-mod=mod"
    env.setdefault("GOPROXY", "off")
    env["GOWORK"] = "off"
    env["GOTOOLCHAIN"] = "local"
    return env


ENV = environment()


def build(tmp, race):
    """Build the harness from a copy, so that nothing is written into /verif or /repo."""
    src = os.path.join(tmp, "src")
    shutil.copytree(HARNESS, src)
    out = os.path.join(tmp, "hv")
    cmd = ["go", "build", "-trimpath", "-o", out]
    if race:
        cmd.append("-race")
    cmd.append(".")
    p = subprocess.run(cmd, cwd=src, env=ENV, capture_output=True, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout + p.stderr)
        print("ERROR: the harness does not build against /repo")
        sys.exit(2)
    return out


def limits(cpu):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()
    return f


def start(cmd, cwd, cpu, log, env):
    return subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log, preexec_fn=limits(cpu))


def read_cur(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
        n = int.from_bytes(b[:8], "little")
        return json.loads(b[8:8 + n]) if n else None
    except (OSError, ValueError):
        return None


def replay_case(hv, stored, tmp, env, times=1):
    """Run one stored case in new processes. Returns (failed, text)."""
    path = os.path.join(tmp, "replay-case.json")
    with open(path, "w") as f:
        json.dump(stored, f)
    text = ""
    for _ in range(times):
        wd = tempfile.mkdtemp(dir=tmp)
        p = subprocess.Popen([hv, "replay", path], cwd=wd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, preexec_fn=limits(200))
        out = p.communicate()[0].decode("utf-8", "replace")
        kill_group(p)
        text = out
        if p.returncode == 0:
            continue
        if p.returncode == 2 and "goroutine " not in out and "fatal error" not in out and "panic" not in out:
            continue
        return True, out
    return False, text


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def run_shards(hv, prop, tier, seed, tmp, env, shards, tag="s", sub=None):
    procs = []
    for k in shards:
        d = os.path.join(tmp, "%s%d" % (tag, k))
        os.makedirs(d)
        log = open(os.path.join(d, "log"), "wb")
        cmd = [hv, "run", "-id", prop, "-tier", tier, "-shard", str(k), "-nshards", str(NSHARDS), "-seed", str(seed), "-dir", d]
        if sub:
            cmd += ["-sub", sub]
        procs.append((k, d, start(cmd, d, CPU_LIMIT[tier], log, env)))
    res = []
    for k, d, p in procs:
        rc = p.wait()
        kill_group(p)
        st = None
        try:
            with open(os.path.join(d, "stats.json")) as f:
                st = json.load(f)
        except (OSError, ValueError):
            pass
        with open(os.path.join(d, "log"), "rb") as f:
            log = f.read().decode("utf-8", "replace")
        res.append(dict(shard=k, dir=d, rc=rc, stats=st, log=log))
    return res


def known_findings():
    """Lines 'known: property=ID sub=SUB match=REGEX :: text' of known_findings.txt; 'fixed:' lines suppress nothing."""
    out = []
    try:
        with open(os.path.join(ROOT, "known_findings.txt"), encoding="utf-8") as f:
            for line in f:
                m = re.match(r"known: property=(\S+) sub=(\S+) match=(.*?) :: (.*)$", line.strip())
                if m:
                    out.append(m.groups())
    except OSError:
        pass
    return out


def main():
    args = sys.argv[1:]
    if len(args) == 2 and args[0] == "--replay":
        return do_replay(args[1])
    if len(args) != 2 or args[1] not in ("quick", "thorough"):
        sys.stderr.write(__doc__)
        return 2
    prop, tier = args
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="hv-%s-" % prop)
    try:
        return decide(prop, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def child_env(tmp, prop):
    env = dict(ENV)
    home = os.path.join(tmp, "home")
    os.makedirs(home, exist_ok=True)
    env["HV_TMP"] = tmp
    env["HV_ROOT"] = ROOT
    env["TMPDIR"] = tmp
    if prop in RACE_IDS:
        env["GORACE"] = "halt_on_error=1 exitcode=66"
        env["GOMAXPROCS"] = "4"
    return env


def decide(prop, tier, seed, tmp, t0):
    hv = build(tmp, prop in RACE_IDS)
    env = child_env(tmp, prop)
    tb = time.time()
    res = run_shards(hv, prop, tier, seed, tmp, env, range(NSHARDS))
    evaluations = nontrivial = skipped = 0
    classes, samples, rules, hashes = {}, [], {}, set()
    per_sub = {}
    fails, crashes, errors = [], [], []
    for r in res:
        st = r["stats"]
        if st is None or r["rc"] != 0:
            if r["rc"] in (2, EXIT_HANG, EXIT_MEM, 66) or r["rc"] < 0:
                cur = read_cur(os.path.join(r["dir"], "cur"))
                if cur is not None:
                    crashes.append((r, cur))
                    continue
            errors.append("shard %d: exit %s\n%s" % (r["shard"], r["rc"], r["log"][-3000:]))
            continue
        for sub, s in st["subs"].items():
            evaluations += s["evaluations"]
            skipped += s["skipped"]
            nontrivial += s["nontrivial"]
            ps = per_sub.setdefault(sub, {"evaluations": 0, "nontrivial": 0, "skipped": 0})
            for k in ps:
                ps[k] += s[k]
            rules[sub] = s["rule"]
            for k, v in (s["classes"] or {}).items():
                classes[sub + ":" + k] = classes.get(sub + ":" + k, 0) + v
            samples += [json.dumps({"sub": x["sub"], "case": x["case"]}, ensure_ascii=False)[:1500] for x in s["samples"] or []]
        try:
            a = array.array("Q")
            with open(os.path.join(r["dir"], "hashes"), "rb") as f:
                a.frombytes(f.read())
            hashes.update(a)
        except OSError:
            pass
        if st["fail"]:
            fails.append((r, st["fail"]))
    known = [k for k in known_findings() if k[0] == prop]
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    fails = [(r, f) for r, f in fails
             if not any(f["sub"] == k[1] and re.search(k[2], f["error"]) for k in known)]
    # deterministic choice: smallest failing case first
    fails.sort(key=lambda rf: len(json.dumps(rf[1])))
    violation = None
    if fails:
        r, f = fails[0]
        ok, _ = replay_case(hv, f, tmp, env, times=5)
        if ok:
            violation = dict(f)
        else:
            # depends on the cases before it in its shard: the shard is the reproduction
            violation = dict(f, shard=r["shard"], nshards=NSHARDS, seed=seed, tier=tier,
                             note="the case alone passes in a new process; the failure needs the cases that ran before it in this shard")
    elif crashes:
        unconfirmed = []
        for r, cur in crashes[:3]:
            what = {EXIT_HANG: "does not end", EXIT_MEM: "runs out of memory", 66: "data race"}.get(r["rc"], "process crashed")
            ok, text = replay_case(hv, cur, tmp, env, times=8 if r["rc"] == 66 else 2)
            err = "%s (exit %s)\n%s" % (what, r["rc"], excerpt(text if ok else r["log"]))
            if ok:
                violation = dict(cur, error=err)
                break
            if r["rc"] == 66 and "DATA RACE" in r["log"]:
                violation = dict(cur, error=err, shard=r["shard"], nshards=NSHARDS, seed=seed, tier=tier)
                break
            again = run_shards(hv, prop, tier, seed, tmp, env, [r["shard"]], tag="again")
            if again[0]["rc"] == r["rc"] and again[0]["rc"] != -signal.SIGKILL:
                violation = dict(cur, error=err, shard=r["shard"], nshards=NSHARDS, seed=seed, tier=tier,
                                 note="needs the cases that ran before it in this shard")
                break
            shutil.rmtree(os.path.join(tmp, "again%d" % r["shard"]), ignore_errors=True)
            unconfirmed.append("shard %d: exit %s, not reproduced\n%s" % (r["shard"], r["rc"], r["log"][-2000:]))
        if violation is None:
            errors += unconfirmed
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": " || ".join("%s: %s" % (k, rules[k]) for k in sorted(rules)) or "no shard finished",
            "samples": samples[:6] or ["(none)"],
            "per_check": per_sub,
            "outside_domain": skipped,
            "classes": dict(sorted(classes.items())),
            "shards": NSHARDS,
            "search_wall_s": round(time.time() - tb, 2),
        },
        "assumptions": ["the reference models in harness/ state the documented behaviour", "random search does not establish absence"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    if violation:
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s-%d.json" % (prop, violation["sub"], seed))
        with open(path, "w", encoding="utf-8") as f:
            json.dump(violation, f, indent=1, ensure_ascii=False)
            f.write("\n")
        print("sub-check: %s\ncase: %s\nerror: %s" % (violation["sub"], json.dumps(violation.get("case"), ensure_ascii=False)[:3000],
                                                     violation.get("error", "")[:4000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("ERROR: " + "\n".join(errors))
        return 2
    print("OK property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d wall=%.1fs" % (
        prop, tier, seed, evaluations, len(hashes), time.time() - t0))
    return 0


def excerpt(text):
    lines = text.strip().splitlines()
    return "\n".join(lines[:25])


def do_replay(path):
    with open(path, encoding="utf-8") as f:
        s = json.load(f)
    prop = s["property"]
    tmp = tempfile.mkdtemp(prefix="hv-replay-")
    try:
        hv = build(tmp, prop in RACE_IDS)
        env = child_env(tmp, prop)
        if "shard" in s:
            r = run_shards(hv, prop, s["tier"], s["seed"], tmp, env, [s["shard"]])[0]
            bad = r["rc"] != 0 or (r["stats"] or {}).get("fail")
            print(json.dumps((r["stats"] or {}).get("fail"), indent=1) if bad else "PASS")
            print(r["log"][-2000:])
        else:
            bad, text = replay_case(hv, {k: s[k] for k in ("property", "sub", "case")}, tmp, env)
            print(text)
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
