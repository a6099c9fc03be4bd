#!/usr/bin/env python3
"""Runs one property's check: builds the harness against /repo's working tree in two
profiles (without and with debug assertions), searches generated cases with both, and
writes evidence/<ID>.json.

    check.py ID [quick|thorough]     exit 0: held; 1: VIOLATION; 2: no answer
    check.py replay FILE             re-runs one recorded case in both builds
    check.py setup                   builds everything once
"""
import hashlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
PROFILES = ["release", "assert"]
UNITS = {"C07", "C08", "C11", "C15", "C16", "C17", "C18"}


def features(prop):
    return "trk" if prop == "C09" else "units" if prop in UNITS else "cat"


RULES = {
    "hist": "A case is a generated history (1-160 operations, most of them expanded to several concrete changes, keys chosen from an "
    "adversarial pool, from stored keys and their neighbours) on one tree assembly. ",
}
H3 = "Non-trivial: at least three entries were stored at once and at least one entry of such a tree was removed, popped or replaced. "
RULE = {
    "C01": RULES["hist"] + H3 + "Every change and lookup answer is compared with an ordered-map model.",
    "C02": RULES["hist"] + H3 + "All four extreme accessors and both extreme removals are compared with the model after each operation.",
    "C03": RULES["hist"] + H3 + "All four neighbour queries are compared with the model at about twenty keys after each operation and at all stored keys and their neighbours periodically.",
    "C04": RULES["hist"] + H3 + "Additionally an entry that is neither minimum nor maximum was written through a mutable accessor.",
    "C05": RULES["hist"] + H3 + "Iteration under several front/back patterns, past the end, and through nth/rev/last/count/for_each/fold is compared with the model.",
    "C06": RULES["hist"] + H3 + "Size answers of trees and iterators are compared with the model's count.",
    "C07": "A case is a pair of keys of one shipped key type (all pairs of 8-bit types and all 16-bit keys enumerated, edge-biased otherwise); non-trivial: the two keys differ.",
    "C08": "A case is a generated history on one child collection. Non-trivial: at least three trees were stored at once and at least one tree was emptied.",
    "C09": RULES["hist"] + "Values (and, for tk* types, keys) are drop-tracked; two thirds of the tk* cases inject a panic into key code. Non-trivial: at least three entries stored and at least two values replaced or handed over, or a fault injected into a change.",
    "C10": "A case is a generated history replayed on every assembly with the same key order, compared answer by answer. Non-trivial: at least three entries were stored at once.",
    "C11": "A case is a generated history on a recursive tree over keys of 2^d bytes with counting key operations. Non-trivial: at least eight entries stored at once and an operation that used more than 3d key operations.",
    "C12": RULES["hist"] + "Non-trivial: a clone of a tree with at least three entries, followed by changes.",
    "C13": RULES["hist"] + "Every declining operation on it is bracketed by full observations. Non-trivial: a removal, deconstruction or query declined on a tree of at least three entries.",
    "C14": RULES["hist"] + "Non-trivial: the contents (at least three entries) were rebuilt along another route and a common continuation changed both trees.",
    "C15": "A case is a pair of bytes (all pairs enumerated) or a generated history on a byte set, each followed by queries for all 256 bytes. Non-trivial: at least three bytes stored at once and one removed, or two different bytes.",
    "C16": "A case is a generated history on one sequence container. Non-trivial: at least three elements at once and at least one removed (trees: emptied).",
    "C17": "A case is a list of values checked in all owned/borrowed combinations, and as keys handed out by seven tree types. Non-trivial: at least three values.",
    "C18": "A case is two bytes and a shift (all enumerated), or a generated chain of operations. Non-trivial: different bytes and a shift above zero, or a chain of at least three operations.",
    "C19": RULES["hist"] + H3 + "All parts are the harness's own and record how they are used; after every change the parts are compared with each other, and every answer with the model.",
}
ASSUME = [
    "stable toolchain and dependency versions of the sandbox",
    "keys, hashers and values of the harness obey the contracts of Ord, Eq, Hash and Clone (except where C09 injects panics)",
]


def say(*a):
    print(*a, flush=True)


def build(feats, wait=True):
    """Builds both profiles in parallel; returns {profile: binary}."""
    procs, bins = [], {}
    for p in PROFILES:
        target = os.path.join(HARNESS, "target", f"{feats}-{p}")
        cmd = ["cargo", "build", "--quiet", "--offline", "--locked", "--profile", p, "--no-default-features", "--features", feats]
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        procs.append((p, subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        bins[p] = os.path.join(target, p, "vebcheck")
    ok = True
    for p, q in procs:
        out, _ = q.communicate()
        if q.returncode != 0:
            ok = False
            say(f"build of the harness ({p}) failed:\n{out[-4000:]}")
    if not ok:
        sys.exit(2)
    return bins


def replay_one(binary, path, timeout=120):
    """0: holds, 1: fails, -n: died of a signal, None: no answer; and the output."""
    try:
        r = subprocess.run([binary, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "no answer within the time limit"
    return r.returncode, r.stdout.strip()


STUCK = 77  # exit status of a run that was stuck in one case for 60 s and found no violation elsewhere
CRASH = (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL)


def write_replay(prop, profile, seed, failure):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = f"property {prop}\nunit {failure['unit']}\nprofile {profile}\nseed {seed}\n{failure['case']}\n"
    body += "".join("# " + x + "\n" for x in failure["message"].splitlines())
    path = os.path.join(d, f"{prop}-{hashlib.sha1(body.encode()).hexdigest()[:12]}.txt")
    with open(path, "w") as f:
        f.write(body)
    return path


def crash_case(binary, prop, tier, seed, profile, limit):
    """The run died: repeats it with a trace of the case each thread is at, and tries those alone."""
    with tempfile.TemporaryDirectory(prefix="vebtrace") as d:
        try:
            subprocess.run([binary, "run", prop, tier, str(seed), profile, os.path.join(d, "out.json"), d], timeout=limit, stderr=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return None
        for n in sorted(os.listdir(d)):
            if not n.startswith("t"):
                continue
            text = open(os.path.join(d, n)).read()
            unit, _, case = text.partition("\n")
            p = os.path.join(d, "replay-" + n)
            with open(p, "w") as f:
                f.write(f"property {prop}\n{text}")
            rc, out = replay_one(binary, p, 60)
            if rc in CRASH:
                return {"unit": unit[5:], "case": case, "message": f"the process died of signal {-rc}: {out[-600:]}", "harness": False}
    return None


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    limit = 780 if tier == "quick" else 4 * 3600
    bins = build(features(prop))
    built = time.time() - t0
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE[prop] + " The same case under the two builds counts once per build.", "samples": []}
    classes, runs, violation, error = {}, {}, None, None
    # recorded cases of repaired defects first
    rdir = os.path.join(HERE, "regress")
    regress = sorted(f for f in os.listdir(rdir) if f.startswith(prop + "-")) if os.path.isdir(rdir) else []
    for f in regress:
        for p in PROFILES:
            path = os.path.join(rdir, f)
            rc, out = replay_one(bins[p], path)
            cov["evaluations"] += 1
            if rc == 1 or rc in CRASH:
                text = open(path).read()
                case = "".join(x + "\n" for x in text.splitlines() if x.split(" ")[0] not in ("property", "unit", "profile", "seed", "#"))
                unit = [x[5:] for x in text.splitlines() if x.startswith("unit ")][0]
                violation = violation or (p, {"unit": unit, "case": case, "message": f"recorded case {f}: {out[-1500:]}"})
            elif rc != 0:
                error = error or f"recorded case {f} gave no answer: {out[-500:]}"
    for p in PROFILES:
        if violation:
            break
        with tempfile.TemporaryDirectory(prefix="vebrun") as d:
            out = os.path.join(d, "out.json")
            t1 = time.time()
            try:
                left = limit - (time.time() - t0)
                r = subprocess.run([bins[p], "run", prop, tier, str(seed), p, out], timeout=max(left, 60), stderr=subprocess.PIPE, text=True)
                rc, err = r.returncode, r.stderr
            except subprocess.TimeoutExpired:
                error = f"the {p} run did not finish in time"
                break
            if rc == STUCK:
                # elapsed time is no oracle: no answer from this build, but the case is kept
                f = dict(json.load(open(out))["stuck"], message="this case, of a kind that takes some seconds at most, did not end within 60 s")
                error = error or f"{f['message']} ({f['unit']}): {write_replay(prop, p, seed, f)}"
                continue
            if rc in CRASH:
                f = crash_case(bins[p], prop, tier, seed, p, max(limit - (time.time() - t0), 60))
                if f:
                    cov["evaluations"] += 1
                    violation = (p, f)
                else:
                    error = f"the {p} run ended with status {rc}, but no single case reproduces it: {err[-600:]}"
                break
            if rc != 0:
                error = f"the {p} run ended with status {rc}: {err[-600:]}"
                break
            rep = json.load(open(out))
        cov["evaluations"] += rep["evaluations"]
        cov["distinct_nontrivial"] += rep["distinct"]
        cov["units"] = rep["units"]
        for k, v in rep["classes"].items():
            classes[k] = classes.get(k, 0) + v
        cov["samples"] += rep["samples"][:3]
        runs[p] = {"evaluations": rep["evaluations"], "distinct_nontrivial": rep["distinct"], "seconds": round(time.time() - t1, 1)}
        if rep["failure"]:
            if rep["failure"]["harness"]:
                error = f"{rep['failure']['unit']}: {rep['failure']['message']}\n{rep['failure']['case']}"
            else:
                violation = (p, rep["failure"])
    if tier == "thorough" and not violation and not error:
        violation, error, fz = fuzz(prop, seed)
        if fz:
            cov["coverage_guided"] = fz
            cov["evaluations"] += fz["executions"]
    cov["classes"] = classes
    cov["builds"] = runs
    cov["recorded_cases"] = len(regress)
    if error and not violation:
        say(f"{prop}: no answer: {error}")
    status = 0
    if violation:
        p, f = violation
        path = write_replay(prop, p, seed, f)
        say(f"{prop} [{p} build] {f['unit']}: {f['message']}")
        say(f"VIOLATION property={prop} replay={path}")
        status = 1
    elif error:
        status = 2
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    cov["build_seconds"] = round(built, 1)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", f"{prop}.json"))
    if status == 0:
        say(f"{prop}: held on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct non-trivial), {ev['wall_s']} s")
    return status


def fuzz(prop, seed):
    """Coverage-guided part of the thorough tier."""
    path = os.path.join(HERE, "fuzz.py")
    if not os.path.exists(path):
        return None, None, None
    import fuzz as fz

    return fz.campaign(prop, seed)


def main():
    a = sys.argv[1:]
    if a and a[0] == "setup":
        for f in ("cat", "trk", "units"):
            build(f)
        say("setup: harness built")
        return 0
    if len(a) == 2 and a[0] == "replay":
        text = open(a[1]).read()
        prop = [x.split()[1] for x in text.splitlines() if x.startswith("property ")][0]
        bins = build(features(prop))
        bad = False
        for p in PROFILES:
            rc, out = replay_one(bins[p], a[1])
            say(f"[{p}] status {rc}: {out}")
            bad |= rc != 0
        return 1 if bad else 0
    if a and a[0] in RULE:
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(a[0], tier)
    say(__doc__)
    return 2


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    sys.exit(main())
