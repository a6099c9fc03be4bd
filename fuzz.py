"""Coverage-guided part of the thorough tier: libFuzzer drives the generators of the random search.

    campaign(prop, seed) -> (violation or None, error or None, summary or None)
    python3 fuzz.py PROP [SECONDS]     one campaign by hand
"""
import json
import os
import subprocess
import sys
import tempfile
import random

HERE = os.path.dirname(os.path.abspath(__file__))
FUZZ = os.path.join(HERE, "fuzz")
WORKERS = 8


def build(feat):
    target = os.path.join(FUZZ, "target", feat)
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "+nightly", "fuzz", "build", "--fuzz-dir", FUZZ, "-s", "none", "--target-dir", target]
    cmd += ["--no-default-features", "--features", feat, "prop"]
    r = subprocess.run(cmd, cwd=FUZZ, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, r.stdout[-3000:]
    return os.path.join(target, "x86_64-unknown-linux-gnu", "release", "prop"), None


def campaign(prop, seed, seconds=900, runs=4_000_000):
    """Ends after `runs` executions per worker or `seconds`; the time only bounds the search, it judges nothing."""
    from check import features

    binary, err = build(features(prop))
    if not binary:
        return None, "the fuzz target does not build:\n" + err, None
    with tempfile.TemporaryDirectory(prefix="vebfuzz") as d:
        procs = []
        for w in range(WORKERS):
            wd = os.path.join(d, str(w))
            corpus = os.path.join(wd, "corpus")
            os.makedirs(corpus)
            rng = random.Random(f"{prop}/{seed}/{w}")
            for i in range(300):
                with open(os.path.join(corpus, f"seed{i}"), "wb") as f:
                    f.write(rng.randbytes(rng.choice([64, 256, 1024, 4096])))
            env = dict(os.environ, VEB_PROP=prop, VEB_FAILURE=os.path.join(wd, "failure"), VEB_COUNT=os.path.join(wd, "count"))
            cmd = [binary, "-use_value_profile=1", "-max_len=6000", "-len_control=0", "-rss_limit_mb=3600", "-timeout=60"]
            cmd += [f"-seed={1 + (seed * WORKERS + w) % 2**31}", f"-runs={runs}", f"-max_total_time={seconds}", f"-artifact_prefix={wd}/", corpus]
            log = open(os.path.join(wd, "log"), "w")
            procs.append((wd, subprocess.Popen(cmd, cwd=wd, env=env, stdout=log, stderr=log)))
        out = {"executions": 0, "distinct_nontrivial": 0, "workers": WORKERS, "edges": 0, "corpus": 0, "engine": "libFuzzer, value profile"}
        violation = error = None
        for wd, p in procs:
            rc = p.wait()
            log = open(os.path.join(wd, "log"), errors="replace").read()
            try:
                n, good = open(os.path.join(wd, "count")).read().split()
                out["executions"] += int(n)
                out["distinct_nontrivial"] += int(good)
            except (OSError, ValueError):
                pass
            out["corpus"] += len(os.listdir(os.path.join(wd, "corpus")))
            for line in log.splitlines():
                if " cov: " in line:
                    out["edges"] = max(out["edges"], int(line.split(" cov: ")[1].split()[0]))
            if rc == 0:
                continue
            try:
                f = json.load(open(os.path.join(wd, "failure")))["failure"]
            except (OSError, ValueError):
                f = None
            if f and not f["harness"]:
                violation = violation or ("fuzz", f)
            elif f:
                error = error or f"{f['unit']}: {f['message']}\n{f['case']}"
            else:
                error = error or f"a fuzz worker ended with status {rc}: {log[-1500:]}"
    return violation, None if violation else error, out


if __name__ == "__main__":
    print(campaign(sys.argv[1], int(os.environ.get("VERIF_SEED", "1")), int(sys.argv[2]) if len(sys.argv) > 2 else 900))
