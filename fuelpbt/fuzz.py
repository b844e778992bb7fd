"""Coverage-guided fuzzing (libFuzzer) of whole sessions: harness/fuzz.cpp."""
import glob
import os
import random
import re
import subprocess

from . import build

ENV = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0", "UBSAN_OPTIONS": "print_stacktrace=1"}


def binary():
    return build._build("fuzz", "build_fuzz.sh", "fuzz")


def fails(exe, path, timeout=60):
    """-> None or what went wrong"""
    p = subprocess.run([exe, "-timeout=%d" % timeout, "-rss_limit_mb=4000", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, **ENV))
    out = p.stdout.decode("latin-1")
    if p.returncode == 0 or "out-of-memory" in out:
        return None
    i = re.search(r"(==\d+== ?ERROR|runtime error|terminate called|ERROR: libFuzzer)", out)
    return out[max(0, i.start() - 200) if i else 0:][:4000]


def campaign(tmp, seed, runs, procs, corpus, max_time):
    """-> (statistics, (bytes, detail) or None)"""
    exe = binary()
    ps = []
    for k in range(procs):
        d = os.path.join(tmp, "fuzz%d" % k)
        os.makedirs(os.path.join(d, "corpus"))
        os.makedirs(os.path.join(d, "found"))
        for i, t in enumerate(corpus[k::procs]):
            with open(os.path.join(d, "corpus", "seed%d" % i), "wb") as f:
                f.write(t)
        with open(os.path.join(d, "log"), "wb") as log:
            ps.append((d, subprocess.Popen([exe, os.path.join(d, "corpus"), "-seed=%d" % (seed * 64 + k + 1), "-runs=%d" % runs, "-max_total_time=%d" % max_time, "-max_len=700",
                                            "-timeout=90", "-rss_limit_mb=3500", "-artifact_prefix=" + os.path.join(d, "found", ""), "-print_final_stats=1"],
                                           stdout=log, stderr=subprocess.STDOUT, cwd=d, env=dict(os.environ, FUZZ_STATS=os.path.join(d, "stats"), **ENV))))
    stats = {"runs": 0, "fragments": 0, "values": 0, "errors": 0, "limited": 0, "skipped": 0, "ended by memory limit": 0}
    found, covered, inputs, samples = [], 0, 0, []
    for d, p in ps:
        p.wait()
        try:
            with open(os.path.join(d, "stats")) as f:
                for l in f:
                    n, v = l.split()
                    stats[n] += int(v)
        except OSError:
            pass
        with open(os.path.join(d, "log"), "rb") as f:
            log = f.read().decode("latin-1")
        cov = re.findall(r"cov: (\d+)", log)
        covered = max(covered, int(cov[-1]) if cov else 0)
        inputs += len(os.listdir(os.path.join(d, "corpus")))
        for a in sorted(os.listdir(os.path.join(d, "found"))):
            if a.startswith(("crash-", "timeout-")):
                found.append(os.path.join(d, "found", a))
            elif a.startswith("oom-"):
                stats["ended by memory limit"] += 1
    stats["code edges covered (best process)"] = covered
    stats["inputs kept because they reach new code"] = inputs
    rng = random.Random("fuzz%s" % seed)
    kept = sorted(glob.glob(os.path.join(ps[0][0], "corpus", "*")))
    for q in rng.sample([x for x in kept if "seed" not in os.path.basename(x)] or kept, min(3, len(kept))):
        with open(q, "rb") as f:
            samples.append(f.read().decode("latin-1"))
    stats["samples"] = samples
    failure = None
    for path in found:
        if all(fails(exe, path) for _ in range(3)):
            small = path
            if "crash-" in path:
                m = os.path.join(tmp, "minimized")
                subprocess.run([exe, "-minimize_crash=1", "-max_total_time=60", "-runs=3000", "-exact_artifact_path=" + m, path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=tmp, env=dict(os.environ, **ENV))
                if os.path.exists(m) and all(fails(exe, m) for _ in range(3)):
                    small = m
            with open(small, "rb") as f:
                failure = (f.read(), fails(exe, small) or "")
            break
        stats["unconfirmed"] = stats.get("unconfirmed", 0) + 1
    return stats, failure
