"""Runs a property: generation over several processes, confirmation, shrinking, evidence."""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import queue
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import build, fuzz, model, shrink as shrinker
from .driver import Worker, Crash, Hang

VERIF = build.VERIF
PROCS = int(os.environ.get("FUEL_PROCS", "8"))


class Fail(Exception):
    """the property does not hold for this case"""


class Env(object):
    """what a property's check sees"""

    def __init__(self, binary, scratch, timeout=40.0):
        self.binary = binary
        self.scratch = scratch
        self.worker = Worker(binary, cwd=scratch, timeout=timeout)
        self.labels = collections.Counter()
        self.nontrivial_flag = False
        self._extra = {}

    def reset(self):
        self.labels = collections.Counter()
        self.nontrivial_flag = False

    def label(self, *names):
        for n in names:
            self.labels[n] += 1

    def nontrivial(self, cond=True):
        if cond:
            self.nontrivial_flag = True

    def fail(self, text):
        raise Fail(text)

    def expect(self, cond, text):
        if not cond:
            raise Fail(text)

    def subdir(self, name):
        p = os.path.join(self.scratch, name)
        shutil.rmtree(p, ignore_errors=True)
        os.makedirs(p)
        return p

    def close(self):
        self.worker.stop()


def load(pid):
    return importlib.import_module("fuelpbt.props." + pid.lower())


def case_rng(seed, pid, tier, i):
    return random.Random("%s/%s/%s" % (seed, pid, i))


def execute(mod, env, case):
    """-> (kind, text): 'ok' | 'skip' | 'fail' | 'error'"""
    env.reset()
    try:
        mod.check(env, case)
        return "ok", ""
    except model.OutOfDomain as e:
        return "skip", str(e)
    except Fail as e:
        return "fail", str(e)
    except Crash as e:
        return "fail", "the interpreter crashed: %s\n%s" % (e.what, e.stderr)
    except Hang as e:
        return "fail", "the interpreter does not answer: %s" % e
    except Exception:
        return "error", traceback.format_exc()


def case_hash(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).digest()


def worker_main(pid, binary, scratch, seed, tier, w, nprocs, total, deadline, outq, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    mod = load(pid)
    env = Env(binary, scratch)
    counts = collections.Counter()
    labels = collections.Counter()
    hashes = set()
    samples = []
    errors = []
    unconfirmed = []
    try:
        regress = getattr(mod, "REGRESS", [])
        fixed = getattr(mod, "enumerate_cases", None)
        fixed = list(fixed(tier)) if fixed else []
        pre = list(regress) + fixed
        for i in range(w, total + len(pre), nprocs):
            if stop.is_set():
                break
            if time.monotonic() > deadline:
                counts["time_cap"] += 1
                break
            if i < len(pre):
                case = pre[i]
                counts["enumerated"] += 1
            else:
                rng = case_rng(seed, pid, tier, i - len(pre))
                try:
                    case = mod.gen(rng, tier)
                except model.OutOfDomain:
                    counts["gen_discarded"] += 1
                    continue
                counts["generated"] += 1
            kind, text = execute(mod, env, case)
            if kind == "skip":
                counts["discarded"] += 1
                labels["discarded: " + text[:40]] += 1
                continue
            if kind == "error":
                errors.append((i, case, text))
                if len(errors) > 3:
                    break
                continue
            counts["run"] += 1
            for l in env.labels:
                labels[l] += 1
            if env.nontrivial_flag:
                counts["nontrivial"] += 1
                hashes.add(case_hash(case))
                if len(samples) < 3 and i >= len(pre):
                    samples.append(case)
            if kind == "fail":
                hist = list(getattr(env.worker, "last_history", None) or env.worker.history) \
                    if env.worker.proc is None else list(env.worker.history)
                hist = hist[-400:]
                again = os.path.join(scratch, "again")
                os.makedirs(again, exist_ok=True)
                if fails_once(mod, binary, again, case)[0] or fails_once(mod, binary, again, case, hist[:-1])[0]:
                    outq.put(("fail", w, i, case, text, hist))
                    stop.set()
                    break
                counts["unconfirmed"] += 1
                if len(unconfirmed) < 2:
                    unconfirmed.append((i, case, text))
    except Exception:
        errors.append((-1, None, traceback.format_exc()))
    finally:
        env.close()
        outq.put(("done", w, dict(counts), dict(labels), hashes, samples, errors, env.worker.total, unconfirmed))


def describe(mod, case):
    f = getattr(mod, "describe", None)
    if f:
        try:
            return f(case)
        except Exception:
            pass
    return default_describe(case)


def default_describe(case):
    if isinstance(case, dict) and isinstance(case.get("prog"), list):
        try:
            return [model.render(s) for s in case["prog"]]
        except Exception:
            pass
    return case


def fails_once(mod, binary, scratch, case, prefix=(), timeout=25.0):
    env = Env(binary, scratch, timeout=timeout)
    try:
        for fields in prefix:
            try:
                env.worker.raw(fields)
            except (Crash, Hang):
                pass
        kind, text = execute(mod, env, case)
        return (kind == "fail"), text
    finally:
        env.close()


def run(pid, tier, seed, replay=None):
    t0 = time.monotonic()
    mod = load(pid)
    binary = build.driver()
    if hasattr(mod, "prepare"):
        mod.prepare()
    tmp_root = tempfile.mkdtemp(prefix="fuelpbt-")
    try:
        return _run(pid, tier, seed, replay, t0, mod, binary, tmp_root)
    finally:
        shutil.rmtree(tmp_root, ignore_errors=True)


def _scratch(tmp_root, name):
    p = os.path.join(tmp_root, name)
    os.makedirs(p, exist_ok=True)
    return p


def _run(pid, tier, seed, replay, t0, mod, binary, tmp_root):
    if replay:
        with open(replay) as f:
            rec = json.load(f)
        if "fuzz" in rec:
            path = os.path.join(tmp_root, "input")
            with open(path, "wb") as f:
                f.write(bytes.fromhex(rec["fuzz"]))
            text = fuzz.fails(fuzz.binary(), path)
            if text:
                print(text)
                print("VIOLATION property=%s replay=%s" % (pid, replay))
                return 1
            print("the case passes")
            return 0
        bad, text = fails_once(mod, binary, _scratch(tmp_root, "r"), rec["case"], rec.get("prefix", ()))
        if bad:
            print(text)
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        print("the case passes: " + (text or "ok"))
        return 0

    total = mod.THOROUGH if tier == "thorough" else mod.QUICK
    scale = float(os.environ.get("FUEL_SCALE", "1"))
    total = int(total * scale)
    cap = getattr(mod, "CAP_" + tier.upper(), 120.0 if tier == "quick" else 1500.0)
    cap = float(os.environ.get("FUEL_CAP", cap))
    nprocs = getattr(mod, "PROCS", PROCS)
    deadline = time.monotonic() + cap
    ctx = multiprocessing.get_context("fork")
    outq = ctx.Queue()
    stop = ctx.Event()
    procs = []
    for w in range(nprocs):
        p = ctx.Process(target=worker_main, args=(pid, binary, _scratch(tmp_root, "w%d" % w), seed, tier, w, nprocs,
                                                  total, deadline, outq, stop))
        p.daemon = True
        p.start()
        procs.append(p)
    fails, errors, unconfirmed = [], [], []
    counts, labels = collections.Counter(), collections.Counter()
    hashes, samples = set(), []
    requests = 0
    done = set()
    while len(done) < nprocs:
        try:
            m = outq.get(timeout=5)
        except queue.Empty:
            for w, p in enumerate(procs):
                if w not in done and not p.is_alive() and outq.empty():
                    done.add(w)
                    errors.append((-1, None, "worker %d ended with %s" % (w, p.exitcode)))
            continue
        if m[0] == "fail":
            fails.append(m[1:])
        else:
            done.add(m[1])
            counts.update(m[2])
            labels.update(m[3])
            hashes |= m[4]
            samples += m[5]
            errors += m[6]
            requests += m[7]
            unconfirmed += m[8]
    for p in procs:
        p.join()

    violation = None
    for (w, i, case, text, hist) in sorted(fails, key=lambda f: f[1]):
        scr = _scratch(tmp_root, "c")
        ok = all(fails_once(mod, binary, scr, case)[0] for _ in range(3))
        prefix = []
        if not ok:
            # does it depend on what the process did before?
            prefix = hist[:-1]
            own = len(hist) > 0
            if own and all(fails_once(mod, binary, scr, case, prefix)[0] for _ in range(3)):
                n = len(prefix)
                step = max(1, n // 2)
                end = time.monotonic() + 60
                while step >= 1 and time.monotonic() < end:
                    j = 0
                    while j < len(prefix) and time.monotonic() < end:
                        cand = prefix[:j] + prefix[j + step:]
                        if fails_once(mod, binary, scr, case, cand)[0]:
                            prefix = cand
                        else:
                            j += step
                    step //= 2
            else:
                unconfirmed.append((i, case, text))
                continue
        small, tries = case, 0
        if "does not answer" in text:
            pass
        else:
            env = [Env(binary, scr, timeout=25.0)]

            def still(c):
                if prefix or hasattr(mod, "FRESH"):
                    return fails_once(mod, binary, scr, c, prefix)[0]
                k, t = execute(mod, env[0], c)
                return k == "fail"
            try:
                small, tries = shrinker.shrink(case, still, budget=45.0)
            finally:
                env[0].close()
            r = [fails_once(mod, binary, scr, small, prefix) for _ in range(3)]
            if all(x[0] for x in r):
                text = r[0][1]
            else:
                small = case
        violation = (i, small, text, prefix, tries)
        break

    status = 0
    nviol = 0
    if violation:
        i, small, text, prefix, tries = violation
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (pid, hashlib.blake2b(json.dumps(small, sort_keys=True).encode(), digest_size=5).hexdigest()))
        with open(path, "w") as f:
            json.dump({"property": pid, "case": small, "prefix": prefix, "seed": seed, "tier": tier, "case_number": i,
                       "shrink_steps_tried": tries, "readable": describe(mod, small), "detail": text[:8000]}, f, indent=1)
        print("property %s does not hold (case %d of seed %s):" % (pid, i, seed))
        d = describe(mod, small)
        print("\n".join("    " + str(l) for l in d) if isinstance(d, list) else "    %s" % json.dumps(d)[:3000])
        print(text[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        status, nviol = 1, 1
    guided = None
    if hasattr(mod, "FUZZ") and not violation:
        runs, max_time, corpus = mod.FUZZ(tier, seed)
        num = int(seed) if str(seed).isdigit() else int(hashlib.blake2b(str(seed).encode(), digest_size=3).hexdigest(), 16)
        guided, bad = fuzz.campaign(tmp_root, num % 1000000, int(runs * scale), nprocs, corpus, max_time)
        if bad:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-fuzz-%s.json" % (pid, hashlib.blake2b(bad[0], digest_size=5).hexdigest()))
            with open(path, "w") as f:
                json.dump({"property": pid, "fuzz": bad[0].hex(), "seed": seed, "tier": tier, "readable": bad[0].decode("latin-1").split("\x1e"), "detail": bad[1][:8000]}, f, indent=1)
            print("property %s does not hold (coverage-guided search, seed %s):" % (pid, seed))
            print("    " + bad[0].decode("latin-1").replace("\x1e", "\n    "))
            print(bad[1][:3000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            status, nviol = 1, 1
    rng = random.Random("samples%s" % seed)
    picked = [describe(mod, c) for c in (rng.sample(samples, min(5, len(samples))) if samples else [])]
    ev = {
        "property": pid, "tier": tier, "seed": int(seed) if str(seed).lstrip("-").isdigit() else 0, "level": "exploration",
        "coverage": {
            "evaluations": counts["run"],
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": picked,
            "cases_generated": counts["generated"],
            "cases_enumerated_or_regression": counts["enumerated"],
            "cases_discarded_outside_the_model": counts["discarded"] + counts["gen_discarded"],
            "nontrivial": counts["nontrivial"],
            "driver_requests": requests,
            "classes": dict(sorted(labels.items(), key=lambda kv: -kv[1])[:80]),
            "stopped_by_time_cap": counts["time_cap"] > 0,
            "unconfirmed_failures": max(len(unconfirmed), counts["unconfirmed"]),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": nviol,
    }
    if guided:
        ev["coverage"]["coverage_guided"] = guided
    if unconfirmed:
        ev["coverage"]["unconfirmed_samples"] = [[i, describe(mod, c), t[:1500]] for i, c, t in unconfirmed[:3]]
    if errors:
        ev["coverage"]["harness_errors"] = [t[-1500:] for _, _, t in errors[:3]]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases run, %d distinct non-trivial, %d discarded, %d requests, %.1f s" % (
        pid, tier, counts["run"], len(hashes), counts["discarded"] + counts["gen_discarded"], requests, time.monotonic() - t0))
    for n in known_findings(pid):
        print(n)
    if errors and not violation:
        for i, c, t in errors[:3]:
            print("harness error in case %s: %s" % (i, json.dumps(c)[:1000]))
            print(t)
        return 2
    return status


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [l.strip() for l in f if l.startswith("KNOWN-FINDING: property=%s " % pid)]
