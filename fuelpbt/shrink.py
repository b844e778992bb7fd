"""Structural shrinking of JSON cases."""
import json
import time

TEXT_KEYS = ("s", "text")


def size(x):
    if isinstance(x, bool) or x is None:
        return 1
    if isinstance(x, int):
        return 1 + min(abs(x), 1 << 40).bit_length() * 0.1
    if isinstance(x, float):
        return 2
    if isinstance(x, str):
        return 1 + len(x) * 0.1
    if isinstance(x, list):
        return 1 + sum(size(e) for e in x)
    return 1 + sum(size(e) for e in x.values())


def variants(x, key=None):
    """smaller values than x, the biggest steps first"""
    if isinstance(x, bool) or x is None:
        return
    if isinstance(x, int):
        for y in (0, 1, -1, x // 2, x - 1 if x > 0 else x + 1):
            if abs(y) < abs(x) or (y >= 0 > x and abs(y) <= abs(x)):
                yield y
        return
    if isinstance(x, str):
        if key in TEXT_KEYS:
            n = len(x)
            step = n
            while step >= 1:
                for i in range(0, n, step):
                    yield x[:i] + x[i + step:]
                step //= 2
            for i, c in enumerate(x):
                if c not in "a ":
                    yield x[:i] + "a" + x[i + 1:]
        return
    if isinstance(x, list):
        n = len(x)
        step = n
        while step >= 1:
            for i in range(0, n, step):
                if n - len(x[i:i + step]) >= 0:
                    yield x[:i] + x[i + step:]
            step //= 2
        for e in x:
            if isinstance(e, (list, dict)):
                yield e
        for i, e in enumerate(x):
            if isinstance(e, (list, dict)):
                for r in (0, True, None):
                    yield x[:i] + [r] + x[i + 1:]
            for v in variants(e):
                yield x[:i] + [v] + x[i + 1:]
        return
    if isinstance(x, dict):
        if len(x) == 1:
            (k, v), = x.items()
            if k in ("q", "qq", "u", "us"):
                yield v
            if k == "d" and v not in ("0.5",):
                yield {"d": "0.5"}
        for k, e in x.items():
            for v in variants(e, k):
                y = dict(x)
                y[k] = v
                yield y


def shrink(case, fails, budget=40.0, max_tries=4000):
    """greedy; `fails(case)` must be true for the result"""
    end = time.monotonic() + budget
    tries = 0
    seen = set()
    improved = True
    while improved:
        improved = False
        for v in variants(case):
            if time.monotonic() > end or tries >= max_tries:
                return case, tries
            if not isinstance(v, dict) or size(v) >= size(case):
                continue
            k = json.dumps(v, sort_keys=True)
            if k in seen:
                continue
            seen.add(k)
            tries += 1
            if fails(v):
                case = v
                improved = True
                break
    return case, tries
