# -*- coding: utf-8 -*-
"""Reference models over plain-data events [start, duration, pitch, velocity, tag]."""
import math
from engine import fail, require

EPS = 1e-9


def close(a, b, eps=EPS):
    return abs(a - b) <= eps * max(1.0, abs(a), abs(b))


def key(e):
    return repr(e)


def ms(evs):
    """multiset of events as a sorted list (numbers normalised to float)"""
    return sorted((float(e[0]), float(e[1]), float(e[2]), float(e[3]), repr(e[4])) for e in evs)


def same_ms(a, b):
    return ms(a) == ms(b)


def close_ms(a, b, eps=EPS):
    a, b = sorted(a, key=lambda e: (repr(e[4]), e[2], e[3], e[0], e[1])), \
        sorted(b, key=lambda e: (repr(e[4]), e[2], e[3], e[0], e[1]))
    return len(a) == len(b) and all(
        close(x[0], y[0], eps) and close(x[1], y[1], eps) and x[2:] == y[2:] for x, y in zip(a, b))


def eq_ms(got, want, what, exact=True):
    ok = same_ms(got, want) if exact else close_ms(got, want)
    require(ok, "%s: got %s, want %s", what, sorted(got, key=lambda e: (e[0], repr(e)))[:20],
            sorted(want, key=lambda e: (e[0], repr(e)))[:20])


def sorted_by_start(evs):
    return all(a[0] <= b[0] for a, b in zip(evs, evs[1:]))


def merge(intervals, eps=0.0):
    """union of half-open intervals, as a sorted list"""
    out = []
    for a, b in sorted(intervals):
        if b <= a:
            continue
        if out and a <= out[-1][1] + eps:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return out


def complement(intervals, end):
    out, last = [], 0
    for a, b in merge(intervals):
        if a > last:
            out.append([last, min(a, end)])
        last = max(last, b)
        if last >= end:
            break
    if last < end:
        out.append([last, end])
    return [x for x in out if x[1] > x[0]]


def fields_equal(got, want, names, what=""):
    for n in names:
        require(got[n] == want[n], "%s field %s: got %r, want %r", what, n, got[n], want[n])


DEFAULTS = {"bpm": 120, "ts": (4, 4), "key": None, "name": None, "start": 0, "res": 960, "path": None}


def expect_fields(case_pattern):
    d = dict(DEFAULTS)
    d["dur"] = case_pattern["dur"]
    for k in DEFAULTS:
        if k in case_pattern:
            d[k] = case_pattern[k]
    return d
