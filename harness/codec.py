# -*- coding: utf-8 -*-
"""JSON codec shared by the driver (CPython) and the worker (Jython 2.7 or CPython).

JSON cannot tell tuples from lists, has no sets and only has string keys, so those
are wrapped: {"t": [...]} tuple, {"s": [...]} set, {"d": [[k, v], ...]} dict.
"""
import json
import sys

PY2 = sys.version_info[0] == 2
if PY2:
    text_types = (str, unicode)  # noqa: F821
    int_types = (int, long)      # noqa: F821
else:
    text_types = (str,)
    int_types = (int,)


def enc(v):
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, text_types):
        return v
    if isinstance(v, int_types):
        return int(v)
    if isinstance(v, float):
        return v
    if isinstance(v, tuple):
        return {"t": [enc(x) for x in v]}
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return {"s": sorted((enc(x) for x in v), key=lambda x: json.dumps(x, sort_keys=True))}
    if isinstance(v, dict):
        items = [[enc(k), enc(x)] for k, x in v.items()]
        items.sort(key=lambda kv: json.dumps(kv[0], sort_keys=True))
        return {"d": items}
    # numpy scalars
    if hasattr(v, "item") and hasattr(v, "dtype") and getattr(v, "ndim", 1) == 0:
        return enc(v.item())
    if hasattr(v, "tolist"):
        return enc(v.tolist())
    return {"o": "%s" % (type(v).__name__,)}


def _plain(s):
    if PY2 and not isinstance(s, str):
        try:
            return s.encode("ascii")
        except UnicodeError:
            return s
    return s


def dec(v):
    if isinstance(v, text_types):
        return _plain(v)
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        if len(v) == 1:
            (k, x), = v.items()
            if k == "t":
                return tuple(dec(e) for e in x)
            if k == "s":
                return frozenset(dec(e) for e in x)
            if k == "d":
                return dict((dec(a), dec(b)) for a, b in x)
            if k == "o":
                return "<object %s>" % x
        raise ValueError("bad encoding: %r" % (v,))
    return v


def dumps(v):
    return json.dumps(enc(v), separators=(",", ":"), sort_keys=True)


def loads(s):
    return dec(json.loads(s))
