# -*- coding: utf-8 -*-
"""Executes probes against the gsapi of the tree named in VERIF_REPO.

Runs under Jython 2.7 (all of gsapi but bassmine, which needs numpy) and under
CPython 3 (bassmine).  One JSON request per line on stdin, one JSON reply per line
on stdout: {"ok": observation} or {"exc": type, "msg": text, "tb": text} when the
probe raised.  Everything gsapi prints or logs is swallowed.
"""
from __future__ import absolute_import, division, print_function

import importlib
import json
import os
import random
import sys
import traceback
import types

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ["VERIF_REPO"]
SCRATCH = os.environ["VERIF_SCRATCH"]
PY2 = sys.version_info[0] == 2
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
os.chdir(SCRATCH)


class Sink(object):
    """Stands in for stdout/stderr: what the code under test prints is collected."""
    encoding = "utf-8"

    def __init__(self):
        self.parts = []

    def write(self, s):
        if len(self.parts) < 10000:
            self.parts.append(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def take(self):
        r = "".join(self.parts)
        self.parts = []
        return r


class LeaveOutBassmine(object):
    """gsapi/bassmine.py needs numpy, which Jython does not have."""
    def find_module(self, name, path=None):
        return self if name == "gsapi.bassmine" else None

    def load_module(self, name):
        module = sys.modules.setdefault(name, types.ModuleType(name))
        module.__loader__ = self
        return module


def main():
    proto = sys.stdout
    sink = Sink()
    sys.stdout = sink
    sys.stderr = sink
    try:
        if PY2:
            sys.meta_path.insert(0, LeaveOutBassmine())
        else:
            # gsapi uses names that Python 3.10 moved; only the harness is patched
            import collections
            import collections.abc
            for n in ("Hashable", "Callable", "Iterable", "Sized", "Container", "Sequence", "Mapping"):
                if not hasattr(collections, n):
                    setattr(collections, n, getattr(collections.abc, n))
        import logging
        import gsapi
        origin = os.path.realpath(gsapi.__file__)
        if not origin.startswith(os.path.realpath(REPO) + os.sep):
            raise ImportError("gsapi imported from %s, not from %s" % (origin, REPO))
        logging.disable(logging.CRITICAL)
        import codec
        mod = importlib.import_module("probes." + sys.argv[1])
        mod.SINK = sink
        mod.SCRATCH = SCRATCH
        from probes import common
        common.SINK = sink
        common.SCRATCH = SCRATCH
    except:  # noqa: E722 - Jython: Java throwables too
        proto.write(json.dumps({"fatal": traceback.format_exc()}) + "\n")
        proto.flush()
        return 3
    proto.write(json.dumps({"ready": sys.version.split()[0]}) + "\n")
    proto.flush()
    stdin = sys.stdin
    while True:
        line = stdin.readline()
        if not line:
            return 0
        req = json.loads(line)
        sink.take()
        random.seed(12345)
        try:
            case = codec.dec(req["case"])
            obs = getattr(mod, "p_" + req["op"])(case)
            out = {"ok": codec.enc(obs)}
            text = json.dumps(out)
        except:  # noqa: E722 - Jython: Java throwables (StackOverflowError) too
            e = sys.exc_info()[1]
            try:
                msg = "%s" % (e,)
            except Exception:
                msg = "?"
            frames = traceback.extract_tb(sys.exc_info()[2])
            inside = any(os.sep + "gsapi" + os.sep in f[0] for f in frames)
            text = json.dumps({"exc": type(e).__name__, "msg": msg[:500], "inside": bool(inside),
                               "tb": "".join(traceback.format_exc())[-3000:]})
        sys.stdout = sink
        sys.stderr = sink
        proto.write(text + "\n")
        proto.flush()


if __name__ == "__main__":
    code = main()
    if PY2:
        os._exit(code)
    sys.exit(code)
