import math
from hypothesis import strategies as st
import strat as S
from engine import Facet, Violation, require
from model import DEFAULTS, eq_ms, same_ms, sorted_by_start
from props import c08, c09, c10, c11, c12, c13, c14, c15, c17, c18
from props.c21 import counted

ID = "C33"
PROBES = "hist"
FIELDS = [k for k in DEFAULTS]
N = 3


@st.composite
def case(draw):
    tags = draw(S.tagset(draw(st.sampled_from(["any", "drums", "strtup"]))))
    t = draw(st.sampled_from([None, S.times(8, 2), S.times(16, 4)]))
    d = draw(st.sampled_from([None, st.integers(1, 12).map(lambda k: k / 4)]))
    pp = st.sampled_from([60, 61, 36, 72]) if draw(st.booleans()) else S.pitches
    init = []
    for i in range(N):
        p = draw(S.pattern(tags, 0 if i else 1, 6, t=t, d=d, pitch=pp, meta=True, big=False, fit=draw(st.booleans())))
        p["ts"] = draw(st.sampled_from([(4, 4), (3, 4), (5, 4)]))
        init.append(p)
    ev = S.event(tags, t, d, pp)
    own = [e for p in init for e in p["ev"]]
    anytag = st.sampled_from(list(tags) + [x for x in tags if isinstance(x, tuple) for x in x] + ["silence", "absent", "C4", "E4"])
    step = st.sampled_from([1, 0.5, 0.25, 2])
    exact = st.booleans()
    sil = st.sampled_from([{}, {}, {"maxSilenceTime": 1}, {"maxSilenceTime": 0.5}, {"perTag": True}, {"maxSilenceTime": 2, "perTag": True},
                           {"silenceTag": "rest"}])
    small = st.integers(0, 9)
    edit = st.one_of(st.tuples(small, st.just("pitch"), pp), st.tuples(small, st.just("startTime"), st.one_of(t or S.times(), st.sampled_from([0, 4, 8]))),
                     st.tuples(small, st.just("duration"), d or S.durs()), st.tuples(small, st.just("tag"), st.sampled_from(tags)),
                     st.tuples(small, st.just("velocity"), S.vels))
    T = lambda *a: st.tuples(*a)
    edits = [
        ("add", T(ev)), ("add", T(ev)), ("set", T(small, ev)), ("edit", edit), ("setdur", T(st.sampled_from([4, 8, 16, 12, 5.5, 32]))),
        ("remove", T(st.sampled_from(own))), ("removeown", T(small)), ("removetags", T(st.lists(anytag, max_size=2))),
        ("transpose", T(st.integers(-12, 12))), ("stretch", T(st.sampled_from([2, 0.5]))),
        ("quantize", T(step, st.sampled_from([{}, {"quantizeStartTime": False}, {"quantizeDuration": False}]))),
        ("align", T(step)), ("legato", T(st.sampled_from([{}, {"usePitchValues": False}]))), ("previous", T()), ("silences", T(sil)),
        ("overlaps", T(st.sampled_from([{}, {"usePitchValues": True}]))), ("reorder", T()),
        ("fitdur", T(st.sampled_from([{}, {"onlyIfBigger": False}]))), ("bar", T())]
    queries = [
        ("last", T()), ("active", T(S.times(12))), ("starting", T(S.times(12), st.sampled_from([0, 0.5, 1]))), ("tags", T()), ("pitches", T()),
        ("identical", T(small, st.sampled_from([{}, {"allTagsMustBeEquals": False}]))), ("text", T()), ("list", T()), ("grid", T(step)),
        ("describe", T(st.sampled_from([["density", {}], ["tags", {}], ["sync"], ["chord", {}], ["content"]]))), ("midi", T()), ("chordify", T())]
    derive = [
        ("copy", T()), ("copy", T()), ("empty", T()), ("slice", T(st.one_of(S.times(8), st.sampled_from([0, 0, 4, 8])), st.sampled_from([4, 4, 8, 2.5, 1]), exact)),
        ("split", T(st.sampled_from([4, 2, 1, 1.5, 8]), small)), ("with", T(anytag, exact)), ("without", T(anytag, exact)), ("pitch", T(pp)),
        ("filled", T(sil.filter(lambda k: "silenceTag" not in k))), ("json", T(exact)), ("pickle", T()),
        ("view", T(st.sampled_from(["v", "w"]), st.sampled_from([["density", {}], ["tags", {}], ["content"]]), st.sampled_from([4, 1, 2, "perEvent", "all"])))]

    def op(kinds):
        return st.sampled_from(kinds).flatmap(lambda k: st.tuples(st.just(k[0]), st.integers(0, N - 1), st.integers(0, N - 1), k[1].map(list))).map(list)
    ops = draw(st.lists(st.one_of(op(edits), op(edits), op(queries), op(derive)), min_size=draw(st.sampled_from([1, 8])), max_size=18))
    return {"init": init, "ops": ops}


def unchanged(name, pre, post, ordered=False):
    """nothing but the order of events (and nothing at all if `ordered`)"""
    require({k: v for k, v in pre.items() if k != "ev"} == {k: v for k, v in post.items() if k != "ev"}, "%s changed the pattern %s to %s", name, pre, post)
    if ordered:
        require(pre["ev"] == post["ev"], "%s changed the events %s to %s", name, pre["ev"], post["ev"])
    else:
        eq_ms(post["ev"], pre["ev"], name)


def kept_fields(name, pre, post, but=()):
    for k in FIELDS + ["vp", "origin"]:
        if k not in but:
            require(pre[k] == post[k], "%s: %s was %s, is %s", name, k, pre[k], post[k])


def edit_step(name, a, pre, post, ret):
    """an operation that changes the pattern: the state after it is what the state before it prescribes"""
    evs, dur = pre["ev"], pre["dur"]
    kept_fields(name, pre, post)
    case_ = dict(pre)
    end = max([e[0] + e[1] for e in evs] or [0])
    want, wdur, ordered = None, dur, False
    if name == "add":
        want = evs + [a[0]]
        wdur = max(dur, end, a[0][0] + a[0][1])
        require(sorted_by_start(post["ev"]), "not in order after adding")
    elif name in ("set", "edit"):
        i = a[0] % len(evs)
        want = [list(e) for e in evs]
        if name == "set":
            want[i] = a[1]
        else:
            want[i][["startTime", "duration", "pitch", "velocity", "tag"].index(a[1])] = a[2]
        ordered = True
    elif name == "setdur":
        want, wdur, ordered = evs, a[0], True
    elif name in ("remove", "removeown"):
        x = a[0] if name == "remove" else evs[a[0] % len(evs)]
        want, ordered = [e for e in evs if e != x], True
    elif name == "removetags":
        want, ordered = [e for e in evs if not any(c17.carries(e[4], t) for t in a[0])], True
    elif name == "transpose":
        want, ordered = c18.transposed(pre, a[0]), True
    elif name == "stretch":
        want, wdur, ordered = [[e[0] * a[0], e[1] * a[0]] + e[2:] for e in evs], dur * a[0], True
    elif name == "quantize":
        c13.check({"p": case_, "step": a[0], "kw": a[1]}, {"one": post, "two": post})
        return
    elif name == "align":
        c12.check({"p": case_, "step": a[0], "kw": {}}, {"p": post, "self": ret})
        return
    elif name == "legato":
        c14.check({"p": case_, "kw": a[0]}, post)
        return
    elif name == "previous":
        c14.check_prev({"p": case_}, post)
        return
    elif name == "silences":
        c10.check_one({"p": case_, "kw": a[0]}, post, "fill")
        return
    elif name == "overlaps":
        c11.check({"p": case_, "kw": a[0]}, post)
        return
    elif name == "reorder":
        want = evs
        require(sorted_by_start(post["ev"]), "not in order")
    elif name == "fitdur":
        want = evs
        wdur = max(dur, end) if a[0].get("onlyIfBigger", True) else (end or dur)
    elif name == "bar":
        want = evs
        wdur = math.ceil(dur / pre["ts"][0]) * pre["ts"][0]
    if ordered:
        require(post["ev"] == want, "%s%s: events %s, want %s", name, a, post["ev"], want)
    else:
        eq_ms(post["ev"], want, name)
    require(post["dur"] == wdur, "%s%s: duration %s, want %s", name, a, post["dur"], wdur)


def query_step(name, a, pre, post, ret):
    evs = post["ev"]
    unchanged(name, pre, post, ordered=name not in ("last", "chordify", "midi", "describe"))
    if name == "last":
        require(ret == (max(e[0] + e[1] for e in evs) if evs else None), "last note off %s", ret)
    elif name == "active":
        eq_ms(ret, [e for e in evs if e[0] <= a[0] < e[0] + e[1]], "active at %s" % a[0])
    elif name == "starting":
        eq_ms(ret, [e for e in evs if 0 <= a[0] - e[0] <= a[1]], "starting at %s" % a[0])
    elif name == "tags":
        require(len(set(ret)) == len(ret) and set(ret) == {e[4] for e in evs}, "tags %s", ret)
    elif name == "pitches":
        require(sorted(ret) == sorted({e[2] for e in evs}), "pitches %s", ret)
    elif name == "identical":
        e, got = ret
        if a[1].get("allTagsMustBeEquals", True):
            eq_ms(got, [x for x in evs if x[4] == e[4]], "identical to %s" % e)
        elif e[4] != ():
            eq_ms(got, [x for x in evs if c17.common(e[4], x[4])], "with a tag of %s" % e)
    elif name == "text":
        require(ret[0] == len(evs) and ret[2] == evs, "length or items %s", ret)
    elif name == "list":
        require([list(x) for x in ret] == [[e[2], e[0], e[1]] for e in evs], "as a list: %s", ret)
    elif name == "describe":
        if a[0][0] == "density":
            require(ret == sum(e[1] for e in counted(evs, {})), "density %s of %s", ret, evs)
        elif a[0][0] == "tags":
            require(ret == len({e[4] for e in counted(evs, {})}), "number of tags %s of %s", ret, evs)


def as_float(evs):
    """1 and 1.0 are one entry of the table of tags"""
    return [e[:4] + [float(e[4]) if isinstance(e[4], int) else e[4]] for e in evs]


def derive_step(name, a, pre, post, ret, new, same):
    evs = pre["ev"]
    sub = None
    if name == "view":
        changed = dict(post, vp={k: v for k, v in post["vp"].items() if k != a[0]})
        unchanged(name, dict(pre, vp={k: v for k, v in pre["vp"].items() if k != a[0]}), changed)
        require(post["vp"].get(a[0]) == ret and ret["origin"] == pre["name"], "viewpoint %s stored as %s", ret, post["vp"].get(a[0]))
        if a[2] == "perEvent":
            want = [[t, max(e[0] + e[1] for e in evs if e[0] <= t < e[0] + e[1]) - t] for t in sorted({e[0] for e in evs})]
        elif a[2] == "all":
            want = [[0, pre["dur"]]] if evs else []
            if evs and pre["start"]:
                want = [[pre["start"], pre["dur"]]]
        else:
            want = [[i * a[2], a[2]] for i in sorted(c09.pieces(evs, a[2]))]
        require([e[:2] for e in ret["ev"]] == want, "viewpoint by %s: events at %s, want %s", a[2], [e[:2] for e in ret["ev"]], want)
        return
    if name == "json":
        end = max([pre["dur"]] + [e[0] + e[1] for e in evs])
        eq_ms(post["ev"], evs, "saved pattern")
        require(post["dur"] in (pre["dur"], end), "saving changed the duration to %s", post["dur"])
        kept_fields(name, pre, post, but=("vp",))
        require(set(pre["vp"]) == set(post["vp"]) == set(new["vp"]), "viewpoints %s, loaded %s", set(post["vp"]), set(new["vp"]))
        for k, v in pre["vp"].items():
            eq_ms(post["vp"][k]["ev"], v["ev"], "viewpoint %s after saving" % k)
            eq_ms(as_float(new["vp"][k]["ev"]), as_float(v["ev"]), "viewpoint %s loaded" % k)
        eq_ms(new["ev"], evs, "loaded")
        require(new["dur"] == end, "loaded duration %s, want %s", new["dur"], end)
        kept_fields(name, pre, new, but=("vp", "res", "path", "origin"))
        require(same, "what was loaded is not equal to what was saved")
        return
    unchanged(name, pre, post, ordered=True)
    if name in ("copy", "pickle"):
        require(new == pre and same, "%s: %s, want %s", name, new, pre)
    elif name == "empty":
        require(new["ev"] == [], "events in the copy without events")
        kept_fields(name, pre, new, but=("vp", "origin"))
        require(new["dur"] == pre["dur"], "duration of the copy %s", new["dur"])
    elif name == "slice":
        c08.check({"p": pre, "s": a[0], "l": a[1], "kw": {"trimEnd": a[2]}}, {"slice": new, "before": pre, "after": post, "spoiled": post})
    elif name == "split":
        want = c09.pieces(evs, a[0])
        require(len(ret) == len(want), "%d parts, want %d", len(ret), len(want))
        for i, part in zip(sorted(want), ret):
            eq_ms(part["ev"], want[i], "part %d of length %s" % (i, a[0]))
            require((part["dur"], part["start"]) == (a[0], i * a[0]), "part %d lasts %s from %s", i, part["dur"], part["start"])
    elif name in ("with", "without"):
        c = {"q": ["tag", a[0]], "exact": a[1]}
        sub = [e for e in evs if c15.matches(c, e) == (name == "with")]
    elif name == "pitch":
        sub = [e for e in evs if e[2] == a[0]]
    elif name == "filled":
        c10.check_one({"p": pre, "kw": a[0]}, new, "filled copy")
        kept_fields(name, pre, new, but=("vp", "origin"))
    if sub is not None:
        require(new["ev"] == sub, "%s%s: %s, want %s", name, a, new["ev"], sub)
        require(new["dur"] == pre["dur"], "%s: duration %s", name, new["dur"])
        kept_fields(name, pre, new, but=("vp", "origin"))


EDITS = {"add", "set", "edit", "setdur", "remove", "removeown", "removetags", "transpose", "stretch", "quantize", "align", "legato", "previous",
         "silences", "overlaps", "reorder", "fitdur", "bar"}
QUERIES = {"last", "active", "starting", "tags", "pitches", "identical", "text", "list", "grid", "describe", "midi", "chordify"}


def check(c, o):
    state = o["first"]
    for i, (want, got) in enumerate(zip(c["init"], state)):
        require(all(got[k] == want[k] for k in want if k != "ts") and got["ev"] == want["ev"], "pattern %d starts as %s, want %s", i, got, want)
    for k, ((name, src, dst, a), s) in enumerate(zip(c["ops"], o["steps"])):
        pre, post = state[src], s["after"][src]
        try:
            for i in range(N):
                if i != src:
                    require(s["after"][i] == state[i], "another pattern changed: %d was %s, is %s", i, state[i], s["after"][i])
            if s["ret"] == "skip":
                unchanged("(nothing)", pre, post, True)
            elif name in EDITS:
                edit_step(name, a, pre, post, s["ret"])
            elif name in QUERIES:
                query_step(name, a, pre, post, s["ret"])
            else:
                if name != "view" and "new" not in s:
                    require(name == "split" and not pre["ev"], "%s returned no pattern", name)
                    s["new"], s["same"] = None, None
                    unchanged(name, pre, post, True)
                else:
                    derive_step(name, a, pre, post, s["ret"], s.get("new"), s.get("same"))
        except Violation as e:
            raise Violation("step %d, %s on pattern %d: %s" % (k, name, src, e))
        state = list(s["after"])
        if s.get("new"):
            state[dst] = s["new"]
    require(o["last"] == state, "the patterns ended as %s, want %s", o["last"], state)
    for i in range(N):
        for j in range(N):
            w = all(state[i][k] == state[j][k] for k in ("ev", "dur", "ts", "start"))
            require(o["eq"][i][j] == w, "patterns %s and %s are equal: %s", state[i], state[j], o["eq"][i][j])


def nontrivial(c, o):
    done = [op[0] for op, s in zip(c["ops"], o["steps"]) if s["ret"] != "skip"]
    return sum(1 for x in done if x in EDITS) >= 2 and any(x not in EDITS for x in done)


FACETS = [Facet("history", case(), "history", check, nontrivial, 5000, 60000, rule="two edits or more and a query or a derived pattern")]
