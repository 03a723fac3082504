"""Reference model of the bass-line learner and of its constrained models."""
from hypothesis import strategies as st


def codes_of(onsets, n):
    out = [0] * n
    for t in onsets:
        b = int(t // 1)
        out[b] |= 8 >> int(round((t - b) * 4))
    return out


def learn(pairs):
    """counts: first beats, transitions (with the loop's return), coinciding beats"""
    first, trans, lock = {}, {}, {}
    for kick, bass in pairs:
        if bass:
            first[bass[0]] = first.get(bass[0], 0) + 1
        for i, x in enumerate(bass):
            y = bass[(i + 1) % len(bass)]
            trans.setdefault(x, {})[y] = trans.setdefault(x, {}).get(y, 0) + 1
        for k, b in zip(kick, bass):
            lock.setdefault(k, {})[b] = lock.setdefault(k, {}).get(b, 0) + 1
    return first, trans, lock


def norm(d):
    s = float(sum(d.values()))
    return {k: v / s for k, v in d.items()}


def continuations(sets, trans):
    """live[i]: the values of beat i from which the remaining beats can be filled"""
    live = [None] * len(sets)
    live[-1] = set(sets[-1])
    for i in range(len(sets) - 2, -1, -1):
        live[i] = {x for x in sets[i] if set(trans.get(x, ())) & live[i + 1]}
    return live


def locks(target, lock):
    """per beat, what the kick allows; None if the relaxation does not apply either"""
    out = []
    for k in target:
        if k in lock:
            out.append(set(lock[k]))
        elif 8 in lock:
            out.append(set(lock[8]))
        else:
            return None
    return out


@st.composite
def pairs(draw, small=None):
    pool = draw(st.lists(st.integers(0, 15), min_size=1, max_size=5, unique=True))
    kpool = draw(st.lists(st.integers(0, 15), min_size=1, max_size=3, unique=True))
    out = []
    for _ in range(draw(st.integers(1, 4))):
        n = draw(st.integers(1, 8))
        bass = draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n))
        k = n + draw(st.sampled_from([0, 0, 0, -1, 2]))
        kick = draw(st.lists(st.sampled_from(kpool), min_size=max(0, k), max_size=max(0, k)))
        out.append([kick, bass])
    return out
