# -*- coding: utf-8 -*-
from __future__ import absolute_import, division, print_function

import os

from gsapi import gspattern, gsio, midiio, gsdefs
from .common import mkpattern, mkevent, dump, dumpev, dumpevs, scratchdir, writebytes, readbytes

SINK = None
SCRATCH = None

META = {}
CHAN = {}
for _n in dir(midiio):
    _c = getattr(midiio, _n)
    if isinstance(_c, type) and issubclass(_c, midiio.AbstractEvent):
        if issubclass(_c, midiio.MetaEvent):
            if _n not in ("MetaEvent", "MetaEventWithText", "UnknownMetaEvent"):
                META[_c.metacommand] = _c
        elif _n not in ("AbstractEvent", "Event", "NoteEvent"):
            CHAN[_c.statusmsg] = _c


def build(e, how):
    """the event of a song, made in one of the ways a caller can"""
    tick, status, channel, data, cmd = e
    data = list(data)
    if status == 0xFF:
        cls = META.get(cmd)
        if cls is None:
            return midiio.UnknownMetaEvent(tick=tick, data=data, metacommand=cmd)
        if how:
            if 1 <= cmd <= 8:
                return cls(tick=tick, text="".join(chr(x) for x in data))
            if cmd == 0x51:
                ev = cls(tick=tick)
                ev.mpqn = (data[0] << 16) | (data[1] << 8) | data[2]
                return ev
            if cmd == 0x58:
                return cls(tick=tick, numerator=data[0], denominator=2 ** data[1], metronome=data[2], thirtyseconds=data[3])
            if cmd == 0x59:
                return cls(tick=tick, alternatives=data[0] - 256 if data[0] > 127 else data[0], minor=data[1])
        return cls(tick=tick, data=data)
    if status == 0xF0:
        return midiio.SysexEvent(tick=tick, data=data)
    if status == 0xF7:
        return midiio.SysexEvent(tick=tick, data=data, statusmsg=0xF7)
    cls = CHAN[status]
    if how:
        if status in (0x80, 0x90):
            return cls(tick=tick, channel=channel, pitch=data[0], velocity=data[1])
        if status == 0xA0:
            return cls(tick=tick, channel=channel, pitch=data[0], value=data[1])
        if status == 0xB0:
            return cls(tick=tick, channel=channel, control=data[0], value=data[1])
        if status in (0xC0, 0xD0):
            return cls(tick=tick, channel=channel, value=data[0])
        if status == 0xE0:
            return cls(tick=tick, channel=channel, pitch=(data[0] | data[1] << 7) - 8192)
    return cls(tick=tick, channel=channel, data=data)


def flat(ev):
    """what an event of the library says, in the shape of a song event"""
    if isinstance(ev, midiio.MetaEvent):
        return [ev.tick, ev.statusmsg, None, list(ev.data), ev.metacommand]
    if isinstance(ev, midiio.SysexEvent):
        return [ev.tick, ev.statusmsg, None, list(ev.data), None]
    return [ev.tick, ev.statusmsg, ev.channel, list(ev.data), None]


def flatsong(p):
    return {"fmt": p.frmt, "res": p.resolution, "tracks": [[flat(e) for e in t] for t in p]}


def meaning(ev):
    r = {"cls": type(ev).__name__}
    for n in ("pitch", "velocity", "value", "control", "text", "bpm", "mpqn", "numerator", "denominator", "metronome",
              "thirtyseconds", "alternatives", "minor"):
        if hasattr(ev, n) and not (n in ("bpm", "mpqn") and len(ev.data) != 3):
            r[n] = getattr(ev, n)
    if "text" in r:
        r["text"] = [ord(x) for x in r["text"]]
    return r


def mksong(song, how):
    p = midiio.Pattern(resolution=song["res"], frmt=song["fmt"])
    for t in song["tracks"]:
        tr = midiio.Track()
        for e in t:
            tr.append(build(e, how))
        p.append(tr)
    return p


def p_write(c):
    p = mksong(c["song"], c["how"])
    out = {}
    with scratchdir() as d:
        path = os.path.join(d, "a.mid")
        if c["byobj"]:
            f = open(path, "wb")
            midiio.write_midifile(f, p)
            f.close()
        else:
            midiio.write_midifile(path, p)
        out["bytes"] = readbytes(path)
        out["after"] = flatsong(p)
        if c["byobj"]:
            f = open(path, "rb")
            q = midiio.read_midifile(f)
            f.close()
        else:
            q = midiio.read_midifile(path)
        out["read"] = flatsong(q)
        midiio.write_midifile(path, q)
        out["bytes2"] = readbytes(path)
    p.make_ticks_abs()
    out["abs"] = [[e.tick for e in t] for t in p]
    p.make_ticks_abs()
    out["abs2"] = [[e.tick for e in t] for t in p]
    i, j = c["slice"]
    out["slice_abs"] = [[[e.tick for e in t] for t in p[i:j]]]
    s = p[i:j]
    flags = [s.tick_relative] + [t[i:j].tick_relative for t in p]
    p.make_ticks_rel()
    out["rel"] = [[e.tick for e in t] for t in p]
    p.make_ticks_rel()
    out["rel2"] = [[e.tick for e in t] for t in p]
    s = p[i:j]
    out["flags"] = flags + [s.tick_relative] + [t[i:j].tick_relative for t in p]
    out["slices"] = [flatsong(s), [[flat(e) for e in t[i:j]] for t in p], isinstance(s, midiio.Pattern),
                     all(isinstance(t[i:j], midiio.Track) for t in p)]
    # absolute to relative and back
    q = mksong(c["song"], c["how"])
    for t in q:
        t.tick_relative = False
        k = 0
        for e in t:
            k += e.tick
            e.tick = k
    q.make_ticks_rel()
    out["arel"] = [[e.tick for e in t] for t in q]
    q.make_ticks_abs()
    out["aabs"] = [[e.tick for e in t] for t in q]
    # the same, the events not in the order of their times
    for t in q:
        t.reverse()
    q.make_ticks_rel()
    out["brel"] = [[e.tick for e in t] for t in q]
    q.make_ticks_abs()
    out["babs"] = [[e.tick for e in t] for t in q]
    return out


def p_read(c):
    with scratchdir() as d:
        path = os.path.join(d, "a.mid")
        writebytes(path, c["bytes"])
        p = midiio.read_midifile(path)
        return {"song": flatsong(p), "rel": p.tick_relative, "meaning": [[meaning(e) for e in t] for t in p],
                "kept": readbytes(path) == c["bytes"]}


def p_import(c):
    with scratchdir() as d:
        path = os.path.join(d, c.get("fname", "song.mid"))
        writebytes(path, c["bytes"])
        kw = dict(c["kw"])
        m = kw.get("noteToTagMap")
        p = gsio.fromMidiFile(path, **kw)
        return {"p": dump(p), "map": m, "kept": readbytes(path) == c["bytes"]}


def p_collection(c):
    with scratchdir() as d:
        for name, octets in c["files"]:
            writebytes(os.path.join(d, name), octets)
        kw = dict(c["kw"])
        col = gsio.fromMidiCollection(os.path.join(d, "*.mid"), **kw)
        out = {"col": [dump(p) for p in col], "map": kw.get("noteToTagMap"), "each": []}
        length = kw.pop("desiredLength", 0)
        for name, octets in c["files"]:
            p = gsio.fromMidiFile(os.path.join(d, name), **kw)
            ps = p.splitInEqualLengthPatterns(length) if length else [p]
            out["each"] += [dump(x) for x in ps]
        return out


def p_export(c):
    out = {}
    with scratchdir() as d:
        p = mkpattern(c["p"])
        before = dump(p)
        kw = {}
        imp = {}
        if c["map"]:
            m = getattr(gsdefs, c["map"])
            kw["midiMap"] = dict(m)
            imp["noteToTagMap"] = dict(m)
        if "own" in c:
            kw["midiMap"] = c["own"]
        if c.get("fname"):
            kw["name"] = c["fname"]
        folder = os.path.join(d, "sub", "dir") if c["newdir"] else d
        path = gsio.toMidiFile(p, folderPath=folder, **kw)
        out["bytes"] = readbytes(path)
        out["base"] = os.path.basename(path)
        out["indir"] = os.path.abspath(os.path.dirname(path)) == os.path.abspath(folder)
        out["kept"] = dump(p) == before
        out["map"] = c.get("own")
        q = gsio.fromMidiFile(path, **imp)
        out["first"] = dump(q)
        path2 = gsio.toMidiFile(q, folderPath=os.path.join(d, "second"), **dict(kw, name=out["base"]))
        out["bytes2"] = readbytes(path2)
        out["second"] = dump(gsio.fromMidiFile(path2, **imp))
    return out


def p_object(c):
    """fields set after an event was made, copies, sorting, printed forms"""
    out = {"steps": []}
    e = build(c["e"], c["how"])
    for name, v in c["sets"]:
        setattr(e, name, "".join(chr(x) for x in v) if name == "text" else v)
        out["steps"].append([flat(e), meaning(e)])
    ch = dict((k, list(v) if isinstance(v, list) else v) for k, v in c["change"].items())
    if hasattr(e, "copy"):
        q = e.copy(**dict(ch))
        out["copy"] = [flat(q), type(q) is type(e), meaning(q)]
        out["orig"] = flat(e)
        for name, v in c["after"]:
            setattr(q, name, "".join(chr(x) for x in v) if name == "text" else v)
        q.tick += 5
        for i in range(len(q.data)):
            q.data[i] ^= 1
        out["orig2"] = flat(e)
    env = {"midi": midiio}
    r = eval(repr(e), env)
    out["repr"] = [flat(r), type(r) is type(e)]
    return out


def p_songobject(c):
    p = mksong(c["song"], c["how"])
    r = eval(repr(p), {"midi": midiio})
    out = {"repr": flatsong(r), "after": flatsong(p)}
    tracks = []
    for t in p:
        tr = eval(repr(t), {"midi": midiio})
        tracks.append([flat(e) for e in tr])
    out["tracks"] = tracks
    # an absolute song in another order: sorting it by time
    p.make_ticks_abs()
    out["abs"] = flatsong(p)["tracks"]
    res = []
    for t in p:
        evs = [t[i] for i in c["perm"] if i < len(t)]
        res.append([flat(e) for e in sorted(evs)])
        out.setdefault("compared", []).extend([a.tick, b.tick, bool(a < b), bool(b < a), bool(a > b), bool(b > a)]
                                              for a, b in zip(evs, evs[1:]))
    out["sorted"] = res
    return out


HEAD = [77, 84, 104, 100, 0, 0, 0, 6, 0, 1, 0, 1, 0, 96, 77, 84, 114, 107, 0, 0, 0, 8]
ENDS = {False: HEAD + [0, 0x91, 60, 80, 0, 0xFF, 0x2F, 0], True: HEAD + [0, 0xB4, 7, 9, 0, 0xFF, 0x2F, 0]}


def again(path, c, other=False):
    """the damaged file read after one of two sound ones"""
    writebytes(path, ENDS[other])
    midiio.read_midifile(path)
    writebytes(path, c["bytes"])
    try:
        return flatsong(midiio.read_midifile(path))
    except Exception as e:
        return type(e).__name__


def p_damaged(c):
    out = {}
    with scratchdir() as d:
        path = os.path.join(d, "a.mid")
        first = again(path, c)
        writebytes(path, c["bytes"])
        try:
            out["song"] = flatsong(midiio.read_midifile(path))
        except Exception as e:
            out["exc"] = type(e).__name__
        try:
            out["p"] = dump(gsio.fromMidiFile(path, **c["kw"]))
        except Exception as e:
            out["pexc"] = type(e).__name__
        out["kept"] = readbytes(path) == c["bytes"]
        # a sound file read afterwards
        writebytes(path, c["sound"])
        out["sound"] = flatsong(midiio.read_midifile(path))
        out["same"] = again(path, c, True) == first
    return out
