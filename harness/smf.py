"""An independent Standard MIDI File encoder and strict parser.

A song is {"fmt": int, "res": int, "tracks": [[event, ...], ...]}; an event is
[delta tick, status, channel, [data bytes], meta command or None] with status
0x80..0xE0 (channel messages), 0xFF (meta), 0xF0 (system exclusive, data without the
final F7) or 0xF7 (escape)."""

LENGTHS = {0x80: 2, 0x90: 2, 0xA0: 2, 0xB0: 2, 0xC0: 1, 0xD0: 1, 0xE0: 2}


class Bad(Exception):
    pass


def varlen(n, pad=0):
    assert 0 <= n < 1 << 28
    out = [n & 0x7F]
    n >>= 7
    while n:
        out.insert(0, (n & 0x7F) | 0x80)
        n >>= 7
    while pad and len(out) < 4:
        out.insert(0, 0x80)
        pad -= 1
    return out


def be(n, size):
    return [(n >> (8 * (size - 1 - i))) & 0xFF for i in range(size)]


def encode(song, running=None, pad=None, extra_header=(), parted=None):
    """running(i) -> bool: use running status for the i-th channel event that may;
    pad(i) -> number of padding bytes of the i-th variable length number;
    parted(i) -> bool: the i-th system exclusive is the first packet of one that goes on, without the final F7."""
    running = running or (lambda i: False)
    pad = pad or (lambda i: 0)
    parted = parted or (lambda i: False)
    k = [0, 0, 0]

    def vl(n):
        k[0] += 1
        return varlen(n, pad(k[0]))
    out = list(b"MThd") + be(6 + len(extra_header), 4) + be(song["fmt"], 2) + be(len(song["tracks"]), 2) + \
        be(song["res"], 2) + list(extra_header)
    for track in song["tracks"]:
        body = []
        last = None
        for tick, status, channel, data, cmd in track:
            body += vl(tick)
            if status == 0xFF:
                body += [0xFF, cmd] + vl(len(data)) + data
                last = None
            elif status == 0xF0:
                k[2] += 1
                end = [] if parted(k[2]) else [0xF7]
                body += [0xF0] + vl(len(data + end)) + data + end
                last = None
            elif status == 0xF7:
                body += [0xF7] + vl(len(data)) + data
                last = None
            else:
                k[1] += 1
                if not (last == status | channel and running(k[1])):
                    body.append(status | channel)
                last = status | channel
                body += data
        out += list(b"MTrk") + be(len(body), 4) + body
    return out


def parse(octets):
    """strict: whatever the format forbids raises Bad"""
    pos = [0]

    def take(n):
        if pos[0] + n > len(octets):
            raise Bad("file ends at byte %d, %d more wanted" % (len(octets), pos[0] + n - len(octets)))
        r = octets[pos[0]:pos[0] + n]
        pos[0] += n
        return r

    def num(n):
        v = 0
        for b in take(n):
            v = v << 8 | b
        return v

    def vl():
        v = 0
        for i in range(4):
            b = take(1)[0]
            v = v << 7 | b & 0x7F
            if not b & 0x80:
                return v
        raise Bad("variable length number longer than 4 bytes at %d" % pos[0])
    if bytes(take(4)) != b"MThd":
        raise Bad("no header")
    size = num(4)
    if size < 6:
        raise Bad("header size %d" % size)
    fmt, n, res = num(2), num(2), num(2)
    take(size - 6)
    if fmt > 2 or (fmt == 0 and n != 1):
        raise Bad("format %d with %d tracks" % (fmt, n))
    tracks = []
    for _ in range(n):
        if bytes(take(4)) != b"MTrk":
            raise Bad("no track chunk at %d" % pos[0])
        end = num(4) + pos[0]
        if end > len(octets):
            raise Bad("track of %d bytes ends after the file" % (end - pos[0]))
        evs = []
        last = None
        done = False
        while pos[0] < end:
            if done:
                raise Bad("events after the end of track")
            tick = vl()
            b = take(1)[0]
            if b == 0xFF:
                cmd = take(1)[0]
                if cmd > 0x7F:
                    raise Bad("meta event %x" % cmd)
                data = take(vl())
                evs.append([tick, 0xFF, None, data, cmd])
                last = None
                if cmd == 0x2F:
                    if data:
                        raise Bad("end of track with data")
                    done = True
            elif b == 0xF0:
                data = take(vl())
                if not data or data[-1] != 0xF7 or any(x > 0x7F for x in data[:-1]):
                    raise Bad("system exclusive %s" % data)
                evs.append([tick, 0xF0, None, data[:-1], None])
                last = None
            elif b == 0xF7:
                evs.append([tick, 0xF7, None, take(vl()), None])
                last = None
            elif b > 0xF0:
                raise Bad("status %x" % b)
            else:
                if b & 0x80:
                    last = b
                    data = []
                else:
                    if last is None:
                        raise Bad("running status with nothing running at %d" % pos[0])
                    data = [b]
                data += take(LENGTHS[last & 0xF0] - len(data))
                if any(x > 0x7F for x in data):
                    raise Bad("data byte with high bit in %s at %d" % (data, pos[0]))
                evs.append([tick, last & 0xF0, last & 0x0F, data, None])
        if pos[0] != end:
            raise Bad("last event of a track runs over its end")
        if not done:
            raise Bad("no end of track")
        tracks.append(evs)
    if pos[0] != len(octets):
        raise Bad("%d bytes after the last track" % (len(octets) - pos[0]))
    return {"fmt": fmt, "res": res, "tracks": tracks}


def absolute(track):
    t = 0
    out = []
    for e in track:
        t += e[0]
        out.append([t] + e[1:])
    return out


def relative(track):
    t = 0
    out = []
    for e in track:
        out.append([e[0] - t] + e[1:])
        t = e[0]
    return out
