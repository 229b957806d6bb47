"""Finds the contents of the blobs of a stream whose meaning is to be worked out by spec/Proto.tla.

Only hints: an entry says where bytes are (or, for compressed contents, what zlib makes of them); what
they mean is up to the specification, which looks entries up by the bytes it found itself.
"""
import zlib

from . import pbf

MOST = 2500         # bytes


def _varint(d, i, lim):
    v = k = 0
    while i < lim and k < 10:
        b = d[i]
        v |= (b & 0x7F) << (7 * k)
        i, k = i + 1, k + 1
        if b < 128:
            return v & pbf.M64, i
    return None


def _fields(d, i, lim):
    """[(number, wire type, value, start, end)], or None."""
    out = []
    while i < lim:
        t = _varint(d, i, lim)
        if t is None:
            return None
        num, wt = t[0] >> 3, t[0] & 7
        i = t[1]
        if wt == 0:
            v = _varint(d, i, lim)
            if v is None:
                return None
            out.append((num, wt, v[0], i, v[1]))
            i = v[1]
        elif wt in (1, 5):
            i += 8 if wt == 1 else 4
            if i > lim:
                return None
        elif wt == 2:
            v = _varint(d, i, lim)
            if v is None or v[0] > lim - v[1]:
                return None
            out.append((num, wt, 0, v[1], v[1] + v[0]))
            i = v[1] + v[0]
        else:
            return None
    return out


def contents(d, starts):
    """The frames that can be reached from these positions: (type, start, end, compressed) of their contents."""
    seen = set()
    for p in [0] + list(starts):
        while p not in seen and p + 4 <= len(d):
            seen.add(p)
            n = int.from_bytes(d[p:p + 4], "big")
            if n > 65535 or p + 4 + n > len(d):
                break
            h = _fields(d, p + 4, p + 4 + n)
            if h is None:
                break
            ty = [bytes(d[f[3]:f[4]]) for f in h if f[:2] == (1, 2)]
            size = [f[2] for f in h if f[:2] == (3, 0)]
            if not ty or not size or size[-1] > len(d) - p - 4 - n:
                break
            at = p + 4 + n
            p = at + size[-1]
            b = _fields(d, at, p)
            if b is None:
                continue
            data = [f for f in b if f[1] == 2 and f[0] in (1, 3, 4, 5, 6, 7)]
            if data and data[-1][0] in (1, 3):
                yield ty[-1], data[-1][3], data[-1][4], data[-1][0] == 3


def annotate(batch, share=15):
    """Contents without a known meaning, and this percentage of the others, are left to the specification."""
    n = 0
    for no, s in enumerate(batch.streams):
        if s.ext is not None or s.frames:
            continue
        d = bytes(s.data)
        for ty, a, e, z in contents(d, [x[0] for x in s.blobs]):
            i = next((i for i, c in enumerate(s.cont) if c["s"] == a and c["e"] == e and bool(c["z"]) == z), None)
            k = None if i is None else s.cont[i]["k"]
            if k == "bad" and z or k == "bytes" or e - a > MOST:
                continue
            if k in ("msg", "bad") and zlib.crc32(d[a:e]) % 100 >= share:
                continue
            m = {"kind": "bytes", "want": "header" if ty == b"OSMHeader" else "data", "f": no + 1, "s": a, "e": e, "b": []}
            length = e - a
            if z:
                x = pbf.inflate(d[a:e])
                if x is None:
                    c = {"s": a, "e": e, "k": "bad", "m": 0, "n": 0, "z": True}
                    m = None
                elif x == "big" or len(x) > MOST:
                    continue
                else:
                    m.update(f=0, s=0, e=len(x), b=list(x))
                    length = len(x)
            if m is not None:
                c = {"s": a, "e": e, "k": "msg", "m": batch.msg(Raw(m)), "n": length, "z": z}
                n += 1
            if i is None:
                s.cont.append(c)
            else:
                s.cont[i] = c
    return n


class Raw(dict):
    """A message in the form of the specification."""
