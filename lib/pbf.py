"""An independent encoder for the OSM PBF format, and the limb encoding used by the traces.

Nothing here decides anything about the library: it builds byte streams with a known meaning.
A message is a dict with Python numbers; `tla_*` gives its form for the TLA+ specification.
"""
import struct
import zlib

M64 = (1 << 64) - 1


# ---------------------------------------------------------------- numbers for TLC
def limbs(v):
    """Signed 64-bit number as five base-2^15 digits, the last one signed."""
    assert -(1 << 63) <= v < (1 << 64), v
    return [v & 0x7FFF, (v >> 15) & 0x7FFF, (v >> 30) & 0x7FFF, (v >> 45) & 0x7FFF, v >> 60]


def unlimbs(a):
    return a[0] | a[1] << 15 | a[2] << 30 | a[3] << 45 | a[4] << 60


def opt(v, f=lambda x: x):
    return [] if v is None else [f(v)]


# ---------------------------------------------------------------- protobuf encoding
def varint(v):
    v &= M64
    out = bytearray()
    while True:
        b = v & 0x7F
        v >>= 7
        if v:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def zz(v):
    return ((v << 1) ^ (v >> 63)) & M64


def key(num, wt):
    return varint(num << 3 | wt)


def f_varint(num, v):
    return key(num, 0) + varint(v)


def f_bytes(num, b):
    return key(num, 2) + varint(len(b)) + b


def repeated(num, vals, enc, style=None):
    """A repeated scalar field: packed (default), unpacked, or split into several packed parts."""
    if not vals:
        return []
    if style is None or style.packed():
        return [f_bytes(num, b"".join(enc(v) for v in vals))]
    if style.split():
        k = style.rng.randrange(len(vals) + 1)
        return [f_bytes(num, b"".join(enc(v) for v in part)) for part in (vals[:k], vals[k:])]
    return [key(num, 0) + enc(v) for v in vals]


class Style:
    """Legal variations of an encoding: field order, packed or not, unknown fields."""

    def __init__(self, rng=None):
        self.rng = rng

    def packed(self):
        return self.rng is None or self.rng.random() < 0.7

    def split(self):
        return self.rng.random() < 0.5

    def join(self, parts):
        """parts: list of lists; the order within each list matters, between lists it does not."""
        parts = [p for p in parts if p]
        if self.rng is None:
            return b"".join(b"".join(p) for p in parts)
        if self.rng.random() < 0.2:
            parts.append([f_bytes(500, b"unknown field")])
        if self.rng.random() < 0.6:
            self.rng.shuffle(parts)
        return b"".join(b"".join(p) for p in parts)


PLAIN = Style()
u = varint
s = lambda v: varint(zz(v))


def enc_info(i, st):
    p = []
    if i["ver"] is not None:
        p.append([f_varint(1, i["ver"])])
    if i["ts"] is not None:
        p.append([f_varint(2, i["ts"])])
    if i["cs"] is not None:
        p.append([f_varint(3, i["cs"])])
    if i["uid"] is not None:
        p.append([f_varint(4, i["uid"])])
    if i["sid"] is not None:
        p.append([f_varint(5, i["sid"])])
    if i["vis"] is not None:
        p.append([f_varint(6, int(i["vis"]))])
    return st.join(p)


def kvi(x, st):
    p = [repeated(2, x["keys"], u, st), repeated(3, x["vals"], u, st)]
    if x["info"] is not None:
        p.append([f_bytes(4, enc_info(x["info"], st))])
    return p


def enc_node(n, st):
    return st.join([[f_varint(1, zz(n["id"]))], [f_varint(8, zz(n["lat"]))], [f_varint(9, zz(n["lon"]))]] + kvi(n, st))


def enc_way(w, st):
    return st.join([[f_varint(1, w["id"])]] + kvi(w, st) + [repeated(8, w["refs"], s, st), repeated(9, w["lat"], s, st), repeated(10, w["lon"], s, st)])


def enc_rel(r, st):
    return st.join([[f_varint(1, r["id"])]] + kvi(r, st) + [repeated(8, r["roles"], u, st), repeated(9, r["ids"], s, st), repeated(10, r["types"], u, st)])


def enc_dense(d, st):
    p = [repeated(1, d["id"], s, st), repeated(8, d["lat"], s, st), repeated(9, d["lon"], s, st), repeated(10, d["kv"], u, st)]
    if d["info"] is not None:
        i = d["info"]
        p.append([f_bytes(5, st.join([
            repeated(1, i["ver"], u, st), repeated(2, i["ts"], s, st), repeated(3, i["cs"], s, st),
            repeated(4, i["uid"], s, st), repeated(5, i["sid"], s, st),
            repeated(6, [int(b) for b in i["vis"]], u, st)]))])
    return st.join(p)


def enc_group(g, st):
    p = [[f_bytes(1, enc_node(n, st)) for n in g["nodes"]]]
    if g["dense"] is not None:
        p.append([f_bytes(2, enc_dense(g["dense"], st))])
    p.append([f_bytes(3, enc_way(w, st)) for w in g["ways"]])
    p.append([f_bytes(4, enc_rel(r, st)) for r in g["rels"]])
    if g.get("changesets"):
        p.append([f_bytes(5, f_varint(1, c)) for c in g["changesets"]])
    return st.join(p)


def enc_block(m, st=PLAIN):
    p = [[f_bytes(1, b"".join(f_bytes(1, x) for x in m["st"]))]]
    p.append([f_bytes(2, enc_group(g, st)) for g in m["groups"]])
    if m["gran"] is not None:
        p.append([f_varint(17, m["gran"])])
    if m["dgran"] is not None:
        p.append([f_varint(18, m["dgran"])])
    if m["lato"] is not None:
        p.append([f_varint(19, m["lato"])])
    if m["lono"] is not None:
        p.append([f_varint(20, m["lono"])])
    return st.join(p)


def enc_header(h, st=PLAIN):
    p = []
    if h["bbox"] is not None:
        p.append([f_bytes(1, st.join([[f_varint(i + 1, zz(v))] for i, v in enumerate(h["bbox"])]))])
    p.append([f_bytes(4, x) for x in h["req"]])
    p.append([f_bytes(5, x) for x in h["optf"]])
    for num, k in ((16, "prog"), (17, "source"), (34, "rurl")):
        if h[k] is not None:
            p.append([f_bytes(num, h[k])])
    for num, k in ((32, "rts"), (33, "rseq")):
        if h[k] is not None:
            p.append([f_varint(num, h[k])])
    return st.join(p)


def encode(m, st=PLAIN):
    return enc_block(m, st) if m["kind"] == "data" else enc_header(m, st)


# ---------------------------------------------------------------- messages for TLA+
L = limbs


def LL(xs):
    return [limbs(x) for x in xs]


def tla_info(i):
    return {"ver": opt(i["ver"], L), "ts": opt(i["ts"], L), "cs": opt(i["cs"], L), "uid": opt(i["uid"], L),
            "sid": opt(i["sid"], L), "vis": opt(i["vis"])}


def tla_kv(x):
    return {"id": L(x["id"]), "keys": LL(x["keys"]), "vals": LL(x["vals"]), "info": opt(x["info"], tla_info)}


def tla_group(g):
    return {
        "nodes": [dict(tla_kv(n), lat=L(n["lat"]), lon=L(n["lon"])) for n in g["nodes"]],
        "dense": opt(g["dense"], lambda d: {
            "id": LL(d["id"]), "lat": LL(d["lat"]), "lon": LL(d["lon"]), "kv": LL(d["kv"]),
            "info": opt(d["info"], lambda i: {"ver": LL(i["ver"]), "ts": LL(i["ts"]), "cs": LL(i["cs"]),
                                              "uid": LL(i["uid"]), "sid": LL(i["sid"]), "vis": list(i["vis"])})}),
        "ways": [dict(tla_kv(w), refs=LL(w["refs"]), lat=LL(w["lat"]), lon=LL(w["lon"])) for w in g["ways"]],
        "rels": [dict(tla_kv(r), roles=LL(r["roles"]), ids=LL(r["ids"]), types=list(r["types"])) for r in g["rels"]],
    }


def tla_msg(m):
    if m["kind"] == "data":
        return {"kind": "data", "st": [list(x) for x in m["st"]], "gran": opt(m["gran"], L), "dgran": opt(m["dgran"], L),
                "lato": opt(m["lato"], L), "lono": opt(m["lono"], L), "groups": [tla_group(g) for g in m["groups"]]}
    return {"kind": "header", "bbox": opt(m["bbox"], LL), "req": [list(x) for x in m["req"]],
            "optf": [list(x) for x in m["optf"]], "prog": opt(m["prog"], list), "source": opt(m["source"], list),
            "rurl": opt(m["rurl"], list), "rts": opt(m["rts"], L), "rseq": opt(m["rseq"], L)}


# ---------------------------------------------------------------- frames
def blob_header(ty, size, order=(1, 2, 3), index=None, extra=b""):
    parts = {1: f_bytes(1, ty), 2: b"" if index is None else f_bytes(2, index), 3: f_varint(3, size)}
    return b"".join(parts[o] for o in order) + extra


def frame_bytes(header, blob):
    return struct.pack(">I", len(header)) + header + blob


def deflate(data, level=6, wbits=15, strategy=0):
    c = zlib.compressobj(level, zlib.DEFLATED, wbits, 8, strategy)
    return c.compress(data) + c.flush()


LIMIT = 32 * 1024 * 1024


def inflate(z):
    """What zlib says about a compressed content: bytes, "big", or None if it is damaged."""
    d = zlib.decompressobj()
    try:
        out = d.decompress(z, LIMIT)
        if len(out) >= LIMIT:
            return "big"
        if not d.eof:
            # finish: the end of the stream has to be there
            more = d.decompress(d.unconsumed_tail, 1) if d.unconsumed_tail else b""
            if more:
                return "big"
        return out if d.eof else None
    except zlib.error:
        return None


# ---------------------------------------------------------------- messages from TLA+
def unopt(a, f=lambda x: x):
    return f(a[0]) if a else None


U = unlimbs


def UU(a):
    return [unlimbs(x) for x in a]


def un_info(i):
    return {"ver": unopt(i["ver"], U), "ts": unopt(i["ts"], U), "cs": unopt(i["cs"], U), "uid": unopt(i["uid"], U),
            "sid": unopt(i["sid"], U), "vis": unopt(i["vis"])}


def un_kv(x):
    return {"id": U(x["id"]), "keys": UU(x["keys"]), "vals": UU(x["vals"]), "info": unopt(x["info"], un_info)}


def from_tla(m):
    """The inverse of tla_msg for data messages, e.g. those generated by TLC."""
    def dense(d):
        return {"id": UU(d["id"]), "lat": UU(d["lat"]), "lon": UU(d["lon"]), "kv": UU(d["kv"]),
                "info": unopt(d["info"], lambda i: {"ver": UU(i["ver"]), "ts": UU(i["ts"]), "cs": UU(i["cs"]),
                                                    "uid": UU(i["uid"]), "sid": UU(i["sid"]), "vis": i["vis"]})}

    return {"kind": "data", "st": [bytes(x) for x in m["st"]], "gran": unopt(m["gran"], U), "dgran": unopt(m["dgran"], U),
            "lato": unopt(m["lato"], U), "lono": unopt(m["lono"], U),
            "groups": [{
                "nodes": [dict(un_kv(n), lat=U(n["lat"]), lon=U(n["lon"])) for n in g["nodes"]],
                "dense": unopt(g["dense"], dense),
                "ways": [dict(un_kv(w), refs=UU(w["refs"]), lat=UU(w["lat"]), lon=UU(w["lon"])) for w in g["ways"]],
                "rels": [dict(un_kv(r), roles=UU(r["roles"]), ids=UU(r["ids"]), types=r["types"]) for r in g["rels"]],
            } for g in m["groups"]]}
