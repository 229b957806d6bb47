"""Seeded generators of messages and streams (inputs only; the specification says what they mean)."""
from . import pbf
from .core import Stream
from .pbf import Style

I64 = [0, 1, -1, 2, 127, 128, -128, 16383, 16384, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, 1 << 32, (1 << 32) + 1,
       1 << 33, -(1 << 33), 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, (1 << 62), -(1 << 62), (1 << 63) - 1, -(1 << 63),
       900000000, -900000000, 1800000000, -1800000000]
I32 = [0, 1, -1, 2, 127, 128, 65535, 65536, (1 << 31) - 1, -(1 << 31), 1000, 12345678]
STRINGS = [b"", b"a", b"highway", b"name", "Straße".encode(), "日本".encode(), "\U0001F6B2".encode(), b"x" * 130, b"\x00", b"0", b" ",
           b"name", b"\xef\xbf\xbd", b"\xc2\x80", b"\xf4\x8f\xbf\xbf", b"\xef\xbb\xbfa", b"\xef\xbb\xbf", b" a", b"a ", b"\ta\r\n", b"a\x00b",
           b"a\x00", "\u00e9".encode(), "e\u0301".encode(), b"A", b"&amp;", b"%20", b"\x7f\x1b[0m", b"\\n", "\u200b".encode(), b"--", b"a b", b"a;b",
           "\u0130\u00df".encode(), b"-1", b"yes", b"a" * 255, b"a" * 256]
BADSTR = [b"\xff", b"\xc0\x80", b"ab\xe2\x82", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\x80", b"ok\xfe", b"\xf0\x80\x80\x80",
          b"\xef\xbb\xbf\xff", b"\xff\xfe", b"a\x00\xff", b"x" * 130 + b"\xc3", b"\xc3", b"\xe0\x80\x80", b"a\xed\xbf\xbfb", b"\xf8\x88\x80\x80\x80"]


def i64(rng, wild):
    if not wild:
        return rng.randrange(-50, 200)
    r = rng.random()
    if r < 0.4:
        return rng.choice(I64)
    if r < 0.7:
        return rng.randrange(-(1 << 40), 1 << 40)
    if r < 0.8:
        return rng.randrange(-(1 << 63), 1 << 63)
    return rng.randrange(-300, 300)


def i32(rng, wild):
    if not wild:
        return rng.randrange(0, 100)
    return rng.choice(I32) if rng.random() < 0.5 else rng.randrange(-(1 << 31), 1 << 31)


def maybe(rng, p, f):
    return f() if rng.random() < p else None


class Knobs:
    """What the generated blocks look like."""

    def __init__(self, **kw):
        self.groups = (0, 3)        # number of groups
        self.mixed = 0.4            # groups with several kinds
        self.n = (0, 4)             # elements per kind
        self.tags = (0, 3)
        self.refs = (0, 5)
        self.wild = 0.3             # extreme numbers
        self.uneven = 0.0           # arrays of different lengths
        self.badstr = 0.0           # invalid UTF-8 or indices outside of the table
        self.info = 0.6
        self.locs = 0.4
        self.units = 0.5            # non-default granularity and offsets
        self.kinds = ("node", "dense", "way", "rel")
        self.badtype = 0.0          # members of an unknown type
        self.ids = None             # pool of node ids
        self.strings = (1, 8)
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


def rint(rng, r):
    return rng.randint(*r)


class Gen:
    def __init__(self, rng, k=None, **kw):
        self.rng = rng
        self.k = k or Knobs(**kw)

    def wild(self):
        return self.rng.random() < self.k.wild

    def table(self):
        rng, k = self.rng, self.k
        if rng.random() < 0.06:         # no strings at all
            self.st = []
            return self.st
        st = [b""] if rng.random() < 0.8 else []
        for _ in range(rint(rng, k.strings)):
            st.append(rng.choice(BADSTR) if rng.random() < k.badstr else rng.choice(STRINGS) if rng.random() < 0.7
                      else ("s%d" % rng.randrange(1000)).encode())
        self.st = st
        return st

    def idx(self, lo=0, signed=False):
        """An index into the string table."""
        rng = self.rng
        if rng.random() < self.k.badstr * 0.6:
            bad = [len(self.st), len(self.st) + 1, 65536, (1 << 31) - 1]
            bad += [-1, -(1 << 31), -2] if signed else [1 << 31, (1 << 32) - 1]
            return rng.choice(bad)
        if len(self.st) <= lo:
            return lo
        return rng.randrange(lo, len(self.st))

    def cut(self, xs):
        """Possibly a different length for one of several parallel arrays."""
        rng = self.rng
        if rng.random() < self.k.uneven:
            if xs and rng.random() < 0.7:
                return xs[:rng.randrange(len(xs))]
            return xs + [xs[-1] if xs else 1] * rng.randint(1, 2)
        return xs

    def cutf(self, xs, f):
        rng = self.rng
        if rng.random() < self.k.uneven:
            if xs and rng.random() < 0.7:
                return xs[:rng.randrange(len(xs))]
            return xs + [f() for _ in range(rng.randint(1, 2))]
        return xs

    def node_id(self):
        if self.k.ids is not None:
            return self.rng.choice(self.k.ids)
        return i64(self.rng, self.wild())

    def info(self):
        rng = self.rng
        w = self.wild()
        return {"ver": maybe(rng, 0.7, lambda: i32(rng, w)), "ts": maybe(rng, 0.7, lambda: i64(rng, w)),
                "cs": maybe(rng, 0.7, lambda: i64(rng, w)), "uid": maybe(rng, 0.7, lambda: i32(rng, w)),
                "sid": maybe(rng, 0.7, lambda: self.idx()), "vis": maybe(rng, 0.6, lambda: rng.random() < 0.5)}

    def kv(self):
        rng = self.rng
        n = rint(rng, self.k.tags)
        keys = [self.idx() for _ in range(n)]
        vals = [self.idx() for _ in range(n)]
        return {"keys": self.cutf(keys, self.idx), "vals": self.cutf(vals, self.idx),
                "info": maybe(rng, self.k.info, self.info)}

    def node(self):
        rng = self.rng
        w = self.wild()
        return dict(self.kv(), id=self.node_id(), lat=i64(rng, w), lon=i64(rng, w))

    def deltas(self, vals):
        """Delta encoding modulo 2^64, as signed numbers."""
        out, last = [], 0
        for v in vals:
            d = (v - last) & pbf.M64
            out.append(d - (1 << 64) if d >> 63 else d)
            last = v
        return out

    def deltas32(self, vals):
        out, last = [], 0
        for v in vals:
            d = (v - last) & 0xFFFFFFFF
            out.append(d - (1 << 32) if d >> 31 else d)
            last = v
        return out

    def dense_kv(self, n):
        rng, kv = self.rng, []
        r = rng.random()
        if r < 0.15:
            return []
        for _ in range(n):
            for _ in range(rint(rng, self.k.tags) if rng.random() < 0.7 else 0):
                kv += [self.idx(1, True), 0 if rng.random() < 0.15 else self.idx(1, True)]
            kv.append(0)
        if rng.random() < self.k.uneven * 2:
            r = rng.random()
            if r < 0.4 and kv:
                kv = kv[:rng.randrange(len(kv))]
            elif r < 0.7:
                kv += [self.idx(1, True) for _ in range(rng.randint(1, 4))]
            elif kv:
                i = rng.randrange(len(kv))
                kv.insert(i, 0)
        return kv

    def dense_info(self, n):
        rng = self.rng
        w = self.wild()
        return {"ver": self.cut([i32(rng, w) for _ in range(n)]),
                "ts": self.cut(self.deltas([i64(rng, w) for _ in range(n)])),
                "cs": self.cut(self.deltas([i64(rng, w) for _ in range(n)])),
                "uid": self.cut(self.deltas32([i32(rng, w) for _ in range(n)])),
                "sid": self.cut(self.deltas32([self.idx(0, True) for _ in range(n)])),
                "vis": self.cut([rng.random() < 0.5 for _ in range(n)]) if rng.random() < 0.6 else []}

    def dense(self):
        rng = self.rng
        n = rint(rng, self.k.n)
        w = self.wild()
        return {"id": self.cut(self.deltas([self.node_id() for _ in range(n)])),
                "lat": self.cut(self.deltas([i64(rng, w) for _ in range(n)])),
                "lon": self.cut(self.deltas([i64(rng, w) for _ in range(n)])),
                "kv": self.dense_kv(n),
                "info": maybe(rng, self.k.info, lambda: self.dense_info(n))}

    def way(self):
        rng = self.rng
        n = rint(rng, self.k.refs)
        w = self.wild()
        lat, lon = [], []
        if rng.random() < self.k.locs:
            lat = self.cut(self.deltas([i64(rng, w) for _ in range(n)]))
            lon = self.cut(self.deltas([i64(rng, w) for _ in range(n)]))
        return dict(self.kv(), id=i64(rng, self.wild()), refs=self.cut(self.deltas([self.node_id() for _ in range(n)])), lat=lat, lon=lon)

    def rel(self):
        rng = self.rng
        n = rint(rng, self.k.refs)
        return dict(self.kv(), id=i64(rng, self.wild()), roles=self.cut([self.idx(0, True) for _ in range(n)]),
                    ids=self.cut(self.deltas([i64(rng, self.wild()) for _ in range(n)])),
                    types=self.cut([rng.choice([3, 7, -1, 100]) if rng.random() < self.k.badtype else rng.randrange(3) for _ in range(n)]))

    def group(self):
        rng = self.rng
        g = {"nodes": [], "dense": None, "ways": [], "rels": []}
        kinds = [k for k in self.k.kinds if rng.random() < 0.6] if rng.random() < self.k.mixed else [rng.choice(self.k.kinds)]
        for k in kinds:
            if k == "node":
                g["nodes"] = [self.node() for _ in range(rint(rng, self.k.n))]
            elif k == "dense":
                g["dense"] = self.dense()
            elif k == "way":
                g["ways"] = [self.way() for _ in range(rint(rng, self.k.n))]
            else:
                g["rels"] = [self.rel() for _ in range(rint(rng, self.k.n))]
        return g

    def block(self):
        rng, k = self.rng, self.k
        st = self.table()
        un = rng.random() < k.units
        w = self.wild()
        return {"kind": "data", "st": st,
                "gran": maybe(rng, 0.6, lambda: rng.choice([1, 10, 100, 1000, 7, 0, -3] + ([(1 << 31) - 1, -(1 << 31)] if w else []))) if un else None,
                "dgran": maybe(rng, 0.6, lambda: rng.choice([1, 1000, 60000, 7, 0, -1] + ([(1 << 31) - 1] if w else []))) if un else None,
                "lato": maybe(rng, 0.6, lambda: i64(rng, w)) if un else None,
                "lono": maybe(rng, 0.6, lambda: i64(rng, w)) if un else None,
                "groups": [self.group() for _ in range(rint(rng, k.groups))]}

    def header(self):
        rng = self.rng
        s = lambda: rng.choice([b"", b"a", b"OsmSchema-V0.6", b"DenseNodes", "Über".encode(), b"x" * 200])
        w = rng.random() < 0.5
        return {"kind": "header", "bbox": maybe(rng, 0.6, lambda: [i64(rng, w) for _ in range(4)]),
                "req": [s() for _ in range(rng.randrange(4))], "optf": [s() for _ in range(rng.randrange(4))],
                "prog": maybe(rng, 0.6, s), "source": maybe(rng, 0.6, s), "rurl": maybe(rng, 0.6, s),
                "rts": maybe(rng, 0.6, lambda: i64(rng, w)), "rseq": maybe(rng, 0.6, lambda: i64(rng, w))}


def empty_header():
    return {"kind": "header", "bbox": None, "req": [], "optf": [], "prog": None, "source": None, "rurl": None, "rts": None, "rseq": None}


def empty_block():
    return {"kind": "data", "st": [b""], "gran": None, "dgran": None, "lato": None, "lono": None, "groups": []}


HEAD, DATA = b"OSMHeader", b"OSMData"
UNKNOWN = [b"OSMFoo", b"", b"OSMHeader2", b"osmdata", b"OSMDat", b"OSMHeade", "Tüp".encode(), b"OSMData\x00",
           b"OSMData ", b" OSMData", b"OSMData\n", b"OSMHeader ", b"\tOSMHeader", b"OSMHeader\x00", b"OSMDATA", b"OSMdata", b"osmheader", b"OSMHEADER", b"OSMHeaders",
           b"OSMDataOSMData", b"OSMHeaderOSMData", b"OSM", b"Data", b"Header", b"OSM Data", b"XOSMData", b"OSMDatb", "OSMData\u00a0".encode(),
           "\ufeffOSMData".encode(), "OSMD\u0430ta".encode(), b"OSMHeadet", b"\x00", b" ", b"OSMIndex", b"d" * 70, b"x" * 300]


def add_msg(b, s, m, rng=None, ty=None, storage=None, **kw):
    """Appends message m to stream s of batch b; random legal encoding if rng is given."""
    n = b.msg(m)
    style = Style(rng) if rng is not None else pbf.PLAIN
    data = pbf.encode(m, style)
    if rng is None:
        return s.add(ty or (DATA if m["kind"] == "data" else HEAD), data, ("msg", n), storage=storage or "raw", **kw)
    return s.add(ty or (DATA if m["kind"] == "data" else HEAD), data, ("msg", n),
                 storage=storage or rng.choice(["raw", "zlib"]), level=rng.choice([0, 1, 6, 9]),
                 order=rng.choice([(1, 2, 3), (3, 1, 2), (2, 3, 1), (3, 2, 1)]), rng=rng, raw_size=rng.random() < 0.7,
                 index=rng.choice([None, None, b"", b"index", b"z" * 200]), **kw)


def add_unknown(b, s, rng, ty=None):
    payload = rng.choice([b"", b"hello", bytes(rng.randrange(256) for _ in range(rng.randrange(40)))])
    return s.add(ty if ty is not None else rng.choice(UNKNOWN), payload, ("any", 0), storage=rng.choice(["raw", "zlib", "raw"]), rng=rng,
                 raw_size=rng.random() < 0.7)


def stream(b, rng, gen, n=None, header=0.7, unknown=0.2, extra_headers=0.1):
    """A well-formed stream; returns its Stream (registered in b, number s.no)."""
    s = Stream()
    if rng.random() < header:
        add_msg(b, s, gen.header(), rng)
    for _ in range(rng.randint(0, 5) if n is None else n):
        r = rng.random()
        if r < unknown:
            add_unknown(b, s, rng)
        elif r < unknown + extra_headers:
            add_msg(b, s, gen.header(), rng)
        else:
            add_msg(b, s, gen.block(), rng)
    s.no = b.stream(s)
    return s


# ---------------------------------------------------------------- realisation of abstract files
JUNK = [b"\xff\xff\xff", b"\x0a\x7f", b"\x08", b"\x12\x05abc", b"\x80" * 11, b"\x07"]      # no protobuf message
# ... at the end of a message; the decoder takes a nested message that is cut by the end of the input for a shorter one
TAILJUNK = [b"\xff\xff\xff", b"\x08", b"\x80" * 11, b"\x07", b"\x00", b"\x03\x0f"]


def add_blob(s, ty, blob, index=None, order=(1, 2, 3)):
    """A frame around arbitrary blob bytes."""
    pos = len(s.data)
    s.data += pbf.frame_bytes(pbf.blob_header(ty, len(blob), order, index), blob)
    s.blobs.append((pos, ty, ("blob", 0)))
    return pos


def add_damaged(b, s, rng, ty, m=None, index=None):
    """A frame whose content does not decode."""
    m = m or {"kind": "data"} and empty_block()
    payload = pbf.encode(m)
    how = rng.choice(["blob", "none", "other", "junk", "zjunk", "zcut", "zflip", "zsum", "ztail"])
    kw = {"index": index}
    if how == "blob":
        return add_blob(s, ty, rng.choice(JUNK), index)
    if how == "none":
        return s.add(ty, payload, ("bad", 0), storage="none", raw_size=rng.random() < 0.5, **kw)
    if how == "other":
        return s.add(ty, payload, ("bad", 0), storage=rng.choice(["lzma", "bzip2", "lz4", "zstd"]), **kw)
    if how == "junk":
        return s.add(ty, payload + rng.choice(TAILJUNK), ("bad", 0), **kw)
    if how == "zjunk":
        return s.add(ty, payload + rng.choice(TAILJUNK), ("bad", 0), storage="zlib", **kw)
    z = bytearray(pbf.deflate(payload, rng.choice([0, 1, 6, 9])))
    if how == "zcut":
        z = z[:rng.randrange(len(z))]
    elif how == "zsum":
        z[-1 - rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif how == "ztail":
        z = z[2:]
    else:
        z[rng.randrange(len(z))] ^= 1 << rng.randrange(8)
    return add_z(s, ty, bytes(z), index=index)


def add_z(s, ty, z, msg=0, good=None, index=None, **kw):
    """A zlib content; what it stands for is what zlib itself says."""
    x = pbf.inflate(z)
    if x is None:
        mean = ("bad", 0)
    elif x != "big" and good is not None and x == good:
        mean = ("msg", msg)
    else:
        mean = ("any", 0)
    return s.add(ty, z, mean, storage="zlibraw", index=index, raw_size=False, **kw)


SMALL = Knobs(groups=(0, 2), n=(0, 2), tags=(0, 1), refs=(0, 2), strings=(1, 2), info=0.2, units=0.2, wild=0.2, locs=0.2)


def cell_block(rng, name):
    """A block of the shape named by a cell of MC_Files."""
    ids = list(range(-2, 7)) if rng.random() < 0.7 else [1, 2, (1 << 40), -(1 << 63), (1 << 63) - 1]
    kinds = {"empty": [], "nodes": ["node"], "dense": ["dense"], "ways": ["way"], "rels": ["rel"],
             "mixed": ["node", "dense", "way", "rel"]}[name]
    g = Gen(rng, Knobs(groups=(1, 2), mixed=1.0 if name == "mixed" else 0.0, kinds=kinds or ("node",), n=(1, 3), ids=ids, tags=(0, 1),
                       refs=(0, 4), strings=(1, 2), info=0.2, units=0.2, wild=0.1, locs=0.1))
    m = g.block()
    if name == "empty":
        m["groups"] = [{"nodes": [], "dense": None, "ways": [], "rels": []} for _ in range(rng.randrange(3))]
    for gr in m["groups"]:
        for i, w in enumerate(gr["ways"]):
            w["id"] = rng.choice([1, 2, 3, 4, 5, -1])
    return m


def add_cell(b, s, rng, c, index=None):
    if c == "head":
        return add_msg(b, s, Gen(rng, SMALL).header(), rng if index is None else None, **({} if index is None else {"index": index}))
    if c == "badhead":
        return add_damaged(b, s, rng, HEAD, empty_header(), index)
    if c == "unk":
        return add_unknown(b, s, rng)
    if c == "badunk":
        return add_blob(s, rng.choice(UNKNOWN), rng.choice(JUNK))
    if c == "bad":
        return add_damaged(b, s, rng, DATA, cell_block(rng, rng.choice(["nodes", "ways"])), index)
    return add_msg(b, s, cell_block(rng, c), rng)


def add_tail(b, s, rng, tail, size=None):
    """Bytes after the last frame: nothing, a cut frame, or something that is no frame."""
    if tail == "none":
        return
    if tail in ("cut", "cutdata", "cuthead"):
        ty = HEAD if tail == "cuthead" else DATA if tail == "cutdata" else rng.choice([HEAD, DATA, b"OSMFoo"])
        n = rng.randrange(0, 30)
        extra = rng.choice([1, 2, 1000, (1 << 20), (1 << 31) - 1 - 60])
        if size is None:
            order = rng.choice([(1, 2, 3), (3, 1, 2), (2, 3, 1)])
            s.data += pbf.frame_bytes(pbf.blob_header(ty, n + extra, order), b"\x0a" * n)
        else:
            k = size
            for _ in range(6):        # the declared size influences the length of the header
                h = pbf.blob_header(ty, k + extra, (1, 2, 3), b"")
                k = size - 4 - len(h)
            s.data += pbf.frame_bytes(h, b"\x00" * k)
        return
    if tail == "hbig":
        n = rng.choice([65536, 65537, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) - 1])
        body = rng.choice([b"", b"abc"]) if size is None else b"\x00" * (size - 4)
        s.data += n.to_bytes(4, "big") + body
        return
    assert tail == "err"
    if size is None:
        how = rng.randrange(6)
        if how == 0:
            s.data += bytes(rng.randrange(4) and [0, 0, 0][: rng.randint(1, 3)] or [0])
        elif how == 1:
            s.data += (20).to_bytes(4, "big") + b"\x0a" * 5
        elif how == 2:
            s.data += (3).to_bytes(4, "big") + b"\xff\xff\xff" + b"rest"
        elif how == 3:
            s.data += (0).to_bytes(4, "big")
        elif how == 4:      # a negative size
            s.data += pbf.frame_bytes(pbf.blob_header(DATA, -rng.choice([1, 5, 1 << 31])), b"abc")
        else:               # a required field is missing
            h = rng.choice([pbf.f_bytes(1, DATA), pbf.f_varint(3, 0), pbf.f_bytes(2, b"x")])
            s.data += pbf.frame_bytes(h, b"")
    else:
        k = rng.randrange(4, min(60, size - 4))
        s.data += k.to_bytes(4, "big") + b"\xff" * (size - 4)


def cells_stream(b, rng, cells, tail):
    """A file of MC_Files."""
    s = Stream()
    for c in cells:
        add_cell(b, s, rng, c)
    s.end = len(s.data)
    add_tail(b, s, rng, tail)
    s.no = b.stream(s)
    return s


def even_stream(b, rng, cells, tail):
    """A file of MC_Stream: all frames, and the tail, have the same length s.unit."""
    while True:
        makers = []
        for c in cells:
            r = rng.random()
            if c == "bad":
                makers.append(("bad", rng.choice([HEAD, DATA, b"OSMFoo"]), rng.random()))
            elif r < 0.25:
                makers.append(("msg", Gen(rng, SMALL).header(), rng.choice(["raw", "zlib"])))
            elif r < 0.75:
                makers.append(("msg", Gen(rng, SMALL).block(), rng.choice(["raw", "zlib"])))
            else:
                makers.append(("unk", rng.choice(UNKNOWN[:-1]), bytes(rng.randrange(256) for _ in range(rng.randrange(20)))))
        import random as _r

        def make(bb, s, mk, index):
            if mk[0] == "bad":
                # the same random choices each time
                add_damaged(bb, s, _r.Random(mk[2]), mk[1], empty_block(), index)
            elif mk[0] == "msg":
                m = mk[1]
                n = bb.msg(m)
                s.add(DATA if m["kind"] == "data" else HEAD, pbf.encode(m), ("msg", n), storage=mk[2], index=index)
            else:
                s.add(mk[1], mk[2], ("any", 0), index=index)

        class Scratch:
            def msg(self, m):
                return 0

        lens = []
        for mk in makers:
            t = Stream()
            make(Scratch(), t, mk, b"")
            lens.append(len(t.data))
        unit = max(lens + [64])
        if all(unit - x <= 120 for x in lens):
            break
    s = Stream()
    for mk, x in zip(makers, lens):
        make(b, s, mk, b"i" * (unit - x))
        assert len(s.data) % unit == 0, (mk, unit, len(s.data))
    s.end = len(s.data)
    add_tail(b, s, rng, tail, unit)
    assert tail == "none" or len(s.data) == s.end + unit, tail
    s.unit = unit
    s.no = b.stream(s)
    return s


def frame_like(rng):
    """Bytes of a small complete frame."""
    payload = pbf.encode(empty_block()) if rng.random() < 0.7 else b"abc"
    ty = DATA if rng.random() < 0.6 else b"OSMFoo"
    blob = pbf.f_bytes(1, payload)
    return pbf.frame_bytes(pbf.blob_header(ty, len(blob)), blob)


def ambiguous_stream(b, rng):
    """A stream in which frames start at places where a reader that has lost its position could find
    them: inside of contents, inside of headers, right behind a broken size field or header.
    Returns the stream and the interesting positions."""
    s, offs = Stream(), []
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        at = len(s.data)
        offs.append(at)
        if r < 0.4:             # frames inside of a content
            inner = b"".join(frame_like(rng) for _ in range(rng.randint(1, 2)))
            if rng.random() < 0.5:
                s.add(rng.choice([b"OSMFoo", b"x"]), inner, ("any", 0), raw_size=False, index=rng.choice([None, b"i"]))
                offs.append(len(s.data) - len(inner))
            else:
                add_blob(s, b"OSMFoo", inner)      # the content itself is a frame
                offs.append(len(s.data) - len(inner))
        elif r < 0.6:           # a frame inside of a header
            inner = frame_like(rng)
            s.add(DATA, pbf.encode(empty_block()), ("msg", b.msg(empty_block())), index=inner, raw_size=False)
            offs.append(s.data.index(inner, at))
        else:
            add_cell(b, s, rng, rng.choice(["nodes", "head", "unk"]))
        offs += [at + 4, at + 4 + int.from_bytes(s.data[at:at + 4], "big")]
    r = rng.random()
    at = len(s.data)
    offs.append(at)
    if r < 0.4:                 # a broken size field, directly followed by frames
        s.data += rng.choice([65536, 70000, 1 << 24, (1 << 32) - 1, 1 << 31]).to_bytes(4, "big")
    elif r < 0.7:               # a header that is none
        junk = rng.choice([b"\xff\xff\xff", b"\x07", b"", pbf.f_bytes(1, DATA), pbf.blob_header(DATA, -3), pbf.blob_header(b"\xff", 3)])
        s.data += len(junk).to_bytes(4, "big") + junk
        offs.append(at + 4)
    if r < 0.7:
        for _ in range(rng.randint(1, 3)):
            offs.append(len(s.data))
            add_cell(b, s, rng, rng.choice(["nodes", "head", "unk", "empty"]))
    s.no = b.stream(s)
    return s, offs + [len(s.data), len(s.data) + 4]


# ---------------------------------------------------------------- damage
def adjust(s, at, removed, inserted):
    """cont after data[at:at+removed] was replaced by inserted bytes (already done)."""
    d = inserted - removed
    out = []
    for c in s.cont:
        c = dict(c)
        if c["e"] <= at and not (c["e"] == at and inserted):
            out.append(c)
        elif c["s"] >= at + removed:
            c["s"] += d
            c["e"] += d
            out.append(c)
        elif d == 0:
            out.append(reconsider(s, c))
        # otherwise the content has changed its length: nothing is known about it
    s.cont = out


def reconsider(s, c):
    """A content some of whose bytes were changed."""
    # only zlib contents with a checksum are surely damaged; leave the judgement to zlib itself
    z = bytes(s.data[c["s"]:c["e"]])
    if c.get("z"):
        x = pbf.inflate(z)
        if x is None:
            return dict(c, k="bad", m=0, n=0)
    return dict(c, k="any", m=0)


def copy_stream(s):
    t = Stream()
    t.data = bytearray(s.data)
    t.cont = [dict(c) for c in s.cont]
    t.blobs = list(s.blobs)
    return t


def mutate(s, rng, times=1):
    """A damaged copy of s."""
    t = copy_stream(s)
    for _ in range(times):
        n = len(t.data)
        how = rng.choice(["flip", "flip", "byte", "byte", "size", "cut", "insert", "delete", "dup", "head", "zero"])
        at = rng.randrange(n) if n else 0
        if n == 0 and how != "insert":
            how = "insert"
        if how == "flip":
            t.data[at] ^= 1 << rng.randrange(8)
            adjust(t, at, 1, 1)
        elif how == "byte":
            t.data[at] = rng.choice([0, 1, 127, 128, 255, rng.randrange(256)])
            adjust(t, at, 1, 1)
        elif how in ("size", "head") and t.blobs:
            # a byte of the frame head
            p = rng.choice(t.blobs)[0]
            at = min(p + (rng.randrange(4) if how == "size" else rng.randrange(4, 24)), n - 1)
            t.data[at] = rng.choice([0, 1, 2, 127, 128, 129, 255, t.data[at] ^ 1, (t.data[at] + 1) & 255, (t.data[at] - 1) & 255])
            adjust(t, at, 1, 1)
        elif how == "zero":
            k = min(rng.randint(1, 8), n - at)
            t.data[at:at + k] = bytes(k)
            adjust(t, at, k, k)
        elif how == "cut":
            del t.data[at:]
            t.cont = [c for c in t.cont if c["e"] <= at]
            t.blobs = [x for x in t.blobs if x[0] < at]
        elif how == "insert":
            x = bytes(rng.randrange(256) for _ in range(rng.randint(1, 6)))
            t.data[at:at] = x
            adjust(t, at, 0, len(x))
        elif how == "delete":
            k = min(rng.randint(1, 6), n - at)
            del t.data[at:at + k]
            adjust(t, at, k, 0)
        elif how == "dup":
            k = min(rng.randint(1, 40), n - at)
            x = bytes(t.data[at:at + k])
            t.data[at:at] = x
            adjust(t, at, 0, k)
    return t
