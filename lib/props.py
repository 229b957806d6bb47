"""One function per property: which behaviours are generated, executed and validated."""
import itertools
import random

from . import gen, pbf
from .core import Batch, Stream
from .gen import DATA, HEAD, Gen, Knobs, add_cell, add_msg, add_tail, add_unknown, cells_stream, empty_block, empty_header, \
    even_stream, mutate, stream
from .pbf import Style, limbs

ALL = ["all"]
BRIEF = Knobs(groups=(0, 2), n=(0, 3), tags=(0, 2), refs=(0, 3), strings=(1, 4))
TINY = Knobs(groups=(0, 1), n=(0, 2), tags=(0, 1), refs=(0, 2), strings=(1, 2), info=0.2, units=0.2, locs=0.2)
BUFFERED = ["new", "bufnew", "seekable", "bufseekable", "path", "seekpath"]
MAPPED = ["mmap", "mmapfile"]
KINDS = ["NotFound", "PermissionDenied", "ConnectionRefused", "ConnectionReset", "HostUnreachable", "NetworkUnreachable", "ConnectionAborted",
         "NotConnected", "AddrInUse", "AddrNotAvailable", "NetworkDown", "BrokenPipe", "AlreadyExists", "WouldBlock", "NotADirectory",
         "IsADirectory", "DirectoryNotEmpty", "ReadOnlyFilesystem", "StaleNetworkFileHandle", "InvalidInput", "InvalidData", "TimedOut", "WriteZero",
         "StorageFull", "NotSeekable", "QuotaExceeded", "FileTooLarge", "ResourceBusy", "ExecutableFileBusy", "Deadlock", "CrossesDevices",
         "TooManyLinks", "InvalidFilename", "ArgumentListTooLong", "Interrupted", "Unsupported", "UnexpectedEof", "OutOfMemory", "Other"]
OS = [(5, "InputOutputError"), (29, "NotSeekable"), (4, "Interrupted"), (6, "Uncategorized"), (11, "WouldBlock"), (116, "StaleNetworkFileHandle"), (22, "InvalidInput"),
      (21, "IsADirectory"), (75, "Uncategorized"), (9, "Uncategorized"), (110, "TimedOut"), (1, "PermissionDenied"), (121, "Uncategorized"), (61, "Uncategorized")]
CHUNKS = [[1], [2], [3, 1], [7], [1, 100], [64], [4096]]


# ---------------------------------------------------------------- steps
def op_open(f, via="new", h="a", pos=None, **kw):
    st = {"op": "open", "h": h, "f": f, "via": via}
    if pos:
        st["pos"] = pos
    st.update(kw)
    return st


def op_next(dec="brief", h="a", **kw):
    return dict({"op": "next", "h": h, "dec": dec}, **kw)


def op_hdr(h="a", **kw):
    return dict({"op": "hdr", "h": h}, **kw)


def op_seek(to, h="a", **kw):
    return dict({"op": "seek", "h": h, "to": limbs(to)}, **kw)


def op_raw(frm, d, h="a", **kw):
    return dict({"op": "seekraw", "h": h, "from": frm, "d": limbs(d)}, **kw)


def op_from(to, dec="brief", h="a", **kw):
    return dict({"op": "from", "h": h, "to": limbs(to), "dec": dec}, **kw)


def op_foreach(f, via="new", full=False, **kw):
    return dict({"op": "foreach", "f": f, "via": via, "full": full}, **kw)


def op_par(f, via="new", threads=4, seed=1, **kw):
    return dict({"op": "par", "f": f, "via": via, "threads": threads, "seed": seed}, **kw)


def chunk(rng):
    return rng.choice(CHUNKS) if rng.random() < 0.6 else []


def opened(rng, f, via, pos=None, h="a"):
    """An open step with short reads or a small buffer where that is possible."""
    st = op_open(f, via, h, pos)
    if via in ("new", "seekable", "bufnew", "bufseekable"):
        st["chunk"] = chunk(rng)
    if via.startswith("buf"):
        st["cap"] = rng.choice([1, 2, 3, 8, 100, 8192])
    return st


def iterate(n, dec, rng=None, h="a"):
    return [op_next(dec if rng is None else rng.choice(dec), h) for _ in range(n)]


def fault(rng, at, on="any", kind=None, times=None):
    os, name = rng.choice(OS) if kind is None and rng.random() < 0.2 else (0, kind or rng.choice(KINDS))
    return {"at": at, "on": on, "kind": name, "os": os, "times": times or rng.choice([1, 1, 1, 2, 1000000])}


def el_weight(b, s):
    """Roughly the cost of looking at all contents of a stream once."""
    return 2 + len(s.data) // 60


# ---------------------------------------------------------------- behaviours of MC_Stream
def stream_plan(ck, plan, faults=True, mapped=True):
    """Realises one behaviour of MC_Stream on concrete bytes."""
    rng = ck.rng
    b = ck.batch(len(plan["ops"]) + 3)
    s = even_stream(b, rng, plan["cells"], plan["tail"])
    u = s.unit
    needs_fault = any(o["flt"] != "no" for o in plan["ops"])
    if plan["mm"]:
        via = rng.choice(MAPPED)
    elif plan["known"]:
        via = rng.choice(["seekable", "bufseekable"] if needs_fault else ["seekable", "bufseekable", "path", "seekpath"])
    else:
        via = rng.choice(["new", "bufnew"])
    steps = [opened(rng, s.no, via)]
    if needs_fault:
        steps[0]["chunk"] = []
    for o in plan["ops"]:
        kw = {}
        if o["flt"] == "yes":
            kw["fault"] = fault(rng, rng.choice([0, 0, 1, 1, 2, 3]), times=1)
        elif o["flt"] != "no":
            kw["fault"] = fault(rng, 0 if o["flt"] == "ended" else rng.choice([0, 1, 1, 2, 3]), "read", "Pause", 1)
        a = o["a"]
        big = (1 << 64) - rng.choice([1, 2, 1 << 62])
        if o["op"] == "next":
            steps.append(op_next(**kw))
        elif o["op"] == "hdr":
            steps.append(op_hdr(**kw))
        elif o["op"] == "seek":
            steps.append(op_seek(a * u if a >= 0 else big, **kw))
        elif o["op"] == "from":
            steps.append(op_from(a * u if a >= 0 else big, **kw))
        elif o["op"] == "start":
            steps.append(op_raw("start", a * u if a >= 0 else big, **kw))
        else:
            steps.append(op_raw(o["op"], a * u, **kw))
    b.session(steps, plan="MC_Stream")


def stream_plans(ck, plans, n, keep):
    for p in ck.sample([p for p in plans if keep(p)], n):
        stream_plan(ck, p)


# ---------------------------------------------------------------- large streams
def large_block(rng, n, kinds=("node", "dense", "way", "rel"), refs=1, base=None):
    """A block with n elements of each of these kinds, all with different ids."""
    if base is None:
        base = rng.choice([0, 1000, -(1 << 40), (1 << 62)])
    g = {"nodes": [], "dense": None, "ways": [], "rels": []}
    plain = {"keys": [], "vals": [], "info": None}
    for k in kinds:
        ids = [base + i * rng.choice([1, 1, 1, 3]) + (i * 4 if i % 2 else 0) for i in range(n)]
        ids = list(dict.fromkeys(ids))
        while len(ids) < n:
            ids.append(max(ids) + 1)
        base += 1 << 20
        if k == "node":
            g["nodes"] = [dict(plain, id=i, lat=1, lon=2) for i in ids]
        elif k == "dense":
            gg = Gen(rng)
            g["dense"] = {"id": gg.deltas(ids), "lat": [1] * n, "lon": [2] * n, "kv": [], "info": None}
        elif k == "way":
            g["ways"] = [dict(plain, id=i, refs=[5] * refs, lat=[], lon=[]) for i in ids]
        else:
            g["rels"] = [dict(plain, id=i, roles=[], ids=[], types=[]) for i in ids]
    return {"kind": "data", "st": [b""], "gran": None, "dgran": None, "lato": None, "lono": None, "groups": [g]}


def large_stream(b, rng, sizes, kinds=None):
    """Blocks of these sizes."""
    blobs = [(HEAD, Gen(rng, TINY).header(), "raw")]
    for n in sizes:
        blobs.append((DATA, large_block(rng, n, kinds or (rng.choice(["node", "dense", "way", "rel"]),)), rng.choice(["raw", "zlib"])))
    return table_frames(b, rng, 0, blobs)[0]


def wide_stream(b, rng, n):
    """Many blobs, each with a few elements (no two the same if there are very many: bags are slow)."""
    blobs = []
    start = rng.choice([0, 1000, -(1 << 40), (1 << 62)])
    for i in range(n):
        r = rng.random()
        if r < 0.85:
            blobs.append((DATA, large_block(rng, rng.randint(1, 2), (rng.choice(["node", "dense", "way", "rel"]),),
                                            base=start + 16 * i if n > 1000 else None), rng.choice(["raw", "zlib"])))
        elif r < 0.93:
            blobs.append((HEAD, empty_header(), "raw"))
        else:
            blobs.append((rng.choice([b"OSMFoo", b"x"]), b"xyz", "raw"))
    return table_frames(b, rng, 0, blobs)


def grouped_stream(b, rng, n, kinds=("node", "dense", "way", "rel")):
    """A block of n groups, most with one element."""
    m = None
    start = rng.choice([0, 1000, -(1 << 40), (1 << 62)])
    for i in range(n):
        k = large_block(rng, rng.choice([1, 1, 1, 2, 0]), (rng.choice(kinds),), base=start + 16 * i)
        if m is None:
            m = k
        else:
            m["groups"] += k["groups"]
    return table_frames(b, rng, 0, [(DATA, m, rng.choice(["raw", "zlib"]))])


def scaled(ck, steps, sizes=(), wide=0, groups=0, kinds=None, **meta):
    """One session (or several) on a stream with blocks of these sizes, with many blobs or with many groups; a batch of
    its own."""
    rng = ck.rng
    b = ck.batch(2000)
    if wide:
        s, starts = wide_stream(b, rng, wide)
    elif groups:
        s, starts = grouped_stream(b, rng, groups)
    else:
        s, starts = large_stream(b, rng, sizes, kinds), []
    for st in steps(s.no, starts):
        b.session(st, sizes=list(sizes), blobs=wide, groups=groups, **meta)


def small_frames(ck, walk, n=3):
    """Streams of up to n frames, contents of no bytes among them; walk(b, stream) adds the sessions.  All of two frames,
    a sample of the longer ones."""
    rng = ck.rng
    cells = ["data", "data0", "head0", "unk0", "unk"]
    todo = [c for k in range(1, min(n, 2) + 1) for c in itertools.product(cells, repeat=k)]
    todo += ck.sample([c for k in range(3, n + 1) for c in itertools.product(cells, repeat=k)], ck.pick(20, 400))
    for cs in todo:
        b = ck.batch(12)
        s = Stream()
        for c in cs:
            if c == "data":
                add_cell(b, s, rng, "nodes")
            elif c.startswith("unk"):
                gen.add_blob(s, rng.choice(gen.UNKNOWN), b"" if c == "unk0" else pbf.f_bytes(1, b"x"))
            else:
                s.add(DATA if c == "data0" else HEAD, b"", ("bad", 0), storage="none", raw_size=False)
        walk(b, s, {"frames": list(cs)})


# ---------------------------------------------------------------- C01
def c01(ck):
    d = ck.design("MC_Files", "MC_Files.cfg", plans=True)
    d2 = ck.design("MC_Files", "MC_Files4.cfg", timeout=850) if ck.thorough else None
    rng = ck.rng
    go = wire_plans(ck, "group", ck.pick(150, 3000))
    scaled(ck, lambda f, _: [[op_foreach(f, "path")]], wide=ck.pick(4300, 17000))
    scaled(ck, lambda f, _: [[op_foreach(f, "new")]], groups=ck.pick(4300, 66000))
    scaled(ck, lambda f, _: [[op_foreach(f, "new")]], sizes=ck.pick([8001, 300], [8001, 16001, 300, 33000]))
    for k in range(ck.pick(120, 1500)):
        b = ck.batch(60)
        s = stream(b, rng, Gen(rng, Knobs(uneven=0.1, badstr=0.1)), n=rng.randint(0, 6))
        b.session([op_foreach(s.no, rng.choice(["new", "path", "bufnew"]), True, chunk=chunk(rng))], gen="stream")
        # the same elements when reading starts at some frame
        if s.blobs:
            p = rng.choice(s.blobs)[0]
            b.session([op_foreach(s.no, rng.choice(["new", "bufnew"]), True, pos=p)], gen="from a frame on")
    for k in range(ck.pick(150, 1500)):      # one damaged place in a longer stream
        b = ck.batch(30)
        cells = [rng.choice(["nodes", "dense", "ways", "rels", "mixed", "empty", "unk", "head"]) for _ in range(rng.randint(1, 7))]
        if rng.random() < 0.8:
            cells[rng.randrange(len(cells))] = rng.choice(["bad", "badhead", "bad", "badunk"])
        s = cells_stream(b, rng, cells, rng.choice(["none", "none", "cutdata", "err"]))
        b.session([op_foreach(s.no, rng.choice(["new", "path", "bufnew"]), rng.random() < 0.5)], cells=cells)
    # many small groups and many blobs
    for k in range(ck.pick(6, 40)):
        b = ck.batch(200)
        g = Gen(rng, Knobs(groups=(4, 12), n=(0, 3), tags=(0, 1), refs=(0, 2), strings=(1, 2), info=0.1, mixed=0.7))
        s = stream(b, rng, g, n=rng.randint(6, 12))
        b.session([op_foreach(s.no, rng.choice(["new", "path"]), True)], gen="many")
    for p in ck.sample(d.result(), ck.pick(1500, 6000)):
        b = ck.batch(6 + 2 * len(p["cells"]))
        s = cells_stream(b, rng, p["cells"], p["tail"])
        b.session([op_foreach(s.no, rng.choice(["new", "path", "bufnew"]), rng.random() < 0.3)], cells=p["cells"], tail=p["tail"])
    if d2:
        d2.result()
    go()
    return "all files of up to 3 abstract blobs and tails (TLC), each realised with random contents, and seeded random streams with " \
           "at most one damaged blob; the callback sequence has to be the one defined by Files!SeqRead"


# ---------------------------------------------------------------- C02
def c02(ck):
    ds = [ck.design("MC_Par", "MC_Par.cfg"), ck.design("MC_Par", "MC_Par_live.cfg")]
    if ck.thorough:
        ds += [ck.design("MC_Par", "MC_Par_large.cfg", timeout=880), ck.prove("ParProof")]
    d = ck.design("MC_Files", "MC_Files.cfg", plans=True)
    rng = ck.rng
    scaled(ck, lambda f, _: [[op_par(f, "new", 8, rng.randrange(1 << 30))]], wide=ck.pick(270, 600))
    scaled(ck, lambda f, _: [[{"op": "parlist", "f": f, "via": "path", "threads": 4}]], wide=ck.pick(4300, 17000))
    scaled(ck, lambda f, _: [[{"op": "parlist", "f": f, "via": "new", "threads": 2}]], groups=ck.pick(4300, 66000))
    for sizes in ck.pick([[8001, 17000]], [[8001, 17000], [70000], [4096, 4097, 9000]]):
        scaled(ck, lambda f, _: [[{"op": "parlist", "f": f, "via": v, "threads": t}] for v, t in (("path", 8), ("new", 1))], sizes=sizes)
    small = Knobs(groups=(0, 2), n=(0, 4), tags=(0, 1), refs=(0, 1), strings=(1, 2), info=0.1, units=0.1, locs=0.1)
    for k in range(ck.pick(24, 150)):
        b = ck.batch(400)
        s = stream(b, rng, Gen(rng, small), n=rng.choice([1, 2, 5, 12, 25]), unknown=0.1)
        for t in rng.sample([1, 2, 3, 4, 8, 16], 2):
            b.session([op_par(s.no, rng.choice(["new", "bufnew", "path"]), t, rng.randrange(1 << 30))], threads=t)
    for k in range(ck.pick(40, 300)):    # an error somewhere among many blobs
        b = ck.batch(150)
        cells = [rng.choice(["nodes", "dense", "mixed", "rels", "empty", "unk"]) for _ in range(rng.choice([3, 8, 16]))]
        bad = rng.choice(["bad", "bad", "badhead", "tail", "tail"])
        tail = "none"
        if bad == "tail":
            tail = rng.choice(["cutdata", "cuthead", "err"])
        else:
            cells[rng.choice([0, len(cells) - 1, rng.randrange(len(cells))])] = bad
        s = cells_stream(b, rng, cells, tail)
        for t in rng.sample([1, 2, 4, 8], 2):
            b.session([op_par(s.no, rng.choice(["new", "bufnew", "path"]), t, rng.randrange(1 << 30))], cells=cells, threads=t)
    # failures of the stream while it is read in parallel
    for k in range(ck.pick(60, 600)):
        b = ck.batch(60)
        cells = [rng.choice(["nodes", "dense", "mixed", "rels", "head"]) for _ in range(rng.choice([1, 3, 6]))]
        s = cells_stream(b, rng, cells, "none")
        b.session([op_par(s.no, "new", rng.choice([1, 2, 4, 8]), rng.randrange(1 << 30), fault=fault(rng, rng.randrange(0, 4 * len(cells) + 2)))],
                  cells=cells)
    for p in ck.sample(d.result(), ck.pick(500, 4000)):
        b = ck.batch(30)
        s = cells_stream(b, rng, p["cells"], p["tail"])
        b.session([op_par(s.no, rng.choice(["new", "path", "bufnew"]), rng.choice([1, 2, 4, 8]), rng.randrange(1 << 30))],
                  cells=p["cells"], tail=p["tail"])
    for k in range(ck.pick(50, 500)):        # the closure panics in one of its calls
        b = ck.batch(60)
        cells = [rng.choice(["nodes", "dense", "mixed", "rels", "head", "unk"] + ["bad"] * (k % 4 == 0)) for _ in range(rng.choice([1, 3, 6, 16]))]
        s = cells_stream(b, rng, cells, "none")
        b.session([op_par(s.no, rng.choice(["new", "path"]), rng.choice([1, 2, 4, 8]), rng.randrange(1 << 30), bomb=rng.choice([1, 1, 2, 3, 5, 9, 20, 1000])),
                   op_par(s.no, "new", 2, rng.randrange(1 << 30))], cells=cells, gen="closure panics")
    for x in ds:
        x.result()
    return "all schedules of the map/reduce design (TLC); every closure call of real runs with 1 to 16 threads and random delays has to " \
           "be a step of Par, on all files of up to 3 abstract blobs and on seeded streams of up to 25 blobs"


# ---------------------------------------------------------------- C03
def c03(ck):
    d = ck.design("MC_Stream", "MC_Stream_emit.cfg", plans=True)
    ck_design_stream(ck)
    rng = ck.rng
    big_contents(ck, ck.pick(10, 100), big_mapped)
    n = ck.pick(4300, 17000)
    small_frames(ck, lambda b, s, meta: b.session([opened(rng, b.stream(s), rng.choice(BUFFERED + MAPPED))] + iterate(len(s.blobs) + 2, "brief"), **meta))
    scaled(ck, lambda f, _: [[op_open(f, rng.choice(BUFFERED))] + iterate(303, "brief")], wide=300)
    scaled(ck, lambda f, _: [[op_open(f, rng.choice(BUFFERED))] + iterate(n + 2, "no")], wide=n)
    for k in range(ck.pick(100, 1200)):
        b = ck.batch(120)
        s = stream(b, rng, Gen(rng, BRIEF), n=rng.randint(0, 6), unknown=0.35, extra_headers=0.2)
        n = len(s.blobs) + 2
        for via in rng.sample(BUFFERED, 4):
            b.session([opened(rng, s.no, via)] + iterate(n, ["full", "brief", "no", "count"], rng), via=via)
        if s.blobs:         # from the middle of the stream
            i = rng.randrange(len(s.blobs))
            via = rng.choice(["new", "bufnew", "seekable", "bufseekable"])
            b.session([opened(rng, s.no, via, pos=s.blobs[i][0])] + iterate(n - i, "brief"), via=via, start=i)
    big_offsets(ck, ck.pick(20, 150), lambda rng, f, starts: [opened(rng, f, rng.choice(["seekable", "bufseekable"]), pos=starts[0])] +
                iterate(len(starts) + 2, "brief"))
    stream_plans(ck, d.result(), ck.pick(400, 4000), lambda p: all(o["op"] == "next" and o["flt"] == "no" for o in p["ops"]))
    return "random streams read by every constructor, from the start and from the middle, with short reads and small buffers, at offsets " \
           "beyond 4 GiB, and the behaviours of MC_Stream that only iterate; every item has to be the one of Stream!Next"


def ck_design_stream(ck):
    ck.pending = getattr(ck, "pending", [])
    ck.pending.append(ck.design("MC_Stream", "MC_Stream.cfg", **({"MaxFrames": 3} if ck.thorough else {})))
    if ck.thorough:
        ck.pending.append(ck.prove("StreamProof"))


HUGE = [1 << 31, (1 << 31) - 7, 1 << 32, (1 << 32) - 30, (1 << 32) + 5, 5 << 32, (1 << 40) + 3, (1 << 45) - 20, (1 << 46) + 1]


def table_frames(b, rng, base, blobs):
    """A stream that consists of zeros up to base and then of these frames; TLC gets a table of the
    frames because byte positions do not fit its integers.  blobs: [(type, message or payload, storage)]"""
    s = Stream()
    s.ext, data, frames, starts = [], bytearray(), [], []
    pos = base
    for ty, what, storage in blobs:
        t = Stream()
        if isinstance(what, dict):
            t.add(ty, pbf.encode(what), ("msg", b.msg(what)), storage=storage)
        elif isinstance(what, tuple):       # bytes and their meaning
            t.add(ty, what[0], ("msg", b.msg(what[1])), storage=storage.rstrip("0"), level=0 if storage == "zlib0" else 6)
        else:
            t.add(ty, what, ("any", 0), storage=storage)
        c = t.cont[0]
        key = len(s.cont) * 2 + 1
        s.cont.append(dict(c, s=key, e=key + (c["e"] - c["s"])))
        hsize = 4 + int.from_bytes(t.data[:4], "big")
        frames.append({"pos": limbs(pos), "k": "frame", "ty": list(ty), "size": limbs(len(t.data) - hsize),
                       "nx": limbs(pos + len(t.data)), "c": {"k": "z" if c["z"] else "raw", "s": key, "e": key + (c["e"] - c["s"])}})
        starts.append(pos)
        data += t.data
        pos += len(t.data)
    s.ext = [(base, bytes(data))]
    s.frames = frames
    s.len = pos
    s.no = b.stream(s)
    return s, starts


def small_blobs(rng, n):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.6:
            out.append((DATA, Gen(rng, TINY).block(), rng.choice(["raw", "zlib"])))
        elif r < 0.8:
            out.append((HEAD, Gen(rng, TINY).header(), rng.choice(["raw", "zlib"])))
        else:
            out.append((rng.choice(gen.UNKNOWN[:-1]), b"xyz", "raw"))
    return out


def big_offsets(ck, n, steps):
    rng = ck.rng
    for _ in range(n):
        b = ck.batch(12)
        s, starts = table_frames(b, rng, rng.choice(HUGE), small_blobs(rng, rng.randint(1, 4)))
        b.session(steps(rng, s.no, starts + [s.len]), gen="beyond 4 GiB")


# ---------------------------------------------------------------- C04
def c04(ck):
    d = ck.design("MC_Stream", "MC_Stream_emit.cfg", plans=True)
    ck_design_stream(ck)
    rng = ck.rng
    go = wire_plans(ck, "bheader", ck.pick(120, 3000), readers=("hdr",))
    scaled(ck, lambda f, st: [[op_open(f, rng.choice(BUFFERED))] + [op_hdr() for _ in range(302)] + [op_from(x) for x in st[250:280]]], wide=300)
    n = ck.pick(4300, 17000)
    scaled(ck, lambda f, st: [[op_open(f, rng.choice(BUFFERED))] + [op_hdr() for _ in range(n + 2)]], wide=n)
    small_frames(ck, lambda b, s, meta: b.session([opened(rng, b.stream(s), rng.choice(BUFFERED))] + [op_hdr() for _ in range(len(s.blobs) + 2)] +
                                                  [op_from(x[0]) for x in s.blobs], **meta))
    for k in range(ck.pick(150, 2000)):
        b = ck.batch(60)
        s = stream(b, rng, Gen(rng, BRIEF), n=rng.randint(0, 7), unknown=0.3)
        n = len(s.blobs)
        via = rng.choice(BUFFERED)
        b.session([opened(rng, s.no, via)] + [op_hdr() for _ in range(n + 2)], walk=via)
        # mixtures of skipping, reading and positioned reading
        steps = [opened(rng, s.no, rng.choice(BUFFERED))]
        for _ in range(n + 4):
            r = rng.random()
            if r < 0.5 or not n:
                steps.append(op_hdr())
            elif r < 0.85:
                steps.append(op_next(rng.choice(["brief", "no"])))
            else:
                steps.append(op_from(rng.choice(s.blobs)[0]))
        b.session(steps, gen="mixture")
        if n:       # from the middle; offsets are usable
            i = rng.randrange(n)
            steps = [opened(rng, s.no, rng.choice(["new", "seekable", "bufseekable", "bufnew"]), pos=s.blobs[i][0])]
            steps += [op_hdr() for _ in range(n - i + 1)] + [op_from(x[0]) for x in s.blobs[i:]]
            b.session(steps, gen="middle")
    big_offsets(ck, ck.pick(20, 150), lambda rng, f, starts: [opened(rng, f, rng.choice(["seekable", "bufseekable", "new"]), pos=starts[0])] + [
        rng.choice([op_hdr, op_next])() for _ in range(len(starts) + 1)])
    big_contents(ck, ck.pick(30, 200), big_walk)
    stream_plans(ck, d.result(), ck.pick(1200, 20000), lambda p: any(o["op"] == "hdr" for o in p["ops"]) and
                 all(o["flt"] == "no" for o in p["ops"]))
    go()
    return "random mixtures of header-skipping, full and positioned reads on random streams, on sparse streams with contents of up to " \
           "2 GiB each, and the fault-free behaviours of MC_Stream that skip headers; every item has to be the one of Stream!Hdr/Next/From"


def big_file(b, rng, cut=False, small=None, data=True):
    """Frames with contents of up to 2 GiB (a sparse stream) that are only skipped, between small ones that can be read.
    Returns the stream, the frames [(position, small or big)] and the length."""
    s = Stream()
    s.ext, s.frames = [], []
    pos, starts = 0, []
    n = rng.randint(2, 5)
    cells = ["big"] * n + ["small"] * rng.randint(1, 3)
    rng.shuffle(cells)
    if cut:
        cells.append("big")
    for k, cell in enumerate(cells):
        if cell == "big":
            size = rng.choice([1 << 30, (1 << 31) - 1, (1 << 31) - 1, (1 << 31) - 2, (1 << 24) + 3, 40 << 20])
            ty = rng.choice([DATA, HEAD, b"OSMFoo"] if data else [HEAD, b"OSMFoo", b"OSMHeade"])
            h = pbf.blob_header(ty, size, rng.choice([(1, 2, 3), (3, 1, 2)]), rng.choice([None, b"idx"]))
            lead = b"\x0a" + pbf.varint(size - 6) if size > (1 << 28) + 6 else b"\x0a" + pbf.varint(size - 5)
            assert len(lead) == (6 if size > (1 << 28) + 6 else 5)
            head = len(h).to_bytes(4, "big") + h + lead
            s.ext.append((pos, head))
            nx = pos + len(head) - len(lead) + size
            last = cut and k == len(cells) - 1
            s.frames.append({"pos": limbs(pos), "k": "cut" if last else "frame", "ty": list(ty), "size": limbs(size), "nx": limbs(nx),
                             "c": {"k": "raw", "s": k, "e": k + (min(size, 1 << 26))}})
            starts.append((pos, "big"))
            if last:
                pos += len(head) + rng.choice([0, 1, size // 2, size - len(lead) - 1])
                continue
        else:
            t = Stream()
            ty, m = (DATA, Gen(rng, small or TINY).block()) if rng.random() < 0.8 else (HEAD, Gen(rng, TINY).header())
            t.add(ty, pbf.encode(m), ("msg", b.msg(m)))
            c = t.cont[0]
            key = 1000 * (k + 1)
            s.cont.append(dict(c, s=key, e=key + c["e"] - c["s"]))
            hsize = 4 + int.from_bytes(t.data[:4], "big")
            nx = pos + len(t.data)
            s.frames.append({"pos": limbs(pos), "k": "frame", "ty": list(ty), "size": limbs(len(t.data) - hsize), "nx": limbs(nx),
                             "c": {"k": "raw", "s": key, "e": key + c["e"] - c["s"]}})
            s.ext.append((pos, bytes(t.data)))
            starts.append((pos, "small"))
        pos = nx
    s.len = pos
    s.no = b.stream(s)
    return s, starts


def big_contents(ck, n, steps, **kw):
    rng = ck.rng
    for _ in range(n):
        b = ck.batch(12)
        s, starts = big_file(b, rng, **kw)
        b.session(steps(rng, s.no, starts, s.len), gen="contents of up to 2 GiB")


def big_walk(rng, f, starts, end):
    """Skips every frame, or reads it if it is small; then the same at random places."""
    st = [op_open(f, rng.choice(["seekable", "bufseekable", "new", "path", "seekpath"]))]
    either = lambda kind: op_hdr() if kind == "big" or rng.random() < 0.4 else op_next()
    st += [either(k) for _, k in starts] + [rng.choice([op_hdr, op_next])(), op_hdr()]
    for _ in range(4):
        i = rng.randrange(len(starts))
        o, k = starts[i]
        st += [op_from(o)] if k == "small" and rng.random() < 0.5 else [op_seek(o), either(k)]
        if i + 1 < len(starts):
            st.append(either(starts[i + 1][1]))
    return st + [op_from(end)]


def big_mapped(rng, f, starts, end):
    st = [op_open(f, rng.choice(MAPPED))]
    for _, k in starts + [(end, "end"), (end, "end")]:
        st.append(op_next("no" if k == "big" else "brief"))
    for _ in range(4):
        o, k = rng.choice(starts)
        st += [op_seek(o), op_next("no" if k == "big" else "brief")]
    return st


def big_query(rng, f, starts, end):
    call = lambda: rng.choice([xnodes(), xways(**accept(rng)), xcreate()])
    return [xopen(f, rng.choice(["new", "path"])), call(), call(), xways(every=1), xnodes()]


# ---------------------------------------------------------------- C05
def whole_readers(rng, f, n, b, meta, which=None):
    """Everything that reads a stream to its end."""
    for via in which or ["new", "mmap", "foreach", "par"]:
        if via == "foreach":
            b.session([op_foreach(f, rng.choice(["new", "path", "bufnew"]))], **meta)
        elif via == "par":
            b.session([op_par(f, rng.choice(["new", "path", "bufnew"]), rng.choice([1, 2, 4]), rng.randrange(1 << 20))], **meta)
        elif via == "new":
            b.session([opened(rng, f, rng.choice(BUFFERED))] + iterate(n, "brief"), **meta)
        elif via == "mmap":
            b.session([op_open(f, rng.choice(MAPPED))] + iterate(n, "brief"), **meta)
        elif via == "hdr":
            b.session([opened(rng, f, rng.choice(BUFFERED))] + [op_hdr() for _ in range(n)], **meta)
        elif via == "x":
            b.session([{"op": "xopen", "h": "x", "f": f, "via": "new"}, {"op": "xnodes", "h": "x"}], **meta)


def c05(ck):
    d = ck.design("MC_Files", "MC_Files.cfg", plans=True)
    ck_design_stream(ck)
    rng = ck.rng
    for cut_walk in (big_mapped, lambda rng, f, st, end: [op_open(f, rng.choice(["path", "seekable"]))] + [op_hdr() for _ in range(len(st) + 2)],
                     lambda rng, f, st, end: [xopen(f, "new"), xnodes(), xways(every=2)]):
        big_contents(ck, ck.pick(8, 60), cut_walk, cut=True, data=False)
    go = wire_plans(ck, "bheader", ck.pick(200, 4000))
    small_frames(ck, lambda b, s, meta: whole_readers(rng, b.stream(s), len(s.blobs) + 2, b, meta, rng.sample(["new", "mmap", "foreach", "par"], 2)))
    # every cut of a few streams
    for k in range(ck.pick(7, 40)):
        tmp = Batch("tmp")
        base = Stream()
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if r < 0.15:
                add_unknown(tmp, base, rng, rng.choice(gen.UNKNOWN[:-1]))
            elif r < 0.35:
                add_msg(tmp, base, Gen(rng, TINY).header(), rng)
            else:
                add_msg(tmp, base, Gen(rng, TINY).block(), rng)
        size = len(base.data)
        ends = {x[0] for x in base.blobs} | {size}
        cuts = range(size + 1) if size <= ck.pick(220, 1200) else sorted(rng.sample(range(size), 200) + list(ends))
        for c in cuts:
            b = ck.batch(8 + size // 150)
            for m in tmp.msgs:
                pass
            off = len(b.msgs)
            b.msgs += tmp.msgs
            t = gen.copy_stream(base)
            del t.data[c:]
            t.cont = [dict(x, m=x["m"] + off if x["k"] == "msg" else 0) for x in t.cont if x["e"] <= c]
            f = b.stream(t)
            n = len([x for x in base.blobs if x[0] <= c]) + 2
            which = ["new", "mmap", "foreach", "par"] if ck.thorough or c % 3 == 0 else rng.sample(["new", "mmap", "foreach", "par"], 2)
            whole_readers(rng, f, n, b, {"cut": c, "size": size}, which)
    # corrupt size fields and headers
    for k in range(ck.pick(500, 6000)):
        b = ck.batch(22)
        cells = [rng.choice(["nodes", "dense", "empty", "unk", "head", "ways"]) for _ in range(rng.randint(0, 3))]
        s = Stream()
        for c in cells:
            add_cell(b, s, rng, c)
        good = len(s.blobs)
        what = corrupt_frame(b, s, rng)
        if rng.random() < 0.5:
            add_cell(b, s, rng, "nodes")
        f = b.stream(s)
        whole_readers(rng, f, good + 3, b, {"corrupt": what}, rng.sample(["new", "mmap", "foreach", "par", "hdr", "x"], 3))
    for p in ck.sample([p for p in d.result() if p["tail"] != "none"], ck.pick(400, 4000)):
        b = ck.batch(14)
        s = cells_stream(b, rng, p["cells"], p["tail"])
        whole_readers(rng, s.no, len(p["cells"]) + 2, b, p, rng.sample(["new", "mmap", "foreach", "par"], 2))
    go()
    return "every cut of small random streams, corrupt size fields and headers, and all files with broken tails of MC_Files; readers have to " \
           "deliver exactly the blobs before and then an error"


def corrupt_frame(b, s, rng):
    """Appends a frame that is not a proper one."""
    m = Gen(rng, TINY).block()
    payload = pbf.encode(m)
    blob = pbf.f_bytes(1, payload)
    ty = rng.choice([DATA, HEAD, b"OSMFoo"])
    order = rng.choice([(1, 2, 3), (3, 1, 2), (2, 3, 1), (3, 2, 1)])
    idx = rng.choice([None, b"", b"index"])
    how = rng.choice(["negative", "beyond", "nosize", "notype", "empty", "utf8", "junk", "hbeyond", "hbig", "shorthead", "cutfield", "maxint"])
    h = pbf.blob_header(ty, len(blob), order, idx)
    if how == "negative":
        h = pbf.blob_header(ty, -rng.choice([1, 2, len(blob), 1 << 30, 1 << 31]), order, idx)
    elif how == "beyond":
        h = pbf.blob_header(ty, len(blob) + rng.choice([1, 1000, 1 << 20]), order, idx)
        b_ = pbf.frame_bytes(h, blob)
        s.data += b_
        return how      # the rest of the stream, if any, may be swallowed
    elif how == "maxint":
        h = pbf.blob_header(ty, (1 << 31) - 1, order, idx)
    elif how == "nosize":
        h = pbf.f_bytes(1, ty) + (pbf.f_bytes(2, b"x") if idx else b"")
    elif how == "notype":
        h = pbf.f_varint(3, len(blob))
    elif how == "empty":
        h = b""
    elif how == "utf8":
        h = pbf.blob_header(rng.choice(gen.BADSTR), len(blob), order, idx)
    elif how == "junk":
        h = h + rng.choice([b"\xff", b"\x0a\x05a", b"\x08", b"\x12\x7f"])
    elif how == "cutfield":
        h = h[:rng.randrange(1, len(h))]
    frame = bytearray(pbf.frame_bytes(h, blob))
    if how == "hbeyond":
        frame[:4] = min(65535, len(frame) + rng.choice([1, 100, 60000])).to_bytes(4, "big")
    elif how == "hbig":
        frame[:4] = rng.choice([65536, 65537, 1 << 24, (1 << 31) + len(h), (1 << 32) - 1]).to_bytes(4, "big")
    elif how == "shorthead":
        frame[:4] = rng.randrange(len(h)).to_bytes(4, "big")
    s.data += frame
    return how


# ---------------------------------------------------------------- C06
def c06(ck):
    d = ck.design("MC_Stream", "MC_Stream_emit.cfg", plans=True)
    ck_design_stream(ck)
    rng = ck.rng
    for k in range(ck.pick(250, 3000)):
        b = ck.batch(50)
        cells = [rng.choice(["nodes", "empty", "unk", "head", "bad", "badunk", "badhead"]) for _ in range(rng.randint(0, 4))]
        s = Stream()
        for c in cells:
            add_cell(b, s, rng, c)
        broken = rng.random() < 0.7
        what = corrupt_frame(b, s, rng) if broken else "none"
        for _ in range(rng.randint(0, 3)):
            add_cell(b, s, rng, rng.choice(["nodes", "head", "unk"]))
        f = b.stream(s)
        n = len(cells) + 8
        b.session([opened(rng, f, rng.choice(BUFFERED))] + iterate(n, ["brief", "no"], rng), corrupt=what)
        b.session([op_open(f, rng.choice(MAPPED))] + iterate(n, ["brief", "no"], rng), corrupt=what)
        b.session([opened(rng, f, rng.choice(BUFFERED))] + [op_hdr() for _ in range(n)], corrupt=what)
        b.session([opened(rng, f, rng.choice(BUFFERED))] + [rng.choice([op_hdr, op_next])() for _ in range(n)], corrupt=what)
    for k in range(ck.pick(150, 2000)):      # arbitrary bytes
        b = ck.batch(60)
        s = stream(b, rng, Gen(rng, TINY), n=rng.randint(0, 3))
        t = mutate(s, rng, rng.randint(1, 3))
        f = b.stream(t)
        n = len(s.blobs) + 6
        for st in ([opened(rng, f, rng.choice(BUFFERED))] + iterate(n, "no"), [op_open(f, "mmap")] + iterate(n, "no"),
                   [opened(rng, f, rng.choice(BUFFERED))] + [op_hdr() for _ in range(n)]):
            b.session(st, gen="mutated")
    # a stream that fails once: nothing further even though it would work again
    for k in range(ck.pick(150, 1500)):
        b = ck.batch(20)
        s = cells_stream(b, rng, [rng.choice(["nodes", "head", "unk"]) for _ in range(3)], "none")
        st = [op_open(s.no, rng.choice(["new", "seekable"]))] + [rng.choice([op_next, op_hdr])() for _ in range(7)]
        st[rng.randint(1, 4)]["fault"] = fault(rng, rng.randrange(4), times=1)
        b.session(st, gen="fault")
    # a stream that seems to end once, like one that is still written
    for k in range(ck.pick(150, 1500)):
        b = ck.batch(20)
        s = cells_stream(b, rng, [rng.choice(["nodes", "head", "unk", "empty", "badunk"]) for _ in range(3)], "none")
        st = [opened(rng, s.no, rng.choice(["new", "seekable", "bufnew", "bufseekable"]))] + [rng.choice([op_next, op_hdr])() for _ in range(7)]
        if rng.random() < 0.3:
            st.insert(rng.randint(3, 5), op_seek(rng.choice(s.blobs)[0]))
        if rng.random() < 0.3:
            st.insert(rng.randint(1, 5), op_from(rng.choice(s.blobs)[0], "brief"))
        st[rng.randint(1, 4)]["fault"] = fault(rng, rng.choice([0, 1, 1, 2, 3, rng.randrange(12)]), "read", "Pause", 1)
        b.session(st, gen="pause")
    stream_plans(ck, d.result(), ck.pick(900, 15000), lambda p: (p["tail"] != "none" or "bad" in p["cells"]) and
                 p["ops"][-1]["op"] in ("next", "hdr"))
    return "iterators are called several times beyond errors and the end, on streams with damaged blobs, corrupt frames and mutated bytes; " \
           "every further item has to be none (Stream!FusedOk)"


# ---------------------------------------------------------------- C07
def c07(ck):
    d = ck.design("MC_Stream", "MC_Stream_emit.cfg", plans=True)
    ck_design_stream(ck)
    rng = ck.rng
    big_contents(ck, ck.pick(15, 100), big_walk)

    def history(b, s, via, n, faults, offs=None):
        offs = offs or [x[0] for x in s.blobs] + [len(s.data), len(s.data) + 1, len(s.data) + 1000, 0]
        names = ["a"]
        st = [opened(rng, s.no, via)]
        clones = via in ("new", "seekable")
        for _ in range(n):
            h = rng.choice(names)
            o = rng.choice(offs) if rng.random() < 0.85 else rng.randrange(len(s.data) + 3)
            r = rng.random()
            if r < 0.2:
                x = op_next("brief", h)
            elif r < 0.35:
                x = op_hdr(h)
            elif r < 0.65:
                x = op_from(o, "brief", h)
            elif r < 0.8:
                x = op_seek(o if rng.random() < 0.93 else rng.choice([1 << 33, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]), h)
            elif r < 0.95 or not clones or len(names) > 2:
                x = rng.choice([op_raw("start", o, h), op_raw("end", o - len(s.data), h), op_raw("end", -len(s.data) - 1, h),
                                op_raw("cur", rng.choice([0, 0, 1, -1, o, -o]), h), op_raw("cur", 0, h)])
            else:
                c = "abc"[len(names)]
                names.append(c)
                st.append({"op": "clone", "h": h, "to": c})
                continue
            if faults and rng.random() < 0.15:
                x["fault"] = fault(rng, rng.randrange(3), times=1)
            st.append(x)
        return st

    for k in range(ck.pick(350, 5000)):
        b = ck.batch(32)
        cells = [rng.choice(["nodes", "mixed", "unk", "head", "bad", "empty"]) for _ in range(rng.randint(1, 4))]
        s = cells_stream(b, rng, cells, rng.choice(["none", "none", "cut", "err", "hbig"]))
        via = rng.choice(["new", "seekable", "bufseekable", "bufnew", "path", "seekpath"])
        f = via in ("new", "seekable", "bufseekable", "bufnew") and rng.random() < 0.4
        b.session(history(b, s, via, rng.randint(6, 22), f), via=via, cells=cells)
    # frames where a reader that is off its position would find them
    for k in range(ck.pick(150, 2500)):
        b = ck.batch(32)
        s, offs = gen.ambiguous_stream(b, rng)
        via = rng.choice(["new", "seekable", "bufseekable", "bufnew", "path", "seekpath"])
        f = via in ("new", "seekable", "bufseekable", "bufnew") and rng.random() < 0.2
        b.session(history(b, s, via, rng.randint(6, 16), f, offs), via=via, gen="ambiguous")
        if k % 3 == 0:          # every position after every kind of failure
            p = rng.choice(offs)
            st = [op_open(s.no, rng.choice(["seekable", "new", "path"]))]
            for o in offs:
                st += [rng.choice([op_from(p), op_seek(p)]), rng.choice([op_next, op_hdr])(), op_from(o)]
            b.session(st, gen="from one to the other")
    for k in range(ck.pick(40, 400)):
        b = ck.batch(25)
        s, starts = table_frames(b, rng, rng.choice(HUGE), small_blobs(rng, rng.randint(1, 4)))
        st = [opened(rng, s.no, rng.choice(["seekable", "bufseekable", "new"]))]
        for _ in range(8):
            o = rng.choice(starts)
            st += rng.choice([[op_from(o)], [op_seek(o), op_next()], [op_raw("start", o), op_hdr()], [op_raw("end", o - s.len), op_raw("cur", 0), op_next()],
                              [op_from(s.len)], [op_raw("end", 0), op_next()]])
        b.session(st, gen="beyond 4 GiB")
    stream_plans(ck, d.result(), ck.pick(1200, 40000), lambda p: any(o["op"] not in ("next", "hdr") for o in p["ops"]))
    return "random histories of reads, skips, seeks, positioned reads, clones and failures, and the behaviours of MC_Stream with positioning; " \
           "every outcome has to be the one Stream gives for the position alone"


# ---------------------------------------------------------------- C08
def c08(ck):
    d = ck.design("MC_Stream", "MC_Stream_emit.cfg", plans=True)
    ck_design_stream(ck)
    rng = ck.rng
    big_contents(ck, ck.pick(20, 120), big_mapped)
    big_contents(ck, ck.pick(6, 60), big_mapped, cut=True)
    scaled(ck, lambda f, st: [[op_open(f, "mmap")] + iterate(302, "no"), [op_open(f, "mmap")] + [x for o in st[::-9] for x in (op_seek(o), op_next())]], wide=300)

    def both(b, f, n, meta):
        # one session, so that whatever is not specified has to be the same for both
        b.session([opened(rng, f, rng.choice(["path", "seekable", "new"])), op_open(f, rng.choice(MAPPED), "m")] +
                  iterate(n, "brief") + iterate(n, "brief", h="m"), **meta)

    small_frames(ck, lambda b, s, meta: both(b, b.stream(s), len(s.blobs) + 2, meta))
    for k in range(ck.pick(60, 700)):
        b = ck.batch(70)
        s = stream(b, rng, Gen(rng, BRIEF), n=rng.randint(0, 5), unknown=0.3)
        both(b, s.no, len(s.blobs) + 2, {"gen": "stream"})
        st = [op_open(s.no, rng.choice(MAPPED))]
        offs = [x[0] for x in s.blobs] + [len(s.data), len(s.data) + 7, 0, 1 << 40, (1 << 63), (1 << 64) - 1]
        for _ in range(10):
            r = rng.random()
            st.append(op_seek(rng.choice(offs) if rng.random() < 0.9 else rng.randrange(len(s.data) + 1)) if r < 0.4 else op_next("full" if r < 0.6 else "brief"))
        b.session(st, gen="mapped history")
        c = rng.randrange(len(s.data) + 1)
        t = gen.copy_stream(s)
        del t.data[c:]
        t.cont = [x for x in t.cont if x["e"] <= c]
        both(b, b.stream(t), len(s.blobs) + 2, {"cut": c})
    for k in range(ck.pick(350, 5000)):
        b = ck.batch(24)
        s = stream(b, rng, Gen(rng, TINY), n=rng.randint(0, 3), unknown=0.25)
        t = mutate(s, rng, rng.randint(1, 2))
        both(b, b.stream(t), len(s.blobs) + 3, {"gen": "mutated"})
    for k in range(ck.pick(150, 2000)):
        b = ck.batch(24)
        s = Stream()
        for _ in range(rng.randint(0, 2)):
            add_cell(b, s, rng, rng.choice(["nodes", "unk", "bad", "head", "badunk", "badhead"]))
        what = corrupt_frame(b, s, rng)
        if rng.random() < 0.5:
            add_cell(b, s, rng, "nodes")
        both(b, b.stream(s), 6, {"corrupt": what})
    for k in range(ck.pick(10, 100)):        # every mutation of the few bytes around a frame head
        tmp = Batch("tmp")
        s = cells_stream(tmp, rng, ["unk", "unk"], "none")
        p = s.blobs[1][0]
        for i in range(min(24, len(s.data) - p)):
            for v in rng.sample(range(256), ck.pick(1, 6)):
                b = ck.batch(10)
                t = gen.copy_stream(s)
                t.data[p + i] = v
                gen.adjust(t, p + i, 1, 1)
                both(b, b.stream(t), 4, {"byte": i, "value": v})
    stream_plans(ck, d.result(), ck.pick(700, 6000), lambda p: p["mm"])
    return "buffered and mapped readers side by side on valid, cut, corrupt and mutated streams, seek histories of the mapped reader, and all " \
           "behaviours of MC_Stream for it; both have to follow the same Stream operators, and agree where these leave things open"


# ---------------------------------------------------------------- C09
LIMIT = 32 << 20


def c09(ck):
    rng = ck.rng
    ck_design_stream(ck)
    # headers
    sizes = [65533, 65534, 65535, 65536, 65537, 70000]
    for k in range(ck.pick(1, 6)):
        for n in sizes:
            for present in (True, False):
                for first in (0, 1):
                    b = ck.batch(300)
                    s = Stream()
                    for _ in range(first):
                        add_cell(b, s, rng, "nodes")
                    p = len(s.data)
                    m = Gen(rng, TINY).block()
                    payload = pbf.encode(m)
                    if present:
                        pad = n - len(pbf.blob_header(DATA, len(payload) + 2 + (len(payload) > 127), (1, 2, 3), b""))
                        # the index data fills the header; its length takes more bytes than that of b""
                        ix = b"x" * pad
                        while True:
                            h = pbf.blob_header(DATA, len(pbf.f_bytes(1, payload)), (1, 2, 3), ix)
                            if len(h) <= n:
                                break
                            ix = ix[:-(len(h) - n)]
                        assert len(h) == n, (len(h), n)
                        pos = len(s.data)
                        s.add(DATA, payload, ("msg", b.msg(m)), index=ix, raw_size=False)
                        assert int.from_bytes(s.data[pos:pos + 4], "big") == n
                    else:
                        s.data += n.to_bytes(4, "big") + b"abc"
                    f = b.stream(s)
                    meta = {"header": n, "present": present}
                    cnt = first + 3
                    whole_readers(rng, f, cnt, b, meta, ["new", "mmap", "hdr", rng.choice(["foreach", "par", "x"])])
                    b.session([op_open(f, "seekable"), op_from(p), op_next()], **meta)
    for k in range(ck.pick(40, 400)):
        b = ck.batch(14)
        s = Stream()
        n = rng.choice([1 << 17, 1 << 20, 1 << 24, (1 << 24) - 1, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 31) + 5, (1 << 32) - 1, rng.randrange(65536, 1 << 32)])
        if rng.random() < 0.5:
            add_cell(b, s, rng, "unk")
        s.data += n.to_bytes(4, "big") + rng.choice([b"", b"\x0a\x07OSMData\x18\x00" * 3])
        whole_readers(rng, b.stream(s), 4, b, {"header": n}, ["new", "mmap", "hdr", rng.choice(["foreach", "par", "x"])])
    # contents: blocks padded with unknown fields to an exact size
    sizes = [LIMIT - 2, LIMIT - 1, LIMIT, LIMIT + 1]
    more = [LIMIT + 4096, LIMIT + (1 << 20), 40 << 20, 100 << 20]
    todo = [(n, st) for n in sizes for st in ("raw", "zlib")] + [(rng.choice(more), "zlib"), (rng.choice(more[:3]), "raw")]
    if ck.thorough:
        todo += [(n, st) for n in more for st in ("raw", "zlib")] + [(16 << 20, "raw"), (16 << 20, "zlib"), (1 << 20, "zlib"), (300 << 20, "zlib"),
                                                                      (LIMIT - 3, "zlib"), (LIMIT - 65536, "zlib")]
    for n, st in todo:
        big_content(ck, n, st, DATA)
    for n, st in [(LIMIT - 1, "zlib"), (LIMIT, "raw"), (LIMIT, "zlib"), (LIMIT - 1, "raw")][:ck.pick(4, 4)]:
        big_content(ck, n, st, HEAD)
    return "header sizes around 64 KiB and far beyond, present or not, and contents around 32 MiB, raw and compressed, for data and header " \
           "blobs, with every reader; Wire!FrameAt and Wire!ContentIn decide what is too big"


def padded(m, n, rng, random=False):
    """The message followed by unknown fields so that it is n bytes long; every field boundary is a
    place where a shortened content would still parse."""
    data = pbf.encode(m)
    out = [data]
    left = n - len(data)
    while left:
        k = min(left, rng.choice([1 << 20, 1 << 16]) if left > 1 << 22 else left)
        if left - k < 100 and left != k:
            k = left - 200
        head = pbf.key(500, 2)
        for w in range(1, 6):
            body = k - len(head) - w
            if len(pbf.varint(body)) == w:
                break
        else:
            raise AssertionError
        out.append(head + pbf.varint(body) + (rng.randbytes(body) if random else bytes(body)))
        left -= k
    x = b"".join(out)
    assert len(x) == n
    return x


def big_content(ck, n, storage, ty):
    rng = ck.rng
    b = ck.batch(100)
    m = Gen(rng, BRIEF).block() if ty == DATA else Gen(rng, BRIEF).header()
    if ty == DATA and not m["groups"]:
        m["groups"] = [Gen(rng, BRIEF).group()] if False else []
    mid = b.msg(m)
    # an element after the limit must not get lost: the last group comes at the very end
    if ty == DATA and rng.random() < 0.7:
        g = Gen(rng, BRIEF)
        g.st = m["st"]
        last = {"nodes": [dict(id=77, lat=1, lon=2, keys=[], vals=[], info=None)], "dense": None, "ways": [], "rels": []}
        tail = pbf.f_bytes(2, pbf.enc_group(last, pbf.PLAIN))
        payload = padded(m, n - len(tail), rng) + tail
        m["groups"] = m["groups"] + [last]
    else:
        payload = padded(m, n, rng)
    t = Stream()
    t.add(ty, payload, ("msg", mid), storage=storage, level=1)
    m2 = Gen(rng, TINY).block()
    pos2 = len(t.data)
    t.add(DATA, pbf.encode(m2), ("msg", b.msg(m2)))
    s = Stream()
    s.ext = [(0, bytes(t.data))]
    s.len = len(t.data)
    s.cont = []
    for i, (pos, end) in enumerate([(0, pos2), (pos2, len(t.data))]):
        c = t.cont[i]
        hs = 4 + int.from_bytes(t.data[pos:pos + 4], "big")
        s.frames.append({"pos": limbs(pos), "k": "frame", "ty": list(ty if i == 0 else DATA), "size": limbs(end - pos - hs), "nx": limbs(end),
                         "c": {"k": "z" if c["z"] else "raw", "s": c["s"], "e": c["e"]}})
        s.cont.append(c)
    f = b.stream(s)
    meta = {"content": n, "storage": storage, "type": ty.decode()}
    b.session([op_open(f, rng.choice(["new", "path"]))] + iterate(3, "brief"), **meta)
    b.session([op_open(f, "mmap")] + iterate(3, "brief"), **meta)
    if ty == DATA:
        b.session([op_foreach(f, "path")], **meta)
        b.session([{"op": "xopen", "h": "x", "f": f, "via": "new"}, {"op": "xnodes", "h": "x"}], **meta)


# ---------------------------------------------------------------- C10
def c10(ck):
    d = ck.design("MC_Files", "MC_Files.cfg")
    rng = ck.rng
    go = wire_plans(ck, "blob", ck.pick(250, 5000))
    # sizes at which buffers fill up
    for n in [x + d for x in ck.pick([8192, 65536], [4096, 8192, 16384, 32768, 65536, 131072, 1 << 20]) for d in (-1, 0, 1)] + [rng.randrange(20000, 300000)]:
        b = ck.batch(60)
        m = Gen(rng, BRIEF).block()
        last = {"nodes": [dict(id=77, lat=1, lon=2, keys=[], vals=[], info=None)], "dense": None, "ways": [], "rels": []}
        tail = pbf.f_bytes(2, pbf.enc_group(last, pbf.PLAIN))
        payload = padded(m, n - len(tail), rng, True) + tail
        m["groups"] = m["groups"] + [last]
        s, _ = table_frames(b, rng, 0, [(DATA, (payload, m), "raw"), (DATA, (payload, m), "zlib"), (DATA, (payload, m), "zlib0")])
        for via in (rng.choice(BUFFERED), "mmap"):
            b.session([op_open(s.no, via)] + iterate(4, "brief"), content=n)
    for k in range(ck.pick(110, 1500)):
        b = ck.batch(90)
        m = Gen(rng, Knobs(uneven=0.05, badstr=0.05)).block() if rng.random() < 0.75 else Gen(rng).header()
        n = b.msg(m)
        ty = DATA if m["kind"] == "data" else HEAD
        payload = pbf.encode(m, Style(rng))
        s = Stream()
        for storage, level in [("raw", 0)] + [("zlib", rng.choice([0, 1, 3, 6, 9])) for _ in range(2)]:
            s.add(ty, payload, ("msg", n), storage=storage, level=level, rng=rng, raw_size=rng.random() < 0.5, order=rng.choice([(1, 2, 3), (3, 2, 1)]),
                  blob_extra=rng.choice([b"", b"", pbf.f_bytes(77, b"abc"), pbf.f_varint(2, rng.choice([0, 5, 1 << 30, -1]))]))
        for _ in range(2):      # other zlib settings and several stored blocks
            z = pbf.deflate(payload, rng.randrange(10), rng.choice([9, 12, 15]), rng.choice([0, 1, 2, 3, 4]))
            gen.add_z(s, ty, z, n, payload)
        if rng.random() < 0.5:      # several data fields: the last one counts
            other = pbf.f_bytes(rng.choice([1, 3, 4]), b"\xff\xff")
            s.add(ty, payload, ("msg", n), storage=rng.choice(["raw", "zlib"]), blob_extra=other)
        f = b.stream(s)
        cnt = len(s.blobs) + 1
        via = rng.choice(BUFFERED)
        b.session([opened(rng, f, via)] + iterate(cnt, "full"), gen="storages")
        b.session([op_open(f, rng.choice(MAPPED))] + iterate(cnt, ["full", "brief"], rng), gen="storages")
    for k in range(ck.pick(20, 200)):       # every damage of compressed contents
        tmp_m = Gen(rng, TINY).block() if rng.random() < 0.7 else Gen(rng, TINY).header()
        ty = DATA if tmp_m["kind"] == "data" else HEAD
        payload = pbf.encode(tmp_m)
        z = pbf.deflate(payload, rng.choice([0, 1, 6, 9]))
        variants = [z[:i] for i in range(len(z))]
        for i in range(len(z)):
            for bit in range(8):
                v = bytearray(z)
                v[i] ^= 1 << bit
                variants.append(bytes(v))
        variants += [z + z, z + b"\x00", b"", b"\x78\x9c", payload]
        for lot in range(ck.pick(2, 12)):
            b = ck.batch(45)
            n = b.msg(tmp_m)
            s = Stream()
            for v in rng.sample(variants, min(12, len(variants))):
                gen.add_z(s, ty, v, n, payload)
            f = b.stream(s)
            via = rng.choice(["new", "path", "mmap"])
            b.session([op_open(f, via)] + iterate(len(s.blobs) + 1, "full"), gen="damaged zlib", via=via)
            if ty == DATA:
                b.session([op_open(f, "seekable")] + [op_from(x[0], "full") for x in s.blobs], gen="damaged zlib, positioned")
    for k in range(ck.pick(150, 2000)):     # nothing there, other compressions, unknown types
        b = ck.batch(30)
        s = Stream()
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            ty = rng.choice([HEAD, DATA])
            m = empty_header() if ty == HEAD else empty_block()
            if r < 0.2:
                s.add(ty, b"", ("bad", 0), storage="none", raw_size=rng.random() < 0.5)
            elif r < 0.4:
                st = rng.choice(["lzma", "bzip2", "lz4", "zstd"])
                s.add(ty, rng.choice([b"", pbf.encode(m), pbf.deflate(pbf.encode(m))]), ("bad", 0), storage=st)
            elif r < 0.6:
                add_unknown(b, s, rng)
            elif r < 0.75:      # of an unknown type, damaged or not: never decoded
                gen.add_blob(s, rng.choice(gen.UNKNOWN), rng.choice([b"", pbf.f_bytes(4, b"xx"), pbf.f_bytes(3, b"\x00")]))
            else:
                add_msg(b, s, m if rng.random() < 0.3 else Gen(rng, TINY).block(), rng)
        f = b.stream(s)
        n = len(s.blobs) + 1
        b.session([opened(rng, f, rng.choice(BUFFERED))] + iterate(n, "brief"), gen="nothing to decode")
        b.session([op_open(f, rng.choice(MAPPED))] + iterate(n, "brief"), gen="nothing to decode")
        # the explicit decoders
        st = [opened(rng, f, rng.choice(BUFFERED))]
        for x in s.blobs:
            st.append(op_next("brief", **{"as": rng.choice(["header", "data"])}))
        b.session(st, gen="explicit interpretation")
    d.result()
    go()
    return "the same message in all storages and settings, every cut and single bit flip of compressed contents, missing and unsupported " \
           "contents, unknown types, and explicit interpretations; the decoded content has to be the one of the message"


# ---------------------------------------------------------------- C11 - C16: contents
def blocks(ck, knobs, n, per=3, vias=None, full="full", strtab=False):
    """Random blocks of the given kind, read through a rotating choice of readers."""
    rng = ck.rng
    for k in range(n):
        b = ck.batch(40)
        g = Gen(rng, knobs)
        s = Stream()
        for _ in range(per):
            add_msg(b, s, g.block(), rng)
        f = b.stream(s)
        read_blocks(ck, b, f, per, strtab)


def read_blocks(ck, b, f, per, strtab=False):
    rng = ck.rng
    r = rng.random()
    if strtab or r < 0.25:      # group by group
        st = [op_open(f, rng.choice(BUFFERED + MAPPED))]
        for i in range(per):
            st.append(op_next("keep", keep="b%d" % i))
            st.append({"op": "strtab", "b": "b%d" % i})
            st += [{"op": "iter", "src": "b%d" % i, "what": "groups", "to": "g"}]
            for j in range(3):
                st.append({"op": "inext", "it": "g", "keep": "gr"})
                for what in ("nodes", "dense", "ways", "rels"):
                    st += [{"op": "iter", "src": "gr", "what": what, "to": "i"}, {"op": "irest", "it": "i", "how": rng.choice(["next", "fold", "loop"])}]
                    if strtab and what != "dense":
                        st += [{"op": "inext", "it": "i", "keep": "el"}, {"op": "elstrtab", "src": "el"}]
            st.append({"op": "iter", "src": "b%d" % i, "what": "elements", "to": "e"})
            st.append({"op": "irest", "it": "e", "how": rng.choice(["next", "fold", "loop"])})
        # items that do not exist are reported as gone; drop names of earlier blocks by fresh sessions
        b.session(st, gen="groups")
    elif r < 0.45:
        b.session([op_foreach(f, rng.choice(["new", "path", "bufnew"]), True)], gen="for_each")
    elif r < 0.6:
        b.session([op_open(f, rng.choice(MAPPED))] + iterate(per, "full"), gen="mapped")
    else:
        b.session([opened(rng, f, rng.choice(BUFFERED))] + iterate(per, "full"), gen="buffered")


def block_plans(ck, theme, n, per=5, **consts):
    """Realises the messages of an MC_Block theme."""
    d = ck.design("MC_Block", "MC_Block_%s.cfg" % theme, plans=True, **consts)

    def go():
        rng = ck.rng
        todo = ck.sample(d.result(), n)
        for i in range(0, len(todo), per):
            b = ck.batch(8 + 6 * per)
            s = Stream()
            lot = todo[i:i + per]
            for p in lot:
                add_msg(b, s, pbf.from_tla(p), rng if rng.random() < 0.5 else None)
            read_blocks(ck, b, b.stream(s), len(lot))
    return go


def wire_plans(ck, theme, n, per=5, readers=("new", "mmap", "foreach", "par", "hdr", "x"), short=True):
    """The byte sequences of an MC_Wire theme as contents, blobs or headers."""
    law = ck.design("MC_Wire", "MC_Wire_%s.cfg" % theme, **({"Size": 3} if ck.thorough else {}))
    d = ck.design("MC_Wire", "MC_Wire_%s_emit.cfg" % theme, plans=True)

    def header(p):
        # the frame is followed by another one; the content has the length of the size token
        rng = ck.rng
        b = ck.batch(16)
        s = Stream()
        if rng.random() < 0.3:
            add_cell(b, s, rng, "nodes")
        pos = len(s.data)
        inner = pbf.f_bytes(1, pbf.encode(large_block(rng, 1, ("node",))))
        s.data += pbf.frame_bytes(bytes(p["b"]), inner + pbf.key(77, 2) + bytes([31 - len(inner) - 1 - 1]) + bytes(33 - len(inner) - 3))
        s.blobs.append((pos, DATA, ("any", 0)))
        add_cell(b, s, rng, rng.choice(["head", "nodes", "unk"]))
        whole_readers(rng, b.stream(s), 5, b, p, rng.sample(readers, min(2, len(readers))))

    def others(lot, ty, blob):
        rng = ck.rng
        b = ck.batch(14 + 4 * len(lot))
        s = Stream()
        for p in lot:
            if blob:
                gen.add_blob(s, rng.choice([DATA, DATA, DATA, HEAD, b"OSMFoo"]), bytes(p["b"]), rng.choice([None, b"i"]))
            else:
                s.add(ty, bytes(p["b"]), ("any", 0), storage=rng.choice(["raw", "zlib"]), rng=rng, raw_size=rng.random() < 0.5)
        f = b.stream(s)
        if rng.random() < 0.3:
            b.session([op_open(f, rng.choice(["path", "seekable", "new"]))] + [op_from(x[0], "full") for x in s.blobs], theme=theme)
        else:
            st = iterate(len(lot) + 1, "full")
            b.session([opened(rng, f, rng.choice(BUFFERED + MAPPED))] + st, theme=theme)
        if rng.random() < 0.2:
            whole_readers(rng, f, len(lot) + 1, b, {"theme": theme}, [rng.choice(["mmap", "foreach", "par", "x"])])

    def go():
        rng = ck.rng
        plans = d.result()
        # messages of at most one field in any case
        by = {st: [p for p in plans if p["st"] == st and (p["n"] > 1 or not short)] for st in ("ok", "bad", "odd")}
        ok = ck.sample(by["ok"], n * 13 // 20) + [p for p in plans if short and p["n"] < 2 and p["st"] == "ok"]
        rest = ck.sample(by["bad"], n // 5) + ck.sample(by["odd"], n * 3 // 20) + [p for p in plans if short and p["n"] < 2 and p["st"] != "ok"]
        rng.shuffle(rest)
        if theme == "bheader":
            for p in ok + rest:
                header(p)
        elif theme == "blob" or theme in ("hblock", "bbox"):
            lots = ok + rest
            rng.shuffle(lots)
            for i in range(0, len(lots), per):
                others(lots[i:i + per], HEAD, theme == "blob")
        else:
            for i in range(0, len(ok), per):
                lot = ok[i:i + per]
                b = ck.batch(8 + 4 * per)
                s = Stream()
                for p in lot:
                    s.add(DATA, bytes(p["b"]), ("any", 0), storage=rng.choice(["raw", "zlib"]), rng=rng, raw_size=rng.random() < 0.5)
                read_blocks(ck, b, b.stream(s), len(lot))
            for i in range(0, len(rest), per):
                others(rest[i:i + per], DATA, False)
        law.result()
    return go


def c11(ck):
    gos = [block_plans(ck, "delta", ck.pick(400, 5000), **({"Size": 4} if ck.thorough else {})), block_plans(ck, "lens", ck.pick(250, 2000)),
           block_plans(ck, "seq", ck.pick(700, 20000), **({"Size": 3} if ck.thorough else {})), wire_plans(ck, "dense", ck.pick(150, 3000))]
    dense = Knobs(groups=(1, 3), mixed=0.2, kinds=("dense",), n=(0, 6), tags=(0, 1), info=0.3, wild=0.6, units=0.2)
    blocks(ck, dense, ck.pick(120, 2000))
    dense.uneven = 0.4
    blocks(ck, dense, ck.pick(80, 1500))
    rng = ck.rng
    skippings(ck, ck.pick(100, 1500), ("dense",), {"tags": (0, 1), "info": 0.2, "wild": 0.6})
    scaled(ck, lambda f, _: [[op_open(f, "path"), op_next("brief")] + [op_next("brief")] * 2], sizes=ck.pick([66000], [66000, 140000]), kinds=("dense",))
    for n in [8000, 1000, 257][:ck.pick(2, 3)] * ck.pick(1, 4):      # a full group
        b = ck.batch(2000)
        g = Gen(rng, Knobs(kinds=("dense",), n=(n, n), tags=(0, 1), wild=0.5, info=0.0))
        m = {"kind": "data", "st": g.table(), "gran": None, "dgran": None, "lato": None, "lono": None, "groups": []}
        d = g.dense()
        d["kv"] = []
        m["groups"] = [{"nodes": [], "dense": d, "ways": [], "rels": []}]
        s = Stream()
        add_msg(b, s, m, rng)
        f = b.stream(s)
        b.session([op_open(f, "path"), op_next("full")] if n < 2000 else [op_open(f, "path"), op_next("brief")], nodes=n)
    for go in gos:
        go()
    return "all short delta sequences over boundary values and all lengths of the parallel arrays (MC_Block), and random dense groups of up to " \
           "8000 nodes; ids and coordinates have to be the ones Block defines"


def c12(ck):
    gos = [block_plans(ck, "kv", ck.pick(500, 6000), **({"Size": 6} if ck.thorough else {})), block_plans(ck, "tags", ck.pick(500, 6000)),
           block_plans(ck, "seq", ck.pick(350, 20000), **({"Size": 3} if ck.thorough else {})), wire_plans(ck, "dense", ck.pick(150, 3000))]
    dense = Knobs(groups=(1, 2), mixed=0.1, kinds=("dense",), n=(0, 6), tags=(0, 3), info=0.2, wild=0.1, units=0.1, badstr=0.1)
    blocks(ck, dense, ck.pick(120, 2000))
    dense.uneven = 0.5
    blocks(ck, dense, ck.pick(100, 1500))
    # nodes skipped, counted or cloned
    rng = ck.rng
    skippings(ck, ck.pick(120, 1500), ("dense",), {"tags": (0, 2), "info": 0.2, "wild": 0.1})
    d = ck.design("MC_Block", "MC_Block_kv.cfg", plans=True)
    d2 = ck.design("MC_Block", "MC_Block_tags.cfg", plans=True)
    for p in ck.sample(d.result(), ck.pick(250, 3000)) + ck.sample(d2.result(), ck.pick(100, 1500)):
        b = ck.batch(24)
        s = Stream()
        add_msg(b, s, pbf.from_tla(p))
        skipping(b, b.stream(s), rng, 4)
    for go in gos:
        go()
    # more than 65536 entries in one array, in few nodes and in many
    for n, each in ck.pick([(5, 8300), (17000, 2)], [(5, 8300), (17000, 2), (3, 17000), (30000, 1)]):
        b = ck.batch(1500)
        g = Gen(rng, Knobs(strings=(200, 300)))
        m = large_block(rng, n, ("dense",))
        m["st"] = g.st = g.table() or [b"", b"k", b"v"]
        for i in range(n):
            for _ in range(each if i % 7 != 3 else 0):
                m["groups"][0]["dense"]["kv"] += [rng.randrange(1, len(m["st"])), rng.randrange(1, len(m["st"]))]
            m["groups"][0]["dense"]["kv"].append(0)
        s = Stream()
        add_msg(b, s, m, rng)
        b.session([op_open(b.stream(s), "path"), op_next("full")], gen="long array")
    for n, tags in ck.pick([(3, (250, 300)), (700, (0, 2))], [(3, (250, 300)), (700, (0, 2)), (2, (2000, 2000)), (4000, (0, 1))]):
        b = ck.batch(1500)
        g = Gen(rng, Knobs(kinds=("dense",), n=(n, n), tags=tags, strings=(200, 300), wild=0.0, info=0.0))
        m = dict(large_block(rng, 1, ()), st=g.table())
        d = g.dense()
        while len(d["kv"]) < tags[1]:
            d["kv"] = g.dense_kv(n)
        m["groups"] = [{"nodes": [], "dense": d, "ways": [], "rels": []}]
        s = Stream()
        add_msg(b, s, m, rng)
        b.session([op_open(b.stream(s), "path"), op_next("full")], gen="many tags")
    return "all tag arrays over {0,1,2} and all assignments of tags to up to 3 nodes (MC_Block), random groups, and iterators that skip, count " \
           "and clone; the tags of every node have to be the ones Block!KvOfNodes gives"


NESTED = {"nodes": ("tags", "raw"), "dense": ("tags", "raw"), "ways": ("tags", "raw", "refs", "locs"), "rels": ("tags", "raw", "mems")}


def hops(rng, n, it, other, keep=None):
    """Random operations on an iterator and a clone of it."""
    kw = {"keep": keep} if keep else {}
    return [rng.choice([dict({"op": "inth", "it": it, "n": rng.choice([0, 1, 1, 2, 2, 3, 5])}, **kw), dict({"op": "inext", "it": it}, **kw),
                        {"op": "iskip", "it": it, "n": rng.randrange(3)}, {"op": "iclone", "it": it, "to": other},
                        {"op": "icount", "it": it}, {"op": "irest", "it": it, "how": rng.choice(["next", "fold", "loop"])}, {"op": "irest", "it": other},
                        dict({"op": "ilast", "it": it}, **kw), dict({"op": "inext", "it": other}, **kw)]) for _ in range(n)]


def skipping(b, f, rng, n=8, kinds=("dense",)):
    """Walks over the elements of a group, and over what they list, that skip, count and clone."""
    kind = rng.choice(kinds)
    what = {"node": "nodes", "way": "ways", "rel": "rels"}.get(kind, kind)
    st = [op_open(f, "path"), op_next("keep", keep="b"), {"op": "iter", "src": "b", "what": "groups", "to": "g"}, {"op": "inext", "it": "g", "keep": "gr"},
          {"op": "iter", "src": "gr", "what": what, "to": "i"}] + hops(rng, n, "i", "j", "n")
    for w in NESTED[what]:
        st += [{"op": "iter", "src": "n", "what": w, "to": "t"}, {"op": "ilen", "it": "t"}]
        st += hops(rng, rng.randrange(4), "t", "u") + [{"op": "ilen", "it": "t"}, {"op": "irest", "it": "t"}]
    b.session(st, gen="skipping")


def skippings(ck, n, kinds, knobs):
    """Random groups of these kinds, walked with skipping."""
    rng = ck.rng
    for _ in range(n):
        b = ck.batch(40)
        s = Stream()
        kind = (rng.choice(kinds),)
        add_msg(b, s, Gen(rng, Knobs(**dict({"groups": (1, 1), "mixed": 0.0, "kinds": kind, "n": (1, 6),
                                             "uneven": rng.choice([0, 0, 0.3])}, **knobs))).block(), rng)
        skipping(b, b.stream(s), rng, rng.randint(3, 8), kind)


def c13(ck):
    gos = [block_plans(ck, "seq", ck.pick(250, 10000)), block_plans(ck, "adj", ck.pick(250, 2016)),
           block_plans(ck, "dinfo", ck.pick(400, 5000), **({"Size": 3} if ck.thorough else {})), block_plans(ck, "info", ck.pick(400, 5000)),
           wire_plans(ck, "info", ck.pick(150, 2500)), wire_plans(ck, "dinfo", ck.pick(150, 2500))]
    k = Knobs(groups=(1, 3), mixed=0.4, n=(0, 4), tags=(0, 1), info=0.95, wild=0.5, units=0.6, refs=(0, 1), badstr=0.1)
    blocks(ck, k, ck.pick(180, 3000))
    k.uneven = 0.3
    blocks(ck, k, ck.pick(100, 1500))
    for go in gos:
        go()
    rng = ck.rng
    skippings(ck, ck.pick(80, 1500), ("dense",), {"tags": (0, 1), "info": 1.0, "wild": 0.3})
    skippings(ck, ck.pick(40, 700), ("node", "way", "rel"), {"tags": (0, 1), "info": 1.0, "wild": 0.3})
    # users with very high indices
    b = ck.batch(300)
    g = Gen(rng, Knobs(kinds=("dense", "node", "way", "rel"), n=(1, 9), tags=(0, 0), info=1.0, groups=(2, 4)))
    m = g.block()
    m["st"] = m["st"] + [b"%d" % i for i in range(70000)]
    g.st = m["st"]
    m["groups"] += [g.group() for _ in range(4)]
    s = Stream()
    add_msg(b, s, m, rng)
    b.session([op_open(b.stream(s), "path"), op_next("full")], gen="many users")
    for n in ck.pick([600], [600, 3000]):
        b = ck.batch(1500)
        g = Gen(rng, Knobs(kinds=("dense",), n=(n, n), tags=(0, 0), strings=(200, 300), wild=0.2, info=1.0))
        m = dict(large_block(rng, 1, ()), st=g.table())
        m["groups"] = [{"nodes": [], "dense": g.dense(), "ways": [], "rels": []}]
        s = Stream()
        add_msg(b, s, m, rng)
        b.session([op_open(b.stream(s), "path"), op_next("full")], gen="many nodes")
    return "all presence combinations of metadata fields for all element kinds and lengths of the dense metadata arrays (MC_Block), and random " \
           "blocks with extreme values and granularities; every accessor has to report what Block defines"


def c14(ck):
    gos = [block_plans(ck, "adj", ck.pick(500, 2016)), block_plans(ck, "mems", ck.pick(300, 3000), **({"Size": 4} if ck.thorough else {})), block_plans(ck, "delta", ck.pick(300, 5000)),
           wire_plans(ck, "way", ck.pick(150, 3000)), wire_plans(ck, "rel", ck.pick(150, 3000))]
    k = Knobs(groups=(1, 2), mixed=0.4, kinds=("node", "way", "rel"), n=(0, 3), tags=(0, 3), refs=(0, 8), info=0.1, wild=0.5, units=0.2, locs=0.6)
    blocks(ck, k, ck.pick(200, 3000))
    k.uneven = 0.3
    blocks(ck, k, ck.pick(100, 1500))
    skippings(ck, ck.pick(120, 1500), ("node", "way", "rel"), {"tags": (0, 3), "refs": (0, 6), "info": 0.1, "wild": 0.5, "locs": 0.6})
    # long lists
    rng = ck.rng
    for what, n in [("refs", rng.randrange(2001, 4000)), ("locs", rng.randrange(2001, 3000)), ("mems", rng.randrange(1001, 3000)), ("tags", rng.randrange(256, 600))] \
            + ck.pick([("refs", 66000), ("mems", 33000)], [("refs", 66000), ("mems", 66000), ("locs", 66000), ("tags", 33000)]):
        b = ck.batch(1500)
        g = Gen(rng, Knobs(kinds=("way",), n=(1, 1), tags=(0, 1), strings=(250, 300), wild=0.2, info=0.0))
        m = dict(large_block(rng, 1, ()), st=g.table())
        idx = lambda k: [rng.randrange(len(m["st"])) for _ in range(k)]
        ids = lambda k: g.deltas([g.node_id() for _ in range(k)])
        way = dict(g.way(), refs=ids(n) if what == "refs" else ids(2), lat=[], lon=[], keys=[], vals=[])
        rel = {"id": 7, "info": None, "keys": [], "vals": [], "roles": [], "ids": [], "types": []}
        if what == "locs":
            way.update(lat=g.deltas([rng.randrange(1 << 31) for _ in range(n)]), lon=g.deltas([rng.randrange(1 << 31) for _ in range(n)]))
        if what == "tags":
            way.update(keys=idx(n), vals=idx(n))
            rel.update(keys=idx(n), vals=idx(n))
        if what == "mems":
            rel.update(roles=idx(n), ids=ids(n), types=[rng.randrange(3) for _ in range(n)])
        m["groups"] = [{"nodes": [], "dense": None, "ways": [way], "rels": [rel]}]
        s = Stream()
        add_msg(b, s, m, rng)
        b.session([op_open(b.stream(s), "path"), op_next("full")], gen="many " + what)
    for go in gos:
        go()
    return "all lengths of the arrays of a relation and of a way's locations and all short delta sequences over boundary values (MC_Block), and " \
           "random ways, relations and nodes; ids, tags, references, locations and members have to be the ones Block defines"


def c15(ck):
    gos = [block_plans(ck, "units", ck.pick(700, 2000)),
           wire_plans(ck, "node", ck.pick(150, 3000)), wire_plans(ck, "block", ck.pick(150, 3000))]
    k = Knobs(groups=(1, 2), mixed=0.5, kinds=("node", "dense", "way"), n=(0, 3), tags=(0, 0), refs=(0, 4), info=0.0, wild=0.5, units=0.95, locs=0.95)
    blocks(ck, k, ck.pick(280, 4000))
    skippings(ck, ck.pick(60, 1000), ("node", "dense", "way"), {"tags": (0, 0), "refs": (0, 4), "info": 0.0, "wild": 0.5, "units": 0.95, "locs": 0.95})
    for go in gos:
        go()
    return "all combinations of granularities, offsets and values of small sets (MC_Block), and random blocks with extreme ones; coordinates " \
           "have to be exactly Block!Nano and its derived forms"


def c16(ck):
    gos = [block_plans(ck, "str", ck.pick(700, 6000))]
    k = Knobs(groups=(1, 2), mixed=0.5, n=(0, 3), tags=(0, 3), refs=(0, 4), info=0.8, wild=0.1, units=0.1, badstr=0.35, strings=(0, 8))
    blocks(ck, k, ck.pick(160, 2500), strtab=False)
    blocks(ck, k, ck.pick(60, 800), strtab=True)
    rng = ck.rng
    skippings(ck, ck.pick(80, 1000), ("node", "dense", "way", "rel"), {"tags": (0, 4), "refs": (0, 2), "info": 0.5, "badstr": 0.2, "strings": (1, 8)})
    for n in ck.pick([1500], [300, 2000, 5000]):       # long lists
        b = ck.batch(2000)
        g = Gen(rng, Knobs(kinds=("way",), strings=(200, 400), wild=0.3, badstr=0.0, refs=(n, n), tags=(260, 300), locs=1.0, info=0.0))
        m = dict(large_block(rng, 1, ()), st=g.table())
        m["groups"] = [{"nodes": [g.node()], "dense": None, "ways": [g.way()], "rels": [g.rel()]}]
        s = Stream()
        add_msg(b, s, m, rng)
        b.session([op_open(b.stream(s), "path"), op_next("full")], gen="long lists")
    for _ in range(ck.pick(2, 12)):     # a table with many entries, long entries
        b = ck.batch(300)
        g = Gen(rng, k)
        m = g.block()
        base = len(m["st"])
        m["st"] = m["st"] + [b"%d" % i for i in range(66000 if ck.thorough or not _ else 300)] + [b"y" * 70000 if ck.thorough or not _ else b"y" * 700]
        g.st = m["st"]
        m["groups"].append(g.group())
        m["groups"].append({"nodes": [dict(g.node(), keys=[base, len(m["st"]) - 1], vals=[len(m["st"]) - 1, base + 256])], "dense": None, "ways": [], "rels": []})
        s = Stream()
        add_msg(b, s, m, rng)
        f = b.stream(s)
        b.session([op_open(f, "path"), op_next("full")], gen="large table")
    for go in gos:
        go()
    return "all string tables of up to 3 entries (good, empty, invalid) and all pairs of indices around them (MC_Block), and random blocks with " \
           "bad strings and indices; strings, errors and raw values have to be the ones Block!Resolved gives"


# ---------------------------------------------------------------- C17
def iter_block(rng, what, n):
    """A block with a list of length n of this kind, at group 0, element 0."""
    g = Gen(rng, Knobs(tags=(0, 2), refs=(0, 2), strings=(2, 4), wild=0.2))
    m = {"kind": "data", "st": g.table(), "gran": None, "dgran": None, "lato": None, "lono": None, "groups": []}
    idx = lambda: rng.randrange(1, len(g.st)) if len(g.st) > 1 else 0
    if len(g.st) < 2:
        g.st.append(b"z")
        m["st"] = g.st
    grp = {"nodes": [], "dense": None, "ways": [], "rels": []}

    def dense(k, tags):
        d = {"id": g.deltas([g.node_id() for _ in range(k)]), "lat": [1] * k, "lon": [2] * k, "kv": [], "info": maybe_info(k)}
        for t in tags:
            for _ in range(t):
                d["kv"] += [idx(), idx()]
            d["kv"].append(0)
        return d

    def maybe_info(k):
        return None if rng.random() < 0.5 else dict(g.dense_info(k), vis=[])

    def plain(x, k=0):
        x["keys"] = [idx() for _ in range(k)]
        x["vals"] = [idx() for _ in range(k)]
        return x

    def rel(k):
        return plain({"id": g.node_id(), "info": None, "roles": [idx() for _ in range(k)], "ids": g.deltas([g.node_id() for _ in range(k)]),
                      "types": [rng.randrange(3) for _ in range(k)]})

    def way(k):
        x = plain(g.way())
        x["refs"] = g.deltas([g.node_id() for _ in range(k)])
        x["lat"] = g.deltas([rng.randrange(9) for _ in range(k)])
        x["lon"] = g.deltas([rng.randrange(9) for _ in range(k)])
        return x

    path = None
    if what == "groups":
        for _ in range(n):
            m["groups"].append(g.group())
        return m, None
    if what == "elements":
        # n elements spread over kinds and groups, with empty groups in between
        left = n
        while left or rng.random() < 0.5:
            gr = {"nodes": [], "dense": None, "ways": [], "rels": []}
            for kind in rng.sample(["nodes", "dense", "ways", "rels"], rng.randint(1, 4)):
                k = rng.randint(0, left)
                left -= k
                if kind == "nodes":
                    gr["nodes"] = [plain(g.node(), rng.randrange(2)) for _ in range(k)]
                elif kind == "dense":
                    gr["dense"] = dense(k, [rng.randrange(2) for _ in range(k)])
                elif kind == "ways":
                    gr["ways"] = [way(1) for _ in range(k)]
                else:
                    gr["rels"] = [rel(1) for _ in range(k)]
            m["groups"].append(gr)
            if len(m["groups"]) > 8:
                m["groups"].append(dict(grp, nodes=[plain(g.node()) for _ in range(left)]))
                break
        return m, None
    m["groups"].append(grp)
    if what == "nodes":
        grp["nodes"] = [plain(g.node(), rng.randrange(3)) for _ in range(n)]
    elif what == "dense":
        grp["dense"] = dense(n, [rng.randrange(3) for _ in range(n)])
    elif what == "ways":
        grp["ways"] = [way(2) for _ in range(n)]
    elif what == "rels":
        grp["rels"] = [rel(2) for _ in range(n)]
    elif what in ("tags", "raw"):
        path = rng.choice(["nodes", "ways", "rels"])
        x = {"nodes": g.node, "ways": g.way, "rels": lambda: rel(1)}[path]()
        grp[path] = [plain(x, n)]
    elif what in ("dtags", "draw"):
        path = "dense"
        before = rng.randrange(3)
        grp["dense"] = dense(before + 2, [rng.randrange(3) for _ in range(before)] + [n, rng.randrange(2)])
        return m, ("dense", before)
    elif what in ("refs", "locs"):
        path = "ways"
        grp["ways"] = [way(n)]
    elif what == "mems":
        path = "rels"
        grp["rels"] = [rel(n)]
    return m, (path, 0) if path else None


ITERS = ["groups", "elements", "nodes", "dense", "ways", "rels", "tags", "raw", "dtags", "draw", "refs", "locs", "mems"]


def iter_open(f, what, path, rng):
    """Steps that make the iterator "a" of the block in stream f."""
    st = [op_open(f, rng.choice(BUFFERED + MAPPED)), op_next("keep", keep="b")]
    if what in ("groups", "elements"):
        st.append({"op": "iter", "src": "b", "what": what, "to": "a"})
        if what == "elements":
            st.append({"op": "irest", "it": "a"})
        return st
    st += [{"op": "iter", "src": "b", "what": "groups", "to": "g"}, {"op": "inext", "it": "g", "keep": "gr"}]
    if path is None:
        return st + [{"op": "iter", "src": "gr", "what": what, "to": "a"}]
    kind, before = path
    return st + [{"op": "iter", "src": "gr", "what": kind, "to": "p"}, {"op": "inth", "it": "p", "n": before, "keep": "el"},
                 {"op": "iter", "src": "el", "what": what.lstrip("d") if what in ("dtags", "draw") else what, "to": "a"}]


def c17(ck):
    d = ck.design("MC_Iter", "MC_Iter_emit.cfg", plans=True, **({"MaxLen": 4} if ck.thorough else {}))
    d2 = ck.design("MC_Iter", "MC_Iter.cfg")
    gos = [block_plans(ck, "mix", ck.pick(273, 3000)), block_plans(ck, "seq", ck.pick(200, 10000)), wire_plans(ck, "group", ck.pick(150, 3000))]
    rng = ck.rng
    # blocks of very many groups and iterators over very many items
    scaled(ck, lambda f, _: [[op_open(f, "path"), op_next("keep", keep="b"), {"op": "bforeach", "b": "b"}, {"op": "iter", "src": "b", "what": "elements", "to": "e"},
                              {"op": "irest", "it": "e", "how": "next"}, {"op": "icount", "it": "e"}, {"op": "iter", "src": "b", "what": "groups", "to": "g"},
                              {"op": "ilen", "it": "g"}, {"op": "inext", "it": "g"}, {"op": "ilen", "it": "g"}, {"op": "inth", "it": "g", "n": 300},
                              {"op": "ilen", "it": "g"}, {"op": "icount", "it": "g"}, {"op": "inext", "it": "g"}]], groups=ck.pick(4300, 17000))
    for what in ITERS if ck.thorough else rng.sample(ITERS, 4):
        b = ck.batch(300)
        n = ck.pick(rng.randrange(300, 1200), rng.randrange(1000, 9000))
        m, path = iter_block(rng, what, n)
        s = Stream()
        add_msg(b, s, m, rng)
        b.session(iter_open(b.stream(s), what, path, rng) + [
            {"op": "ilen", "it": "a"}, {"op": "inth", "it": "a", "n": n // 2}, {"op": "ilen", "it": "a"}, {"op": "iclone", "it": "a", "to": "b"}, {"op": "icount", "it": "b"},
            {"op": "iskip", "it": "a", "n": n // 4}, {"op": "ilen", "it": "a"}, {"op": "inext", "it": "a"}, {"op": "ilast", "it": "a"}, {"op": "inext", "it": "b"}],
            iterator=what, items=n)
    # a clone taken at every place
    for what in ["elements"] * ck.pick(25, 300) + ITERS * ck.pick(2, 40):
        b = ck.batch(60)
        n = rng.randint(1, 7)
        m, path = iter_block(rng, what, n)
        if what == "elements":      # several kinds in a group
            g = Gen(rng, Knobs(mixed=1.0, n=(1, 2), tags=(0, 1), refs=(0, 1), wild=0.1))
            g.st = m["st"]
            m["groups"] = [g.group() for _ in range(rng.randint(1, 3))]
            n = 8
        s = Stream()
        add_msg(b, s, m, rng)
        st = iter_open(b.stream(s), what, path, rng)
        for p in range(n + 1):
            st += [{"op": "iclone", "it": "a", "to": "c"}, {"op": "irest", "it": "c", "how": rng.choice(["next", "fold", "loop"])}, {"op": "icount", "it": "c"},
                   {"op": "inext", "it": "c"}, {"op": "inext", "it": "a"}]
        b.session(st, gen="clones", iterator=what)
    # the three ways of walking a block
    for k in range(ck.pick(90, 1200)):
        b = ck.batch(70)
        g = Gen(rng, Knobs(groups=(0, 4), mixed=0.7, n=(0, 3), tags=(0, 2), refs=(0, 3), uneven=rng.choice([0, 0, 0.2])))
        s = Stream()
        add_msg(b, s, g.block(), rng)
        f = b.stream(s)
        st = [op_open(f, rng.choice(BUFFERED + MAPPED)), op_next("keep", keep="b"), {"op": "bforeach", "b": "b"},
              {"op": "iter", "src": "b", "what": "elements", "to": "e"}, {"op": "irest", "it": "e", "how": rng.choice(["next", "fold", "loop"])}, {"op": "icount", "it": "e"},
              {"op": "ilast", "it": "e"}, {"op": "ilen", "it": "e"}, {"op": "iter", "src": "b", "what": "groups", "to": "g"}, {"op": "ilen", "it": "g"}]
        for j in range(5):
            st += [{"op": "inext", "it": "g", "keep": "gr"}, {"op": "ilen", "it": "g"}]
            for what in ("nodes", "dense", "ways", "rels"):
                st += [{"op": "iter", "src": "gr", "what": what, "to": "i"}, {"op": "ilen", "it": "i"}, {"op": "irest", "it": "i", "how": rng.choice(["next", "fold", "loop"])},
                       {"op": "icount", "it": "i"}]
        b.session(st, gen="three ways")
    for k in range(ck.pick(200, 3000)):      # longer random histories
        what = rng.choice(ITERS)
        b = ck.batch(40)
        m, path = iter_block(rng, what, rng.choice([0, 1, 2, 5, 9, 17]))
        s = Stream()
        add_msg(b, s, m, rng)
        st = iter_open(b.stream(s), what, path, rng)
        for _ in range(rng.randint(4, 16)):
            h = rng.choice("aaab")
            st.append(rng.choice([{"op": "inext", "it": h}, {"op": "inext", "it": h}, {"op": "inth", "it": h, "n": rng.choice([0, 1, 2, 3, 100])}, {"op": "ilen", "it": h},
                                  {"op": "ilen", "it": h}, {"op": "iclone", "it": h, "to": "b" if h == "a" else "a"}, {"op": "icount", "it": h}, {"op": "ilast", "it": h},
                                  {"op": "iskip", "it": h, "n": rng.randrange(4)}, {"op": "irest", "it": h, "how": rng.choice(["next", "fold", "loop"])}]))
        b.session(st, iterator=what)
    names = {"next": "inext", "nth": "inth", "skip": "iskip", "last": "ilast", "count": "icount", "len": "ilen", "rest": "irest"}
    plans = d.result()
    todo = [(p, w) for p in plans for w in ITERS]
    for p, what in (todo if ck.thorough else rng.sample(todo, 1600)):
        b = ck.batch(8 + len(p["ops"]))
        m, path = iter_block(rng, what, p["len"])
        s = Stream()
        add_msg(b, s, m)
        st = iter_open(b.stream(s), what, path, rng)
        for o in p["ops"]:
            h = o["h"]
            if o["op"] == "clone":
                st.append({"op": "iclone", "it": h, "to": "b" if h == "a" else "a"})
            else:
                st.append({"op": names[o["op"]], "it": h, "n": o["n"]})
        b.session(st, iterator=what, plan="MC_Iter")
    d2.result()
    for go in gos:
        go()
    return "all behaviours of up to two iterators over lists of up to 3 items (MC_Iter), realised on all 13 kinds of iterators, all mixtures of " \
           "kinds in two groups (MC_Block), and random histories; items, lengths and order have to agree with Iter and Block"


# ---------------------------------------------------------------- C18 - C20
def xopen(f, via, h="x", **kw):
    return dict({"op": "xopen", "h": h, "f": f, "via": via}, **kw)


def xways(acc=(), every=0, full=False, h="x", **kw):
    return dict({"op": "xways", "h": h, "acc": [limbs(a) for a in acc], "every": every, "full": full}, **kw)


def xnodes(full=False, h="x", **kw):
    return dict({"op": "xnodes", "h": h, "full": full}, **kw)


def xcreate(h="x", **kw):
    return dict({"op": "xcreate", "h": h}, **kw)


def query_stream(b, rng, wildids=0.3):
    """Blobs whose nodes and references come from a small pool of ids."""
    if rng.random() < wildids:
        pool = [0, 1, -1, 5, (1 << 31) - 1, 1 << 32, -(1 << 33), (1 << 62), (1 << 63) - 1, -(1 << 63)]
        pool = rng.sample(pool, rng.randint(2, 6))
    else:
        lo = rng.choice([-5, 0, 1000])
        pool = list(range(lo, lo + rng.randint(2, 12)))
    s = Stream()
    if rng.random() < 0.5:
        add_msg(b, s, Gen(rng, TINY).header(), rng)
    for _ in range(rng.randint(0, 7)):
        r = rng.random()
        if r < 0.1:
            add_unknown(b, s, rng, rng.choice(gen.UNKNOWN[:-1]))
            continue
        if r < 0.15:
            add_msg(b, s, Gen(rng, TINY).header(), rng)
            continue
        sub = pool if rng.random() < 0.5 else rng.sample(pool, rng.randint(1, len(pool)))
        kinds = rng.choice([("node",), ("dense",), ("way",), ("rel",), ("node", "dense"), ("node", "dense", "way", "rel"), ("way", "rel")])
        k = Knobs(groups=(0, 3), mixed=0.5, kinds=kinds, n=(0, 4), ids=sub, tags=(0, 1), refs=(0, 4), strings=(1, 2), info=0.1, units=0.1, locs=0.1, wild=0.0,
                  uneven=0.0)
        m = Gen(rng, k).block()
        for g in m["groups"]:
            for w in g["ways"]:
                w["id"] = rng.choice(WAYIDS)
                if rng.random() < 0.2:
                    w["refs"] = Gen(rng).deltas([rng.choice(pool + [123456789]) for _ in range(rng.randint(1, 6))])
        add_msg(b, s, m, rng)
    s.no = b.stream(s)
    return s


WAYIDS = [1, 2, 3, 4, 5, -7, 1 << 40]


def accept(rng):
    return rng.choice([dict(every=1), dict(every=2), dict(every=3), dict(acc=[]), dict(acc=rng.sample(WAYIDS, rng.randint(1, 5)))])


def c18(ck):
    d = ck.design("MC_Files", "MC_Files.cfg", plans=True)
    d2 = ck.design("MC_Indexed", "MC_Indexed.cfg", **({"MaxFaults": 2} if ck.thorough else {}))
    rng = ck.rng
    big_contents(ck, ck.pick(8, 60), big_query, data=False)
    for sizes, refs in ck.pick([((3000,), 2)], [((3000,), 2), ((12000,), 1), ((200,), 100)]):
        b = ck.batch(2000)
        ids = rng.sample(range(-40000, 40000), sizes[0])
        ways = large_block(rng, sizes[0] // 4, ("way",))
        for w in ways["groups"][0]["ways"]:
            w["refs"] = Gen(rng).deltas([rng.choice(ids) if rng.random() < 0.7 else rng.randrange(-40000, 40000) for _ in range(refs)])
        nodes = large_block(rng, 1, ("dense",))
        nodes["groups"][0]["dense"].update(id=Gen(rng).deltas(ids), lat=[1] * len(ids), lon=[2] * len(ids))
        plain = large_block(rng, 1, ("node",))
        plain["groups"][0]["nodes"] = [dict(plain["groups"][0]["nodes"][0], id=i) for i in rng.sample(ids, sizes[0] // 4)]
        blobs = [(DATA, x, rng.choice(["raw", "zlib"])) for x in (ways, nodes, plain)]
        rng.shuffle(blobs)
        s, _ = table_frames(b, rng, 0, blobs)
        b.session([xopen(s.no, rng.choice(["new", "path"])), xways(every=2), xways(every=3)], gen="large")
    # many wanted ids within the range of ids of one block, whose range is known or not
    for n in [rng.randrange(8100, 9000), rng.randrange(33000, 34000)] + ck.pick([], [66000, 130000]):
        b = ck.batch(2000)
        first = rng.randrange(-(1 << 40), 1 << 40)
        ways = large_block(rng, 3, ("way",))
        for i, w in enumerate(ways["groups"][0]["ways"]):
            w["refs"] = [first + i * n // 3] + [1] * (n // 3)
        nodes = large_block(rng, 1, ("dense",))
        ids = sorted([first, first + n - 2] + [first + rng.randrange(-50, n + 50) for _ in range(30)])
        nodes["groups"][0]["dense"].update(id=Gen(rng).deltas(ids), lat=[1] * len(ids), lon=[2] * len(ids))
        blobs = [(DATA, x, "raw") for x in (ways, nodes)]
        rng.shuffle(blobs)
        s, _ = table_frames(b, rng, 0, blobs)
        b.session([xopen(s.no, "new")] + ([xnodes()] if rng.random() < 0.7 else []) + [xways(every=1)], gen="many ids")
    scaled(ck, lambda f, _: [[xopen(f, "path"), xways(every=1)]], wide=ck.pick(4300, 17000))
    scaled(ck, lambda f, _: [[xopen(f, "path"), xways(every=1)]], groups=ck.pick(4300, 17000))
    for k in range(ck.pick(450, 6000)):
        b = ck.batch(35)
        s = query_stream(b, rng)
        st = [xopen(s.no, rng.choice(["new", "path"]))]
        st += [xways(full=rng.random() < 0.3, **accept(rng)) for _ in range(rng.randint(1, 3))]
        b.session(st, gen="query")
    for p in ck.sample(d.result(), ck.pick(700, 5800)):
        b = ck.batch(14)
        s = cells_stream(b, rng, p["cells"], p["tail"])
        b.session([xopen(s.no, rng.choice(["new", "path"])), xways(**accept(rng)), xways(**accept(rng))], cells=p["cells"], tail=p["tail"])
    d2.result()
    return "random files whose ids overlap, repeat and are unsorted, with random filters, and all files of up to 3 abstract blobs (MC_Files); " \
           "filter calls and results have to be the ones of Files!Accepted and Files!Deps"


def c19(ck):
    d = ck.design("MC_Files", "MC_Files.cfg", plans=True)
    d2 = ck.design("MC_Indexed", "MC_Indexed.cfg", **({"MaxFaults": 2} if ck.thorough else {}))
    rng = ck.rng
    big_contents(ck, ck.pick(8, 60), big_query, data=False)
    scaled(ck, lambda f, _: [[xopen(f, "path"), xnodes(), xnodes()]], wide=ck.pick(4300, 17000))
    scaled(ck, lambda f, _: [[xopen(f, "path"), xnodes()]], groups=ck.pick(4300, 17000))
    scaled(ck, lambda f, _: [[xopen(f, "new"), xnodes()]], sizes=[8001, 300, 300], kinds=("node", "dense"))
    for k in range(ck.pick(400, 6000)):
        b = ck.batch(35)
        s = query_stream(b, rng)
        st = [xopen(s.no, rng.choice(["new", "path"]))]
        if st[0]["via"] == "new" and rng.random() < 0.4:        # the stream does not have to be at its start
            st[0]["pos"] = rng.choice([x[0] for x in s.blobs] + [len(s.data), 1])
        st += [rng.choice([xnodes, xnodes, xcreate])(**({"full": rng.random() < 0.3})) if rng.random() < 0.8 else xways(**accept(rng)) for _ in range(rng.randint(1, 3))]
        st.append(xnodes())
        b.session(st, gen="nodes")
    for p in ck.sample(d.result(), ck.pick(800, 5800)):
        b = ck.batch(14)
        s = cells_stream(b, rng, p["cells"], p["tail"])
        b.session([xopen(s.no, rng.choice(["new", "path"])), xnodes(full=rng.random() < 0.3), xnodes()], cells=p["cells"], tail=p["tail"])
    d2.result()
    return "random files read from any start position, and all files of up to 3 abstract blobs (MC_Files), first and repeated calls; the " \
           "callback sequence has to be the one of Files!NodeGroups"


def c20(ck):
    d = ck.design("MC_Indexed", "MC_Indexed_emit.cfg", plans=True)
    d2 = ck.design("MC_Indexed", "MC_Indexed.cfg", **({"MaxFaults": 2} if ck.thorough else {}))
    d3 = ck.design("MC_Indexed", "MC_Indexed_live.cfg")
    rng = ck.rng
    big_contents(ck, ck.pick(8, 60), big_query, data=False)
    for k in range(ck.pick(6, 60)):          # many calls on one reader
        b = ck.batch(120)
        s = query_stream(b, rng)
        b.session([xopen(s.no, rng.choice(["new", "path"]))] + [rng.choice([xnodes(), xcreate(), xways(**accept(rng)), xways(**accept(rng))]) for _ in range(30)], gen="many calls")

    def call(faulty, n):
        kw = {"fault": fault(rng, rng.randrange(0, 4 * n + 3), rng.choice(["any", "any", "read", "seek"]))} if faulty else {}
        if rng.random() < 0.15:              # a closure of the caller panics
            kw["bomb" if rng.random() < 0.6 else "fbomb"] = rng.choice([1, 1, 2, 3, 5, 9])
        r = rng.random()
        return xnodes(**kw) if r < 0.35 else xways(**accept(rng), **kw) if r < 0.85 else xcreate(**kw)

    for k in range(ck.pick(350, 5000)):
        b = ck.batch(50)
        s = query_stream(b, rng)
        n = len(s.blobs)
        st = [xopen(s.no, "new", pos=rng.choice([0, 0, len(s.data)]))] + [call(rng.random() < 0.4, n) for _ in range(rng.randint(2, 6))] + [xnodes(), xways(every=1)]
        b.session(st, gen="history")
    for k in range(ck.pick(150, 2000)):      # with damage
        b = ck.batch(30)
        cells = [rng.choice(["nodes", "ways", "mixed", "dense", "bad", "head", "unk"]) for _ in range(rng.randint(1, 5))]
        s = cells_stream(b, rng, cells, rng.choice(["none", "none", "none", "cutdata", "err"]))
        st = [xopen(s.no, rng.choice(["new", "path"]))] + [call(False, 0) for _ in range(rng.randint(2, 5))]
        b.session(st, cells=cells)
    for p in ck.sample([p for p in d.result() if len(p["calls"]) > 1], ck.pick(700, 12000)):
        b = ck.batch(18)
        s = cells_stream(b, rng, p["cells"], p["tail"])
        st = [xopen(s.no, "new")]
        for c in p["calls"]:
            kw = {}
            if c["fault"]:
                i = c["fault"] - 1
                at = 3 * (i - 10 if i >= 10 else i) + (4 * len(p["cells"]) if i >= 10 else 0) + rng.randrange(-1, 4)
                kw["fault"] = fault(rng, max(0, at))
            kw.update(bomb=c["bomb"], fbomb=c["fbomb"])
            st.append(xways(acc=c["acc"], **kw) if c["op"] == "ways" else xnodes(**kw) if c["op"] == "nodes" else xcreate(**kw))
        b.session(st + [rng.choice([xnodes(), xways(every=1)])], cells=p["cells"], tail=p["tail"])
    d2.result()
    d3.result()
    return "histories of index creation, node iteration and way queries with failures of the stream at any read or seek, random ones and all " \
           "those of MC_Indexed; every result has to be the one Files defines without any history"


# ---------------------------------------------------------------- C21
def hostile_block(rng):
    return Gen(rng, Knobs(groups=(0, 3), mixed=0.6, n=(0, 4), uneven=0.5, badstr=0.4, wild=0.7, units=0.8, tags=(0, 3), refs=(0, 5), strings=(0, 4)))


def traverse(rng, f, n, dec="full"):
    """Sessions that traverse a stream completely with every reader."""
    out = [[opened(rng, f, rng.choice(BUFFERED))] + iterate(n, dec),
           [op_open(f, rng.choice(MAPPED))] + iterate(n, dec),
           [opened(rng, f, rng.choice(BUFFERED))] + [op_hdr() for _ in range(n)],
           [op_foreach(f, rng.choice(["new", "path"]), dec == "full")],
           [op_par(f, rng.choice(["new", "path"]), rng.choice([1, 2, 4]), rng.randrange(99))],
           [xopen(f, rng.choice(["new", "path"])), xnodes(), xways(every=1), xnodes()]]
    return out


def c21(ck):
    rng = ck.rng
    d = ck.design("MC_Indexed", "MC_Indexed_live.cfg")
    ck_design_stream(ck)
    gos = [block_plans(ck, "lens", ck.pick(150, 3000)), block_plans(ck, "kv", ck.pick(150, 3000)), block_plans(ck, "mems", ck.pick(100, 3000)),
           block_plans(ck, "dinfo", ck.pick(150, 3000)),
           wire_plans(ck, "rel", ck.pick(60, 2000), short=False), wire_plans(ck, "dense", ck.pick(60, 2000), short=False), wire_plans(ck, "block", ck.pick(60, 2000), short=False)]
    for k in range(ck.pick(100, 1500)):      # hostile messages in intact frames
        b = ck.batch(80)
        s = stream(b, rng, hostile_block(rng), n=rng.randint(1, 3), unknown=0.05)
        for st in rng.sample(traverse(rng, s.no, len(s.blobs) + 1), 2):
            b.session(st, gen="hostile message")
    for k in range(ck.pick(350, 6000)):      # damaged bytes anywhere
        b = ck.batch(40)
        s = stream(b, rng, Gen(rng, TINY) if rng.random() < 0.6 else hostile_block(rng), n=rng.randint(0, 3))
        t = mutate(s, rng, rng.choice([1, 1, 2, 4, 8]))
        f = b.stream(t)
        for st in rng.sample(traverse(rng, f, len(s.blobs) + 3), 2):
            b.session(st, gen="mutated")
    for k in range(ck.pick(150, 3000)):      # damaged messages in intact frames
        b = ck.batch(30)
        s = Stream()
        for _ in range(rng.randint(1, 2)):
            p = bytearray(pbf.encode(hostile_block(rng).block() if rng.random() < 0.8 else Gen(rng).header()))
            for _ in range(rng.choice([1, 1, 2, 5])):
                if p:
                    i = rng.randrange(len(p))
                    if rng.random() < 0.7:
                        p[i] = rng.choice([0, 1, 127, 128, 255, p[i] ^ (1 << rng.randrange(8))])
                    else:
                        del p[i:i + rng.randint(1, 3)]
            s.add(rng.choice([DATA, DATA, DATA, HEAD]), bytes(p), ("any", 0), storage=rng.choice(["raw", "zlib"]))
        f = b.stream(s)
        for st in rng.sample(traverse(rng, f, len(s.blobs) + 1), 2):
            b.session(st, gen="mutated message")
    for k in range(ck.pick(60, 600)):        # sizes that promise more than there is
        b = ck.batch(30)
        s = Stream()
        if rng.random() < 0.5:
            add_cell(b, s, rng, "nodes")
        how = corrupt_frame(b, s, rng)
        f = b.stream(s)
        for st in rng.sample(traverse(rng, f, 4), 3):
            b.session(st, corrupt=how)
    for k in range(ck.pick(8, 60)):          # lengths inside of messages
        b = ck.batch(30)
        s = Stream()
        n = rng.choice([1 << 20, 1 << 28, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1])
        where = rng.choice(["header", "blob", "message"])
        fld = pbf.key(rng.choice([1, 2, 3, 8, 500]), 2) + pbf.varint(n) + b"abc"
        if where == "header":
            s.data += pbf.frame_bytes(pbf.blob_header(DATA, 0) + fld, b"")
        elif where == "blob":
            gen.add_blob(s, DATA, fld)
        else:
            s.add(DATA, pbf.f_bytes(1, b"") + fld, ("any", 0), storage=rng.choice(["raw", "zlib"]))
        f = b.stream(s)
        for st in rng.sample(traverse(rng, f, 3), 3):
            b.session(st, length=n, where=where)
    many = [("groups", lambda n: pbf.f_bytes(2, b"") * n), ("strings", lambda n: pbf.f_bytes(1, pbf.f_bytes(1, b"") * n)),
            ("tables", lambda n: pbf.f_bytes(1, b"") * n),
            ("keys_vals", lambda n: pbf.f_bytes(2, pbf.f_bytes(2, pbf.f_bytes(1, b"\x02") + pbf.f_bytes(10, bytes(n)) + pbf.f_bytes(8, b"\x02") + pbf.f_bytes(9, b"\x02")))),
            ("own keys_vals", lambda n: pbf.f_bytes(2, pbf.f_bytes(2, pbf.f_bytes(1, b"\x02") + pbf.f_bytes(10, b"\x09" * n) + pbf.f_bytes(8, b"\x02") + pbf.f_bytes(9, b"\x02")))),
            ("dense ids", lambda n: pbf.f_bytes(2, pbf.f_bytes(2, pbf.f_bytes(1, b"\x02" * n) + pbf.f_bytes(8, b"\x02") + pbf.f_bytes(9, b"\x02")))),
            ("denses", lambda n: pbf.f_bytes(2, pbf.f_bytes(2, b"") * n)),
            ("infos", lambda n: pbf.f_bytes(2, pbf.f_bytes(3, pbf.f_varint(1, 1) + pbf.f_bytes(4, b"") * n))),
            ("keys", lambda n: pbf.f_bytes(2, pbf.f_bytes(3, pbf.f_varint(1, 1) + pbf.f_bytes(2, b"\x01" * n)))),
            ("lats", lambda n: pbf.f_bytes(2, pbf.f_bytes(3, pbf.f_varint(1, 1) + pbf.f_bytes(9, b"\x01" * n)))),
            ("members", lambda n: pbf.f_bytes(2, pbf.f_bytes(4, pbf.f_varint(1, 1) + pbf.f_bytes(9, b"\x01" * n)))),
            ("unknown fields", lambda n: pbf.f_varint(77, 1) * n)]
    for what, make in many:                  # very many of something small, at first glance or in fact nothing
        b = ck.batch(200)
        n = rng.randrange(200000, 400000)
        c = make(n)
        s, _ = table_frames(b, rng, 0, [(DATA, (b"" if what == "tables" else pbf.f_bytes(1, b"")) + c, rng.choice(["raw", "zlib"]))])
        for st in [x for i, x in enumerate(traverse(rng, s.no, 1, "walk")) if i != 2]:
            b.session(st, many=what, n=n)
    for ty in [b"", b"OSMHeader", b"OSMData"]:
        b = ck.batch(100)
        n = rng.randrange(30000, 50000)
        s = Stream()
        one = pbf.frame_bytes(pbf.blob_header(ty, 0 if ty == b"" else 4), b"" if ty == b"" else pbf.f_bytes(1, pbf.f_bytes(1 if ty == DATA else 99, b"")))
        s.ext, s.len = [(0, one * n)], len(one) * n
        s.frames = [{"pos": limbs(0), "k": "any", "ty": [], "size": limbs(0), "nx": limbs(0), "c": {"k": "none", "s": 0, "e": 0}}]
        f = b.stream(s)
        for st in traverse(rng, f, 1, "walk")[3:]:
            b.session(st, many=ty.decode(), n=n)
    for k in range(ck.pick(3, 12)):          # expansion
        b = ck.batch(60)
        s = Stream()
        n = rng.choice([200 << 20, 500 << 20, 1 << 30])
        import zlib
        c = zlib.compressobj(9)
        # zeros are no message; a long unknown field is one
        valid = rng.random() < 0.6
        part = pbf.f_bytes(500, bytes((1 << 20) - 5)) if valid else bytes(1 << 20)
        z = b"".join(c.compress(part) for _ in range(n >> 20)) + c.flush()
        t = Stream()
        t.add(DATA, z, ("msg" if valid else "bad", 0), storage="zlibraw", raw_size=False)
        hs = 4 + int.from_bytes(t.data[:4], "big")
        s.ext, s.len = [(0, bytes(t.data))], len(t.data)
        s.cont = [dict(t.cont[0], n=n if n < 1 << 31 else (1 << 31) - 1)]
        s.frames = [{"pos": limbs(0), "k": "frame", "ty": list(DATA), "size": limbs(len(t.data) - hs), "nx": limbs(s.len),
                     "c": {"k": "z", "s": t.cont[0]["s"], "e": t.cont[0]["e"]}}]
        f = b.stream(s)
        for via in ("path", "mmap"):
            b.session([op_open(f, via)] + iterate(2, "brief"), bomb=n)
        b.session([op_foreach(f, "path")], bomb=n)
    # members of unknown types: a known deviation
    for k in range(ck.pick(15, 150)):
        b = ck.batch(30)
        m = Gen(rng, Knobs(groups=(1, 1), mixed=0.0, kinds=("rel",), n=(1, 3), refs=(1, 4), badtype=0.7, info=0.2, tags=(0, 1))).block()
        s = Stream()
        add_msg(b, s, m, rng)
        f = b.stream(s)
        st = [op_open(f, rng.choice(BUFFERED)), op_next("keep", keep="b"), {"op": "iter", "src": "b", "what": "groups", "to": "g"}, {"op": "inext", "it": "g", "keep": "gr"},
              {"op": "iter", "src": "gr", "what": "rels", "to": "r"}]
        if rng.random() < 0.4:
            st.append({"op": "irest", "it": "r"})
        else:
            st += [{"op": "icount", "it": "r"}, {"op": "bforeach", "b": "b"}]
        b.session(st, gen="member types")
    for go in gos:
        go()
    d.result()
    return "hostile messages, mutated bytes of frames and messages, sizes and lengths that promise more than there is, and expanding contents, " \
           "traversed with every reader under a memory limit; panics, hangs and excessive memory are no steps of the specification"


# ---------------------------------------------------------------- C22
def c22(ck):
    d = ck.design("MC_Files", "MC_Files.cfg")
    rng = ck.rng
    gos = [wire_plans(ck, "hblock", ck.pick(250, 5000)), wire_plans(ck, "bbox", ck.pick(120, 2000))]
    fields = ["bbox", "prog", "source", "rurl", "rts", "rseq"]
    todo = []
    for mask in range(1 << len(fields)):
        h = Gen(rng).header()
        for i, k in enumerate(fields):
            if mask >> i & 1:
                if h[k] is None:
                    h[k] = {"bbox": [gen.i64(rng, True) for _ in range(4)], "rts": gen.i64(rng, True), "rseq": gen.i64(rng, True)}.get(
                        k, rng.choice([b"", b"a", b"osm"]))
            else:
                h[k] = None
        todo.append(h)
    for k in fields:        # present but empty or zero
        for v in ([0, 0, 0, 0], [1, 2, 3, 4], [-1, 0, 1 << 40, 5]) if k == "bbox" else (0, -1, 1 << 62) if k in ("rts", "rseq") else (b"", b"x"):
            todo.append(dict(empty_header(), **{k: v}))
    todo.append(empty_header())
    for _ in range(ck.pick(150, 3000)):
        todo.append(Gen(rng).header())
    for _ in range(ck.pick(10, 100)):
        h = Gen(rng).header()
        h["req"] = [rng.choice([b"a", b"b", b"OsmSchema-V0.6", b""]) for _ in range(rng.randint(2, 12))]
        h["optf"] = [rng.choice([b"a", b"b", b"Sort.Type_then_ID", b"LocationsOnWays"]) for _ in range(rng.randint(2, 12))]
        todo.append(h)
    for i in range(0, len(todo), 4):
        b = ck.batch(30)
        s = Stream()
        for h in todo[i:i + 4]:
            add_msg(b, s, h, rng)
        f = b.stream(s)
        b.session([opened(rng, f, rng.choice(BUFFERED + MAPPED))] + iterate(5, "brief"), gen="headers")
        if rng.random() < 0.3:
            b.session([opened(rng, f, rng.choice(BUFFERED))] + iterate(5, "brief"), gen="headers")
            b.session([opened(rng, f, rng.choice(BUFFERED))] + [op_next("brief", **{"as": "header"}) for _ in range(4)], gen="explicit")
    d.result()
    for n in (300, 70000):
        b = ck.batch(500)
        h = Gen(rng).header()
        h["req"] = [b"f%d" % i for i in range(n // 100)]
        h["optf"] = [b"" if i % 7 == 3 else b"o%d" % i for i in range(n // 100 + 5)]
        h["prog"], h["source"], h["rurl"] = b"p" * n, "ü".encode() * (n // 2), b"u" * (n - 1)
        s, _ = table_frames(b, rng, 0, [(HEAD, h, "raw"), (HEAD, h, "zlib")])
        b.session([op_open(s.no, rng.choice(BUFFERED + MAPPED))] + iterate(3, "brief"), gen="long")
    for go in gos:
        go()
    return "all presence combinations of the header's fields, empty and zero values, and random headers; every accessor has to report what the " \
           "message says"


# ---------------------------------------------------------------- C23
def c23(ck):
    d = ck.design("MC_Stream", "MC_Stream_emit.cfg", plans=True)
    ck_design_stream(ck)
    d2 = ck.design("MC_Indexed", "MC_Indexed.cfg", **({"MaxFaults": 2} if ck.thorough else {}))
    rng = ck.rng
    # which reads and seeks there are is found out by a run without failures
    tries = []
    dry = Batch("dry")
    for k in range(ck.pick(26, 200)):
        cells = [rng.choice(["nodes", "dense", "mixed", "head", "unk", "ways"]) for _ in range(rng.randint(1, 3))]
        seed = rng.randrange(1 << 60)
        kind = ["next", "hdr", "foreach", "par", "x", "from", "seek", "next"][k % 8]
        s = cells_stream(dry, random.Random(seed), cells, "none")
        src = dict(chunk=rng.choice([[], [], [], [1], [5]]))
        if kind == "next":
            st = [op_open(s.no, rng.choice(["new", "seekable", "bufseekable"]), **src)] + iterate(len(cells) + 2, "brief")
        elif kind == "hdr":
            st = [op_open(s.no, rng.choice(["new", "seekable", "bufseekable"]), **src)] + [rng.choice([op_hdr, op_hdr, op_next])() for _ in range(len(cells) + 2)]
        elif kind == "foreach":
            st = [op_foreach(s.no, rng.choice(["new", "bufnew"]), **src)]
        elif kind == "par":
            st = [op_par(s.no, rng.choice(["new", "bufnew"]), rng.choice([1, 2, 4]), 7, **src)]
        elif kind == "x":
            st = [xopen(s.no, "new", **src), rng.choice([xnodes(), xways(every=1), xcreate()]), xnodes(), xways(every=1)]
        elif kind == "from":
            st = [op_open(s.no, rng.choice(["seekable", "bufseekable"]), **src)] + [op_from(rng.choice(s.blobs)[0]) for _ in range(3)] + [op_next()]
        else:
            st = [op_open(s.no, rng.choice(["seekable", "bufseekable"]), **src), op_seek(s.blobs[-1][0]), op_next(), op_raw("start", 0), op_hdr(), op_raw("end", 0),
                  op_next(), op_raw("cur", -len(s.data)), op_next()]
        dry.session(st)
        tries.append((cells, seed, st))
    obs = ck.dry(dry)
    points = []
    for n, (cells, seed, st) in enumerate(tries):
        for i, (out, _) in enumerate(obs[n]):
            for at in range(min(out.get("ios", 0), 60)):
                points.append((cells, seed, st, i, at, "any"))
            for at in range(min(out.get("seeks", 0), 40)):
                points.append((cells, seed, st, i, at, "seek"))
    ck.notes["fault_points"] = len(points)
    for cells, seed, st, i, at, on in points:
        for kd in KINDS if ck.thorough else [None, None] + (["NotSeekable", "InvalidInput", "Unsupported"] if on == "seek" else []):
            b = ck.batch(len(st) + 4)
            s = cells_stream(b, random.Random(seed), cells, "none")
            st2 = [dict(x, f=s.no) if "f" in x else dict(x) for x in st]
            st2[i]["fault"] = fault(rng, at, on, kd)
            b.session(st2, fault_at=[i, at], on=on, kind=st2[i]["fault"]["kind"])
    stream_plans(ck, d.result(), ck.pick(900, 20000), lambda p: any(o["flt"] == "yes" for o in p["ops"]))
    d2.result()
    # failures far into a long stream
    for k in range(ck.pick(3, 20)):
        def late(f, _, k=k):
            ft = fault(rng, rng.randrange(300, 800), times=1)
            return [[dict(op_foreach(f, "new"), fault=ft)], [dict(op_par(f, "new", 4, 5), fault=ft)],
                    [xopen(f, "new"), xcreate(fault=ft), xnodes()]][k % 3: k % 3 + 1]
        scaled(ck, late, wide=270)
    return "every read and seek call of sample sessions of every kind (found by a run without failures) fails in turn, with every kind of error " \
           "in turn, and the behaviours of MC_Stream with failures; the operation has to fail, and later ones are as specified"


# ---------------------------------------------------------------- C24
def c24(ck):
    d = ck.design("MC_Files", "MC_Files.cfg", plans=True)
    ds = ck.design("MC_Stream", "MC_Stream_emit.cfg", plans=True)
    rng = ck.rng
    # every way to end a stream early or spoil a frame
    for k in range(ck.pick(60, 800)):
        b = ck.batch(80)
        s = cells_stream(b, rng, [rng.choice(["nodes", "unk", "head", "empty"]) for _ in range(rng.randint(0, 2))], "none")
        start = s.blobs[-1][0] if s.blobs else 0
        cuts = list(range(start, len(s.data)))
        for at in rng.sample(cuts, min(len(cuts), 5)):
            t = gen.copy_stream(s)
            del t.data[at:]
            t.cont = [c for c in t.cont if c["e"] <= at]
            f = b.stream(t)
            whole_readers(rng, f, len(s.blobs) + 2, b, {"cut": at}, ["new", "mmap", rng.choice(["hdr", "foreach", "par", "x"])])
            b.session([op_open(f, rng.choice(["seekable", "path"])), op_from(start), op_from(at), op_from(at + rng.choice([0, 1, 100]))], cut=at)
    for k in range(ck.pick(150, 2000)):
        b = ck.batch(60)
        s = Stream()
        for _ in range(rng.randint(0, 2)):
            add_cell(b, s, rng, rng.choice(["nodes", "head", "unk", "bad"]))
        what = corrupt_frame(b, s, rng)
        for _ in range(rng.randint(0, 2)):
            add_cell(b, s, rng, rng.choice(["nodes", "head", "unk"]))
        f = b.stream(s)
        whole_readers(rng, f, 6, b, {"corrupt": what}, ["new", "mmap", rng.choice(["hdr", "foreach", "par", "x"])])
    # contents that do not decode, with every reader and interpretation
    for k in range(ck.pick(120, 1500)):
        b = ck.batch(60)
        s = Stream()
        for _ in range(rng.randint(1, 4)):
            ty = rng.choice([HEAD, DATA, DATA])
            gen.add_damaged(b, s, rng, ty, empty_header() if ty == HEAD else Gen(rng, TINY).block())
            if rng.random() < 0.4:
                add_cell(b, s, rng, rng.choice(["nodes", "head", "badunk"]))
        f = b.stream(s)
        n = len(s.blobs)
        whole_readers(rng, f, n + 1, b, {"gen": "damaged"}, ["mmap", rng.choice(["foreach", "par", "x"])])
        b.session([op_open(f, "seekable")] + [op_from(x[0], "brief", **({"as": rng.choice(["header", "data"])} if rng.random() < 0.3 else {})) for x in s.blobs],
                  gen="damaged")
        st = [opened(rng, f, rng.choice(BUFFERED))]
        for i in range(n):
            st += [op_next("no", keepb="k"), {"op": "bdec", "b": "k", "dec": "brief"}, {"op": "bdec", "b": "k", "dec": "brief"}]
        b.session(st, gen="damaged, kept")
    for n, st in [(LIMIT, "raw"), (LIMIT + rng.randrange(1 << 20), "raw"), (LIMIT, "zlib")] + [(40 << 20, "zlib"), (LIMIT + 1, "raw")] * ck.pick(0, 1):
        big_content(ck, n, st, rng.choice([DATA, DATA, HEAD]))
    # strings of elements that are out of range or not UTF-8
    blocks(ck, Knobs(groups=(1, 2), mixed=0.5, n=(1, 3), info=0.8, tags=(0, 2), refs=(1, 3), strings=(1, 5), badstr=0.6, uneven=0.1, wild=0.2),
           ck.pick(60, 1000))
    # the stream or the system refuses
    for k in range(ck.pick(500, 5000)):
        b = ck.batch(24)
        s = cells_stream(b, rng, [rng.choice(["nodes", "head", "unk", "mixed"]) for _ in range(3)], rng.choice(["none", "none", "cut"]))
        kd = rng.choice(KINDS)
        via = rng.choice(["new", "seekable", "bufnew", "bufseekable"])
        offs = [x[0] for x in s.blobs] + [len(s.data), len(s.data) + 7]
        st = [op_open(s.no, via)]
        if via.endswith("seekable") and rng.random() < 0.2:
            st[0]["fault"] = fault(rng, 0, "any", kd, 1)
        for _ in range(4):
            o = rng.choice(offs)
            x = rng.choice([op_next(), op_hdr(), op_hdr(), op_seek(o), op_raw("start", o), op_raw("cur", 0), op_raw("end", -1), op_from(o),
                            op_raw("end", -len(s.data) - 1), op_raw("cur", -(1 << 40)), op_seek((1 << 64) - 2)])
            if rng.random() < 0.6:
                x["fault"] = fault(rng, rng.randrange(2), rng.choice(["seek", "seek", "any", "read"]), kd, 1)
            st.append(x)
        b.session(st, gen="refused")
        if k % 3 == 0:
            st = [xopen(s.no, "new", **({"fault": fault(rng, 0, "any", kd, 1)} if rng.random() < 0.2 else {}))]
            for _ in range(3):
                st.append(rng.choice([xnodes, xcreate, lambda **kw: xways(every=1, **kw)])(fault=fault(rng, rng.randrange(12), rng.choice(["seek", "any"]), kd, 1)))
            b.session(st, gen="refused, indexed")
            b.session([op_foreach(s.no, "new", fault=fault(rng, rng.randrange(8), "any", kd, 1))], gen="refused, sequential")
    for k in range(ck.pick(6, 30)):         # no such file
        b = ck.batch(10)
        s = cells_stream(b, rng, ["nodes"], "none")
        for via in ("path", "seekpath", "mmap"):
            b.session([op_open(s.no, via, missing=True), op_next()] if via != "mmapfile" else [], gen="missing")
        b.session([op_foreach(s.no, "path", missing=True)], gen="missing")
        b.session([dict(op_par(s.no, "path"), missing=True)], gen="missing")
        b.session([xopen(s.no, "path", missing=True), xnodes()], gen="missing")
    # other bytes
    for k in range(ck.pick(120, 1500)):
        b = ck.batch(60)
        s = stream(b, rng, Gen(rng, TINY), n=rng.randint(0, 3))
        f = b.stream(mutate(s, rng, rng.randint(1, 3)))
        whole_readers(rng, f, len(s.blobs) + 3, b, {"gen": "mutated"}, ["new", "mmap", rng.choice(["hdr", "foreach", "par", "x"])])
    for p in ck.sample([p for p in d.result() if p["tail"] != "none" or any(c.startswith("bad") for c in p["cells"])], ck.pick(300, 4000)):
        b = ck.batch(20)
        s = cells_stream(b, rng, p["cells"], p["tail"])
        whole_readers(rng, s.no, len(p["cells"]) + 2, b, dict(p), rng.sample(["new", "mmap", "hdr", "foreach", "par", "x"], 2))
    stream_plans(ck, ds.result(), ck.pick(400, 8000), lambda p: p["tail"] != "none" or "bad" in p["cells"] or any(o["flt"] == "yes" for o in p["ops"]))
    return "streams cut at any byte, corrupt frames, contents that do not decode, strings that do not resolve, refused reads and seeks of every kind, " \
           "missing files, and the behaviours of MC_Stream and MC_Files that fail; every error has to be one Errors allows for its cause and to " \
           "survive the conversion to an io::Error"


# ---------------------------------------------------------------- C25
def c25(ck):
    ds = ck.design("MC_Stream", "MC_Stream_emit.cfg", plans=True)
    ck_design_stream(ck)
    rng = ck.rng

    def uses(names, mapped, n, dec=("brief", "count", "full")):
        st = []
        for _ in range(n):
            r = rng.random()
            x = rng.choice(names)
            if r < 0.6:
                st.append({"op": "bdec", "b": x, "dec": rng.choice(dec)})
                if not mapped and rng.random() < 0.35:
                    st[-1]["as"] = rng.choice(["header", "data"])
            elif r < 0.8:
                names.append("k%d" % len(names))
                st.append({"op": "bclone", "b": x, "to": names[-1]})
                if rng.random() < 0.7:
                    st.append({"op": "bdec", "b": names[-1], "dec": rng.choice(("brief", dec[-1]))})
            else:
                st.append({"op": "bdecpar", "bs": rng.sample(names, rng.randint(1, min(4, len(names)))), "dec": rng.choice(dec), "threads": rng.choice([2, 3, 4])})
        return st

    def session(b, s, mapped, faults=False):
        via = rng.choice(MAPPED) if mapped else rng.choice(BUFFERED)
        st = [opened(rng, s.no, via)]
        names = []
        seek = via not in ("new", "bufnew") or rng.random() < 0.5
        offs = [x[0] for x in s.blobs] + [len(s.data)]
        for i in range(rng.randint(2, 7)):
            names.append("k%d" % len(names)) if rng.random() < 0.85 or not names else None
            r = rng.random()
            if r < 0.7 or not seek:
                st.append(op_next(rng.choice(["no", "no", "brief"]), keepb=names[-1]))
            elif r < 0.85 and not mapped:
                st.append(op_from(rng.choice(offs), rng.choice(["no", "brief"]), keepb=names[-1]))
            else:
                st.append(op_seek(rng.choice(offs)))
            if faults and not mapped and rng.random() < 0.2:
                st[-1]["fault"] = fault(rng, rng.randrange(3), times=1)
            if rng.random() < 0.5:
                st += uses(names, mapped, rng.randint(1, 3))
        st += uses(names, mapped, rng.randint(1, 3))
        st.append({"op": "drop", "h": "a"})
        st += uses(names, mapped, rng.randint(2, 6))
        return st

    for k in range(ck.pick(350, 4000)):
        b = ck.batch(60)
        cells = [rng.choice(["nodes", "dense", "ways", "rels", "mixed", "unk", "unk", "unk", "head", "bad", "badhead", "badunk", "empty"]) for _ in range(rng.randint(1, 5))]
        s = cells_stream(b, rng, cells, rng.choice(["none", "none", "cut", "err", "hbig"]))
        b.session(session(b, s, rng.random() < 0.35, rng.random() < 0.4), cells=cells)
    for mapped in (True, False):
        def kept(b, s, meta):
            st = [opened(rng, b.stream(s), rng.choice(MAPPED if mapped else BUFFERED))] + [op_next("no", keepb="k%d" % i) for i in range(len(s.blobs))]
            for i in rng.sample(range(len(s.blobs)), len(s.blobs)):
                st += [{"op": "bdec", "b": "k%d" % i, "dec": "full"}, {"op": "bclone", "b": "k%d" % i, "to": "c%d" % i}, {"op": "bdec", "b": "c%d" % i, "dec": "brief"}]
            b.session(st, **meta)
        small_frames(ck, kept)
    # large and small contents one after the other
    for k in range(ck.pick(6, 60)):
        b = ck.batch(900)
        sizes = [rng.choice([1, 2, 40, 300, 700]) for _ in range(4)]
        s = large_stream(b, rng, sizes, ("node", "way") if k % 2 else None)
        s.no = b.streams.index(s) + 1
        mapped = k % 3 == 0
        st = [op_open(s.no, "mmap" if mapped else rng.choice(["new", "path"]))]
        names = []
        for i in range(5):
            names.append("k%d" % i)
            st.append(op_next("no", keepb=names[-1]))
        st.append({"op": "drop", "h": "a"})
        for _ in range(5):
            st.append({"op": "bdec", "b": rng.choice(names), "dec": rng.choice(["brief", "count"])})
        st.append({"op": "bdecpar", "bs": names, "dec": "count", "threads": 4})
        b.session(st, sizes=sizes)
    # blocks outlive their blobs and readers, too
    for k in range(ck.pick(40, 400)):
        b = ck.batch(60)
        s = cells_stream(b, rng, [rng.choice(["nodes", "dense", "ways", "mixed"]) for _ in range(3)], "none")
        mapped = rng.random() < 0.4
        st = [opened(rng, s.no, rng.choice(MAPPED if mapped else BUFFERED))]
        for i in range(3):
            st += [op_next("no", keepb="b"), {"op": "bdec", "b": "b", "dec": "keep", "keep": "d%d" % i}]
        st.append({"op": "drop", "h": "a"})
        for i in rng.sample(range(3), 3):
            st += [{"op": "bforeach", "b": "d%d" % i}, {"op": "strtab", "b": "d%d" % i}]
        b.session(st, gen="kept blocks")
    for p in ck.sample([p for p in ds.result() if any(o["op"] in ("next", "from") for o in p["ops"])], ck.pick(500, 12000)):
        b = ck.batch(len(p["ops"]) + 10)
        stream_plan(ck, p)
        st = ck.batches[-1].sessions[-1]["steps"]
        names = []
        for x in st:
            if x["op"] in ("next", "from"):
                names.append("k%d" % len(names))
                x["keepb"] = names[-1]
                x["dec"] = rng.choice(["no", x["dec"]])
        st.append({"op": "drop", "h": "a"})
        st += uses(names, p["mm"], 4, ("brief",))
    return "blobs kept from random histories and from the behaviours of MC_Stream, decoded again and again, as clones, under both interpretations and " \
           "by several threads at once, after the reader moved on, failed or was dropped; type, offset and content have to stay those of the " \
           "frame that was read"


FOCUS = {"C11": ["id", "pos"], "C12": ["id", "tags", "raw", "len"], "C13": ["info", "user"], "C14": ["id", "tags", "raw", "refs", "locs", "mems", "role"],
         "C15": ["pos"], "C16": ["tags", "raw", "user", "role", "strtab"], "C24": ["all", "err"]}
CHECKS = {"C%02d" % i: globals()["c%02d" % i] for i in range(1, 26)}
ASSUMPTIONS = [
    "the encoder in lib/pbf.py builds the bytes that the messages given to TLC describe",
    "zlib of Python tells whether a compressed content is intact",
    "what the executor in harness/ observes through the public API is what a user observes",
]
