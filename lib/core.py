"""Runs plans on the real library and lets TLC judge the recorded traces.

A Batch holds streams (files), messages and sessions.  run_batch executes the sessions with the
vexec harness, merges plan and observations into a trace and validates it with spec/Trace.tla.
"""
import json
import os
import queue
import random
import re
import resource
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from . import pbf, walk
from .pbf import limbs

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 8


class ToolError(Exception):
    pass


# ---------------------------------------------------------------- building
def build():
    """Builds the harness against /repo's working tree; cargo must not trust time stamps."""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true")
    fp = os.path.join(BUILD, "target", "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("osmpbf-") or d.startswith("vexec-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "build.log"), "w") as log:
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"), env=env,
                           stdout=log, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(open(os.path.join(BUILD, "build.log")).read()[-4000:])
        raise ToolError("the harness does not build")
    return os.path.join(BUILD, "target", "debug", "vexec")


# ---------------------------------------------------------------- batches
class Stream:
    """A byte stream with a known meaning."""

    def __init__(self):
        self.data = bytearray()
        self.ext = None       # [(start, bytes)] for sparse streams
        self.len = 0
        self.frames = []      # for table mode
        self.cont = []        # {"s","k","m"}
        self.blobs = []       # (offset, type, message number) for generators
        self.path = None

    def add(self, ty, payload, mean, storage="raw", level=6, order=None, rng=None, raw_size=True, index=None,
            header_extra=b"", size_delta=0, blob_extra=b""):
        """Appends a frame; mean: ("msg", m), ("bad", 0) or ("any", 0), what the payload stands for."""
        pos = len(self.data)
        if storage == "raw":
            parts = [(1, payload)]
        elif storage == "zlib":
            parts = [(3, pbf.deflate(payload, level))]
        elif storage == "zlibraw":      # payload is the compressed data itself
            parts = [(3, payload)]
        elif storage == "none":
            parts = []
        else:                           # a compression that is not supported
            parts = [({"lzma": 4, "bzip2": 5, "lz4": 6, "zstd": 7}[storage], payload)]
        fields = [pbf.f_bytes(n, b) for n, b in parts]
        if raw_size:
            fields.append(pbf.f_varint(2, len(payload)))
        if rng is not None and rng.random() < 0.5:
            fields.reverse()
        blob = blob_extra + b"".join(fields)
        hdr = pbf.blob_header(ty, len(blob) + size_delta, order or (1, 2, 3), index, header_extra)
        self.data += pbf.frame_bytes(hdr, blob)
        if parts:
            # position of the payload inside the frame
            off = 4 + len(hdr) + len(blob_extra)
            for f in fields:
                if parts and f == pbf.f_bytes(*parts[0]):
                    start = pos + off + len(f) - len(parts[0][1])
                    break
                off += len(f)
            assert bytes(self.data[start:start + len(parts[0][1])]) == bytes(parts[0][1])
            n = len(payload) if storage != "zlibraw" else 0
            self.cont.append({"s": start, "e": start + len(parts[0][1]), "k": mean[0], "m": mean[1], "n": n,
                              "z": storage in ("zlib", "zlibraw")})
        self.blobs.append((pos, ty, mean))
        return pos

    def length(self):
        return self.len if self.ext is not None else len(self.data)

    def tla(self):
        ext = [[a, list(b)] for a, b in self.ext] if self.ext is not None else [[0, list(self.data)]]
        if self.frames:
            ext = []
        return {"len": limbs(self.length()), "ext": ext, "frames": self.frames, "cont": self.cont}


class Batch:
    def __init__(self, name, focus=("all",), known=()):
        self.name = name
        self.known = list(known)
        self.focus = list(focus)
        self.streams = []
        self.msgs = []
        self.sessions = []
        self.parsed = None      # number of contents whose meaning the specification works out itself

    def stream(self, s):
        self.streams.append(s)
        return len(self.streams)

    def msg(self, m):
        self.msgs.append(m)
        return len(self.msgs)

    def session(self, steps, **meta):
        self.sessions.append({"steps": steps, "meta": meta})


DEFAULTS = {"op": "", "h": "", "f": 1, "via": "", "as": "", "dec": "no", "keep": "", "full": False, 
            "acc": [], "every": 0, "to": [], "d": [], "from": "", "new": "", "src": "", "what": "", "it": "", "n": 0, "bomb": 0, "fbomb": 0,
            "b": "", "bs": [], "keepb": "", "missing": False, "mem": 0, "fault": {"kind": "", "os": 0}, "at": [0, 0, 0, 0, 0]}


def lines_of(step, out, mem):
    """The trace lines of one executed step."""
    e = dict(DEFAULTS)
    for k in DEFAULTS:
        if k in step:
            e[k] = step[k]
    if "pos" in step:
        e["at"] = limbs(step["pos"])
    e["fault"] = {"kind": step["fault"].get("kind", "Other"), "os": step["fault"].get("os", 0)} if "fault" in step else {"kind": "", "os": 0}
    if step["op"] in ("clone", "iter", "iclone", "bclone"):
        e["new"], e["to"] = step["to"], []
    e["mem"] = mem
    out.pop("ios", None)
    e["out"] = out
    if step["op"] == "par":
        if out["t"] != "par":
            e["op"] = "parend"
            return [e]
        ls = [dict(e, op="parbegin", out={"t": ""})]
        names = {"map": "parmap", "id": "parid", "red": "parred"}
        for v in out["ev"]:
            ls.append({"op": names[v["a"]], "x": v["x"], "y": v["y"], "t": v["t"], "el": v["el"], "out": {"t": ""}})
        e["op"] = "parend"
        e["out"] = {"t": "par", "res": out["res"], "fired": out["fired"], "fon": out["fon"]}
        ls.append(e)
        return ls
    return [e]


def _limits():
    resource.setrlimit(resource.RLIMIT_DATA, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def execute(exe, batch, work, timeout=60):
    """Runs the sessions; returns per session the list of (out, mem) of its executed steps."""
    paths = []
    # a sparse stream may be longer than a file can be; it becomes one only where that is needed
    used = {st["f"] for x in batch.sessions for st in x["steps"] if "f" in st and
            (st["op"] == "xopen" or st.get("via") in ("path", "seekpath", "mmap", "mmapfile"))}
    for i, s in enumerate(batch.streams):
        p = os.path.join(work, "s%d.pbf" % (i + 1))
        if s.ext is None:
            with open(p, "wb") as f:
                f.write(s.data)
        else:
            with open(p, "wb") as f:
                if i + 1 not in used:
                    paths.append(p)
                    continue
                f.truncate(s.length())
                for a, b in s.ext:
                    f.seek(a)
                    f.write(b)
        paths.append(p)
    exts = []
    for i, s in enumerate(batch.streams):
        if s.ext is None:
            exts.append(None)
        else:
            es = []
            for j, (a, b) in enumerate(s.ext):
                p = os.path.join(work, "s%d.x%d" % (i + 1, j))
                with open(p, "wb") as f:
                    f.write(b)
                es.append([a, p])
            exts.append(es)
    plan = os.path.join(work, "plan.ndjson")
    with open(plan, "w") as f:
        for n, sess in enumerate(batch.sessions):
            steps = []
            for st in sess["steps"]:
                st = dict(st)
                if "f" in st:
                    k = st["f"] - 1
                    st["path"] = os.path.join(work, "missing", "x.pbf") if st.get("missing") else paths[k]
                    if exts[k] is None:
                        st["file"] = paths[k]
                    else:
                        st["ext"] = exts[k]
                        st["len"] = batch.streams[k].length()
                steps.append(st)
            f.write(json.dumps({"sid": n, "steps": steps}, separators=(",", ":")) + "\n")

    obs = [[] for _ in batch.sessions]
    skip = 0
    while skip < len(batch.sessions):
        p = subprocess.Popen([exe, plan, str(skip)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=_limits,
                             cwd=work)
        q = queue.Queue()

        def pump():
            for line in p.stdout:
                q.put(line)
            q.put(None)

        t = threading.Thread(target=pump, daemon=True)
        t.start()
        end = None
        while True:
            try:
                line = q.get(timeout=timeout)
            except queue.Empty:
                end = "hang"
                p.kill()
                break
            if line is None:
                break
            if not line.endswith(b"\n"):
                continue
            r = json.loads(line)
            if r.get("end"):
                skip = r["n"] + 1
            else:
                obs[r["n"]].append((r["out"], r["mem"]))
        p.wait()
        err = p.stderr.read().decode(errors="replace")
        if end is None and p.returncode == 0:
            break
        if p.returncode == 7 or "vexec:" in err:
            raise ToolError("executor: " + err[-500:])
        if end is None and p.returncode == -9 and "memory" not in err:
            raise ToolError("executor was killed")
        # the step under way hung or crashed the process: that is an observation
        obs[skip].append(({"t": end or "crash", "msg": (err or "")[-300:], "fired": 0, "fon": "", "ios": 0}, 0))
        skip += 1
    return obs


def tlc(module, cfg, work, env=None, timeout=600, heap="3g", extra=()):
    e = dict(os.environ)
    e.update(env or {})
    meta = os.path.join(work, "meta-%s-%d" % (cfg.replace(".", "_"), random.randrange(1 << 30)))
    cmd = ["timeout", str(timeout), "java", "-XX:+UseSerialGC" if "-workers" not in extra else "-XX:+UseParallelGC",
           "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + work, "-cp", JAR, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg, *extra, module]
    r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


class Rejection:
    def __init__(self, batch, session, step, line, obs, why):
        self.batch, self.session, self.step, self.line, self.obs, self.why = batch, session, step, line, obs, why


def assemble(batch, obs, only=None):
    """The trace lines and, for each line, (session, step)."""
    lines, where = [], []
    for n, sess in enumerate(batch.sessions):
        if only is not None and n not in only:
            continue
        lines.append({"op": "reset", "out": {"t": ""}})
        where.append((n, -1))
        for i, st in enumerate(sess["steps"]):
            if i >= len(obs[n]):
                break
            out, mem = obs[n][i]
            out = dict(out)
            if out["t"] in ("hang", "crash"):
                out = dict(out, t="panic", kind=out["t"])
            for ln in lines_of(st, out, mem):
                lines.append(ln)
                where.append((n, i))
    return lines, where


def validate(batch, obs, work, timeout=600):
    """TLC's verdict: (lines matched, states, known deviations, Rejection or None)."""
    lines, where = assemble(batch, obs)
    tr = os.path.join(work, "trace.ndjson")
    with open(tr, "w") as f:
        for ln in lines:
            f.write(json.dumps(ln, separators=(",", ":")) + "\n")
    with open(os.path.join(work, "files.ndjson"), "w") as f:
        for s in batch.streams or [Stream()]:
            f.write(json.dumps(s.tla(), separators=(",", ":")) + "\n")
    with open(os.path.join(work, "msgs.ndjson"), "w") as f:
        for m in batch.msgs or [{"kind": "data", "st": [], "gran": None, "dgran": None, "lato": None, "lono": None, "groups": []}]:
            f.write(json.dumps(m if type(m) is not dict else pbf.tla_msg(m), separators=(",", ":")) + "\n")
    with open(os.path.join(work, "focus.ndjson"), "w") as f:
        f.write(json.dumps({"on": batch.focus, "known": batch.known}) + "\n")
    env = {"FOCUS": os.path.join(work, "focus.ndjson"), "TRACE": tr, "FILES": os.path.join(work, "files.ndjson"), "MSGS": os.path.join(work, "msgs.ndjson")}
    rc, out = tlc("Trace", "Trace.cfg", work, env, timeout)
    with open(os.path.join(work, "tlc.out"), "w") as f:
        f.write(out)
    if "StackOverflowError" in out or "OutOfMemoryError" in out:
        raise ToolError("TLC (%d): %s" % (rc, out[-1500:]))
    known = [int(x) for x in re.findall(r'<<"KNOWN-DEVIATION", (\d+)>>', out)]
    m = re.search(r'<<"MATCHED", (\d+), "OF", (\d+)>>', out)
    if rc == 0 and m and m.group(1) == m.group(2) == str(len(lines)):
        return len(lines), known and [where[k - 1] for k in known], None
    if m and int(m.group(1)) < len(lines):
        k = int(m.group(1))
        why = "no step of the specification matches"
    else:
        # an observation that does not even have the shape the specification talks about
        ls = [int(x) for x in re.findall(r"^/\\ l = (\d+)", out, re.M)]
        if rc in (75, 76, 11, 12, 13, 10, 151) or ls:
            if not ls:
                raise ToolError("TLC: " + out[-1500:])
            k = max(ls) - 1
            why = "the observation has an unexpected form: " + (re.search(r"Error: (.*)", out) or [0, ""])[1][:200]
            if os.environ.get("VERIF_STRICT"):
                raise ToolError("TLC: " + out[-3000:])
        else:
            raise ToolError("TLC (%d): %s" % (rc, out[-1500:]))
    n, i = where[k]
    return k, [], Rejection(batch, n, i, lines[k], obs[n], why)


def run_batch(exe, batch, root, timeout=60, tlc_timeout=600):
    if batch.parsed is None:
        batch.parsed = walk.annotate(batch)
    work = os.path.join(root, batch.name)
    os.makedirs(work, exist_ok=True)
    obs = execute(exe, batch, work, timeout)
    r = validate(batch, obs, work, tlc_timeout)
    if r[2] is None and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    return obs, r


def run_batches(exe, batches, root, workers=CORES, **kw):
    with ThreadPoolExecutor(workers) as ex:
        fs = [ex.submit(run_batch, exe, b, root, **kw) for b in batches]
        return [(b, *f.result()) for b, f in zip(batches, fs)]
