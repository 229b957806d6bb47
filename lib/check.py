"""The frame of a check: design checks by TLC, batches of sessions, verdict, replay, evidence."""
import base64
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from . import core
from .core import Batch, Stream, ToolError, VERIF, BUILD

FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def findings(pid):
    """The known findings of a property: {id: description}."""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


class Check:
    LIMIT = 900            # weight of a batch, about the number of trace lines

    def __init__(self, pid, tier, seed, focus):
        self.pid, self.tier, self.seed, self.focus = pid, tier, seed, focus
        self.rng = random.Random("%s-%d" % (pid, seed))
        self.thorough = tier == "thorough"
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.batches = []
        self.weight = 0
        self.states = self.transitions = 0
        self.designs, self.runs = [], {}
        self.known = findings(pid)
        self.exe = None
        self.lock = threading.Lock()
        self.pool = ThreadPoolExecutor(3)
        self.builder = self.pool.submit(core.build)
        self.t0 = time.time()
        self.notes = {}

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------ design checks
    def design(self, module, cfg, plans=False, timeout=800, **consts):
        """Starts a TLC run of a design module; the result is a future with the emitted plans."""
        key = (module, cfg, plans, tuple(sorted(consts.items())))
        if key not in self.runs:
            self.runs[key] = self.pool.submit(self._design, module, cfg, plans, timeout, consts)
        return self.runs[key]

    def _design(self, module, cfg, plans, timeout, consts):
        path = os.path.join(core.SPEC, cfg)
        if consts:
            text = open(path).read()
            for k, v in consts.items():
                text, n = re.subn(r"\b%s = [^\n]*" % k, lambda m: "%s = %s" % (k, v), text)
                if n != 1:
                    raise ToolError("no constant %s in %s" % (k, cfg))
            path = os.path.join(self.work, "%s-%d.cfg" % (module, random.randrange(1 << 30)))
            with open(path, "w") as f:
                f.write(text)
        # behaviours are printed by one worker so that the order is always the same
        rc, out = core.tlc(module, path, self.work, timeout=timeout, heap="6g",
                           extra=("-workers", "1" if plans else "4"))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if rc != 0 or not m:
            raise ToolError("design %s %s: TLC %d: %s" % (module, cfg, rc, out[-1500:]))
        with self.lock:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
            self.designs.append("%s/%s: %s distinct states" % (module, os.path.basename(cfg), m.group(2)))
        if not plans:
            return None
        return [json.loads(json.loads(x)) for x in re.findall(r'^<<"PLAN", (".*")>>$', out, re.M)]

    def prove(self, module, timeout=800):
        """Starts a TLAPS run of a module of proofs (thorough tier)."""
        return self.pool.submit(self._prove, module, timeout)

    def _prove(self, module, timeout):
        work = os.path.join(self.work, "proof-" + module)
        os.makedirs(work, exist_ok=True)
        for f in glob.glob(os.path.join(core.SPEC, "*.tla")):
            shutil.copy(f, work)
        p = subprocess.run(["timeout", str(timeout), "tlapm", "--threads", "4", "--stretch", "6", "-I", "+", module + ".tla"],
                           cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        m = re.search(r"All (\d+) obligations proved", p.stdout)
        if p.returncode != 0 or not m:
            raise ToolError("proof %s: %d: %s" % (module, p.returncode, p.stdout[-1500:]))
        with self.lock:
            self.designs.append("%s: %s obligations proved by TLAPS" % (module, m.group(1)))

    def sample(self, plans, n):
        if len(plans) <= n:
            return list(plans)
        return self.rng.sample(plans, n)

    # ------------------------------------------------------------ batches
    def batch(self, weight=0):
        """The batch under construction, or a new one if it has become too heavy."""
        if not self.batches or self.weight + weight > self.LIMIT:
            self.batches.append(Batch("b%d" % len(self.batches), self.focus, self.known))
            self.weight = 0
        self.weight += weight
        return self.batches[-1]

    def dry(self, batch):
        """Executes a batch without judging it: its observations."""
        work = os.path.join(self.work, "dry-" + batch.name)
        os.makedirs(work, exist_ok=True)
        self.exe = self.exe or self.builder.result()
        obs = core.execute(self.exe, batch, work)
        shutil.rmtree(work, ignore_errors=True)
        return obs

    # ------------------------------------------------------------ verdict
    def finish(self, level_rule, assumptions=()):
        self.exe = self.exe or self.builder.result()
        self.batches = [b for b in self.batches if b.sessions]
        lines = sessions = 0
        known, bad = [], None
        for b in self.batches:
            sessions += len(b.sessions)
        stop = threading.Event()

        def one(b):
            if stop.is_set():
                return b, None, None
            r = core.run_batch(self.exe, b, self.work)
            if r[1][2] is not None:
                stop.set()
            return (b, *r)

        done = 0
        with ThreadPoolExecutor(core.CORES) as ex:
            for b, obs, r in ex.map(one, self.batches):
                if r is None:
                    continue
                done += 1
                lines += r[0]
                known += [(b, w) for w in (r[1] or [])]
                if r[2] is not None and bad is None:
                    bad = r[2]
        if os.environ.get("VERIF_TIMES"):
            print("sessions %d lines %d batches %d time %.1f" % (sessions, lines, len(self.batches), time.time() - self.t0),
                  file=sys.stderr)
        path = save_replay(self.pid, self.seed, bad) if bad else None
        self.evidence(level_rule, assumptions, sessions if not bad else 0, lines, 1 if bad else 0)
        shutil.rmtree(self.work, ignore_errors=True)
        self.pool.shutdown(wait=False)
        if known:
            for k, text in self.known.items():
                print("KNOWN-FINDING: property=%s %s (%d occurrences)" % (self.pid, text, len(known)))
        if bad:
            print("rejected: %s\n  session: %s\n  step %d observed: %s" % (
                bad.why, json.dumps(bad.batch.sessions[bad.session]["steps"])[:1500], bad.step,
                json.dumps(bad.line.get("out"))[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        return 0

    def evidence(self, rule, assumptions, sessions, lines, violations):
        samples = []
        for b in self.batches[:: max(1, len(self.batches) // 3)][:3]:
            s = b.sessions[len(b.sessions) // 2]
            samples.append({"session": s["steps"][:8], "meta": s["meta"]})
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": sessions,
               "trace_steps_validated": lines,
               "contents_parsed_from_bytes": sum(b.parsed or 0 for b in self.batches), "design_runs": sorted(self.designs), "rule": rule, "samples": samples}
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)


# ---------------------------------------------------------------- replay
def save_replay(pid, seed, rej):
    """Keeps the rejected session with its inputs."""
    b = rej.batch
    sess = b.sessions[rej.session]
    used = sorted({st["f"] for st in sess["steps"] if "f" in st})
    root = os.path.join(BUILD, "replays")
    os.makedirs(root, exist_ok=True)
    path = os.path.join(root, "%s-%d-%d.json" % (pid, seed, int(time.time() * 1000) % 10 ** 9))
    b64 = lambda x: base64.b64encode(bytes(x)).decode()
    streams = {}
    for f in used:
        s = b.streams[f - 1]
        streams[f] = {"data": b64(s.data), "ext": s.ext and [[a, b64(x)] for a, x in s.ext], "len": s.len, "frames": s.frames,
                      "cont": s.cont}
    none = core.pbf.tla_msg({"kind": "data", "st": [], "gran": None, "dgran": None, "lato": None, "lono": None, "groups": []})
    msgs = [core.pbf.tla_msg(m) if type(m) is dict else none if m.get("kind") == "bytes" and m["f"] and m["f"] not in used else m
            for m in b.msgs]
    with open(path, "w") as f:
        json.dump({"property": pid, "why": rej.why, "step": rej.step, "observed": rej.line.get("out"), "steps": sess["steps"],
                   "meta": sess["meta"], "streams": streams, "focus": b.focus, "known": b.known,
                   "msgs": msgs}, f, default=repr)
    return path


class TlaMsg(dict):
    """A message that is already in the form for TLA+."""


def load_replay(path):
    d = json.load(open(path))
    b = Batch("replay", d["focus"], d["known"])
    n = max([int(k) for k in d["streams"]] + [0])
    for i in range(1, n + 1):
        s = Stream()
        x = d["streams"].get(str(i))
        if x:
            s.data = bytearray(base64.b64decode(x["data"]))
            s.ext = x["ext"] and [(a, base64.b64decode(y)) for a, y in x["ext"]]
            s.len, s.frames, s.cont = x["len"], x["frames"], x["cont"]
        b.stream(s)
    for m in d["msgs"]:
        b.msg(TlaMsg(m))
    b.parsed = 0
    b.session(d["steps"], **d["meta"])
    return d, b


def replay(path):
    d, b = load_replay(path)
    exe = core.build()
    work = tempfile.mkdtemp(prefix="verif-replay-")
    obs, r = core.run_batch(exe, b, work)
    shutil.rmtree(work, ignore_errors=True)
    for st, o in zip(d["steps"], obs[0]):
        print(json.dumps(st)[:400], "->", json.dumps(o[0])[:800])
    if r[2] is None:
        print("accepted: every step is allowed by the specification")
        return 0
    print("rejected at step %d: %s" % (r[2].step, r[2].why))
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1
