"""Shared machinery of the checks: TLC runs, trace recording, trace validation, evidence, verdicts.

Python only generates inputs, records what the code did, and encodes the recordings. Whether a recording is
acceptable is always decided by TLC against a module in /verif/specs.
"""

import atexit
import concurrent.futures
import copy
import json
import math
import multiprocessing
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
TLA = "/opt/veriftools/tla"
CLASSPATH = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"

# Encoded special numbers (all within the 32-bit integers of TLC)
NAN = 2_000_000_007
PINF = 2_000_000_001
NINF = -2_000_000_001
INEXACT = 2_000_000_011
BIG = 2_000_000_013
_LIM = 1_900_000_000


class MachineryError(Exception):
    pass


class OpTimeout(BaseException):
    pass


# ---------------------------------------------------------------- encoding
def enc(x, scale=1, exact=True):
    """Encode a real number as the integer x*scale."""
    if isinstance(x, bool):
        return int(x) * scale
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return PINF if x > 0 else NINF
    y = x * scale
    if abs(y) > _LIM:
        return BIG if y > 0 else -BIG
    r = round(y)
    if exact and r != y:
        return INEXACT
    return int(r)


def encs(xs, scale=1, exact=True):
    """Encode a nested list/tensor/array of numbers."""
    if hasattr(xs, "tolist"):
        xs = xs.tolist()
    if isinstance(xs, (list, tuple)):
        return [encs(x, scale, exact) for x in xs]
    return enc(xs, scale, exact)


def vid(values):
    """An integer naming the given decision values (tensor, or anything with a stable repr)."""
    import zlib

    if hasattr(values, "detach"):
        t = values.detach()
        t = t.as_subclass(type(t).__mro__[1]) if type(t).__name__ != "Tensor" else t
        data = repr([str(t.dtype), t.tolist()]).encode()
    else:
        data = repr(values).encode()
    return zlib.crc32(data) & 0x3FFFFFFF


def _sanitize(x):
    if isinstance(x, bool) or isinstance(x, str):
        return x
    if isinstance(x, int):
        return x if abs(x) <= 2_100_000_000 else (BIG if x > 0 else -BIG)
    if isinstance(x, (list, tuple)):
        return [_sanitize(y) for y in x]
    if isinstance(x, dict):
        return {str(k): _sanitize(v) for k, v in x.items()}
    if hasattr(x, "item"):
        return _sanitize(x.item())
    if isinstance(x, float):
        return enc(x)
    raise MachineryError(f"cannot encode {type(x)}: {x!r}")


# ---------------------------------------------------------------- recording
class time_limit:
    """Abort the enclosed block after the given number of seconds (main thread only)."""

    def __init__(self, seconds):
        self.seconds = seconds

    def _fire(self, *_):
        raise OpTimeout()

    def __enter__(self):
        self._old = signal.signal(signal.SIGALRM, self._fire)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self._old)
        return False


class Trace:
    """A recorded execution: cfg (constants of the trace), ev (events), meta (not shown to TLC)."""

    def __init__(self, cfg=None, meta=None):
        self.cfg = {} if cfg is None else cfg
        self.ev = []
        self.meta = {} if meta is None else meta

    def add(self, op, **fields):
        fields["op"] = op
        self.ev.append(fields)
        return fields

    def as_json(self):
        return {"cfg": _sanitize(self.cfg), "ev": [_sanitize(e) for e in self.ev]}


def excname(ex):
    return type(ex).__name__


def _run_job(arg):
    fn, job, limit = arg
    tr = Trace()
    tr.meta["job"] = repr(job)[:2000]
    try:
        with time_limit(limit):
            r = fn(tr, job)
            if r is not None:
                return r
    except OpTimeout:
        tr.add("__timeout__", what="the execution did not finish in time")
    except Exception:
        tr.add("__crash__", what=traceback.format_exc()[-1500:])
    return tr


def tell_torch():
    import logging

    import torch

    torch.set_num_threads(1)
    logging.disable(logging.INFO)


# ---------------------------------------------------------------- context of a check
class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f"vf{prop}.", dir="/tmp")
        atexit.register(shutil.rmtree, self.dir, ignore_errors=True)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.events = 0
        self.ops = {}
        self.samples = []
        self.model_runs = []
        self.violations = []
        self.known_hits = []
        self.extra = {}
        self.assumptions = []
        self._n = 0
        self.known = load_known(prop)
        self.canaries = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, name=""):
        return random.Random(f"{self.prop}/{self.seed}/{name}")

    def spec(self, name):
        return os.path.join(SPECS, name)

    # ------------------------------------------------------------ TLC
    def _workdir(self):
        self._n += 1
        d = os.path.join(self.dir, f"tlc{self._n}")
        os.mkdir(d)
        for f in os.listdir(SPECS):
            if f.endswith(".tla") or f.endswith(".cfg"):
                shutil.copy(os.path.join(SPECS, f), d)
        return d

    def _java(self, d, module, cfg, args, timeout, xmx="3g"):
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        cmd = [
            "java", f"-Xmx{xmx}", "-Xss64m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={d}",
            "-cp", CLASSPATH, "tlc2.TLC", "-metadir", os.path.join(d, "meta"), "-config", "run.cfg",
        ] + args + [module + ".tla"]
        out = os.path.join(d, "out.txt")
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
                code = p.returncode
            except subprocess.TimeoutExpired:
                code = -999
        with open(out, errors="replace") as f:
            return code, f.read()

    def mc(self, module, cfg=None, timeout=300, xmx="6g", workers="auto", note=None):
        """Exhaustive check of a bounded model. A failure here is a failure of the specification itself."""
        d = self._workdir()
        if cfg is None:
            with open(os.path.join(SPECS, module + ".cfg")) as f:
                cfg = f.read()
        t = time.time()
        code, out = self._java(d, module, cfg, ["-workers", str(workers), "-noGenerateSpecTE"], timeout, xmx)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if code != 0 or not m:
            raise MachineryError(f"model checking {module} failed (exit {code}):\n{out[-4000:]}")
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
        self.states += dist
        self.transitions += gen
        self.model_runs.append({"module": module, "distinct": dist, "generated": gen, "s": round(time.time() - t, 1)})
        shutil.rmtree(d, ignore_errors=True)
        return dist, gen

    def gen(self, module, cfg=None, num=100, depth=20, timeout=300, simulate=True, workers=1):
        """Behaviours of the specification, printed by the module as lines  "@@GEN <json>"."""
        d = self._workdir()
        if cfg is None:
            with open(os.path.join(SPECS, module + ".cfg")) as f:
                cfg = f.read()
        args = ["-noGenerateSpecTE", "-workers", str(workers)]
        if simulate:
            args += ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(self.seed + 1)]
        t = time.time()
        code, out = self._java(d, module, cfg, args, timeout)
        res = []
        for line in out.splitlines():
            if line.startswith('"@@GEN '):
                res.append(json.loads(json.loads(line)[6:]))
        if code != 0 or not res:
            raise MachineryError(f"generation from {module} failed (exit {code}):\n{out[-3000:]}")
        self.model_runs.append({"module": module, "behaviours": len(res), "s": round(time.time() - t, 1)})
        shutil.rmtree(d, ignore_errors=True)
        return res

    # ------------------------------------------------------------ recording
    def record(self, fn, jobs, limit=60, procs=1):
        """Run fn(trace, job) for every job; exceptions and hangs become events which no specification accepts."""
        jobs = list(jobs)
        t0 = time.time()
        try:
            return self._record(fn, jobs, limit, procs)
        finally:
            self.model_runs.append({"recorded": len(jobs), "s": round(time.time() - t0, 1)})

    def _record(self, fn, jobs, limit, procs):
        args = [(fn, j, limit) for j in jobs]
        if procs <= 1 or len(jobs) < 4:
            return [_run_job(a) for a in args]
        mp = multiprocessing.get_context("fork")
        with concurrent.futures.ProcessPoolExecutor(procs, mp_context=mp) as ex:
            return list(ex.map(_run_job, args, chunksize=max(1, len(args) // (procs * 4))))

    # ------------------------------------------------------------ validation
    def _tlc_traces(self, module, traces, cfg_extra, diagnose=False, timeout=600):
        d = self._workdir()
        with open(os.path.join(d, "traces.json"), "w") as f:
            json.dump(traces, f)
        cfg = "INIT TInit\nNEXT TNext\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n" + cfg_extra
        if diagnose:
            cfg += "\nINVARIANT Progress\n"
        workers = "1" if len(traces) < 20 else "6"
        code, out = self._java(d, module, cfg, ["-workers", workers, "-noGenerateSpecTE"], timeout, "4g")
        acc = {int(x) for x in re.findall(r'^<<"ACC", (\d+)>>', out, re.M)}
        fails = {}
        for t, l, name in re.findall(r'^<<"FAIL", (\d+), (\d+), "([^"]*)">>', out, re.M):
            fails.setdefault(int(t), []).append((int(l), name))
        at = {}
        for t, l in re.findall(r'^<<"AT", (\d+), (\d+)>>', out, re.M):
            at[int(t)] = max(at.get(int(t), 0), int(l))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        ok = code == 0 and bool(m)
        keep = out
        shutil.rmtree(d, ignore_errors=True)
        return ok, code, acc, fails, at, keep

    def _find_erroring(self, module, items, cfg_extra):
        """Some trace makes TLC fail with an evaluation error: find one of them."""
        while len(items) > 1:
            k = min(8, len(items))
            chunks = [items[i::k] for i in range(k)]
            with concurrent.futures.ThreadPoolExecutor(4) as ex:
                rs = list(ex.map(lambda c: self._tlc_traces(module, [t for _, t in c], cfg_extra), chunks))
            for c, r in zip(chunks, rs):
                if not r[0]:
                    items = c
                    break
            else:
                return None
        return items[0][0]

    def validate(self, module, traces, canary_keys=(), cfg_extra="", canary=None, label="", batch=4000):
        """Check the recordings against the trace module. Returns the indices of the rejected ones."""
        rejected = []
        t0 = time.time()
        for k in range(0, len(traces), batch):
            rejected += [k + i for i in self._validate(module, traces[k : k + batch], canary_keys, cfg_extra, canary, label)]
        self.model_runs.append({"validated": len(traces), "module": module, "s": round(time.time() - t0, 1)})
        return rejected

    def _validate(self, module, traces, canary_keys, cfg_extra, canary, label):
        if not traces:
            raise MachineryError(f"no trace was recorded for {module}")
        js = [t.as_json() for t in traces]
        n = len(js)
        crashed = [i for i, t in enumerate(traces) if any(e["op"].startswith("__") for e in t.ev)]
        live = [i for i in range(n) if i not in set(crashed)]
        can = self._make_canaries(module, [js[i] for i in live], canary_keys, canary) if live else []
        batch = [js[i] for i in live] + can
        rejected = {i: (len(traces[i].ev), traces[i].ev[-1]["op"]) for i in crashed}
        if batch:
            ok, code, acc, fails, _, out = self._tlc_traces(module, batch, cfg_extra)
            if not ok and can:
                # a canary may make TLC itself fail; this counts as its rejection
                ok2, code2, acc2, fails2, _, out2 = self._tlc_traces(module, batch[: len(live)], cfg_extra)
                if ok2:
                    self.canaries += len(can)
                ok, code, acc, fails, out = ok2, code2, acc2, fails2, out2
                can = []
            if not ok:
                if code == -999 or "OutOfMemory" in out:
                    raise MachineryError(f"validation with {module} did not finish (exit {code}):\n{out[-1500:]}")
                bad = self._find_erroring(module, list(enumerate(batch)), cfg_extra)
                if bad is None:
                    raise MachineryError(f"validation with {module} failed (exit {code}):\n{out[-3000:]}")
                err = re.findall(r"Error: .*(?:\n.*){0,12}", out)
                rejected[live[bad]] = (0, "evaluation error: " + (err[0][:600] if err else ""))
            else:
                for b, i in enumerate(live):
                    if b + 1 not in acc:
                        fs = sorted(fails.get(b + 1, []))
                        rejected[i] = (fs[-1][0], fs[-1][1]) if fs else (0, "no transition explains the event")
                if can:
                    rej = [c for c in range(len(can)) if len(live) + c + 1 not in acc]
                    again = 0
                    while not rej:
                        # small corruptions may be within tolerances: try others
                        again += 1
                        if again > 4:
                            raise MachineryError(f"{module}: every corrupted recording was accepted ({label})")
                        can = self._make_canaries(module, [js[i] for i in live], canary_keys, canary, again)
                        ok2, _, acc2, _, _, _ = self._tlc_traces(module, can, cfg_extra)
                        rej = [c for c in range(len(can)) if not ok2 or c + 1 not in acc2]
                    self.canaries += len(rej)
        self.validated += n - len(rejected)
        for i, t in enumerate(traces):
            self.events += len(t.ev)
            for e in t.ev:
                self.ops[e["op"]] = self.ops.get(e["op"], 0) + 1
        if len(self.samples) < 6 and live:
            s = js[live[len(live) // 2]]
            self.samples.append({"module": module, "label": label, "cfg": s["cfg"], "ev": s["ev"][:3]})
        unknown = []
        for i in sorted(rejected):
            key = traces[i].meta.get("finding", "")
            if key and key in self.known:
                self.known_hits.append((key, self.known[key]))
            else:
                unknown.append(i)
        for i in unknown[:3]:
            l, clause = rejected[i]
            self._report(module, js[i], traces[i].meta, l, clause, cfg_extra, label)
        if len(unknown) > 3:
            self.violations += ["(more)"] * (len(unknown) - 3)
        return unknown

    def _make_canaries(self, module, js, keys, fn, again=0):
        rng = self.rng(f"canary{module}{again or ''}")
        out = []
        for _ in range(60):
            if len(out) >= (24 if again else 8):
                break
            t = copy.deepcopy(rng.choice(js))
            if fn is not None:
                t = fn(t, rng)
                if t is not None:
                    out.append(t)
                continue
            if not t["ev"]:
                continue
            e = rng.choice(t["ev"])
            spots = []

            def walk(node):
                it = node.items() if isinstance(node, dict) else enumerate(node)
                for k, v in it:
                    if isinstance(v, (dict, list)):
                        walk(v)
                    elif isinstance(v, bool) or isinstance(v, int):
                        spots.append((node, k))

            for k in keys:
                if k in e:
                    walk({k: e[k]}) if isinstance(e[k], (dict, list)) else spots.append((e, k))
            spots = [s for s in spots if not isinstance(s[0][s[1]], str)]
            if not spots:
                continue
            node, k = rng.choice(spots)
            v = node[k]
            node[k] = (not v) if isinstance(v, bool) else v + rng.choice([1, -1, 64, 5000] if again < 2 else [-20000, 20000, 100000])
            out.append(t)
        if not out:
            raise MachineryError(f"{module}: no corrupted recording could be made")
        return out

    def _report(self, module, tr, meta, l, clause, cfg_extra, label):
        if not any(e["op"].startswith("__") for e in tr["ev"]):
            ok, code, acc, fails, at, out = self._tlc_traces(module, [tr], cfg_extra, diagnose=True)
            l = at.get(1, l)
            fs = sorted(fails.get(1, []))
            if fs:
                clause = "; ".join(sorted({n for ll, n in fs if ll == fs[-1][0]}))
            elif not ok:
                err = re.findall(r"Error: .*(?:\n.*){0,12}", out)
                clause = "evaluation error: " + (err[0][:600] if err else out[-500:])
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{self.seed}-{len(self.violations)}.json")
        ev = tr["ev"]
        with open(path, "w") as f:
            json.dump(
                {
                    "property": self.prop, "tier": self.tier, "seed": self.seed, "module": module, "label": label,
                    "failed_clause": clause, "matched_events": max(0, l - 1),
                    "failing_event": ev[l - 1] if 1 <= l <= len(ev) else None,
                    "cfg_extra": cfg_extra, "meta": {k: repr(v) for k, v in meta.items()}, "trace": tr,
                },
                f, indent=1,
            )
        self.violations.append(path)
        print(f"{module}: event {l} of {len(ev)} is not a behaviour of the specification: {clause}")
        if 1 <= l <= len(ev):
            print("  event:", json.dumps(ev[l - 1])[:1500])
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)

    # ------------------------------------------------------------ verdict
    def finish(self):
        for key, what in sorted(set(self.known_hits)):
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.validated,
            "samples": self.samples,
            "events_checked": self.events,
            "events_by_operation": self.ops,
            "corrupted_recordings_rejected": self.canaries,
            "tlc_runs": self.model_runs,
        }
        cov.update(self.extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{self.prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(
                {
                    "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
                    "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
                    "violations": len(self.violations),
                },
                f, indent=1,
            )
        os.replace(path + ".tmp", path)
        verdict = "violated" if self.violations else "held"
        print(
            f"{self.prop} {verdict}: {self.states} model states, {self.validated} recorded traces accepted,"
            f" {self.events} events, {time.time() - self.t0:.1f} s"
        )
        return 1 if self.violations else 0


def load_known(prop):
    """Lines  open: property=<id> key=<key> <what fails>  of KNOWN_FINDINGS.txt (fixed: lines suppress nothing)."""
    res = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    res[m.group(2)] = m.group(3).strip()
    return res


def replay(path):
    """Show a stored violation again: revalidate the stored recording and print where it leaves the specification."""
    with open(path) as f:
        r = json.load(f)
    ctx = Ctx(r["property"], r["tier"], r["seed"])
    ok, code, acc, fails, at, out = ctx._tlc_traces(r["module"], [r["trace"]], r["cfg_extra"], diagnose=True)
    l = at.get(1, 0)
    ev = r["trace"]["ev"]
    if ok and 1 in acc and not any(e["op"].startswith("__") for e in ev):
        print("the stored recording is accepted by the specification")
        return 0
    print(f"property {r['property']}, module {r['module']}: rejected at event {l} of {len(ev)}")
    print("clauses:", fails.get(1, r["failed_clause"]))
    print("cfg:", json.dumps(r["trace"]["cfg"]))
    for i, e in enumerate(ev[: max(l, 1)]):
        print(f"  {i + 1}:", json.dumps(e))
    print(f"VIOLATION property={r['property']} replay={path}")
    return 1
