"""Runner: cases, sessions (forked processes running the code under test), evidence, verdicts."""
import collections
import ctypes
import hashlib
import json
import os
import pickle
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
from multiprocessing import Pipe
from multiprocessing.connection import wait

from . import boot, ops

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
OP_WALL = 240.0  # watchdog on one operation; firing is inconclusive, not a violation


class Violation(Exception):
    def __init__(self, msg, sig=None, **detail):
        super().__init__(msg)
        self.msg = msg
        self.sig = sig
        self.detail = detail


class Inconclusive(Exception):
    pass


class Died(Exception):
    """The session process ended while carrying out an operation."""

    def __init__(self, status):
        super().__init__(f"session process ended, status {status}")
        self.status = status


def _die_with_parent():
    try:
        ctypes.CDLL(None, use_errno=True).prctl(1, signal.SIGKILL)
    except Exception:
        pass


class Out(dict):
    """What an operation did (see ops.guarded)."""

    __getattr__ = dict.get

    def brief(self):
        if self.get("ok"):
            return f"ok {self.get('value')!r:.120}"
        return f"{self.get('exc')}: {self.get('msg', '')[:120]}"


_OPEN = set()  # this process's ends of the pipes to its sessions


class Session:
    """A process forked from a state in which the code under test is loaded but has run nothing."""

    def __init__(self, api, trace, tag="s"):
        self.trace = trace
        self.tag = tag
        self.dead = None
        a, b = Pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            status = 0
            try:
                _die_with_parent()
                a.close()
                for other in _OPEN:
                    other.close()
                api.guard.enabled = True
                self._serve(api, b)
            except BaseException:
                status = 7
                try:
                    traceback.print_exc()
                except BaseException:
                    pass
            finally:
                os._exit(status)
        b.close()
        self.conn = a
        _OPEN.add(a)

    @staticmethod
    def _serve(api, conn):
        while True:
            try:
                name, args = conn.recv()
            except (EOFError, OSError):
                return
            fn = getattr(ops, name) if isinstance(name, str) else name
            try:
                res = fn(api, *args)
            except BaseException as e:
                conn.send(("harness", f"{type(e).__name__}: {e}\n{traceback.format_exc()}"))
                continue
            conn.send(("ok", res))

    def _shut(self):
        _OPEN.discard(self.conn)
        try:
            self.conn.close()
        except OSError:
            pass

    def cpu(self):
        try:
            with open(f"/proc/{self.pid}/stat") as h:
                f = h.read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            return 0.0

    def call(self, name, *args, wall=OP_WALL, may_die=False):
        self.start(name, *args)
        return self.finish(wall, may_die)

    def start(self, name, *args):
        """Begins an operation; `conn` becomes readable when it is over."""
        if self.dead is not None:
            raise Inconclusive("operation on a session that has ended")
        self.trace.append([self.tag, name if isinstance(name, str) else name.__name__, _short(args)])
        self._c0 = self.cpu()
        self._now = name, args
        try:
            self.conn.send((name, args))
        except OSError:
            pass  # finish() sees that the process is gone

    def finish(self, wall=OP_WALL, may_die=False):
        name, args = self._now
        try:
            if not self.conn.poll(wall):
                used = self.cpu() - self._c0
                self.kill()
                if used >= ops.CPU_LIMIT:
                    return Out(ok=False, exc="Hang", msg=f"{used:.0f}s of processor time", mro=["Hang"], hang=True, out="", writes=[], blocked=[], cpu=used, t0=0, t1=0)
                raise Inconclusive(f"operation {name} gave no answer in {wall}s ({used:.1f}s cpu)")
            kind, val = self.conn.recv()
        except (EOFError, OSError):
            _, status = os.waitpid(self.pid, 0)
            self.dead = status
            self._shut()
            if may_die:
                raise Died(status)
            raise Violation(f"the process ended (status {status}) during {name}", args=_short(args))
        if kind == "harness":
            raise Inconclusive("harness error in session: " + val)
        if isinstance(val, dict) and "exc" in val:
            val = Out(val)
        elif isinstance(val, list) and val and isinstance(val[0], dict) and "exc" in val[0]:
            val = [Out(v) for v in val]
        return val

    def kill(self):
        if self.dead is None:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
            self.close()

    def close(self):
        if self.dead is None:
            self._shut()
            try:
                _, self.dead = os.waitpid(self.pid, 0)
            except ChildProcessError:
                self.dead = 0


def _short(x, n=3000):
    s = repr(x)
    return s if len(s) <= n else s[:n] + f"...({len(s)})"


class Env:
    """Per worker: the loaded code, the scratch root and what has been observed."""

    def __init__(self, root):
        self.root = root
        self.api = boot.load(root)
        self.api.guard = boot.Guard([root])
        self.api.guard.enabled = False  # switched on in the sessions
        self.events = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.evaluations = 0
        self.ncases = 0


class Case:
    def __init__(self, env, prop, seed, tier, index):
        self.env = env
        self.prop, self.seed, self.tier, self.index = prop, seed, tier, index
        self.r = random.Random(f"{prop}:{seed}:{index}")
        self.trace = []
        self.sessions = []
        self.dir = os.path.join(env.root, f"c{index}")
        os.mkdir(self.dir)
        self._n = 0

    # -- processes
    def session(self, tag=None):
        s = Session(self.env.api, self.trace, tag or f"s{len(self.sessions)}")
        self.sessions.append(s)
        self.event("sessions")
        return s

    # -- observation
    def event(self, name, n=1):
        self.env.events[name] += n

    def peak(self, name, n):
        self.env.events[name] = max(self.env.events[name], n)

    def judged(self, what, nontrivial=True, sample=None):
        """One oracle decision about `what`."""
        self.env.evaluations += 1
        if nontrivial:
            self.env.distinct.add(hashlib.blake2b(repr(what).encode("utf-8", "replace"), digest_size=8).digest())
            if len(self.env.samples) < 3 and (self.index % 7 == 0 or self.index < 3):
                self.env.samples.append(_short(sample if sample is not None else what, 600))

    def fail(self, msg, sig=None, **detail):
        raise Violation(msg, sig=sig, **detail)

    def check(self, cond, msg, **detail):
        if not cond:
            raise Violation(msg, **detail)

    def cleanup(self):
        for s in self.sessions:
            s.kill() if s.dead is None else None
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------------------ runner
def load_known():
    """Open findings of known_findings.txt (committed): {property: [{"sig", "what"}]}.

    A line is "known: property=<id> sig=<signature> <what fails>" or "fixed: property=<id> <commit> <what failed>";
    only the first kind has an effect, and only on a violation with exactly that signature.
    """
    out = collections.defaultdict(list)
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line)
            if m:
                out[m[1]].append({"sig": m[2], "what": m[3]})
    return out


def _worker(spec, w, nworkers, conn, root, deadline, only=None):
    _die_with_parent()
    res = {"violations": [], "inconclusive": [], "known": collections.Counter()}
    try:
        env = Env(root)
    except BaseException:
        conn.send(("fatal", "cannot load the code under test:\n" + traceback.format_exc()))
        return
    known = {k["sig"] for k in load_known().get(spec.prop, [])}
    indices = only if only is not None else range(w, spec.cases, nworkers)
    capped = False
    for i in indices:
        if time.time() > deadline:
            capped = True
            break
        case = Case(env, spec.prop, spec.seed, spec.tier, i)
        try:
            spec.fn(case)
        except Violation as v:
            if v.sig is not None and v.sig in known:
                res["known"][v.sig] += 1
            else:
                res["violations"].append(
                    {"case": i, "msg": v.msg, "sig": v.sig, "detail": {k: _short(x, 6000) for k, x in v.detail.items()}, "trace": case.trace[-60:], "where": traceback.format_exc()[-1500:]}
                )
        except Inconclusive as e:
            res["inconclusive"].append(f"case {i}: {e}")
        except Exception:
            res["inconclusive"].append(f"case {i}: harness error\n{traceback.format_exc()}\ntrace: {_short(case.trace[-3:], 2000)}")
        finally:
            case.cleanup()
        env.ncases += 1
        if len(res["violations"]) >= 3 or len(res["inconclusive"]) >= 3:
            break
    res.update(
        events=env.events, distinct=env.distinct, samples=env.samples,
        evaluations=env.evaluations, ncases=env.ncases, capped=capped,
    )
    conn.send(("done", pickle.dumps(res)))


class Spec:
    def __init__(self, prop, fn, quick, thorough, rule, level="exploration", floor=None, assumptions=(), quick_cap=240, thorough_cap=700, peaks=()):
        self.prop, self.fn = prop, fn
        self.n = {"quick": quick, "thorough": thorough}
        self.rule = rule
        self.level = level
        self.floor = floor or {}  # event -> least number of observations in the quick tier
        self.assumptions = list(assumptions)
        self.cap = {"quick": quick_cap, "thorough": thorough_cap}


def run(spec, tier, seed, only=None, workers=None):
    spec.tier, spec.seed, spec.cases = tier, seed, spec.n[tier]
    t0 = time.time()
    nworkers = workers or max(1, min(8, os.cpu_count() or 1))
    if only is not None:
        nworkers = 1
    deadline = t0 + spec.cap[tier]
    base = tempfile.mkdtemp(prefix=f"verif-{spec.prop}-")
    os.chmod(base, 0o755)
    pids, conns = [], {}
    results, fatal = [], []
    try:
        for w in range(nworkers):
            root = os.path.join(base, f"w{w}")
            os.mkdir(root)
            a, b = Pipe(duplex=False)
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    a.close()
                    os.chdir(root)
                    _worker(spec, w, nworkers, b, root, deadline, only)
                except BaseException:
                    traceback.print_exc()
                    code = 9
                finally:
                    os._exit(code)
            b.close()
            pids.append(pid)
            conns[a] = w
        while conns:
            for c in wait(list(conns), timeout=5):
                w = conns[c]
                try:
                    kind, val = c.recv()
                    if kind == "fatal":
                        fatal.append(val)
                    else:
                        results.append(pickle.loads(val))
                except EOFError:
                    fatal.append(f"worker {w} ended without a result")
                del conns[c]
            if conns and time.time() > deadline + OP_WALL + 60:
                fatal.append("workers did not finish in time")
                break
    finally:
        for p in pids:
            try:
                if conns:
                    os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            except OSError:
                pass
        shutil.rmtree(base, ignore_errors=True)

    events, distinct = collections.Counter(), set()
    samples, evaluations, ncases, capped = [], 0, 0, False
    violations, inconclusive, known = [], list(fatal), collections.Counter()
    for r in results:
        for k, v in r["events"].items():
            if k.startswith("max_"):
                events[k] = max(events[k], v)
            else:
                events[k] += v
        distinct |= r["distinct"]
        samples += r["samples"]
        evaluations += r["evaluations"]
        ncases += r["ncases"]
        capped |= r["capped"]
        violations += r["violations"]
        inconclusive += r["inconclusive"]
        known += r["known"]
    violations.sort(key=lambda v: v["case"])

    if only is None:
        for ev, least in spec.floor.items():
            if events[ev] < least and not violations:
                inconclusive.append(f"only {events[ev]} '{ev}' observed, at least {least} needed for a verdict")

    wall = time.time() - t0
    evidence = {
        "property": spec.prop,
        "tier": tier,
        "seed": seed,
        "level": spec.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": spec.rule,
            "samples": samples[:6],
            "cases_run": ncases,
            "observed": {k: events[k] for k in sorted(events)},
            "stopped_at_time_cap": capped,
            "inconclusive": inconclusive[:5],
            "known_findings_seen": dict(known),
            "violations_found": [v["msg"][:400] for v in violations],
        },
        "assumptions": spec.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{spec.prop}.json"), "w") as h:
            json.dump(evidence, h, indent=1, default=str)
            h.write("\n")

    print(f"{spec.prop} {tier} seed={seed}: {ncases} cases, {evaluations} judgements, {len(distinct)} distinct, {wall:.1f}s")
    print("  observed: " + ", ".join(f"{k}={events[k]}" for k in sorted(events)))
    for k in load_known().get(spec.prop, []):
        print(f"KNOWN-FINDING: property={spec.prop} {k['what']}")
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for v in violations[:3]:
            path = os.path.join(VERIF, "replays", f"{spec.prop}-{tier}-s{seed}-c{v['case']}.json")
            with open(path, "w") as h:
                json.dump({"property": spec.prop, "tier": tier, "seed": seed, "replay": f"./check {spec.prop} --tier {tier} --seed {seed} --case {v['case']}", **v}, h, indent=1, default=str)
            print(f"  case {v['case']}: {v['msg'][:1500]}")
            for k, x in v["detail"].items():
                print(f"    {k}: {x[:800]}")
            print(f"VIOLATION property={spec.prop} replay={path}")
        return 1
    if inconclusive:
        for m in inconclusive[:4]:
            print("INCONCLUSIVE " + m[:3000])
        return 2
    return 0
