"""Run a proof on several processes: a breadth-first prefix of the paths is
explored here, the remaining subtrees are handed to forked workers."""
import os
import pickle
import time
import traceback
import resource
from . import llvm as LL
from . import engine as EN
from .engine import Unsupported, PathEnd


def collect(E, err=None):
    return dict(
        obls={k: (o.key, o.kind, o.where, o.n, o.trivial, o.z3, o.hard, o.failed, o.unknown) for k, o in E.obls.items()},
        viol=[dict(key=v.key, kind=v.kind, label=v.label, loc=v.loc, inputs=v.inputs, exact=v.exact) for v in E.violations],
        covers=dict(E.covers), externals=set(E.externals), contracts=set(E.contracts_used), entered=set(E.entered),
        loops={k: sorted(v) for k, v in E.loops_cut.items()}, unrolled=dict(E.loops_unrolled),
        paths=E.paths, queries=E.solver.queries, time=E.solver.time, back=dict(E.solver.byback),
        unknowns=list(getattr(E, "unknowns", [])), bounded_hit=E.bounded_hit, steps=E.steps, err=err)


def merge(rs):
    out = dict(obls={}, viol=[], covers={}, externals=set(), contracts=set(), entered=set(), loops={}, unrolled={},
               paths=0, queries=0, time=0.0, back={}, unknowns=[], bounded_hit=0, steps=0, err=None)
    for r in rs:
        for k, o in r["obls"].items():
            p = out["obls"].get(k)
            out["obls"][k] = o if p is None else p[:3] + tuple(a + b for a, b in zip(p[3:], o[3:]))
        out["viol"] += r["viol"]
        for d in ("covers", "back"):
            for k, v in r[d].items():
                out[d][k] = out[d].get(k, 0) + v
        for d in ("externals", "contracts", "entered"):
            out[d] |= r[d]
        for k, v in r["loops"].items():
            out["loops"][k] = sorted(set(out["loops"].get(k, [])) | set(v))
        for k, v in r["unrolled"].items():
            out["unrolled"][k] = max(out["unrolled"].get(k, 0), v)
        for d in ("paths", "queries", "time", "bounded_hit", "steps"):
            out[d] += r[d]
        out["unknowns"] += r["unknowns"]
        out["err"] = out["err"] or r["err"]
    return out


def step(E, wl):
    """run one state of the worklist"""
    st = wl.pop(0)
    E.worklist = wl
    try:
        E.run(st, None)
    except PathEnd:
        pass


def run_proof(E, st, nproc, deadline=None, mem=6 << 30):
    E.deadline = deadline
    wl = [st]
    E.worklist = wl
    E.cur_snap = None
    err = None
    try:
        n = 0
        t0 = time.time()
        while wl and (len(wl) < 2 * nproc or nproc == 1):
            step(E, wl)
            n += 1
            if nproc > 1 and time.time() - t0 > 20 and len(wl) >= 2:
                break
    except StopIteration:
        wl = []
    except TimeoutError as e:
        err, wl = "time limit", []
    except Unsupported as e:
        err, wl = "unsupported: " + str(e), []
    if not wl:
        return collect(E, err)
    base = collect(E)
    if nproc == 1:
        return base
    rs = [base] + spread(E, wl, nproc, mem)
    return merge(rs)


def reset(E):
    """counters of a fresh worker: it reports only its own share"""
    E.obls, E.violations, E.covers = {}, [], {}
    E.paths = E.steps = E.bounded_hit = 0
    E.solver.queries, E.solver.time, E.solver.byback = 0, 0.0, {}
    E.unknowns = []


def spread(E, wl, nproc, mem):
    """explore the states in wl on up to nproc processes; a worker with states
    to spare forks a new one whenever a processor is idle"""
    import mmap
    import shutil
    import signal
    import struct
    import tempfile
    import fcntl
    sh = mmap.mmap(-1, 4096)            # [active][started][stop]
    lockf = tempfile.TemporaryFile()
    outd = tempfile.mkdtemp(prefix="vfpar")
    rd, wr = os.pipe()

    def locked(fn):
        lf = os.open(f"/proc/self/fd/{lockf.fileno()}", os.O_RDWR)
        fcntl.flock(lf, fcntl.LOCK_EX)
        try:
            return fn()
        finally:
            os.close(lf)

    def get(i):
        return struct.unpack_from("i", sh, 4 * i)[0]

    def put(i, v):
        struct.pack_into("i", sh, 4 * i, v)

    def claim():
        if get(0) >= nproc:
            return False
        put(0, get(0) + 1)
        put(1, get(1) + 1)
        return True

    def worker(sub):
        err = None
        try:
            reset(E)
            while sub and not get(2):
                if len(sub) > 1 and get(0) < nproc and locked(claim):
                    h = len(sub) // 2
                    give, sub = sub[:h], sub[h:]
                    if os.fork() == 0:
                        worker(give)
                    continue
                st = sub.pop()
                E.worklist = sub
                try:
                    E.run(st, None)
                except PathEnd:
                    pass
        except StopIteration:
            put(2, 1)       # enough violations: let the others stop too
        except TimeoutError:
            err = "time limit"
        except Unsupported as e:
            err = "unsupported: " + str(e)
        except MemoryError:
            err = "out of memory"
        except BaseException as e:
            err = "internal: " + "".join(traceback.format_exception_only(e)) + traceback.format_exc()[-1500:]
        try:
            data = pickle.dumps(collect(E, err))
        except BaseException as e:
            data = pickle.dumps(dict(merge([]), err="internal: " + str(e)))
        with open(os.path.join(outd, f"{os.getpid()}.tmp"), "wb") as f:
            f.write(data)
        os.rename(os.path.join(outd, f"{os.getpid()}.tmp"), os.path.join(outd, f"{os.getpid()}.out"))

        def leave():
            put(0, get(0) - 1)
        locked(leave)
        os._exit(0)

    locked(claim)
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        worker(wl)
    os.close(wr)
    os.read(rd, 1)          # end of file: every worker is gone
    os.close(rd)
    os.waitpid(pid, 0)
    rs = []
    for f in sorted(os.listdir(outd)):
        if f.endswith(".out"):
            rs.append(pickle.load(open(os.path.join(outd, f), "rb")))
    if len(rs) != get(1):
        rs.append(dict(merge([]), err="worker died"))
    shutil.rmtree(outd, ignore_errors=True)
    return rs
