"""Check one property: rebuild from /repo, discharge every obligation of its
proofs, replay counterexamples on the real code, write the evidence."""
import os
import sys
import json
import time
import shutil
import tempfile
import subprocess
import traceback
import pickle
import signal
import z3
from . import build, llvm as LL, engine as EN, par
from .engine import Unsupported

VERIF = build.VERIF


class Proof:
    """one proof harness: a function of a contract file plus the sources it is linked with"""

    def __init__(self, contract, name, sources, groups=(), par=False, bounded=0, note="", opts=None, tier="quick", limit=""):
        # limit: the inputs considered are limited as it says; counted as bounded, not as proved
        self.limit = limit
        self.contract, self.name, self.sources, self.groups = contract, name, tuple(sources), tuple(groups)
        self.par, self.bounded, self.note, self.opts, self.tier = par, bounded, note, opts or {}, tier


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("kind") == "finding"]


def make_engine(module_path, proof, known=(), bounded=0):
    m = LL.Module(module_path)
    E = EN.Engine(m, dict(proof.opts))
    E.known_labels = set(known)
    E.activate(set(proof.groups))
    E.bounded = bounded or proof.bounded
    fn = m.funcs.get("vf_proof_" + proof.name)
    if fn is None:
        raise RuntimeError(f"no proof named {proof.name}")
    st = EN.State()
    E.push(st, fn, [])
    return E, st


def expected_covers(E, proof):
    fn = E.m.funcs["vf_proof_" + proof.name]
    E.m.decode(fn, E.const)
    out = set()
    for b in fn.blocks:
        for I in b.insts:
            if I.op in ('call', 'invoke'):
                c = I.x[0]
                c = c[1] if type(c) is tuple else None
                if isinstance(c, EN.Ptr) and c.obj > 0 and E.meta[c.obj].name == "vf_cover":
                    p = I.args[0]
                    out.add(E.cstr_const(p[1]))
    return out


def run_one(path, proof, known, nproc, deadline, bounded=0, max_viol=None):
    z3.set_param("smt.arith.solver", 2)
    z3.set_param("smt.relevancy", 0)
    z3.set_param("smt.random_seed", int(os.environ.get("VERIF_SEED", "1") or 1) % 65536)
    E, st = make_engine(path, proof, known, bounded)
    if max_viol:
        E.max_viol = max_viol
    cov = expected_covers(E, proof)
    r = par.run_proof(E, st, nproc, deadline)
    r["cover_expected"] = sorted(cov)
    r["unmatched"] = list(E.repl_unmatched)
    return r


def forked(fn, *args):
    """run fn in a child process; returns (pid, fd)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                res = fn(*args)
            except BaseException as e:
                res = dict(fatal="".join(traceback.format_exception_only(e)).strip() + "\n" + traceback.format_exc()[-3000:])
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def wait(pid, r):
    with os.fdopen(r, "rb") as f:
        d = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(d) if d else dict(fatal="proof process died")


class Native:
    """replay executable of a proof (same contract and sources, sanitised)"""

    def __init__(self, proof, outdir):
        self.proof, self.dir = proof, outdir
        self.exe = None
        self.err = None

    def build(self):
        if self.exe or self.err:
            return self.exe
        try:
            d = os.path.join(self.dir, "native_" + self.proof.name)
            bc = build.build_module(os.path.join(VERIF, "contracts", self.proof.contract), self.proof.sources, d,
                                    native=True)
            out = os.path.join(d, "patched.bc")
            pid, r = forked(patch_module, bc, self.proof, out)
            res = wait(pid, r)
            if isinstance(res, dict):
                raise RuntimeError(res["fatal"])
            small = os.path.join(d, "small.bc")
            build.run(["opt", "-passes=internalize,globaldce", f"-internalize-public-api-list=vf_proof_{self.proof.name}",
                       out, "-o", small])
            out = small
            main = os.path.join(d, "main.cpp")
            with open(main, "w") as f:
                f.write(open(os.path.join(VERIF, "vf", "native.cpp")).read().replace(
                    "VF_NATIVE_MAIN",
                    f'extern "C" void vf_proof_{self.proof.name}();\n'
                    f'int main() {{ fprintf(stderr, "REPLAY: started\\n"); vf_proof_{self.proof.name}(); fprintf(stderr, "REPLAY: no failure\\n"); done(0); }}'))
            exe = os.path.join(d, "replay")
            build.run(["clang++", "-std=gnu++17", "-fsanitize=address", "-g", "-O0", "-I" + os.path.join(VERIF, "vf"), main, out,
                       "-o", exe, "-lpthread", "-no-pie", "-Wl,--unresolved-symbols=ignore-all"])
            self.exe = exe
        except Exception as e:
            self.err = str(e)
        return self.exe

    def run(self, inputs, fname):
        with open(fname, "w") as f:
            for i in inputs:
                if i[0] == 'u':
                    f.write(f"u {i[1].replace(' ', '_')} {i[2]}\n")
                else:
                    f.write(f"b {i[1].replace(' ', '_')} {bytes(i[2]).hex()}\n")
        scratch = tempfile.mkdtemp(prefix="vfreplay")
        try:
            p = subprocess.run([self.exe], capture_output=True, timeout=60, cwd=scratch,
                               env=dict(PATH="/usr/bin:/bin", VF_INPUTS=fname, VF_PROPERTY=os.environ["VF_PROPERTY"], TMPDIR=scratch,
                                        ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1"))
            return p.returncode, (p.stdout + p.stderr).decode("latin1")
        except subprocess.TimeoutExpired:
            return None, "replay timed out"
        finally:
            shutil.rmtree(scratch, ignore_errors=True)


def patch_module(bc, proof, out):
    m = LL.Module(bc)
    E = EN.Engine(m, {})
    E.activate(set(proof.groups))
    for tgt, stub in E.repl.items():
        LL.ReplaceAllUses(m.funcs[tgt].ref, m.funcs[stub].ref)
    LL.drop_global(m.mod, b"llvm.global_ctors")     # as in the proof: contracts set up the globals they need
    if LL.WriteBitcode(m.mod, out.encode()) != 0:
        raise RuntimeError("cannot write bitcode")
    return True


def confirmed(rc, text):
    if rc == 99:
        return True
    if rc is None or rc in (0, 77, 78) or "REPLAY: started" not in text:
        return False
    return "AddressSanitizer" in text or rc < 0 or "terminate called" in text


def main(argv=None):
    argv = argv or sys.argv[1:]
    prop = argv[0]
    os.environ["VF_PROPERTY"] = prop
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    only = argv[argv.index("--proof") + 1] if "--proof" in argv else None
    verbose = "-v" in argv
    from . import registry
    P = registry.PROPERTIES[prop]
    t0 = time.time()
    limit = 840 if tier == "quick" else 7200
    proofs = [p for p in P["proofs"] if (tier == "thorough" or p.tier == "quick") and (only is None or p.name == only)]
    work = tempfile.mkdtemp(prefix="vf_" + prop + "_")
    rc = 2
    try:
        rc = check(prop, P, proofs, tier, work, t0, limit, verbose)
    except Exception as e:
        traceback.print_exc()
        print(f"ERROR property={prop} {e}")
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    return rc


def check(prop, P, proofs, tier, work, t0, limit, verbose):
    nproc = os.cpu_count() or 8
    known = known_findings(prop)
    known_keys = {k["obligation"] for k in known}
    # ---- build every module once
    mods = {}
    for p in proofs:
        mods.setdefault((p.contract, p.sources), None)
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        futs = {}
        for i, k in enumerate(mods):
            futs[k] = ex.submit(build.build_module, os.path.join(VERIF, "contracts", k[0]), k[1], os.path.join(work, f"m{i}"))
        for k, f in futs.items():
            mods[k] = f.result()
    # ---- run: light proofs side by side, heavy ones one after another on all cores
    results = {}
    deadline = t0 + limit - 60
    light = [p for p in proofs if not p.par]
    heavy = [p for p in proofs if p.par]
    running = []
    q = list(light)
    while q or running:
        while q and len(running) < nproc:
            p = q.pop(0)
            running.append((p, time.time(), forked(run_one, mods[(p.contract, p.sources)], p, known_keys, 1, deadline)))
        import select
        fds = [x[2][1] for x in running]
        rd, _, _ = select.select(fds, [], [], 5)
        for x in list(running):
            if x[2][1] in rd:
                results[x[0]] = wait(*x[2])
                results[x[0]]["wall"] = time.time() - x[1]
                running.remove(x)
                if verbose:
                    report_line(x[0], results[x[0]])
    for p in heavy:
        t1 = time.time()
        results[p] = wait(*forked(run_one, mods[(p.contract, p.sources)], p, known_keys, nproc, deadline))
        results[p]["wall"] = time.time() - t1
        if verbose:
            report_line(p, results[p])
    # ---- outcome
    viols = []
    errors = []
    found_known = set()
    for p in proofs:
        r = results[p]
        if "fatal" in r:
            errors.append(f"{p.name}: {r['fatal']}")
            continue
        vs = [v for v in r["viol"]]
        for v in vs:
            if v["key"] in known_keys:
                found_known.add(v["key"])
            else:
                viols.append((p, v))
        if r["err"]:
            errors.append(f"{p.name}: {r['err']}")
        if r["unknowns"]:
            errors.append(f"{p.name}: undecided obligations: {r['unknowns'][:3]}")
        if r["unmatched"]:
            errors.append(f"{p.name}: contract target not found in the code: {r['unmatched']}")
        if not vs and not r["err"]:
            miss = [c for c in r["cover_expected"] + ["(end of proof reached)"] if not r["covers"].get(c)]
            if miss:
                errors.append(f"{p.name}: vacuous: not reached: {miss}")
            if not sum(o[3] for o in r["obls"].values()):
                errors.append(f"{p.name}: no obligations generated")
    rep = []
    rdir = os.path.join(os.environ.get("VF_EVIDENCE") or os.path.join(VERIF, "evidence"), "replay")
    if viols:
        os.makedirs(rdir, exist_ok=True)
        rep = replay_all(prop, viols, mods, work, rdir, t0, limit, nproc, known_keys, verbose)
    # ---- evidence
    ev = evidence(prop, P, proofs, results, tier, t0, viols, errors)
    os.makedirs(os.environ.get("VF_EVIDENCE") or os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(os.environ.get("VF_EVIDENCE") or os.path.join(VERIF, "evidence"), prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known:
        if k["obligation"] in found_known:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for e in errors:
        print(f"UNDECIDED property={prop} {e}")
    c = ev["coverage"]
    print(f"{prop}: {c['discharged']}/{c['obligations']} obligations discharged, {len(c['functions_under_contract'])} functions of /repo "
          f"executed symbolically, {c['paths']} paths, solver {c['solver_s']} s, wall {ev['wall_s']} s")
    if rep:
        for path, conf in rep:
            print(f"VIOLATION property={prop} replay={path}" + ("" if conf else " no-failing-input-found"))
        return 1
    if errors:
        return 2
    return 0


def report_line(p, r):
    if "fatal" in r:
        print(f"  [{p.name}] FATAL {r['fatal']}")
        return
    n = sum(o[3] for o in r["obls"].values())
    print(f"  [{p.name}] {r['wall']:.1f}s paths={r['paths']} obl={n} triv={sum(o[4] for o in r['obls'].values())} q={r['queries']} solver={r['time']:.1f} "
          f"back={r['back']} covers={r['covers']} viol={len(r['viol'])} unk={len(r['unknowns'])} err={r['err']} unmatched={r['unmatched']} bh={r['bounded_hit']}")
    for v in r["viol"][:6]:
        print("     ", v["key"], "|", v["label"], "|", v["loc"][:300], "|", str(v["inputs"])[:400])
    sys.stdout.flush()


def replay_all(prop, viols, mods, work, rdir, t0, limit, nproc, known_keys, verbose):
    """one VIOLATION line per failed obligation (confirmed first), at most 3"""
    out = []
    seen = set()
    natives = {}
    todo = []
    for p, v in viols:
        if (p.name, v["key"]) in seen:
            continue
        todo.append((p, v))
    # try everything that has a concrete input; prefer confirmed ones
    conf = {}
    for p, v in todo[:24]:
        k = (p.name, v["key"])
        if k in conf and conf[k][1]:
            continue
        nat = natives.setdefault(p.name, Native(p, work))
        res = (None, "no concrete input")
        ok = False
        if v["inputs"] is not None and nat.build():
            res = nat.run(v["inputs"], os.path.join(work, "inputs.txt"))
            ok = confirmed(*res)
        elif nat.err:
            res = (None, "replay build failed: " + nat.err)
        if k not in conf or ok:
            conf[k] = (v, ok, res, p)
    # unconfirmed: look for a concrete execution by bounded unrolling of the same proof
    if not any(c[1] for c in conf.values()):
        for name in {k[0] for k in conf}:
            p = next(c[3] for k, c in conf.items() if k[0] == name)
            left = t0 + limit - 30 - time.time()
            if left < 20 or p.bounded:
                continue
            for b in (2, 5):
                left = t0 + limit - 30 - time.time()
                if left < 20:
                    break
                r = wait(*forked(run_one, mods[(p.contract, p.sources)], p, known_keys, nproc,
                                 time.time() + min(left, 150), b, 3))
                if "fatal" in r or not r["viol"]:
                    continue
                nat = natives[name]
                if not nat.build():
                    break
                hit = False
                for v in r["viol"]:
                    if v["inputs"] is None or v["key"] in known_keys:
                        continue
                    res = nat.run(v["inputs"], os.path.join(work, "inputs.txt"))
                    if confirmed(*res):
                        conf[(name, v["key"])] = (v, True, res, p)
                        hit = True
                        break
                if hit:
                    break
    items = sorted(conf.items(), key=lambda kv: not kv[1][1])
    any_conf = any(c[1] for _, c in items)
    n = 0
    for (name, key), (v, ok, res, p) in items:
        if any_conf and not ok:
            continue
        n += 1
        if n > 3:
            break
        path = os.path.join(rdir, f"{prop}-{name}-{n}.txt")
        with open(path, "w") as f:
            f.write(f"property: {prop}\nproof: {p.contract} / {name}\nfailed obligation: {key}\nlabel: {v['label']}\n"
                    f"at: {v['loc']}\n\ncounterexample inputs (in the order the proof draws them):\n")
            for i in v["inputs"] or []:
                f.write("  " + " ".join(str(x) if not isinstance(x, list) else bytes(x).hex() + " " + repr(bytes(x)) for x in i) + "\n")
            if v["inputs"] is None:
                f.write("  (model too large to write out)\n")
            f.write(f"\nreplay on the real code: {'FAILS (confirmed)' if ok else 'not reproduced'}; exit {res[0]}\n{res[1][-6000:]}\n"
                    f"\nre-run: cd /verif && ./check {prop} --proof {name} -v\n")
        out.append((path, ok))
    return out


def evidence(prop, P, proofs, results, tier, t0, viols, errors):
    obl = dis = 0
    bobl = 0
    fns = {}
    ext = set()
    con = set()
    loops = {}
    back = {}
    tot = dict(paths=0, queries=0, time=0.0)
    per = []
    bounded = []
    for p in proofs:
        r = results[p]
        if "fatal" in r:
            per.append(dict(proof=p.name, error=r["fatal"][:500]))
            continue
        n = sum(o[3] for o in r["obls"].values())
        d = n - sum(o[7] + o[8] for o in r["obls"].values())
        if p.bounded or p.limit:
            bounded.append(dict(proof=p.name, bound=p.limit or p.bounded, obligations=n, holding=d, truncated_loops=r["bounded_hit"]))
        else:
            obl += n
            dis += d
        for k in ("paths", "queries"):
            tot[k] += r[k]
        tot["time"] += r["time"]
        for k, v in r["back"].items():
            back[k] = back.get(k, 0) + v
        back["decided by simplification"] = back.get("decided by simplification", 0) + sum(o[4] for o in r["obls"].values())
        for f in r["entered"]:
            dm = EN.DEMANGLE.get(f, f)
            fns.setdefault(f, dm)
        ext |= r["externals"]
        con |= r["contracts"]
        for k, v in r["loops"].items():
            loops.setdefault(k, set()).update(v)
        per.append(dict(proof=p.name, contract=p.contract, obligations=n, discharged=d, paths=r["paths"],
                        wall_s=round(r["wall"], 1), covers=r["covers"], bounded=p.limit or p.bounded or None, note=p.note,
                        by_kind=kinds(r)))
    EN.demangle_all([f for f in fns] + [k[0] for k in loops] + [c for t in con for c in t])
    D = EN.DEMANGLE
    repo_fns = sorted({D[f] for f in fns if is_repo_fn(D[f])})
    samples = []
    for p in proofs:
        r = results[p]
        if "fatal" not in r:
            for k, o in list(r["obls"].items())[:4]:
                samples.append(f"{p.name}: {o[0]} ({o[3]} instances)")
    return dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=P.get("level", "proof"),
        coverage=dict(
            obligations=obl, discharged=dis,
            checker_cmd=f"./check {prop} --tier {tier}",
            trusted_base=P.get("trusted", []) + BASE_TRUST,
            functions_under_contract=repo_fns,
            external_contracts=sorted(ext),
            callee_contracts_used=sorted({f"{D.get(a, a)} -> {D.get(b, b)}" for a, b in con}),
            loops_with_inferred_invariants={D.get(k[0], k[0]) + f" block {k[1]}": sorted(v) for k, v in loops.items()},
            backends=back, solver_s=round(tot["time"], 1), solver_queries=tot["queries"], paths=tot["paths"],
            bounded_standins=bounded, proofs=per, samples=samples[:12], errors=errors),
        assumptions=P.get("assumptions", []) + BASE_ASSUME,
        wall_s=round(time.time() - t0, 1), violations=len(viols))


def kinds(r):
    out = {}
    for o in r["obls"].values():
        out[o[1]] = out.get(o[1], 0) + o[3]
    return out


def is_repo_fn(d):
    return d.startswith(("yrmcds::", "cybozu::", "(anonymous namespace)::")) or " yrmcds::" in d.split("(")[0] \
        or " cybozu::" in d.split("(")[0] or "(anonymous namespace)::" in d.split("(")[0] or "(anonymous namespace)" in d


BASE_TRUST = [
    "clang 18 front end at -O0 and the sroa, early-cse and simplifycfg passes (source to the IR that is verified)",
    "/verif/vf: the verification-condition generator, its memory model, and its contracts for libc and the C++ runtime",
    "z3 and cvc5 (an unsat answer discharges an obligation)",
]
BASE_ASSUME = [
    "memory allocation succeeds (out-of-memory paths are not explored)",
    "objects are at most 2^46 bytes and distinct allocations do not overlap",
    "each proof is of one thread's execution between lock operations; other threads are represented by the arbitrary pre-state only",
    "floating point values are unconstrained (no property depends on them)",
]

if __name__ == "__main__":
    sys.exit(main())
