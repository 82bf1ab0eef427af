"""Runs the jobs of one property, reports and writes the evidence."""
import collections
import json
import os
import re
import signal
import subprocess
import sys
import time
import traceback
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, as_completed, wait
from concurrent.futures.process import BrokenProcessPool
from . import build, lemma, props, runner, sweep
from .ctx import Stats
from .kernels import BY_NAME

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET = float(os.environ.get("VERIF_BUDGET", "780"))
FRAME_LABELS = ("unchanged",)
WITH_OVERFLOW = ("traversal", "iterators", "views")     # contracts on index arithmetic itself
BIG = ("traversal", "iterators", "views", "lazy", "window", "dotfine")  # stems of C21: searched with large integers too
TRUSTED = [
    "clang 18 front end and mem2reg: the LLVM IR extracted from the unmodified sources on every run means what the sources mean",
    "vlib (the verification-condition generator in this repository): IR semantics, generic-iteration rule for parallel loops, generic-cell postconditions, rational normal forms",
    "z3 4.x (python binding) and cvc5 1.1.2 for the integer obligations the built-in certificates do not settle",
    "contract on the OpenMP runtime (__kmpc_fork_call with static work sharing): the loop body runs exactly once per index, in unspecified order",
    "std::min/std::max and llvm.* intrinsics as their mathematical functions",
]
FTRUST = "m4 (the real macro files) and vlib's Fortran reader: fixed-form statements, declared bounds, do/if/select/call semantics"
SWEEPTRUST = [
    FTRUST,
    "vlib (the verification-condition generator in this repository): loop rules for independent iterations, reductions, visits in storage order and loop distribution; generic-cell postconditions, rational normal forms",
    TRUSTED[2],
]
SWEEPASSUME = [
    "machine integers are treated as mathematical integers; floating-point arithmetic as exact real arithmetic; literals are exact decimals; divisors of the compared expressions are nonzero",
    "distinct array arguments of a call do not overlap",
    "stencil offsets stay inside the declared arrays (compact, at most one cell, for red-black independence and coarse-fine right-hand sides); the first stencil entry is the diagonal",
]
ASSUME = [
    "machine integers are treated as mathematical integers; C21 decides that no 32-bit operation wraps for arrays of up to 2^27 elements; narrowing to 16 bits or fewer is an obligation",
    "floating-point arithmetic is exact real arithmetic; divisors of the compared expressions are nonzero",
    "distinct array arguments of a call do not overlap",
    "the OpenMP device back end of thrust is the configuration verified; thrust headers are executed as code, not assumed",
]


def job_name(j):
    if j[0] == "L":
        return f"{j[1]}/{j[2]}<{'double' if j[3] == 'd' else 'float'}>"
    if j[0] == "F":
        return j[1]
    k = BY_NAME[j[1]]
    c = runner.split_cases(k)[j[2]]
    cs = ",".join(f"{a}={b if isinstance(b, int) else 'other'}" for a, b in c.items())
    return f"{j[1]}[{cs}]<{'double' if j[3] == 'd' else 'float'}>"


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def execute(j, mode, timeout_ms, limit):
    """one job in a worker"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        if j[0] == "L":
            only = {props.FULL: None, props.FRAME: FRAME_LABELS}.get(mode, ())
            r = lemma.run_lemma(j[1], j[2], j[3], timeout_ms, race=mode in (props.FULL, props.RACE), only=only,
                                overflow=mode == props.OVF or mode == props.FULL and j[1] in WITH_OVERFLOW)
        elif j[0] == "F":
            r = sweep.run_sweep(j[1], timeout_ms)
        else:
            m = {props.FULL: ("ref",), props.FRAME: ("frame",), props.RACE: ("race",), props.MEM: (), props.OVF: ("overflow",)}[mode]
            k = BY_NAME[j[1]]
            r = runner.run_case(j[1], runner.split_cases(k)[j[2]], j[3], m, timeout_ms)
    except Timeout:
        r = runner.CaseResult()
        r.status = "undecided"
        r.detail = f"time limit of {limit} s"
        r.stats = Stats()
    except (RecursionError, MemoryError, AssertionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
        # an engine limitation on this text: no verdict
        r = runner.CaseResult()
        r.status = "undecided"
        r.detail = "engine: " + "".join(traceback.format_exception_only(e)).strip() + " " + traceback.format_exc()[-500:]
        r.stats = Stats()
    finally:
        signal.alarm(0)
    if r.stats is None:
        r.stats = Stats()
    return j, r


def relevant(mode, r):
    """does this failed obligation belong to the property?"""
    n = r.name
    if mode == props.FULL:
        return True
    if mode == props.FRAME:
        return n == "frame" or "unchanged" in n or n == "in-bounds" and False
    if mode == props.RACE:
        return n == "race-freedom"
    if mode == props.OVF:
        return n == "overflow"
    return n in ("in-bounds", "memory-safety", "division-by-zero", "division-by-positive", "narrowing")


def prebuild(jobs, pool):
    fs = []
    for s, t in {(j[1], j[3]) for j in jobs if j[0] == "L"}:
        fs.append(pool.submit(lemma.contract_ir, s, t))
    for c in {BY_NAME[j[1]].cpp for j in jobs if j[0] == "K"}:
        fs.append(pool.submit(build.kernel_ir, c))
    for f in {BY_NAME[j[1]].ffile for j in jobs if j[0] == "K"}:
        fs.append(pool.submit(build.fortran, f))
    for f in {f for j in jobs if j[0] == "F" for f in sweep.lookup(j[1]).files()}:
        fs.append(pool.submit(build.fortran, f))
    for f in fs:
        f.result()


def prebuild_native(jobs, pool, mode):
    from . import kreplay, sweepnat
    trap = mode == props.OVF
    fs = [pool.submit(native_lemma, s, trap=trap) for s in {j[1] for j in jobs if j[0] == "L"}]
    ks = {}
    for j in jobs:
        if j[0] == "K":
            ks.setdefault(BY_NAME[j[1]].cpp, j[1])
            ks.setdefault(BY_NAME[j[1]].ffile, j[1])
    fs += [pool.submit(kreplay.libs, k, trap) for k in ks.values()]
    fs += [pool.submit(sweepnat.library, f) for f in {f for j in jobs if j[0] == "F" for f in sweep.lookup(j[1]).files()}]
    for f in fs:
        f.result()


def native_lemma(stem, ctype="d", trap=False):
    """trap: signed overflow raises SIGILL"""
    d = build.scratch()
    out = f"{d}/rt_{stem}_{ctype}{'_trap' if trap else ''}"
    if not os.path.exists(out):
        t = f"{out}.{os.getpid()}"
        build.run(["g++", "-std=c++17", "-O1", "-w", "-fopenmp", "-rdynamic", "-DVF_NATIVE",
                   *(build.TRAP if trap else ()), "-DREAL=" + ("double" if ctype == "d" else "float"),
                   "-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_OMP", "-DTHRUST_HOST_SYSTEM=THRUST_HOST_SYSTEM_CPP",
                   "-I" + build.REPO + "/src", "-I" + lemma.CDIR, lemma.contract_src(stem, ctype), f"{lemma.CDIR}/vf_rt.cpp", "-ldl", "-o", t])
        os.rename(t, out)
    return out


def run_native_lemma(stem, cname, seed, n, bound, fixed, limit=150, env=(), trap=False):
    exe = native_lemma(stem, trap=trap)
    args = [exe, cname, str(seed), str(n), str(bound)] + [f"{a}={b if isinstance(b, int) else format(b, '.17f')}"
                                                          for a, b in (fixed or {}).items() if re.fullmatch(r"\w+", a)]
    # the verifier's position of a postcondition: a hint
    args += [f"+{m[1]}={b}" for a, b in (fixed or {}).items() for m in [re.fullmatch(r"(\w+)!\d+", a)] if m and isinstance(b, int)]
    try:
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=limit,
                           env=dict(os.environ, OMP_NUM_THREADS="2", **dict(env)))
    except subprocess.TimeoutExpired:
        return None, "native run exceeded its time limit"
    return p.returncode, p.stdout


def sched_lib():
    d = build.scratch()
    out = f"{d}/libvfsched.so"
    if not os.path.exists(out):
        t = f"{out}.{os.getpid()}"
        build.run(["gcc", "-O1", "-fPIC", "-shared", "-w", f"{lemma.CDIR}/sched.c", "-o", t])
        os.rename(t, out)
    return out


def search_lemma(j, fixed, seed, n, bound, mode):
    """(violation or None, output, executions)"""
    if mode == props.RACE:
        # the same inputs under three orders of the parallel iterations
        outs = []
        for o in "012":
            rc, out = run_native_lemma(j[1], j[2], seed, n, bound, fixed,
                                       env=dict(LD_PRELOAD=sched_lib(), VF_ORDER=o, VF_DIGEST="1"))
            if rc == 1:
                return out.split("\n")[0], out, 1
            if rc != 0:
                raise build.BuildError(f"native run of {j[2]}: status {rc} {str(out)[:200]}")
            outs.append([l for l in out.split("\n") if l.startswith("result")])
        for a, b, c in zip(*outs):
            for o, x in (("descending", b), ("odd blocks first", c)):
                if a != x:
                    return ("the result depends on the order of the parallel iterations: inputs" + a[23:] +
                            f": ascending {a[7:23]}, {o} {x[7:23]}", "\n".join((a, b, c)), 1)
        return None, "", len(outs[0])
    if mode == props.OVF:
        rc, out = run_native_lemma(j[1], j[2], seed, n, bound, fixed, env=dict(VF_BIG="1"), trap=True)
        if rc == 1 and "received signal 4" in out.split("\n")[0]:
            return "a 32-bit sum, difference or product overflows (signal 4 of the overflow trap)", out, 1
        m = re.search(r"executions=(\d+)", str(out))
        return None, "", int(m.group(1)) if m else 0
    total = 0
    envs = [{}]
    if mode == props.MEM or fixed:
        envs += [dict(VF_GUARD="1"), dict(VF_GUARD="2")]
    elif mode == props.FULL and j[1] in BIG:
        envs.append(dict(VF_BIG="2"))
    for env in envs:
        rc, out = run_native_lemma(j[1], j[2], seed, n * 400 if "VF_BIG" in env else n, bound, fixed, env=env)
        if rc == 1:
            l = out.split("\n")[0]
            if "VF_GUARD" in env and "signal" in l:
                l += " (storage " + ("ends" if env["VF_GUARD"] == "1" else "begins") + " at an inaccessible page)"
            return l, out, 1
        if rc != 0 and not fixed and "VF_BIG" not in env:
            raise build.BuildError(f"native run of {j[2]}: status {rc} {str(out)[:200]}")
        m = re.search(r"executions=(\d+)", str(out))
        total += int(m.group(1)) if m else 0
    return None, "", total


def search(j, model, seed, n, mode="full", reals=None):
    """look for a concrete violation on the natively compiled real code.
    returns (violation text or None, replay info, number of executions)"""
    if j[0] == "L":
        if model:
            fixed = dict(model)
            reals = {k: float(v) for k, v in (reals or {}).items()}
            # the verifier's input first, then inputs near it
            for fx, b, m in [(dict(fixed, **reals), 6, 10)] + ([(reals, 5, n)] if reals else []) + [({}, 5, n)]:
                txt, out, _ = search_lemma(j, fx, seed, m, b, mode)
                if txt:
                    return txt, dict(stem=j[1], contract=j[2], seed=seed, output=out, fixed=fx, mode=mode), 1
            return None, {}, n
        txt, out, cnt = search_lemma(j, {}, seed, n, 5, mode)
        if txt:
            return txt, dict(stem=j[1], contract=j[2], seed=seed, output=out, fixed={}, mode=mode), 1
        return None, {}, cnt
    from . import kreplay, sweepnat
    if j[0] == "F":
        hit, cnt = sweepnat.search(j[1], model, seed, n)
        if hit is None:
            return None, {}, cnt
        return hit[1]["violated"], dict(routine=j[1], input=hit[0], outcome=hit[1], seed=seed, mode=mode), cnt
    k = BY_NAME[j[1]]
    case = runner.split_cases(k)[j[2]]
    hit, cnt = kreplay.search(j[1], case, model, seed, n, mode=mode, preload=sched_lib() if mode == props.RACE else None, reals=reals)
    if hit is None:
        return None, {}, cnt
    spec, o = hit
    spec = dict(spec, reals=o.get("reals", {}))
    return o["violated"], dict(kernel=j[1], case=job_name(j), input=spec, outcome=o, mode=mode), cnt


def known_findings(pid):
    """entries 'finding: property=<id> job=<job> obligation=<name> <text>'"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) job=(\S+) obligation=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out


def replays(failed, results, known, seed, mode, deadline):
    """look for failing inputs of the first failed obligations, small contracts first"""
    one = {}
    for j in failed:
        if not any(k[0] == job_name(j) and k[1] == results[j].name.replace(" ", "_") for k in known):
            one.setdefault((j[1], j[2]), j)
    todo = list(one.values())
    per = collections.Counter()
    pick = []
    for j in sorted(todo, key=lambda j: (j[0] != "L", todo.index(j))):
        if per[j[0], j[1]] < 3 and len(pick) < 16:
            per[j[0], j[1]] += 1
            pick.append(j)
    found = {}
    if not pick or time.time() > deadline - 100:
        return found
    start = time.time()
    end = min(deadline - 20, start + 240)
    pool = ProcessPoolExecutor(min(8, os.cpu_count() or 4))
    try:
        prebuild_native(pick, pool, mode)
        fs = {pool.submit(search, j, results[j].model, seed, 40, mode, results[j].reals): j for j in pick}
        left = set(fs)
        # one failing input is enough after a minute
        while left and time.time() < (min(end, start + 60) if any(t for t, _ in found.values()) else end):
            done, left = wait(left, timeout=2, return_when=FIRST_COMPLETED)
            for f in done:
                try:
                    found[fs[f]] = f.result()[:2]
                except (build.BuildError, OSError) as e:
                    found[fs[f]] = (None, {"native": str(e)[:500]})
    except (TimeoutError, BrokenProcessPool, build.BuildError, OSError):
        pass
    # none of the remaining searches is waited for
    for p in list((pool._processes or {}).values()):
        p.kill()
    pool.shutdown(wait=False, cancel_futures=True)
    return found


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = props.PROPS[pid]
    jobs = P.jobs()
    if not jobs:
        print(f"no obligations are generated for {pid}")
        return 2
    if tier == "thorough":
        os.environ["VERIF_DUAL"] = "1"
    build.scratch()
    workers = min(8, os.cpu_count() or 4)
    results = {}
    deadline = t0 + (BUDGET if tier == "quick" else 3000)

    def sweep(todo, tmo, limit):
        with ProcessPoolExecutor(workers) as pool:
            prebuild(todo, pool)
            fs = [pool.submit(execute, j, P.mode, tmo, limit) for j in todo]
            for f in as_completed(fs, timeout=max(10, deadline - time.time())):
                j, r = f.result()
                results[j] = r
    try:
        # long jobs first
        jobs.sort(key=lambda j: (not re.search(r"3d|_3|kji|adj_diag", j[1] + str(j[2])), j))
        sweep(jobs, 4000, 200)
        again = [j for j in jobs if results[j].status not in ("ok", "failed")]
        bad = any(r.status == "failed" and relevant(P.mode, r) for r in results.values())
        if again and not bad and time.time() - t0 < BUDGET / 3:
            sweep(again, 15000, 240)
    except build.BuildError as e:
        print(f"ERROR {pid}: the code under contract does not build: {e}")
        return 2
    except TimeoutError:
        print(f"ERROR {pid}: time budget exhausted")
        os._exit(2)
    except BrokenProcessPool:
        print(f"ERROR {pid}: a worker died")
        return 2
    ok = [j for j in jobs if results[j].status == "ok"]
    failed = [j for j in jobs if results[j].status == "failed" and relevant(P.mode, results[j])]
    blocked = [j for j in jobs if results[j].status == "failed" and not relevant(P.mode, results[j])]
    undec = [j for j in jobs if results[j].status not in ("ok", "failed")]
    # contracts on internals that a change removed: the rest still decides
    lost = [j for j in undec if lemma.NOT_STATED in results[j].detail]
    if lost and len(lost) * 2 < len(jobs):
        undec = [j for j in undec if j not in lost]
        for j in lost:
            print(f"NOT STATED {job_name(j)}: {lemma.NOT_STATED}")
    else:
        lost = []
    outdir = os.path.join(ROOT, "out", "replay")
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(outdir, f))
    nviol = 0
    known = known_findings(pid)
    lines = []
    # the contract's float instance repeats the double one: one report per contract
    seen = set()
    bounded = []
    unanswered = []
    found = replays(failed, results, known, seed, P.mode, deadline)
    for j in sorted(failed, key=lambda j: (j in found and found[j][0] is not None) is False):
        r = results[j]
        if (j[1], j[2]) in seen:
            continue
        seen.add((j[1], j[2]))
        kf = [k for k in known if k[0] == job_name(j) and k[1] == r.name.replace(" ", "_")]
        if kf:
            print(f"KNOWN-FINDING: property={pid} {kf[0][2]}")
            continue
        txt, info = None, {}
        nviol += 1
        if j in found:
            txt, info = found[j]
        path = os.path.join(outdir, f"{pid}-{nviol}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, job=list(j), name=job_name(j), obligation=r.name, verifier=r.detail,
                           counterexample=r.model, counterexample_scalars=r.reals, replayed=txt, replay=info), f, indent=1, default=str)
        if nviol <= 12:
            print(f"failed obligation: {job_name(j)}: {r.name}: {r.detail[:300]}")
            if txt:
                print(f"  replayed on the real code: {txt[:300]}")
            lines.append(f"VIOLATION property={pid} replay={path}" + ("" if txt else " no-failing-input-found"))
    # obligations without a verdict: bounded stand-in on the real code
    for j in blocked:
        results[j].detail = f"an obligation of another property fails: {results[j].name}: {results[j].detail}"
    undec += blocked
    if undec and not nviol:
        und = {}
        for j in undec:
            und.setdefault((j[0], j[1], j[2]), j)
        per = 60 if len(und) > 20 else 250
        try:
            todo = list(und.values())
            with ProcessPoolExecutor(workers) as pool:
                prebuild_native(todo, pool, P.mode)
                fs = {pool.submit(search, j, results[j].model if results[j].reals is not None else None, seed, per, P.mode, results[j].reals): j for j in todo}
                for f in as_completed(fs, timeout=max(10, deadline - time.time())):
                    j = fs[f]
                    try:
                        txt, info, cnt = f.result()
                    except Exception as e:
                        unanswered.append(j)
                        print(f"UNDECIDED {job_name(j)}: {results[j].detail[:300]}; bounded stand-in not available: {str(e)[:200]}")
                        continue
                    if txt is None:
                        if cnt == 0:
                            unanswered.append(j)
                            print(f"UNDECIDED {job_name(j)}: {results[j].detail[:300]}")
                        else:
                            bounded.append((j, cnt))
                            print(f"UNDECIDED {job_name(j)}: {results[j].detail[:300]}; bounded stand-in: {cnt} executions of the real code, no violation")
                    else:
                        nviol += 1
                        path = os.path.join(outdir, f"{pid}-{nviol}.json")
                        with open(path, "w") as h:
                            json.dump(dict(property=pid, job=list(j), name=job_name(j), obligation="undecided by the verifier",
                                           verifier=results[j].detail, replayed=txt, replay=info), h, indent=1, default=str)
                        print(f"contract {job_name(j)} is violated by the real code: {txt[:300]}")
                        lines.append(f"VIOLATION property={pid} replay={path}")
        except (build.BuildError, TimeoutError, BrokenProcessPool) as e:
            print(f"ERROR {pid}: no verdict on {len(undec)} of {len(jobs)} executions ({str(e)[:300]})")
            for j in undec[:5]:
                print(f"  {job_name(j)}: {results[j].detail[:400]}")
            if not nviol:
                return 2
    for l in lines[:12]:
        print(l)
    st = Stats()
    okst = Stats()
    for j in jobs:
        st.merge(results[j].stats)
        if results[j].status == "ok":
            okst.merge(results[j].stats)
    called = set()
    for j in jobs:
        called |= results[j].called
    ev = dict(
        property=pid, tier=tier, seed=seed,
        level="proof" if len(ok) == len(jobs) or nviol else "other",
        coverage=dict(
            obligations=st.n, discharged=okst.n,
            checker_cmd=f"python3-vt {ROOT}/check.py {pid} {tier}",
            trusted_base=SWEEPTRUST if P.sweeps else TRUSTED + [FTRUST],
            contracts=len(jobs), contracts_verified=len(ok),
            contracts_failed=len(failed), contracts_undecided=len(undec) - len(blocked), contracts_blocked=len(blocked),
            contracts_not_stated=[job_name(j) for j in lost],
            obligations_by_kind=st.kinds, queries_by_back_end=st.by,
            solver_time_s=round(st.solver_time, 2), solver_queries=st.queries,
            paths=sum(r.paths for r in results.values()),
            parallel_phases=sum(r.phases for r in results.values()),
            **(dict(routines_under_contract=sorted(called)) if P.sweeps else
               dict(ir_functions_executed=len(called), instructions_executed=sum(r.steps for r in results.values()))),
            both_back_ends=tier == "thorough",
            bounded_stand_ins=[dict(contract=job_name(j), executions=c) for j, c in bounded],
            samples=[job_name(j) for j in jobs[:5]],
            explanation="every obligation generated by symbolic execution of the extracted code was discharged"
            if len(ok) == len(jobs) else f"{len(jobs) - len(ok)} contracts were not verified on this run"),
        assumptions=SWEEPASSUME if P.sweeps else ASSUME, wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if nviol:
        return 1
    if unanswered:
        print(f"ERROR {pid}: no verdict on {len(unanswered)} of {len(jobs)} contracts")
        return 2
    print(f"{pid} {P.title}: {okst.n} obligations of {len(ok)} contracts discharged"
          + (f", {len(bounded)} contracts only tested (bounded)" if bounded else "") + f" in {time.time() - t0:.1f} s")
    return 0


def replay(path):
    d = json.load(open(path))
    j = tuple(d["job"])
    seed = d.get("replay", {}).get("seed", 1)
    build.scratch()
    txt, info, n = search(j, d.get("counterexample"), seed, 250, d.get("replay", {}).get("mode", props.PROPS[d["property"]].mode),
                          d.get("counterexample_scalars"))
    print(txt or "no failing input found")
    print(json.dumps(info, indent=1, default=str)[:4000])
    return 1 if txt else 0
