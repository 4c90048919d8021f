#!/usr/bin/env python3-vt
"""Driver: python3-vt engine/run.py <property> — verify all contracts of a property against /repo."""
import sys, os, json, time, subprocess, importlib, hashlib, shutil, tempfile, signal, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(VERIF, "specs"))
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "clang++"; OPT = "opt"
def errs(se):
    l = [x for x in se.split("\n") if "error" in x]
    return " | ".join(l[:3])[:600] or se[-600:]
INC = [f"-I{REPO}/src", f"-I{VERIF}/harness", "-I/usr/include/mkl"]
DEF = ["-Desint=int", "-D__ESMODE__=RELEASE", "-DHAVE_MKL=1", "-DESPRESO_USE_WRAPPER_DNBLAS_MKL=1", "-DESPRESO_USE_WRAPPER_DNSOLVER_MKL=1",
       "-DESPRESO_USE_WRAPPER_LAPACK_MKL=1", "-DESPRESO_USE_WRAPPER_SPBLAS_MKL=1", "-DESPRESO_USE_WRAPPER_SPSOLVER_MKL=1", "-DESPRESO_USE_WRAPPER_SCSOLVER_MKL=1"]

def sh(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True)
    return p.returncode, p.stdout, p.stderr

_mpi = None
def mpi_flags():
    global _mpi
    if _mpi is None:
        try: _mpi = subprocess.run(["mpic++", "--showme:compile"], capture_output=True, text=True).stdout.split()
        except Exception: _mpi = []
    return _mpi

def harness_opts(h):
    f, l, o = [], [], ""
    for line in open(os.path.join(VERIF, "harness", h)):
        if line.startswith("// CXXFLAGS:"): f += line.split(":", 1)[1].split()
        if line.startswith("// LDFLAGS:"): l += line.split(":", 1)[1].replace("$REPO", REPO).split()
        if line.startswith("// NOINLINE:"): o += " " + line.split(":", 1)[1].strip()
    return f, l, o.split()

def build_ir(h, out):
    """bitcode of the harness + /repo code it includes"""
    f, _, noin = harness_opts(h)
    src = os.path.join(VERIF, "harness", h)
    raw = out + ".raw.bc"
    rc, so, se = sh([CLANG, "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-Wno-everything", "-ffp-contract=off",
                     "-emit-llvm", "-c", src, "-o", raw, "-I" + os.path.join(VERIF, "harness", "clang")] + INC + DEF + mpi_flags() + f)
    if rc: raise RuntimeError("clang: " + errs(se))
    rc, so, se = sh(["llvm-nm-18" if shutil.which("llvm-nm-18") else "/usr/lib/llvm-18/bin/llvm-nm", "--defined-only", raw])
    api = [l.split()[-1] for l in so.splitlines() if l.split()[-1].startswith("v_")]
    force = [f"-force-attribute={n}:noinline" for n in noin]
    rc, so, se = sh([OPT, "-passes=forceattrs,internalize,globaldce,function(lower-expect,lowerinvoke,simplifycfg,sroa,early-cse),cgscc(inline),globaldce,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,sroa)",
                     "-internalize-public-api-list=" + ",".join(api), "-inline-threshold=2000", raw, "-o", out] + force)
    if rc: raise RuntimeError("opt: " + se[-1500:])
    os.remove(raw)

def build_native(h, out):
    f, l, _ = harness_opts(h)
    obj = out + ".o"
    rc, so, se = sh(["g++", "-std=c++17", "-O1", "-w", "-fPIC", "-fvisibility=hidden", "-ffunction-sections", "-DVERIF_NATIVE", "-c", os.path.join(VERIF, "harness", h), "-o", obj] + INC + DEF + mpi_flags() + f)
    if rc: raise RuntimeError("g++: " + errs(se))
    base = ["g++", "-shared", "-Wl,--gc-sections", obj, "-o", out]
    rc, so, se = sh(base + l)
    if rc: raise RuntimeError("ld: " + se[-1500:])
    # symbols of the project that the exercised functions never reach are stubbed
    rc, so, se = sh(["nm", "-D", "--undefined-only", out])
    und = [x.split()[-1] for x in so.splitlines() if "@" not in x.split()[-1] and x.split()[0] == "U"]
    und = [x for x in und if not x.startswith("_ITM") and x != "__gmon_start__"]
    if und:
        st = out + ".s"
        with open(st, "w") as fo:
            fo.write('.section .note.GNU-stack,"",@progbits\n.data\n.align 64\n')
            for x in und: fo.write(f".globl {x}\n{x}:\n.zero 4096\n")
        rc, so, se = sh(base[:4] + [st] + base[4:] + l)
        if rc: raise RuntimeError("ld: " + se[-1500:])

# ---------------------------------------------------------------- proof of one contract
def prove(con, bc, deadline, q=None):
    r = prove1(con, bc, deadline)
    if r['status'] != 'proved' and con.mode == 'smt' and any(k in t[1] for t in con.templates for k in 'in') and time.time() < deadline:
        # the compiler may count a loop from a neighbouring value: try the invariants shifted by one
        r2 = prove1(con, bc, deadline, shifts=True)
        r2['wall_s'] += r['wall_s']; r2['solver_s'] += r['solver_s']
        if r2['status'] == 'proved' or (r['status'] == 'failed' and r2['status'] != 'failed' and r2['reason'].startswith('solver')): return r2
    return r
def prove1(con, bc, deadline, shifts=False):
    import z3, llvmir, symex as S, dsl, poly
    t0 = time.time()
    np = con.opts.get('noproof') or (os.environ.get("VERIF_TIER", "quick") == 'quick' and con.opts.get('slow') and 'proof attempted in the thorough tier only: ' + con.opts['slow'])
    if np:
        return dict(name=con.name, fn=con.fn, status='undecided', reason=np, obligations=0, discharged=0, failed=[], unknown=[], assumptions=[], functions=[], solver_s=0, backends={}, loops={}, paths=0, wall_s=0)
    res = dict(name=con.name, fn=con.fn, status='proved', obligations=0, discharged=0, failed=[], unknown=[], assumptions=[], functions=[],
               solver_s=0.0, backends={}, loops={}, paths=0, reason="")
    try:
        poly.reset(); S.ATOMS.clear(); S.BOUNDS.clear()
        m = llvmir.Module(bc)
        if not m.has(con.fn): raise S.Unsupported("harness function missing")
        E = S.Engine(m, con.mode, dict(con.opts, deadline=deadline, shifts=shifts or con.opts.get('shifts')))
        c = dsl.Sym(E)
        E.ctxobj = c; E.templates = con.templates
        if con.handlers: con.handlers(E, c)
        con.pre(c)
        c.st0 = c.st.fork(); st = c.st
        # vacuity: the precondition must be satisfiable
        if con.mode == 'smt':
            r, _ = E.solve(st.pc, None, 20000)
            if r == 'unsat': raise S.Unsupported("precondition is contradictory")
        finals = E.run(st, con.fn, c.args)
        if not finals: raise S.Unsupported("no path returns")
        res['paths'] = len(finals)
        obls = E.obls
        reach = False
        for s in finals:
            if con.mode == 'smt' and not reach:
                reach = E.solve(s.pc, None, 5000)[0] != 'unsat'
            todo = [s]
            while todo:
                s = todo.pop()
                c.bind(s); c.extra_final = s
                mark = len(c.checks)
                try: con.post(c)
                except S.NeedSplit as e:
                    # the contract distinguishes a case the code did not: it must hold in both
                    del c.checks[mark:]
                    s2 = s.fork(); s.rc.append((e.c, True)); s2.rc.append((e.c, False))
                    todo += [s2, s]
                    if len(todo) > 200: raise S.Budget("case split")
        if con.mode == 'smt' and not reach: raise S.Unsupported("no reachable final state (vacuous)")
        if not c.checks: raise S.Unsupported("no obligations")
        t1 = time.time()
        def count(b, n=1): res['backends'][b] = res['backends'].get(b, 0) + n
        seen = set()
        allobs = [('smt', o.name, o.pc, o.goal) for o in obls] + c.checks
        for k in allobs:
            if k[0] == 'poly':
                res['obligations'] += 1
                if k[2]: res['discharged'] += 1; count('exact rational arithmetic')
                else: res['failed'].append(dict(name=k[1], detail=f"{str(k[3][0])[:400]}  !=  {str(k[3][1])[:400]}"))
                continue
            _, name, pc, goal = k
            g = z3.simplify(goal)
            key = (g.get_id(), len(pc), pc[-1].get_id() if pc else 0, pc[0].get_id() if pc else 0)
            if key in seen: continue
            seen.add(key)
            res['obligations'] += 1
            if z3.is_true(g): res['discharged'] += 1; count('simplifier'); continue
            if time.time() > deadline: res['unknown'].append(dict(name=name, detail="time budget")); continue
            ms = E.o['prove_ms']
            r, model = E.solve(pc, goal, min(ms, 5000))
            b = 'z3'
            if r == 'unknown':
                b = 'cvc5'; r2 = cvc5(E, pc, goal, ms / 1000)
                if r2 == 'unsat': r = 'unsat'
                elif r2 != 'sat' and ms > 5000:
                    b = 'z3'; r, model = E.solve(pc, goal, ms)
            if r == 'unsat': res['discharged'] += 1; count(b)
            elif r == 'sat':
                d = dict(name=name, detail=str(goal)[:500])
                d['model'] = model_inputs(c, E, pc, goal)
                res['failed'].append(d)
            else: res['unknown'].append(dict(name=name, detail=str(goal)[:300]))
            if len(res['failed']) > 20: break
        res['assumptions'] = sorted(E.assumptions)
        res['functions'] = sorted(E.called)
        res['loops'] = {str(k[1][0][-1])[:80] + f"#{k[1][1]}": v for k, v in E.loopinfo.items() if isinstance(k, tuple) and k[0] == 'inv'}
        res['solver_s'] = E.tq + (time.time() - t1 if con.mode == 'poly' else 0)
        if res['failed'] and con.mode == 'smt' and E.unkdrop:
            # an invariant was given up because the solver ran out of time: the failed obligation says nothing about the code
            res['status'] = 'undecided'; res['reason'] = "solver gave no answer for the loop invariants " + ", ".join(sorted(E.unkdrop)[:3])
        elif res['failed']: res['status'] = 'failed'
        elif res['unknown']: res['status'] = 'undecided'; res['reason'] = "solver gave no answer for: " + "; ".join(u['name'] for u in res['unknown'][:5])
        if not res['obligations']: res['status'] = 'undecided'; res['reason'] = 'no obligations'
    except (S.Unsupported, S.Budget, S.NeedInv) as e:
        res['status'] = 'undecided'; res['reason'] = f"{type(e).__name__}: {e}"
    except RecursionError:
        res['status'] = 'undecided'; res['reason'] = "recursion"
    except MemoryError:
        res['status'] = 'undecided'; res['reason'] = "memory"
    except Exception as e:
        res['status'] = 'undecided'; res['reason'] = f"{type(e).__name__}: {e} {traceback.format_exc()[-600:]}"
    res['wall_s'] = time.time() - t0
    return res

def model_inputs(c, E, pc, goal):
    """small concrete inputs from the solver's model"""
    import z3
    try:
        s = z3.Solver(); s.set("timeout", 4000)
        for p in list(E.background) + list(pc): s.add(p)
        s.add(z3.Not(goal))
        ints = [c.v[n] for n, k in c.order if k == 'int' and z3.is_expr(c.v[n])]
        s.push(); 
        for i in ints: s.add(i <= 6)
        if s.check() != z3.sat:
            s.pop()
            if s.check() != z3.sat: return None
        m = s.model(); out = {}
        for n, k in c.order:
            v = c.v[n]
            if k == 'int': out[n] = m.eval(v, model_completion=True).as_long()
            elif k == 'real':
                x = m.eval(v, model_completion=True); out[n] = float(x.as_fraction())
        for n, k in c.order:
            if k != 'arr': continue
            a = c.v[n]
            ln = a.n if isinstance(a.n, int) else m.eval(a.n, model_completion=True).as_long()
            if ln > 64: return out
            vals = []
            for i in range(ln):
                x = m.eval(a.old[i], model_completion=True)
                vals.append(x.as_long() if z3.is_int_value(x) else float(x.as_fraction()))
            out[n] = vals
        return out
    except Exception: return None

def cvc5(E, pc, goal, secs):
    import z3
    s = z3.Solver()
    for p in list(E.background) + list(pc): s.add(p)
    s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        t = time.time()
        p = subprocess.run(["cvc5", f"--tlimit={int(secs * 1000)}", "--lang=smt2", "-"], input=txt, capture_output=True, text=True, timeout=secs + 5)
        E.tq += time.time() - t; E.nq += 1
        o = p.stdout.strip().splitlines()
        return o[-1] if o else 'unknown'
    except Exception: return 'unknown'

# ---------------------------------------------------------------- concrete side
def conc_worker(con, so, seeds, presets, out, soft=60):
    """child: run the contract natively; report to file"""
    import ctypes, dsl
    lib = ctypes.CDLL(so)
    n = 0; rej = 0; samples = []
    f = open(out, "w", buffering=1)
    jobs = [(None, p) for p in presets] + [(s, None) for s in seeds]
    start = time.time()
    for seed, preset in jobs:
        if time.time() - start > soft: break
        c = dsl.Conc(seed if seed is not None else 0, con.tol, preset)
        try:
            con.pre(c)
        except dsl.Reject: rej += 1; continue
        except (IndexError, KeyError, ZeroDivisionError, OverflowError): rej += 1; continue
        f.write(json.dumps(dict(run=True, seed=seed, inputs=c.inputs)) + "\n")
        c.run(lib, con)
        f.write('{"ret": true}\n')
        try: con.post(c)
        except dsl.Reject: pass
        except (IndexError, ZeroDivisionError, OverflowError, ValueError) as e:
            c.fail.append(("contract evaluation", f"{type(e).__name__}: the result is not a valid value ({e})"))
        n += 1
        if c.fail:
            f.write(json.dumps(dict(fail=c.fail[:10], seed=seed, inputs=c.inputs)) + "\n"); break
    f.write(json.dumps(dict(done=True, n=n, rejected=rej)) + "\n")

def conc_search(con, so, seed0, count, presets=(), timeout=60, tmp="/tmp"):
    fd, out = tempfile.mkstemp(dir=tmp, suffix=".conc"); os.close(fd)
    p = mp.get_context("fork").Process(target=conc_worker, args=(con, so, range(seed0, seed0 + count), [x for x in presets if x], out, timeout))
    p.start(); p.join(timeout + 45)
    hung = p.is_alive()
    if hung: p.kill(); p.join()
    last = None; fail = None; done = None; n = 0; inside = False
    for line in open(out):
        try: d = json.loads(line)
        except Exception: continue
        if d.get("run"): last = d; n += 1; inside = True
        if d.get("ret"): inside = False
        if d.get("fail"): fail = d
        if d.get("done"): done = d
    os.remove(out)
    if fail is None and done is None and last is not None:
        if hung:
            if inside: fail = dict(fail=[["termination", f"the call did not return within {timeout + 45} s"]], seed=last["seed"], inputs=last["inputs"])
        elif inside and p.exitcode is not None and p.exitcode < 0:
            fail = dict(fail=[["memory safety", f"the call ended by signal {-p.exitcode}"]], seed=last["seed"], inputs=last["inputs"])
    return fail, (done or {}).get("n", n), last

# ---------------------------------------------------------------- property
def job(args):
    con, bc, dl = args
    return prove(con, bc, dl)

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    only = sys.argv[2] if len(sys.argv) > 2 else None
    t0 = time.time()
    mod = importlib.import_module(prop)
    cons = [c for c in mod.CONTRACTS if only is None or only in c.name]
    if tier == 'quick': cons = [c for c in cons if not c.opts.get('thorough')]
    budget = getattr(mod, "BUDGET", 420) if tier == 'quick' else 3000
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    try:
        rc = check(prop, mod, cons, tier, seed, tmp, t0, budget, jobs, only)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def check(prop, mod, cons, tier, seed, tmp, t0, budget, jobs, only):
    harn = sorted({c.harness for c in cons})
    from concurrent.futures import ThreadPoolExecutor
    bcs, sos, berr = {}, {}, {}
    def b1(h):
        o = os.path.join(tmp, h.replace("/", "_") + ".bc")
        try: build_ir(h, o); bcs[h] = o
        except Exception as e: berr[h] = "ir: " + str(e)
    def b2(h):
        o = os.path.join(tmp, h.replace("/", "_") + ".so")
        try: build_native(h, o); sos[h] = o
        except Exception as e: berr[h + "#native"] = "native: " + str(e)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda f: f[0](f[1]), [(b1, h) for h in harn] + [(b2, h) for h in harn if any(c.native for c in cons if c.harness == h)]))
    deadline = t0 + budget * 0.7
    results = {}
    todo = []
    for c in cons:
        if c.harness in bcs: todo.append(c)
        else: results[c.name] = dict(name=c.name, fn=c.fn, status='undecided', reason=berr.get(c.harness, "no ir"), obligations=0, discharged=0, failed=[], unknown=[], assumptions=[], functions=[], solver_s=0, backends={}, loops={}, paths=0, wall_s=0)
    # process pool with a hard limit per contract
    ctx = mp.get_context("fork")
    pend = sorted(todo, key=lambda c: -c.opts.get('cost', 1)); running = []
    def child(con, conn):
        import resource
        try: resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        except Exception: pass
        r = prove(con, bcs[con.harness], min(deadline, time.time() + con.opts.get('limit', 10**9)))
        conn.send(r); conn.close()
    blank = lambda c, why: dict(name=c.name, fn=c.fn, status='undecided', reason=why, obligations=0, discharged=0, failed=[], unknown=[], assumptions=[], functions=[], solver_s=0, backends={}, loops={}, paths=0, wall_s=0)
    while pend or running:
        while pend and len(running) < jobs:
            c = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(c, b)); p.start(); b.close()
            running.append((c, p, a, time.time()))
        nr = []
        for c, p, a, ts in running:
            if a.poll(0.01):
                try: results[c.name] = a.recv()
                except EOFError: results[c.name] = blank(c, "prover process died")
                p.join(5)
                if p.is_alive(): p.kill()
            elif not p.is_alive(): results[c.name] = blank(c, f"prover process died ({p.exitcode})")
            elif time.time() > deadline + 30: p.kill(); p.join(); results[c.name] = blank(c, "time limit")
            else: nr.append((c, p, a, ts))
        running = nr
    # native cross-check and counterexample search
    viol = []; bounded = []; natruns = 0; samples = []
    known = load_known(prop)
    def native(c):
        r = results[c.name]
        if not c.native or c.harness not in sos:
            return c, None, 0, None
        pres = [f.get('model') for f in r['failed'] if f.get('model')]
        want = 1 if c.opts.get('once') else 25 if r['status'] == 'proved' else c.search * (1 if tier == 'quick' else 10)
        if tier != 'quick' and r['status'] == 'proved' and not c.opts.get('once'): want = 200
        f, n, last = conc_search(c, sos[c.harness], seed * 1000003, want, pres, timeout=20 if r['status'] == 'proved' else 60, tmp=tmp)
        return c, f, n, last
    with ThreadPoolExecutor(jobs) as ex:
        nat = list(ex.map(native, cons))
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    kf = []
    for c, f, n, last in nat:
        natruns += n
        r = results[c.name]
        r['native_runs'] = n
        if last and len(samples) < 3: samples.append(dict(contract=c.name, inputs=trim(last['inputs'])))
        if f is not None or r['status'] == 'failed':
            k = match_known(known, c, f, r)
            if k: kf.append((k, c.name)); continue
            rp = os.path.join(VERIF, "replays", f"{prop}-{c.name.replace('/', '_').replace(' ', '_')}.json")
            json.dump(dict(property=prop, contract=c.name, harness=c.harness, function=c.fn, failing_input=f, failed_obligations=r['failed'][:10],
                           status=r['status'], reason=r['reason'], replay=f"VERIF_REPO={REPO} python3-vt engine/replay.py {rp}"), open(rp, "w"), indent=1, default=str)
            viol.append((c, rp, f))
        elif r['status'] == 'undecided': bounded.append((c, r))
    for c in cons:
        r = results[c.name]
        if os.environ.get("VERIF_VERBOSE"):
            print(f"  {r['status']:10s} {c.name:50s} obl={r['discharged']}/{r['obligations']} paths={r['paths']} solver={r['solver_s']:.1f}s wall={r['wall_s']:.1f}s nat={r.get('native_runs')} {r['reason'][:1500]}")
            for x in r['failed'][:3]: print("      FAILED", x['name'], x['detail'][:300], x.get('model'))
            for x in r['unknown'][:3]: print("      UNKNOWN", x['name'], x['detail'][:300])
    for k, v in berr.items(): print(f"note: {k}: {v[:600]}")
    grp = {}
    for c, r in bounded: grp.setdefault(r['reason'][:200], []).append((c.name, r.get('native_runs', 0)))
    for k, v in grp.items():
        print(f"note: {len(v)} contract(s) not decided by proof ({k}): " + ", ".join(f"{n} [bounded stand-in: {m} native executions satisfied it]" for n, m in v[:4]) + (" ..." if len(v) > 4 else ""))
    write_evidence(prop, mod, cons, results, tier, seed, t0, natruns, bounded, viol, samples, only)
    for k, n in sorted(set(kf)): print(f"KNOWN-FINDING: property={prop} {k['what']}")
    ok = sum(1 for r in results.values() if r['status'] == 'proved')
    print(f"{prop}: {ok}/{len(cons)} contracts proved, {sum(r['obligations'] for r in results.values())} obligations, {sum(r['discharged'] for r in results.values())} discharged, {natruns} native executions, {time.time() - t0:.0f} s")
    for c, rp, f in viol:
        names = f['fail'][0] if f else [x['name'] for x in results[c.name]['failed'][:3]]
        print(f"  {c.name}: {names}")
    if viol:
        withinput = [v for v in viol if v[2]]
        for c, rp, f in (withinput or viol):
            print(f"VIOLATION property={prop} replay={rp}" + ("" if f else " no-failing-input-found"))
        return 1
    if not ok and not any(r.get('native_runs') for r in results.values()):
        print("error: nothing was checked"); return 2
    return 0

def trim(x):
    s = json.dumps(x, default=str)
    return x if len(s) < 600 else s[:600] + "..."

def load_known(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    if not os.path.exists(p): return []
    r = []
    for l in open(p):
        l = l.strip()
        if not l or l.startswith("fixed:") or l.startswith("#"): continue
        d = json.loads(l)
        if d.get("property") == prop: r.append(d)
    return r
def match_known(known, c, f, r):
    for k in known:
        if k.get("contract") == c.name:
            names = {x['name'] for x in r['failed']} | ({x[0] for x in f['fail']} if f else set())
            if names and names <= set(k.get("obligations", [])): return k
    return None

def demangle(names):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
        return p.stdout.splitlines()
    except Exception: return names

def write_evidence(prop, mod, cons, results, tier, seed, t0, natruns, bounded, viol, samples, only):
    if only: return
    fns = set(); be = {}; asm = set(getattr(mod, "ASSUMPTIONS", []))
    for r in results.values():
        fns.update(r['functions'])
        for k, v in r['backends'].items(): be[k] = be.get(k, 0) + v
        asm.update(r['assumptions'])
    under = sorted({u for c in cons for u in c.under})
    total = sum(r['obligations'] for r in results.values()); dis = sum(r['discharged'] for r in results.values())
    pro = [r for r in results.values() if r['status'] == 'proved']
    lvl = getattr(mod, "LEVEL", "proof")
    ev = dict(property=prop, tier=tier, seed=seed, level=lvl, wall_s=round(time.time() - t0, 2), violations=len(viol),
              assumptions=sorted(asm | COMMON),
              coverage=dict(obligations=total, discharged=dis, checker_cmd=f"python3-vt engine/run.py {prop}", trusted_base=TRUSTED,
                            contracts=len(cons), contracts_proved=len(pro), functions_under_contract=under,
                            functions_executed_symbolically=[x[:160] for x in demangle(sorted(fns))][:400], backends=be,
                            solver_s=round(sum(r['solver_s'] for r in results.values()), 2),
                            loop_invariants={r['name']: r['loops'] for r in results.values() if r['loops']},
                            bounded=[dict(contract=c.name, reason=r['reason'][:300], native_executions=r.get('native_runs', 0), bound=c.bounded or "generated inputs only; not counted as proved") for c, r in bounded],
                            native_cross_check_executions=natruns, samples=samples,
                            per_contract=[dict(name=r['name'], status=r['status'], obligations=r['obligations'], discharged=r['discharged'], paths=r['paths'], wall_s=round(r['wall_s'], 2)) for r in results.values()]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
COMMON = {"clang 18 and the listed opt passes translate the C++ source to LLVM IR faithfully", "double arithmetic is treated as exact real arithmetic",
          "OpenMP pragmas are not enabled in the verified translation (sequential semantics of each function)", "partial correctness: termination is not proved",
          "C++ exceptions and allocation failures are not modelled (paths that throw are cut)"}
TRUSTED = ["clang 18 front end and opt (sroa, inline, instcombine, simplifycfg)", "engine/ (VC generator and exact rational arithmetic, this repository)", "z3", "cvc5 (fallback)"]

if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":     # the same order of sets, and so the same solver queries, in every run
        os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)
    main()
