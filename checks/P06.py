"""P06 memory safety and defined behaviour: real runs under AddressSanitizer + UndefinedBehaviorSanitizer + per-dimension
bounds checks of every array access, and under valgrind memcheck for uninitialised data."""
import sys, os, re, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from configs import *

ASAN = dict(ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=0",
            UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77")
OUTPUTS = [dict(hdf5_enabled=True), dict(hdf5_enabled=True, ghostIncluded=True, allghostIncluded=True), dict(hdf5_enabled=True, hdf5_compression_level=3),
           dict(vtk_enabled=True, outputVtkAscii=True), dict(vtk_enabled=True, outputVtkAscii=False), dict(vtk_enabled=True, hdf5_enabled=True)]


def shape6(rng, dim, N, big=False):
    """grids of every shape down to a single cell per direction"""
    hi = (4 if dim == 2 else 3) if N else (9 if dim == 2 else 6)
    n = [int(x) for x in rng.integers(1, hi + 1, dim)]
    if big: n[int(rng.integers(dim))] = int(rng.integers(12, 24)) if rng.random() < 0.5 else int(rng.integers(65, 135)) if not N else int(rng.integers(20, 40))
    return n


def site(out):
    f = re.findall(r"#\d+ \S+ in (.*?) (?:/\S*/)?([\w\.]+):(\d+)", out) or re.findall(r"(?:at|by) 0x\w+: (.*?) \(([\w\.]+):(\d+)\)", out)
    own = [x for x in f if not re.search(r"Kokkos_|kokkos|^hx|vg_replace|s_f|e_sqrt|stl_|basic_|new_allocator|std_|ostream", x[1])]
    x = (own or f or [("?", "?", "0")])[0]
    return "%s:%s" % (x[1], x[2])


def judge(ctx, c, tool):
    if c.rc == "skipped": return
    out = c.out or ""
    I = c.info
    bad = None
    if tool == "asan":
        m = re.search(r"(ERROR: AddressSanitizer: .*|runtime error: .*|View bounds error.*|.*Kokkos::abort.*|.*Kokkos::View ERROR.*)", out)
        if m: bad = m.group(1)
    else:
        m = re.search(r"== ((?:Conditional jump|Use of uninit|Invalid |Syscall param|Source and dest|Mismatched free|Argument).*)", out)
        if m: bad = m.group(1)
    if bad:
        i = out.find(bad)
        u = re.search(r"([\w\.]+):(\d+):\d+: runtime error", out)
        s = "%s:%s" % u.groups() if u else site(out[i:])
        kind = re.sub(r"0x\w+|\d+", "#", bad)[:60]
        ctx.violation("%s:%s:%s:%s" % (tool, s.split(":")[0], kind.split(" on ")[0][:40].strip(), I["cls"]), "%s at %s (%s, grid %s): %s" % (bad[:300], s, I["cls"], I["n"], out[max(0, i - 200):i + 1500]), c, out[:20000])
    elif c.rc != 0:
        ctx.violation("%s-failed:%s" % (tool, I["cls"]), "the run under the sanitizer ended with %s (%s, grid %s): %s" % (c.rc, I["cls"], I["n"], out[-1200:]), c)
    elif c.script and (c.rec is None or not all(r.complete for r in (c.rec if isinstance(c.rec, list) else [c.rec]))):
        ctx.violation("%s-incomplete:%s" % (tool, I["cls"]), "the recording is incomplete: %s" % out[-500:], c)
    ctx.observe((tool, I["cls"], tuple(I["n"]), tuple(I["bc"]), I.get("out")))
    ctx.stats["runs under " + tool] = ctx.stats.get("runs under " + tool, 0) + 1


def output_opts(rng, k):
    o = dict(OUTPUTS[k % len(OUTPUTS)])
    return o


def make(ctx, rng, sdm_kinds, reps, env, mpi=False, steps=2, tiny=False, tag=""):
    cases = []
    for gi, (solver, N, impl, what) in enumerate(schedule(sdm_kinds, rng, *reps)):
        dim = 3 if "3D" in solver else 2
        m = (1, 1, 1)
        if mpi: m = [(2, 1, 1), (1, 2, 1), (2, 2, 1), (1, 1, 1)][gi % 4] if dim == 2 else [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 1, 2), (1, 1, 1)][gi % 5]
        loc = shape6(rng, dim, N, big=not tiny and gi % 7 == 3)
        if mpi: loc = [max(x, min_size(solver, N)) for x in loc]
        n = [loc[d] * m[d] for d in range(dim)]
        ini, head, arrays, info = config(rng, solver, N, impl, what, n, kh_rand=True)
        i = ini(loc, m if mpi else None)
        script = head + ["dump i", "step %d" % steps, "dumpfull f"]
        info["out"] = None
        if gi % 3 == 0 or what == "inject" and gi % 2:
            i["output"].update({k: v for k, v in output_opts(rng, gi // 3).items()}); info["out"] = gi // 3 % len(OUTPUTS)
            script.append("save")
        cases.append(Case("%s%d" % (tag, gi), i, script, arrays, np_=int(np.prod(m)), info=info, env=env, timeout=120))
    return cases


def programs(ctx, rng, build, env, mpi=False):
    """the real program from start to end with periodic output, then a restart from the middle"""
    cases = []
    for gi in range(ctx.pick(24, 120) if not mpi else ctx.pick(8, 40)):
        solver = MUSCL[gi % 4]; dim = dim_of(solver); impl = impls(solver)[gi // 4 % len(impls(solver))]
        what = PROB[solver][int(rng.integers(len(PROB[solver])))]
        m = (1, 1, 1)
        if mpi: m = [(2, 1, 1), (1, 2, 1), (1, 1, 1)][gi % 3]
        loc = [int(x) for x in rng.integers(min_size(solver, None), 9 if dim == 2 else 6, dim)]
        n = [loc[d] * m[d] for d in range(dim)]
        ini, head, arrays, info = config(rng, solver, None, impl, what, n)
        i = ini(loc, m if mpi else None)
        i["run"].update(tEnd=float(0.01), nStepmax=6, nOutput=-2 if gi % 2 else 3, nlog=2, noutput=2)
        i["run"]["nOutput"] = [2, -1, 3][gi % 3]
        i["output"].update(OUTPUTS[gi % len(OUTPUTS)]); i["output"].setdefault("hdf5_enabled", True)
        info["out"] = gi % len(OUTPUTS); info["cls"] = "program:" + info["cls"]
        c = Case("p%d" % gi, i, [], {}, np_=int(np.prod(m)), info=info, env=env, exe=build.exe["main"], timeout=120)
        cases.append(c)
    return cases


def restarts(ctx, rng, build, cases, mpi=False):
    out = []
    for gi, c in enumerate(cases):
        if c.rc != 0 or not os.path.isdir(c.dir or ""): continue
        f = sorted(x for x in os.listdir(c.dir) if x.endswith(".h5"))
        if not f: continue
        i = {k: dict(v) for k, v in c.ini.items()}
        src = os.path.join(c.dir, f[len(f) // 2])
        i["run"].update(restart_enabled=1, restart_filename=os.path.basename(src), nStepmax=3)
        info = dict(c.info); info["cls"] = info["cls"].replace("program:", "restart:")
        if i["output"].get("allghostIncluded") and gi % 2 == 0:
            i["run"]["restart_upscale"] = True
            d = info["dim"]
            for k in "xyz"[:d]: i["mesh"]["n" + k] = 2 * i["mesh"]["n" + k]
            info["cls"] += ":upscale"
        r = Case(c.name + "r", i, [], {}, np_=c.np, info=info, env=c.env, exe=build.exe["main"], timeout=120)
        r.prep = (lambda s: lambda q: __import__("shutil").copy(s, q.dir))(src)
        out.append(r)
    ctx.run_plain(out, mpi=mpi, after=lambda c: judge(ctx, c, "asan"))
    ctx.stats["sanitized restarts"] = ctx.stats.get("sanitized restarts", 0) + sum("estart" in (c.out or "") for c in out)
    ctx.sample(out[0].out[-300:] if out else "no restart")


def run(ctx):
    rng = ctx.rng
    ctx.rule = ("AddressSanitizer, UndefinedBehaviorSanitizer (with float-cast-overflow) and Kokkos per-dimension bounds checks report nothing in any run; "
                "valgrind memcheck reports no invalid access and no uninitialised value reaching a branch, an address, a system call or the recorded state")
    ctx.assumptions = ["Memory leaks are not memory errors in the sense of the statement", "The PNETCDF and CUDA parts are not built here"]
    k2 = [(2, n) for n in range(1, 7)]; k3 = [(3, n) for n in (2, 3, 4)]
    kinds = SDM_KINDS if not ctx.quick else [k2[int(rng.integers(1, 4))], k3[int(rng.integers(0, 2))]]
    fl = ("-DKOKKOS_ENABLE_DEBUG_BOUNDS_CHECK", "-fsanitize=float-cast-overflow", "-fno-sanitize=null,vptr,alignment,object-size")
    b = Build(ctx, mains=("hx", "main"), sdm=True, sdm_kinds=kinds, san="asan", defs=fl, opt="-O0")
    cs = make(ctx, rng, kinds, ctx.pick((24, 10, 14, 8, 8), (120, 40, 60, 20, 30)), ASAN, tag="a")
    for dim, N in kinds:  # viscous terms of the spectral-difference solvers
        n = shape6(rng, dim, N)
        ini, head, arrays, info = config(rng, sdm_name(dim, N), N, 0, "gresho_vortex", n)
        i = ini(n); i["hydro"]["mu"] = 0.01; info["cls"] = "viscous:SDM%dD" % dim
        cs.append(Case("visc%d%d" % (dim, N), i, head + ["step 2"], arrays, info=info, env=ASAN))
    ctx.run(cs, b, check_rc=False, after=lambda c: judge(ctx, c, "asan"))
    ctx.note("sanitized runs")
    ps = programs(ctx, rng, b, ASAN)
    ctx.run_plain(ps, after=lambda c: judge(ctx, c, "asan"), keep=True)
    restarts(ctx, rng, b, ps)
    ctx.note("sanitized programs and restarts")
    bv = Build(ctx, mains=("hx", "main"), sdm=True, sdm_kinds=kinds, opt="-O1", defs=("-g1",))
    wrap = os.path.join(ctx.tmp, "vg"); wraps = {}
    for k in ("hx", "main"):
        wraps[k] = wrap + k
        with open(wraps[k], "w") as f:
            f.write('#!/bin/sh\nexec valgrind -q --error-exitcode=78 --track-origins=no --num-callers=24 --undef-value-errors=yes --suppressions=%s %s "$@"\n' % (os.path.join(VERIF, "harness", "vg.supp"), bv.exe[k]))
        os.chmod(wraps[k], 0o755)
    vs = make(ctx, rng, kinds, ctx.pick((2, 1, 4, 1, 1), (12, 4, 16, 4, 4)), {}, tiny=True, tag="v")
    for c in vs: c.exe = wraps["hx"]
    ctx.run(vs, bv, check_rc=False, after=lambda c: judge(ctx, c, "memcheck"))
    ps = programs(ctx, rng, bv, {})[:ctx.pick(12, 60)]
    for c in ps: c.exe = wraps["main"]
    ctx.run_plain(ps, after=lambda c: judge(ctx, c, "memcheck"), keep=True)
    ctx.note("memcheck runs")
    bm = Build(ctx, mains=("hx", "main"), mpi=True, sdm=True, sdm_kinds=kinds[:1] if ctx.quick else kinds, san="asan", defs=fl, opt="-O0")
    cm = make(ctx, rng, kinds[:1] if ctx.quick else kinds, ctx.pick((2, 1, 6, 1, 1), (16, 6, 20, 4, 4)), ASAN, mpi=True, tag="m")
    ctx.run(cm, bm, mpi=True, check_rc=False, after=lambda c: judge(ctx, c, "asan"))
    pm = programs(ctx, rng, bm, ASAN, mpi=True)
    ctx.run_plain(pm, mpi=True, after=lambda c: judge(ctx, c, "asan"), keep=True)
    ctx.note("sanitized MPI runs")


if __name__ == "__main__":
    main("P06", run)
