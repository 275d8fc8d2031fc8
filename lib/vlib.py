"""Common machinery of the checks: build /repo's working tree, run recorded executions, report.

Everything is bounded by case count; wall clock is only a watchdog.
"""
import atexit, concurrent.futures as cf, fnmatch, hashlib, json, os, shutil, subprocess, sys, tempfile, time, traceback
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PPK_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
NCPU = min(8, os.cpu_count() or 8)
LIBDIR = "/usr/lib/x86_64-linux-gnu"

SDM_KINDS = [(2, n) for n in range(1, 7)] + [(3, n) for n in (2, 3, 4)]


class CheckError(Exception):
    """The check itself could not be carried out (exit code 2)."""


# --------------------------------------------------------------------------------------------
# build
# --------------------------------------------------------------------------------------------
def _tree_hash():
    h = hashlib.sha1()
    for root, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(p.encode()); h.update(open(p, "rb").read())
    for f in sorted(os.listdir(HARN)):
        p = os.path.join(HARN, f)
        if os.path.isfile(p):
            h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def _version_header(dst):
    src = open(os.path.join(REPO, "src/ppkMHD_version.h.in")).read()
    import re
    with open(os.path.join(dst, "ppkMHD_version.h"), "w") as f:
        f.write(re.sub(r"@\w+@", "x", src))


def repo_sources(mpi, sdm):
    skip = {"INIReaderTest.cpp", "PapiInfo.cpp", "CudaTimer.cpp", "mpi_env.cpp"}
    out = []
    dirs = ["shared", "muscl", "utils/config", "utils/config/inih", "utils/io", "utils/monitoring"]
    if sdm: dirs.append("sdm")
    if mpi: dirs.append("utils/mpiUtils")
    for d in dirs:
        full = os.path.join(REPO, "src", d)
        for f in sorted(os.listdir(full)):
            if not f.endswith(".cpp") or f in skip or "PNETCDF" in f or "Cuda" in f: continue
            if not sdm and "SDM" in f: continue
            out.append(os.path.join(full, f))
    return out


class Build:
    """An executable made from /repo's current sources.

    flavour: mpi, sdm booleans; san in (None,'asan','tsan'); extra defines; main = harness file or
    'main' (the real program)."""

    def __init__(self, ctx, mains=("hx",), mpi=False, sdm=False, sdm_kinds=None, opt="-O2", san=None, defs=(), link=(),
                 only_sources=None, tag=""):
        self.mpi, self.sdm = mpi, sdm
        self.exe = {}
        kinds = list(sdm_kinds if sdm_kinds is not None else SDM_KINDS) if sdm else []
        flags = ["-std=c++17", opt, "-DNDEBUG", "-DKOKKOS_DEPENDENCE", "-DUSE_HDF5", "-DUSE_DOUBLE", "-fopenmp", "-w"]
        if san == "asan":
            flags += ["-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
        if san == "tsan":
            flags += ["-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"]
        flags += list(defs)
        if sdm: flags += ["-DUSE_SDM", "-DHX_SDM"]
        if mpi:
            flags += ["-DUSE_MPI", "-DUSE_HDF5_PARALLEL", "-DMPI_CUDA_AWARE_OFF", "-I/usr/include/hdf5/openmpi",
                      "-isystem", LIBDIR + "/openmpi/include", "-isystem", LIBDIR + "/openmpi/include/openmpi"]
        else:
            flags += ["-I/usr/include/hdf5/serial"]
        S = os.path.join(REPO, "src")
        key = hashlib.sha1((_tree_hash() + repr((flags, sorted(mains), kinds, only_sources, link, tag))).encode()).hexdigest()[:16]
        cache = os.environ.get("VERIF_CACHE")
        self.dir = os.path.join(cache, key) if cache else os.path.join(ctx.tmp, "build_" + key)
        done = os.path.join(self.dir, "done")
        t0 = time.time()
        if not os.path.exists(done):
            os.makedirs(self.dir, exist_ok=True)
            gen = os.path.join(self.dir, "gen"); os.makedirs(gen, exist_ok=True)
            _version_header(gen)
            flags += ["-I" + gen, "-I" + S, "-I" + S + "/muscl", "-I" + S + "/utils", "-I" + S + "/utils/config/inih", "-I" + REPO, "-I" + HARN]
            if mpi: flags += ["-I" + S + "/utils/mpiUtils"]
            jobs = []
            inc = []
            if sdm:
                ext = os.path.join(gen, "sdm_extern.h")
                with open(ext, "w") as f:
                    f.write('#pragma once\n#include "sdm/SolverHydroSDM.h"\n')
                    for d, n in kinds: f.write("extern template class ppkMHD::sdm::SolverHydroSDM<%d,%d>;\n" % (d, n))
                inc = ["-include", ext]
                with open(os.path.join(gen, "hx_extra.h"), "w") as f:
                    f.write("static bool hx_extra(SolverBase* b, const std::string& l, FILE* o) { return " + " || ".join("sdx::run<%d,%d>(b,l,o)" % k for k in kinds) + "; }\n")
                for d, n in sorted(kinds, key=lambda q: -q[0]):
                    p = os.path.join(gen, "sdm_%d_%d.cpp" % (d, n))
                    with open(p, "w") as f:
                        f.write('#include "sdm/SolverHydroSDM.h"\ntemplate class ppkMHD::sdm::SolverHydroSDM<%d,%d>;\n' % (d, n))
                        if "sd" in mains: f.write('#include "sd_inst.h"\ntemplate bool sdx::run<%d,%d>(SolverBase*, const std::string&, FILE*);\n' % (d, n))
                    jobs.append((p, [], True))
            srcs = only_sources if only_sources is not None else repo_sources(mpi, sdm)
            srcs = sorted(srcs, key=lambda p: (0 if "MHDMuscl" in p else 1 if "HydroMuscl" in p else 2, p))
            for p in srcs:
                jobs.append((p, inc if p.endswith("SolverFactory.cpp") else [], True))
            for m in mains:
                p = os.path.join(S, "main.cpp") if m == "main" else os.path.join(HARN, m + ".cpp")
                jobs.append((p, inc if m in ("hx", "hxg", "sd") else [], False))
            objs, mobj = [], {}

            def comp(j):
                p, fl, _ = j
                o = os.path.join(self.dir, os.path.basename(os.path.dirname(p)) + "_" + os.path.basename(p) + ".o")
                r = subprocess.run(["g++"] + flags + fl + ["-c", p, "-o", o], capture_output=True, text=True)
                if r.returncode: raise CheckError("compile failed: %s\n%s" % (p, r.stderr[-3000:]))
                return o
            with cf.ThreadPoolExecutor(NCPU) as ex:
                res = list(ex.map(comp, jobs))
            for (p, fl, islib), o in zip(jobs, res):
                if islib: objs.append(o)
                else: mobj[p] = o
            for m in mains:
                p = os.path.join(S, "main.cpp") if m == "main" else os.path.join(HARN, m + ".cpp")
                h5 = LIBDIR + "/hdf5/" + ("openmpi" if mpi else "serial") + "/libhdf5.so"
                ld = ["g++"] + [f for f in flags if f.startswith("-f")] + [mobj[p]] + objs + ["-o", os.path.join(self.dir, m)] + list(link) + [
                    LIBDIR + "/libkokkoscontainers.so", LIBDIR + "/libkokkoscore.so", h5]
                if mpi: ld += [LIBDIR + "/openmpi/lib/libmpi_cxx.so", LIBDIR + "/openmpi/lib/libmpi.so"]
                ld += ["-ldl", "-lm", "-lpthread"]
                r = subprocess.run(ld, capture_output=True, text=True)
                if r.returncode: raise CheckError("link failed: %s\n%s" % (m, r.stderr[-3000:]))
            open(done, "w").close()
        for m in mains: self.exe[m] = os.path.join(self.dir, m)
        self.build_s = time.time() - t0
        ctx.note("build %s mpi=%d sdm=%d san=%s: %.1fs" % (",".join(mains), mpi, sdm, san, self.build_s))


MPI_ENV = {
    "OMP_PROC_BIND": "false", "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_oob_tcp_if_include": "lo",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none", "OMPI_MCA_plm_rsh_agent": "/bin/false",
    "HDF5_USE_FILE_LOCKING": "FALSE", "OMPI_MCA_fbtl_posix_write_datasieving": "0", "OMPI_MCA_mpi_yield_when_idle": "1"}


# --------------------------------------------------------------------------------------------
# recordings
# --------------------------------------------------------------------------------------------
def _kv(line):
    return dict(x.split("=", 1) for x in line.split()[1:])


class Rec:
    """Parsed recording of one process."""

    def __init__(self, path):
        self.states, self.metas, self.geom, self.mpi, self.gomp, self.complete = [], [], None, None, None, False
        with open(path, "rb") as f:
            while True:
                line = f.readline()
                if not line: break
                line = line.decode(errors="replace").strip()
                k = line.split(" ", 1)[0]
                if k == "state":
                    d = _kv(line)
                    sh = tuple(int(x) for x in d["shape"].split(","))
                    n = int(np.prod(sh))
                    raw = f.read(8 * n)
                    if len(raw) != 8 * n: break
                    a = np.frombuffer(raw, dtype=np.float64)
                    self.states.append(dict(tag=d["tag"], it=int(d["it"]), t=float.fromhex(d["t"]), dt=float.fromhex(d["dt"]),
                                            U=a.reshape(sh), off=[int(x) for x in d["off"].split(",")],
                                            tot=[int(x) for x in d["tot"].split(",")], full=int(d["full"]), gw=int(d["gw"]), dim=int(d["dim"])))
                elif k == "meta":
                    d = _kv(line)
                    self.metas.append(dict(it=int(d["it"]), t=float.fromhex(d["t"]), dt=float.fromhex(d["dt"]), fin=int(d["fin"]),
                                           saved=int(d["saved"]), tend=float.fromhex(d["tend"])))
                elif k == "geom":
                    d = _kv(line); self.geom = {a: float.fromhex(b) if a != "nbvar" else int(b) for a, b in d.items()}
                elif k == "mpi":
                    d = _kv(line); self.mpi = {a: [int(x) for x in b.split(",")] if "," in b else int(b) for a, b in d.items()}
                elif k == "gomp":
                    self.gomp = {a: int(b) for a, b in _kv(line).items()}
                elif k == "end":
                    self.complete = True


def assemble(recs, idx=None, tag=None):
    """Global interior arrays of a list of per-rank recordings, one per common state index."""
    n = min(len(r.states) for r in recs)
    out = []
    for s in range(n):
        st = [r.states[s] for r in recs]
        if st[0]["full"]:
            out.append(None); continue
        G = np.full(tuple(st[0]["tot"]) + (st[0]["U"].shape[3],), np.nan)
        for q in st:
            o, sh = q["off"], q["U"].shape
            G[o[0]:o[0] + sh[0], o[1]:o[1] + sh[1], o[2]:o[2] + sh[2]] = q["U"]
        d = dict(st[0]); d["U"] = G; d["dts"] = [q["dt"] for q in st]; d["ts"] = [q["t"] for q in st]
        out.append(d)
    return out


def write_ini(path, ini):
    with open(path, "w") as f:
        for s, kv in ini.items():
            f.write("[%s]\n" % s)
            for k, v in kv.items():
                if isinstance(v, bool): v = "true" if v else "false"
                elif isinstance(v, (float, np.floating)): v = "%.17g" % v
                f.write("%s=%s\n" % (k, v))
            f.write("\n")


class Case:
    """One recorded execution of the harness hx."""

    def __init__(self, name, ini, script, arrays=None, np_=1, exe=None, env=None, info=None, threads=1, timeout=200):
        self.name, self.ini, self.script, self.arrays, self.np, self.exe = name, ini, script, arrays or {}, np_, exe
        self.env, self.info, self.threads, self.timeout = env or {}, info or {}, threads, timeout
        self.rec = None; self.rc = None; self.out = ""; self.dir = None


def solver_ini(solver, n, L=None, bc=None, problem="implode", hydro=None, other=None, run=None, extra=None, mpi=None):
    dim = 3 if "3D" in solver else 2
    n = list(n) + [1] * (3 - len(n))
    if L is None: L = [(0.0, 1.0)] * 3
    L = list(L) + [(0.0, 1.0)] * (3 - len(L))
    bc = bc or [3] * 6
    ini = {"run": dict(solver_name=solver, tEnd=1e10, nStepmax=1000000, nOutput=0, nlog=1000000),
           "mesh": dict(nx=n[0], ny=n[1], nz=n[2], xmin=L[0][0], xmax=L[0][1], ymin=L[1][0], ymax=L[1][1], zmin=L[2][0], zmax=L[2][1],
                        boundary_type_xmin=bc[0], boundary_type_xmax=bc[1], boundary_type_ymin=bc[2], boundary_type_ymax=bc[3],
                        boundary_type_zmin=bc[4], boundary_type_zmax=bc[5]),
           "hydro": dict(problem=problem, gamma0=1.4, cfl=0.4, niter_riemann=10, iorder=2, slope_type=2, riemann="hllc" if "Hydro" in solver else "hlld",
                         smallr=1e-10, smallc=1e-10),
           "OTHER": dict(implementationVersion=0),
           "output": dict(vtk_enabled="false", hdf5_enabled="false", outputPrefix="out", outputDir="./")}
    if run: ini["run"].update(run)
    if hydro: ini["hydro"].update(hydro)
    if other: ini["OTHER"].update(other)
    if mpi: ini["mpi"] = dict(mx=mpi[0], my=mpi[1], mz=mpi[2])
    for k, v in (extra or {}).items():
        ini.setdefault(k, {}).update(v)
    return ini


# --------------------------------------------------------------------------------------------
# check context
# --------------------------------------------------------------------------------------------
class Ctx:
    def __init__(self, prop, demo=False):
        self.prop = prop
        evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
        self.tier = sys.argv[1] if len(sys.argv) > 1 else os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = np.random.default_rng([self.seed, int(hashlib.sha1(prop.encode()).hexdigest()[:8], 16)])
        self.tmp = tempfile.mkdtemp(prefix="ppkchk_%s_" % prop)
        atexit.register(lambda: shutil.rmtree(self.tmp, ignore_errors=True))
        self.t0 = time.time()
        self.evals = 0; self.hangs = 0
        self.distinct = set()
        self.samples = []
        self.stats = {}
        self.viol = []
        self.known_hits = set()
        self.notes = []
        self.assumptions = []
        self.rule = ""
        if demo: evdir = self.tmp
        self.evdir = evdir
        self.replay_dir = os.path.join(evdir, "replay", prop)
        shutil.rmtree(self.replay_dir, ignore_errors=True)
        kf = os.path.join(VERIF, "known-findings.json")
        self.known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop] if os.path.exists(kf) else []

    quick = property(lambda self: self.tier == "quick")

    def pick(self, q, t):
        return q if self.tier == "quick" else t

    def note(self, m):
        self.notes.append(m); print("[%6.1fs] %s" % (time.time() - self.t0, m), flush=True)

    def observe(self, key, n=1):
        """count one evaluation of the oracle; key = what distinguishes this observation"""
        self.evals += n; self.distinct.add(key)

    def stat_max(self, k, v):
        v = float(v)
        if v == v: self.stats[k] = max(self.stats.get(k, 0.0), v)

    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(str(s))

    def violation(self, key, msg, case=None, extra=None):
        for k in self.known:
            if fnmatch.fnmatchcase(key, k["key"]):
                self.known_hits.add(k["key"]); return
        if any(v["key"] == key for v in self.viol):
            return
        rp = os.path.join(self.replay_dir, "%02d" % len(self.viol))
        if len(self.viol) < 20:
            os.makedirs(rp, exist_ok=True)
            with open(os.path.join(rp, "violation.txt"), "w") as f:
                f.write("property=%s\nkey=%s\nseed=%d tier=%s\n%s\n" % (self.prop, key, self.seed, self.tier, msg))
                if case is not None:
                    f.write("case=%s np=%d threads=%d info=%s\nrun: hx case.ini script.txt out.bin (build: /verif/lib/vlib.py Build)\n%s\n" % (case.name, case.np, case.threads, case.info, (case.out or "")[-4000:]))
            if case is not None:
                try:
                    write_ini(os.path.join(rp, "case.ini"), case.ini)
                    open(os.path.join(rp, "script.txt"), "w").write("\n".join(case.script) + "\n")
                    for n, a in case.arrays.items():
                        if a.size < 200000: np.ascontiguousarray(a, dtype=np.float64).tofile(os.path.join(rp, n))
                except Exception as e:  # replay is best effort
                    print("replay not complete:", e)
            if extra:
                open(os.path.join(rp, "extra.txt"), "w").write(str(extra))
        self.viol.append(dict(key=key, msg=msg, replay=rp))
        print("VIOLATION property=%s replay=%s" % (self.prop, rp)); print("   key=%s  %s" % (key, msg[:600]), flush=True)

    # ---- running ---------------------------------------------------------------------------
    def _run1(self, c):
        c.dir = tempfile.mkdtemp(prefix="c_", dir=self.tmp)
        write_ini(os.path.join(c.dir, "case.ini"), c.ini)
        open(os.path.join(c.dir, "script.txt"), "w").write("\n".join(c.script) + "\n")
        for n, a in c.arrays.items():
            np.ascontiguousarray(a, dtype=np.float64).tofile(os.path.join(c.dir, n))
        if getattr(c, "prep", None): c.prep(c)
        env = dict(os.environ); env.update(MPI_ENV if c.np else {}); env["OMP_NUM_THREADS"] = str(c.threads); env["OMP_PROC_BIND"] = "false"
        env.update(c.env)
        cmd = [c.exe, "case.ini"] + (["script.txt", "out.bin"] if c.script else [])   # no script: the real program
        if c.np > 1 or getattr(c, "mpi", False): cmd = ["mpirun", "-np", str(c.np)] + cmd
        for attempt in (0, 1):
            if self.hangs >= 3:  # enough executions have hung: each is reported, no more are started
                c.rc, c.out = "skipped", ""; break
            t0 = time.time()
            try:
                r = subprocess.run(cmd, cwd=c.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=c.timeout * (1 + 2 * attempt))
                c.rc, c.out, c.wall = r.returncode, r.stdout.decode(errors="replace"), time.time() - t0
                if c.np > 1 or getattr(c, "mpi", False):
                    if c.rc != 0 and attempt == 0: continue  # the launcher may fail under load: once more
                break
            except subprocess.TimeoutExpired as e:
                c.rc, c.out = "timeout", (e.stdout or b"").decode(errors="replace")
                if attempt or not (c.np > 1 or getattr(c, "mpi", False)): self.hangs += 1
        if "HX-ERROR" in c.out: raise CheckError("harness error in %s: %s" % (c.name, c.out[-800:]))
        base = os.path.join(c.dir, "out.bin")
        try:
            if getattr(c, "mpi", False): c.rec = [Rec("%s.%d" % (base, r)) for r in range(c.np)]
            else: c.rec = Rec(base)
        except FileNotFoundError:
            c.rec = None
        return c

    def run_plain(self, cases, mpi=False, after=None, keep=False):
        """run the real program; the caller judges what it left in c.dir"""
        for c in cases: c.mpi = mpi
        w = max(1, NCPU // max(1, max((c.np * c.threads for c in cases), default=1)))
        if mpi: w = max(w, 2)

        def go(c):
            self._run1(c)
            if after: after(c)
            if not keep: shutil.rmtree(c.dir, ignore_errors=True)
        with cf.ThreadPoolExecutor(w) as ex: list(ex.map(go, cases))

    def run(self, cases, build, mpi=False, keep=False, check_rc=True, after=None):
        """run cases in parallel; each is judged to have completed or reported as a violation of its own"""
        for c in cases:
            c.mpi = mpi
            c.exe = c.exe or build.exe["hx"]
        w = max(1, NCPU // max(1, max((c.np * c.threads for c in cases), default=1)))
        if mpi: w = max(w, 2)

        def go(c):
            self._run1(c)
            r = None
            if after: r = after(c)
            if not keep: shutil.rmtree(c.dir, ignore_errors=True)
            return r
        with cf.ThreadPoolExecutor(w) as ex:
            list(ex.map(go, cases))
        good = []
        for c in cases:
            ok = c.rc == 0 and c.rec is not None and all(r.complete for r in (c.rec if mpi else [c.rec]))
            if ok: good.append(c)
            elif check_rc and c.rc != "skipped":
                self.violation("run-failed:%s:%s" % (c.info.get("cls", c.name), c.rc),
                               "the program did not complete (%s)\n%s" % (c.rc, c.out[-1500:]), c)
        return good

    # ---- end -------------------------------------------------------------------------------
    def finish(self, min_evals=1):
        wall = time.time() - self.t0
        for k in self.known:
            if k["key"] in self.known_hits:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
            else:
                print("note: listed finding not observed in this run: %s" % k["key"])
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration",
                  coverage=dict(evaluations=int(self.evals), distinct_nontrivial=len(self.distinct), rule=self.rule, samples=self.samples or ["none"]),
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.viol))
        ev["coverage"]["observed"] = {k: (round(v, 20) if isinstance(v, float) else v) for k, v in self.stats.items()}
        os.makedirs(self.evdir, exist_ok=True)
        with open(os.path.join(self.evdir, self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print("%s %s: %d evaluations, %d distinct, %d violation(s), %.1fs; stats %s" % (self.prop, self.tier, self.evals, len(self.distinct), len(self.viol), wall, self.stats))
        if self.viol: return 1
        if self.evals < min_evals:
            print("ERROR: too little observed (%d < %d)" % (self.evals, min_evals)); return 2
        return 0


def main(prop, fn):
    ctx = Ctx(prop)
    try:
        fn(ctx)
        rc = ctx.finish(getattr(ctx, "min_evals", 1))
    except CheckError as e:
        print("CHECK-ERROR", e); rc = 2
        if ctx.viol: rc = ctx.finish()
    except Exception:
        traceback.print_exc(); rc = 2
        if ctx.viol: rc = ctx.finish()
    sys.stdout.flush()
    shutil.rmtree(ctx.tmp, ignore_errors=True)
    os._exit(rc)
