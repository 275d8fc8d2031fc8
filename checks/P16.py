"""P16 process topology and communication wrappers: recorded deliveries against the MPI semantics."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *
import glob

S = os.path.join(REPO, "src")
SRC = [S + "/shared/HydroParams.cpp"] + sorted(glob.glob(S + "/utils/config/*.cpp")) + [S + "/utils/config/inih/ini.cpp", S + "/utils/config/inih/INIReader.cpp"] + [
    S + "/utils/mpiUtils/" + f for f in sorted(os.listdir(S + "/utils/mpiUtils")) if f.endswith(".cpp") and f not in ("mpi_env.cpp",)]
DUMMY = None
TYPES = ["int", "float", "double", "char"]


def value(job, who, idx, prod=False):
    h = job * 7919 + who * 104729 + idx * 31 + idx * idx * 17
    if prod: return -1 if h % 3 == 0 else h % 3
    return h % 201 - 100


def enc(t, v, small=False):
    if small: return float(v)
    if t == "int": return float(v * 1000003)
    if t == "float": return v / 8.0
    if t == "double": return v / 8.0 + (0 if v == 0 else 1e-9)
    return float(v)


def sentinel(t, n): return [enc(t, 101 + i % 5) for i in range(n + 4)]


def expect(job, op, t, n, a, b, c, me, np_):
    """list of expected buffers of rank me of a communicator of np_ processes"""
    cnt = lambda s, r: (s * 3 + r * 5 + job) % (n + 1)
    if op == "alltoall":
        R = sentinel(t, n * np_)
        for q in range(np_):
            for i in range(n): R[q * n + i] = enc(t, value(job, q, me * n + i))
        return [R]
    if op == "alltoallv":
        rt = 2; pos = []
        for q in range(np_):
            pos.append(rt); rt += cnt(q, me) + 2
        R = sentinel(t, rt)
        for q in range(np_):
            for i in range(cnt(q, me)): R[pos[q] + i] = enc(t, value(job, q, me * 100 + i))
        return [R]
    if op == "allreduce":
        R = sentinel(t, n)
        for i in range(n):
            v = [value(job, q, i, a == 8) for q in range(np_)]
            x = sum(v) if a == 5 else min(v) if a == 6 else max(v) if a == 7 else int(np.prod(v))
            R[i] = float(x)
        return [R]
    if op in ("gather", "allgather"):
        R = sentinel(t, n * np_)
        if op == "allgather" or a % np_ == me:
            for q in range(np_):
                for i in range(n): R[q * n + i] = enc(t, value(job, q, i))
        return [R]
    if op in ("gatherv", "allgatherv"):
        rt = 1; pos = {}
        for q in range(np_ - 1, -1, -1):
            pos[q] = rt; rt += cnt(q, 0) + 1
        R = sentinel(t, rt)
        if op == "allgatherv" or a % np_ == me:
            for q in range(np_):
                for i in range(cnt(q, 0)): R[pos[q] + i] = enc(t, value(job, q, i))
        return [R]
    if op == "bcast":
        R = sentinel(t, n)
        for i in range(n): R[i] = enc(t, value(job, a % np_, i))
        return [R]
    if op == "p2p":
        to, fr = (me + a) % np_, (me - a) % np_
        R0, R1 = sentinel(t, n + 3), sentinel(t, n + 3)
        for i in range(n): R0[i] = enc(t, value(job, fr, i))
        src1 = to if b == 0 else fr
        for i in range(n + 1): R1[i] = enc(t, value(job, src1, 500 + i))
        return [R0, R1]
    raise CheckError(op)


def grids(np_, dim):
    out = []
    for a in range(1, np_ + 1):
        if np_ % a: continue
        if dim == 2: out.append((a, np_ // a)); continue
        for b in range(1, np_ // a + 1):
            if (np_ // a) % b == 0: out.append((a, b, np_ // a // b))
    return out


def run(ctx):
    ctx.rule = ("every rank records the whole receive buffer (with guard slots) of randomly drawn sequences of wrapper calls on world, self, default, split "
                "and Cartesian communicators of 1..8 processes, and every answer of the topology; an evaluation is one delivered buffer, topology answer set or parameter setup on one rank; "
                "the reference is computed from MPI's definition of the operation; distinct = (operation, type, communicator, kind, processes)")
    ctx.assumptions += ["OpenMPI 4.1 over shared memory; MPI_CHAR is not reduced (not a legal MPI reduction type)"]
    b = Build(ctx, mains=("mc",), only_sources=SRC, mpi=True)
    rng = ctx.rng
    NPS = ctx.pick([1, 2, 3, 4, 6, 8], [1, 2, 3, 4, 5, 6, 7, 8, 12])
    njobs = ctx.pick(1500, 8000)
    plans = []
    for np_ in NPS:
        for rep in range(ctx.pick(1, 4)):
            plans.append((np_, rep))

    def one(np_, rep):
        r = np.random.default_rng([ctx.seed, np_, rep, 77])
        jobs = []; lines = []; inis = {}
        d = os.path.join(ctx.tmp, "n%d_%d" % (np_, rep)); os.makedirs(d)
        j = 0
        comms = [("world",), ("default",), ("self",), ("split",)]
        for g in grids(np_, 2):
            for per in (0, 1): comms.append(("cart2",) + g + (per, int(r.integers(2))))
        for g in grids(np_, 3):
            for per in (0, 1): comms.append(("cart3",) + g + (per, int(r.integers(2))))
        order = list(range(len(comms))) ; r.shuffle(order)
        lines.append("%d bad" % j); jobs.append((j, "bad", None, None)); j += 1
        # parameters and neighbours of the solver's own topology
        for dim in (2, 3):
            for g in grids(np_, dim):
                f = os.path.join(d, "p%d.ini" % j)
                bcs = [int(x) for x in r.choice([1, 2, 3], 6)]
                for k in range(3):   # periodicity comes in pairs
                    if 3 in bcs[2 * k:2 * k + 2] and r.random() < 0.7: bcs[2 * k] = bcs[2 * k + 1] = 3
                sol = ("Hydro_Muscl_%dD" if r.random() < 0.5 else "MHD_Muscl_%dD") % dim
                ini = solver_ini(sol, [8, 8, 8][:dim], bc=bcs, mpi=tuple(g) + ((int(r.integers(1, 4)),) if dim == 2 else ()))
                write_ini(f, ini)
                lines.append("%d params %s" % (j, f)); jobs.append((j, "params", (dim, g, bcs), None)); j += 1
        per_comm = max(1, njobs // len(comms))
        for k in order:
            cm = comms[k]
            lines.append("%d comm %s" % (j, " ".join(map(str, cm)))); jobs.append((j, "comm", cm, None)); j += 1
            for _ in range(per_comm):
                op = str(r.choice(["alltoall", "alltoallv", "allreduce", "allreduce", "gather", "allgather", "gatherv", "allgatherv", "bcast", "p2p", "p2p", "p2p"]))
                t = str(r.choice(TYPES)); n = int(r.choice([0, 1, 2, 3, 5, 8, 17, 64])); a = bb = c = 0
                if r.random() < 0.04 and op not in ("alltoallv", "gatherv", "allgatherv"): n = int(r.choice([600, 2500]))   # beyond the eager limit
                if op == "allreduce":
                    t = str(r.choice(TYPES[:3])); a = int(r.choice([5, 6, 7, 8])); n = max(n, 1)
                elif op in ("gather", "gatherv", "bcast"): a = int(r.integers(0, 8))
                elif op == "p2p":
                    a = int(r.integers(0, 9)); bb = int(r.integers(0, 6)); c = int(r.integers(0, 3))
                    if bb == 3 and c == 1: c = 0
                lines.append("%d %s %s %d %d %d %d" % (j, op, t, n, a, bb, c)); jobs.append((j, op, (t, n, a, bb, c), cm)); j += 1
            if np_ > 1 and r.random() < 0.4:
                lines.append("%d barrier int 0 0 0 0" % j); jobs.append((j, "barrier", None, cm)); j += 1
        open(os.path.join(d, "jobs.txt"), "w").write("\n".join(lines) + "\n")
        env = dict(os.environ); env.update(MPI_ENV); env["OMP_NUM_THREADS"] = "1"
        rc = None
        for attempt in (0, 1):
            try:
                q = subprocess.run(["mpirun", "-np", str(np_), b.exe["mc"], "jobs.txt", "out"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=ctx.pick(90, 240))
                rc, txt = q.returncode, q.stdout.decode(errors="replace")
                if rc == 0: break
            except subprocess.TimeoutExpired as e:
                rc, txt = "timeout", (e.stdout or b"").decode(errors="replace")
        if "HX-ERROR" in txt: raise CheckError(txt[-500:])
        recs = []
        for k in range(np_):
            p = os.path.join(d, "out.%d" % k)
            recs.append(open(p).read().splitlines() if os.path.exists(p) else [])
        return np_, rep, jobs, recs, rc, txt, d

    with cf.ThreadPoolExecutor(2) as ex:
        results = list(ex.map(lambda p: one(*p), sorted(plans, key=lambda p: -p[0])))
    for np_, rep, jobs, recs, rc, txt, d in results:
        if rc != 0 or any(not x or x[-1] != "END" for x in recs):
            last = [x[-1][:60] if x else "-" for x in recs]
            ctx.violation("run-failed:%s" % rc, "np=%d: the wrapped communication did not complete (%s); last record per rank %s\n%s" % (np_, rc, last, txt[-600:]),
                          extra=open(os.path.join(d, "jobs.txt")).read()[:200000])
            continue
        idx = []
        for k in range(np_):
            m = {}
            for l in recs[k]:
                w = l.split(" ")
                if w[0] in "RCTPBS" and len(w) > 1: m.setdefault((w[0], int(w[1])), []).append(w[2:])
            idx.append(m)
            g = recs[k][0].split()
            ctx.observe(("session", np_))
            if g != ["G", "0", "0", "1", "1", str(k), str(np_), "0"]:
                ctx.violation("session", "GlobalMpiSession on rank %d of %d reports %s (expected not initialised, rank 0 of 1 before; then initialised, %d of %d, not finalised)" % (k, np_, g, k, np_))
        for (j, op, arg, cm) in jobs:
            kindkey = cm[0] if cm else ""
            if op == "bad":
                for k in range(np_):
                    ctx.observe(("bad",))
                    if idx[k][("B", j)] != [["5", "5"]]: ctx.violation("bad-code", "undefined type / operation codes accepted: rejected %s of 5,5" % idx[k][("B", j)])
            elif op == "comm":
                for k in range(np_):
                    rank, n, mr, mn, cmp_ = map(int, idx[k][("C", j)][0]); ctx.observe(("comm", arg[0], np_))
                    if (rank, n) != (mr, mn) or (arg[0] in ("world", "default", "self", "split") and cmp_ != 0):
                        ctx.violation("comm:" + arg[0], "np=%d communicator %s: wrapper reports rank %d of %d, MPI says %d of %d (comparison %d)" % (np_, arg, rank, n, mr, mn, cmp_))
                if arg[0].startswith("cart"):
                    dim = int(arg[0][4]); dims = arg[1:1 + dim]; per = arg[1 + dim]
                    for k in range(np_):
                        e = topo_expect(dim, dims, per, idx[k][("T", j)][0])
                        ctx.observe(("topology", dim, per, np_))
                        if e: ctx.violation("topology:%s:%s" % (arg[0], e[0]), "np=%d %s rank %d: %s" % (np_, arg, k, e[1]))
                    allr = sorted(int(idx[k][("T", j)][0][3]) for k in range(np_))
                    allc = {tuple(idx[k][("T", j)][0][7:7 + dim]) for k in range(np_)}
                    if allr != list(range(np_)) or len(allc) != np_: ctx.violation("topology:cover", "np=%d %s ranks %s coordinates %s" % (np_, arg, allr, allc))
            elif op == "params":
                dim, g, bcs = arg
                for k in range(np_):
                    e = params_expect(dim, g, bcs, np_, idx[k][("P", j)][0]); ctx.observe(("params", dim, g))
                    if e: ctx.violation("params:%d:%s" % (dim, e[0]), "np=%d grid %s bc %s rank %d: %s" % (np_, g, bcs, k, e[1]))
            elif op == "barrier":
                groups = [list(range(np_))] if cm[0] != "self" and cm[0] != "split" else [[k] for k in range(np_)] if cm[0] == "self" else [[k for k in range(np_) if k % 2 == q] for q in (0, 1)]
                for gr in groups:
                    if not gr: continue
                    t0 = max(float(idx[k][("S", j)][0][0]) for k in gr); t1 = min(float(idx[k][("S", j)][0][1]) for k in gr); ctx.observe(("barrier", cm[0], np_))
                    if t1 < t0 - 1e-6: ctx.violation("barrier:" + cm[0], "np=%d: a process left synchronize() %.6f s before another entered it" % (np_, t0 - t1))
            else:
                t, n, a, bb, c = arg
                for k in range(np_):
                    if cm[0] == "self": me, sz = 0, 1
                    elif cm[0] == "split":
                        mem = sorted([q for q in range(np_) if q % 2 == k % 2], reverse=True); me, sz = mem.index(k), len(mem)
                    else:
                        me = k; sz = np_
                        if cm[0].startswith("cart"): me = int(idx[k][("T", j_of(jobs, j))][0][3])
                    want = expect(j, op, t, n, a, bb, c, me, sz)
                    got = [[float(x) for x in w] for w in idx[k][("R", j)]]
                    kind = (op, t, cm[0], bb if op == "p2p" else a if op == "allreduce" else 0, c if op == "p2p" else 0)
                    ctx.observe(kind + (sz,))
                    if got != want:
                        for gi, (x, y) in enumerate(zip(got, want)):
                            df = [q for q in range(min(len(x), len(y))) if x[q] != y[q]]
                            if df or len(x) != len(y): break
                        ctx.violation("deliver:%s:%s" % (op, kind[3]), "np=%d %s job %d %s type=%s n=%d a=%d b=%d c=%d rank %d of %d buffer %d differs at %s: delivered %s, expected %s" % (
                            np_, cm, j, op, t, n, a, bb, c, me, sz, gi, df[:6], [x[q] for q in df[:6]], [y[q] for q in df[:6]]), extra=open(os.path.join(d, "jobs.txt")).read()[:100000])
    ctx.min_evals = 10000


def j_of(jobs, j):
    last = None
    for q in jobs[:j + 1]:
        if q[1] == "comm": last = q[0]
    return last


def topo_expect(dim, dims, per, w):
    d = int(w[1]); rank = int(w[3]); n = int(w[5]); me = [int(x) for x in w[7:10]]
    if d != dim: return "dim", "getDim %d" % d
    if n != int(np.prod(dims)): return "n", "size %d" % n
    co = lambda r: tuple(int(x) for x in np.unravel_index(r, dims))
    if tuple(me[:dim]) != co(rank): return "mycoords", "coordinates %s of rank %d" % (me, rank)
    p = 10
    for r in range(n):
        q = [int(x) for x in w[p + 2:p + 5]]
        if int(w[p + 1]) != r or tuple(q[:dim]) != co(r): return "coords", "rank %d at %s, expected %s" % (r, q, co(r))
        if q[dim:] != [-9] * (3 - dim): return "coords", "wrote beyond %d coordinates: %s" % (dim, q)
        if w[p + 5] != "b" or int(w[p + 6]) != r: return "cartrank", "rank of coordinates %s is %s" % (q, w[p + 6])
        p += 7

    def nb(ax, k):
        c = list(co(rank)); c[ax] += k
        if per: c[ax] %= dims[ax]
        elif not 0 <= c[ax] < dims[ax]: return -1
        return int(np.ravel_multi_index(c, dims))
    for ax in range(dim):
        for disp in range(-2, 3):
            assert w[p] == "s"
            s, t = int(w[p + 3]), int(w[p + 4])
            if (s, t) != (nb(ax, -disp), nb(ax, disp)): return "shift", "shift along %d by %d gives source %d dest %d, expected %d %d" % (ax, disp, s, t, nb(ax, -disp), nb(ax, disp))
            p += 5
    if per:
        got = [int(x) for x in w[p + 1:p + 1 + 2 * dim]]
        want = [nb(ax, s) for ax in range(dim) for s in (-1, 1)]
        if got != want: return "neighbour", "neighbours %s, expected %s" % (got, want)
    return None


def params_expect(dim, g, bcs, np_, w):
    v = [int(x) for x in w]
    rank, n, mx, my, mz = v[:5]; pos = v[5:8]; nd = v[8]; nn = v[9]; nb = v[10:16]; bc = v[16:22]; isd, cr = v[22], v[23]
    if n != np_ or not 0 <= rank < n or cr != rank: return "rank", "rank %d of %d (communicator %d)" % (rank, n, cr)
    if (mx, my) != tuple(g[:2]) or (dim == 3 and mz != g[2]): return "grid", "process grid %s" % ((mx, my, mz),)
    if nd != dim or nn != 2 * dim: return "dim", "nDim %d nNeighbors %d" % (nd, nn)
    if not isd: return "type", "double precision build communicates another type"
    c = [int(x) for x in np.unravel_index(rank, g)]
    if pos[:dim] != c: return "pos", "position %s, expected %s" % (pos, c)
    for ax in range(dim):
        for s in (0, 1):
            q = list(c); q[ax] = (q[ax] + (1 if s else -1)) % g[ax]
            want = int(np.ravel_multi_index(q, g)); k = 2 * ax + s
            if nb[k] != want: return "neighbour", "neighbour %d is %d, expected %d" % (k, nb[k], want)
            inside = (c[ax] < g[ax] - 1) if s else (c[ax] > 0)
            if inside: wb = [4]
            else: wb = [bcs[k]]
            if bc[k] not in wb: return "bc", "boundary %d is %d, expected %s" % (k, bc[k], wb)
    return None


if __name__ == "__main__": main("P16", run)
