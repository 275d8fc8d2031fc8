"""P14 parameter files: values recorded from the real getters against the content the generator put in the file."""
import sys, os, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from workloads import *

WS = [" ", "\t", "  ", " \t "]


def hx(s): return "x" + (s if isinstance(s, bytes) else s.encode("latin1")).hex()
def f32(x): return float(np.float32(x))


class Gen:
    """random parameter file together with its intended meaning"""

    def __init__(self, rng):
        self.r = rng; self.lines = []; self.val = {}; self.err = 0; self.dirty = False
        self.used = set(); self.pool = []

    def ch(self, seq): return seq[int(self.r.integers(len(seq)))]
    def p(self, q): return self.r.random() < q
    def ws(self, q=0.4): return self.ch(WS) if self.p(q) else ""

    def ident(self, n=None):
        n = n or int(self.r.integers(1, 14))
        return "".join(self.ch("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.") for _ in range(n))

    def case(self, s): return "".join(c.upper() if self.p(0.5) else c.lower() for c in s)

    def value(self):
        k = self.ch(["int", "int", "hex", "oct", "float", "float", "bool", "word", "text", "empty", "junknum", "odd"])
        r = self.r
        if k == "int": v = "%s%d" % (self.ch(["", "", "-", "+"]), int(r.choice([0, 1, 7, 42, 999, 123456789, 2 ** 31 - 1, 2 ** 40])))
        elif k == "hex": v = "%s0x%x" % (self.ch(["", "-"]), int(r.integers(0, 2 ** 31)))
        elif k == "oct": v = "0%o" % int(r.integers(1, 4096))
        elif k == "float": v = self.ch(["%g", "%.3e", "%.9f", "%.17g"]) % (r.normal() * 10.0 ** r.integers(-12, 12))
        elif k == "bool": v = self.ch(["yes", "no", "true", "false", "on", "off", "1", "0"])
        elif k == "word": v = self.long(None)
        elif k == "text": v = " ".join(self.ident() for _ in range(int(r.integers(2, 5))))
        elif k == "empty": v = ""
        elif k == "junknum": v = "%d%s" % (int(r.integers(-50, 50)), self.ch(["abc", " cells", "e", ".5.5", "x"]))
        else: v = self.ch(["a=b", "a;b", "x#y", "#lead", "[sec]", "p:q", "a = b", "/tmp/x y.h5", "\"q r\"", "caf\xe9", "%d$!", ".", "-", "1;2", "TRUE", "Yes", "2"])
        return v

    def add_line(self, s): self.lines.append(s)

    def long(self, short):
        """an identifier, now and then a very long one"""
        if self.p(0.06): return self.ident(int(self.r.choice([48, 49, 50, 51, 63, 64, 65, 100, 128, 255, 256, 257, 400])))
        return self.ident(short)

    def put(self, sec, key, v): self.val[(sec.lower(), key.lower())] = v

    def body(self, nsec):
        secs = [""] if self.p(0.3) else []
        for _ in range(nsec):
            s = self.long(int(self.r.integers(1, 49)) if self.p(0.1) else None)
            if self.p(0.15): s = s + " " + self.ident()
            if self.p(0.15) and self.pool: s = self.case(self.ch(self.pool))   # reopened section
            secs.append(s.rstrip())
        for s in secs:
            if s:
                self.pool.append(s)
                # a section line is a continuation only when indented after a key; indent only after a section line
                self.add_line("[%s]%s" % (s, self.ch(["", "", "  ", " ; note", "   ; [x] = 3", " trailing"])))
            prev = None
            for _ in range(int(self.r.integers(0, 8))):
                t = self.r.random()
                if t < 0.10: self.add_line(self.ch(["", "   ", "\t", " \t "])); continue
                if t < 0.22:
                    c = self.ch([" comment", "x=1", "[no]", "", " a = b ; c"])
                    if self.p(0.1): c = "c" * int(self.r.integers(150, 1200)) + "x=1"
                    self.add_line(self.ch([";", "#"]) + c); continue
                if t < 0.27 and prev is not None: self.add_line(self.ch(["  ; indented note", "\t# indented = note"])); continue
                if t < 0.33 and prev is not None:
                    v = self.ident() if self.p(0.5) else self.value().strip()
                    if not v or v[0] in ";#": continue
                    self.add_line(self.ch(WS) + v + self.ch(["", "", " ", " ; tail"])); self.put(s, prev, v); continue
                if t < 0.36:
                    self.add_line(self.ch(["novalue", "just words here", "[unclosed", "key : 3"]))
                    if not self.err: self.err = len(self.lines)
                    continue
                key = self.long(None)
                if self.p(0.12): key += " " + self.ident(3)
                if self.p(0.12):
                    old = [k for (a, k) in self.val if a == s.lower()]
                    if old: key = self.case(self.ch(old))                      # repeated key
                v = self.value(); com = self.ch(["", "", "", " ; c", "\t; x=2", "   ;", " ;; [z]"])
                lead = self.ch(WS) if prev is None and self.p(0.2) else ""
                line = lead + key + self.ws() + "=" + self.ws() + v + com + self.ws(0.2)
                if self.p(0.06) and v:                                       # long comment, with something like an assignment far behind
                    pad = int(self.r.choice([150, 197, 198, 199, 200, 201, 254, 255, 256, 511, 512, 1023, 1024, 4096, 9000])) - len(line)
                    line += " ;" + "c" * max(pad - 2, 0)
                    if self.p(0.5): line += self.case(key) + "=far"
                if v and v[0] == ";" : continue
                self.add_line(line); self.put(s, key, v.strip()); prev = key

    def text(self):
        eol = "\r\n" if self.p(0.15) else "\n"
        t = eol.join(self.lines)
        if self.p(0.7): t += eol
        return t.encode("latin1")


def c_int(v):
    """strtol(v, 0): optional sign, 0x / 0 prefixes; None when nothing is parsed"""
    import re
    m = re.match(r"[ \t\r\n\f\v]*([+-]?)(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)", v)
    if not m: return None
    t = m.group(2)
    n = int(t, 16) if t[:2].lower() == "0x" else int(t, 8) if t[0] == "0" and len(t) > 1 else int(t)
    return max(-2 ** 63, min(2 ** 63 - 1, -n if m.group(1) == "-" else n))


def c_float(v):
    import re
    m = re.match(r"[ \t]*([+-]?)(0[xX][0-9a-fA-F]+(?:\.[0-9a-fA-F]*)?(?:[pP][+-]?\d+)?|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?|inf(?:inity)?|nan)", v, re.I)
    if not m: return None
    t = m.group(2).lower()
    if t.startswith("0x"): x = float.fromhex(t if "." in t or "p" in t else t + "p0")
    elif t.startswith("nan"): return None if False else float("nan")
    else: x = float(t)
    x = -x if m.group(1) == "-" else x
    with np.errstate(over="ignore"): return f32(x)


BOOL = dict(yes=1, true=1, on=1, no=0, false=0, off=0); BOOL.update({"1": 1, "0": 0})


class Q:
    """queries with expected answers; a copy of the dictionary evolves under set operations"""

    def __init__(self, g, rng):
        self.g, self.r, self.d = g, rng, dict(g.val); self.q, self.want, self.kinds = [], [], []

    def get(self, t, s, k, dflt):
        v = self.d.get((s.lower(), k.lower()))
        if t == "s": w = hx(v if v is not None else dflt)
        elif t == "i":
            n = c_int(v) if v is not None else None; w = "%d" % (n if n is not None else int(dflt))
        elif t == "f":
            n = c_float(v) if v is not None else None; w = ("f", n if n is not None else f32(float(dflt)))
        else:
            w = "%d" % (BOOL.get(v, int(dflt)) if v is not None else int(dflt))
        self.q.append("%s %s %s %s" % (t, hx(s), hx(k), hx(dflt))); self.want.append(w); self.kinds.append(t + ("" if v is not None else "-absent"))

    def fill(self):
        r = self.r; keys = list(self.d)
        names = keys + [(s, k + "x") for s, k in keys[:4]] + [(s + "x", k) for s, k in keys[:4]] + [("", k) for s, k in keys[:2]] + [("nosuch", "key"), ("", "")]
        for s, k in names:
            for t, ds in (("s", ["", "dflt", "a b"]), ("i", ["0", "-7", "123456789012"]), ("f", ["0.5", "-1e-3", "3.25e7"]), ("b", ["0", "1"])):
                self.get(t, self.g.case(s), self.g.case(k), ds[int(r.integers(len(ds)))])
        self.q.append("d"); self.want.append(("dump", dict(self.d))); self.kinds.append("dump")
        for _ in range(4):
            s, k = names[int(r.integers(len(names)))]; t = "SIFB"[int(r.integers(4))]
            v = {"S": ["", "new value", "a=b;c"], "I": ["0", "-12", "98765432101"], "F": ["0.25", "-3", "1e+10"], "B": ["0", "1"]}[t][int(r.integers(2))]
            self.q.append("%s %s %s %s" % (t, hx(s), hx(k), hx(v)))
            self.d[(s.lower(), k.lower())] = {"S": v, "I": v, "F": v, "B": "true" if v == "1" else "false"}[t]
            self.get({"S": "s", "I": "i", "F": "f", "B": "b"}[t], s, k, "1")


def compare(ctx, mode, want_err, q, out, text):
    try: L = open(out, encoding="latin1").read().split("\n")
    except FileNotFoundError:
        ctx.violation("%s:no-output" % mode, "no output written for %r" % text[:400]); return
    got = L[1:]
    ctx.observe((mode, "error-line"), 1)
    if L[0] != "ERR %d" % want_err:
        ctx.violation("%s:error-line" % mode, "ParseError %s, expected %d; file %r" % (L[0], want_err, text[:600]))
    asks = [l for l in q.q if l[0] in "sifbd"]
    for i, (w, k) in enumerate(zip(q.want, q.kinds)):
        o = got[i] if i < len(got) else "missing"
        ctx.observe((mode, k, len(q.d)), 1)
        if isinstance(w, tuple) and w[0] == "f":
            try: x = float.fromhex(o)
            except ValueError: x = None
            ok = x is not None and (x == w[1] or (x != x and w[1] != w[1]))
        elif isinstance(w, tuple):
            # the dump lists every entry once, lower case, in key order
            exp = "".join("%s.%s = %s\n" % (a, b, v) for (a, b), v in sorted(w[1].items(), key=lambda t: (t[0][0] + "." + t[0][1]).encode("latin1")))
            o = bytes.fromhex(o[1:]).decode("latin1") if o[:1] == "x" else o; ok = o == exp; w = exp
        else: ok = o == w
        if not ok:
            sh = asks[i].split()
            ctx.violation("%s:%s" % (mode, k), "query %s (%s) -> %s, expected %s; file %r" % (sh[0], [bytes.fromhex(t[1:]) for t in sh[1:]], o, w, text[:900]))


def run(ctx):
    ctx.rule = ("generated parameter file x query x reading mode (file, memory buffer, MPI broadcast on each rank); an evaluation is one recorded getter value, "
                "error line or dump compared with what the generator wrote")
    ctx.assumptions = ["a repeated key, and a continuation line, replace the value (the handler is called again with the same name)",
                       "integers follow strtol base 0, reals strtof in single precision, booleans 1/0 yes/no true/false on/off in lower case"]
    S = os.path.join(REPO, "src/utils/config/")
    src = [S + "ConfigMap.cpp", S + "inih/ini.cpp", S + "inih/INIReader.cpp"]
    bs = Build(ctx, mains=("cm",), only_sources=src, san="asan", opt="-O1")
    bm = Build(ctx, mains=("cm",), only_sources=src, mpi=True)
    nf = ctx.pick(400, 8000); D = os.path.join(ctx.tmp, "cm"); os.makedirs(D)
    items = []
    for i in range(nf):
        g = Gen(ctx.rng); g.body(int(ctx.rng.integers(0, 5)) if i % 40 != 3 else int(ctx.rng.integers(60, 500))); t = g.text()
        if i == 0: g = Gen(ctx.rng); t = b""
        if i == 1: g = Gen(ctx.rng); t = b"\n"
        if i == 2: g = Gen(ctx.rng); t = b"a=1"; g.put("", "a", "1")
        q = Q(g, ctx.rng); q.fill()
        open(D + "/f%d.ini" % i, "wb").write(t); open(D + "/q%d" % i, "w").write("\n".join(q.q) + "\n")
        items.append((g, q, t))
    # the repository's own parameter files, judged against an independent reading of the documented format
    own = []
    for root, _, fs in os.walk(REPO):
        if "/build" in root or "/.git" in root: continue
        own += [os.path.join(root, f) for f in fs if f.endswith(".ini")]
    for p in sorted(own)[:ctx.pick(40, 400)]:
        t = open(p, "rb").read(); T = t.decode("latin1")
        if any(l[:1] in " \t" and l.strip() for l in T.split("\n")): continue
        g = Gen(ctx.rng); sec = ""
        for ln, l in enumerate(T.split("\n"), 1):
            l = l.strip()
            if not l or l[0] in ";#": continue
            if l[0] == "[" and "]" in l: sec = l[1:l.index("]")]; continue
            if "=" not in l: g.err = g.err or ln; continue
            k, v = l.split("=", 1)
            import re
            v = re.split(r"\s;", v, maxsplit=1)[0]
            g.put(sec, k.strip(), v.strip())
        i = len(items); q = Q(g, ctx.rng); q.fill()
        open(D + "/f%d.ini" % i, "wb").write(t); open(D + "/q%d" % i, "w").write("\n".join(q.q) + "\n"); items.append((g, q, t))
    n = len(items)

    def batch(a, b):
        js = "\n".join("%s f%d.ini q%d o%d.%s" % (m, i, i, i, m) for i in range(a, b) for m in ("file", "buffer", "bcast"))
        jf = "jobs%d" % a; open(D + "/" + jf, "w").write(js + "\n")
        r = subprocess.run([bs.exe["cm"], jf], cwd=D, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        return r.returncode, r.stdout.decode(errors="replace")
    step = max(1, -(-n // NCPU))
    with cf.ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(lambda a: batch(a, min(n, a + step)), range(0, n, step)))
    for rc, o in res:
        ctx.observe(("process", "exit"), 1)
        if rc: ctx.violation("process-died", "parser process failed (%s): %s" % (rc, o[-1500:]))
    for i, (g, q, t) in enumerate(items):
        for m in ("file", "buffer", "bcast"): compare(ctx, m, g.err, q, D + "/o%d.%s" % (i, m), t)
    # broadcast on several ranks
    for np_ in ctx.pick([1, 3], [1, 2, 3, 4, 7]):
        js = "\n".join("bcast f%d.ini q%d m%d.%d" % (i, i, i, np_) for i in range(1, n)); open(D + "/jm%d" % np_, "w").write(js + "\n")
        env = dict(os.environ); env.update(MPI_ENV)
        for attempt in (0, 1):
            r = subprocess.run(["mpirun", "-np", str(np_), bm.exe["cm"], "jm%d" % np_], cwd=D, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if r.returncode == 0: break
        if r.returncode: ctx.violation("mpi-died:%d" % np_, r.stdout.decode(errors="replace")[-1500:]); continue
        for i, (g, q, t) in enumerate(items):
            if i == 0: continue
            for rk in range(np_): compare(ctx, "mpi%d" % np_, g.err, q, D + "/m%d.%d.%d" % (i, np_, rk), t)
    # a missing file: error -1 and every default
    q = Q(Gen(ctx.rng), ctx.rng); q.fill(); open(D + "/qmiss", "w").write("\n".join(q.q) + "\n"); open(D + "/jmiss", "w").write("file nosuch.ini qmiss omiss\n")
    subprocess.run([bs.exe["cm"], "jmiss"], cwd=D, capture_output=True, timeout=60); compare(ctx, "file-missing", -1, q, D + "/omiss", b"")
    ctx.stats["files"] = n
    for g, q, t in items[3:9]: ctx.sample(repr(t[:160]))
    ctx.min_evals = 20000


if __name__ == "__main__": main("P14", run)
