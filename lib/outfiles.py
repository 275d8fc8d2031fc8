"""Readers of the files the program writes (HDF5 through a small C dumper, VTK XML, XDMF) and their oracles."""
import os, re, subprocess, threading
import xml.etree.ElementTree as ET
import numpy as np
from vlib import HARN, LIBDIR, CheckError

NAMES = ["rho", "energy", "rho_vx", "rho_vy", "rho_vz", "bx", "by", "bz"]


class BadFile(Exception):
    """the file is not what its format says"""


_lock = threading.Lock()


def h5tool(ctx):
    with _lock: return _h5tool(ctx)


def _h5tool(ctx):
    exe = os.path.join(ctx.tmp, "h5raw")
    if not os.path.exists(exe):
        r = subprocess.run(["gcc", "-O1", "-w", "-I/usr/include/hdf5/serial", os.path.join(HARN, "h5raw.c"), "-o", exe, LIBDIR + "/hdf5/serial/libhdf5.so"], capture_output=True, text=True)
        if r.returncode: raise CheckError("h5raw: " + r.stderr[-500:])
    return exe


def read_h5(ctx, path):
    """-> (attributes, {name: array in file order})"""
    r = subprocess.run([h5tool(ctx), path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, HDF5_USE_FILE_LOCKING="FALSE"))
    if r.returncode: raise BadFile("not a readable HDF5 file: %s" % r.stderr.decode(errors="replace")[-200:])
    b = r.stdout; p = 0; A, D = {}, {}
    while True:
        e = b.index(b"\n", p); f = b[p:e].decode().split("\t"); p = e + 1
        if f[0] == "attr":
            if f[2] in A: raise BadFile("duplicate attribute")
            A[f[2]] = int(f[3]) if f[1] == "i" else float.fromhex(f[3]) if f[1] == "f" else f[3]
        elif f[0] == "data":
            sh = tuple(int(x) for x in f[4:]); n = int(np.prod(sh))
            D[f[1]] = np.frombuffer(b[p:p + 8 * n], dtype=np.float64).reshape(sh); p += 8 * n
            if f[3] != "8" or f[2] != "1": raise BadFile("dataset %s is not made of 8-byte reals" % f[1])
        elif f[0] == "end": return A, D
        else: raise BadFile("unexpected object " + "\t".join(f))


DT = {"Float64": "<f8", "Float32": "<f4", "Int64": "<i8", "UInt8": "u1"}


def read_vtk(path):
    """-> (root element, {array name: values}, ascii?)"""
    raw = open(path, "rb").read(); k = raw.find(b"<AppendedData"); blob = None
    if k >= 0:
        us = raw.index(b"_", raw.index(b">", k)) + 1; head = raw[:k] + b"</VTKFile>"; blob = raw[us:]
        if b'encoding="raw"' not in raw[k:us]: raise BadFile("appended data is not raw")
        if not re.search(rb"</AppendedData>\s*</VTKFile>\s*$", raw): raise BadFile("file is not terminated")
    else: head = raw
    try: root = ET.fromstring(head)
    except ET.ParseError as e: raise BadFile("not well-formed XML: %s" % e)
    if root.get("byte_order") != "LittleEndian" or root.get("header_type") != "UInt64": raise BadFile("wrong byte order or header type")
    out = {}; used = []
    for d in root.iter("DataArray"):
        t, n = d.get("type"), d.get("Name")
        if n in out: raise BadFile("array %s twice" % n)
        if d.get("format") == "ascii": v = np.array((d.text or "").split(), dtype=float)
        else:
            o = int(d.get("offset")); nb = int.from_bytes(blob[o:o + 8], "little")
            if o + 8 + nb > len(blob): raise BadFile("array %s exceeds the file" % n)
            if any(not (o + 8 + nb <= a or o >= z) for a, z in used): raise BadFile("arrays overlap in the appended data")
            used.append((o, o + 8 + nb)); v = np.frombuffer(blob[o + 8:o + 8 + nb], dtype=DT[t]).astype(float)
        out[n] = v
    return root, out, blob is None


def close_text(a, b):
    """a as printed with 6 significant digits"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= 5.1e-6 * np.abs(b) + 1e-300) | (np.isnan(a) & np.isnan(b))))


def ints(s): return [int(x) for x in s.split()]


def floats(s): return [float(x) for x in s.split()]


def judge_h5(ctx, path, U, names, attrs):
    """U [nx][ny][nz][nv] expected values in file coordinates. -> list of complaints"""
    bad = []
    try: A, D = read_h5(ctx, path)
    except BadFile as e: return [str(e)]
    if sorted(D) != sorted(names): bad.append("datasets %s instead of %s" % (sorted(D), sorted(names)))
    for v, n in enumerate(names):
        if n not in D: continue
        e = U[..., v].transpose(2, 1, 0)
        d = D[n]
        if d.ndim == 2: d = d[None]
        if d.shape != e.shape: bad.append("%s has shape %s instead of %s" % (n, d.shape, e.shape)); continue
        if d.tobytes() != np.ascontiguousarray(e).tobytes():
            w = np.argwhere(~((d == e) | (np.isnan(d) & np.isnan(e))))
            if len(w): bad.append("%s differs in %d of %d cells, first at (x,y,z)=%s: file %.17g solution %.17g" % (n, len(w), e.size, tuple(int(q) for q in w[0][::-1]), d[tuple(w[0])], e[tuple(w[0])]))
    for k, v in attrs.items():
        if A.get(k) != v: bad.append("attribute '%s' is %r instead of %r" % (k, A.get(k), v))
    return bad


def judge_vti(path, U, names, ext, origin, spacing, dim, ascii_):
    """one image data file holding the cells of U with extent ext (6 ints)"""
    bad = []
    try: root, arr, asc = read_vtk(path)
    except BadFile as e: return [str(e)]
    im = root.find("ImageData"); pc = im.find("Piece") if im is not None else None
    if root.get("type") != "ImageData" or pc is None: return ["not an ImageData file"]
    if asc != ascii_: bad.append("ascii/binary option not honoured")
    if ints(im.get("WholeExtent")) != ext or ints(pc.get("Extent")) != ext: bad.append("extent %s / %s instead of %s" % (im.get("WholeExtent"), pc.get("Extent"), ext))
    if not close_text(floats(im.get("Origin"))[:dim], origin[:dim]): bad.append("origin %s instead of %s" % (im.get("Origin"), origin))
    if not close_text(floats(im.get("Spacing"))[:dim], spacing[:dim]): bad.append("spacing %s instead of %s" % (im.get("Spacing"), spacing))
    if sorted(arr) != sorted(names): bad.append("arrays %s instead of %s" % (sorted(arr), sorted(names)))
    cells = set(d.get("Name") for d in pc.find("CellData").iter("DataArray")) if pc.find("CellData") is not None else set()
    if cells != set(arr): bad.append("arrays are not all cell data")
    for v, n in enumerate(names):
        if n not in arr: continue
        e = U[..., v].transpose(2, 1, 0).ravel(); a = arr[n]
        if a.size != e.size: bad.append("%s has %d values instead of %d" % (n, a.size, e.size)); continue
        if not (close_text(a, e) if asc else np.array_equal(a, e, equal_nan=True)):
            w = np.argwhere(~(np.abs(a - e) <= (5.1e-6 * np.abs(e) if asc else 0)))
            bad.append("%s differs in %d of %d cells, first flat index %d: file %.17g solution %.17g" % (n, len(w), e.size, w[0][0], a[w[0][0]], e[w[0][0]]))
    return bad


def judge_vtu(path, V, names, n, cell0, L0, h, nodes, dim, N, step, t, ascii_):
    """unstructured file of one (sub)domain. V [nx][ny][nz][var][kz][ky][kx]; cell0 global index of its first cell"""
    bad = []
    try: root, arr, asc = read_vtk(path)
    except BadFile as e: return [str(e)]
    pc = root.find("UnstructuredGrid/Piece")
    if root.get("type") != "UnstructuredGrid" or pc is None: return ["not an UnstructuredGrid file"]
    if asc != ascii_: bad.append("ascii/binary option not honoured")
    nc = int(np.prod(n)); sub = N ** dim; nn = (N + 1) ** dim
    if int(pc.get("NumberOfPoints")) != nc * nn or int(pc.get("NumberOfCells")) != nc * sub: return bad + ["piece sizes %s %s" % (pc.get("NumberOfPoints"), pc.get("NumberOfCells"))]
    if "CYCLE" in arr and int(arr["CYCLE"][0]) != step: bad.append("CYCLE %s instead of %d" % (arr["CYCLE"], step))
    if "TIME" in arr and not close_text(arr["TIME"], [t]): bad.append("TIME %s instead of %.17g" % (arr["TIME"], t))
    if "CYCLE" not in arr or "TIME" not in arr: bad.append("no time or step number")
    for k in ("Points", "connectivity", "offsets", "types"):
        if k not in arr: return bad + ["no array " + k]
    P = arr["Points"]
    if P.size != 3 * nc * nn: return bad + ["%d point coordinates instead of %d" % (P.size, 3 * nc * nn)]
    P = P.reshape(-1, 3); q = 2 ** dim; C = arr["connectivity"].astype(int)
    if C.size != nc * sub * q or C.min() < 0 or C.max() >= len(P): return bad + ["connectivity out of range"]
    if not np.array_equal(arr["offsets"], q * np.arange(1, nc * sub + 1)): bad.append("offsets wrong")
    if not np.all(arr["types"] == (9 if dim == 2 else 12)) or arr["types"].size != nc * sub: bad.append("cell types wrong")
    C = C.reshape(-1, q); X = P[C]; lo, hi = X.min(1), X.max(1)
    # corners in VTK order (quad / hexahedron) of an axis-aligned box
    o = np.array([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)] + ([(0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)] if dim == 3 else []))
    W = np.where(o[None] == 0, lo[:, None], hi[:, None])
    tolp = 1e-5 * (np.abs(P).max() + 1)
    if not np.all(np.abs(W - X) <= tolp): bad.append("cells are not axis-aligned boxes with the corners in VTK order")
    # solution points in file order of cells is not assumed: find each from the position of its box
    mid = .5 * (lo + hi)[:, :dim]; idx = np.zeros((len(mid), dim), int); loc = np.zeros((len(mid), dim), int)
    edge = np.concatenate([[0], .5 * (nodes[1:] + nodes[:-1]), [1]]); cm = .5 * (edge[1:] + edge[:-1])
    for d in range(dim):
        s = (mid[:, d] - L0[d]) / h[d] - cell0[d]
        idx[:, d] = np.clip(np.floor(s), 0, n[d] - 1); loc[:, d] = np.argmin(np.abs((s - idx[:, d])[:, None] - cm[None]), axis=1)
        eb = L0[d] + (cell0[d] + idx[:, d] + edge[loc[:, d]]) * h[d]; ee = L0[d] + (cell0[d] + idx[:, d] + edge[loc[:, d] + 1]) * h[d]
        if not (np.all(np.abs(lo[:, d] - eb) <= tolp) and np.all(np.abs(hi[:, d] - ee) <= tolp)): bad.append("cell boxes are not those around the solution points along axis %d (off by %.3g)" % (d, max(np.abs(lo[:, d] - eb).max(), np.abs(hi[:, d] - ee).max()))); break
    if len(set(map(tuple, np.concatenate([idx, loc], 1)))) != nc * sub: bad.append("cells do not cover each solution point once")
    if dim == 2: e = V[idx[:, 0], idx[:, 1], 0, :, 0, loc[:, 1], loc[:, 0]]
    else: e = V[idx[:, 0], idx[:, 1], idx[:, 2], :, loc[:, 2], loc[:, 1], loc[:, 0]]
    extra = set(arr) - set(names) - {"Points", "connectivity", "offsets", "types", "CYCLE", "TIME"}
    if extra: bad.append("unexpected arrays %s" % sorted(extra))
    for v, nme in enumerate(names):
        if nme not in arr: bad.append("no array " + nme); continue
        a = arr[nme]
        if a.size != len(e): bad.append("%s has %d values" % (nme, a.size)); continue
        if not (close_text(a, e[:, v]) if asc else np.array_equal(a, e[:, v], equal_nan=True)):
            w = np.argwhere(~(np.abs(a - e[:, v]) <= (5.1e-6 * np.abs(e[:, v]) if asc else 0)))
            bad.append("%s differs at %d of %d points, first at cell %s point %s: file %.17g solution %.17g" % (nme, len(w), len(e), tuple(idx[w[0][0]]), tuple(loc[w[0][0]]), a[w[0][0]], e[w[0][0], v]))
    return bad


def judge_pvti(path, names, whole, origin, spacing, dim, pieces):
    """pieces {file name: extent}"""
    bad = []
    try: root = ET.fromstring(open(path, "rb").read())
    except ET.ParseError as e: return ["not well-formed XML: %s" % e]
    im = root.find("PImageData")
    if im is None: return ["not a PImageData file"]
    if ints(im.get("WholeExtent")) != whole: bad.append("whole extent %s instead of %s" % (im.get("WholeExtent"), whole))
    if not close_text(floats(im.get("Origin"))[:dim], origin[:dim]) or not close_text(floats(im.get("Spacing"))[:dim], spacing[:dim]): bad.append("origin %s spacing %s instead of %s %s" % (im.get("Origin"), im.get("Spacing"), origin, spacing))
    if sorted(d.get("Name") for d in root.iter("PDataArray")) != sorted(names): bad.append("arrays %s" % [d.get("Name") for d in root.iter("PDataArray")])
    got = {}
    for p in root.iter("Piece"):
        if p.get("Source") in got: bad.append("piece %s twice" % p.get("Source"))
        got[p.get("Source")] = ints(p.get("Extent"))
    if got != pieces: bad.append("pieces %s instead of %s" % (got, pieces))
    return bad


def judge_pvtu(path, names, pieces):
    bad = []
    try: root = ET.fromstring(open(path, "rb").read())
    except ET.ParseError as e: return ["not well-formed XML: %s" % e]
    if root.find("PUnstructuredGrid") is None: return ["not a PUnstructuredGrid file"]
    got = [p.get("Source") for p in root.iter("Piece")]
    if sorted(got) != sorted(pieces): bad.append("pieces %s instead of %s" % (got, pieces))
    pc = root.find("PUnstructuredGrid/PCellData"); have = sorted(d.get("Name") for d in pc) if pc is not None else []
    if have != sorted(names): bad.append("arrays %s instead of %s" % (have, sorted(names)))
    return bad


def judge_xmf(ctx, path, files, names, shape):
    """files: base names of the HDF5 files in order; shape: of each dataset, file order"""
    bad = []
    try: root = ET.fromstring(re.sub(rb"<!DOCTYPE[^>]*\[\]>", b"", open(path, "rb").read()))
    except ET.ParseError as e: return ["not well-formed XML: %s" % e]
    grids = [g for g in root.iter("Grid") if g.get("GridType") == "Uniform"]
    if len(grids) != len(files): bad.append("%d grids for %d files" % (len(grids), len(files)))
    last = None
    for g, f in zip(grids, files):
        t = float(g.find("Time").get("Value"))
        if last is not None and not t > last: bad.append("time values do not increase")
        last = t
        topo = ints(g.find("Topology").get("NumberOfElements"))
        if topo != list(shape): bad.append("topology %s instead of %s" % (topo, list(shape)))
        seen = []
        for a in g.iter("Attribute"):
            s = a.find("DataStructure"); ref = s.text.strip(); seen.append(a.get("Name"))
            fn, ds = ref.split(":/", 1)
            if fn != f: bad.append("grid refers to %s instead of %s" % (fn, f))
            if not os.path.exists(os.path.join(os.path.dirname(path), fn)): bad.append("refers to %s, which does not exist beside it" % fn)
            if ds != a.get("Name"): bad.append("attribute %s refers to dataset %s" % (a.get("Name"), ds))
            if ints(s.get("Dimensions")) != list(shape): bad.append("dimensions %s instead of %s" % (s.get("Dimensions"), list(shape)))
            if s.get("DataType") != "Double" or s.get("Format") != "HDF": bad.append("wrong data type or format")
        if sorted(seen) != sorted(names): bad.append("attributes %s instead of %s" % (sorted(seen), sorted(names)))
    return bad[:6]
