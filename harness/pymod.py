"""Histories on the Python module, each call compared with the C++ interface.
    pymod.py OUT SEED COUNT DIR     (DIR has tinymesh.so, libref.so and the stand-in numpy)"""
import ctypes, gc, json, math, os, random, signal, sys, tempfile, time
OUT, SEED, COUNT, DIR = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
sys.path.insert(0, DIR)
import numpy
import tinymesh as tm

ref = ctypes.PyDLL(os.path.join(DIR, "libref.so"))
own = ctypes.PyDLL(os.path.join(DIR, "tinymesh.so"))
for n in ("ref_new", "ref_open", "ref_clone"):
    getattr(ref, n).restype = ctypes.c_void_p
ref.ref_out.restype = ctypes.POINTER(ctypes.c_double)
ref.ref_message.restype = ctypes.c_char_p
P = ctypes.c_void_p


def ref_out():
    n = ctypes.c_int()
    p = ref.ref_out(ctypes.byref(n))
    return [p[i] for i in range(n.value)]


# name: [(parameter, type, default)...], and the defaults of the C++ interface if they differ
F, I, B = "float", "int", "bool"
SIG = {
    "smooth_laplacian": [("mesh", "mesh", None), ("epsilon", F, 1.0), ("cotangent_weight", B, False), ("iterations", I, 3)],
    "smooth_taubin": [("mesh", "mesh", None), ("shrink", F, 0.5), ("inflate", F, 0.53), ("iterations", I, 3)],
    "implicit_fairing": [("mesh", "mesh", None), ("epsilon", F, 1.0), ("iterations", I, 1)],
    "denoise_normal_gaussian": [("mesh", "mesh", None), ("sigma", F, 0.2), ("iterations", I, 3)],
    "denoise_normal_bilateral": [("mesh", "mesh", None), ("sigma_c", F, 0.2), ("sigma_s", F, 0.1), ("iterations", I, 3)],
    "denoise_l0_smooth": [("mesh", "mesh", None), ("alpha", F, 0.1), ("beta", F, 0.001)],
    "remesh_triangular": [("mesh", "mesh", None), ("short_length", F, 0.8), ("long_length", F, 1.333),
                          ("angle_keep_less_than", F, 0.0), ("iterations", I, 5), ("verbose", B, False)],
    "simplify_qem": [("mesh", "mesh", None), ("n_triangles", I, None), ("n_trials", I, 10), ("verbose", B, False)],
    "hole_fill_min_dihedral": [("mesh", "mesh", None), ("face", "face", None), ("dihedral_bound", F, math.pi)],
    "hole_fill_advancing_front": [("mesh", "mesh", None), ("face", "face", None)],
    "hole_fill_context_coherent": [("mesh", "mesh", None), ("maxiters", I, 200)],
    "get_hausdorff_distance": [("mesh0", "mesh", None), ("mesh1", "mesh", None)],
    "get_per_vertex_shortest_distances": [("src", "mesh", None), ("dst", "mesh", None)],
    "get_mesh_laplacian": [("mesh", "mesh", None), ("type", "laplace", None)],
    "get_heat_kernel_signatures": [("mesh", "matrix", None), ("K", I, 300), ("n_times", I, 100)],
    "get_principal_curvatures": [("mesh", "mesh", None), ("smooth_tensors", B, False)],
    "get_principal_curvatures_with_derivatives": [("mesh", "mesh", None), ("smooth_tensors", B, False)],
    "get_feature_line_field": [("mesh", "mesh", None), ("smooth_tensors", B, False)],
    "get_feature_line_field_with_flags": [("mesh", "mesh", None), ("smooth_tensors", B, False)],
}
CPP = {"denoise_normal_gaussian": [0.2, 5], "denoise_normal_bilateral": [0.2, 0.1, 5]}
FILTERS = ["smooth_laplacian", "smooth_taubin", "implicit_fairing", "denoise_normal_gaussian", "denoise_normal_bilateral",
           "denoise_l0_smooth"]
EDITS = ["remesh_triangular", "simplify_qem", "hole_fill_min_dihedral", "hole_fill_advancing_front"]
PURE = ["get_hausdorff_distance", "get_per_vertex_shortest_distances", "get_mesh_laplacian", "get_heat_kernel_signatures",
        "get_principal_curvatures", "get_principal_curvatures_with_derivatives", "get_feature_line_field",
        "get_feature_line_field_with_flags"]
# the order of addresses decides details of their results; noted by the wrappers instead
LOOSE = {"remesh_triangular": 1, "simplify_qem": 2, "hole_fill_advancing_front": 3, "hole_fill_context_coherent": 4}
LAPLACE = ["ADJACENT", "COTANGENT", "BELKIN08"]


# ---------------------------------------------------------------- shapes
def shape(g, k=None):
    k = g.randrange(6) if k is None else k
    if k == 0:
        v = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
        t = [(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)]
    elif k == 1:
        v = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
        t = [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]
    elif k == 2:
        n, m = g.randrange(2, 5), g.randrange(2, 5)
        v = [(i, j, 0) for i in range(n + 1) for j in range(m + 1)]
        t = []
        for i in range(n):
            for j in range(m):
                a = i * (m + 1) + j
                b, c, d = a + m + 1, a + m + 2, a + 1
                t += [(a, b, c), (a, c, d)]
    else:
        n, q = (g.randrange(5, 9), g.randrange(3, 6)) if k < 6 else (20, 17)
        v = [(0, 0, 1)] + [(math.sin(math.pi * r / (q + 1)) * math.cos(2 * math.pi * (i + .5 * r) / n),
                            math.sin(math.pi * r / (q + 1)) * math.sin(2 * math.pi * (i + .5 * r) / n),
                            math.cos(math.pi * r / (q + 1))) for r in range(1, q + 1) for i in range(n)] + [(0, 0, -1)]
        at = lambda r, i: 1 + (r - 1) * n + i % n
        t = [(0, at(1, i), at(1, i + 1)) for i in range(n)]
        for r in range(1, q):
            for i in range(n):
                t += [(at(r, i), at(r + 1, i), at(r, i + 1)), (at(r, i + 1), at(r + 1, i), at(r + 1, i + 1))]
        t += [(len(v) - 1, at(q, i + 1), at(q, i)) for i in range(n)]
        if k == 4 and g.random() < .7:
            t = [x for x in t if 0 not in x]
            v, t = v[1:], [tuple(i - 1 for i in x) for x in t]
            if g.random() < .5:      # a ragged rim
                v = [(x, y, z + g.uniform(-.8, .8)) for x, y, z in v[:n]] + v[n:]
        elif k == 3 and g.random() < .3:
            # a rim whose filling depends on how much worse a bend may get for less area
            v = g.choice([[(1.0, 0.1, -0.3), (1.0, 0.2, 0.6), (-1.0, -0.1, -0.3), (-0.7, -0.8, 0.1), (0.2, -1.0, -0.5),
                           (2.0, 0.2, 1.6), (2.0, 0.4, -1.1), (-2.0, -0.3, 1.2), (-1.3, -1.5, -1.5), (0.4, -2.0, -2.2)],
                          [(1.0, 0.2, 0.1), (0.9, 0.4, 0.9), (-0.9, 0.5, -0.1), (-0.6, -0.8, 0.5), (-0.4, -0.9, 0.4),
                           (2.0, 0.3, -2.3), (1.9, 0.7, -0.8), (-1.7, 1.0, -1.4), (-1.1, -1.7, 1.0), (-0.9, -1.8, -0.6)]])
            t = [x for i in range(5) for x in ((i, i + 5, (i + 1) % 5), ((i + 1) % 5, i + 5, (i + 1) % 5 + 5))]
            return v, [i for x in t for i in x]
    s = g.choice([1.0, 1.0, 0.25, 10.0])
    if k < 2 or g.random() < .9:
        v = [tuple(s * (c + g.uniform(-.05, .05)) for c in p) for p in v]
    return v, [i for x in t for i in x]


# ---------------------------------------------------------------- logging
class History:
    def __init__(self, f, g):
        self.f, self.g = f, g
        self.toks = {}
        self.mesh = {}     # name -> (Python mesh or None once dropped, C++ mesh)
        self.hand = {}     # name -> (Python handle, mesh name, kind, index)
        self.n = 0

    def tok(self, vals):
        k = tuple("nan" if x != x else float(x).hex() for x in vals)
        return self.toks.setdefault(k, len(self.toks))

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def pystate(self, m):
        v = [m.num_vertices(), m.num_edges(), m.num_halfedges(), m.num_faces()]
        for p in m.get_vertices():
            v += p.tolist()
        v += m.get_vertex_indices()
        for i in range(m.num_vertices()):
            x = m.vertex(i)
            v.append(x.is_boundary() + 2 * x.is_locked())
        for i in range(m.num_faces()):
            x = m.face(i)
            v.append(x.is_hole() + 2 * x.is_locked())
        return self.tok(v)

    def refstate(self, p):
        if ref.ref_state(P(p)):
            raise RuntimeError("state of the C++ mesh: %s" % ref.ref_message())
        return self.tok(ref_out())

    def line(self, **e):
        e["all"] = [[n, self.pystate(m), self.refstate(r)] for n, (m, r) in sorted(self.mesh.items()) if m is not None]
        self.f.write(json.dumps(e, separators=(",", ":")) + "\n")
        self.f.flush()

    # -------------------------------------------------------- steps
    def new(self, v, t, form):
        pv = [list, tuple, numpy.array][form % 3]
        vs = [pv(p) for p in v]
        if form // 3 % 2:
            vs = tuple(vs)
        if form >= 8:
            vs = numpy.array([[p[k] for p in v] for k in range(3)]).T     # not contiguous
        elif form >= 6:
            vs = numpy.array(v)
        ts = [list, tuple, lambda x: numpy.array(x, "I")][form % 3](t)
        n = self.fresh("m")
        m = tm.Mesh(vs, ts)
        r = ref.ref_new((ctypes.c_double * (3 * len(v)))(*[c for p in v for c in p]), len(v), (ctypes.c_uint32 * len(t))(*t), len(t))
        if not r:
            raise RuntimeError(ref.ref_message())
        self.mesh[n] = (m, r)
        self.line(op="new", m=n, how="lists")
        return n

    def value(self, x):
        """(Python value, [type, as given, as float, as bool])"""
        if isinstance(x, bool):
            return [B, repr(x), repr(float(x)), repr(x)]
        if isinstance(x, int):
            return [I, repr(x), repr(float(x)), repr(x != 0)]
        if isinstance(x, float):
            return [F, repr(x), repr(x), repr(x != 0)]
        for n, (m, r) in self.mesh.items():
            if m is x:
                return ["mesh", n, "", ""]
        for n, h in self.hand.items():
            if h[0] is x:
                return [h[2], n, "", ""]
        if isinstance(x, tm.MeshLaplace):
            return ["laplace", x.name, "", ""]
        if type(x).__name__ == "csc_matrix":
            return ["matrix", x.of, "", ""]
        if x is None:
            return ["none", "None", "", ""]
        if isinstance(x, str):
            return ["str", x, "", ""]
        return ["other", type(x).__name__, "", ""]

    def call(self, f, args, pos, kw):
        """args: full list of values for the reference; pos, kw: as called"""
        sig = SIG[f]
        e = dict(op="call", f=f, pos=[self.value(x) for x in pos], kw=[[k, self.value(x)] for k, x in kw])
        err, res = "", None
        os.ftruncate(AT, 0)
        os.pwrite(AT, f.encode(), 0)
        try:
            res = getattr(tm, f)(*pos, **dict(kw))
        except TypeError:
            err = "TypeError"
        except (RuntimeError, ValueError):     # ValueError: raised by the eigenvalue solver, not by the library
            err = "RuntimeError"
        e["err"] = err
        if args is None:          # no reference: the call must not be possible
            e["full"] = []
            e["rerr"], e["res"], e["rres"], e["left"] = "TypeError", 0, 0, 0
            self.line(**e)
            return
        full, opt = [], []
        for (n, t, d), x in zip(sig, args):
            v = self.value(x)
            full.append(v[2] if t == F else v[3] if t == B else v[1])
            if t in (F, I, B):
                opt.append(float(x))
            elif t == "laplace":
                opt.append(float(LAPLACE.index(x.name)))
        e["full"] = full
        meshes = [self.mesh[x][1] for (n, t, d), x in zip(sig, full) if t == "mesh"] or [self.mesh[full[0]][1]]
        face = [self.hand[x][3] for (n, t, d), x in zip(sig, full) if t == "face"]
        if f in LOOSE:
            buf, n = (ctypes.c_double * 8)(), ctypes.c_int()
            w = own.py_got(buf, ctypes.byref(n))
            got, arr = list(buf[:n.value]), []
            for (name, t, d), v in zip(sig[1:], full[1:]):
                x = got.pop(0) if got else math.nan
                arr.append(repr(x) if t == F else repr(int(x)) if t == I and x == x else repr(x != 0) if t == B
                           else v if t == "face" and x == face[0] else "?")
            e.update(op="pass", noted=int(w == LOOSE[f]), known=own.py_has(LOOSE[f]), arr=arr)
            name = full[0]
            self.mesh[name] = (None, self.mesh[name][1])
            self.hand = {h: x for h, x in self.hand.items() if x[1] != name}
            self.line(**e)
            return
        # trailing arguments may be left to the defaults of the C++ interface
        cpp = CPP.get(f) or [d for n, t, d in sig if d is not None]
        k = len(opt)
        while k > 0 and k > len(opt) - len(cpp) and opt[k - 1] == float(cpp[k - 1 - (len(opt) - len(cpp))]):
            k -= 1
        if f == "get_mesh_laplacian":
            k = len(opt)
        k = self.g.randrange(k, len(opt) + 1)
        e["left"] = len(opt) - k
        r = ref.ref_call(f.encode(), P(meshes[0]), P(meshes[-1]), face[0] if face else 0, (ctypes.c_double * 8)(*opt), k)
        ro = ref_out()
        e["rerr"] = "RuntimeError" if r else ""
        e["res"] = self.tok(flat(res)) if not err else 0
        e["rres"] = self.tok(ro) if not r else 0
        if r or err:
            # both may have stopped half way: what is left is not compared
            e["all"] = []
            self.f.write(json.dumps(e, separators=(",", ":")) + "\n")
            self.f.flush()
            return "stop"
        self.line(**e)

    def take(self, n, kind, i):
        m = self.mesh[n][0]
        h = self.fresh("h")
        self.hand[h] = (m.vertex(i) if kind == "vertex" else m.face(i), n, kind, i)
        self.line(op="take", h=h, m=n, kind=kind, i=i)
        return h

    def use(self, h, f, arg=None):
        x, n, kind, i = self.hand[h]
        err, res = "", None
        try:
            res = getattr(x, f)(*([] if arg is None else [arg]))
        except RuntimeError:
            err = "RuntimeError"
        except TypeError:
            err = "TypeError"
        a = None
        bad = False
        if arg is not None:
            v = arg.tolist() if isinstance(arg, numpy.ndarray) else arg
            bad = not (isinstance(v, (list, tuple)) and len(v) == 3 and all(isinstance(c, (int, float)) for c in v))
            if not bad:
                a = (ctypes.c_double * 3)(*v)
        if bad:
            rerr, ro = "TypeError", []
        else:
            rerr = "RuntimeError" if ref.ref_part(P(self.mesh[n][1]), kind == "face", i, f.encode(), a) else ""
            ro = ref_out() if not rerr else []
        self.line(op="use", h=h, f=f, bad=int(bad), err=err, rerr=rerr, res=self.tok((res.tolist() if isinstance(res, numpy.ndarray) else flat(res)) if not err else []), rres=self.tok(ro))

    def drop(self, n):
        m, r = self.mesh[n]
        self.mesh[n] = (None, r)
        del m
        gc.collect()
        self.line(op="drop", m=n)

    def forget(self, n):
        """handles into a mesh whose parts were exchanged are not used any more"""
        gone = [h for h in self.hand if self.hand[h][1] == n]
        for h in gone:
            del self.hand[h]
        if gone:
            self.line(op="forget", hs=gone)


def flat(x):
    if x is None:
        return []
    if isinstance(x, (bool, int, float)):
        return [float(x)]
    if isinstance(x, tuple):
        return [c for y in x for c in dims(y)]
    return dims(x)


def dims(x):
    """array or sparse matrix with its size, row by row"""
    if isinstance(x, numpy.ndarray):
        r = [float(n) for n in x.shape]
        l = x.tolist()
        return r + (l if len(x.shape) == 1 else [c for row in l for c in row])
    d = [[0.0] * x.shape[1] for _ in range(x.shape[0])]
    for i, j, v in x.entries():
        d[i][j] = v
    return [float(x.shape[0]), float(x.shape[1])] + [c for row in d for c in row]


# ---------------------------------------------------------------- histories
def forms(g, sig, vals):
    """a way to write a call: leading arguments by position, others by name, defaults left out"""
    n = len(sig)
    p = g.randrange(0, n + 1)
    pos = vals[:p]
    kw = [(sig[i][0], vals[i]) for i in range(p, n) if sig[i][2] is None or vals[i] != sig[i][2] or g.random() < .2]
    g.shuffle(kw)
    return pos, kw


def pick(g, t, d, name):
    if d is not None and g.random() < .55:
        return d
    if t == B:
        return g.choice([True, False, True, False, 1, 0, 0.5])
    if t == I:
        return {"n_triangles": g.choice([4, 8, 20]), "K": g.choice([2, 3, 4]), "n_times": g.choice([1, 2, 7])}.get(name, g.choice([0, 1, 2, 4]))
    if name in ("short_length", "long_length"):
        return g.choice([0.7, 0.9]) if name == "short_length" else g.choice([1.2, 1.5])
    if name == "beta":
        return g.choice([0.5, 100.0, 800.0, 2000.0])
    return g.choice([0.5, 0.25, 0.1, 1.0, 2, 1, 0.75])


def history(f, seed, big):
    g = random.Random(seed)
    h = History(f, g)
    a = h.new(*shape(g, 6 if big else None), g.randrange(10))
    names = [a]
    if big:
        m = h.mesh[a][0]
        L = tm.get_mesh_laplacian(m, tm.MeshLaplace.COTANGENT)
        L.of = a
        h.call("get_heat_kernel_signatures", [L, 300, 100], [], [("mesh", L)])
        h.call("get_heat_kernel_signatures", [L, 300, 3], [L], [("n_times", 3)])
        h.call("hole_fill_context_coherent", [m, 200], [m], [])
        return
    tmp = tempfile.mkdtemp(prefix="pymod-")
    try:
        for step in range(g.randrange(4, 11)):
            m = vals = pos = kw = x = None     # no names for meshes and handles but those of the history
            live = [n for n in names if h.mesh[n][0] is not None]
            k = g.choice(range(0, 50)) if h.hand and g.random() < .5 else g.randrange(100)
            if k < 8 and len(names) < 4:
                names.append(h.new(*shape(g), g.randrange(10)))
            elif k < 13 and live and len(names) < 4:
                s = g.choice(live)
                n = h.fresh("m")
                err = ""
                try:
                    x = h.mesh[s][0].clone()
                except RuntimeError:
                    err = "RuntimeError"
                y = ref.ref_clone(P(h.mesh[s][1]))
                if x is not None and y:
                    h.mesh[n] = (x, y)
                    names.append(n)
                    h.line(op="clone", m=n, of=s)
                else:
                    h.line(op="open", err=err, rerr="" if y else "RuntimeError")
            elif k < 20 and live:
                n = g.choice(live)
                for _ in range(g.randrange(1, 3)):
                    kind = g.choice(["vertex", "face"])
                    m = h.mesh[n][0]
                    h.take(n, kind, g.randrange(m.num_vertices() if kind == "vertex" else m.num_faces()))
            elif k < 42 and h.hand:
                x = g.choice(sorted(h.hand))
                if h.hand[x][2] == "face":
                    h.use(x, g.choice(["area", "is_boundary", "is_hole", "is_locked"]))
                else:
                    q = g.choice(["pos", "pos", "set_pos", "set_pos", "normal", "K", "H", "is_boundary", "is_locked", "lock", "unlock"])
                    if q == "set_pos":
                        arg = [g.choice([g.uniform(-1, 1), g.randrange(-3, 4)]) for _ in range(3)]
                        b = g.randrange(10)
                        arg = arg[:2] if b == 0 else arg + [1.0] if b == 1 else g.choice([[arg], [[c] for c in arg], numpy.array([[c, 5.0] for c in arg])]) if b == 2 else ["a", "b", "c"] if b == 3 \
                            else numpy.array(arg) if b < 5 else numpy.array([[c, 5.0] for c in arg]).T[0] if b < 6 \
                            else numpy.array([int(c) for c in arg], "l") if b < 7 else tuple(arg) if b < 8 else arg
                        h.use(x, q, arg)
                    else:
                        h.use(x, q)
            elif k < 47 and h.hand and any(x[1] in live for x in h.hand.values()):
                h.drop(g.choice(sorted({x[1] for x in h.hand.values() if x[1] in live})))
            elif k < 51 and live:
                n = g.choice(live)
                ext = g.choice(["obj", "ply", "off"])
                p, q = os.path.join(tmp, "p." + ext), os.path.join(tmp, "r." + ext)
                err = ""
                try:
                    h.mesh[n][0].save(p)
                except RuntimeError:
                    err = "RuntimeError"
                rerr = "RuntimeError" if ref.ref_file(P(h.mesh[n][1]), q.encode(), 1) else ""
                same = int(os.path.exists(p) == os.path.exists(q) and (not os.path.exists(p) or open(p, "rb").read() == open(q, "rb").read()))
                h.line(op="save", m=n, err=err, rerr=rerr, same=same)
                if not err and not rerr:
                    if g.random() < .5:
                        w = h.fresh("m")
                        x, err = None, ""
                        try:
                            x = tm.Mesh(p)
                        except RuntimeError:
                            err = "RuntimeError"
                        y = ref.ref_open(q.encode())
                        if x is not None and y:
                            h.mesh[w] = (x, y)
                            names.append(w)
                            h.line(op="new", m=w, how="file")
                        else:
                            h.line(op="open", err=err, rerr="" if y else "RuntimeError")
                        x = None
                    else:
                        h.forget(n)
                        err = ""
                        try:
                            h.mesh[n][0].load(p)
                        except RuntimeError:
                            err = "RuntimeError"
                        rerr = "RuntimeError" if ref.ref_file(P(h.mesh[n][1]), q.encode(), 0) else ""
                        if err or rerr:
                            f.write(json.dumps(dict(op="load", m=n, err=err, rerr=rerr, all=[]), separators=(",", ":")) + "\n")
                            return
                        h.line(op="load", m=n, err="", rerr="")
            elif k < 53 and live:
                n = g.choice(live)
                m = h.mesh[n][0]
                kind = g.choice(["vertex", "face"])
                i = g.choice([-1, (m.num_vertices if kind == "vertex" else m.num_faces)(), 1000000, -2 ** 31])
                err = ""
                try:
                    x = getattr(m, kind)(i)
                except RuntimeError:
                    err = "RuntimeError"
                rerr = "RuntimeError" if ref.ref_part(P(h.mesh[n][1]), kind == "face", i, b"is_locked", None) else ""
                h.line(op="open", err=err, rerr=rerr)
            elif k < 56 and live:
                n = g.choice(live)
                p = os.path.join(tmp, g.choice(["nothing.obj", "nothing.ply", "nothing.xyz"]))
                err = ""
                try:
                    tm.Mesh(p)
                except RuntimeError:
                    err = "RuntimeError"
                rerr = "RuntimeError" if not ref.ref_open(p.encode()) else ""
                h.line(op="open", err=err, rerr=rerr)
            elif k < 60 and live:
                n = g.choice(live)
                h.forget(n)
                m = h.mesh[n][0]
                q = g.choice(["fill_holes", "verify"])
                err, res = "", None
                try:
                    res = getattr(m, q)()
                except RuntimeError:
                    err = "RuntimeError"
                r = ref.ref_call(q.encode(), P(h.mesh[n][1]), None, 0, None, 0)
                if err or r:
                    f.write(json.dumps(dict(op="method", m=n, f=q, err=err, rerr="RuntimeError" if r else "", res=0, rres=0, all=[]), separators=(",", ":")) + "\n")
                    return
                h.line(op="method", m=n, f=q, err="", rerr="", res=h.tok(flat(res)), rres=h.tok(ref_out()))
            elif k < 72 and live:
                # a call that cannot be made
                q = g.choice(sorted(SIG))
                sig = SIG[q]
                m = h.mesh[g.choice(live)][0]
                b = g.randrange(6)
                if q == "get_heat_kernel_signatures":
                    continue
                vals = [m if t == "mesh" else tm.MeshLaplace.ADJACENT if t == "laplace" else None if t == "face" else 8 if d is None else d
                        for _, t, d in sig]
                if any(t == "face" for _, t, _ in sig):
                    h.call(q, None, [m, g.choice([None, 0, "face", m.vertex(0)])], [])
                    continue
                if b == 0:
                    h.call(q, None, vals, [("nonsense", 1)])
                elif b == 1:
                    h.call(q, None, vals + [1], [])
                elif b == 2:
                    h.call(q, None, vals, [(sig[-1][0], vals[-1])])
                elif b == 3:
                    h.call(q, None, [], [(s[0], v) for s, v in zip(sig[1:], vals[1:])])
                elif b == 4:
                    i = g.randrange(len(sig))
                    vals[i] = "text"
                    h.call(q, None, vals, [])
                else:
                    js = [i for i, s in enumerate(sig) if s[1] == I]
                    if not js:
                        continue
                    vals[js[0]] = 2.5
                    h.call(q, None, vals, [])
            elif live:
                q = g.choice(FILTERS + FILTERS + PURE + EDITS + EDITS)
                n = g.choice(live)
                m = h.mesh[n][0]
                if g.random() < .2 and any(m.face(i).is_hole() for i in range(m.num_faces())):
                    q = "hole_fill_min_dihedral"
                sig = SIG[q]
                if not all(m.face(i).area() >= 1e-7 for i in range(m.num_faces())):
                    continue       # degenerate
                vals = []
                for name, t, d in sig:
                    if t == "mesh":
                        vals.append(m if not vals else h.mesh[g.choice(live)][0])
                    elif t == "laplace":
                        vals.append(getattr(tm.MeshLaplace, g.choice(LAPLACE)))
                    elif t == "matrix":
                        L = tm.get_mesh_laplacian(m, tm.MeshLaplace.COTANGENT)
                        L.of = n
                        vals.append(L)
                    elif t == "face":
                        fs = [i for i in range(m.num_faces()) if m.face(i).is_hole()]
                        if not fs:
                            break
                        x = h.take(n, "face", g.choice(fs))
                        vals.append(h.hand[x][0])
                    else:
                        vals.append(pick(g, t, d, name))
                if len(vals) < len(sig):
                    continue
                if q == "get_heat_kernel_signatures":
                    vals[1] = min(g.choice([2, 3, 4]), m.num_vertices() - 1)
                if q == "denoise_l0_smooth" and m.num_vertices() > 30:
                    vals[2] = max(vals[2], 10.0)
                if g.random() < .1 and sig[-1][1] == F and isinstance(vals[-1], int):
                    vals[-1] = float(vals[-1])
                if q == "remesh_triangular" and m.num_vertices() > 12:
                    vals[4] = min(vals[4], 1)
                pos, kw = forms(g, sig, vals)
                r = h.call(q, vals, pos, kw)
                if r == "stop":
                    return
                if q in EDITS and q not in LOOSE:
                    h.forget(n)
    finally:
        for x in os.listdir(tmp):
            os.unlink(os.path.join(tmp, x))
        os.rmdir(tmp)


AT = os.memfd_create("at")      # the call being made


def main():
    open(OUT, "w").close()
    hangs = 0
    for i in range(COUNT) if len(sys.argv) < 6 else [int(sys.argv[5])]:     # a single history for looking into it
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
                os.setpgid(0, 0)
                f = open(OUT, "a")
                history(f, SEED * 1000003 + i, i == COUNT - 1 and SEED % 4 == 0)
                f.flush()
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(code)
        limit = time.time() + (240 if i == COUNT - 1 else 30)
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() > limit:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                st = None
                break
            time.sleep(.002)
        if st is not None and os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3:
            res = "failure"
        else:
            # whether remeshing, simplification and filling end is not what is judged here
            at = os.pread(AT, 100, 0).decode()
            res = "ok" if st is None and at in LOOSE else "hang" if st is None else "ok" if st == 0 else "crash"
        with open(OUT, "a") as f:
            f.write(json.dumps(dict(op="end", res=res, hist=i, all=[]), separators=(",", ":")) + "\n")
        hangs += st is None
        if hangs > 4:
            break


main()
