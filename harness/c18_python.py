"""Runs the Python sessions that TLC generated on the module built from the repository, and their plans on the C++ reference."""
import sys, json, ctypes, gc, os, random
a = dict(x.split("=", 1) for x in sys.argv[1:])
sys.path.insert(0, a["mod"])
import numpy as np
import small_gicp as sg
ref = ctypes.CDLL(a["ref"])
D, L, I = ctypes.c_double, ctypes.c_long, ctypes.c_int
PD = np.ctypeslib.ndpointer(dtype=np.float64, flags="C_CONTIGUOUS")
ref.ref_cloud.argtypes = [PD, L]; ref.ref_cloud.restype = L
ref.ref_size.argtypes = [L]; ref.ref_size.restype = L
ref.ref_get.argtypes = [L, PD, PD, PD]
ref.ref_down.argtypes = [L, D]; ref.ref_down.restype = L
ref.ref_feat.argtypes = [L, I, I]
ref.ref_map.argtypes = [L, D]
ref.ref_reg.argtypes = [I, L, L, PD, D, I, D, D, PD]
ref.ref_lin.argtypes = [I, L, L, D, PD, L, PD]
ref.ref_query.argtypes = [L, PD, L, L, PD]
ref.ref_vox.argtypes = [I, D]; ref.ref_vox.restype = L
ref.ref_vox_lru.argtypes = [L, L, L]
ref.ref_vox_insert.argtypes = [L, L, PD]
ref.ref_vox_size.argtypes = [L]; ref.ref_vox_size.restype = L
ref.ref_vox_get.argtypes = [L, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]; ref.ref_vox_get.restype = L
seed, shard, nshards = int(a.get("seed", 1)), int(a.get("shard", 0)), int(a.get("nshards", 1))
limit = int(a.get("limit", 10 ** 9))
out = open(a["out"], "w")
rng = np.random.RandomState(seed)
pick = random.Random(seed)
EXACT = 2.0 ** 20     # all coordinates are multiples of this fraction: exact as float32 and, scaled, as integers


def emit(**e):
    out.write(json.dumps(e, separators=(",", ":")) + "\n")
    out.flush()


def rot(w):
    t = np.linalg.norm(w); k = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]]) / t
    return np.eye(3) + np.sin(t) * k + (1 - np.cos(t)) * k @ k


def pose(w, t):
    T = np.eye(4); T[:3, :3] = rot(np.array(w)); T[:3, 3] = t
    return T.astype(np.float32).astype(np.float64)


def room(n):
    """points on a floor, two walls and a few boxes, slightly noisy"""
    p = np.empty((n, 3))
    for i in range(n):
        u, v, s = rng.uniform(-2, 2), rng.uniform(-2, 2), rng.randint(0, 5)
        p[i] = [(u, v, 0), (u, 2, v / 2 + 1), (2, u, v / 2 + 1), (u / 4 + 0.5, v / 4, 0.7), (u / 3, -1, v / 3 + 0.66)][s]
    return p + rng.normal(0, 0.01, p.shape) + np.array([3.3, 0.4, 0.7])


exact = lambda p: np.round(p * EXACT) / EXACT
GT = pose([0.02, -0.03, 0.05], [0.11, -0.07, 0.05])
GUESS = pose([0.05, 0.02, -0.06], [0.15, 0.1, -0.12])
FAR = pose([0.3, 0.2, 0.1], [7.0, -3.0, 1.0])


def scene(n):
    t, s = room(n), room(n)
    s = (s - GT[:3, 3]) @ GT[:3, :3]
    return exact(t), exact(s)


def lay(p, kind, cols=None, owned=None):
    """the values p in an array of the given memory layout; owned collects the memory that is overwritten later"""
    p = np.ascontiguousarray(p, dtype=np.float64)
    if cols is not None:
        w = rng.choice([0.0, 1.0, 7.5, -3.0], (len(p), 3))
        p = np.hstack([p, w])[:, :cols] if cols != 3 else p
    r, c = p.shape
    if kind == "list":
        return p.tolist() if r else p
    if kind == "c":
        q = base = p.copy()
    elif kind == "f":
        q = base = np.asfortranarray(p)
        if q is p:
            q = base = p.copy(order="F")
    elif kind == "strided":
        base = rng.uniform(-5, 5, (2 * r + 1, 3 * c)); q = base[1::2, ::3]; q[...] = p
    elif kind == "reversed":
        base = np.ascontiguousarray(p[::-1, ::-1]); q = base[::-1, ::-1]
    elif kind == "wide":
        base = rng.uniform(-5, 5, (r, c + 4)); q = base[:, 2:2 + c]; q[...] = p
    elif kind == "f32":
        q = base = p.astype(np.float32)
    elif kind == "readonly":
        q = p.copy(); q.setflags(write=False); base = None
    elif kind == "swapped":
        q = base = p.astype(">f8")
    elif kind == "int":
        q = base = np.round(p * EXACT).astype(np.int64)
    if owned is not None and base is not None:
        owned.append(base)
    return q


def scribble(owned):
    for b in owned:
        b[...] = 12345 if b.dtype.kind == "i" else 1e6
    owned.clear()


def call(f, names, given, required, mode, defaults):
    """all arguments by position (up to the last one that differs from its default), or by name and in any order"""
    if mode == "pos":
        return f(*[given.get(k, defaults.get(k)) for k in names])
    kw = {k: given[k] for k in names if k in given}
    items = list(kw.items()); pick.shuffle(items)
    return f(**dict(items))


def q(x, scale=1e6):
    x = np.asarray(x, dtype=np.float64) * scale
    x = np.where(np.isfinite(x), np.clip(x, -9e8, 9e8), 950000000.0)
    return np.round(x).astype(np.int64)


def compare(what, got, want, n, wn, access=True):
    """got, want: 2d arrays of values scaled to be comparable; rows in a canonical order"""
    same = got.shape == want.shape
    g, w = q(got), q(want)
    diff = int(min(10 ** 9, np.max(np.abs(g - w)))) if same and g.size else (0 if same else 10 ** 9)
    rows = list(range(len(w))) if len(w) <= 5 else sorted(pick.sample(range(len(w)), 4))
    if same and g.size and diff > 20:
        rows = [int(np.argmax(np.max(np.abs(g - w), axis=1)))] + rows
    emit(op="obs", what=what, got=[g[i].tolist() for i in rows if i < len(g)], want=[w[i].tolist() for i in rows], n=n, wn=wn, diff=diff, access=bool(access))


def order(p):
    r = np.round(p[:, :3], 6)
    return np.lexsort((r[:, 2], r[:, 1], r[:, 0]))


def cloud_values(n, p, nrm, cov, has):
    v = [p]
    v += [nrm] if has & 1 else []
    v += [cov.reshape(n, 16)] if has & 2 else []
    v = np.hstack(v) if n else np.zeros((0, sum(x.shape[1] if x.ndim == 2 else 16 for x in v)))
    return v[order(p)] if n else v


def py_cloud(c, has):
    n = c.size()
    if n == 0:
        return np.zeros((0, 4 + (4 if has & 1 else 0) + (16 if has & 2 else 0))), len(c) == 0 and c.empty()
    p, nrm, cov = c.points(), c.normals(), np.array(c.covs())
    ok = len(c) == n and not c.empty() and p.shape == (n, 4) and nrm.shape == (n, 4) and cov.shape == (n, 4, 4) and str(n) in repr(c)
    for i in {0, n - 1, n // 2, pick.randrange(n)}:
        ok = ok and np.array_equal(c.point(i), p[i])
        ok = ok and (not has & 1 or np.array_equal(c.normal(i), nrm[i], equal_nan=True)) and (not has & 2 or np.array_equal(c.cov(i), cov[i], equal_nan=True))
    v = cloud_values(n, p.copy(), nrm.copy(), cov.copy(), has)
    p[...] = -77.1; nrm[...] = -77.1; cov[...] = -77.1      # what was handed out is a copy
    ok = ok and not np.any(c.points() == -77.1) and (not has & 1 or not np.any(c.normals() == -77.1))
    return v, ok


def ref_cloud(h, has):
    n = ref.ref_size(h)
    p, nrm, cov = np.zeros((n, 4)), np.zeros((n, 4)), np.zeros((n, 4, 4))
    if n:
        ref.ref_get(h, p, nrm, cov)
    return cloud_values(n, p, nrm, cov, has)


TYPES = ["ICP", "PLANE_ICP", "GICP", "VGICP"]
FEATS = {"normals": 0, "covs": 1, "both": 2}
NPRE = ["points", "downsampling_resolution", "num_neighbors", "num_threads"]
NEST = ["points", "tree", "num_neighbors", "num_threads"]
NSAM = ["points", "downsampling_resolution", "num_threads"]
COMMON = ["max_correspondence_distance", "num_threads", "max_iterations", "rotation_epsilon", "translation_epsilon", "verbose"]
NRAW = ["target_points", "source_points", "init_T_target_source", "registration_type", "voxel_resolution", "downsampling_resolution"] + COMMON
NTREE = ["target", "source", "target_tree", "init_T_target_source", "registration_type"] + COMMON
NMAP = ["target_voxelmap", "source", "init_T_target_source"] + COMMON
DEF = dict(downsampling_resolution=0.25, num_neighbors=None, num_threads=1, tree=None, target_tree=None, init_T_target_source=np.eye(4), registration_type="GICP", voxel_resolution=1.0,
           max_correspondence_distance=1.0, max_iterations=20, rotation_epsilon=0.1 * np.pi / 180, translation_epsilon=1e-3, verbose=False)
KEYS = ["res", "pk", "vox", "dist", "iters", "reps", "teps", "init", "lruh", "lruc"]
GIVEN = dict(res=0.42, pk=17, vox=0.6, dist=0.18, iters=3, reps=0.003 * np.pi / 180, teps=20e-6, init=GUESS, lruh=0, lruc=2)
PYNAME = dict(res="downsampling_resolution", pk="num_neighbors", vox="voxel_resolution", dist="max_correspondence_distance", iters="max_iterations", reps="rotation_epsilon",
              teps="translation_epsilon", init="init_T_target_source")


def result_values(T, conv, iters, inl, H, b, e, scale):
    h = max(1e-9, np.max(np.abs(scale[0]))); ee = max(1e-9, abs(scale[2])); hb = max(1e-4 * h, np.max(np.abs(scale[1])))
    return np.concatenate([np.asarray(T).ravel(), [conv, iters / 1.0, inl], np.asarray(H).ravel() / h, np.asarray(b).ravel() / hb, [e / ee]]).reshape(1, -1)


def neutral(r):
    return np.array_equal(r.T_target_source, np.eye(4)) and not r.converged and r.iterations == 0 and r.num_inliers == 0


def shape_bad(c):
    return c["cols"] not in (3, 4)


def outcome(f, kinds):
    """runs a call that has to be refused and says how it was"""
    try:
        r = f()
    except (ValueError, TypeError):
        return "error"
    if r is None:
        return "none"
    if isinstance(r, tuple) and len(r) == 2 and r[0] is None and r[1] is None:
        return "nones"
    if isinstance(r, sg.PointCloud) and r.size() == 0:
        return "empty"
    if isinstance(r, sg.RegistrationResult) and neutral(r):
        return "neutral"
    return "accepted"


def session(rec):
    c, plan = rec["c"], rec["plan"]
    emit(op="session", c=c, plan=plan)
    ref.ref_reset()
    dev = {k: GIVEN[k] for i, k in enumerate(KEYS) if c["dev"] >> i & 1}
    kind, mode, thr, use, src = c["lay"], c["mode"], c["thr"], c["use"], c["src"]
    values = scene(c["n"])
    scale = EXACT if kind == "int" else 1.0
    owned = []
    arr = lambda i, cols=c["cols"]: lay(values[i], kind, cols, owned)
    matrix = lambda T: lay(T, "c" if kind == "int" else kind, None, owned)
    threads = {} if thr == 1 and mode == "kw" else dict(num_threads=thr)
    kw = lambda keys: {PYNAME[k]: (matrix(dev[k]) if k == "init" else dev[k]) for k in keys if k in dev}
    REGKEYS = ["dist", "iters", "reps", "teps", "init"]

    def reg_args(extra=()):
        g = dict(kw(REGKEYS + list(extra)), **threads)
        if not (c["type"] == "GICP" and mode == "kw") and use != "map":
            g["registration_type"] = c["type"]
        if mode == "pos" and "init_T_target_source" not in g:
            g["init_T_target_source"] = matrix(np.eye(4))
        return g

    # ---- refusals
    def raw():
        return call(sg.align, NRAW, dict(reg_args(["vox", "res"]), target_points=arr(0), source_points=arr(1)), 2, mode, DEF)
    if shape_bad(c):
        if use == "raw":
            one = pick.randrange(3)   # the target, the source or both
            fs = [lambda: sg.align(arr(0), arr(1, 3)), lambda: sg.align(arr(0, 3), arr(1)), raw]
            o = outcome(fs[one], 0)
        elif src == "cloud" and use == "none":
            o = outcome(lambda: sg.PointCloud(arr(0)), 0)
        elif src == "sampleA":
            o = outcome(lambda: sg.voxelgrid_sampling(arr(0), 0.25, **threads), 0)
        elif src == "preA":
            o = outcome(lambda: sg.preprocess_points(arr(0), **threads), 0)
        elif src == "treeA":
            o = outcome(lambda: sg.KdTree(arr(0)), 0)
        else:
            t = sg.KdTree(arr(0, 3))
            o = outcome((lambda: t.batch_nearest_neighbor_search(arr(1))) if use == "batchnn" else (lambda: t.batch_knn_search(arr(1), 3)), 0)
        emit(op="obs", what="refused", outcome=o)
        return

    # ---- reference clouds
    h = [ref.ref_cloud(np.ascontiguousarray(v * scale), len(v)) for v in values]
    pl = list(plan)
    has = 0
    while pl and pl[0][0] in ("down", "feat"):
        st = pl.pop(0)
        for j in (0, 1):
            if st[0] == "down":
                h[j] = ref.ref_down(h[j], st[1] / 1000)
            else:
                ref.ref_feat(h[j], FEATS[st[1]], st[2])
        if st[0] == "feat":
            has |= FEATS[st[1]] + 1

    # ---- Python clouds
    clouds, trees = [None, None], [None, None]
    if src == "treeA":
        trees[0] = sg.KdTree(arr(0), **threads) if mode == "kw" else sg.KdTree(arr(0), thr)
    elif src != "raw":
        for j in (0, 1):
            x = arr(j)
            if src in ("cloud", "sampleC", "preC"):
                x = sg.PointCloud(x) if mode == "pos" else sg.PointCloud(points=x)
                scribble(owned)
            if src in ("sampleA", "sampleC"):
                g = dict(dict(downsampling_resolution=0.25), **kw(["res"]), **threads, points=x)
                x = call(sg.voxelgrid_sampling, NSAM, g, 2, mode, DEF)
            if src in ("preA", "preC"):
                g = dict(kw(["res", "pk"]), **threads, points=x)
                x, trees[j] = call(sg.preprocess_points, NPRE, g, 1, mode, dict(DEF, num_neighbors=10))
            clouds[j] = x
            del x
    scribble(owned)
    for f in c["feats"]:
        for j in (0, 1):
            if f["tree"] and trees[j] is None:
                trees[j] = sg.KdTree(clouds[j], **threads) if pick.random() < 0.5 else sg.KdTree(clouds[j].points(), thr)
            g = dict(threads, points=clouds[j])
            if f["k"]:
                g["num_neighbors"] = f["k"]
            if f["tree"]:
                g["tree"] = trees[j]
            fn = dict(normals=sg.estimate_normals, covs=sg.estimate_covariances, both=sg.estimate_normals_covariances)[f["which"]]
            call(fn, NEST, g, 1, mode, dict(DEF, num_neighbors=20))
    gc.collect() if pick.random() < 0.05 else None
    if src not in ("raw", "treeA"):
        g0, ok0 = py_cloud(clouds[0], has); g1, ok1 = py_cloud(clouds[1], has)
        w0, w1 = ref_cloud(h[0], has), ref_cloud(h[1], has)
        s = np.array([scale] * 3 + [1.0] * (w0.shape[1] - 3))
        compare("cloud", np.vstack([g0 / s, g1 / s]), np.vstack([w0 / s, w1 / s]), [len(g0), len(g1)], [len(w0), len(w1)], ok0 and ok1)
    if use == "none":
        return
    st = pl[0]

    # ---- queries
    if st[0] == "query":
        k = st[1]
        if trees[0] is None:
            if c["cols"] == 4:
                trees[0] = sg.KdTree(clouds[0], **threads)
                clouds[0] = None      # the tree keeps what it needs
            else:
                trees[0] = sg.KdTree(points=arr(0))
                scribble(owned)
        tree = trees[0]
        m = 40 if c["n"] < 2000 else 700
        qs = exact(rng.uniform(-1, 6, (m, 3)))
        want = np.zeros((m, k))
        ref.ref_query(h[0], np.ascontiguousarray(qs * scale), m, k, want)
        base = values[0] * scale
        if use == "nn":
            rr = []
            for i in range(m):
                r = tree.nearest_neighbor_search(lay(qs[i:i + 1], kind)[0]) if mode == "kw" else tree.nearest_neighbor_search(pt=lay(qs[i:i + 1], kind)[0])
                rr.append(r)
            ok = all(r[0] == (1 if c["n"] else 0) for r in rr)
            idx, d = np.array([[float(r[1])] for r in rr]), np.array([[r[2]] for r in rr])
        elif use == "knn":
            rr = [tree.knn_search(lay(qs[i:i + 1], kind)[0], k) if i % 2 else tree.knn_search(k=k, pt=lay(qs[i:i + 1], kind)[0]) for i in range(m)]
            ok = True
            idx, d = np.array([r[0] for r in rr], dtype=np.float64), np.array([r[1] for r in rr])
        else:
            x = lay(qs, kind, c["cols"], owned)
            if use == "batchnn":
                idx, d = tree.batch_nearest_neighbor_search(x, **threads) if mode == "kw" else tree.batch_nearest_neighbor_search(x, thr)
                idx, d = np.array(idx, dtype=np.float64).reshape(-1, 1), np.array(d).reshape(-1, 1)
            else:
                idx, d = tree.batch_knn_search(x, k, **threads) if mode == "kw" else tree.batch_knn_search(x, k, thr)
                idx, d = np.array(idx, dtype=np.float64), np.array(d)
            ok = True
        ok = ok and idx.shape == (m, k) and d.shape == (m, k)
        if ok:
            for i in range(m):
                seen = set()
                for j in range(k):
                    if idx[i, j] < 0 or idx[i, j] > 1e18:       # nothing found
                        ok = ok and d[i, j] > 1e300
                        d[i, j] = -scale * scale
                    else:
                        n = int(idx[i, j])
                        ok = ok and 0 <= n < len(base) and n not in seen and np.sum((base[n] - qs[i] * scale) ** 2) == d[i, j]
                        seen.add(n)
            want = np.where(want < 0, -scale * scale, want)
        compare("query", d / scale / scale, want / scale / scale, [len(d)], [m], ok)
        return

    # ---- voxel maps
    if st[0] == "vox":
        leaf, T = st[2] / 1000, GUESS if st[5] else np.eye(4)
        kindno = ["voxP", "voxN", "voxC", "voxNC", "voxG"].index(use)
        cls = [sg.IncrementalVoxelMap, sg.IncrementalVoxelMapNormal, sg.IncrementalVoxelMapCov, sg.IncrementalVoxelMapNormalCov, sg.GaussianVoxelMap][kindno]
        v = cls(leaf_size=leaf) if mode == "kw" else cls(leaf)
        if mode == "pos":
            v.set_lru(st[3], st[4])
        else:
            g = {n: dev[k] for n, k in (("horizon", "lruh"), ("clear_cycle", "lruc")) if k in dev}
            v.set_lru(**g)
        w = ref.ref_vox(kindno, leaf)
        ref.ref_vox_lru(w, st[3], st[4])
        for j, M in ((0, T), (1, np.eye(4)), (0, FAR), (1, T)):
            ref.ref_vox_insert(w, h[j], np.ascontiguousarray(M))
            m = matrix(M)
            if np.array_equal(M, np.eye(4)) and mode == "kw":
                v.insert(clouds[j])
            elif mode == "kw":
                v.insert(T=m, points=clouds[j])
            else:
                v.insert(clouds[j], m)
            scribble(owned)
        n, wn = v.size(), ref.ref_vox_size(w)
        p = v.voxel_points()
        x = [p, v.voxel_normals()] if kindno in (1, 3) else [p]
        if kindno >= 2:
            x.append(v.voxel_covs())
        x = np.hstack(x)
        k = ref.ref_vox_get(w, None, None, None)
        wp, wnr, wc = np.zeros((k, 4)), np.zeros((k, 4)), np.zeros((k, 16))
        ref.ref_vox_get(w, wp.ctypes.data, wnr.ctypes.data, wc.ctypes.data)
        y = [wp, wnr] if kindno in (1, 3) else [wp]
        if kindno >= 2:
            y.append(wc)
        y = np.hstack(y)
        ok = len(v) == n and ("%d voxels" % n) in repr(v)
        compare("vox", x[order(x)], y[order(y)], [n, len(x)], [wn, len(y)], ok)
        return

    # ---- factors
    if st[0] == "lin":
        f = dict(ICP=sg.ICPFactor, PLANE_ICP=sg.PointToPlaneICPFactor, GICP=sg.GICPFactor)[c["type"]]()
        rej = sg.DistanceRejector()
        if "dist" in dev:
            rej.set_max_distance(dev["dist"])
        T = GUESS if st[3] else np.eye(4)
        # correspond by point: the order of the points of the two sides may differ
        p = clouds[1].points()
        rp = np.zeros((ref.ref_size(h[1]), 4)); ref.ref_get(h[1], rp, np.zeros_like(rp), np.zeros((len(rp), 4, 4)))
        gi, wi = order(p), order(rp)
        got, want = [], []
        for j in sorted(pick.sample(range(len(gi)), min(12, len(gi)))):
            Tm = matrix(T)
            r = f.linearize(clouds[0], clouds[1], trees[0], Tm, int(gi[j]), rej) if mode == "pos" else \
                f.linearize(target=clouds[0], source=clouds[1], kdtree=trees[0], T=Tm, source_index=int(gi[j]), rejector=rej)
            o = np.zeros(44)
            ref.ref_lin(TYPES.index(c["type"]), h[0], h[1], st[2] / 1000, np.ascontiguousarray(T), int(wi[j]), o)
            s = np.concatenate([[1], np.full(42, max(1e-9, np.max(np.abs(o[1:37])))), [max(1e-9, abs(o[43]))]])
            got.append(np.concatenate([[float(r[0])], r[1].ravel(), r[2].ravel(), [r[3]]]) / s)
            want.append(o / s)
        scribble(owned)
        compare("lin", np.array(got), np.array(want), [len(got)], [len(want)])
        return

    # ---- alignments
    if st[0] == "map":
        ref.ref_map(h[0], st[1] / 1000)
        pl.pop(0)
        st = pl[0]
    if c["type"] not in TYPES or (c["type"] == "VGICP" and use not in ("raw", "map")):
        if use == "raw":
            o = outcome(raw, 0)
        else:
            o = outcome(lambda: sg.align(clouds[0], clouds[1], registration_type=c["type"]) if use == "notree" else sg.align(clouds[0], clouds[1], trees[0], np.eye(4), c["type"]), 0)
        emit(op="obs", what="refused", outcome=o)
        return
    o = np.zeros(62)
    T = GUESS if st[6] else np.eye(4)
    ref.ref_reg(TYPES.index(st[1]), h[0], h[1], np.ascontiguousarray(T), st[2] / 1000, st[3], st[4] / 1000 * np.pi / 180, st[5] / 1e6, o)
    if use == "raw":
        r = raw()
    elif use == "map":
        v = sg.GaussianVoxelMap(dev.get("vox", 1.0))
        v.insert(clouds[0])
        g = dict(reg_args(), target_voxelmap=v, source=clouds[1])
        r = call(sg.align, NMAP, g, 2, mode, DEF)
    else:
        if use == "tree" and trees[0] is None:
            trees[0] = sg.KdTree(clouds[0])
        g = dict(reg_args(), target=clouds[0], source=clouds[1])
        if use == "tree":
            g["target_tree"] = trees[0]
        r = call(sg.align, NTREE, g, 2, mode, DEF)
    scribble(owned)
    T2 = r.T_target_source; keep = T2.copy(); T2[...] = 5.0
    ok = np.array_equal(r.T_target_source, keep) and r.H.shape == (6, 6) and r.b.shape == (6,) and isinstance(r.converged, bool) and isinstance(repr(r), str)
    sc = (o[19:55], o[55:61], o[61])
    compare("reg", result_values(r.T_target_source, r.converged, r.iterations, r.num_inliers, r.H, r.b, r.error, sc),
            result_values(o[:16], o[16], o[17], o[18], o[19:55], o[55:61], o[61], sc), [r.iterations, r.num_inliers], [int(o[17]), int(o[18])], ok)


sys.stderr.flush(); devnull = os.open(os.devnull, os.O_WRONLY); keep_err = os.dup(2)
os.dup2(devnull, 2)       # the refusals are announced on stderr
try:
    count = 0
    for i, line in enumerate(open(a["cases"])):
        if i % nshards != shard:
            continue
        rng.seed(seed * 7919 + i); pick.seed(seed * 7919 + i)
        session(json.loads(line))
        count += 1
        if count >= limit:
            break
    emit(op="end")
except BaseException:
    os.dup2(keep_err, 2)
    import traceback
    traceback.print_exc()
    sys.stdout.flush()
    os._exit(1)
out.close()
os._exit(0)
