"""C17: the real extension module, built from the working tree, driven from python."""
import gc, os, sys, random, tempfile, threading
import vtpy
o = vtpy.parse()
rep = vtpy.Report(o.out)
sys.path.insert(0, os.path.dirname(o.target))
import pyvotess as vt
ref = vtpy.Ref(o.ref)
try: import numpy as np
except ImportError:  # the documented way to pass points; taken from the tooling venv of the same interpreter version
    sys.path.append("/opt/veriftools/pyvenv/lib/python%d.%d/site-packages" % sys.version_info[:2])
    try: import numpy as np
    except ImportError: np = None

KEYS = {"k": "k", "knn_grid_resolution": "gr", "cc_p_maxsize": "p", "cc_t_maxsize": "t", "cpu_nthreads": "threads",
        "chunksize": "chunk", "use_chunking": "chunking", "use_recompute": "recompute"}

def params(r, n):
    ri = r.randint
    q = dict(k=r.choice((1, ri(2, 30), ri(30, 90), ri(90, 400), n + 2)), gr=r.choice((ri(1, 8), ri(1, 8), ri(9, 60))), p=r.choice((6, ri(7, 32), ri(33, 130), ri(130, 300))),
             t=r.choice((8, ri(9, 64), ri(65, 255), ri(256, 700))), threads=r.choice((ri(1, 3), ri(1, 3), ri(4, 40))), chunking=0, chunk=8196, recompute=int(r.random() < .3))
    if n > 900: q.update(k=ri(4, 40), gr=ri(8, 24), p=ri(6, 60), t=ri(8, 80), recompute=0, chunking=1, chunk=ri(n // 9, n + 2))
    elif r.random() < .3: q["chunking"] = 1; q["chunk"] = r.randint(1, n + 3)
    return q

def mkargs(r, q):
    a = vt.vtargs()
    items = list(KEYS.items()); r.shuffle(items)
    for key, short in items:
        v = q[short]
        a[key] = str(v) if r.random() < .2 else (bool(v) if key.startswith("use_") and r.random() < .7 else v)
    return a

def rowlist(d): return [[d[i][j] for j in range(d[i].size())] for i in range(d.size())]

class Fd1:
    """Collects what C++ code writes to file descriptor 1 and 2."""
    def __enter__(self):
        self.t = tempfile.TemporaryFile(); self.e = tempfile.TemporaryFile()
        sys.stdout.flush(); sys.stderr.flush()
        self.o1, self.o2 = os.dup(1), os.dup(2); os.dup2(self.t.fileno(), 1); os.dup2(self.e.fileno(), 2)
        return self
    def __exit__(self, *a):
        os.dup2(self.o1, 1); os.dup2(self.o2, 2); os.close(self.o1); os.close(self.o2)
        self.t.seek(0); self.out = self.t.read().decode(); self.e.seek(0); self.err = self.e.read().decode()
        self.t.close(); self.e.close()

def array(r, pts):
    """The points as a numpy array of some layout; the coordinates are single precision values, so every type keeps them."""
    a = np.array(pts, dtype=r.choice((np.float64, np.float64, np.float32, np.dtype(">f8"), np.longdouble))).reshape(len(pts), 3)
    k = r.randrange(7)
    rep.count("numpy arrays passed")
    if k == 1: return np.asfortranarray(a)
    if k == 2: return np.ascontiguousarray(a.T).T
    if k == 3: b = np.full((2 * len(pts) + 1, 3), .5, dtype=a.dtype); b[1::2] = a; return b[1::2]
    if k == 4: return np.ascontiguousarray(a[::-1])[::-1]
    if k == 5: b = np.full((len(pts), 7), .25, dtype=a.dtype); b[:, 1:7:2] = a; v = b[:, 1:7:2]; v.flags.writeable = False; return v
    if k == 6: return list(a)
    return a

def shape(r, pts):
    if np is not None and r.random() < .3: return array(r, pts)
    k = r.randrange(4)
    if k == 0: return [list(p) for p in pts]
    if k == 1: return [tuple(p) for p in pts]
    if k == 2: return tuple(tuple(p) for p in pts)
    return [list(p) if r.random() < .5 else tuple(p) for p in pts]

def expect(exc, f, what):
    try: f()
    except exc: rep.count("bad uses answered with an exception"); return
    except Exception as e:
        rep.violation("exception-type", "%s raised %s(%s)" % (what, type(e).__name__, e)); return
    rep.violation("no-exception", "%s did not raise" % what)

def tess(r, q, pts):
    a = mkargs(r, q); gpu = False
    with Fd1() as fd:
        if r.random() < .2: d = vt.tesellate(shape(r, pts), a)          # default device
        elif r.random() < .2: gpu = True; d = vt.tesellate(xyzset=shape(r, pts), args=a, device=vt.device.gpu)
        else: d = vt.tesellate(shape(r, pts), a, vt.device.cpu)
    if fd.out: rep.violation("stdout", "a suppressed call wrote %r" % fd.out[:80])
    if gpu and "GPU" not in fd.err: rep.violation("device", "a call for the GPU, of which there is none here, gave no warning: %r" % fd.err[:80])
    for key, short in KEYS.items():
        if int(a[key]) != int(q[short]): rep.violation("args-changed", "%s is %r after the call, was %r" % (key, a[key], q[short]))
    return d

def rows_case(r):
    n = r.choice((0, 1, 2, 3)) if r.random() < .15 else r.randint(4, 120) if r.random() < .95 else r.randint(901, 2500)
    pts = vtpy.points(r, n); q = params(r, n)
    if n > 3 and r.random() < .06:
        n = r.randint(90, 180); pts = vtpy.hub(r, n); q = params(r, n); q.update(k=n + r.randint(-1, 5), p=r.randint(150, 300), t=r.randint(90, 700), chunking=0)
    desc = "rows n=%d %r" % (n, q)
    rep.begin(desc)
    if rep.n < 16: rep.sample(desc)
    want, err = ref.ask(q, pts)
    if err:
        expect(Exception, lambda: tess(r, q, pts), "parameters the library refuses (%s)" % err); rep.eval(desc); return
    d = tess(r, q, pts)
    got = rowlist(d)
    rep.eval((desc, got), n > 1); rep.count("rows compared", len(got))
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), -1)
        rep.violation("rows", "row %d: python %r, library %r" % (i, got[i] if 0 <= i < len(got) else len(got), want[i] if 0 <= i < len(want) else len(want)))
    it = [[x for x in row] for row in d]
    if it != got: rep.violation("iteration", "iterating visits %r, indexing %r" % (it[:3], got[:3]))
    for i in range(min(n, 5)):
        j = r.randrange(n); s = d[j].size()
        for bad in (-1, s, s + 1, 2**31 - 1, -2**31): expect(IndexError, lambda: d[j][bad], "row[%d] of a row of %d" % (bad, s))
    for bad in (-1, n, n + 1, 2**31 - 1, -2**31): expect(IndexError, lambda: d[bad], "result[%d] of %d rows" % (bad, n))
    if d.size() != n: rep.violation("size", "size() is %d for %d points" % (d.size(), n))
    with Fd1() as fd: d.print()
    text = [l.strip() for l in fd.out.strip().split("\n")]
    if n:
        lines = [l.strip("{}") for l in text[1:-1]]
        if [[int(x) for x in l.split(",") if x.strip()] for l in lines] != got: rep.violation("print", "print() shows %r" % text[:4])
    with tempfile.TemporaryDirectory(dir=o.scratch or None) as t:
        f = os.path.join(t, "x.txt")
        with Fd1() as fd: d.savetxt(f)
        back = [[int(x) for x in l.split()] for l in open(f).read().split("\n")[:-1]]
        if back != got: rep.violation("savetxt", "file holds %r" % back[:4])

def lifetime_case(r):
    rep.begin("lifetime")
    objs = []; exp = []
    desc = []
    for _ in range(r.randint(2, 6)):
        n = r.randint(2, 60); pts = vtpy.points(r, n); q = params(r, n)
        want, err = ref.ask(q, pts)
        if err: continue
        desc.append("n=%d %r" % (n, q))
        d = tess(r, q, pts) if r.random() < .7 else vt.dnn([x for row in want for x in row], [sum(len(w) for w in want[:i]) for i in range(n + 1)])
        keep = r.random()
        rows = [(d[i], want[i]) for i in (r.randrange(n) for _ in range(r.randint(1, 8)))]
        if r.random() < .3: rows += [(row, want[i]) for i, row in enumerate(d)]
        if keep < .3: objs.append(("dnn", d, want))
        objs += [("row", p, w) for p, w in rows]
        if r.random() < .3: objs.append(("row", (lambda e: e[n - 1])(d), want[n - 1]))
        del d, rows
        gc.collect()
    r.shuffle(objs)
    junk = []
    def verify():
        for kind, x, w in objs:
            got = rowlist(x) if kind == "dnn" else [x[j] for j in range(x.size())]
            rep.count("objects used after others were released")
            if got != w: rep.violation("lifetime", "%s reads %r, expected %r" % (kind, got[:8], w[:8]))
    verify()
    while objs:
        del objs[r.randrange(len(objs))]
        gc.collect()
        junk.append([bytearray(b"\xee" * r.randint(1, 4000)) for _ in range(3)])
        if r.random() < .5: junk.clear()
        if len(objs) % 3 == 0: verify()
    rep.eval(tuple(desc))
    if rep.n < 16: rep.sample("lifetime of rows of " + "; ".join(desc)[:300])

def bad_case(r):
    pts = vtpy.points(r, r.randint(2, 20)); q = params(r, len(pts)); a = mkargs(r, q)
    cpu = vt.device.cpu
    bad = [
        ("points with two coordinates", TypeError, lambda: vt.tesellate([[.1, .2]], a, cpu)),
        ("points with four coordinates", TypeError, lambda: vt.tesellate([[.1, .2, .3, .4]], a, cpu)),
        ("text as points", TypeError, lambda: vt.tesellate("abc", a, cpu)),
        ("None as points", TypeError, lambda: vt.tesellate(None, a, cpu)),
        ("text as coordinate", TypeError, lambda: vt.tesellate([["a", "b", "c"]], a, cpu)),
        ("a number as points", TypeError, lambda: vt.tesellate(5, a, cpu)),
        ("a dict as arguments", TypeError, lambda: vt.tesellate(pts, {"k": 5}, cpu)),
        ("no arguments", TypeError, lambda: vt.tesellate(pts)),
        ("text as device", TypeError, lambda: vt.tesellate(pts, a, "cpu")),
        ("an unknown parameter", Exception, lambda: a.__setitem__("nosuch", 1)),
        ("reading an unknown parameter", Exception, lambda: a["nosuch"]),
        ("a list as parameter", Exception, lambda: a.__setitem__("k", [1])),
        ("None as parameter", Exception, lambda: a.__setitem__("k", None)),
        ("a huge parameter", Exception, lambda: a.__setitem__("k", 2**40)),
        ("text as result index", TypeError, lambda: vt.dnn([1], [0, 1])["a"]),
        ("offsets past the list", Exception, lambda: vt.dnn([1, 2], [0, 5])),
        ("decreasing offsets", Exception, lambda: vt.dnn([1, 2], [0, 2, 1])),
        ("negative offsets", Exception, lambda: vt.dnn([1, 2], [-1, 2])),
        ("offsets short of the list", Exception, lambda: vt.dnn([1, 2], [0, 1])),
        ("text offsets", TypeError, lambda: vt.dnn([1, 2], "ab")),
        ("an empty result's row", IndexError, lambda: vt.dnn()[0]),
        ("an empty result's row", IndexError, lambda: vt.dnn([], [0])[0]),
    ]
    for key, v in (("k", 0), ("k", -3), ("knn_grid_resolution", 0), ("knn_grid_resolution", -2), ("cc_p_maxsize", 3), ("cc_t_maxsize", 1),
                   ("cpu_nthreads", -1), ("k", "many"), ("chunksize", "x"), ("k", 2.5), ("cc_p_maxsize", 30.25)):
        def f(key=key, v=v):
            b = mkargs(r, q); b[key] = v; vt.tesellate(pts, b, cpu)
        bad.append(("%s=%r" % (key, v), Exception, f))
    r.shuffle(bad)
    for what, exc, f in bad[:12]:
        rep.begin("misuse: " + what)
        with Fd1(): expect(exc, f, what)
        rep.eval(what)
    # the module still works, and the parameters are unharmed
    want, err = ref.ask(q, pts)
    if not err:
        with Fd1(): d = vt.tesellate(pts, a, cpu)
        if rowlist(d) != want: rep.violation("after-misuse", "rows differ after misuse")

def args_case(r):
    rep.begin("parameters")
    a = vt.vtargs(); model = {}
    b = vt.vtargs()
    base = {k: int(b[k]) for k in KEYS}
    for _ in range(r.randint(5, 25)):
        key = r.choice(list(KEYS))
        if r.random() < .6:
            v = r.choice((0, 1, -1, 7, 2**31 - 1, -2**31, r.randint(-10**6, 10**6)))
            if key.startswith("use_"): v = r.choice((True, False))
            a[key] = str(int(v)) if r.random() < .2 else float(v) if r.random() < .1 and abs(int(v)) < 10**5 else v
            model[key] = int(v)
        elif key in model:
            rep.count("parameters read back")
            if int(a[key]) != model[key]: rep.violation("args", "%s reads back %r, was set to %r" % (key, a[key], model[key]))
    for k in KEYS:
        if int(b[k]) != base[k]: rep.violation("args-shared", "setting one object's %s changed another's" % k)
    rep.eval(tuple(sorted(model.items())))
    # results built by hand
    top = r.choice((10**6, 2**31 - 1, 300))
    rows = [[r.randint(-5, top) for _ in range(r.choice((0, 0, 1, 3, 9, 300 if r.random() < .1 else 2)))] for _ in range(r.randint(0, 12) if r.random() < .95 else r.randint(200, 4000))]
    flat = [x for row in rows for x in row]; offs = [0]
    for row in rows: offs.append(offs[-1] + len(row))
    rep.begin("dnn(%r, %r)" % (flat[:20], offs[:20]))
    d = vt.dnn(flat, offs)
    if rowlist(d) != rows: rep.violation("dnn-init", "rows %r built from %r %r" % (rowlist(d)[:5], flat[:10], offs[:10]))
    if [list(x) for x in d] != rows: rep.violation("dnn-iter", "iteration over a hand-made result")
    flat.append(99); offs.append(1); flat[:1] = []
    if rowlist(d) != rows: rep.violation("dnn-alias", "result changed when the lists it was made from changed")
    rep.eval(("dnn", tuple(map(tuple, rows))))

def threads_case(r):
    """Python threads calling the module at the same time, each on its own data."""
    jobs = []
    for _ in range(r.randint(2, 5)):
        n = r.randint(2, 300); pts = vtpy.points(r, n); q = params(r, n); q["threads"] = r.randint(1, 3)
        want, err = ref.ask(q, pts)
        if err is None: jobs.append([q, pts, want, mkargs(r, q), None])
    desc = "python threads: " + "; ".join("n=%d %r" % (len(j[1]), j[0]) for j in jobs)
    rep.begin(desc)
    start = threading.Barrier(len(jobs)) if jobs else None
    def work(j):
        start.wait()
        try: j[4] = [rowlist(vt.tesellate(j[1], j[3], vt.device.cpu)) for _ in range(3)]
        except BaseException as e: j[4] = e
    ts = [threading.Thread(target=work, args=(j,)) for j in jobs]
    with Fd1() as fd:
        for t in ts: t.start()
        for t in ts: t.join()
    rep.eval(desc); rep.count("calls from overlapping python threads", 3 * len(jobs))
    for j in jobs:
        if isinstance(j[4], BaseException): rep.violation("thread-exception", "%s: %s" % (type(j[4]).__name__, j[4]))
        elif any(x != j[2] for x in j[4]): rep.violation("thread-rows", "rows from a python thread differ from the library's")

def case(i, r):
    if i // 8 % 10 == 9: threads_case(r); return
    (rows_case, lifetime_case, rows_case, bad_case, args_case)[i // 8 % 5](r)

vtpy.cases(o, rep, 800 * o.scale, case)
ref.close()
rep.finish()
