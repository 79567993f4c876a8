"""Reporting, generators and the reference server for the python-driven harnesses."""
import threading, argparse, json, random, struct, subprocess, sys, hashlib, os, math

class Report:
    def __init__(self, path):
        self.f = open(path, "w") if path else sys.stdout
        self.evaluations = 0; self.distinct = set(); self.samples = []; self.counters = {}
        self.nviol = 0; self.keys = set(); self.current = "startup"; self.n = -1
    def _w(self, o):
        self.f.write(json.dumps(o) + "\n"); self.f.flush()
    def begin(self, desc):
        self.current = desc
        self._w({"case": desc, "n": self.n})
    def eval(self, key, nontrivial=True):
        self.evaluations += 1
        if nontrivial: self.distinct.add(hashlib.sha1(repr(key).encode()).hexdigest())
    def sample(self, s):
        if len(self.samples) < 6: self.samples.append(s)
    def count(self, k, n=1): self.counters[k] = self.counters.get(k, 0) + n
    def violation(self, key, detail):
        self.nviol += 1
        if key in self.keys: return
        self.keys.add(key)
        self._w({"violation": key, "case": self.current, "n": self.n, "detail": str(detail)[:1500]})
    def finish(self):
        self._w({"done": True, "evaluations": self.evaluations, "distinct": len(self.distinct), "violations": self.nviol,
                 "samples": self.samples, "counters": self.counters})

def parse():
    a = argparse.ArgumentParser()
    for n, t, d in (("seed", int, 1), ("scale", int, 1), ("only", int, -1), ("shard", int, 0), ("shards", int, 1),
                    ("out", str, ""), ("mode", str, ""), ("scratch", str, ""), ("limit-ms", int, 60000)):
        a.add_argument("--" + n, type=t, default=d)
    a.add_argument("--ref"); a.add_argument("--target"); a.add_argument("--env", action="append", default=[])
    return a.parse_args()

def cases(o, rep, n, f):
    for i in range(n):
        if (i != o.only) if o.only >= 0 else (i % o.shards != o.shard): continue
        rep.n = i
        try: f(i, random.Random(o.seed * 1000003 + i * 7919 + 17))
        except RefGone as e: rep.violation("library-gone", str(e))

def f32(x): return struct.unpack("f", struct.pack("f", x))[0]

def hub(r, n):
    """One cell with nearly n faces and 2n corners: a point in the middle of a rough sphere."""
    v = [[.5, .5, .5]]
    while len(v) < n:
        g = [r.gauss(0, 1) for _ in range(3)]; l = math.sqrt(sum(x * x for x in g)); d = .3 + .02 * r.random()
        if l > .1: v.append([.5 + d * x / l for x in g])
    r.shuffle(v)
    return [[f32(x) for x in p] for p in v]

def points(r, n):
    kind = r.randrange(7)
    v = []
    if kind == 0: v = [[r.uniform(.001, .999) for _ in range(3)] for _ in range(n)]
    elif kind == 1:
        c = [[r.uniform(.2, .8) for _ in range(3)] for _ in range(3)]
        for _ in range(n):
            q = r.choice(c); v.append([min(.999, max(.001, x + r.gauss(0, .05))) for x in q])
    elif kind == 2: v = [[r.uniform(.4, .45), r.uniform(.001, .999), r.uniform(.001, .999)] for _ in range(n)]
    elif kind == 3: v = [[r.random() ** 3 * .99 + .005 for _ in range(3)] for _ in range(n)]
    elif kind == 4:
        m = max(1, math.ceil(n ** (1 / 3)))
        v = [[(i % m + .5) / m, (i // m % m + .5) / m, (i // m // m + .5) / m] for i in range(n)]
    elif kind == 5:
        b = [[r.uniform(.01, .99) for _ in range(3)] for _ in range(max(1, n // 3))]
        v = [list(r.choice(b)) for _ in range(n)]
    else: v = [[r.choice((.001, .5, .25, .999)) if r.random() < .3 else r.uniform(.001, .999) for _ in range(3)] for _ in range(n)]
    return [[f32(x) for x in p] for p in v]

class RefGone(Exception): pass

class Ref:
    """The library itself.  If it crashes or hangs there is nothing to compare with: the caller reports it."""
    def __init__(self, path):
        self.path = path
        self.start()
    def start(self):
        env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env)
    def ask(self, q, pts):
        s = "%d %d %d %d %d %d %d %d %d\n" % (q["k"], q["gr"], q["p"], q["t"], q.get("threads", 1), q.get("chunking", 0),
                                              q.get("chunk", 8196), q.get("recompute", 0), len(pts))
        s += "".join("%.9g %.9g %.9g\n" % tuple(p) for p in pts)
        for attempt in range(2):
            t = threading.Timer(60 if attempt == 0 else 150, self.p.kill)
            t.start()
            try:
                self.p.stdin.write(s); self.p.stdin.flush()
                h = self.p.stdout.readline().split(None, 1)
            except OSError: h = []
            finally: t.cancel()
            if h: break
            self.p.wait(); self.start()
        if not h: raise RefGone("the library crashes or hangs on this input")
        if h[0] == "err": return None, h[1].strip()
        return [[int(x) for x in self.p.stdout.readline().split()] for _ in range(int(h[1]))], None
    def close(self):
        self.p.stdin.close(); self.p.wait()
