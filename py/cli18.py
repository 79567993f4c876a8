"""C18: the real command line tool, built from the working tree."""
import os, subprocess, sys, signal, shutil
import vtpy
o = vtpy.parse()
rep = vtpy.Report(o.out)
ref = vtpy.Ref(o.ref)
exe = o.target
env = dict(os.environ)
for e in o.env: k, v = e.split("=", 1); env[k] = v
os.makedirs(o.scratch, exist_ok=True)
D = {"k": 64, "gr": 16, "p": 32, "t": 32, "threads": 0, "chunk": 8196, "chunking": 0, "recompute": 0}
LONG = {"k": "--k-init", "gr": "--gridres", "threads": "--cpu-nthreads", "nd": "--gpu-ndsize", "chunk": "--chunksize",
        "p": "--p-maxsize", "t": "--t-maxsize"}
SHORT = {"k": "-k", "gr": "-g", "threads": "-t", "nd": "-d", "chunk": "-c", "p": "-p", "t": "-m"}

def call(args, stdout=subprocess.PIPE):
    for attempt in range(2):
        try:
            p = subprocess.run([exe] + args, stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE, env=env,
                               timeout=60 if attempt == 0 else 200, cwd=o.scratch)
            return p.returncode, (p.stdout or b"").decode("latin1"), p.stderr.decode("latin1")
        except subprocess.TimeoutExpired: pass
    rep.violation("hang", "no answer from %r" % (args,))
    return None, "", ""

def fmt(r, x, style):
    if style == 1: return "%.9e" % x
    if style == 2: return "%.17g" % x
    if style == 3: return "%.12f" % x
    if style == 4: return "+%.9g" % x
    if style == 5: return "%.40f" % x
    if style == 6: return "0" * 30 + "%.60f" % x
    return "%.9g" % x

def write(r, pts, name):
    style = r.randrange(5) if r.random() < .85 else r.randrange(5, 7); sep = r.choice((" ", "\t", "  ", " \t ", " " * 40))
    eol = r.choice(("\n", "\n", " \n", "\r\n"))
    lead = r.choice((("", " "), ("", " "), ("  ",), ("", "    ", "\t"), (" " * 12,)))  # columns of fixed width, for example
    rows = [(r.choice(lead) if style else "") + sep.join(fmt(r, x, style) for x in p) for p in pts]
    s = eol.join(rows)
    if pts and r.random() < .8: s += eol
    path = os.path.join(o.scratch, name)
    with open(path, "w", newline="") as f: f.write(s)
    # what the file says, read as the tool must read it
    back = [[vtpy.f32(float(x)) for x in l.split()] for l in s.replace("\r", "").split("\n") if l.strip()]
    return path, back

def parse(out):
    t = out.strip()
    if t == "{}": return []
    lines = t.split("\n")
    if len(lines) < 2 or lines[0].strip() != "{" or lines[-1].strip() != "}": return None
    rows = []
    for l in lines[1:-1]:
        l = l.strip()
        if not (l.startswith("{") and l.endswith("}")): return None
        try: rows.append([int(x) for x in l[1:-1].split(",") if x.strip()])
        except ValueError: return None
    return rows

def good(i, r):
    n = r.choice((0, 1, 2)) if r.random() < .06 else r.randint(3, 140) if r.random() < .93 else r.randint(200, 3000)
    if i % 160 == 17: n = r.randint(9000, 14000) if i % 640 != 17 else r.randint(66000, 70000)
    hub = n < 4000 and r.random() < .08
    if hub: n = r.randint(90, 200)
    pts = vtpy.hub(r, n) if hub else vtpy.points(r, n)
    if n > 2 and not hub and r.random() < .15:  # the same point on several lines, in succession or apart
        for _ in range(r.randint(1, 4)): j = r.randrange(n); pts.insert(r.choice((j, r.randrange(len(pts)))), list(pts[j]))
        n = len(pts)
    path, back = write(r, pts, "in-%d.txt" % i)
    q = dict(D)
    opts = []
    def put(key, v):
        k = r.randrange(4)
        if r.random() < .08: v = "0" * r.randint(1, 3) + str(v)  # decimal all the same
        if k == 0: opts.append([SHORT[key], str(v)])
        elif k == 1: opts.append([SHORT[key] + str(v)])
        elif k == 2: opts.append([LONG[key] if not (key == "gr" and r.random() < .5) else "--grid-resolution", str(v)])
        else: opts.append([LONG[key] + "=" + str(v)])
    ri = r.randint
    big = n > 4000
    for key, vals in (("k", (1, 2, ri(3, 64), ri(60, 130), ri(130, 400) if n < 900 else 70, n + 3 if n < 900 else 20)), ("gr", (1, 2, ri(3, 20), ri(20, 60))),
                      ("p", (6, ri(7, 40), ri(40, 130), ri(130, 300))), ("t", (8, ri(9, 64), ri(65, 200), ri(200, 700))),
                      ("threads", (0, 1, ri(2, 8), ri(9, 40))), ("chunk", (1, ri(2, 17), ri(18, 300), ri(257, 9000), n or 1, n + 5))):
        if r.random() < .55: q[key] = max(0 if key == "threads" else 1, r.choice(vals)); put(key, q[key])
    if n > 900:
        q["chunk"] = ri(n // 12, n); put("chunk", q["chunk"])
        for key, hi, v in (("gr", 9, ri(10, 40)),) if big and q["gr"] < 10 else (): q[key] = v; put(key, v)
        if big:
            for key, v in (("k", ri(10, 40)), ("p", ri(20, 60)), ("t", ri(20, 80))): q[key] = v; put(key, v)
    if hub:
        for key, v in (("k", n + ri(-1, 9)), ("p", ri(150, 300)), ("t", r.choice((ri(90, 300), ri(300, 700))))): q[key] = v; put(key, v)
    if r.random() < .2: put("nd", r.choice((1, 16, 33)))
    if r.random() < .4: q["chunking"] = 1; opts.append([r.choice(("-u", "--use-chunking"))])
    if r.random() < .4 and not big: q["recompute"] = 1; opts.append([r.choice(("-r", "--use-recompute"))])
    dev = r.choice(("cpu", "cpu", "gpu", None))
    if dev: opts.append([r.choice(("-x", "--use-device")), dev])
    opts.append(r.choice((["-i", path], ["--infile", path], ["--infile=" + path], ["-i" + path])))
    if n <= 900 and not hub: r.shuffle(opts)  # a repeated option: the last one counts
    args = [a for op in opts for a in op]
    desc = "n=%d %s" % (n, " ".join(args).replace(o.scratch, "."))
    rep.begin(desc)
    if rep.n < 24: rep.sample(desc)
    want, err = ref.ask(q, back)
    rc, out, serr = call(args)
    rep.eval((desc, out), n > 1)
    if rc is None: return
    if rc < 0 or "Sanitizer" in serr or "runtime error" in serr: rep.violation("crash", "exit %s: %s" % (rc, serr[-800:])); return
    if err:
        if rc == 0: rep.violation("accepted", "library refuses (%s), the tool exits 0" % err)
        return
    if rc != 0: rep.violation("exit", "exit %d: %s" % (rc, serr[-300:])); return
    rows = parse(out)
    rep.count("rows compared", len(want)); rep.count("runs compared with the library")
    if rows is None: rep.violation("format", "unreadable output %r" % out[:120]); return
    if rows != want:
        j = next((j for j in range(min(len(rows), len(want))) if rows[j] != want[j]), -1)
        rep.violation("rows", "%d rows, library %d; row %d: tool %r library %r" % (len(rows), len(want), j, rows[j] if 0 <= j < len(rows) else None, want[j] if 0 <= j < len(want) else None))
    if r.random() < .05 and os.path.exists("/dev/full"):
        with open("/dev/full", "w") as full: rc, _, _ = call(args, stdout=full)
        rep.count("runs with a full disk")
        if rc == 0: rep.violation("full", "standard output could not be written, but the tool exits 0")
    os.unlink(path)

def bad(i, r):
    pts = vtpy.points(r, r.randint(4, 30))
    path, _ = write(r, pts, "in-%d.txt" % i)
    gone = os.path.join(o.scratch, "no-such-file")
    mal = os.path.join(o.scratch, "bad-%d.txt" % i)
    lines = ["%.6f %.6f %.6f" % tuple(p) for p in pts]
    pos = r.randrange(len(lines))
    what = r.choice(("two", "word", "empty", "one", "comma", "binary", "comment", "blanks", "quoted", "semicolon"))
    lines[pos] = {"two": "0.5 0.5", "word": "0.5 abc 0.5", "empty": "", "one": "0.3", "comma": "0.1,0.2,0.3", "comment": "# 0.1 0.2 0.3", "blanks": "   ", "quoted": "\"0.1\" 0.2 0.3", "semicolon": "; 0.1 0.2 0.3", "binary": "\x01\xfe\x00\x7f"}[what]
    if what in ("empty", "blanks") and pos == len(lines) - 1: lines.append("0.1 0.2 0.3")
    with open(mal, "w", encoding="latin1") as f: f.write("\n".join(lines) + "\n")
    x = ["-x", "cpu"]
    choices = [("missing file", ["-i", gone] + x), ("malformed line (%s at %d)" % (what, pos), ["-i", mal] + x), ("directory", ["-i", o.scratch] + x),
               ("no input", x), ("unknown option", ["-i", path, "--frobnicate"]), ("unknown short option", ["-i", path, "-Z"]),
               ("option without value", ["-i", path, "-k"]), ("bad device", ["-i", path, "-x", "tpu"])]
    for op in ("k", "gr", "p", "t", "threads", "chunk", "nd"):
        for v in ("abc", "", "1.5", "12x", "0x10", "1e2", "3 4", "99999999999999"): choices.append(("%s=%r" % (op, v), ["-i", path] + x + [r.choice((SHORT[op], LONG[op])), v]))
    for op, v in (("k", "-1"), ("k", "-64"), ("gr", "0"), ("gr", "-3"), ("gr", "5000"), ("p", "0"), ("p", "5"), ("p", "-1"), ("t", "0"), ("t", "7"), ("t", "-9"), ("threads", "-1")):
        choices.append(("%s=%s" % (op, v), ["-i", path] + x + [r.choice((SHORT[op], LONG[op])), v]))
    first = choices[:8]; rest = choices[8:]
    for name, args in [first[1]] + r.sample(first, 2) + r.sample(rest, 3):
        desc = "misuse: " + name
        rep.begin(desc + " " + " ".join(args).replace(o.scratch, "."))
        if rep.n < 24: rep.sample(desc)
        rc, out, serr = call(args)
        rep.eval((name, i)); rep.count("misuses")
        if rc is None: continue
        if rc < 0 or "Sanitizer" in serr or "runtime error" in serr: rep.violation("crash", "%s: exit %s: %s" % (name, rc, serr[-800:])); continue
        if rc == 0: rep.violation("error-accepted", "%s: exit 0, output %r" % (name, out[:80]))
        if not serr.strip(): rep.violation("error-silent", "%s: nothing on standard error" % name)
        if "{" in out: rep.violation("partial", "%s: results printed: %r" % (name, out[:80]))
    os.unlink(path); os.unlink(mal)

def case(i, r):
    if i // 8 % 4 == 3: bad(i, r)
    else: good(i, r)
    if i < 8:
        for a in ("-h", "--help", "-v", "--version"):
            rep.begin(a)
            rc, out, serr = call([a])
            if rc != 0: rep.violation("help", "%s exits %s" % (a, rc))
            if a in ("-h", "--help"):
                for op in list(LONG.values()) + ["--infile", "--use-device", "--use-chunking", "--use-recompute"]:
                    if op not in out: rep.violation("help-text", "%s is not in the help" % op)

vtpy.cases(o, rep, 640 * o.scale, case)
ref.close()
rep.finish()
