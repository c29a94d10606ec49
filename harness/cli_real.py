"""Conformance of the in-process runs of harness/cli.c with the real program:
the utility as a process of its own, with real files, pipes and devices.

  cli_real.py EXE PROP [SCENARIO]    SCENARIO is a case number"""
import base64, ctypes, os, re, resource, subprocess, sys, tempfile, threading, time

libc = ctypes.CDLL(None)
exe, prop = sys.argv[1], sys.argv[2]
only = int(sys.argv[3]) if len(sys.argv) > 3 else None
ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
def pat(n): return bytes(((i * 2654435761 & 0xffffffff) >> 11 ^ i >> 9) & 255 for i in range(n)) if n < 5000 else (pat(4096) * (n // 4096 + 1))[:n]
def wrapped(t, w):
    if not w or not t: return t
    return b"".join(t[i:i + w] + b"\n" for i in range(0, len(t), w))
def ref_decode(s):
    """(ok, bytes before the error); an incomplete ending is an error."""
    out, g, i = bytearray(), [], 0
    m = re.match(rb"(?:[A-Za-z0-9+/]{4})*", s)
    out += base64.b64decode(m.group(0)); i = m.end()
    r = s[i:]
    for j, ch in enumerate(r):
        p = ALPHA.find(bytes([ch]))
        if p >= 0:
            g.append(p)
            if len(g) == 2: out.append((g[0] << 2 | g[1] >> 4) & 255)
            if len(g) == 3: out.append((g[1] << 4 | g[2] >> 2) & 255)
            if len(g) == 4: return False, bytes(out)
        else:
            if ch == 61 and len(g) == 3: return j == len(r) - 1, bytes(out)
            if ch == 61 and len(g) == 2: return r[j:] == b"==", bytes(out)
            return False, bytes(out)
    return not g, bytes(out)

def feed(fd, data, piece):
    try:
        for i in range(0, len(data), piece or len(data) or 1):
            os.write(fd, data[i:i + (piece or len(data))]) if len(data) < 65536 else _all(fd, data[i:i + (piece or len(data))])
            if piece and len(data) // piece < 50: time.sleep(0.002)
    except OSError: pass
    os.close(fd)
def _all(fd, b):
    m = memoryview(b)
    while m: m = m[os.write(fd, m):]
def go(args, data, how, out="pipe"):
    """how: pipe, pieces of n, file, named"""
    kw = dict(stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
    th = None; f = None
    if how == "file" or how == "named":
        f = open(os.path.join(tmp, "in"), "wb"); f.write(data); f.close()
        if how == "file": f = open(os.path.join(tmp, "in"), "rb"); kw["stdin"] = f
        else: args = args + [os.path.join(tmp, "in")]; f = None
    elif how == "none": pass
    elif how == "closed": kw["preexec_fn"] = lambda: os.close(0)
    else:
        r, w = os.pipe()
        kw["stdin"] = r
        os.set_inheritable(w, False)
        th = threading.Thread(target=feed, args=(w, data, how if isinstance(how, int) else 0)); th.start()
    kw["stdout"] = subprocess.PIPE if out == "pipe" else open(out, "wb")
    pre = kw.pop("preexec_fn", None)
    def setup():
        resource.setrlimit(resource.RLIMIT_CPU, (30, 30)); libc.prctl(1, 9, 0, 0, 0)
        if pre: pre()
    p = subprocess.Popen([exe] + args, preexec_fn=setup, **kw)
    if kw["stdin"] not in (subprocess.DEVNULL,) and isinstance(kw["stdin"], int): os.close(kw["stdin"])
    if f: f.close()
    got = {"o": b"", "e": b""}
    def collect(k, f, most):
        b = []
        while (x := f.read1(1 << 20)):
            b.append(x); most -= len(x)
            if most < 0: p.kill(); break
        got[k] = b"".join(b)
    ths = [threading.Thread(target=collect, args=a) for a in (("o", p.stdout, 50 << 20), ("e", p.stderr, 1 << 20)) if a[1]]
    for t in ths: t.start()
    late = False
    try: p.wait(timeout=20)
    except subprocess.TimeoutExpired: p.kill(); p.wait(); late = True
    for t in ths: t.join()
    for x in (p.stdout, p.stderr): x and x.close()
    o, e = got["o"], got["e"]
    if late: p.returncode = "that it does not end"
    if out != "pipe":
        kw["stdout"].close(); o = b"" if out == "/dev/full" else open(out, "rb").read()
    if th: th.join()
    return p.returncode, o, e

def cases():
    M = 1 << 20
    hows = ["pipe", "file", "named"]
    if prop == "C12":
        for n in [0, 1, 2, 3, 56, 57, 58, 59, 60, 4095, 65536, M - 2, M - 1, M, M + 1, M + 2, 2 * M, 2 * M + 1]:
            for w in (None, 0, 1, 3, 76, 2000000) if n < M - 5 else (None, 0, 1):
                for how in hows + ([7] if n < 100 else [65521]):
                    if w == 1 and n > M - 5 and how != "pipe": continue
                    yield ([] if w is None else ["-w%d" % w]), pat(n), how, "pipe", lambda d, w=76 if w is None else w: (0, wrapped(base64.b64encode(d), w), None)
        for n in (0, 57, M + 1): yield ["-w", "76"], pat(n), "file", os.path.join(tmp, "out"), lambda d: (0, wrapped(base64.b64encode(d), 76), None)
    if prop == "C13":
        t = base64.b64encode(pat(3 * M))
        for n in [0, 1, 2, 3, 4, 8, 77, 80, M - 1, M, M + 1, M + 4, 2 * M]:
            for w in (0, 4, 76):
                s = wrapped(t[:n], w)
                for v in range(6):
                    x = s
                    if v and len(s) < 6: continue
                    if v == 1: x = s[:-2] + b"=="
                    if v == 2: x = s[:-1] + b"="
                    if v == 3: x = s[:len(s) // 2] + b"*" + s[len(s) // 2:]
                    if v == 4 and n < M: continue
                    if v == 4: x = s[:M] + b"=" + s[M + 1:]
                    if v == 5: x = b"\n\n" + s + b"\n"
                    for o in (["-d"], ["-di"], ["-dn"]):
                        if n >= M and o != ["-d"] and (v == 5 or w == 4): continue
                        how = hows[(n + v + len(o[0])) % 3]
                        if v == 3 and n < 100: how = 5
                        def want(d, o=o[0]):
                            y = d if "n" in o else d.replace(b"\n", b"")
                            if "i" in o: y = re.sub(rb"[^A-Za-z0-9+/=]", b"", d)
                            ok, b = ref_decode(y)
                            return (0, b, None) if ok else (1, b, b"")
                        yield o, x, how, "pipe", want
    if prop == "C14":
        if os.path.exists("/dev/full"):
            for a, d in ((["-w0"], pat(10)), ([], pat(100)), ([], pat(3000000)), (["-d"], base64.b64encode(pat(30))), (["-w1"], pat(5000))):
                yield a, d, "pipe", "/dev/full", lambda d: (1, b"", b"")
        yield [tmp], b"", "none", "pipe", lambda d: (1, b"", b"")
        yield ["-d", tmp], b"", "none", "pipe", lambda d: (1, b"", b"")
        yield [], b"", "closed", "pipe", lambda d: (1, b"", b"")
        for n in (100, 3000000):
            for how in (1000, 65536, 3): 
                if n // how > 5000: continue
                yield [], pat(n), how, "pipe", lambda d: (0, wrapped(base64.b64encode(d), 76), None)
    if prop == "C15":
        d = b"QUJD\nREVG"
        enc = lambda w: (lambda x: (0, wrapped(base64.b64encode(x), w), None))
        dec = lambda x: (0, b"ABCDEF", None)
        use = lambda x: (1, b"", b"Usage:")
        for a, w in ([], enc(76)), (["-"], enc(76)), (["-w", "5"], enc(5)), (["-w5", "-"], enc(5)), (["--wrap=5"], enc(5)), (["--wrap", "5"], enc(5)), (["-d"], dec), (["--decode", "-"], dec), (["-", "-d"], dec), \
                (["-dw5"], dec), (["-w", "x"], use), (["-w"], use), (["-w", ""], use), (["-w-1"], use), (["--wrap=-1"], use), (["-x"], use), (["--nope"], use), (["a", "b"], use), (["/nonexistent/x"], use), (["-d", "--", "-"], dec), \
                (["-i"], enc(76)), (["-n"], enc(76)), (["-in"], enc(76)), (["-din"], dec), (["--d"], dec), (["--decode=1"], use):
            yield a, d, "pipe", "pipe", w
        yield ["-h"], d, "none", "pipe", lambda x: (0, None, None)
        yield ["--help"], d, "none", "pipe", lambda x: (0, None, None)

n = 0
with tempfile.TemporaryDirectory(prefix="b64real") as tmp:
    for i, (args, data, how, out, want) in enumerate(cases()):
        if only is not None and i != only: continue
        rc, o, e = go(list(args), data, how, out)
        wrc, wo, we = want(data)
        n += 1
        bad = None
        if rc != wrc: bad = "exit status %s instead of %d" % (rc, wrc)
        elif wrc == 0 and wo is not None and o != wo: bad = "wrong output (%d bytes, %d expected)" % (len(o), len(wo))
        elif wrc == 0 and wo is None and (b"Usage:" not in o or e): bad = "no help text on standard output"
        elif wrc and (not e or we not in e): bad = "no message"
        elif wrc and not wo.startswith(o): bad = "the output is not a prefix of the correct one"
        elif wrc == 0 and e: bad = "unexpected message"
        if bad:
            print("VIOL %d\tthe real program, base64 %s, %d bytes of input (%s): %s" % (i, " ".join(args).replace(tmp, "DIR"), len(data), how, bad)); sys.exit(3)
print("holds" if only is not None else "STAT states %d\nSTAT transitions %d\nSTAT impl_calls %d\nSTAT validated %d" % (n, n, n, n)); print("DONE")
