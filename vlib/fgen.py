"""Shared pieces for file checks: generated data, the JS harness and fault windows."""
import random, json
SIZES = [0, 1, 2, 7, 100, 511, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384, 20000]
def gdata(d):
    """[kind, size, seed] -> bytes"""
    kind, n, seed = d
    r = random.Random("%s.%s" % (kind, seed))
    if kind == "bin": return r.randbytes(n)
    if kind == "nul": return bytes(r.choice((0, 0, 65, 10, 255)) for _ in range(n))
    if kind == "txt": return bytes(r.choice(b"abcdefghij XYZ0123456789.,") for _ in range(n))
    if kind == "lines":
        out = bytearray()
        while len(out) < n:
            out += bytes(r.choice(b"abcdefgh 0123") for _ in range(r.choice([0, 1, 5, 20, 80, 300]))) + b"\n"
        out = out[:n]
        return bytes(out)
    if kind == "utf": 
        out = "".join(r.choice("aé€z\U0001f600 ") for _ in range(n)).encode()
        return out
    raise ValueError(kind)
def gspec(rng, kinds=("bin", "txt", "lines", "nul", "utf"), big=True):
    n = rng.choice(SIZES) if rng.random() < .6 else rng.randint(0, 9000 if big else 300)
    if not big and n > 300: n = rng.randint(0, 300)
    k = rng.choice(kinds)
    if k == "utf": n = min(n, 6000)
    return [k, n, rng.randrange(1000)]
PRE = """function T(i,f){ try { var r=f(); if (typeof r=='string') simbytes('S'+i,r); else simlog('R',i,r===undefined?'undef':r); } catch(e) { simlog('X',i,''+e); }; };
var ch=[];
"""
def jstr(s):
    return json.dumps(s)
def windows(r, nops):
    """op index -> (result kind, value, events in its window)"""
    res = {}; cur = []
    for e in r.events:
        if e.kind == "J":
            a = e.js()
            if a[0] in ("R", "X"):
                res.setdefault(a[1], []).append((a[0], a[2] if len(a) > 2 else None, cur)); cur = []; continue
        elif e.kind == "B" and e.rest.startswith("S"):
            from .simdrv import unesc
            h, _, rest = e.rest.partition(" "); ln, _, data = rest.partition(" ")
            res.setdefault(int(h[1:]), []).append(("S", unesc(data)if int(ln) >= 0 else None, cur)); cur = []; continue
        cur.append(e)
    return res, cur
def faulted(evs): return any(e.kind == "FAULT" for e in evs)
