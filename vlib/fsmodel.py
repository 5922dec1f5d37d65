"""A small executable model of a POSIX tree, built from TREE lines of a trace."""
import copy
class Node:
    __slots__ = ("t", "mode", "ino", "data", "rdev", "ents", "parent", "name")
    def __init__(s, t, mode, ino, data=b"", rdev=0): s.t = t; s.mode = mode; s.ino = ino; s.data = data; s.rdev = rdev; s.ents = {}; s.parent = None
class Err(Exception): pass
class FS:
    def __init__(s): s.root = None; s.cwd = "/w"; s.new = 0
    @staticmethod
    def parse(lines, unesc):
        fs = FS(); inos = {}
        for l in lines:
            path, t, mode, ino, nl, rdev, data = (l.split(" ", 6) + [""])[:7]
            key = int(ino)
            n = inos.get(key)
            if n is None: n = inos[key] = Node(t, int(mode, 8), key, unesc(data), int(rdev))
            if path == "/": fs.root = n; n.parent = n; continue
            d = fs.root
            for c in path.strip("/").split("/")[:-1]: d = d.ents[c]
            d.ents[path.rsplit("/", 1)[1]] = n
            if t == "d": n.parent = d
        return fs
    def copy(s):
        return copy.deepcopy(s)
    def walk(s, path, follow):
        """-> (parent, node or None, name, trailing slash)"""
        if path == "": raise Err("ENOENT")
        base = s.root if path.startswith("/") else s.walk(s.cwd, True)[1]
        if base is None: raise Err("ENOENT")
        r = s._walk(base, path, follow, 0)
        if r[1] is not None and r[3] and r[1].t != "d": raise Err("ENOTDIR")
        return r
    def _walk(s, d, path, follow, depth):
        if depth > 20: raise Err("ELOOP")
        if path.startswith("/"): d = s.root
        comps = [c for c in path.split("/") if c]; slash_end = path.endswith("/")
        parent, node, name = d, d, ""; trail = False
        for i, c in enumerate(comps):
            last = i == len(comps) - 1; slash = not last or slash_end
            if d.t != "d": raise Err("ENOTDIR")
            parent = d; name = c
            if c == ".": n = d
            elif c == "..": n = d.parent
            else: n = d.ents.get(c)
            node = n; trail = slash
            if n is None:
                if last: return parent, None, name, trail
                raise Err("ENOENT")
            if n.t == "l" and (not last or slash and follow is not None or follow):
                p2, n2, nm2, tr2 = s._walk(d, n.data.decode("latin-1"), True, depth + 1)
                parent, node, name = p2, n2, nm2; trail = slash or tr2
                if n2 is None:
                    if not last: raise Err("ENOENT")
                    return parent, None, name, trail
                n = n2
            if not last:
                if n.t != "d": raise Err("ENOTDIR")
                d = n
        if node is not None and trail and node.t != "d": raise Err("ENOTDIR")
        return parent, node, name, trail
    def get(s, path, follow=True):
        try: return s.walk(path, follow)[1]
        except Err: return None
    def need(s, path, follow):
        r = s.walk(path, follow)
        if r[1] is None: raise Err("ENOENT")
        return r
    def create(s, path, t, mode, data=b"", rdev=0, follow=None):
        p, n, nm, tr = s.walk(path, follow)
        if n is not None: raise Err("EEXIST")
        if nm in (".", "..", ""): raise Err("EEXIST")
        s.new -= 1; n = Node(t, mode, s.new, data, rdev); p.ents[nm] = n
        if t == "d": n.parent = p
        return n
    def canon(s, node, parent=None, name=None):
        if node is not None and node.t == "d":
            if node is s.root: return "/"
            for k, v in node.parent.ents.items():
                if v is node: return s.canon(node.parent).rstrip("/") + "/" + k
        return s.canon(parent).rstrip("/") + "/" + name
    def flat(s):
        out = {}; links = {}
        def rec(n, path):
            for k, v in n.ents.items():
                q = path + "/" + k; links.setdefault(id(v), []).append(q)
                out[q] = v
                if v.t == "d": rec(v, q)
        rec(s.root, "")
        return {q: (v.t, v.mode, v.data, v.rdev, v.ino if v.ino > 0 else 0, tuple(sorted(links[id(v)])) if v.t != "d" else ()) for q, v in out.items()}
def same(a, b):
    """two flattened trees agree (objects new in one of them have no inode to compare)"""
    if a.keys() != b.keys(): return False
    return all(x[:4] == b[q][:4] and x[5] == b[q][5] and (not x[4] or not b[q][4] or x[4] == b[q][4]) for q, x in a.items())
def diff(a, b):
    for q in sorted(set(a) | set(b)):
        if q not in b: return "%s is there" % q
        if q not in a: return "%s is missing" % q
        if not same({q: a[q]}, {q: b[q]}): return "%s is %s %o %r, expected %s %o %r" % (q, a[q][0], a[q][1], a[q][2][:20], b[q][0], b[q][1], b[q][2][:20])
    return "nothing"
