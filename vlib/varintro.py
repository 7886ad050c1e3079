"""Model of variable introduction, normalisation, unification and substitution on term trees."""
from . import nal

def simple(n):
    return isinstance(n, str) and n != "" and (n[0] == "^" or n[0].isascii() and n[0].isalnum())

# ---- unification -------------------------------------------------------------------------------------------------
def unify(g, s, only_query=False, numeric=None):
    """Returns (bindings, confidence factors) or None. numeric(a, b): None if the atoms do not match by value,
    otherwise the confidence of the analogy."""
    env, facs = {}, []
    def m(g, s):
        if g is None:
            return True
        if nal.is_var(g) and (not only_query or g[0] == "?"):
            if s is None:
                return True
            root = s if isinstance(s, str) else s[0]
            if g[0] == "?" and nal.is_var(root):
                return False
            if root == nal.TERMINATOR:
                return False
            if g in env:
                return env[g] == s
            env[g] = s
            return True
        if isinstance(g, str):
            root = s if isinstance(s, str) or s is None else s[0]
            if g == root:
                return True
            if numeric is not None and root is not None:
                c = numeric(g, root)
                if c is not None and c > 0:
                    facs.append(c)
                    return True
            return False
        if not isinstance(s, tuple) or g[0] != s[0]:
            return False
        return m(g[1], s[1]) and m(g[2], s[2])
    return (env, facs) if m(g, s) else None

def substitute(t, env):
    if t is None:
        return None
    if isinstance(t, str):
        return env.get(t, t) if nal.is_var(t) else t
    return (t[0], substitute(t[1], env), substitute(t[2], env))

# ---- variable introduction -----------------------------------------------------------------------------------------
def _count_structure(t, out, spatial):
    root = t if isinstance(t, str) else t[0]
    if isinstance(t, tuple) and root in "\"'" and t[2] != nal.TERMINATOR and not spatial:
        return
    for a in nal.atoms(t):
        if simple(a):
            out[a] = out.get(a, 0) + 1

def _count_statement(t, out, ext, ignore, spatial, side=0):
    root = t if isinstance(t, str) else t[0]
    if isinstance(t, tuple) and root in ":=,":
        sub, pred = t[1], t[2]
        sim = root == "="
        sroot = sub[0] if isinstance(sub, tuple) else sub
        proot = pred[0] if isinstance(pred, tuple) else pred
        if root == ":" or sim or (root == "," and sroot != "*" and ext):
            if ext or sim:
                if isinstance(sub, tuple) and sroot in "\\#":
                    _count_statement(sub[1], out, ext, True, spatial, side)
                elif side and isinstance(sub, tuple) and sroot == "*":
                    _count_statement(sub[side], out, ext, True, spatial, side)
                else:
                    _count_statement(sub, out, ext, True, spatial, side)
                if isinstance(pred, tuple) and proot in "/%":
                    _count_statement(pred[2], out, ext, True, spatial, side)
            if not ext or sim:
                if pred is not None:
                    if isinstance(pred, tuple) and proot in "/%":
                        _count_statement(pred[1], out, ext, True, spatial, side)
                    else:
                        _count_statement(pred, out, ext, True, spatial, side)
                if isinstance(sub, tuple) and sroot in "\\#":
                    _count_statement(sub[2], out, ext, True, spatial, side)
    if ignore or spatial:
        _count_structure(t, out, spatial)

def _count_hol(t, out, ext, side=0):
    if t is None:
        return
    if isinstance(t, tuple):
        if t[0] == "!":
            return _count_hol(t[1], out, ext, side)
        if t[0] in "+;$?^":
            _count_hol(t[1], out, ext, side)
            _count_hol(t[2], out, ext, side)
            return
    _count_statement(t, out, ext, False, isinstance(t, tuple) and t[0] == "'", side)

def new_var(t, kind):
    a = set(nal.atoms(t))
    for i in range(1, 10):
        if kind + str(i) not in a:
            return i
    return 0

def _replace(t, fn):
    """atom replacement at every position, in heap order"""
    p = nal.positions(t)
    return nal.tree({i: fn(p[i]) for i in sorted(p)})

def intro_implication(t, ext, side=0):
    """Returns (term, success); side 1 or 2: of products only the left or right part counts"""
    left, right = {}, {}
    _count_hol(t[1], left, ext, side)
    _count_hol(t[2], right, ext, side)
    opseq = None
    if ext:
        for o in [x for x in nal.seq_elems(t[1]) if nal.is_operation(x)]:
            opseq = o if opseq is None else ("+", opseq, o)
    if opseq is not None and not nal.fits(opseq):
        opseq = None
    dep, ind = new_var(t, "#"), new_var(t, "$")
    if not dep or not ind:
        return t, False
    ids = {}
    st = {"d": dep, "i": ind}
    def rep(a):
        l, r = left.get(a), right.get(a)
        if (l or 0) >= 2 or (r or 0) >= 2 or (l and r):
            if l and r:
                k = ("$", "i")
            else:
                if a == "SELF" and opseq is not None and l is not None:
                    return a
                k = ("#", "d")
            if a not in ids:
                ids[a] = st[k[1]]
                st[k[1]] += 1
            if ids[a] <= 9:
                return k[0] + str(ids[a])
        return a
    return _replace(t, rep), True

def intro_conjunction(t, ext):
    cnt = {}
    _count_hol(t, cnt, ext)
    dep = new_var(t, "#")
    if not dep:
        return t, False
    ids, st = {}, [dep]
    def rep(a):
        if cnt.get(a, 0) >= 2:
            if a not in ids:
                ids[a] = st[0]
                st[0] += 1
            if ids[a] <= 9:
                return "#" + str(ids[a])
        return a
    return _replace(t, rep), True
