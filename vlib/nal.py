"""Independent model of Narsese terms: nested tuples (copula, left, right); leaves are strings; right may be None.
Encoding: "pos:name pos:name" in heap order, as the monitors print it."""
import re

MAXPOS = 64
COPS = {"-->": ":", "<->": "=", "=/>": "$", "==>": "?", "<=>": "^", "|->": ",", "&/": "+", "&&": ";", "||": "_", "*": "*", "&": "&", "|": "|", "-": "-", "~": "~",
        "/1": "/", "/2": "%", "\\1": "\\", "\\2": "#", "!": "!", "{": '"', "[": "'"}
SURF = {v: k for k, v in COPS.items()}
STATEMENT = set(":=$?^,")
TERMINATOR = "@"

def is_cop(name):
    return name in SURF

def positions(t, pos=0, out=None):
    if out is None:
        out = {}
    if t is None:
        return out
    if isinstance(t, str):
        out[pos] = t
        return out
    out[pos] = t[0]
    positions(t[1], 2 * pos + 1, out)
    positions(t[2], 2 * pos + 2, out)
    return out

def fits(t):
    return max(positions(t)) < MAXPOS

def enc(t):
    return encp(positions(t))

def encp(p):
    return " ".join("%d:%s" % (i, p[i]) for i in sorted(p))

def decp(s):
    p = {}
    if s:
        for x in s.split(" "):
            i, n = x.split(":", 1)
            p[int(i)] = n
    return p

class Orphan(Exception):
    pass

def dec(s):
    return tree(decp(s))

def tree(p, strict=True):
    def sub(i):
        if i not in p:
            return None
        used.add(i)
        l, r = sub(2 * i + 1), sub(2 * i + 2)
        if l is None and r is None:
            return p[i]
        return (p[i], l, r)
    used = set()
    t = sub(0)
    if strict and used != set(p):
        raise Orphan(encp(p))
    return t

def is_var(n):
    return isinstance(n, str) and len(n) > 1 and n[0] in "$#?"

def norm(t):
    """variables renamed in heap order, per kind"""
    p = positions(t)
    m, k = {}, {"$": 0, "#": 0, "?": 0}
    for i in sorted(p):
        a = p[i]
        if is_var(a) and a not in m:
            k[a[0]] += 1
            m[a] = "%s%d" % (a[0], k[a[0]])
    return rename(t, m)

def rename(t, m):
    if t is None:
        return None
    if isinstance(t, str):
        return m.get(t, t)
    return (t[0], rename(t[1], m), rename(t[2], m))

def leaves(t):
    if t is None:
        return []
    if isinstance(t, str):
        return [t]
    return leaves(t[1]) + leaves(t[2])

def atoms(t):
    return list(positions(t).values())

def complexity(t):
    return len(positions(t))

def show(t):
    """canonical surface form (what the printer is documented to print)"""
    if t is None:
        return ""
    if isinstance(t, str):
        return SURF.get(t, t) if t != TERMINATOR else ""
    c, l, r = t
    if c in ('"', "'"):
        o, e = ("{", "}") if c == '"' else ("[", "]")
        return o + show(l) + ("" if r in (None, TERMINATOR) else " " + show(r)) + e
    if r in (None, TERMINATOR):
        return "(%s %s)" % ({"+": "+", "=": "="}.get(c, SURF.get(c, c)), show(l))
    o, e = ("<", ">") if c in STATEMENT else ("(", ")")
    return "%s%s %s %s%s" % (o, show(l), SURF.get(c, c), show(r), e)

def surface(t, r):
    """a random documented notational variant"""
    ws = lambda: r.choice([" ", " ", " ", "  ", ", ", " , "])
    pad = lambda: r.choice(["", "", "", " "])
    if isinstance(t, str):
        return t
    c, l, rt = t
    if c in ('"', "'"):
        o, e = ("{", "}") if c == '"' else ("[", "]")
        if rt == TERMINATOR:
            return o + pad() + surface(l, r) + pad() + e
        return o + pad() + surface(l, r) + ws() + surface(rt, r) + pad() + e
    s = SURF[c]
    if c == "!":
        s = r.choice(["!", "--"])
    st = c in STATEMENT
    o, e = r.choice([("<", ">"), ("(", ")")]) if st else ("(", ")")
    if rt == TERMINATOR:
        return o + pad() + s + " " + surface(l, r) + pad() + e
    if r.random() < 0.3:
        # prefix; '<' directly before a copula starting with - or = would read as a copula, so a round bracket
        return "(" + pad() + s + ws() + surface(l, r) + ws() + surface(rt, r) + pad() + ")"
    return o + pad() + surface(l, r) + " " + s + " " + surface(rt, r) + pad() + e

class TermGen:
    """random ASTs (not only sensible ones) within the size limits"""
    def __init__(self, r, names=None, variables=True, maxdepth=4):
        self.r = r
        self.names = names or ["a", "b", "c", "d", "bird", "x_1", "Y", "42", "^op", "SELF", "loooooooooooooooooooooooooooong"]
        self.vars = variables
        self.maxdepth = maxdepth
        self.numbered = False
    def leaf(self):
        r = self.r
        if self.vars and r.random() < 0.2:
            return r.choice("$#?") + (str(r.randrange(1, 10)) if self.numbered or r.random() < 0.8 else r.choice(["x", "y", "foo"]))
        return r.choice(self.names)
    def gen(self, d=None, stop=0.35):
        r = self.r
        d = self.maxdepth if d is None else d
        if d == 0 or r.random() < stop:
            return self.leaf()
        c = r.choice([":", "=", "$", "?", "^", ",", "+", ";", "_", "*", "&", "|", "-", "~", "/", "%", "\\", "#", "!", '"', "'", ":", "*", "+", '"'])
        l = self.gen(d - 1, stop)
        if c == "!":
            return (c, l, TERMINATOR)
        if c in "\"'" and r.random() < 0.5:
            return (c, l, TERMINATOR)
        return (c, l, self.gen(d - 1, stop))

def mutate(t, r):
    """a structurally different twin: swapped components, other copula, other leaf, dropped or added structure"""
    p = []
    def walk(x, path):
        p.append(path)
        if isinstance(x, tuple):
            walk(x[1], path + (1,))
            if x[2] not in (None, TERMINATOR):
                walk(x[2], path + (2,))
    walk(t, ())
    path = r.choice(p)
    def at(x, path):
        for i in path: x = x[i]
        return x
    def put(x, path, y):
        if not path: return y
        l = list(x); l[path[0]] = put(x[path[0]], path[1:], y)
        return tuple(l)
    s = at(t, path)
    if isinstance(s, tuple):
        k = r.randrange(3)
        if k == 0 and s[2] not in (None, TERMINATOR) and s[1] != s[2]:
            n = (s[0], s[2], s[1])
        elif k == 1:
            n = s[1]
        else:
            two = [":", "=", "$", "?", "^", ",", "+", ";", "_", "*", "&", "|", "-", "~", "/", "%", "\\", "#"]
            if s[2] == TERMINATOR:
                n = ({'"': "'", "'": '"', "!": '"'}.get(s[0], '"'), s[1], s[2])
            else:
                n = (r.choice([c for c in two if c != s[0]]), s[1], s[2])
    else:
        n = r.choice([x for x in ["a", "b", "c", "zz", "A1"] if x != s] + [('"', s, TERMINATOR), ("!", s, TERMINATOR)])
    return put(t, path, n)

def rel(j, base):
    """position of the subterm-relative position j when the subterm's root sits at base"""
    path = []
    while j:
        path.append(j % 2 == 1)       # left?
        j = (j - 1) // 2
    p = base
    for left in reversed(path):
        p = 2 * p + (1 if left else 2)
    return p

def at_pos(t, pos):
    path = []
    while pos:
        path.append(1 if pos % 2 == 1 else 2)
        pos = (pos - 1) // 2
    for i in reversed(path):
        if not isinstance(t, tuple):
            return None
        t = t[i]
        if t is None:
            return None
    return t

def is_operator(n):
    return isinstance(n, str) and len(n) > 1 and n[0] == "^"

def is_operation(t):
    """^op or <({..} * x) --> ^op>"""
    if isinstance(t, str):
        return is_operator(t)
    return (isinstance(t, tuple) and t[0] == ":" and is_operator(t[2]) and isinstance(t[1], tuple) and t[1][0] == "*" and isinstance(t[1][1], tuple) and t[1][1][0] == '"')

def op_atom(t):
    """operator of an operation, or of the last element of a left-nested sequence"""
    if isinstance(t, tuple) and t[0] == "+":
        if isinstance(t[2], tuple) and t[2][0] == "+":
            return None
        return op_atom(t[2])
    if is_operation(t):
        return t if isinstance(t, str) else t[2]
    return None

def pre_without_op(t):
    while isinstance(t, tuple) and t[0] == "+" and is_operation(t[2]):
        t = t[1]
    return t

def seq_elems(t):
    if isinstance(t, tuple) and t[0] == "+":
        return seq_elems(t[1]) + seq_elems(t[2])
    return [t]

def op_part(t):
    """the left-nested sequence of the operations in t if t ends with one"""
    if isinstance(t, tuple) and t[0] == "$":
        return op_part(t[1])
    if isinstance(t, tuple) and t[0] == "+":
        if not is_operation(t[2]):
            return None
        s = None
        for o in [x for x in seq_elems(t) if is_operation(x)]:
            s = o if s is None else ("+", s, o)
        return s
    return t if is_operation(t) else None

def seq_len(t):
    return len(seq_elems(t))
