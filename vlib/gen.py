"""Workload generators. Everything is driven by a random.Random passed in."""
import glob, os

REPO = os.environ.get("VERIF_REPO", "/repo")
_cache = {}

def example_lines():
    if "ex" not in _cache:
        files = sorted(glob.glob(os.path.join(REPO, "examples", "nal", "*.nal")))
        out = []
        for f in files:
            ls = open(f, encoding="latin-1").read().splitlines()
            out.append((os.path.basename(f), ls))
        _cache["ex"] = out
    return _cache["ex"]

ATOMS = ["a", "b", "c", "d", "e", "bird", "swan", "animal", "x1", "Foo", "42"]
VARS = ["$1", "$2", "#1", "#2", "?1", "?2"]
TOK = ["(", ")", "<", ">", "{", "}", "[", "]", " ", " ", " ", ",", "-->", "<->", "=/>", "==>", "<=>", "&/", "&&", "||", "&", "|", "-", "~", "*", "/1", "/2", "\\1", "\\2",
       "--", "|->", "+", "=", ".", "!", "?", ":|:", ":\\:", ":/:", "%", ";", "@", "\"", "'", "^", "_", "^left", "^op", "SELF", "{SELF}", "dt=", "1.0", "0.9", "{1.0 0.9}", "%0.5;0.9%", "%1%"] + VARS + ATOMS

def soup(r, n=None):
    n = n or r.choice([1, 2, 3, 5, 8, 13, 25, 60, 150])
    return "".join(r.choice(TOK) + (" " if r.random() < 0.3 else "") for _ in range(n))

def rawbytes(r, n=None):
    n = n or r.choice([1, 2, 3, 7, 20, 80, 400, 1022, 1023, 1024, 1100, 2300])
    return "".join(chr(r.randrange(1, 256)) for _ in range(n)).replace("\n", " ").replace("\r", " ")

def atom(r, pool=ATOMS):
    return r.choice(pool)

def longatom(r):
    return "".join(r.choice("abcdefghij") for _ in range(r.choice([15, 29, 30, 31, 32, 33, 34, 60, 200])))

class Grammar:
    """Well-formed Narsese terms (surface form)."""
    def __init__(self, r, atoms=None, vars=True, ops=None, depth=3):
        self.r, self.atoms, self.vars, self.ops, self.depth = r, atoms or ATOMS, vars, ops or ["^left", "^deactivate", "^pick"], depth
    def leaf(self):
        if self.vars and self.r.random() < 0.12:
            return self.r.choice(VARS[:4])
        return self.r.choice(self.atoms)
    def term(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.45:
            return self.leaf()
        k = r.randrange(11)
        a, b = self.term(d - 1), self.term(d - 1)
        if k == 0: return "{%s}" % a
        if k == 1: return "[%s]" % a
        if k == 2: return "{%s %s}" % (a, b)
        if k == 3: return "[%s %s]" % (a, b)
        if k == 4: return "(%s & %s)" % (a, b)
        if k == 5: return "(%s | %s)" % (a, b)
        if k == 6: return "(%s * %s)" % (a, b)
        if k == 7: return "(%s - %s)" % (a, b)
        if k == 8: return "(%s ~ %s)" % (a, b)
        if k == 9: return "(%s /%d %s)" % (a, r.choice([1, 2]), b)
        return "(%s \\%d %s)" % (a, r.choice([1, 2]), b)
    def statement(self, d=None):
        d = self.depth if d is None else d
        r = self.r
        cop = r.choices(["-->", "<->", "|->"], [6, 2, 0.3])[0]
        return "<%s %s %s>" % (self.term(d - 1), cop, self.term(d - 1))
    def hol(self, d=None):
        r = self.r
        d = self.depth if d is None else d
        k = r.randrange(9)
        s1, s2 = self.statement(d - 1), self.statement(d - 1)
        if k == 0: return "(! %s)" % s1
        if k == 1: return "(%s && %s)" % (s1, s2)
        if k == 2: return "(%s || %s)" % (s1, s2)
        if k == 3: return "<%s ==> %s>" % (s1, s2)
        if k == 4: return "<%s <=> %s>" % (s1, s2)
        if k == 5: return "<<$1 --> %s> ==> <$1 --> %s>>" % (self.term(d - 2), self.term(d - 2))
        if k == 6: return "<(%s && %s) ==> %s>" % (s1, s2, self.statement(d - 1))
        if k == 7: return "<<%s --> $1> ==> <%s --> $1>>" % (self.term(d - 2), self.term(d - 2))
        return "(<#1 --> %s> && <#1 --> %s>)" % (self.term(d - 2), self.term(d - 2))
    def op(self):
        r = self.r
        o = r.choice(self.ops)
        if r.random() < 0.35:
            return "<({SELF} * %s) --> %s>" % (self.leaf() if r.random() < 0.7 else self.statement(1), o)
        return o
    def event(self):
        r = self.r
        return r.choice([lambda: self.leaf() if not self.vars else self.r.choice(self.atoms), lambda: self.statement(2), lambda: self.statement(1)])()
    def seq(self, n=2):
        s = self.event()
        for _ in range(n - 1):
            s = "(%s &/ %s)" % (s, self.event())
        return s
    def timp(self):
        r = self.r
        pre = self.seq(r.choice([1, 1, 2]))
        if r.random() < 0.7:
            return "<(%s &/ %s) =/> %s>" % (pre, self.op(), self.event())
        return "<%s =/> %s>" % (pre, self.event())
    def any(self):
        r = self.r
        return r.choices([lambda: self.statement(), lambda: self.hol(), lambda: self.timp(), lambda: self.event(), lambda: self.seq(r.choice([2, 3])), self.op], [5, 3, 2, 2, 1, 1])[0]()

def truth(r):
    k = r.random()
    if k < 0.5: return ""
    f = r.choice([0.0, 1.0, 0.5, round(r.random(), 3), round(r.random(), 6)])
    c = r.choice([0.9, 0.5, 0.99, 0.01, round(r.random() * 0.99, 3)])
    return r.choice([" {%s %s}", " {%s %s}", " %%%s;%s%%"]) % (f, c)

def sentence(r, g):
    k = r.random()
    t = g.any()
    if k < 0.40: return "%s.%s" % (t, truth(r))
    if k < 0.70: return "%s. :|:%s" % (t, truth(r))
    if k < 0.80: return "%s! :|:%s" % (t, truth(r))
    return "%s?%s" % (t, r.choice(["", "", " :|:", " :\\:", " :/:"]))

COMMANDS = ["*volume=0", "*volume=100", "*volume=%d", "*restrictedconceptcreation=true", "*restrictedconceptcreation=false", "*anticipationconfidence=%f", "*decisionthreshold=%f",
            "*similaritydistance=%f", "*stats", "*inverted_atom_index", "*opconfig", "*concepts", "*cycling_belief_events", "*cycling_goal_events", "*babblingops=%d", "*currenttime=%d",
            "*stampid=%d", "*stampimport=[%d,%d]", "*motorbabbling=false", "*motorbabbling=true", "*motorbabbling=%f", "*questionpriming=%f", "*setvalue %f %d %s", "*space %d %s",
            "*setopname %d %s", "*setoparg %d %d %s", "*query %f %s", "*setopstdin %d", "%d", "*concurrent", "*reset", "//comment %s", "", "quit", "*unknown %s"]

def command_fill(r, c, hostile=False):
    out, i = "", 0
    while i < len(c):
        if c[i] == "%" and i + 1 < len(c) and c[i + 1] in "dfs":
            k = c[i + 1]
            i += 2
            if k == "d":
                out += str(r.choice([0, 1, 2, 3, 5, 10, 11, -1, 100, 1000, 1001, 2147483647, -2147483648, 4294967296, 99999999999999999999] if hostile else [1, 2, 3, 5, 10]))
            elif k == "f":
                out += str(r.choice([0.0, 1.0, 0.5, -0.5, 2.0, 1e300, 1e-300, "nan", "inf", "-inf", "x", "", 123456.789] if hostile else [0.0, 0.25, 0.5, 0.9, 1.0]))
            else:
                out += r.choice([lambda: atom(r), lambda: longatom(r), lambda: "", lambda: soup(r, 5), lambda: "^" + atom(r), lambda: "<a --> b>?", lambda: rawbytes(r, 40)])() if hostile else r.choice(["^" + atom(r), atom(r)])
        else:
            out += c[i]
            i += 1
    return out
