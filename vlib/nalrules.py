"""The NAL 1-6 rule set, the term reductions, the validity filters and the inferences with unification, transcribed from the
documented rules into plain text and interpreted on term trees. Nothing of it is read from the tree under test."""
from . import nal, truth as T, varintro as vi

RULES = r"""
# syllogistic inheritance
(S --> M), (M --> P) |- (S --> P) Deduction
(A --> B), (A --> C) |- (C --> B) Induction
(A --> C), (B --> C) |- (B --> A) Abduction
(A --> B), (B --> C) |- (C --> A) Exemplification
S, (S --> P) |- P Deduction
P, (S --> P) |- S Abduction
# similarity
(S <-> P) |- (P <-> S) StructuralIntersection
(M <-> P), (S <-> M) |- (S <-> P) Resemblance
(P --> M), (S --> M) |- (S <-> P) Comparison
(M --> P), (M --> S) |- (S <-> P) Comparison
(M --> P), (S <-> M) |- (S --> P) Analogy
(P --> M), (S <-> M) |- (P --> S) Analogy
S, (S <-> P) |- P Analogy
S, (P <-> S) |- P Analogy
# properties and instances
(S --> {P}) |- (S <-> {P}) StructuralIntersection
([S] --> P) |- ([S] <-> P) StructuralIntersection
({M} --> P), (S <-> M) |- ({S} --> P) Analogy
(P --> [M]), (S <-> M) |- (P --> [S]) Analogy
({A} <-> {B}) |- (A <-> B) StructuralIntersection
([A] <-> [B]) |- (A <-> B) StructuralIntersection
# set decomposition
({A B} --> M) |- ({A} --> M) StructuralDeduction
({A B} --> M) |- ({B} --> M) StructuralDeduction
(M --> [A B]) |- (M --> [A]) StructuralDeduction
(M --> [A B]) |- (M --> [B]) StructuralDeduction
# intersections and differences: decomposition
((S | P) --> M) |- (S --> M) StructuralDeduction
(M --> (S & P)) |- (M --> S) StructuralDeduction
((S | P) --> M) |- (P --> M) StructuralDeduction
(M --> (S & P)) |- (M --> P) StructuralDeduction
((A ~ S) --> M) |- (A --> M) StructuralDeduction
(M --> (B - S)) |- (M --> B) StructuralDeduction
((A ~ S) --> M) |- (S --> M) StructuralDeductionNegated
(M --> (B - S)) |- (M --> S) StructuralDeductionNegated
# composition
(P --> M), (S --> M) |- ((P | S) --> M) Intersection
(P --> M), (S --> M) |- ((P & S) --> M) Union
(P --> M), (S --> M) |- ((P ~ S) --> M) Difference
(M --> P), (M --> S) |- (M --> (P & S)) Intersection
(M --> P), (M --> S) |- (M --> (P | S)) Union
(M --> P), (M --> S) |- (M --> (P - S)) Difference
# decomposition by a second premise
(S --> M), ((S | P) --> M) |- (P --> M) DecomposePNN
(P --> M), ((S | P) --> M) |- (S --> M) DecomposePNN
(S --> M), ((S & P) --> M) |- (P --> M) DecomposeNPP
(P --> M), ((S & P) --> M) |- (S --> M) DecomposeNPP
(S --> M), ((S ~ P) --> M) |- (P --> M) DecomposePNP
(S --> M), ((P ~ S) --> M) |- (P --> M) DecomposeNNN
(M --> S), (M --> (S & P)) |- (M --> P) DecomposePNN
(M --> P), (M --> (S & P)) |- (M --> S) DecomposePNN
(M --> S), (M --> (S | P)) |- (M --> P) DecomposeNPP
(M --> P), (M --> (S | P)) |- (M --> S) DecomposeNPP
(M --> S), (M --> (S - P)) |- (M --> P) DecomposePNP
(M --> S), (M --> (P - S)) |- (M --> P) DecomposeNNN
# relations
((A * B) --> (S * M)) |- (A --> S) StructuralDeduction
((A * B) --> (S * M)) |- (B --> M) StructuralDeduction
((A * B) --> R) |- (A --> (R /1 B)) StructuralIntersection
(A --> (R /1 B)) |- ((A * B) --> R) StructuralIntersection
((A * B) --> R) |- (B --> (R /2 A)) StructuralIntersection
(B --> (R /2 A)) |- ((A * B) --> R) StructuralIntersection
(R --> (A * B)) |- ((R \1 B) --> A) StructuralIntersection
((R \1 B) --> A) |- (R --> (A * B)) StructuralIntersection
(R --> (A * B)) |- ((R \2 A) --> B) StructuralIntersection
((R \2 A) --> B) |- (R --> (A * B)) StructuralIntersection
# comparative relations
({R} |-> [P]), ({S} |-> [P]) |- (({R} * {S}) --> (+ P)) FrequencyGreater
((A * B) --> (+ P)), ((B * C) --> (+ P)) |- ((A * C) --> (+ P)) Deduction
({R} |-> [P]), ({S} |-> [P]) |- (({R} * {S}) --> (= P)) FrequencyEqual
((A * B) --> (= P)), ((B * C) --> (= P)) |- ((A * C) --> (= P)) Deduction
((A * B) --> (= P)) |- ((B * A) --> (= P)) StructuralIntersection
# relation components
((A * B) --> R), ((C * B) --> R) |- (C --> A) Abduction
((A * B) --> R), ((A * C) --> R) |- (C --> B) Abduction
(R --> (A * B)), (R --> (C * B)) |- (C --> A) Induction
(R --> (A * B)), (R --> (A * C)) |- (C --> B) Induction
((A * B) --> R), (C --> A) |- ((C * B) --> R) Deduction
((A * B) --> R), (A --> C) |- ((C * B) --> R) Induction
((A * B) --> R), (C <-> A) |- ((C * B) --> R) Analogy
((A * B) --> R), (C --> B) |- ((A * C) --> R) Deduction
((A * B) --> R), (B --> C) |- ((A * C) --> R) Induction
((A * B) --> R), (C <-> B) |- ((A * C) --> R) Analogy
(R --> (A * B)), (A --> C) |- (R --> (C * B)) Deduction
(R --> (A * B)), (C --> A) |- (R --> (C * B)) Abduction
(R --> (A * B)), (C <-> A) |- (R --> (C * B)) Analogy
(R --> (A * B)), (B --> C) |- (R --> (A * C)) Deduction
(R --> (A * B)), (C --> B) |- (R --> (A * C)) Abduction
(R --> (A * B)), (C <-> B) |- (R --> (A * C)) Analogy
((A * B) --> R), ((C * B) --> R) |- (A <-> C) Comparison
((A * B) --> R), ((A * C) --> R) |- (B <-> C) Comparison
(R --> (A * B)), (R --> (C * B)) |- (A <-> C) Comparison
(R --> (A * B)), (R --> (A * C)) |- (B <-> C) Comparison
# negation, conjunction, disjunction
(! A) |- A Negation
(A && B) |- A StructuralDeduction
(A && B) |- B StructuralDeduction
(A && B) |- (B && A) StructuralIntersection
S, (&& S A) |- A DecomposePNN
S, (|| S A) |- A DecomposeNPP
S, (&& (! S) A) |- A DecomposeNNN
S, (|| (! S) A) |- A DecomposePPP
# implication and equivalence
(S ==> M), (M ==> P) |- (S ==> P) Deduction
(A ==> B), (A ==> C) |- (C ==> B) Induction
(A ==> C), (B ==> C) |- (B ==> A) Abduction
(A ==> B), (B ==> C) |- (C ==> A) Exemplification
(A ==> C), (B ==> C) |- ((A && B) ==> C) Union
(A ==> C), (B ==> C) |- ((A || B) ==> C) Intersection
(C ==> A), (C ==> B) |- (C ==> (A && B)) Intersection
(C ==> A), (C ==> B) |- (C ==> (A || B)) Union
((S && P) ==> M), (S ==> M) |- P Abduction
((C && M) ==> P), (S ==> M) |- ((C && S) ==> P) Deduction
((C && P) ==> M), ((C && S) ==> M) |- (S ==> P) Abduction
((C && M) ==> P), (M ==> S) |- ((C && S) ==> P) Induction
(S <=> P) |- (P <=> S) StructuralIntersection
(S ==> P), (P ==> S) |- (S <=> P) Intersection
(P ==> M), (S ==> M) |- (S <=> P) Comparison
(M ==> P), (M ==> S) |- (S <=> P) Comparison
(M ==> P), (S <=> M) |- (S ==> P) Analogy
(P ==> M), (S <=> M) |- (P ==> S) Analogy
(M <=> P), (S <=> M) |- (S <=> P) Resemblance
# variable introduction (first step)
(C --> A), (C --> B) |- ((C --> B) ==> (C --> A)) Induction !
(A --> C), (B --> C) |- ((B --> C) ==> (A --> C)) Induction !
(C --> A), (C --> B) |- ((C --> B) <=> (C --> A)) Comparison !
(A --> C), (B --> C) |- ((B --> C) <=> (A --> C)) Comparison !
(! (C --> A)), (C --> B) |- ((C --> B) ==> (! (C --> A))) Induction !
(! (A --> C)), (B --> C) |- ((B --> C) ==> (! (A --> C))) Induction !
(! (C --> A)), (C --> B) |- ((C --> B) <=> (! (C --> A))) Comparison !
(! (A --> C)), (B --> C) |- ((B --> C) <=> (! (A --> C))) Comparison !
(C --> A), (! (C --> B)) |- ((! (C --> B)) ==> (C --> A)) Induction !
(A --> C), (! (B --> C)) |- ((! (B --> C)) ==> (A --> C)) Induction !
(C --> A), (! (C --> B)) |- ((! (C --> B)) <=> (C --> A)) Comparison !
(A --> C), (! (B --> C)) |- ((! (B --> C)) <=> (A --> C)) Comparison !
(C --> A), (C --> B) |- ((C --> B) && (C --> A)) Intersection !
(A --> C), (B --> C) |- ((B --> C) && (A --> C)) Intersection !
(! (C --> A)), (C --> B) |- ((C --> B) && (! (C --> A))) Intersection !
(! (A --> C)), (B --> C) |- ((B --> C) && (! (A --> C))) Intersection !
(C --> A), (! (C --> B)) |- ((! (C --> B)) && (C --> A)) Intersection !
(A --> C), (! (B --> C)) |- ((! (B --> C)) && (A --> C)) Intersection !
# second step
(<$1 --> B> ==> <$1 --> C>), A |- (A && (<$1 --> B> ==> <$1 --> C>)) Intersection !
(<#1 --> B> && <#1 --> C>), A |- (A ==> (<#1 --> B> && <#1 --> C>)) Induction !
(B ==> C), A |- ((A && B) ==> C) Induction !
# symmetry, asymmetry, transitivity
((A * B) --> R), ((B * A) --> S) |- (((B * A) --> S) ==> ((A * B) --> R)) Induction !
(! ((B * A) --> R)), ((A * B) --> S) |- (((A * B) --> S) ==> (! ((B * A) --> R))) Induction !
((B * A) --> R), (! ((A * B) --> S)) |- ((! ((A * B) --> S)) ==> ((B * A) --> R)) Induction !
((A * B) --> R), ((B * C) --> S) |- (((A * B) --> R) && ((B * C) --> S)) Intersection
((A * C) --> M), (((A * B) --> R) && ((B * C) --> S)) |- ((((A * B) --> R) && ((B * C) --> S)) ==> ((A * C) --> M)) Induction !
"""
# what replaces a term on either side of a statement
REDUCE_TERM = r"""
(A & A) -> A
(A | A) -> A
({A} | {B}) -> {A B}
({A B} | {C}) -> {(A . B) C}
({C} | {A B}) -> {C (A . B)}
([A] & [B]) -> [A B]
([A B] & [C]) -> [(A . B) C]
([A] & [B C]) -> [A (B . C)]
{(A . B)} -> {A B}
[(A . B)] -> [A B]
"""
REDUCE_STATEMENT = r"""
(A && A) -> A
(A || A) -> A
"""

def parse(s):
    """a rule pattern -> tree"""
    toks, i = [], 0
    while i < len(s):
        ch = s[i]
        if ch == " ": i += 1; continue
        for c in ("<->", "<=>", "-->", "==>", "|->", "=/>"):
            if s.startswith(c, i): toks.append(c); i += 3; break
        else:
            if ch in "(){}[]": toks.append(ch); i += 1; continue
            if ch in "<>": toks.append({"<": "(", ">": ")"}[ch]); i += 1; continue
            j = i
            while j < len(s) and s[j] not in " (){}[]<>": j += 1
            toks.append(s[i:j]); i = j
    def term(k):
        t = toks[k]
        if t in "([{":
            close = {"(": ")", "[": "]", "{": "}"}[t]
            parts, k = [], k + 1
            while toks[k] != close:
                x, k = term(k)
                parts.append(x)
            k += 1
            if t in "[{":
                return ('"' if t == "{" else "'", parts[0], parts[1] if len(parts) > 1 else nal.TERMINATOR), k
            cop = lambda x: nal.COPS.get(x, x if x in ("+", "=", ".") else None) if isinstance(x, str) else None
            if cop(parts[0]) and len(parts) == 2: return (cop(parts[0]), parts[1], nal.TERMINATOR), k
            if cop(parts[0]): return (cop(parts[0]), parts[1], parts[2]), k
            return (cop(parts[1]), parts[0], parts[2]), k
        return t, k + 1
    return term(0)[0]

def metavar(x):
    return isinstance(x, str) and len(x) == 1 and x.isupper()

def match(p, t, env):
    if metavar(p):
        if t is None or t == nal.TERMINATOR or isinstance(t, tuple) and t[0] == nal.TERMINATOR: return False
        if p in env: return env[p] == t
        env[p] = t
        return True
    if isinstance(p, str):
        return (t if isinstance(t, str) or t is None else t[0]) == p
    return isinstance(t, tuple) and t[0] == p[0] and match(p[1], t[1], env) and match(p[2], t[2], env)

def subst(p, env):
    if isinstance(p, str): return env.get(p, p) if metavar(p) else p
    return (p[0], subst(p[1], env), subst(p[2], env))

def _load():
    rules = []
    for n, l in enumerate(RULES.strip().split("\n")):
        if l.startswith("#"): continue
        prem, c = l.split("|-", 1) if " |- " not in l else l.split(" |- ")
        intro = c.endswith(" !")
        c, f = c[:-2].rsplit(" ", 1) if intro else c.rsplit(" ", 1)
        prem = prem.split(", ")
        rules.append((l, [parse(x) for x in prem], parse(c), T.BINARY[f], intro))
    red = []
    for l in REDUCE_TERM.strip().split("\n")[:2]:
        a, b = [parse(x) for x in l.split(" -> ")]
        red += [((":", a, "M"), (":", b, "M")), ((":", "M", a), (":", "M", b))]
    for l in REDUCE_STATEMENT.strip().split("\n"):
        red.append(tuple(parse(x) for x in l.split(" -> ")))
    for l in REDUCE_TERM.strip().split("\n")[2:]:
        a, b = [parse(x) for x in l.split(" -> ")]
        red += [((":", a, "M"), (":", b, "M")), ((":", "M", a), (":", "M", b))]
    return rules, red

LIST, REDUCTIONS = _load()

def reduce(t):
    """the first reduction which fits"""
    for a, b in REDUCTIONS:
        env = {}
        if match(a, t, env):
            r = subst(b, env)
            if nal.fits(r): return r
    return t

# ---- validity of derived terms -------------------------------------------------------------------------------------
def root(t): return t if isinstance(t, str) or t is None else t[0]
def has(t, kinds): return t is not None and any(nal.is_var(a) and a[0] in kinds for a in nal.atoms(t))
def has_simple(t): return t is not None and any(vi.simple(a) for a in nal.atoms(t))
def kid(t, i): return t[i] if isinstance(t, tuple) else None

def twice(t):
    p = nal.positions(t)
    if root(t) in (":", "=") and isinstance(t, tuple) and not (p.get(1) == "*" and p.get(3) == "*" and p.get(4) == "*"):
        s = [a for a in p.values() if vi.simple(a)]
        if len(s) != len(set(s)): return True
    return isinstance(t, tuple) and t[0] in ("^", "?") and t[1] == t[2]

def nested(t):
    a = nal.atoms(t)
    return sum(x in ("?", "^") for x in a) >= 2 or a.count("$") > 2

def dep_in_statement(t): return isinstance(t, tuple) and t[0] in (":", "=") and has(t, "#")

def left_nested_junction(t):
    p = nal.positions(t)
    return any(a in (";", "_") and p.get(2 * i + 2) in (";", "_") for i, a in p.items())

def bad_set_op(t):
    p = nal.positions(t)
    return root(t) == ":" and (p.get(1) == "&" and p.get(3) == p.get(4) == '"' or p.get(2) == "|" and p.get(5) == p.get(6) == "'")

def lonely_variable(t):
    a = [x for x in nal.atoms(t) if nal.is_var(x) and x[0] in "$#"]
    return any(a.count(x) == 1 for x in a)

def op_condition(t):
    if not (isinstance(t, tuple) and t[0] in ("?", "^") and isinstance(t[1], tuple) and t[1][0] == ";"): return False
    c = t[1]
    while isinstance(c, tuple) and c[0] == ";":
        c = c[1]
        if nal.is_operation(c): return True
    return False

def admissible(t):
    return not (twice(t) or nested(t) or dep_in_statement(t) or left_nested_junction(t) or bad_set_op(t) or lonely_variable(t) or op_condition(t))

def bad_component(t, first=True):
    """a statement component of a higher-order statement that variable introduction made meaningless"""
    if isinstance(t, tuple) and t[0] in "?^;_":
        return bad_component(t[1], False) or bad_component(t[2], False)
    if first or not (isinstance(t, tuple) and t[0] in ":="): return False
    s, p = t[1], t[2]
    iv = lambda x: nal.is_var(x) and x[0] in "$#"
    if s == p or iv(root(s)) and iv(root(p)): return True
    if not has(t, "$#"): return True
    if not has_simple(t): return True
    mix = lambda x: has(x, "$#") and has_simple(x)
    si, pi = root(s) in ("\\", "#") and isinstance(s, tuple), root(p) in ("/", "%") and isinstance(p, tuple)
    if not si and not pi and root(s) != "." and root(p) != "." and (mix(s) or mix(p)): return True
    if si and (mix(s[1]) or mix(s[2])): return True
    if pi and (mix(p[1]) or mix(p[2])): return True
    return False

def derived(t, intro):
    """the terms memory is given for a conclusion"""
    out = []
    if intro and isinstance(t, tuple) and t[0] in ("$", "?", "^"):
        for ext in (True, False):
            v, ok = vi.intro_implication(t, ext)
            if ok and v != t and not bad_component(v) and not (v[0] in "?^" and not has(v, "$")): out.append(v)
        if t[0] != "$": return [x for x in out if admissible(x)]
    if intro and isinstance(t, tuple) and t[0] == ";":
        for ext in (True, False):
            v, ok = vi.intro_conjunction(t, ext)
            if ok and v != t and not bad_component(v): out.append(v)
        return [x for x in out if admissible(x)]
    return [x for x in out + [t] if admissible(x)]

def table(t1, t2, v1, v2, double):
    """[(term, truth, rule)]"""
    out = []
    for l, prem, c, f, intro in LIST:
        if (len(prem) == 2) != double: continue
        for sw in ([False, True] if double else [False]):
            env = {}
            if double:
                if not (match(prem[0], t2 if sw else t1, env) and match(prem[1], t1 if sw else t2, env)): continue
            elif not match(prem[0], t1, env): continue
            r = subst(c, env)
            if not nal.fits(r): continue
            v = f(v2, v1) if sw else f(v1, v2)
            for x in derived(reduce(r), intro): out.append((x, v, l))
    return out

def special(t1, t2, v1, v2):
    """t2 is the rule-like statement"""
    out = []
    def give(t, env, v, what):
        r = vi.substitute(t, env)
        if nal.fits(r):
            out.extend((x, v, what) for x in derived(r, False))
    if not isinstance(t2, tuple): return out
    if t2[0] in ("?", "^"):
        imp, (sub, pred) = t2[0] == "?", t2[1:]
        m = vi.unify(sub, t1)
        if m: give(pred, m[0], T.Deduction(v2, v1) if imp else T.Analogy(v2, v1), "detachment")
        if imp and isinstance(sub, tuple) and sub[0] == ";":
            rest, m = sub[2], vi.unify(sub[1], t1)
            if not m: rest, m = sub[1], vi.unify(sub[2], t1)
            if m and nal.fits(("?", rest, pred)): give(("?", rest, pred), m[0], T.Deduction(v2, v1), "condition detached")
        m = vi.unify(pred, t1)
        if m: give(sub, m[0], T.Abduction(v2, v1) if imp else T.Analogy(v2, v1), "explanation")
    if t2[0] == ";":
        m = vi.unify(t2[1], t1)
        if m: give(t2[2], m[0], T.AnonymousAnalogy(v2, v1), "anonymous analogy")
    return out
