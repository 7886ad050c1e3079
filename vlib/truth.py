"""NAL truth functions, written from their definitions (evidential horizon 1, projection decay 0.8, reliance 0.9)."""
H, DECAY, RELIANCE, MAXC = 1.0, 0.8, 0.9, 0.99

def w2c(w): return w / (w + H)
def c2w(c): return H * c / (1 - c)
def exp(v): return v[1] * (v[0] - 0.5) + 0.5
def or_(a, b): return 1 - (1 - a) * (1 - b)

def Deduction(a, b): return (a[0] * b[0], a[0] * b[0] * a[1] * b[1])
def Abduction(a, b): return (b[0], w2c(a[0] * a[1] * b[1]))
def Induction(a, b): return (a[0], w2c(b[0] * a[1] * b[1]))
def Exemplification(a, b): return (1.0, w2c(a[0] * b[0] * a[1] * b[1]))
def Comparison(a, b):
    f0 = or_(a[0], b[0])
    return (0.0 if f0 == 0 else a[0] * b[0] / f0, w2c(f0 * a[1] * b[1]))
def Analogy(a, b): return (a[0] * b[0], a[1] * b[1] * b[0])
def Resemblance(a, b): return (a[0] * b[0], a[1] * b[1] * or_(a[0], b[0]))
def Intersection(a, b): return (a[0] * b[0], a[1] * b[1])
def Union(a, b): return (or_(a[0], b[0]), a[1] * b[1])
def Difference(a, b): return (a[0] * (1 - b[0]), a[1] * b[1])
def Conversion(a, b=None): return (1.0, w2c(a[0] * a[1]))
def Negation(a, b=None): return (1 - a[0], a[1])
STRUCT = (1.0, RELIANCE)
def StructuralDeduction(a, b=None): return Deduction(a, STRUCT)
def StructuralDeductionNegated(a, b=None): return Negation(Deduction(a, STRUCT))
def StructuralIntersection(a, b=None): return Intersection(a, STRUCT)
def DecomposePNN(a, b):
    fn = a[0] * (1 - b[0])
    return (1 - fn, fn * a[1] * b[1])
def DecomposeNPP(a, b):
    f = (1 - a[0]) * b[0]
    return (f, f * a[1] * b[1])
def DecomposePNP(a, b):
    f = a[0] * (1 - b[0])
    return (f, f * a[1] * b[1])
def DecomposePPP(a, b): return DecomposeNPP(Negation(a), b)
def DecomposeNNN(a, b):
    fn = (1 - a[0]) * (1 - b[0])
    return (1 - fn, fn * a[1] * b[1])
def AnonymousAnalogy(a, b): return Analogy(a, (1.0, w2c(b[0] * b[1])))
def GoalDeduction(a, b):
    p, n = Deduction(a, b), Negation(Deduction(Negation(a), b))
    return p if p[1] >= n[1] else n
def FrequencyGreater(a, b): return (1.0, a[1] * b[1]) if a[0] > b[0] else (0.0, 0.0)
def FrequencyEqual(a, b): return (1.0, a[1] * b[1]) if a[0] == b[0] else (0.0, 0.0)
def Revision(a, b):
    wa, wb = c2w(a[1]), c2w(b[1])
    w = wa + wb
    if w == 0:
        return ((a[0] + b[0]) / 2, 0.0)
    return (min(1.0, (wa * a[0] + wb * b[0]) / w), max(min(MAXC, w2c(w)), a[1], b[1]))
def Eternalize(a): return (a[0], w2c(a[1]))
def Projection(a, t0, t1): return a if t0 == -1 else (a[0], a[1] * DECAY ** abs(t1 - t0))

BINARY = {n: globals()[n] for n in ["Revision", "Deduction", "Induction", "Intersection", "GoalDeduction", "Abduction", "Exemplification", "Comparison", "Analogy", "Resemblance",
          "StructuralDeduction", "StructuralDeductionNegated", "StructuralIntersection", "Union", "Difference", "Conversion", "Negation", "DecomposePNN", "DecomposeNPP", "DecomposePNP",
          "DecomposePPP", "DecomposeNNN", "AnonymousAnalogy", "FrequencyGreater", "FrequencyEqual"]}
def close(a, b, eps=1e-9): return a == b or abs(a - b) <= eps * max(1.0, min(abs(a), abs(b)))
def teq(a, b, eps=1e-9): return close(a[0], b[0], eps) and close(a[1], b[1], eps)
