/* Own definitions the oracles compute with (terms, truth values, events), independent of the code under observation. */
#ifndef ORA_H
#define ORA_H
#include "hx.h"
#include <math.h>
#define O_DECAY 0.8
#define O_EPS 1e-9
static inline bool o_near(double a, double b) { return fabs(a-b) <= O_EPS; }
static inline bool o_same(Term *a, Term *b) { return !memcmp(a->atoms, b->atoms, sizeof(a->atoms)); }
static inline Term o_sub(Term *t, int pos)         /* subtree at 0-based position pos */
{
    Term r = {0}; int from[COMPOUND_TERM_SIZE_MAX], to[COMPOUND_TERM_SIZE_MAX], n = 0;
    if(pos >= COMPOUND_TERM_SIZE_MAX) return r;
    from[n] = pos; to[n++] = 0;
    for(int i=0; i<n; i++)
    {
        r.atoms[to[i]] = t->atoms[from[i]];
        for(int k=1; k<=2; k++)
        {
            int f = 2*from[i]+k, g = 2*to[i]+k;
            if(f < COMPOUND_TERM_SIZE_MAX && g < COMPOUND_TERM_SIZE_MAX && t->atoms[f]) { from[n] = f; to[n++] = g; }
        }
    }
    return r;
}
static inline bool o_cop(Term *t, const char *c)   /* by printed name of the root */
{
    return t->atoms[0] && !strcmp(Narsese_atomNames[t->atoms[0]-1], c);
}
static inline const char *o_name(Atom a) { return a ? Narsese_atomNames[a-1] : ""; }
static inline bool o_opname(Atom a) { return o_name(a)[0] == '^' && o_name(a)[1]; }    /* "^" alone is the copula <=> */
static inline bool o_isop(Term *t)                 /* ^op or <({x} * args) --> ^op> */
{
    return o_opname(t->atoms[0]) || (o_cop(t, ":") && !strcmp(o_name(t->atoms[1]), "*") && o_opname(t->atoms[2]) && !strcmp(o_name(t->atoms[3]), "\""));
}
static inline Term o_noop(Term *t)                 /* the precondition without the operations at its end */
{
    Term r = *t;
    while(o_cop(&r, "+"))
    {
        Term right = o_sub(&r, 2);
        if(!o_isop(&right)) break;
        r = o_sub(&r, 1);
    }
    return r;
}
static inline Truth o_t(double f, double c) { return (Truth) { .frequency = f, .confidence = c }; }
static inline double o_exp(Truth v) { return v.confidence * (v.frequency - 0.5) + 0.5; }
static inline Truth o_ded(Truth a, Truth b) { double f = a.frequency * b.frequency; return o_t(f, a.confidence * b.confidence * f); }
static inline Truth o_neg(Truth a) { return o_t(1.0 - a.frequency, a.confidence); }
static inline Truth o_goalded(Truth a, Truth b) { Truth x = o_ded(a, b), y = o_neg(o_ded(o_neg(a), b)); return x.confidence >= y.confidence ? x : y; }
static inline Truth o_proj(Truth v, long from, long to) { return from == OCCURRENCE_ETERNAL || to == OCCURRENCE_ETERNAL ? v : o_t(v.frequency, v.confidence * pow(O_DECAY, labs(to-from))); }
static inline double o_c2w(double c) { return c / (1.0 - c); }
static inline double o_w2c(double w) { return w / (w + 1.0); }
static inline Truth o_ind(Truth a, Truth b) { return o_t(a.frequency, o_w2c(b.frequency * a.confidence * b.confidence)); }
static inline Truth o_eternal(Truth v) { return o_t(v.frequency, o_w2c(v.confidence)); }
static inline Truth o_rev(Truth a, Truth b)
{
    double wa = o_c2w(a.confidence), wb = o_c2w(b.confidence), w = wa + wb;
    if(w == 0) return o_t(0.5, 0);
    double f = (wa*a.frequency + wb*b.frequency)/w;
    return o_t(f < 0 ? 0 : f > 1 ? 1 : f, fmax(fmin(MAX_CONFIDENCE, o_w2c(w)), fmax(a.confidence, b.confidence)));
}
static inline Stamp o_zip(Stamp *a, Stamp *b)
{
    Stamp r = {0}; int n = 0;
    for(int i=0; i<STAMP_SIZE && n<STAMP_SIZE; i++)
    {
        if(a->evidentialBase[i]) r.evidentialBase[n++] = a->evidentialBase[i];
        if(b->evidentialBase[i] && n < STAMP_SIZE) r.evidentialBase[n++] = b->evidentialBase[i];
    }
    return r;
}
static inline bool o_overlap(Stamp *a, Stamp *b)
{
    for(int i=0; i<STAMP_SIZE; i++) for(int j=0; j<STAMP_SIZE; j++) if(a->evidentialBase[i] && a->evidentialBase[i] == b->evidentialBase[j]) return true;
    return false;
}
static inline bool o_samestamp(Stamp *a, Stamp *b)  /* the same evidence ids */
{
    return !memcmp(a->evidentialBase, b->evidentialBase, sizeof(a->evidentialBase));
}
static inline bool o_tnear(Truth a, Truth b) { return o_near(a.frequency, b.frequency) && o_near(a.confidence, b.confidence); }
static inline bool o_valid(Implication *m) { return m->sourceConcept && ((Concept*) m->sourceConcept)->id == m->sourceConceptId; }
/* does associative recall for t lead to c: it is its own concept, or shares an atom */
static inline bool o_related(Term *t, Concept *c)
{
    if(o_same(t, &c->term)) return true;
    for(int i=0; i<UNIFICATION_DEPTH; i++)
    {
        if(!t->atoms[i]) continue;
        for(ConceptChainElement *e = InvertedAtomIndex_GetConceptChain(t->atoms[i]); e; e = e->next) if(e->c == c) return true;
    }
    return false;
}
#endif
