/* Revision and choice: every meeting of two pieces of information in the running reasoner against an independent model,
   and every change of a held belief must be the outcome of such a meeting about that very statement. */
#include "hx.h"
#include <math.h>
/* signatures as declared by the tree; anything else does not compile */
__typeof__(Inference_RevisionAndChoice) __wrap_Inference_RevisionAndChoice;
static bool overlap(Stamp *a, Stamp *b)
{
    for(int i=0; i<STAMP_SIZE; i++) for(int j=0; j<STAMP_SIZE; j++) if(a->evidentialBase[i] && a->evidentialBase[i] == b->evidentialBase[j]) return true;
    return false;
}
static double project(Event *e, long to) { return e->occurrenceTime == OCCURRENCE_ETERNAL || to == OCCURRENCE_ETERNAL ? e->truth.confidence : e->truth.confidence * pow(0.8, labs(to - e->occurrenceTime)); }
static bool near(double a, double b) { return fabs(a-b) <= 1e-9; }
static bool sameterm(Term *a, Term *b) { return !memcmp(a->atoms, b->atoms, sizeof(a->atoms)); }
static bool content(Event *a, Event *b) { return sameterm(&a->term, &b->term) && a->truth.frequency == b->truth.frequency && a->truth.confidence == b->truth.confidence && !memcmp(&a->stamp, &b->stamp, sizeof(Stamp)) && a->occurrenceTime == b->occurrenceTime && a->type == b->type; }
static bool depconj(Event *e)
{
    if(!Narsese_copulaEquals(e->term.atoms[0], CONJUNCTION) && !Narsese_copulaEquals(e->term.atoms[0], SEQUENCE)) return false;
    for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) if(e->term.atoms[i] && Narsese_atomNames[e->term.atoms[i]-1][0] == '#' && Narsese_atomNames[e->term.atoms[i]-1][1]) return true;
    return false;
}
#define NR 200000
static unsigned long res[NR]; static int nres = 0;      /* outcomes of this line */
static unsigned long chash(Event *e)
{
    unsigned long h = 1469598103934665603UL;
#define F(x) for(unsigned i=0; i<sizeof(x); i++) h = (h ^ ((unsigned char*) &(x))[i]) * 1099511628211UL
    F(e->term.atoms); F(e->truth.frequency); F(e->truth.confidence); F(e->stamp); F(e->occurrenceTime);
    return h;
}
Event __real_Inference_RevisionAndChoice(Event *x, Event *y, long t, bool *rev);
Event __wrap_Inference_RevisionAndChoice(Event *x, Event *y, long t, bool *rev)
{
    Event a = *x, b = *y; bool r = false;
    Event e = __real_Inference_RevisionAndChoice(x, y, t, &r);
    if(rev) *rev = r;
    if(nres < NR) res[nres++] = chash(&e);
    if(a.type == EVENT_TYPE_DELETED)
    {
        hx_count("first_information", 1);
        if(!content(&e, &b)) hx_viol("C12", "first", "first information about %s was changed", hx_str(&b.term));
        return e;
    }
    long later = a.occurrenceTime > b.occurrenceTime ? a.occurrenceTime : b.occurrenceTime;
    double ca = project(&a, later), cb = project(&b, later);
    bool choice = overlap(&a.stamp, &b.stamp) || depconj(&b) || (a.occurrenceTime != OCCURRENCE_ETERNAL && a.occurrenceTime != b.occurrenceTime) || !sameterm(&a.term, &b.term);
    if(choice)
    {
        hx_count("choices", 1);
        if(r) hx_viol("C12", "revised-instead", "%s: overlapping evidence or different times or statements were revised", hx_str(&b.term));
        Event *w = cb > ca ? &b : &a;
        bool tie = near(ca, cb) && ca != cb;
        if(ca == cb) hx_count("choice_ties", 1);
        if(!content(&e, w) && !(tie && (content(&e, &a) || content(&e, &b)))) hx_viol("C12", "choice", "%s: of (%g,%g)@%ld and (%g,%g)@%ld, (%g,%g)@%ld is kept", hx_str(&b.term), a.truth.frequency, a.truth.confidence, a.occurrenceTime, b.truth.frequency, b.truth.confidence, b.occurrenceTime, e.truth.frequency, e.truth.confidence, e.occurrenceTime);
        return e;
    }
    hx_count("pooled", 1);
    double w1 = ca/(1-ca), w2 = cb/(1-cb), w = w1+w2, c = w/(w+1), f = w == 0 ? (a.truth.frequency + b.truth.frequency)/2 : (w1*a.truth.frequency + w2*b.truth.frequency)/w;
    if(c > MAX_CONFIDENCE) c = MAX_CONFIDENCE;
    if(c < ca) c = ca;
    if(c < cb) c = cb;
    if(!r) hx_viol("C12", "not-revised", "%s: independent evidence for the same statement and time was not pooled", hx_str(&b.term));
    else if(!near(e.truth.frequency, f) || !near(e.truth.confidence, c)) hx_viol("C12", "pooled-truth", "%s: (%g,%g) and (%g,%g) pooled to (%g,%g), expected (%g,%g)", hx_str(&b.term), a.truth.frequency, ca, b.truth.frequency, cb, e.truth.frequency, e.truth.confidence, f, c);
    if(!sameterm(&e.term, &a.term) || e.occurrenceTime != later || e.type != a.type) hx_viol("C12", "pooled-about", "%s: the revision is about another statement or time", hx_str(&b.term));
    if(e.truth.confidence < ca || e.truth.confidence < cb) hx_viol("C12", "pooled-loss", "%s: revision lost confidence", hx_str(&b.term));
    return e;
}
static struct { Concept *c; long id; Event b; } held[CONCEPTS_MAX]; static int nheld = 0; static long lastid = 0;
void hx_begin_line(const char *line)
{
    nres = 0; nheld = 0; lastid = concept_id;
    for(int i=0; i<concepts.itemsAmount; i++) { Concept *c = concepts.items[i].address; held[nheld].c = c; held[nheld].id = c->id; held[nheld++].b = c->belief; }
}
static int cmpl(const void *a, const void *b) { unsigned long x = *(unsigned long*) a, y = *(unsigned long*) b; return x < y ? -1 : x > y; }
void hx_end_line(const char *line)
{
    if(concept_id < lastid || nres >= NR) return;   /* reset */
    qsort(res, nres, sizeof(long), cmpl);
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address;
        hx_count("beliefs", 1);
        Event old = {0};
        for(int j=0; j<nheld; j++) if(held[j].c == c && held[j].id == c->id) old = held[j].b;
        if(old.type != EVENT_TYPE_DELETED)
        {
            if(c->belief.type == EVENT_TYPE_DELETED) hx_viol("C12", "belief-lost", "the belief of %s vanished", hx_str(&c->term));
            else if(c->belief.truth.confidence < old.truth.confidence) hx_viol("C12", "belief-weakened", "the belief of %s went from confidence %g to %g", hx_str(&c->term), old.truth.confidence, c->belief.truth.confidence);
        }
        if(c->belief.type == EVENT_TYPE_DELETED) continue;
        if(!sameterm(&c->belief.term, &c->term)) hx_viol("C12", "belief-of-other", "concept %s holds the belief of %s", hx_str(&c->term), hx_str(&c->belief.term));
        if(old.type != EVENT_TYPE_DELETED && content(&old, &c->belief)) continue;
        hx_count("belief_changes", 1);
        unsigned long h = chash(&c->belief);
        if(!bsearch(&h, res, nres, sizeof(long), cmpl)) hx_viol("C12", "belief-unrelated", "the belief of %s changed to (%g,%g) without a revision or choice giving this", hx_str(&c->term), c->belief.truth.frequency, c->belief.truth.confidence);
    }
}
