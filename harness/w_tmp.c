/* Temporal learning: what is derived when an observed event is processed, against what the observations in memory license. */
#include "ora.h"
/* signatures as declared by the tree; anything else does not compile */
__typeof__(NAL_DerivedEvent) __wrap_NAL_DerivedEvent;
__typeof__(RuleTable_Apply) __wrap_RuleTable_Apply;
__typeof__(Decision_Anticipate) __wrap_Decision_Anticipate;
__typeof__(PriorityQueue_PopMax) __wrap_PriorityQueue_PopMax;
__typeof__(Cycle_Perform) __wrap_Cycle_Perform;
__typeof__(Memory_AddInputEvent) __wrap_Memory_AddInputEvent;
#define WINDOW 20
#define MAXN 600
#define MAXE 20000
typedef struct { Concept *c; long id; Event spike; long sel; Term term; bool keeps, reach; } Snap;
static Snap snap[MAXN]; static int nsnap;
static Concept *slots[OCCURRENCE_TIME_INDEX_SIZE]; static int slot_now, slot_n;   /* the occurrence time index when the event was taken */
typedef struct { Term term; Truth truth; Stamp stamp; double dt; bool must, seen; } Link;
static Link link_[MAXE]; static int nlinks;
typedef struct { Term term; Truth truth; Stamp stamp; long occ; bool must; } Seq;
static Seq seq[MAXE]; static int nseqs;
static Link got[MAXE]; static int ngot;
static Event P; static bool open_ = false; static long now_; static bool overflow_, strange;
/* inputs observed as events: these have to be found again */
static long seen_input[4096]; static int nseen = 0;

static bool put(Term *dst, int pos, Term *sub)
{
    int from[COMPOUND_TERM_SIZE_MAX], to[COMPOUND_TERM_SIZE_MAX], n = 0;
    from[n] = 0; to[n++] = pos;
    for(int i=0; i<n; i++)
    {
        dst->atoms[to[i]] = sub->atoms[from[i]];
        for(int k=1; k<=2; k++)
        {
            int f = 2*from[i]+k, g = 2*to[i]+k;
            if(f >= COMPOUND_TERM_SIZE_MAX || !sub->atoms[f]) continue;
            if(g >= COMPOUND_TERM_SIZE_MAX) return false;
            from[n] = f; to[n++] = g;
        }
    }
    return true;
}
static Atom atom(const char *n) { return (Atom) Narsese_AtomicTermIndex((char*) n); }
static bool pair(const char *copula, Term *a, Term *b, Term *ret)
{
    *ret = (Term) {0}; ret->atoms[0] = atom(copula);
    return put(ret, 1, a) && put(ret, 2, b);
}
static int opid(Term *t)
{
    if(!o_isop(t)) return 0;
    Atom a = o_name(t->atoms[0])[0] == '^' ? t->atoms[0] : t->atoms[2];
    for(int k=0; k<OPERATIONS_MAX; k++) if(operations[k].term.atoms[0] == a) return k+1;
    return 0;
}
static bool opseq(Term *t)              /* a sequence with an operation in it */
{
    if(!o_cop(t, "+")) return false;
    Term l = o_sub(t, 1), r = o_sub(t, 2);
    return o_isop(&l) || o_isop(&r) || opseq(&l) || opseq(&r);
}
static bool isvar(Atom a) { const char *n = o_name(a); return (n[0] == '$' || n[0] == '#' || n[0] == '?') && n[1]; }
static bool hasvar(Term *t) { for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) if(t->atoms[i] && isvar(t->atoms[i])) return true; return false; }
static bool higher(Term *t) { return o_cop(t, "?") || o_cop(t, "^"); }
static bool edge(double c) { return fabs(c - 0.01) < 1e-12; }
/* the temporal implication from a (with or without operation) to b */
static void reinforce(Event *a, Event *b, bool must)
{
    Term noop = o_noop(&a->term);
    if(o_same(&noop, &b->term) || o_overlap(&a->stamp, &b->stamp)) return;
    Link l = { .dt = b->occurrenceTime - a->occurrenceTime, .stamp = o_zip(&a->stamp, &b->stamp) };
    if(!pair("$", &a->term, &b->term, &l.term)) return;
    l.truth = o_ind(b->truth, o_proj(a->truth, a->occurrenceTime, b->occurrenceTime));
    if(l.truth.confidence < 0.01 && !edge(l.truth.confidence)) return;
    l.must = must && !edge(l.truth.confidence) && Memory_FindConceptByTerm(&noop) && Memory_FindConceptByTerm(&b->term);
    if(nlinks < MAXE) link_[nlinks++] = l; else overflow_ = true;
}
static bool isect(Event *a, Event *b, Event *ret, bool *sure)
{
    *ret = (Event) { .type = EVENT_TYPE_BELIEF, .occurrenceTime = b->occurrenceTime, .stamp = o_zip(&a->stamp, &b->stamp) };
    Truth pa = o_proj(a->truth, a->occurrenceTime, b->occurrenceTime);
    ret->truth = o_t(pa.frequency*b->truth.frequency, pa.confidence*b->truth.confidence);
    *sure = !edge(ret->truth.confidence);
    return pair("+", &a->term, &b->term, &ret->term) && (ret->truth.confidence >= 0.01 || !*sure);
}
/* everything which the observations s license when P is processed; only those which certainly hold throughout are required */
static void enumerate(Snap *s, int n)
{
    long o = P.occurrenceTime; int op = opid(&P.term);
    if(opseq(&P.term)) { strange = true; return; }
    for(int i=0; i<n; i++)
    {
        Event *e = &s[i].spike; bool sure;
        if(e->type == EVENT_TYPE_DELETED || e->occurrenceTime == OCCURRENCE_ETERNAL || e->creationTime > now_) continue;
        if(labs(e->occurrenceTime - o) > WINDOW || labs(s[i].sel - o) > WINDOW || e->occurrenceTime > o || higher(&e->term)) continue;
        if(opseq(&e->term)) { strange = true; continue; }
        if((op != 0) != (opid(&e->term) != 0) || o_overlap(&e->stamp, &P.stamp)) continue;
        bool must = s[i].keeps && s[i].reach; Event q;
        if(!isect(e, &P, &q, &sure)) continue;
        if(!op)
        {
            reinforce(e, &P, must && sure);
            if(e->occurrenceTime == o) reinforce(&P, e, must && sure);
            int len = 0;
            for(int k=0; k<COMPOUND_TERM_SIZE_MAX && !strcmp(o_name(q.term.atoms[k]), "+"); k=2*k+1) len++;
            if(len < 3)
            {
                if(nseqs < MAXE) seq[nseqs++] = (Seq) { .term = q.term, .truth = q.truth, .stamp = q.stamp, .occ = o, .must = must && sure && !hasvar(&q.term) }; else overflow_ = true;
            }
        }
    }
    if(op) return;
    for(int j=0; j<n; j++)
    {
        Event *x = &s[j].spike;
        if(x->type == EVENT_TYPE_DELETED || x->occurrenceTime == OCCURRENCE_ETERNAL || x->creationTime >= now_ || x->occurrenceTime >= o) continue;
        if(labs(x->occurrenceTime - o) >= WINDOW || labs(s[j].sel - o) >= WINDOW) continue;
        if(opseq(&x->term) || opseq(&s[j].term)) { strange = true; continue; }
        if(!opid(&s[j].term)) continue;
        for(int i=0; i<n; i++)
        {
            Event *e = &s[i].spike, q; bool sure;
            if(e->type == EVENT_TYPE_DELETED || e->occurrenceTime == OCCURRENCE_ETERNAL || e->creationTime >= now_ || e->occurrenceTime >= x->occurrenceTime) continue;
            if(labs(e->occurrenceTime - o) >= WINDOW || labs(s[i].sel - o) >= WINDOW || higher(&e->term)) continue;
            if(o_overlap(&e->stamp, &P.stamp) || o_overlap(&e->stamp, &x->stamp) || opid(&s[i].term)) continue;
            if(opseq(&e->term)) { strange = true; continue; }
            if(!isect(e, x, &q, &sure)) continue;
            reinforce(&q, &P, s[i].keeps && s[j].keeps && s[i].reach && s[j].reach && sure);
        }
    }
}
static bool same_event(Event *a, Event *b)
{
    return a->type == b->type && (a->type == EVENT_TYPE_DELETED || (o_same(&a->term, &b->term) && o_tnear(a->truth, b->truth) && a->occurrenceTime == b->occurrenceTime && a->creationTime == b->creationTime && o_samestamp(&a->stamp, &b->stamp)));
}
/* an entry of the index which was there all the time: certainly visited */
static bool stays(Concept *c)
{
    int size = OCCURRENCE_TIME_INDEX_SIZE, added = (occurrenceTimeIndex.currentIndex - slot_now + size) % size;
    if(occurrenceTimeIndex.itemsAmount == size && size < 64) return false;
    for(int k=0; k<slot_n; k++) if(slots[k] == c && occurrenceTimeIndex.array[k] == c && (k - slot_now + size) % size >= added) return true;
    return false;
}
static void begin(Event *e, long now)
{
    for(int k=0; k<OCCURRENCE_TIME_INDEX_SIZE; k++) slots[k] = occurrenceTimeIndex.array[k];
    slot_now = occurrenceTimeIndex.currentIndex; slot_n = occurrenceTimeIndex.itemsAmount;
    P = *e; now_ = now; ngot = 0; open_ = true; overflow_ = strange = false; nsnap = 0;
    for(int i=0; i<concepts.itemsAmount && nsnap<MAXN; i++)
    {
        Concept *c = concepts.items[i].address;
        bool input = false;
        for(int k=0; k<nseen; k++) input = input || seen_input[k] == c->id;
        snap[nsnap++] = (Snap) { .c = c, .id = c->id, .spike = c->belief_spike, .sel = c->lastSelectionTime, .term = c->term, .reach = input };
    }
}
static int cmpseq(const Seq *a, const Seq *b) { return !(o_same((Term*) &a->term, (Term*) &b->term) && a->occ == b->occ); }
static void finish()
{
    if(!open_) return;
    open_ = false;
    bool evicted = false;
    for(int i=0; i<nsnap; i++)
    {
        Snap *s = &snap[i];
        if(s->c->id != s->id) { evicted = true; s->keeps = false; continue; }
        s->keeps = same_event(&s->spike, &s->c->belief_spike) && s->sel == s->c->lastSelectionTime;
        s->reach = stays(s->c) || (s->reach && occurrenceTimeIndex.itemsAmount < OCCURRENCE_TIME_INDEX_SIZE);
    }
    bool processed = P.processed, cont = o_cop(&P.term, ",") && strcmp(o_name(P.term.atoms[1]), "*");
    bool eligible = !processed && !cont && P.occurrenceTime != OCCURRENCE_ETERNAL && now_ - P.occurrenceTime < WINDOW;
    if(!eligible)
    {
        if(ngot) hx_viol("C14", "from-ineligible", "%d implications were learned from %s, which %s", ngot, hx_str(&P.term), processed ? "was processed already" : cont ? "is a continuous property" : P.occurrenceTime == OCCURRENCE_ETERNAL ? "is eternal" : "is outdated");
        return;
    }
    hx_count("events_processed", 1);
    nlinks = nseqs = 0;
    enumerate(snap, nsnap);
    /* and what holds after it */
    static Snap after[MAXN]; int na = 0;
    for(int i=0; i<concepts.itemsAmount && na<MAXN; i++)
    {
        Concept *c = concepts.items[i].address;
        after[na++] = (Snap) { .c = c, .id = c->id, .spike = c->belief_spike, .sel = c->lastSelectionTime, .term = c->term };
    }
    enumerate(after, na);
    if(overflow_ || nsnap >= MAXN) { hx_count("too_many", 1); return; }
    for(int g=0; g<ngot; g++)
    {
        Link *x = &got[g], *near = NULL; bool ok = false;
        for(int k=0; k<nlinks; k++)
        {
            Link *l = &link_[k];
            if(!o_same(&l->term, &x->term)) continue;
            near = l;
            if(o_tnear(l->truth, x->truth) && o_samestamp(&l->stamp, &x->stamp) && fabs(l->dt - x->dt) < 1e-9) { ok = l->seen = true; break; }
        }
        if(ok) { hx_count(x->dt == 0 ? "concurrent_links" : "links", 1); Term s = o_sub(&x->term, 1), r = o_sub(&s, 2); if(o_cop(&s, "+") && o_isop(&r)) hx_count("links_with_operation", 1); continue; }
        if(strange) { hx_count("operation_sequences", 1); continue; }
        if(evicted && !near) { hx_count("of_evicted", 1); continue; }
        if(near) hx_viol("C14", "link-value", "%s learned with (%g,%g) after %g steps, observed (%g,%g) after %g, or with other evidence", hx_str(&x->term), x->truth.frequency, x->truth.confidence, x->dt, near->truth.frequency, near->truth.confidence, near->dt);
        else hx_viol("C14", "link-unlicensed", "%s (%g steps) learned from %s at %ld, without the observations for it", hx_str(&x->term), x->dt, hx_str(&P.term), P.occurrenceTime);
    }
    if(evicted) { hx_count("with_evictions", 1); return; }
    for(int k=0; k<nlinks; k++) if(link_[k].must && !link_[k].seen)
    {
        bool twin = false;
        for(int m=0; m<nlinks; m++) twin = twin || (link_[m].seen && o_same(&link_[m].term, &link_[k].term) && o_samestamp(&link_[m].stamp, &link_[k].stamp));
        if(!twin) hx_viol("C14", "link-missing", "%s (%g,%g) was observed after %g steps but not learned", hx_str(&link_[k].term), link_[k].truth.frequency, link_[k].truth.confidence, link_[k].dt);
    }
    /* sequences: the event their concept holds now */
    for(int k=0; k<nseqs; k++)
    {
        if(!seq[k].must) continue;
        Concept *c = Memory_FindConceptByTerm(&seq[k].term); Event *old = NULL, *cur = c ? &c->belief_spike : NULL; bool hadvar = false;
        for(int i=0; i<nsnap; i++) { if(snap[i].c == c) old = &snap[i].spike; hadvar = hadvar || (hasvar(&snap[i].term) && o_cop(&snap[i].term, "+")); }
        if(c == NULL || cur->type == EVENT_TYPE_DELETED) { hx_viol("C14", "sequence-missing", "%s was observed but not formed", hx_str(&seq[k].term)); continue; }
        if(old && old->type != EVENT_TYPE_DELETED && old->occurrenceTime >= seq[k].occ) { hx_count("sequences_known", 1); continue; }
        bool ok = false;
        for(int m=0; m<nseqs; m++) ok = ok || (!cmpseq(&seq[k], &seq[m]) && o_tnear(seq[m].truth, cur->truth) && o_samestamp(&seq[m].stamp, &cur->stamp) && seq[m].occ == cur->occurrenceTime);
        if(!ok && hadvar) { hx_count("sequences_unclear", 1); continue; }
        if(!ok) hx_viol("C14", "sequence-value", "%s is held as (%g,%g)@%ld, observed as (%g,%g)@%ld, or with other evidence", hx_str(&seq[k].term), cur->truth.frequency, cur->truth.confidence, cur->occurrenceTime, seq[k].truth.frequency, seq[k].truth.confidence, seq[k].occ);
        else hx_count("sequences", 1);
    }
    /* and no others */
    for(int i=0; i<na; i++)
    {
        if(!o_cop(&after[i].term, "+") || hasvar(&after[i].term) || after[i].spike.type == EVENT_TYPE_DELETED || strange) continue;
        Event *old = NULL; bool hadvar = hasvar(&P.term), ok = false;
        for(int m=0; m<nsnap; m++) { if(snap[m].id == after[i].id && snap[m].c == after[i].c) old = &snap[m].spike; hadvar = hadvar || (hasvar(&snap[m].term) && o_cop(&snap[m].term, "+")); }
        if((old && same_event(old, &after[i].spike)) || o_same(&after[i].term, &P.term)) continue;
        for(int m=0; m<nseqs; m++) ok = ok || (o_same(&seq[m].term, &after[i].term) && o_tnear(seq[m].truth, after[i].spike.truth) && seq[m].occ == after[i].spike.occurrenceTime && o_samestamp(&seq[m].stamp, &after[i].spike.stamp));
        Term rel = o_sub(&after[i].term, 2);
        if(ok || hadvar || !strcmp(o_name(rel.atoms[2]), "+") || !strcmp(o_name(rel.atoms[2]), "=")) continue;
        hx_viol("C14", "sequence-unlicensed", "%s appeared as (%g,%g)@%ld when %s at %ld was processed", hx_str(&after[i].term), after[i].spike.truth.frequency, after[i].spike.truth.confidence, after[i].spike.occurrenceTime, hx_str(&P.term), P.occurrenceTime);
    }
}
void __real_NAL_DerivedEvent(Term t, long occ, Truth tv, Stamp s, long now, double pp, double cp, double off, Concept *c, long cid, bool vi, bool oe);
void __wrap_NAL_DerivedEvent(Term t, long occ, Truth tv, Stamp s, long now, double pp, double cp, double off, Concept *c, long cid, bool vi, bool oe)
{
    if(open_)
    {
        if(o_cop(&t, "$")) { if(ngot < MAXE) got[ngot++] = (Link) { .term = t, .truth = tv, .stamp = s, .dt = off }; }
    }
    __real_NAL_DerivedEvent(t, occ, tv, s, now, pp, cp, off, c, cid, vi, oe);
    if(open_ && o_cop(&t, "$") && !RESTRICTED_CONCEPT_CREATION)
    {
        /* it has to be found under its consequence, unless the table is full of better ones */
        Term cons = o_sub(&t, 2), ante = o_sub(&t, 1), r = o_sub(&ante, 2); Concept *k = Memory_FindConceptByTerm(&cons); int op = o_cop(&ante, "+") && o_isop(&r) ? opid(&r) : 0; bool in = false;
        if(k && concepts.itemsAmount < CONCEPTS_MAX && !opseq(&cons) && !(op == 0 && o_cop(&ante, "+") && o_isop(&r)))
        {
            Table *tb = &k->precondition_beliefs[op];
            for(int i=0; i<tb->itemsAmount; i++) in = in || (o_same(&tb->array[i].term, &t) && tb->array[i].creationTime <= now);
            if(in) hx_count("stored_links", 1); else hx_count("not_stored", 1);
        }
    }
}
void __real_RuleTable_Apply(Term term1, Term term2, Truth truth1, Truth truth2, long occ, double off, Stamp stamp, long now, double pp, double cp, bool two, Concept *c, long cid);
void __wrap_RuleTable_Apply(Term term1, Term term2, Truth truth1, Truth truth2, long occ, double off, Stamp stamp, long now, double pp, double cp, bool two, Concept *c, long cid)
{
    finish();
    __real_RuleTable_Apply(term1, term2, truth1, truth2, occ, off, stamp, now, pp, cp, two, c, cid);
}
void __real_Decision_Anticipate(int op, Term opterm, bool declarative, long now);
void __wrap_Decision_Anticipate(int op, Term opterm, bool declarative, long now)
{
    if(declarative) finish();
    __real_Decision_Anticipate(op, opterm, declarative, now);
}
static long cycle_now = 0;
bool __real_PriorityQueue_PopMax(PriorityQueue *q, void **address, double *priority);
bool __wrap_PriorityQueue_PopMax(PriorityQueue *q, void **address, double *priority)
{
    finish();
    void *a = NULL; double p = 0;
    bool r = __real_PriorityQueue_PopMax(q, &a, &p);
    if(address) *address = a;
    if(priority) *priority = p;
    if(q == &cycling_belief_events && r) begin((Event*) a, cycle_now);
    return r;
}
void __real_Cycle_Perform(long now);
void __wrap_Cycle_Perform(long now)
{
    finish();
    cycle_now = now;
    __real_Cycle_Perform(now);
    finish();
}
void __real_Memory_AddInputEvent(Event *event, long now);
void __wrap_Memory_AddInputEvent(Event *event, long now)
{
    Event e = *event;
    __real_Memory_AddInputEvent(event, now);
    Concept *c = Memory_FindConceptByTerm(&e.term);
    if(c && e.type == EVENT_TYPE_BELIEF && e.occurrenceTime != OCCURRENCE_ETERNAL && !o_cop(&e.term, ",") && !o_cop(&e.term, "$"))
    {
        bool known = false;
        for(int k=0; k<nseen && !known; k++) known = seen_input[k] == c->id;
        if(!known) { if(nseen < 4096) seen_input[nseen++] = c->id; else { memmove(seen_input, seen_input+1, sizeof(seen_input)-sizeof(long)); seen_input[4095] = c->id; } }
    }
}
__typeof__(Memory_INIT) __wrap_Memory_INIT;
void __real_Memory_INIT();
void __wrap_Memory_INIT()
{
    nseen = 0; open_ = false;
    __real_Memory_INIT();
}
