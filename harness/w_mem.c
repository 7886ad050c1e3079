/* Memory: what every belief or goal added to memory changes in it, against a model of holding information. */
#include "ora.h"
__typeof__(Memory_AddEvent) __wrap_Memory_AddEvent;
__typeof__(Memory_AddInputEvent) __wrap_Memory_AddInputEvent;
void __real_Memory_AddEvent(Event *e, long now, double priority, bool input, bool derived, bool revised, int layer);
void __real_Memory_AddInputEvent(Event *e, long now);

static unsigned long mix(unsigned long h, const void *p, size_t n)
{
    const unsigned long *w = p;
    for(size_t i=0; i<n/sizeof(long); i++) { h = (h ^ w[i]) * 0x9E3779B97F4A7C15UL; h ^= h >> 29; }
    const unsigned char *b = (const unsigned char*) (w + n/sizeof(long));
    for(size_t i=0; i<n%sizeof(long); i++) h = (h ^ b[i]) * 0x100000001B3UL;
    return h;
}
static unsigned long evhash(unsigned long h, Event *e)
{
    if(e->type == EVENT_TYPE_DELETED) return h * 31 + 7;
    h = mix(h, e->term.atoms, sizeof(e->term.atoms)); h = mix(h, &e->stamp, sizeof(e->stamp));
    h = mix(h, &e->truth.frequency, sizeof(double)); h = mix(h, &e->truth.confidence, sizeof(double));
    h = mix(h, &e->occurrenceTime, sizeof(long)); h = mix(h, &e->creationTime, sizeof(long)); h = mix(h, &e->occurrenceTimeOffset, sizeof(double));
    return h * 31 + e->type;
}
static unsigned long tabhash(Concept *c)
{
    unsigned long h = 5;
    for(int o=0; o<=OPERATIONS_MAX+1; o++)
    {
        Table *t = o <= OPERATIONS_MAX ? &c->precondition_beliefs[o] : &c->implication_links;
        h = h * 31 + t->itemsAmount;
        for(int i=0; i<t->itemsAmount && i<TABLE_SIZE; i++)
        {
            Implication *m = &t->array[i];
            h = mix(h, m->term.atoms, sizeof(m->term.atoms)); h = mix(h, &m->stamp, sizeof(m->stamp));
            h = mix(h, &m->truth.frequency, sizeof(double)); h = mix(h, &m->truth.confidence, sizeof(double)); h = mix(h, &m->occurrenceTimeOffset, sizeof(double));
        }
    }
    return h;
}
typedef struct { Concept *c; long id; unsigned long beliefs, goal, tables; } Snap;
static Snap snap[CONCEPTS_MAX]; static int nsnap;
static Snap take(Concept *c)
{
    return (Snap) { .c = c, .id = c->id, .beliefs = evhash(evhash(evhash(1, &c->belief), &c->belief_spike), &c->predicted_belief), .goal = evhash(1, &c->goal_spike), .tables = tabhash(c) };
}
static Concept *find(Term *t)
{
    for(int i=0; i<concepts.itemsAmount; i++) { Concept *c = concepts.items[i].address; if(o_same(&c->term, t)) return c; }
    return NULL;
}
static bool sameids(Stamp *a, Stamp *b)            /* as sets of equal size */
{
    int na = 0, nb = 0;
    while(na < STAMP_SIZE && a->evidentialBase[na]) na++;
    while(nb < STAMP_SIZE && b->evidentialBase[nb]) nb++;
    if(na != nb) return false;
    for(int i=0; i<na; i++) { bool in = false; for(int j=0; j<nb; j++) in = in || a->evidentialBase[i] == b->evidentialBase[j]; if(!in) return false; }
    return true;
}
static bool same(Event *a, Event *b) { return o_same(&a->term, &b->term) && a->truth.frequency == b->truth.frequency && a->truth.confidence == b->truth.confidence && a->occurrenceTime == b->occurrenceTime && sameids(&a->stamp, &b->stamp); }
static int buffered(Event *e, double *priority)
{
    int n = 0;
    for(int i=0; i<cycling_belief_events.itemsAmount; i++) if(same(e, cycling_belief_events.items[i].address)) { n++; if(priority) *priority = cycling_belief_events.items[i].priority; }
    return n;
}
static bool dependent(Event *e)
{
    if(!o_cop(&e->term, ";") && !o_cop(&e->term, "+")) return false;
    for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) if(o_name(e->term.atoms[i])[0] == '#' && o_name(e->term.atoms[i])[1]) return true;
    return false;
}
/* old information a meets b; *tie: both are as good */
static Event meet(Event *a, Event *b, bool *tie, bool *pooled)
{
    *tie = false; *pooled = false;
    if(a->type == EVENT_TYPE_DELETED) return *b;
    long later = a->occurrenceTime > b->occurrenceTime ? a->occurrenceTime : b->occurrenceTime;
    Truth ta = o_proj(a->truth, a->occurrenceTime, later), tb = o_proj(b->truth, b->occurrenceTime, later);
    if(o_overlap(&a->stamp, &b->stamp) || dependent(b) || (a->occurrenceTime != OCCURRENCE_ETERNAL && a->occurrenceTime != b->occurrenceTime) || !o_same(&a->term, &b->term))
    {
        *tie = ta.confidence != tb.confidence && o_near(ta.confidence, tb.confidence);
        return tb.confidence > ta.confidence ? *b : *a;
    }
    *pooled = true;
    Event r = *a;
    r.truth = o_rev(ta, tb); r.stamp = o_zip(&a->stamp, &b->stamp); r.occurrenceTime = later;
    if(o_c2w(ta.confidence) + o_c2w(tb.confidence) == 0) *tie = true;
    return r;
}
static void judge_belief(const char *which, Event *old, Event *e, Event *now_held, long now, Event *expect_out, bool *pooled)
{
    bool tie;
    Event x = meet(old, e, &tie, pooled);
    *expect_out = *now_held;
    hx_count(*pooled ? "held_pooled" : old->type == EVENT_TYPE_DELETED ? "held_first" : same(&x, old) ? "held_kept" : "held_replaced", 1);
    if(tie) return;
    if(now_held->type != EVENT_TYPE_BELIEF || !o_same(&now_held->term, &x.term) || !o_near(now_held->truth.frequency, x.truth.frequency) || !o_near(now_held->truth.confidence, x.truth.confidence) || now_held->occurrenceTime != x.occurrenceTime || !o_samestamp(&now_held->stamp, &x.stamp))
        hx_viol("C31", which, "%s (%g,%g)@%ld was added at %ld, held was (%g,%g)@%ld, now (%g,%g)@%ld instead of (%g,%g)@%ld", hx_str(&e->term), e->truth.frequency, e->truth.confidence, e->occurrenceTime, now, old->truth.frequency, old->truth.confidence, old->type ? old->occurrenceTime : -2, now_held->truth.frequency, now_held->truth.confidence, now_held->occurrenceTime, x.truth.frequency, x.truth.confidence, x.occurrenceTime);
    else if(now_held->creationTime != now) hx_viol("C31", "creation-time", "the information held about %s is of %ld, it was updated at %ld", hx_str(&e->term), now_held->creationTime, now);
}
static void observe(Event *event, long now, double priority, bool input, bool derived, bool revised, int layer, bool as_input)
{
    Event e = *event;
    bool belief = e.type == EVENT_TYPE_BELIEF, temporal = o_cop(&e.term, "$"), link = temporal || o_cop(&e.term, "?");
    bool continuous = o_cop(&e.term, ",") && strcmp(o_name(e.term.atoms[1]), "*");
    bool comparison = o_cop(&e.term, ",") && (!strcmp(o_name(e.term.atoms[2]), "=") || !strcmp(o_name(e.term.atoms[2]), "+"));
    Concept *c0 = find(&e.term), old = {0};
    double p = revised || input ? priority : priority * (1.0 / log2(1.0 + Term_Complexity(&e.term)));
    bool accepted = !(RESTRICTED_CONCEPT_CREATION && !input && !temporal && !c0) && !(e.truth.confidence < MIN_CONFIDENCE) && p > 0;
    long oldid = -1;
    if(c0) { old.belief = c0->belief; old.belief_spike = c0->belief_spike; old.predicted_belief = c0->predicted_belief; oldid = c0->id; }
    Term pred = o_sub(&e.term, 2), subj = o_sub(&e.term, 1), last = o_sub(&subj, 2), source = subj;
    static Table oldtab; memset(&oldtab, 0, sizeof(oldtab));
    int slot = 0; bool storable = link, full = concepts.itemsAmount + 3 > CONCEPTS_MAX; long predid = -1;
    if(temporal && o_cop(&subj, "+") && o_isop(&last))
    {
        Atom name = o_opname(last.atoms[0]) ? last.atoms[0] : last.atoms[2];
        storable = o_opname(last.atoms[0]) || !strcmp(o_name(last.atoms[7]), "SELF") || (strchr("$#?", o_name(last.atoms[7])[0]) && o_name(last.atoms[7])[0] && o_name(last.atoms[7])[1]);
        for(int k=0; k<OPERATIONS_MAX; k++) if(!slot && operations[k].term.atoms[0] == name) slot = k+1;
        source = o_noop(&subj);
    }
    Concept *p0 = link ? find(&pred) : NULL;
    if(p0) { oldtab = temporal ? p0->precondition_beliefs[slot] : p0->implication_links; predid = p0->id; }
    nsnap = 0;
    for(int i=0; i<concepts.itemsAmount; i++) snap[nsnap++] = take(concepts.items[i].address);
    long nextid = concept_id; int nconcepts = concepts.itemsAmount;
    int nbuf = cycling_belief_events.itemsAmount, held = belief ? buffered(&e, NULL) : 0, at = occurrenceTimeIndex.currentIndex;
    double least = nbuf ? cycling_belief_events.items[0].priority : 0;
    for(int i=0; i<nbuf; i++) if(cycling_belief_events.items[i].priority < least) least = cycling_belief_events.items[i].priority;
    if(as_input) __real_Memory_AddInputEvent(event, now);
    else __real_Memory_AddEvent(event, now, priority, input, derived, revised, layer);
    hx_count(!accepted ? "refused" : !belief ? "goals" : temporal ? "implications" : link ? "links" : e.occurrenceTime == OCCURRENCE_ETERNAL ? "eternal" : e.occurrenceTime > now ? "future" : "events", 1);
    bool keeps = accepted && belief;
    Concept *c = find(&e.term), *pc = link ? find(&pred) : NULL;
    /* nothing but what it is about changes */
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *x = concepts.items[i].address; Snap s = take(x); int j = 0;
        bool own = keeps && !temporal && x == c, target = keeps && link && storable && x == pc;
        for(; j<nsnap; j++) if(snap[j].c == x && snap[j].id == x->id) break;
        if(j == nsnap)
        {
            Event none = {0};
            hx_count("concepts_created", 1);
            if(!keeps || x->id < nextid || !(own || (link && (x == pc || (storable && o_same(&x->term, &source)))))) { hx_viol("C31", "concept", "adding %s created the concept %s", hx_str(&e.term), hx_str(&x->term)); continue; }
            if((!own && (x->belief.type || x->belief_spike.type || x->predicted_belief.type)) || x->goal_spike.type) hx_viol("C31", "new-not-empty", "the new concept %s holds a belief or goal already", hx_str(&x->term));
            continue;
        }
        if(!own && s.beliefs != snap[j].beliefs) hx_viol("C31", "other-belief", "adding %s%s changed what is held about %s", hx_str(&e.term), belief ? "" : "!", hx_str(&x->term));
        if(!target && s.tables != snap[j].tables) hx_viol("C31", "other-table", "adding %s%s changed the implications about %s", hx_str(&e.term), belief ? "" : "!", hx_str(&x->term));
        if(s.goal != snap[j].goal) hx_viol("C31", "goal-spike", "adding %s changed the goal held about %s", hx_str(&e.term), hx_str(&x->term));
    }
    if(!full && concepts.itemsAmount < nconcepts) hx_viol("C31", "forgot", "adding %s made memory forget although it has room", hx_str(&e.term));
    if(!keeps)
    {
        if(cycling_belief_events.itemsAmount != nbuf) hx_viol("C31", "refused-buffered", "%s was buffered as a belief although it is %s", hx_str(&e.term), belief ? "too weak" : "a goal");
        if(occurrenceTimeIndex.currentIndex != at) hx_viol("C31", "refused-indexed", "%s is treated as an event although it is %s", hx_str(&e.term), belief ? "too weak" : "a goal");
        return;
    }
    /* buffered to be processed, unless it is known */
    bool known = held > 0, buffer = !temporal && !comparison;
    if(e.occurrenceTime == OCCURRENCE_ETERNAL) known = known || (old.belief.type && (same(&e, &old.belief) || old.belief.truth.confidence > e.truth.confidence));
    else known = known || (old.belief_spike.type && old.belief_spike.occurrenceTime == e.occurrenceTime && e.truth.confidence <= old.belief_spike.truth.confidence && o_same(&e.term, &old.belief_spike.term) && sameids(&e.stamp, &old.belief_spike.stamp));
    double got = -1; int n = buffered(&e, &got);
    if(!buffer || known) { if(n != held) hx_viol("C31", "buffered-known", "%s was buffered %d times, then %d times, although it is %s", hx_str(&e.term), held, n, buffer ? "known" : "not to be"); }
    else if(nbuf < CYCLING_BELIEF_EVENTS_MAX || p > least)
    {
        hx_count("buffered", 1);
        if(n != held + 1) hx_viol("C31", "not-buffered", "%s (%g,%g)@%ld with priority %g is buffered %d times (least %g of %d)", hx_str(&e.term), e.truth.frequency, e.truth.confidence, e.occurrenceTime, p, n, least, nbuf);
        else if(!o_near(got, p)) hx_viol("C31", "priority", "%s is buffered with priority %g instead of %g", hx_str(&e.term), got, p);
    }
    /* the information about its statement */
    bool pooled = false;
    if(!temporal)
    {
        if(!c) { if(!full) hx_viol("C31", "no-concept", "%s was added but there is no concept for it", hx_str(&e.term)); }
        else
        {
            if(c->id != oldid) memset(&old, 0, sizeof(old));
            Event et = e, x; bool q;
            if(e.occurrenceTime != OCCURRENCE_ETERNAL) { et.occurrenceTime = OCCURRENCE_ETERNAL; et.truth = o_eternal(e.truth); }
            bool past = e.occurrenceTime != OCCURRENCE_ETERNAL && e.occurrenceTime <= now, future = e.occurrenceTime != OCCURRENCE_ETERNAL && !past;
            if(past) judge_belief("event", &old.belief_spike, &e, &c->belief_spike, now, &x, &q);
            else if(evhash(1, &old.belief_spike) != evhash(1, &c->belief_spike)) hx_viol("C31", "event-changed", "the event of %s changed without one", hx_str(&e.term));
            if(future) judge_belief("prediction", &old.predicted_belief, &e, &c->predicted_belief, now, &x, &q);
            else if(evhash(1, &old.predicted_belief) != evhash(1, &c->predicted_belief)) hx_viol("C31", "prediction-changed", "the prediction of %s changed without one", hx_str(&e.term));
            judge_belief("belief", &old.belief, &et, &c->belief, now, &x, &pooled);
            bool indexed = occurrenceTimeIndex.currentIndex != at;
            bool should = e.occurrenceTime != OCCURRENCE_ETERNAL && !continuous;
            if(indexed != should || (indexed && occurrenceTimeIndex.array[at] != c)) hx_viol("C31", should ? "not-indexed" : "indexed", "%s is %s an event to be put in relation with others", hx_str(&e.term), should ? "not treated as" : "treated as");
        }
    }
    /* the implications about what it predicts */
    if(link && storable)
    {
        if(!pc) { if(!full) hx_viol("C31", "no-consequence", "%s was added but there is no concept for its consequence", hx_str(&e.term)); return; }
        if(predid != -1 && pc->id != predid) return;
        Table *t = temporal ? &pc->precondition_beliefs[slot] : &pc->implication_links;
        Implication *m = NULL, *o = NULL;
        for(int i=0; i<t->itemsAmount; i++) if(o_same(&t->array[i].term, &e.term)) m = &t->array[i];
        for(int i=0; i<oldtab.itemsAmount; i++) if(o_same(&oldtab.array[i].term, &e.term)) o = &oldtab.array[i];
        Truth v = e.occurrenceTime == OCCURRENCE_ETERNAL ? e.truth : o_eternal(e.truth); Stamp st = e.stamp; double dt = e.occurrenceTimeOffset; bool unsure = !temporal && pooled;
        if(o)
        {
            double w1 = o_c2w(o->truth.confidence), w2 = o_c2w(v.confidence);
            if(w1 + w2 == 0) unsure = true;
            else dt = (w1 * o->occurrenceTimeOffset + w2 * dt) / (w1 + w2);
            v = o_rev(o->truth, v); st = o_zip(&o->stamp, &st);
            hx_count("entries_revised", 1);
        }
        else hx_count("entries_added", 1);
        if(!m)
        {
            double min = 2;
            for(int i=0; i<oldtab.itemsAmount; i++) if(o_exp(oldtab.array[i].truth) < min) min = o_exp(oldtab.array[i].truth);
            if(o || oldtab.itemsAmount < TABLE_SIZE || o_exp(v) > min + 1e-9) { if(!full) hx_viol("C31", "not-stored", "%s (%g,%g) was added but is not held about its consequence", hx_str(&e.term), v.frequency, v.confidence); }
            return;
        }
        if(!unsure && (!o_near(m->truth.frequency, v.frequency) || !o_near(m->truth.confidence, v.confidence) || !o_samestamp(&m->stamp, &st))) hx_viol("C31", "entry", "%s is held with (%g,%g), expected (%g,%g)", hx_str(&e.term), m->truth.frequency, m->truth.confidence, v.frequency, v.confidence);
        if(!unsure && fabs(m->occurrenceTimeOffset - dt) > 1e-9 * (1 + fabs(dt))) hx_viol("C31", "delay", "%s is held with a delay of %g, expected %g", hx_str(&e.term), m->occurrenceTimeOffset, dt);
        if(m->creationTime != now && !(o && m->creationTime == o->creationTime && o->creationTime > now)) hx_viol("C31", "entry-time", "%s is of time %ld, it was updated at %ld", hx_str(&e.term), m->creationTime, now);
        Concept *sc = find(&source);
        if(sc && !full && (m->sourceConcept != sc || m->sourceConceptId != sc->id)) hx_viol("C31", "source", "%s does not refer to the concept of its condition", hx_str(&e.term));
    }
}
void __wrap_Memory_AddEvent(Event *e, long now, double priority, bool input, bool derived, bool revised, int layer) { observe(e, now, priority, input, derived, revised, layer, false); }
void __wrap_Memory_AddInputEvent(Event *e, long now) { observe(e, now, 1, true, false, false, 0, true); }
