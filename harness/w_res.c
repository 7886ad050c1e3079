/* Restricted concept creation: where every concept and every buffered event that appears comes from. */
#include "ora.h"
__typeof__(Memory_AddEvent) __wrap_Memory_AddEvent;
__typeof__(Memory_AddInputEvent) __wrap_Memory_AddInputEvent;
__typeof__(Decision_Execute) __wrap_Decision_Execute;
__typeof__(PriorityQueue_PopMax) __wrap_PriorityQueue_PopMax;
__typeof__(Cycle_Perform) __wrap_Cycle_Perform;
__typeof__(NAL_DerivedEvent) __wrap_NAL_DerivedEvent;
#define MAXT 60000
static Term allowed[MAXT]; static int nallowed; static bool toomany;
static Term had[CONCEPTS_MAX]; static int nhad;
static long mark; static int executing = 0, watching = 0;
typedef struct { Term term; long occ, ct; char type; } Buffered;
static Buffered was[MAXT]; static int nwas;
static void allow(Term *t)
{
    for(int i=nallowed-1; i>=0 && i>nallowed-200; i--) if(o_same(&allowed[i], t)) return;
    if(nallowed < MAXT) allowed[nallowed++] = *t; else toomany = true;
}
static void components(Term *t)
{
    if(!o_cop(t, "$") && !o_cop(t, "?")) return;
    Term s = o_sub(t, 1), p = o_sub(t, 2), n = o_noop(&s);
    allow(&p); allow(&s); allow(&n);
}
static bool in(Term *list, int n, Term *t) { for(int i=0; i<n; i++) if(o_same(&list[i], t)) return true; return false; }
static void snapshot()
{
    mark = concept_id; nallowed = nhad = nwas = 0; toomany = false;
    for(int i=0; i<concepts.itemsAmount; i++) had[nhad++] = ((Concept*) concepts.items[i].address)->term;
    for(int l=-1; l<CYCLING_GOAL_EVENTS_LAYERS; l++)
    {
        PriorityQueue *q = l < 0 ? &cycling_belief_events : &cycling_goal_events[l];
        for(int i=0; i<q->itemsAmount; i++) { Event *e = q->items[i].address; if(nwas < MAXT) was[nwas++] = (Buffered) { .term = e->term, .occ = e->occurrenceTime, .ct = e->creationTime, .type = e->type }; else toomany = true; }
    }
}
static void judge(const char *when)
{
    if(toomany) { hx_count("too_many", 1); return; }
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address;
        if(c->id < mark) continue;
        if(in(had, nhad, &c->term) || in(allowed, nallowed, &c->term)) { hx_count("known_concepts", 1); continue; }
        if(o_cop(&c->term, "+")) { hx_count("sequences", 1); continue; }    /* temporal learning works as usual */
        hx_viol("C27", "concept", "%s became a concept in restricted mode %s", hx_str(&c->term), when);
    }
    for(int l=-1; l<CYCLING_GOAL_EVENTS_LAYERS; l++)
    {
        PriorityQueue *q = l < 0 ? &cycling_belief_events : &cycling_goal_events[l];
        for(int i=0; i<q->itemsAmount; i++)
        {
            Event *e = q->items[i].address; bool old = false;
            for(int k=0; k<nwas && !old; k++) old = o_same(&was[k].term, &e->term) && was[k].occ == e->occurrenceTime && was[k].ct == e->creationTime && was[k].type == e->type;
            if(old) continue;
            hx_count("buffered", 1);
            if(!in(had, nhad, &e->term) && !in(allowed, nallowed, &e->term) && !o_cop(&e->term, "+")) hx_viol("C27", "buffered", "%s was buffered in restricted mode %s, without a concept for it", hx_str(&e->term), when);
        }
    }
}
static bool restricted_before;
void __real_Cycle_Perform(long now);
void __wrap_Cycle_Perform(long now)
{
    bool top = watching++ == 0 && RESTRICTED_CONCEPT_CREATION;
    if(top) { snapshot(); hx_count("restricted_steps", 1); }
    __real_Cycle_Perform(now);
    if(--watching == 0 && top && RESTRICTED_CONCEPT_CREATION) judge("in a step");
}
void __real_Memory_AddInputEvent(Event *event, long now);
void __wrap_Memory_AddInputEvent(Event *event, long now)
{
    Event e = *event;
    bool top = watching == 0 && RESTRICTED_CONCEPT_CREATION;
    if(top) snapshot();
    allow(&e.term); components(&e.term);
    __real_Memory_AddInputEvent(event, now);
    if(!RESTRICTED_CONCEPT_CREATION) return;
    hx_count("restricted_inputs", 1);
    if(top) judge("by an input");
    Term pred = o_sub(&e.term, 2), *t = o_cop(&e.term, "$") ? &pred : &e.term;
    if(e.type == EVENT_TYPE_BELIEF && e.truth.confidence >= MIN_CONFIDENCE && concepts.itemsAmount < CONCEPTS_MAX && !Memory_FindConceptByTerm(t)) hx_viol("C27", "input-lost", "%s was input but has no concept", hx_str(&e.term));
    if(e.type == EVENT_TYPE_GOAL && e.truth.confidence >= MIN_CONFIDENCE)
    {
        bool found = false;
        for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) for(int i=0; i<cycling_goal_events[l].itemsAmount; i++) found = found || o_same(&((Event*) cycling_goal_events[l].items[i].address)->term, &e.term);
        if(!found) hx_viol("C27", "goal-lost", "the goal %s was input but is not buffered", hx_str(&e.term));
    }
}
void __real_Memory_AddEvent(Event *event, long now, double priority, bool input, bool derived, bool revised, int layer);
void __wrap_Memory_AddEvent(Event *event, long now, double priority, bool input, bool derived, bool revised, int layer)
{
    Event e = *event;
    Concept *c = Memory_FindConceptByTerm(&e.term);
    if(input || c) allow(&e.term);
    if(input || c || o_cop(&e.term, "$")) components(&e.term);
    Event old = c ? c->belief : (Event) {0}; long id = c ? c->id : -1;
    __real_Memory_AddEvent(event, now, priority, input, derived, revised, layer);
    if(!RESTRICTED_CONCEPT_CREATION || input) return;
    hx_count(c ? "derived_known" : "derived_unknown", 1);
    bool dep = false;
    for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) dep = dep || (o_name(e.term.atoms[i])[0] == '#' && o_name(e.term.atoms[i])[1]);
    if(c && c->id == id && e.type == EVENT_TYPE_BELIEF && e.occurrenceTime == OCCURRENCE_ETERNAL && !revised && old.type != EVENT_TYPE_DELETED && priority > 1e-6 && e.truth.confidence >= MIN_CONFIDENCE && !o_overlap(&old.stamp, &e.stamp) && !dep && !o_cop(&e.term, "$") && !o_cop(&e.term, ",") && e.truth.confidence > 0.02 && old.truth.confidence < 0.9)
    {
        hx_count("revisions", 1);
        if(c->belief.truth.confidence <= old.truth.confidence) hx_viol("C27", "revision-lost", "%s has a concept, but was not revised by what was derived (confidence %g after %g, added %g)", hx_str(&e.term), c->belief.truth.confidence, old.truth.confidence, e.truth.confidence);
    }
}
void __real_NAL_DerivedEvent(Term t, long occ, Truth tv, Stamp s, long now, double pp, double cp, double off, Concept *c, long cid, bool vi, bool oe);
void __wrap_NAL_DerivedEvent(Term t, long occ, Truth tv, Stamp s, long now, double pp, double cp, double off, Concept *c, long cid, bool vi, bool oe)
{
    if(o_cop(&t, "$")) components(&t);
    __real_NAL_DerivedEvent(t, occ, tv, s, now, pp, cp, off, c, cid, vi, oe);
}
void __real_Decision_Execute(long now, Decision *decision);
void __wrap_Decision_Execute(long now, Decision *decision)
{
    components(&decision->missing_specific_implication.term);
    __real_Decision_Execute(now, decision);
}
bool __real_PriorityQueue_PopMax(PriorityQueue *q, void **address, double *priority);
bool __wrap_PriorityQueue_PopMax(PriorityQueue *q, void **address, double *priority)
{
    void *a = NULL; double p = 0;
    bool r = __real_PriorityQueue_PopMax(q, &a, &p);
    if(address) *address = a;
    if(priority) *priority = p;
    if(r && q != &concepts) allow(&((Event*) a)->term);
    return r;
}
