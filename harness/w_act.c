/* Activation: which concepts the selected events change in a cycle, and how. Additions to memory are judged elsewhere (w_mem.c). */
#include "ora.h"
__typeof__(Cycle_Perform) __wrap_Cycle_Perform;
__typeof__(Memory_AddEvent) __wrap_Memory_AddEvent;
__typeof__(Memory_AddInputEvent) __wrap_Memory_AddInputEvent;
__typeof__(PriorityQueue_PopMax) __wrap_PriorityQueue_PopMax;
__typeof__(Inference_RevisionAndChoice) __wrap_Inference_RevisionAndChoice;
void __real_Cycle_Perform(long now);
void __real_Memory_AddEvent(Event *e, long now, double priority, bool input, bool derived, bool revised, int layer);
void __real_Memory_AddInputEvent(Event *e, long now);
bool __real_PriorityQueue_PopMax(PriorityQueue *q, void **a, double *p);
Event __real_Inference_RevisionAndChoice(Event *old, Event *e, long now, bool *revised);
__typeof__(Inference_BeliefIntersection) __wrap_Inference_BeliefIntersection;
Event __real_Inference_BeliefIntersection(Event *a, Event *b, bool *success);

typedef struct { Concept *c; long id; Event belief, predicted, spike, goal; long selected; bool touched; } Snap;
static Snap snap[CONCEPTS_MAX]; static int nsnap;
static struct { Concept *c; long id; } start[CONCEPTS_MAX]; static int nstart;
static Event sel[4096]; static bool composed[4096]; static int nsel;      /* selected, or composed of events in the cycle */
static Event out[256]; static int nout; static bool outfull;
static long now; static int depth, adding; static bool nested, full, many; static long at;

static bool ev_same(Event *a, Event *b)
{
    if(a->type == EVENT_TYPE_DELETED || b->type == EVENT_TYPE_DELETED) return a->type == b->type;
    return a->type == b->type && o_same(&a->term, &b->term) && a->truth.frequency == b->truth.frequency && a->truth.confidence == b->truth.confidence
        && a->occurrenceTime == b->occurrenceTime && !memcmp(&a->stamp, &b->stamp, sizeof(Stamp)) && a->occurrenceTimeOffset == b->occurrenceTimeOffset;
}
static bool ev_eq(Event *a, Event *b) { return !memcmp(a, b, sizeof(Event)) || (ev_same(a, b) && a->creationTime == b->creationTime); }
/* the terms with which event e activates c: at most two; returns how many */
static int instances(Event *e, Term *c, Term *t)
{
    int n = 0; bool v = Variable_hasVariable(&e->term, true, true, true), q = Variable_hasVariable(&e->term, false, false, true);
    if((!v || q) && Variable_Unify(c, &e->term).success) t[n++] = e->term;
    if(v)
    {
        Substitution s = Variable_Unify(&e->term, c);
        if(s.success) { bool ok; Term x = Variable_ApplySubstitute(e->term, s, &ok); if(ok) t[n++] = x; }
    }
    return n;
}
static bool eligible(Event *e)
{
    if(e->type == EVENT_TYPE_GOAL) return !o_cop(&e->term, "+");       /* sequences are taken apart instead */
    bool property = o_cop(&e->term, ",") && e->term.atoms[1] && !Narsese_copulaEquals(e->term.atoms[1], PRODUCT);
    return !property && !e->processed && e->occurrenceTime != OCCURRENCE_ETERNAL && now - e->occurrenceTime < CORRELATE_OUTCOME_RECENCY;
}
/* is x what an activation of c by a selected event leaves, given it was old */
static bool by_activation(Concept *c, Event *old, Event *x)
{
    for(int i=0; i<nsel; i++)
    {
        Event *e = &sel[i]; Term t[2];
        if(e->type != x->type || e->occurrenceTime != x->occurrenceTime || e->truth.frequency != x->truth.frequency || e->truth.confidence != x->truth.confidence || memcmp(&e->stamp, &x->stamp, sizeof(Stamp))) continue;
        if(!eligible(e) || (old->type != EVENT_TYPE_DELETED && e->occurrenceTime <= old->occurrenceTime) || x->creationTime != now) continue;
        int n = instances(e, &c->term, t);
        for(int k=0; k<n; k++) if(o_same(&t[k], &x->term)) return true;
    }
    return false;
}
static bool by_choice(Event *x) { for(int i=0; i<nout; i++) if(ev_same(&out[i], x)) return true; return outfull; }
static bool selected_by(Concept *c)
{
    Term t[2];
    for(int i=0; i<nsel; i++) if((eligible(&sel[i]) && instances(&sel[i], &c->term, t)) || (sel[i].type == EVENT_TYPE_GOAL && Variable_Unify(&c->term, &sel[i].term).success)) return true;
    return false;
}
static int find_id(Concept *c) { for(int j=0; j<nsnap; j++) if(snap[j].c == c && snap[j].id == c->id) return j; return -1; }
static char *es(Event *e)
{
    static char b[4][400]; static int k; k = (k + 1) & 3;
    if(e->type == EVENT_TYPE_DELETED) snprintf(b[k], sizeof(b[k]), "nothing");
    else snprintf(b[k], sizeof(b[k]), "%s%s (%g,%g)@%ld", hx_str(&e->term), e->type == EVENT_TYPE_GOAL ? "!" : "", e->truth.frequency, e->truth.confidence, e->occurrenceTime);
    return b[k];
}
static void take(bool judge)
{
    static Snap next[CONCEPTS_MAX]; int n = 0;
    static Event none;
    none.type = EVENT_TYPE_DELETED;
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address;
        int j = i < nsnap && snap[i].c == c && snap[i].id == c->id ? i : find_id(c);
        Event *ob = j < 0 ? &none : &snap[j].belief, *op = j < 0 ? &none : &snap[j].predicted, *os = j < 0 ? &none : &snap[j].spike, *og = j < 0 ? &none : &snap[j].goal;
        bool touched = j >= 0 && snap[j].touched;
        if(judge && !many)
        {
            if(!ev_eq(ob, &c->belief)) hx_viol("C32", "belief-changed", "the belief of %s changed from %s to %s without an addition", hx_str(&c->term), es(ob), es(&c->belief));
            if(!ev_eq(op, &c->predicted_belief)) { hx_count("predictions", 1); if(!by_choice(&c->predicted_belief)) hx_viol("C32", "prediction-changed", "the prediction of %s changed from %s to %s without an addition or anticipation", hx_str(&c->term), es(op), es(&c->predicted_belief)); }
            if(!ev_eq(os, &c->belief_spike))
            {
                if(by_activation(c, os, &c->belief_spike)) hx_count("belief_activations", 1);
                else if(by_choice(&c->belief_spike)) { hx_count("declarative_predictions", 1); touched = true; }
                else hx_viol("C32", "event-changed", "at %ld the event of %s changed from %s to %s, which is no selected event matching it", now, hx_str(&c->term), es(os), es(&c->belief_spike));
            }
            if(!ev_eq(og, &c->goal_spike))
            {
                if(by_activation(c, og, &c->goal_spike)) hx_count("goal_activations", 1);
                else if(by_choice(&c->goal_spike) && selected_by(c)) { hx_count("goals_chosen", 1); touched = true; }
                else hx_viol("C32", "goal-changed", "at %ld the goal of %s changed from %s to %s, which is no selected goal matching it", now, hx_str(&c->term), es(og), es(&c->goal_spike));
            }
            if(c->lastSelectionTime != (j < 0 ? 0 : snap[j].selected) && (c->lastSelectionTime != now || !selected_by(c))) hx_viol("C32", "selection-time", "at %ld %s counts as selected at %ld, and no selected event matches it", now, hx_str(&c->term), c->lastSelectionTime);
        }
        else if(j < 0 || !ev_eq(os, &c->belief_spike) || !ev_eq(og, &c->goal_spike)) touched = true;
        Snap *s = &next[n++];
        s->c = c; s->id = c->id; s->belief = c->belief; s->predicted = c->predicted_belief; s->spike = c->belief_spike; s->goal = c->goal_spike; s->selected = c->lastSelectionTime; s->touched = touched;
    }
    if(concepts.itemsAmount >= concepts.maxElements) full = true;        /* from here on concepts are recycled */
    if(judge && !many)
    {
        long steps = (occurrenceTimeIndex.currentIndex - at + OCCURRENCE_TIME_INDEX_SIZE) % OCCURRENCE_TIME_INDEX_SIZE;
        for(long k=0; k<steps; k++)
        {
            Concept *c = occurrenceTimeIndex.array[(at + k) % OCCURRENCE_TIME_INDEX_SIZE]; bool ok = false;
            for(int i=0; i<nsel && !ok; i++) ok = eligible(&sel[i]) && o_same(&sel[i].term, &c->term) && o_cop(&c->term, "+") && !Variable_hasVariable(&c->term, true, true, false);
            hx_count("sequences_indexed", 1);
            if(!ok && !full) hx_viol("C32", "indexed", "at %ld %s is treated as an event that occurred, and is no selected sequence without variables", now, hx_str(&c->term));
        }
    }
    at = occurrenceTimeIndex.currentIndex;
    memcpy(snap, next, n * sizeof(Snap)); nsnap = n; nout = 0; outfull = false;
}
static void complete(void)
{
    Term t[2];
    for(int i=0; i<nsel; i++)
    {
        Event *e = &sel[i];
        if(!eligible(e) || composed[i]) continue;
        hx_count(e->type == EVENT_TYPE_GOAL ? "goals_processed" : "events_processed", 1);
        bool query = Variable_hasVariable(&e->term, false, false, true), own = false;
        if(query) hx_count("query_events", 1);
        for(int j=0; j<nsnap; j++)
        {
            Concept *c = snap[j].c; bool before = false; int b = -1;
            bool mine = o_same(&c->term, &e->term);
            own = own || mine;
            if(j < nstart && start[j].c == c && start[j].id == c->id) b = j;
            else for(int k=0; k<nstart && b < 0; k++) if(start[k].c == c && start[k].id == c->id) b = k;
            before = b >= 0;
            if(!before && (!mine || full)) continue;      /* created later */
            if(!o_related(&e->term, c) || !instances(e, &c->term, t)) continue;
            hx_count("matches", 1);
            if(!mine) hx_count("related_matches", 1);
            if(c->lastSelectionTime != now) hx_viol("C32", "not-selected", "at %ld the selected %s matches %s, which was selected last at %ld", now, es(e), hx_str(&c->term), c->lastSelectionTime);
            if(e->type == EVENT_TYPE_BELIEF)
            {
                if(c->belief_spike.type == EVENT_TYPE_DELETED || (!snap[j].touched && c->belief_spike.occurrenceTime < e->occurrenceTime)) hx_viol("C32", "not-activated", "at %ld the selected %s matches %s, whose event is %s", now, es(e), hx_str(&c->term), es(&c->belief_spike));
            }
            else if(c->goal_spike.type == EVENT_TYPE_DELETED || (!snap[j].touched && c->goal_spike.occurrenceTime < e->occurrenceTime)) hx_viol("C32", "goal-not-activated", "at %ld the selected %s matches %s, whose goal is %s", now, es(e), hx_str(&c->term), es(&c->goal_spike));
        }
        if(!own && !full) hx_viol("C32", "no-concept", "at %ld the selected %s has no concept after the cycle", now, es(e));
    }
}
void __wrap_Cycle_Perform(long t)
{
    if(depth) { take(true); nested = true; hx_count("nested_cycles", 1); }
    else
    {
        nested = many = full = false; nsel = 0; now = t; take(false);
        nstart = nsnap;
        for(int j=0; j<nsnap; j++) { snap[j].touched = false; start[j].c = snap[j].c; start[j].id = snap[j].id; }
    }
    depth++;
    __real_Cycle_Perform(t);
    depth--;
    if(nested) now = t;
    take(true);
    if(!depth && !nested && !many) { complete(); hx_count("cycles", 1); }
}
bool __wrap_PriorityQueue_PopMax(PriorityQueue *q, void **address, double *priority)
{
    void *a = NULL; double p = 0;
    bool goal = q >= cycling_goal_events && q < cycling_goal_events + CYCLING_GOAL_EVENTS_LAYERS;
    bool mine = depth && !adding && (q == &cycling_belief_events || goal);
    if(mine) take(true);
    bool r = __real_PriorityQueue_PopMax(q, &a, &p);
    if(r && mine && nsel == 4096) many = true;
    if(r && mine && nsel < 4096) { hx_count(goal ? "goals_selected" : "beliefs_selected", 1); composed[nsel] = false; sel[nsel++] = *(Event*) a; }
    if(address) *address = a;
    if(priority) *priority = p;
    return r;
}
Event __wrap_Inference_RevisionAndChoice(Event *old, Event *e, long t, bool *revised)
{
    if(!depth || adding) return __real_Inference_RevisionAndChoice(old, e, t, revised);
    take(true);
    Event x = __real_Inference_RevisionAndChoice(old, e, t, revised);
    if(nout < 256) out[nout++] = x; else outfull = true;
    return x;
}
void __wrap_Memory_AddEvent(Event *e, long t, double priority, bool input, bool derived, bool revised, int layer)
{
    if(depth && !adding) take(true);
    adding++;
    __real_Memory_AddEvent(e, t, priority, input, derived, revised, layer);
    adding--;
    if(depth && !adding) take(false);
}
void __wrap_Memory_AddInputEvent(Event *e, long t)
{
    if(depth && !adding) take(true);
    adding++;
    __real_Memory_AddInputEvent(e, t);
    adding--;
    if(depth && !adding) take(false);
}
Event __wrap_Inference_BeliefIntersection(Event *a, Event *b, bool *success)
{
    Event x = __real_Inference_BeliefIntersection(a, b, success);
    if(depth && !adding && *success && nsel == 4096) many = true;
    if(depth && !adding && *success && nsel < 4096) { composed[nsel] = true; sel[nsel++] = x; hx_count("composed", 1); }
    return x;
}
