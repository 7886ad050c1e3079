/* Goal processing: which subgoals a selected goal may and must yield, where they go, and that nothing is considered twice. */
#include "ora.h"
/* signatures as declared by the tree; anything else does not compile */
__typeof__(PriorityQueue_PopMax) __wrap_PriorityQueue_PopMax;
__typeof__(PriorityQueue_Rebuild) __wrap_PriorityQueue_Rebuild;
__typeof__(RuleTable_Apply) __wrap_RuleTable_Apply;
__typeof__(Cycle_Perform) __wrap_Cycle_Perform;
__typeof__(Decision_Suggest) __wrap_Decision_Suggest;
__typeof__(Memory_AddEvent) __wrap_Memory_AddEvent;
#define MAXG 6000
static bool active = false, executed = false; static int sel_layer; static Event sel;
static Event got[MAXG], want[MAXG]; static int ngot, nwant;
static int layers(Event *e)        /* number of layers holding an equal goal */
{
    int n = 0;
    for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++)
        for(int i=0; i<cycling_goal_events[l].itemsAmount; i++)
        {
            Event *x = cycling_goal_events[l].items[i].address;
            if(o_same(&x->term, &e->term) && x->truth.frequency == e->truth.frequency && x->truth.confidence == e->truth.confidence && x->occurrenceTime == e->occurrenceTime && o_samestamp(&x->stamp, &e->stamp)) n++;
        }
    return n;
}
static bool in_layer(Event *e, int l)
{
    for(int i=0; i<cycling_goal_events[l].itemsAmount; i++)
    {
        Event *x = cycling_goal_events[l].items[i].address;
        if(o_same(&x->term, &e->term) && x->truth.frequency == e->truth.frequency && x->truth.confidence == e->truth.confidence && x->occurrenceTime == e->occurrenceTime && o_samestamp(&x->stamp, &e->stamp)) return true;
    }
    return false;
}
/* 0: no statement possible (equally good alternatives), 1: none, 2: one, in *g */
static int sequence_goal(Event *goal, Event *g)
{
    Term comp[COMPOUND_TERM_SIZE_MAX], t = goal->term; int n = 0;
    while(o_cop(&t, "+")) { comp[n++] = o_sub(&t, 2); t = o_sub(&t, 1); }
    comp[n] = t;
    Event cur = *goal;
    cur.truth = o_proj(cur.truth, cur.occurrenceTime, currentTime); cur.occurrenceTime = currentTime;
    long last = -1;
    for(int j=n; j>=0; j--)
    {
        Concept *best = NULL; double exp = 0.0; int ties = 0; Substitution subs = {0};
        bool novar = !Variable_hasVariable(&comp[j], true, true, true);
        for(int k=0; k<concepts.itemsAmount; k++)
        {
            Concept *c = concepts.items[k].address;
            if(novar ? !o_same(&c->term, &comp[j]) : !o_related(&comp[j], c)) continue;
            if(Variable_hasVariable(&c->term, true, true, true) || c->belief_spike.type == EVENT_TYPE_DELETED) continue;
            Substitution s = Variable_Unify(&comp[j], &c->term);
            if(!s.success || c->belief_spike.occurrenceTime < last) continue;
            double x = o_exp(o_proj(c->belief_spike.truth, c->belief_spike.occurrenceTime, currentTime));
            if(fabs(x - CONDITION_THRESHOLD) < 1e-12) return 0;
            if(x < CONDITION_THRESHOLD) continue;
            bool ok = true;
            for(int u=j-1; u>=0; u--) { bool o; Variable_ApplySubstitute(comp[u], s, &o); ok = ok && o; }
            if(!ok) continue;
            if(fabs(x - exp) < 1e-12) ties++;
            else if(x > exp) { exp = x; best = c; subs = s; ties = 1; }
        }
        if(ties > 1) return 0;
        if(!best)
        {
            if(j == n) cur.truth = o_ded(cur.truth, o_t(1.0, 0.9));
            cur.term = comp[j]; cur.type = EVENT_TYPE_GOAL;
            *g = cur;
            return 2;
        }
        hx_count("sequence_steps_fulfilled", 1);
        if(j == 0) return 1;
        for(int u=j-1; u>=0; u--) { bool o; comp[u] = Variable_ApplySubstitute(comp[u], subs, &o); }
        last = best->belief_spike.occurrenceTime;
        cur.truth = o_goalded(cur.truth, o_proj(best->belief_spike.truth, best->belief_spike.occurrenceTime, currentTime));
        cur.stamp = o_zip(&best->belief_spike.stamp, &cur.stamp);
    }
    return 1;
}
static bool same_goal(Event *a, Event *b)
{
    return o_same(&a->term, &b->term) && o_tnear(a->truth, b->truth) && a->occurrenceTime == b->occurrenceTime && o_samestamp(&a->stamp, &b->stamp);
}
static void close_goal()
{
    if(!active) return;
    active = false;
    nwant = 0;
    bool seq = o_cop(&sel.term, "+");
    if(seq)
    {
        Event g; int r = sequence_goal(&sel, &g);
        if(r == 0) { hx_count("ambiguous", 1); return; }
        if(r == 2) want[nwant++] = g;
        hx_count(r == 2 ? "sequence_goals" : "sequence_goals_fulfilled", 1);
    }
    if(!executed)
    {
        for(int k=0; k<concepts.itemsAmount; k++)
        {
            Concept *c = concepts.items[k].address;
            if(!o_related(&sel.term, c) || !Variable_Unify(&c->term, &sel.term).success) continue;
            double pc = o_proj(c->goal_spike.truth, c->goal_spike.occurrenceTime, currentTime).confidence, sc = o_proj(sel.truth, sel.occurrenceTime, currentTime).confidence;
            if(c->goal_spike.type == EVENT_TYPE_DELETED || (pc < sc - O_EPS && c->goal_spike.occurrenceTime <= currentTime && sel.occurrenceTime <= currentTime))
                hx_viol("C20", "goal-not-held", "goal %s (confidence %g now) was selected, its concept %s holds confidence %g", hx_str(&sel.term), sc, hx_str(&c->term), c->goal_spike.type == EVENT_TYPE_DELETED ? -1.0 : pc);
            for(int o=0; o<=OPERATIONS_MAX+1; o++)
            {
                Table *tb = o <= OPERATIONS_MAX ? &c->precondition_beliefs[o] : &c->implication_links;
                for(int j=0; j<tb->itemsAmount; j++)
                {
                    Implication *m = &tb->array[j];
                    if(!o_valid(m)) continue;
                    Term post = o_sub(&m->term, 2); bool ok = false;
                    Substitution s = Variable_Unify(&post, &c->goal_spike.term);
                    if(!s.success) continue;
                    Term it = Variable_ApplySubstitute(m->term, s, &ok);
                    if(!ok || nwant >= MAXG) continue;
                    Term pre = o_sub(&it, 1);
                    want[nwant++] = (Event) { .term = o_noop(&pre), .type = EVENT_TYPE_GOAL, .truth = o_goalded(c->goal_spike.truth, m->truth), .stamp = o_zip(&c->goal_spike.stamp, &m->stamp), .occurrenceTime = currentTime };
                }
            }
        }
        if(!seq) hx_count("plain_goals", 1);
    }
    else hx_count("goals_executed", 1);
    for(int i=0; i<ngot; i++)
    {
        int f = -1;
        for(int j=0; j<nwant && f < 0; j++) if(same_goal(&got[i], &want[j])) f = j;
        if(f < 0)
        {
            int t = -1;
            for(int j=0; j<nwant; j++) if(o_same(&got[i].term, &want[j].term)) t = j;
            if(t < 0) hx_viol("C20", seq ? "unlicensed-sequence-goal" : executed ? "goal-after-execution" : "unlicensed-goal", "goal %s was derived from goal %s, which nothing held licenses", hx_str(&got[i].term), hx_str(&sel.term));
            else hx_viol("C20", o_tnear(got[i].truth, want[t].truth) ? (got[i].occurrenceTime == want[t].occurrenceTime ? "goal-stamp" : "goal-time") : "goal-truth", "goal %s derived from %s has (%g,%g)@%ld, expected (%g,%g)@%ld or another stamp", hx_str(&got[i].term), hx_str(&sel.term), got[i].truth.frequency, got[i].truth.confidence, got[i].occurrenceTime, want[t].truth.frequency, want[t].truth.confidence, want[t].occurrenceTime);
            return;
        }
        want[f] = want[--nwant];
        hx_count(seq ? "sequence_subgoals_checked" : "subgoals_checked", 1);
    }
    if(nwant) hx_viol("C20", seq ? "missing-sequence-goal" : "missing-goal", "goal %s was pursued without deriving %s (%g,%g), and %d more", hx_str(&sel.term), hx_str(&want[0].term), want[0].truth.frequency, want[0].truth.confidence, nwant-1);
}
bool __real_PriorityQueue_PopMax(PriorityQueue *q, void **address, double *priority);
bool __wrap_PriorityQueue_PopMax(PriorityQueue *q, void **address, double *priority)
{
    close_goal();
    bool r = __real_PriorityQueue_PopMax(q, address, priority);
    for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++)
        if(q == &cycling_goal_events[l] && r)
        {
            active = true; executed = false; sel_layer = l; ngot = 0;
            sel = *(Event*) *address;
            hx_count("goals_selected", 1);
        }
    return r;
}
void __real_PriorityQueue_Rebuild(PriorityQueue *q);
void __wrap_PriorityQueue_Rebuild(PriorityQueue *q) { close_goal(); __real_PriorityQueue_Rebuild(q); }
void __real_RuleTable_Apply(Term term1, Term term2, Truth truth1, Truth truth2, long occ, double off, Stamp stamp, long now, double pp, double cp, bool two, Concept *c, long cid);
void __wrap_RuleTable_Apply(Term term1, Term term2, Truth truth1, Truth truth2, long occ, double off, Stamp stamp, long now, double pp, double cp, bool two, Concept *c, long cid)
{
    close_goal();
    __real_RuleTable_Apply(term1, term2, truth1, truth2, occ, off, stamp, now, pp, cp, two, c, cid);
}
void __real_Cycle_Perform(long now);
void __wrap_Cycle_Perform(long now)
{
    active = false;          /* a nested step after an execution: the goals before were given up */
    __real_Cycle_Perform(now);
    close_goal();
}
Decision __real_Decision_Suggest(Concept *c, Event *goal, long now);
Decision __wrap_Decision_Suggest(Concept *c, Event *goal, long now)
{
    Decision d = __real_Decision_Suggest(c, goal, now);
    if(d.execute) executed = true;
    return d;
}
void __real_Memory_AddEvent(Event *event, long now, double priority, bool input, bool derived, bool revised, int layer);
void __wrap_Memory_AddEvent(Event *event, long now, double priority, bool input, bool derived, bool revised, int layer)
{
    Event e = *event;
    if(e.type == EVENT_TYPE_GOAL)
    {
        int L = input ? 1 : sel_layer + 1;
        if(L > CYCLING_GOAL_EVENTS_LAYERS-1) L = CYCLING_GOAL_EVENTS_LAYERS-1;
        if(!input && !active) hx_viol("C20", "goal-without-goal", "goal %s derived without a selected goal", hx_str(&e.term));
        if(!input && active) { if(ngot < MAXG) got[ngot++] = e; }
        int n = layers(&e), before[CYCLING_GOAL_EVENTS_LAYERS]; bool full = cycling_goal_events[L].itemsAmount >= CYCLING_GOAL_EVENTS_MAX;
        Concept *c = Memory_FindConceptByTerm(&e.term);
        bool held = c && c->goal_spike.type != EVENT_TYPE_DELETED && o_same(&c->goal_spike.term, &e.term) && c->goal_spike.truth.frequency == e.truth.frequency && c->goal_spike.truth.confidence == e.truth.confidence && c->goal_spike.occurrenceTime == e.occurrenceTime && o_samestamp(&c->goal_spike.stamp, &e.stamp);
        for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) before[l] = cycling_goal_events[l].itemsAmount;
        __real_Memory_AddEvent(event, now, priority, input, derived, revised, layer);
        int n2 = layers(&e);
        for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) if(l != L && cycling_goal_events[l].itemsAmount != before[l]) { hx_viol("C20", "goal-layer", "goal %s derived from layer %d: layer %d now has %d instead of %d goals", hx_str(&e.term), input ? 0 : sel_layer, l, cycling_goal_events[l].itemsAmount, before[l]); return; }
        if((n || held) && n2 > n) hx_viol("C20", "goal-again", "goal %s is %s and was added again", hx_str(&e.term), held ? "held" : "buffered");
        bool drop = e.truth.confidence < 0.01 || priority <= 0 || (RESTRICTED_CONCEPT_CREATION && !input && !c);
        if(!n && !held && !drop && !full && !in_layer(&e, L)) 
        {
            /* an equal one under the evidence as a set is a duplicate as well */
            bool dup = c && c->goal_spike.type != EVENT_TYPE_DELETED && Event_Equal(&c->goal_spike, &e);
            for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) for(int i=0; i<cycling_goal_events[l].itemsAmount; i++) dup = dup || Event_Equal(&e, cycling_goal_events[l].items[i].address);
            if(!dup) hx_viol("C20", "goal-lost", "goal %s (%g,%g) with priority %g was not buffered at layer %d, which has %d goals", hx_str(&e.term), e.truth.frequency, e.truth.confidence, priority, L, before[L]);
        }
        hx_count(drop ? "goals_dropped" : n || held ? "goals_duplicate" : "goals_added", 1);
        if(L == CYCLING_GOAL_EVENTS_LAYERS-1) hx_count("goals_at_last_layer", 1);
        return;
    }
    close_goal();
    int n = 0, n2 = 0;
    Concept *c = Memory_FindConceptByTerm(&e.term);
    bool eternal = e.occurrenceTime == OCCURRENCE_ETERNAL;
    Event *h = c ? (eternal ? &c->belief : &c->belief_spike) : NULL;
    bool held = h && h->type != EVENT_TYPE_DELETED && o_same(&h->term, &e.term) && o_samestamp(&h->stamp, &e.stamp) && h->occurrenceTime == e.occurrenceTime && h->truth.frequency == e.truth.frequency && h->truth.confidence == e.truth.confidence;
    for(int i=0; i<cycling_belief_events.itemsAmount; i++) { Event *x = cycling_belief_events.items[i].address; n += Event_Equal(x, &e) && o_same(&x->term, &e.term); }
    __real_Memory_AddEvent(event, now, priority, input, derived, revised, layer);
    for(int i=0; i<cycling_belief_events.itemsAmount; i++) { Event *x = cycling_belief_events.items[i].address; n2 += Event_Equal(x, &e) && o_same(&x->term, &e.term); }
    if((n || held) && n2 > n) hx_viol("C20", "belief-again", "belief %s is %s and was added again", hx_str(&e.term), held ? "held" : "buffered");
    hx_count(n || held ? "beliefs_duplicate" : "beliefs_added", 1);
}
