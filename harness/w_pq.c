/* Queue laws on the live attention buffers and concept store: every push/pop of the running reasoner is judged. */
#include "hx.h"
/* signatures as declared by the tree; anything else does not compile */
__typeof__(PriorityQueue_INIT) __wrap_PriorityQueue_INIT;
__typeof__(PriorityQueue_Push) __wrap_PriorityQueue_Push;
__typeof__(PriorityQueue_PopMax) __wrap_PriorityQueue_PopMax;
__typeof__(PriorityQueue_PopMin) __wrap_PriorityQueue_PopMin;
__typeof__(PriorityQueue_Rebuild) __wrap_PriorityQueue_Rebuild;
__typeof__(Cycle_Perform) __wrap_Cycle_Perform;
typedef struct { void *a; double p; unsigned long sum; } Slot;
#define NQ (CYCLING_GOAL_EVENTS_LAYERS+2)
#define MX ((CONCEPTS_MAX > CYCLING_GOAL_EVENTS_MAX ? CONCEPTS_MAX : CYCLING_GOAL_EVENTS_MAX) + CYCLING_BELIEF_EVENTS_MAX)
static Slot shadow[NQ][MX]; static int sn[NQ]; static void *fresh[NQ];
static int qid(PriorityQueue *q)
{
    if(q == &concepts) return 0;
    if(q == &cycling_belief_events) return 1;
    long l = q - cycling_goal_events;
    return l >= 0 && l < CYCLING_GOAL_EVENTS_LAYERS ? 2 + l : -1;
}
static const char *qn(int k) { return k == 0 ? "concept store" : k == 1 ? "belief event buffer" : "goal event buffer"; }
static unsigned long sum(int k, void *a)
{
    unsigned long h = 1469598103934665603UL;
#define F(x) for(unsigned i=0; i<sizeof(x); i++) h = (h ^ ((unsigned char*) &(x))[i]) * 1099511628211UL
    if(k == 0) { F(((Concept*) a)->term.atoms); F(((Concept*) a)->id); }
    else { Event *e = a; F(e->term.atoms); F(e->truth.frequency); F(e->truth.confidence); F(e->stamp); F(e->occurrenceTime); F(e->type); }
    return h;
}
static int cmps(const void *a, const void *b) { void *x = ((Slot*) a)->a, *y = ((Slot*) b)->a; return x < y ? -1 : x > y; }
static int snap(int k, PriorityQueue *q, Slot *s)
{
    int n = q->itemsAmount;
    for(int i=0; i<n; i++) s[i] = (Slot) { q->items[i].address, q->items[i].priority, sum(k, q->items[i].address) };
    qsort(s, n, sizeof(Slot), cmps);
    return n;
}
static Slot *find(Slot *s, int n, void *a) { Slot key = { a }; return bsearch(&key, s, n, sizeof(Slot), cmps); }
/* what is held now against what the last operation left: same items, same contents */
static void since(int k, Slot *now, int n)
{
    if(n == 0 || sn[k] < 0) return;
    if(n != sn[k]) { hx_viol("C08", "amount", "%s holds %d items, the last operation left %d", qn(k), n, sn[k]); return; }
    for(int i=0; i<n; i++)
    {
        if(now[i].a != shadow[k][i].a) { hx_viol("C08", "exchanged", "%s: an item was exchanged between operations", qn(k)); return; }
        if(now[i].sum != shadow[k][i].sum && now[i].a != fresh[k]) hx_viol("C08", "content-changed", "%s: the content of a held item was overwritten", qn(k));
    }
}
static void keep(int k, PriorityQueue *q, void *f) { sn[k] = snap(k, q, shadow[k]); fresh[k] = f; }
static Slot before[MX], after[MX];
void __real_PriorityQueue_INIT(PriorityQueue *q, Item *items, int max);
void __wrap_PriorityQueue_INIT(PriorityQueue *q, Item *items, int max)
{
    __real_PriorityQueue_INIT(q, items, max);
    int k = qid(q);
    if(k >= 0) { sn[k] = -1; if(q->itemsAmount) hx_viol("C08", "init", "%s not empty after clearing", qn(k)); }
}
PriorityQueue_Push_Feedback __real_PriorityQueue_Push(PriorityQueue *q, double p);
PriorityQueue_Push_Feedback __wrap_PriorityQueue_Push(PriorityQueue *q, double p)
{
    int k = qid(q);
    if(k < 0) return __real_PriorityQueue_Push(q, p);
    int n = snap(k, q, before);
    since(k, before, n);
    double mn = 1e9;
    for(int i=0; i<n; i++) if(before[i].p < mn) mn = before[i].p;
    PriorityQueue_Push_Feedback f = __real_PriorityQueue_Push(q, p);
    int m = snap(k, q, after);
    hx_count("pushes", 1);
    bool full = n >= q->maxElements;
    if(full && p < mn)
    {
        hx_count("refused", 1);
        if(f.added || f.evicted || m != n) hx_viol("C08", "push-not-refused", "%s: priority %g below the minimum %g entered", qn(k), p, mn);
    }
    else
    {
        if(!f.added) hx_viol("C08", "push-refused", "%s: priority %g refused with %d of %d items, minimum %g", qn(k), p, n, q->maxElements, mn);
        if(full != f.evicted) hx_viol("C08", "eviction", "%s: evicted=%d with %d of %d items", qn(k), f.evicted, n, q->maxElements);
        if(m != (full ? n : n+1)) hx_viol("C08", "amount", "%s: %d items after a push to %d", qn(k), m, n);
        if(full && f.evicted)
        {
            hx_count(k == 0 ? "concept_evictions" : "event_evictions", 1);
            Slot *v = find(before, n, f.evictedItem.address);
            if(!v) hx_viol("C08", "evicted-dead", "%s: the evicted item was not held", qn(k));
            else if(v->p != mn) hx_viol("C08", "evicted-not-min", "%s: evicted priority %g, minimum %g", qn(k), v->p, mn);
            if(f.addedItem.address != f.evictedItem.address) hx_viol("C08", "storage-not-reused", "%s: storage handed out is not that of the evicted item", qn(k));
        }
        else if(f.added && find(before, n, f.addedItem.address)) hx_viol("C08", "shared-storage", "%s: push handed out the storage of a held item", qn(k));
        for(int i=0; i<n; i++)
        {
            if(f.evicted && before[i].a == f.evictedItem.address) continue;
            Slot *s = find(after, m, before[i].a);
            if(!s) { hx_viol("C08", "lost", "%s: a push lost another item", qn(k)); break; }
            if(s->p != before[i].p) hx_viol("C08", "priority-changed", "%s: a push changed the priority of another item", qn(k));
        }
        Slot *s = find(after, m, f.addedItem.address);
        if(!s || s->p != p) hx_viol("C08", "added-priority", "%s: the pushed item is held with another priority", qn(k));
    }
    keep(k, q, f.added ? f.addedItem.address : NULL);
    return f;
}
static bool pop(int max, PriorityQueue *q, void **a, double *p, bool (*real)(PriorityQueue*, void**, double*))
{
    int k = qid(q);
    if(k < 0) return real(q, a, p);
    int n = snap(k, q, before);
    since(k, before, n);
    void *ra = NULL; double rp = 0;
    bool ok = real(q, &ra, &rp);
    int m = snap(k, q, after);
    if(ok != (n > 0)) hx_viol("C08", "pop-result", "%s: pop on %d items gave %d", qn(k), n, ok);
    if(ok)
    {
        hx_count("pops", 1);
        Slot *v = find(before, n, ra);
        double want = max ? -1e9 : 1e9;
        for(int i=0; i<n; i++) if(max ? before[i].p > want : before[i].p < want) want = before[i].p;
        if(!v) hx_viol("C08", "popped-dead", "%s: the popped item was not held", qn(k));
        else if(v->p != want || rp != v->p) hx_viol("C08", max ? "pop-not-max" : "pop-not-min", "%s: popped %g (reported %g), expected %g", qn(k), v->p, rp, want);
        if(m != n-1) hx_viol("C08", "amount", "%s: %d items after a pop from %d", qn(k), m, n);
        for(int i=0; i<n; i++)
        {
            if(before[i].a == ra) continue;
            Slot *s = find(after, m, before[i].a);
            if(!s) { hx_viol("C08", "lost", "%s: a pop lost another item", qn(k)); break; }
            if(s->p != before[i].p) hx_viol("C08", "priority-changed", "%s: a pop changed the priority of another item", qn(k));
        }
        if(find(after, m, ra)) hx_viol("C08", "not-popped", "%s: the popped item is still held", qn(k));
    }
    keep(k, q, NULL);
    if(a) *a = ra;
    if(p) *p = rp;
    return ok;
}
bool __real_PriorityQueue_PopMax(PriorityQueue *q, void **a, double *p);
bool __wrap_PriorityQueue_PopMax(PriorityQueue *q, void **a, double *p) { return pop(1, q, a, p, __real_PriorityQueue_PopMax); }
bool __real_PriorityQueue_PopMin(PriorityQueue *q, void **a, double *p);
bool __wrap_PriorityQueue_PopMin(PriorityQueue *q, void **a, double *p) { return pop(0, q, a, p, __real_PriorityQueue_PopMin); }
void __real_PriorityQueue_Rebuild(PriorityQueue *q);
void __wrap_PriorityQueue_Rebuild(PriorityQueue *q)
{
    int k = qid(q);
    if(k < 0) { __real_PriorityQueue_Rebuild(q); return; }
    int n = snap(k, q, before);
    since(k, before, n);
    __real_PriorityQueue_Rebuild(q);
    int m = snap(k, q, after);
    hx_count("rebuilds", 1);
    if(m != n) hx_viol("C08", "amount", "%s: %d items after rebuilding %d", qn(k), m, n);
    else for(int i=0; i<n; i++) if(before[i].a != after[i].a || before[i].p != after[i].p) { hx_viol("C08", "rebuild", "%s: rebuilding changed an item", qn(k)); break; }
    keep(k, q, NULL);
}
/* selection of the belief event: a maximal one of the buffer leaves it */
void __real_Cycle_Perform(long t);
static long cycles = 0;
void __wrap_Cycle_Perform(long t)
{
    long my = ++cycles;
    double mx = -1; int n = cycling_belief_events.itemsAmount, total = 0;
    for(int i=0; i<n; i++) if(cycling_belief_events.items[i].priority > mx) mx = cycling_belief_events.items[i].priority;
    for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) total += cycling_goal_events[l].itemsAmount;
    __real_Cycle_Perform(t);
    if(n && cycles == my)      /* an executed operation runs a cycle of its own in between */
    {
        hx_count("selections", 1);
        if(beliefsSelectedCnt < 1) hx_viol("C08", "nothing-selected", "no belief event was selected from %d", n);
        else if(selectedBeliefsPriority[0] != mx) hx_viol("C08", "selected-not-max", "selected priority %g, the buffer held %g", selectedBeliefsPriority[0], mx);
    }
}
