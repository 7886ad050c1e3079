/* Forgetting: usage, rank and priority of every concept and buffered event, followed from step to step, and what gives way in full memory. */
#include "ora.h"
__typeof__(Memory_AddEvent) __wrap_Memory_AddEvent;
__typeof__(Memory_AddInputEvent) __wrap_Memory_AddInputEvent;
__typeof__(Memory_INIT) __wrap_Memory_INIT;
__typeof__(Cycle_Perform) __wrap_Cycle_Perform;
__typeof__(RuleTable_Apply) __wrap_RuleTable_Apply;
__typeof__(PriorityQueue_Push) __wrap_PriorityQueue_Push;
__typeof__(PriorityQueue_PopMax) __wrap_PriorityQueue_PopMax;
#define SLACK 1e-12
static bool near(double a, double b) { return fabs(a-b) <= SLACK*fmax(1.0, fmax(fabs(a), fabs(b))); }
static double usefulness(long count, double age) { double u = count / (fmax(0, age) + 1.0); return u / (u + 1.0); }
/* what is known of each concept, by the memory it lives in */
typedef struct { Concept *c; long id; long count, last; double priority, rank; bool ended; } Known;
#define NK 65536
static Known known[NK]; static long slots[NK]; static int nslots;
static Known *k_at(void *c)
{
    unsigned long h = ((unsigned long) c / 64 * 2654435761UL) % NK;
    while(known[h].c && known[h].c != c) h = (h+1) % NK;
    if(!known[h].c) { known[h].c = c; known[h].id = -1; slots[nslots++] = h; }
    return &known[h];
}
static void k_set(Concept *c, bool rank) { Known *k = k_at(c); if(k->id != c->id) k->ended = false; k->id = c->id; k->count = c->usage.useCount; k->last = c->usage.lastUsed; k->priority = c->priority; (void) rank; }
/* priorities of the buffered events, by the memory they live in */
typedef struct { void *e; double priority; bool in; } Held;
#define NH 65536
static Held held[NH];
static Held *h_at(void *e)
{
    unsigned long h = ((unsigned long) e / 64 * 2654435761UL) % NH;
    while(held[h].e && held[h].e != e) h = (h+1) % NH;
    held[h].e = e;
    return &held[h];
}
static bool isevents(PriorityQueue *q) { return q == &cycling_belief_events || (q >= &cycling_goal_events[0] && q < &cycling_goal_events[CYCLING_GOAL_EVENTS_LAYERS]); }
static double pushing = -1; static bool exactly = false;
static long started = 1; static int depth = 0; static long evictions = 0, ends = 0; static bool asked = false;
static void forget_all() { memset(known, 0, sizeof(known)); memset(held, 0, sizeof(held)); nslots = 0; evictions = 0; }
void __real_Memory_INIT();
void __wrap_Memory_INIT() { __real_Memory_INIT(); forget_all(); }

PriorityQueue_Push_Feedback __real_PriorityQueue_Push(PriorityQueue *q, double priority);
PriorityQueue_Push_Feedback __wrap_PriorityQueue_Push(PriorityQueue *q, double priority)
{
    if(q == &concepts)
    {
        bool full = q->itemsAmount >= q->maxElements;
        double least = 2;
        for(int i=0; full && i<q->itemsAmount; i++)
        {
            Known *k = k_at(q->items[i].address); Concept *c = q->items[i].address;
            double r = k->id == c->id && k->ended ? k->rank : 1;
            if(r < least) least = r;
        }
        PriorityQueue_Push_Feedback f = __real_PriorityQueue_Push(q, priority);
        if(f.evicted)
        {
            evictions++;
            Concept *c = f.evictedItem.address; Known *k = k_at(c);
            double r = k->id == c->id && k->ended ? k->rank : 1;
            hx_count("evictions", 1);
            if(!full) hx_viol("C25", "evicted-early", "%s was evicted though memory was not full", hx_str(&c->term));
            else if(r > least + SLACK) hx_viol("C25", "evicted-useful", "%s of rank %.17g was evicted, the lowest rank is %.17g", hx_str(&c->term), r, least);
            if(full && least < 1) hx_count("evictions_by_rank", 1);
        }
        else if(full) hx_viol("C25", "not-evicted", "memory is full, and a new concept was refused");
        return f;
    }
    PriorityQueue_Push_Feedback f = __real_PriorityQueue_Push(q, priority);
    if(isevents(q))
    {
        if(f.added) { Held *h = h_at(f.addedItem.address); h->priority = priority; h->in = true; }
        if(pushing >= 0 && (exactly ? !near(priority, pushing) : priority > pushing*(1+SLACK))) hx_viol("C25", "event-priority", "an event added with priority %.17g is buffered with priority %.17g", pushing, priority);
    }
    return f;
}
bool __real_PriorityQueue_PopMax(PriorityQueue *q, void **a, double *p);
static Event popped; static bool havepopped = false; static double poppedpriority;
bool __wrap_PriorityQueue_PopMax(PriorityQueue *q, void **a, double *p)
{
    bool r = __real_PriorityQueue_PopMax(q, a, p);
    if(r && isevents(q))
    {
        h_at(*a)->in = false;
        if(q == &cycling_belief_events && !havepopped) { popped = *(Event*) *a; havepopped = true; }
    }
    return r;
}
/* an addition: the concept of the event becomes more used, the eternal input's much more; its priority is at least that of the event */
typedef struct { Term term; Concept *c; long id, count, last; double priority; bool there; } Before;
static Before before(Term t)
{
    Before b = { .term = t };
    Concept *c = Memory_FindConceptByTerm(&t);
    if(c) { b.there = true; b.c = c; b.id = c->id; b.count = c->usage.useCount; b.last = c->usage.lastUsed; b.priority = c->priority; }
    return b;
}
static Term adding;
static void used(Before *b, long now, bool eternal, const char *what)
{
    Concept *c = Memory_FindConceptByTerm(&b->term);
    if(!c) { hx_count("gone_again", 1); return; }
    bool same = b->there && c->id == b->id;
    long rise = c->usage.useCount - (same ? b->count : 1);
    hx_count("additions", 1);
    if(rise < 1) hx_viol("C25", "not-used", "%s was %s (%s) but its use count went %ld to %ld", hx_str(&c->term), what, hx_str(&adding), same ? b->count : 1, c->usage.useCount);
    if(eternal && rise < 1000000) hx_viol("C25", "no-boost", "%s was %s by eternal input but its use count rose by %ld only", hx_str(&c->term), what, rise);
    if(!eternal && rise >= 100000) hx_viol("C25", "boost", "%s was %s, not by eternal input, and its use count rose by %ld", hx_str(&c->term), what, rise);
    if(c->usage.lastUsed != now) hx_viol("C25", "last-used", "%s was %s at %ld, its last use is %ld", hx_str(&c->term), what, now, c->usage.lastUsed);
    if(eternal) hx_count("boosts", 1);
}
void __real_Memory_AddEvent(Event *event, long now, double priority, bool input, bool derived, bool revised, int layer);
void __real_Memory_AddInputEvent(Event *event, long now);
static void add(Event *event, long now, double priority, bool input, bool derived, bool revised, int layer)
{
    Event e = *event;
    int n = 0; for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) n += e.term.atoms[i] != 0;
    double eff = input || revised ? priority : priority / log2(1.0 + n);
    bool timp = o_cop(&e.term, "$"), imp = o_cop(&e.term, "?"), accepted = e.type == EVENT_TYPE_BELIEF && e.truth.confidence >= MIN_CONFIDENCE && eff > MIN_PRIORITY && eff != 0;
    if(RESTRICTED_CONCEPT_CREATION && !input && !timp && !Memory_FindConceptByTerm(&e.term)) accepted = false;
    Term s = o_sub(&e.term, 1), p = o_sub(&e.term, 2), right = o_sub(&s, 2), ns = s; bool foreign = false;
    if(timp && o_cop(&s, "+") && o_isop(&right))
    {
        ns = o_noop(&s);
        foreign = o_cop(&right, ":") && strcmp(o_name(right.atoms[7]), "SELF") && !strchr("$#?", o_name(right.atoms[7])[0]);
    }
    Before own = before(e.term), post = before(p), pre = before(ns);
    double keep = pushing; long evicted = evictions; bool keepx = exactly;
    pushing = priority; exactly = input || revised;
    if(input) __real_Memory_AddInputEvent(event, now); else __real_Memory_AddEvent(event, now, priority, input, derived, revised, layer);
    pushing = keep; exactly = keepx;
    adding = e.term;
    bool eternal = input && e.occurrenceTime == OCCURRENCE_ETERNAL;
    Concept *c = Memory_FindConceptByTerm(&e.term);
    if(accepted && !timp)
    {
        used(&own, now, eternal, "added");
        if(c)
        {
            bool same = own.there && c->id == own.id;
            double low = fmax(same ? own.priority : 0, eff), high = fmax(same ? own.priority : 0, priority);
            if(c->priority < low - SLACK) hx_viol("C25", "not-activated", "%s was added with priority %.17g, had %.17g, and has %.17g", hx_str(&e.term), eff, same ? own.priority : 0, c->priority);
            if(c->priority > high + SLACK) hx_viol("C25", "over-activated", "%s was added with priority %.17g, had %.17g, and has %.17g", hx_str(&e.term), priority, same ? own.priority : 0, c->priority);
            hx_count("activations", 1);
        }
    }
    if(accepted && (timp || imp)) { used(&post, now, eternal, "consequent"); if(!foreign && evicted == evictions) used(&pre, now, eternal, "antecedent"); }
    if(!accepted && c && own.there && c->id == own.id && e.type == EVENT_TYPE_BELIEF && (c->usage.useCount != own.count || c->priority != own.priority))
        hx_viol("C25", "used-by-rejected", "%s was rejected, but its concept's use or priority changed", hx_str(&e.term));
    Term all[3] = { e.term, p, ns };
    for(int i=0; i<3; i++) { Concept *x = Memory_FindConceptByTerm(&all[i]); if(x) k_set(x, false); }
}
void __wrap_Memory_AddEvent(Event *event, long now, double priority, bool input, bool derived, bool revised, int layer)
{
    add(event, now, priority, input, derived, revised, layer);
}
void __wrap_Memory_AddInputEvent(Event *event, long now) { add(event, now, 1, true, false, false, 0); }

void __real_RuleTable_Apply(Term term1, Term term2, Truth truth1, Truth truth2, long o, double dt, Stamp stamp, long now, double parent, double cprio, bool doublep, Concept *c, long id);
void __wrap_RuleTable_Apply(Term term1, Term term2, Truth truth1, Truth truth2, long o, double dt, Stamp stamp, long now, double parent, double cprio, bool doublep, Concept *c, long id)
{
    if(doublep && c && c->id == id)
    {
        Known *k = k_at(c);
        hx_count("premises", 1);
        if(k->id == c->id && c->usage.useCount <= k->count) hx_viol("C25", "premise-not-used", "the belief of %s was a premise, but its use count stayed %ld", hx_str(&c->term), c->usage.useCount);
        if(c->usage.lastUsed != now) hx_viol("C25", "premise-last-used", "the belief of %s was a premise at %ld, its last use is %ld", hx_str(&c->term), now, c->usage.lastUsed);
        if(!near(cprio, c->priority)) hx_viol("C25", "premise-priority", "%s has priority %.17g, as a premise %.17g", hx_str(&c->term), c->priority, cprio);
        k_set(c, false);
    }
    __real_RuleTable_Apply(term1, term2, truth1, truth2, o, dt, stamp, now, parent, cprio, doublep, c, id);
}
/* what changed between two observations, other than by additions and premises */
static void unexplained(Concept *c, double decayed, const char *when)
{
    Known *k = k_at(c);
    bool same = k->id == c->id;
    long count = same ? k->count : 1;
    if(c->usage.useCount < count) hx_viol("C25", "use-lost", "the use count of %s fell from %ld to %ld %s", hx_str(&c->term), count, c->usage.useCount, when);
    if(c->usage.useCount - count >= 100000) hx_viol("C25", "unexplained-boost", "the use count of %s rose from %ld to %ld %s", hx_str(&c->term), count, c->usage.useCount, when);
    if(same && c->usage.useCount == k->count && c->usage.lastUsed != k->last) hx_viol("C25", "touched", "%s was not used, but its last use went from %ld to %ld %s", hx_str(&c->term), k->last, c->usage.lastUsed, when);
    if((!same || c->usage.useCount != k->count) && (c->usage.lastUsed < started || c->usage.lastUsed > currentTime)) hx_viol("C25", "use-time", "%s was used between %ld and %ld, its last use is %ld", hx_str(&c->term), started, currentTime, c->usage.lastUsed);
    if(!near(c->priority, decayed * (same ? k->priority : 0))) hx_viol("C25", "priority", "the priority of %s went from %.17g to %.17g %s", hx_str(&c->term), same ? k->priority : 0, c->priority, when);
    hx_count("concepts", 1);
}
void __real_Cycle_Perform(long now);
void __wrap_Cycle_Perform(long now)
{
    bool top = depth == 0;
    started = top ? now : started < now ? started : now;
    for(int i=0; i<concepts.itemsAmount && top; i++)
    {
        Concept *c = concepts.items[i].address;
        if(!near(c->priority, k_at(c)->id == c->id ? k_at(c)->priority : 0)) hx_viol("C25", "priority-between", "the priority of %s changed outside of a step, to %.17g", hx_str(&c->term), c->priority);
    }
    havepopped = false; depth++;
    long e0 = ends;
    __real_Cycle_Perform(now);
    depth--; ends++;
    bool nested = ends - 1 != e0;
    Event sel = popped; bool have = havepopped && !nested;
    havepopped = false;
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address; Known *k = k_at(c);
        if(have && k->id == c->id && k->ended && o_same(&c->term, &sel.term) && sel.occurrenceTime != OCCURRENCE_ETERNAL && !sel.processed && now - sel.occurrenceTime < CORRELATE_OUTCOME_RECENCY && !(o_cop(&sel.term, ",") && strcmp(o_name(sel.term.atoms[1]), "*")))
        {
            bool var = false; for(int j=0; j<COMPOUND_TERM_SIZE_MAX; j++) var |= sel.term.atoms[j] && strchr("$#?", o_name(sel.term.atoms[j])[0]) && strlen(o_name(sel.term.atoms[j])) > 1;
            if(!var)
            {
                hx_count("events_processed", 1);
                if(c->usage.lastUsed < now) hx_viol("C25", "event-not-used", "the event %s was processed at %ld, its concept's last use is %ld", hx_str(&sel.term), now, c->usage.lastUsed);
            }
        }
        unexplained(c, 0.9, "over a step");
        k_set(c, false);
        double want = usefulness(c->usage.useCount, now - c->usage.lastUsed);
        if(!near(concepts.items[i].priority, want)) hx_viol("C25", "rank", "%s, used %ld times, last %ld steps ago, ranks %.17g, not %.17g", hx_str(&c->term), c->usage.useCount, now - c->usage.lastUsed, concepts.items[i].priority, want);
        k = k_at(c); k->rank = want; k->ended = true;
    }
    for(int i=0; i<nslots; i++) if(known[slots[i]].ended && known[slots[i]].c->id != known[slots[i]].id) known[slots[i]].ended = false;
    /* each end decays every buffered event once */
    for(int l=-1; l<CYCLING_GOAL_EVENTS_LAYERS; l++)
    {
        PriorityQueue *q = l < 0 ? &cycling_belief_events : &cycling_goal_events[l];
        for(int i=0; i<q->itemsAmount; i++)
        {
            Held *h = h_at(q->items[i].address);
            if(!h->in) { hx_viol("C25", "event-unknown", "an event is buffered which was not added"); continue; }
            h->priority *= 0.9999;
            if(!near(h->priority, q->items[i].priority)) hx_viol("C25", "event-decay", "the priority of the buffered event %s is %.17g, not %.17g", hx_str(&((Event*) q->items[i].address)->term), q->items[i].priority, h->priority);
            h->priority = q->items[i].priority;
            hx_count("events", 1);
        }
    }
    if(concepts.itemsAmount == CONCEPTS_MAX) hx_count("steps_full", 1);
    hx_count("steps", 1);
}
static bool isquestion(const char *line)
{
    const char *q = strrchr(line, '?');
    return line[0] != '*' && line[0] != '/' && q && (!q[1] || q[1] == ' ');
}
void hx_begin_line(const char *line) { started = currentTime; }
void hx_end_line(const char *line)
{
    if(!strncmp(line, "*query", 6)) { for(int i=0; i<concepts.itemsAmount; i++) k_set(concepts.items[i].address, false); return; }
    bool question = isquestion(line), tensed = strstr(line, ":|:") || strstr(line, ":/:") || strstr(line, ":\\:");
    int primed = 0;
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address; Known *k = k_at(c);
        if(question && k->id == c->id && (c->usage.useCount != k->count || c->priority != k->priority))
        {
            primed++; hx_count("primed", 1);
            if(!near(c->priority, fmax(k->priority, QUESTION_PRIMING))) hx_viol("C25", "priming", "the question primed %s to %.17g", hx_str(&c->term), c->priority);
            if(c->usage.useCount - k->count != (tensed ? 1 : 1000000)) hx_viol("C25", "question-use", "the answer %s to a %s question is used %ld times", hx_str(&c->term), tensed ? "tensed" : "tenseless", c->usage.useCount - k->count);
            if(c->usage.lastUsed != currentTime) hx_viol("C25", "question-time", "the answer %s was used at %ld, not %ld", hx_str(&c->term), c->usage.lastUsed, currentTime);
        }
        else if(k->id == c->id) unexplained(c, 1, "outside of a step");
        k_set(c, false);
    }
    if(primed > 1) hx_viol("C25", "primed-many", "a question primed %d concepts", primed);
    if(primed && QUESTION_PRIMING <= 0) hx_viol("C25", "primed-off", "a question primed a concept though priming is off");
}
/* usage functions, at any history of use */
static void functions(long n, unsigned seed)
{
    srand(seed);
    for(long i=0; i<n; i++)
    {
        long counts[] = { 0, 1, 2, 3, rand() % 100, rand() % 100000, 1000000, 1000000 + rand() % 100, 50000000L + rand() };
        long now = i % 7 == 0 ? 1 : i % 7 == 1 ? 1000000000L + rand() : rand() % 10000 + 1, last = i % 5 ? now - rand() % 2000 : now + rand() % 20;
        Usage u = { .useCount = counts[rand() % 9], .lastUsed = last };
        double r = Usage_usefulness(u, now);
        if(!near(r, usefulness(u.useCount, now - last)) || !(r >= 0 && r < 1)) hx_viol("C25", "f-usefulness", "%ld uses, last %ld steps ago: rank %.17g, not %.17g", u.useCount, now - last, r, usefulness(u.useCount, now - last));
        for(int b=0; b<2; b++)
        {
            Usage v = Usage_use(u, now, b);
            if(v.useCount != u.useCount + (b ? 1000000 : 1) || v.lastUsed != now) hx_viol("C25", "f-use", "%ld uses become %ld at %ld (now %ld)", u.useCount, v.useCount, v.lastUsed, now);
            if(last <= now && !(Usage_usefulness(v, now) > r - (r > 0.999999 ? 1e-15 : 0))) hx_viol("C25", "f-rises", "use does not raise the rank %.17g", r);
        }
        if(u.useCount && last <= now && !(Usage_usefulness(u, now + 1) < r + (r > 0.999999 ? 1e-15 : 0))) hx_viol("C25", "f-falls", "the rank %.17g does not fall", r);
        hx_count("usages", 1);
    }
}
int hx_command(char **f, int n)
{
    if(!strcmp(f[0], "usage")) { functions(atol(f[1]), atol(f[2])); return 1; }
    return 0;
}
