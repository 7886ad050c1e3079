/* Whole-store walk after every line: invariants over the public global state. */
#include "hx.h"
#include "Stats.h"
#include <math.h>
static bool inrange(double v, double lo, double hi, bool openhi) { return v == v && v >= lo && (openhi ? v < hi : v <= hi); }
static void truth(const char *what, Truth t, Term *term)
{
    hx_count("truths", 1);
    if(!inrange(t.frequency, 0, 1, false)) hx_viol("C03", "frequency", "%s of %s has frequency %g", what, hx_str(term), t.frequency);
    if(!inrange(t.confidence, 0, 1, true)) hx_viol("C03", "confidence", "%s of %s has confidence %g", what, hx_str(term), t.confidence);
}
static void prio(const char *what, double p, Term *term)
{
    hx_count("priorities", 1);
    if(!inrange(p, 0, 1, false)) hx_viol("C03", "priority", "%s of %s has priority %g", what, hx_str(term), p);
}
static void stamp(const char *what, Stamp *s, Term *term, bool nodup)
{
    bool end = false; int n = 0;
    hx_count("stamps", 1);
    for(int i=0; i<STAMP_SIZE; i++)
    {
        long a = s->evidentialBase[i];
        if(a == STAMP_FREE) { end = true; continue; }
        n++;
        if(end) hx_viol("C05", "stamp-hole", "%s of %s: evidence id %ld behind the end of the stamp", what, hx_str(term), a);
        for(int j=0; nodup && j<i; j++) if(s->evidentialBase[j] == a) hx_viol("C05", "evidence-twice", "%s of %s lists evidence id %ld twice", what, hx_str(term), a);
    }
    if(n == 0 && strcmp(what, "implication")) hx_viol("C05", "no-evidence", "%s of %s has no evidence", what, hx_str(term));
    if(n > 1) hx_count("compound_stamps", 1);
}
static void hash(const char *what, Term *t)
{
    hx_count("terms", 1);
    if(t->hashed)
    {
        Term u = {0};
        memcpy(u.atoms, t->atoms, sizeof(u.atoms));
        if(Term_Hash(&u) != t->hash) hx_viol("C09", "stale-hash", "%s %s carries the hash of another term", what, hx_str(t));
    }
}
static void event(const char *what, Event *e, bool goal)
{
    if(e->type == EVENT_TYPE_DELETED) return;
    truth(what, e->truth, &e->term);
    hash(what, &e->term);
    /* implications may be revised with shared evidence, and what they predict inherits it: only sessions without them are judged */
    stamp(what, &e->stamp, &e->term, !goal && getenv("WALK_NODUP") != NULL);
    if(e->type != (goal ? EVENT_TYPE_GOAL : EVENT_TYPE_BELIEF)) hx_viol("C07", "event-type", "%s %s has type %d", what, hx_str(&e->term), e->type);
}
static bool is_concept(void *p)
{
    for(int i=0; i<concepts.itemsAmount; i++) if(concepts.items[i].address == p) return true;
    return false;
}
static int cmpp(const void *a, const void *b) { void *x = *(void**) a, *y = *(void**) b; return x < y ? -1 : x > y; }
static void addresses(const char *what, PriorityQueue *q, int max)
{
    static void *p[CONCEPTS_MAX > 4096 ? CONCEPTS_MAX : 4096];
    if(q->itemsAmount < 0 || q->itemsAmount > max) { hx_viol("C07", "capacity", "%s holds %d items, capacity %d", what, q->itemsAmount, max); return; }
    if(q->maxElements != max) hx_viol("C07", "capacity", "%s has capacity %d instead of %d", what, q->maxElements, max);
    for(int i=0; i<max; i++) p[i] = q->items[i].address;
    qsort(p, max, sizeof(void*), cmpp);
    for(int i=0; i<max; i++) if(p[i] == NULL || (i && p[i] == p[i-1])) { hx_viol("C08", "shared-storage", "%s: two items share their storage", what); break; }
}
static bool walk_ops = true;     /* the operator slots did not change during the session */
static int slot(Term *imp)
{
    Term sub = Term_ExtractSubterm(imp, 1);
    if(!Narsese_copulaEquals(sub.atoms[0], SEQUENCE)) return 0;
    Term op = Term_ExtractSubterm(&sub, 2);
    Atom a = Narsese_isOperator(op.atoms[0]) ? op.atoms[0] : Narsese_copulaEquals(op.atoms[0], INHERITANCE) && Narsese_isOperator(op.atoms[2]) && op.atoms[5] == 0 ? op.atoms[2] : 0;
    if(!a || (op.atoms[0] != a && !Narsese_isOperation(&op))) return 0;
    for(int k=0; k<OPERATIONS_MAX; k++) if(operations[k].term.atoms[0] == a) return k+1;
    return 0;
}
static void table(Concept *c, Table *tb, int k)
{
    if(tb->itemsAmount < 0 || tb->itemsAmount > TABLE_SIZE) { hx_viol("C10", "capacity", "table of %s holds %d entries, capacity %d", hx_str(&c->term), tb->itemsAmount, TABLE_SIZE); return; }
    hx_count("tables", 1);
    if(tb->itemsAmount == TABLE_SIZE) hx_count("full_tables", 1);
    for(int j=0; j<tb->itemsAmount; j++)
    {
        Implication *m = &tb->array[j];
        hx_count("implications", 1);
        truth("implication", m->truth, &m->term);
        if(!isfinite(m->occurrenceTimeOffset)) hx_viol("C03", "offset", "implication %s has time offset %g", hx_str(&m->term), m->occurrenceTimeOffset);
        hash("implication", &m->term);
        stamp("implication", &m->stamp, &m->term, false);
        if(!Narsese_copulaEquals(m->term.atoms[0], k < 0 ? IMPLICATION : TEMPORAL_IMPLICATION)) hx_viol("C10", "copula", "entry %s in table %d", hx_str(&m->term), k);
        Term post = Term_ExtractSubterm(&m->term, 2);
        if(memcmp(post.atoms, c->term.atoms, sizeof(post.atoms))) hx_viol("C10", "consequence", "entry %s is stored under %s", hx_str(&m->term), hx_str(&c->term));
        if(walk_ops && k >= 0 && slot(&m->term) != k) hx_viol("C10", "operation-slot", "entry %s is in the slot of operation %d", hx_str(&m->term), k);
        if(j && Truth_Expectation(m->truth) > Truth_Expectation(tb->array[j-1].truth)) hx_viol("C10", "order", "entry %d of %s is ranked below a weaker one (%.17g > %.17g)", j, hx_str(&c->term), Truth_Expectation(m->truth), Truth_Expectation(tb->array[j-1].truth));
        for(int i=0; i<j; i++) if(!memcmp(tb->array[i].term.atoms, m->term.atoms, sizeof(m->term.atoms))) hx_viol("C10", "duplicate", "two entries for %s", hx_str(&m->term));
        if(m->sourceConcept == NULL) hx_viol("C10", "no-source", "entry %s has no source concept", hx_str(&m->term));
        else if(Memory_ImplicationValid(m))
        {
            Term sub = Term_ExtractSubterm(&m->term, 1), want = k >= 0 ? Narsese_GetPreconditionWithoutOp(&sub) : sub;
            Concept *s = m->sourceConcept;
            if(memcmp(s->term.atoms, want.atoms, sizeof(want.atoms)) && memcmp(s->term.atoms, sub.atoms, sizeof(want.atoms))) hx_viol("C10", "source", "entry %s counts as valid with source %s", hx_str(&m->term), hx_str(&s->term));
            hx_count("valid_implications", 1);
        }
        else hx_count("outdated_implications", 1);
    }
}
static long last_nc = 0, last_id = 0, full_walks = 0;
void hx_walk(void)
{
    hx_count("walks", 1);
    /* concepts */
    addresses("concept store", &concepts, CONCEPTS_MAX);
    int n = concepts.itemsAmount;
    if(concept_id < last_id) { last_id = 0; last_nc = 0; }      /* reset */
    if(n < last_nc) hx_viol("C07", "lost-concepts", "%d concepts after %ld", n, last_nc);
    if(n < CONCEPTS_MAX && concept_id != n) hx_viol("C07", "forgot-with-room", "%d concepts were created, %d of %d are held", concept_id, n, CONCEPTS_MAX);
    last_nc = n; last_id = concept_id;
    if(n == CONCEPTS_MAX) hx_count("walks_full", 1);
    long entries = 0;
    for(int i=0; i<n; i++)
    {
        Concept *c = concepts.items[i].address;
        hx_count("concepts", 1);
        if(!c->term.atoms[0]) hx_viol("C07", "empty-concept", "a concept without term is held");
        if(c->id < 0 || c->id >= concept_id) hx_viol("C07", "concept-id", "concept %s has id %ld of %d", hx_str(&c->term), c->id, concept_id);
        Term fresh = {0};
        memcpy(fresh.atoms, c->term.atoms, sizeof(fresh.atoms));
        Concept *f = Memory_FindConceptByTerm(&fresh);
        if(f != c) hx_viol("C07", f ? "duplicate-concept" : "unfindable", "concept %s is not found by its term", hx_str(&c->term));
        hash("concept", &c->term);
        prio("concept", c->priority, &c->term);
        if(!inrange(concepts.items[i].priority, 0, 1, false)) hx_viol("C03", "rank", "concept %s has rank %g", hx_str(&c->term), concepts.items[i].priority);
        Event *ev[] = { &c->belief, &c->belief_spike, &c->predicted_belief };
        const char *nm[] = { "belief", "belief event", "predicted belief" };
        for(int k=0; k<3; k++)
        {
            event(nm[k], ev[k], false);
            if(ev[k]->type != EVENT_TYPE_DELETED && k == 0 && ev[k]->occurrenceTime != OCCURRENCE_ETERNAL) hx_viol("C13", "belief-tense", "the belief of %s has occurrence time %ld", hx_str(&c->term), ev[k]->occurrenceTime);
            if(ev[k]->type != EVENT_TYPE_DELETED && k > 0 && ev[k]->occurrenceTime == OCCURRENCE_ETERNAL) hx_viol("C13", "event-tense", "the %s of %s is eternal", nm[k], hx_str(&c->term));
            if(ev[k]->type != EVENT_TYPE_DELETED && k == 0 && memcmp(ev[k]->term.atoms, c->term.atoms, sizeof(fresh.atoms))) hx_viol("C12", "belief-of-other", "concept %s holds the belief of %s", hx_str(&c->term), hx_str(&ev[k]->term));
        }
        event("goal event", &c->goal_spike, true);
        for(int o=0; o<=OPERATIONS_MAX; o++) table(c, &c->precondition_beliefs[o], o);
        table(c, &c->implication_links, -1);
        for(int k=0; k<UNIFICATION_DEPTH; k++)
        {
            Atom a = c->term.atoms[k];
            if(!Narsese_IsSimpleAtom(a)) continue;
            bool before = false;
            for(int l=0; l<k; l++) if(c->term.atoms[l] == a) before = true;
            if(before) continue;
            entries++;
            int found = 0;
            for(ConceptChainElement *el = InvertedAtomIndex_GetConceptChain(a); el != NULL && found < 100000; el = el->next) if(el->c == c) found++;
            if(found != 1) hx_viol("C07", found ? "recall-twice" : "recall-missing", "concept %s is recalled %d times by its atom %s", hx_str(&c->term), found, Narsese_atomNames[a-1]);
        }
    }
    /* lookup table: exactly the held concepts */
    long ht = 0;
    for(int b=0; b<CONCEPTS_HASHTABLE_BUCKETS; b++) for(VMItem *v = HTconcepts.HT[b]; v != NULL && ht <= 2*CONCEPTS_MAX; v = v->next)
    {
        ht++;
        if(!is_concept(v->value)) hx_viol("C07", "forgotten-found", "the lookup table leads to a concept which is not held");
        else if(v->key != &((Concept*) v->value)->term) hx_viol("C07", "key", "the lookup key of %s is not its term", hx_str(&((Concept*) v->value)->term));
    }
    if(ht != n) hx_viol("C07", "lookup-size", "%ld lookup entries for %d concepts", ht, n);
    if(HTconcepts.VMStack.stackpointer != CONCEPTS_MAX - n) hx_viol("C07", "lookup-leak", "%d of %d lookup entries free with %d concepts", HTconcepts.VMStack.stackpointer, CONCEPTS_MAX, n);
    /* recall index: exactly the (atom, concept) pairs of the held concepts */
    long idx = 0;
    for(int a=0; a<ATOMS_MAX; a++) for(ConceptChainElement *el = invertedAtomIndex[a]; el != NULL && idx <= 2L*UNIFICATION_DEPTH*CONCEPTS_MAX; el = el->next)
    {
        idx++;
        if(el->c == NULL || !is_concept(el->c)) { hx_viol("C07", "recall-forgotten", "atom %s recalls a concept which is not held", Narsese_atomNames[a-1]); continue; }
        bool has = false;
        for(int k=0; k<UNIFICATION_DEPTH; k++) if(el->c->term.atoms[k] == a) has = true;
        if(!has) hx_viol("C07", "recall-wrong", "atom %s recalls %s", Narsese_atomNames[a-1], hx_str(&el->c->term));
    }
    if(idx != entries) hx_viol("C07", "recall-size", "%ld recall entries, %ld expected", idx, entries);
    if(conceptChainElementStack.stackpointer != UNIFICATION_DEPTH*CONCEPTS_MAX - idx) hx_viol("C07", "recall-leak", "%d recall elements free with %ld in use of %d", conceptChainElementStack.stackpointer, idx, UNIFICATION_DEPTH*CONCEPTS_MAX);
    hx_count("recall_entries", idx);
    /* buffers */
    addresses("belief event buffer", &cycling_belief_events, CYCLING_BELIEF_EVENTS_MAX);
    for(int i=0; i<cycling_belief_events.itemsAmount; i++)
    {
        Event *e = cycling_belief_events.items[i].address;
        if(e->type != EVENT_TYPE_BELIEF) hx_viol("C07", "event-type", "a buffered belief event has type %d", e->type);
        event("buffered belief event", e, false);
        prio("buffered belief event", cycling_belief_events.items[i].priority, &e->term);
        for(int j=0; j<i; j++) if(Event_Equal(e, cycling_belief_events.items[j].address) && Event_Equal(cycling_belief_events.items[j].address, e)) hx_viol("C20", "belief-twice", "%s is buffered twice", hx_str(&e->term));
        hx_count("buffered_beliefs", 1);
    }
    for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++)
    {
        addresses("goal event buffer", &cycling_goal_events[l], CYCLING_GOAL_EVENTS_MAX);
        for(int i=0; i<cycling_goal_events[l].itemsAmount; i++)
        {
            Event *e = cycling_goal_events[l].items[i].address;
            if(e->type != EVENT_TYPE_GOAL) hx_viol("C07", "event-type", "a buffered goal has type %d", e->type);
            event("buffered goal", e, true);
            prio("buffered goal", cycling_goal_events[l].items[i].priority, &e->term);
            for(int l2=0; l2<=l; l2++) for(int j=0; j<(l2 == l ? i : cycling_goal_events[l2].itemsAmount); j++)
                if(Event_Equal(e, cycling_goal_events[l2].items[j].address) && Event_Equal(cycling_goal_events[l2].items[j].address, e)) hx_viol("C20", "goal-twice", "goal %s is buffered twice (layers %d and %d)", hx_str(&e->term), l2, l);
            hx_count("buffered_goals", 1);
        }
    }
    for(int i=0; i<beliefsSelectedCnt; i++) { prio("selected event", selectedBeliefsPriority[i], &selectedBeliefs[i].term); event("selected event", &selectedBeliefs[i], false); }
    for(int i=0; i<goalsSelectedCnt; i++) { prio("selected goal", selectedGoalsPriority[i], &selectedGoals[i].term); event("selected goal", &selectedGoals[i], true); }
    if(!inrange(conceptPriorityThreshold, 0, 1, false)) hx_viol("C03", "threshold", "concept threshold %g", conceptPriorityThreshold);
    /* temporal index */
    OccurrenceTimeIndex *o = &occurrenceTimeIndex;
    if(o->itemsAmount < 0 || o->itemsAmount > OCCURRENCE_TIME_INDEX_SIZE || o->currentIndex < 0 || o->currentIndex >= OCCURRENCE_TIME_INDEX_SIZE) hx_viol("C07", "time-index", "temporal index holds %d items at %d", o->itemsAmount, o->currentIndex);
    for(int k=0; k<o->itemsAmount && k<OCCURRENCE_TIME_INDEX_SIZE; k++)
    {
        Concept *c = OccurrenceTimeIndex_GetKthNewestElement(o, k);
        if(c == NULL || !is_concept(c)) hx_viol("C07", "time-index", "temporal index leads to a concept which is not held");
    }
    if(o->itemsAmount == OCCURRENCE_TIME_INDEX_SIZE) hx_count("time_index_full", 1);
}
