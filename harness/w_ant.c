/* Anticipation: what a processed event does to the hypotheses it makes predictions with, and to every other one. */
#include "ora.h"
/* signatures as declared by the tree; anything else does not compile */
__typeof__(Decision_Anticipate) __wrap_Decision_Anticipate;
__typeof__(PriorityQueue_PopMax) __wrap_PriorityQueue_PopMax;
__typeof__(Cycle_Perform) __wrap_Cycle_Perform;
#define MAXN 600
typedef struct { Implication m; Truth want; bool triggered, any; } Entry;
typedef struct { Concept *c; long id; Term term; int nent; Entry *ent; unsigned long others; Event predicted, spike; int pred_uses, spike_uses; } Snap;
static Snap snap[MAXN]; static int nsnap;
static Entry pool[MAXN*TABLE_SIZE]; static int npool;
static unsigned long mix(unsigned long h, void *p, int n)
{
    unsigned char *b = p;
    for(int i=0; i<n; i++) h = (h ^ b[i]) * 1099511628211UL;
    return h;
}
static unsigned long mixtable(unsigned long h, Table *t)
{
    for(int i=0; i<t->itemsAmount; i++)
    {
        Implication *m = &t->array[i];
        h = mix(h, m->term.atoms, sizeof(m->term.atoms)); h = mix(h, &m->truth.frequency, sizeof(double)); h = mix(h, &m->truth.confidence, sizeof(double));
        h = mix(h, m->stamp.evidentialBase, sizeof(m->stamp.evidentialBase)); h = mix(h, &m->occurrenceTimeOffset, sizeof(double)); h = mix(h, &m->sourceConceptId, sizeof(long));
    }
    return h;
}
/* everything of the concept which anticipation with this table has no business with */
static unsigned long others(Concept *c, Table *except, bool declarative)
{
    unsigned long h = 14695981039346656037UL;
    for(int o=0; o<=OPERATIONS_MAX; o++) if(&c->precondition_beliefs[o] != except) h = mixtable(h*31+o, &c->precondition_beliefs[o]);
    if(&c->implication_links != except) h = mixtable(h*31+77, &c->implication_links);
    Event *e[] = { &c->belief, &c->goal_spike, declarative ? &c->predicted_belief : &c->belief_spike };
    for(int i=0; i<3; i++)
    {
        h = mix(h, e[i]->term.atoms, sizeof(e[i]->term.atoms)); h = mix(h, &e[i]->truth.frequency, sizeof(double)); h = mix(h, &e[i]->truth.confidence, sizeof(double));
        h = mix(h, e[i]->stamp.evidentialBase, sizeof(e[i]->stamp.evidentialBase)); h = mix(h, &e[i]->occurrenceTime, sizeof(long)); h = mix(h, &e[i]->type, sizeof(e[i]->type));
    }
    return h;
}
static Table *table_of(Concept *c, int op, bool declarative) { return declarative ? &c->implication_links : &c->precondition_beliefs[op]; }
static bool fits_left(Term *t)          /* as first component of a compound */
{
    for(int i=0, first=0, next=1; i<COMPOUND_TERM_SIZE_MAX; i++)
    {
        if(i == next) { first = next; next = 2*next+1; }
        if(t->atoms[i] && i + (next - first) >= COMPOUND_TERM_SIZE_MAX) return false;
    }
    return true;
}
static int find(Concept *c) { for(int i=0; i<nsnap; i++) if(snap[i].c == c) return i; return -1; }
static bool same_event(Event *a, Event *b)
{
    return a->type == b->type && (a->type == EVENT_TYPE_DELETED || (o_same(&a->term, &b->term) && o_tnear(a->truth, b->truth) && a->occurrenceTime == b->occurrenceTime && o_samestamp(&a->stamp, &b->stamp)));
}
static int calls = 0, declaratives = 0; static struct { int op; Term term; } called[64];
void __real_Decision_Anticipate(int op, Term opterm, bool declarative, long now);
void __wrap_Decision_Anticipate(int op, Term opterm, bool declarative, long now)
{
    if(declarative) declaratives++; else if(calls < 64) { called[calls].op = op; called[calls++].term = opterm; }
    hx_count(declarative ? "declarative_passes" : op ? "operation_events" : "condition_events", 1);
    if(declarative && op) { __real_Decision_Anticipate(op, opterm, declarative, now); return; }
    nsnap = npool = 0;
    Atom cid = concept_id; long before_id = cid;
    for(int i=0; i<concepts.itemsAmount && nsnap<MAXN; i++)
    {
        Snap *s = &snap[nsnap++]; Concept *c = concepts.items[i].address; Table *t = table_of(c, op, declarative);
        s->c = c; s->id = c->id; s->term = c->term; s->ent = &pool[npool]; s->nent = 0; s->others = others(c, t, declarative); s->predicted = c->predicted_belief; s->spike = c->belief_spike; s->pred_uses = s->spike_uses = 0;
        for(int j=0; j<t->itemsAmount; j++)
            if(o_valid(&t->array[j])) { pool[npool] = (Entry) { .m = t->array[j], .want = t->array[j].truth }; npool++; s->nent++; }
    }
    /* what it should come to */
    static Event made[MAXN*TABLE_SIZE]; int nmade = 0; bool unclear = false; int triggered = 0;
    for(int i=0; i<nsnap; i++) for(int j=0; j<snap[i].nent; j++)
    {
        Entry *e = &snap[i].ent[j]; Implication *m = &e->m; int src = find(m->sourceConcept);
        if(src < 0) { unclear = true; continue; }
        Event p = declarative ? snap[src].spike : ((Concept*) m->sourceConcept)->belief_spike; bool ok;
        if(p.type == EVENT_TYPE_DELETED || p.occurrenceTime > now) continue;
        if(op > 0)
        {
            Term subj = o_sub(&m->term, 1), left = o_noop(&subj), o = o_sub(&subj, 2), before = o_sub(&subj, 1);
            if(!o_same(&before, &left) || o_isop(&left)) { hx_count("operation_sequences", 1); e->any = unclear = true; continue; }
            Substitution s = Variable_Unify(&left, &p.term);
            if(!s.success) continue;
            Term so = Variable_ApplySubstitute(o, s, &ok);
            if(!ok || !Variable_Unify(&so, &opterm).success) { hx_count("other_arguments", 1); continue; }
        }
        if(!fits_left(&p.term)) continue;
        Truth pt = p.truth;
        if(op > 0) { Truth q = o_proj(p.truth, p.occurrenceTime, now); pt = o_t(q.frequency, q.confidence*0.9); }
        Truth r = o_ded(m->truth, pt);
        bool temporal = o_cop(&m->term, "$");
        if(temporal && (fabs(o_exp(r) - 0.501) < 1e-12 || (r.frequency == 0 && fabs(r.confidence - 0.05) < 1e-12))) { unclear = true; continue; }
        if(temporal && !(o_exp(r) > 0.501 || (r.confidence < 0.05 && r.frequency == 0))) { hx_count("expected_too_little", 1); continue; }
        triggered++;
        if(temporal)
        {
            Truth past = o_t(p.truth.frequency, p.truth.confidence * pow(O_DECAY, labs((long) round(m->occurrenceTimeOffset))));
            e->want = o_rev(m->truth, o_eternal(o_ind(o_t(0.0, ANTICIPATION_CONFIDENCE), past)));
            e->triggered = true;
        }
        Substitution s = Variable_Unify(&((Concept*) m->sourceConcept)->term, &p.term);
        Term post = o_sub(&m->term, 2); if(!s.success) continue;
        Event x = { .type = EVENT_TYPE_BELIEF, .truth = r, .stamp = o_zip(&p.stamp, &m->stamp), .occurrenceTime = (long) ((op > 0 ? now : p.occurrenceTime) + m->occurrenceTimeOffset), .creationTime = now };
        x.term = Variable_ApplySubstitute(post, s, &ok);
        if(!ok) continue;
        if(o_overlap(&p.stamp, &m->stamp)) { hx_count("overlapping", 1); continue; }
        if(declarative)
        {
            Concept *c = Memory_FindConceptByTerm(&x.term); int k = c ? find(c) : -1;
            if(k < 0) { unclear = true; continue; }
            Event *sp = &snap[k].spike; bool subset = true; int na = 0, nb = 0;
            for(int a=0; a<STAMP_SIZE && sp->stamp.evidentialBase[a]; a++, na++) { bool in = false; for(int b=0; b<STAMP_SIZE; b++) in = in || x.stamp.evidentialBase[b] == sp->stamp.evidentialBase[a]; subset = subset && in; }
            while(nb < STAMP_SIZE && x.stamp.evidentialBase[nb]) nb++;
            if(subset && nb <= na) continue;
            *sp = Inference_RevisionAndChoice(sp, &x, now, NULL); snap[k].spike_uses++;
        }
        else made[nmade++] = x;
    }
    if(triggered) hx_count(declarative ? "declarative_conclusions" : "triggered", triggered);
    __real_Decision_Anticipate(op, opterm, declarative, now);
    bool evicted = false, created = (long) concept_id != before_id;
    for(int i=0; i<nsnap; i++) evicted = evicted || snap[i].c->id != snap[i].id;
    if(evicted) hx_count("calls_with_evictions", 1); else if(created) hx_count("calls_creating_concepts", 1);
    /* the hypotheses */
    for(int i=0; i<nsnap; i++)
    {
        Snap *s = &snap[i];
        if(s->c->id != s->id) continue;
        Table *t = table_of(s->c, op, declarative);
        if(others(s->c, t, declarative) != s->others) { hx_viol("C16", "unrelated-change", "anticipating after operation %d (%s) changed other knowledge of concept %s", op, hx_str(&opterm), hx_str(&s->term)); return; }
        for(int j=0; j<s->nent; j++)
        {
            Entry *e = &s->ent[j]; int f = -1; bool gone = !o_valid(&e->m);
            for(int k=0; k<t->itemsAmount; k++) if(o_same(&t->array[k].term, &e->m.term)) { f = k; break; }
            if(f < 0) { if(!gone) hx_viol("C16", "hypothesis-lost", "anticipating after operation %d removed %s", op, hx_str(&e->m.term)); continue; }
            Implication *n = &t->array[f];
            if(!o_samestamp(&n->stamp, &e->m.stamp) || fabs(n->occurrenceTimeOffset - e->m.occurrenceTimeOffset) > 1e-6 || n->sourceConcept != e->m.sourceConcept || n->sourceConceptId != e->m.sourceConceptId)
                hx_viol("C16", "hypothesis-evidence", "anticipating after operation %d changed stamp, delay (%g to %g) or source of %s", op, e->m.occurrenceTimeOffset, n->occurrenceTimeOffset, hx_str(&e->m.term));
            bool same = n->truth.frequency == e->m.truth.frequency && n->truth.confidence == e->m.truth.confidence;
            if(e->any) continue;
            if(!e->triggered ? !same : !o_tnear(n->truth, e->want) && !(same && (unclear || gone)))
                hx_viol("C16", e->triggered ? same ? "no-negative-evidence" : "negative-evidence" : "untriggered-changed", "operation %d: %s hypothesis %s changed from (%.9g,%.9g) to (%.9g,%.9g), expected (%.9g,%.9g)", op, e->triggered ? "the triggered" : "an unrelated", hx_str(&e->m.term), e->m.truth.frequency, e->m.truth.confidence, n->truth.frequency, n->truth.confidence, e->want.frequency, e->want.confidence);
            if(e->triggered)
            {
                hx_count("negative_evidence_checked", 1);
                if(n->truth.frequency > e->m.truth.frequency + 1e-12) hx_viol("C16", "frequency-raised", "negative evidence raised the frequency of %s", hx_str(&e->m.term));
            }
        }
    }
    /* the predictions */
    if(unclear || evicted) { hx_count("unclear", 1); return; }
    for(int i=0; i<nmade; i++)
    {
        Concept *c = Memory_FindConceptByTerm(&made[i].term); int k = c ? find(c) : -1;
        if(c == NULL) { hx_viol("C16", "prediction-missing", "%s was not predicted", hx_str(&made[i].term)); return; }
        if(k < 0)
        {
            if(nsnap >= MAXN) return;
            k = nsnap++; snap[k] = (Snap) { .c = c, .id = c->id, .term = c->term }; hx_count("predictions_of_new_concepts", 1);
        }
        Event *e = &snap[k].predicted;
        *e = Inference_RevisionAndChoice(e, &made[i], now, NULL); snap[k].pred_uses++;
        hx_count(op ? "predictions_after_operations" : "predictions", 1);
    }
    for(int i=0; i<nsnap; i++)
    {
        Snap *s = &snap[i]; Event *h = declarative ? &s->c->belief_spike : &s->c->predicted_belief, *w = declarative ? &s->spike : &s->predicted;
        int uses = declarative ? s->spike_uses : s->pred_uses;
        if(!same_event(h, w)) hx_viol("C16", uses ? "prediction" : "unlicensed-prediction", "concept %s %s (%g,%g)@%ld, expected (%g,%g)@%ld or another stamp", hx_str(&s->term), declarative ? "believes" : "predicts", h->truth.frequency, h->truth.confidence, h->occurrenceTime, w->truth.frequency, w->truth.confidence, w->occurrenceTime);
    }
}
/* every input event which is processed is anticipated from, once */
static Event popped[64]; static int npopped = 0;
bool __real_PriorityQueue_PopMax(PriorityQueue *q, void **address, double *priority);
bool __wrap_PriorityQueue_PopMax(PriorityQueue *q, void **address, double *priority)
{
    double p = 0; void *a = NULL;
    bool r = __real_PriorityQueue_PopMax(q, &a, &p);
    if(address) *address = a;
    if(priority) *priority = p;
    if(q == &cycling_belief_events && r && npopped < 64 && p >= 1.0) popped[npopped++] = *(Event*) a;
    return r;
}
void __real_Cycle_Perform(long now);
void __wrap_Cycle_Perform(long now)
{
    calls = declaratives = npopped = 0;
    int k = calls;
    __real_Cycle_Perform(now);
    if(npopped < 0) return;             /* a nested cycle took over */
    int need = 0; bool known = true;
    for(int i=0; i<npopped; i++)
    {
        Event *e = &popped[i];
        bool cont = o_cop(&e->term, ",") && strcmp(o_name(e->term.atoms[1]), "*");
        if(e->processed || cont || e->occurrenceTime == OCCURRENCE_ETERNAL || now - e->occurrenceTime >= 20) continue;
        if(o_cop(&e->term, "+")) { known = false; continue; }
        bool isop = o_isop(&e->term); Term none = {0};
        if(need < calls && ((called[need].op != 0) != isop || !o_same(&called[need].term, isop ? &e->term : &none))) hx_viol("C16", "anticipated-other", "event %s was processed, anticipation was done for operation %d (%s)", hx_str(&e->term), called[need].op, hx_str(&called[need].term));
        if(isop && need < calls && called[need].op && operations[called[need].op-1].term.atoms[0] != (o_name(e->term.atoms[0])[0] == '^' ? e->term.atoms[0] : e->term.atoms[2])) hx_viol("C16", "anticipated-other", "operation event %s was anticipated from as operation %d", hx_str(&e->term), called[need].op);
        need++;
        hx_count("events_anticipated_from", 1);
    }
    if(known && calls != need) hx_viol("C16", calls < need ? "not-anticipated" : "anticipated-twice", "%d input events were processed, anticipation was done %d times", need, calls - k);
    if(declaratives != 1) hx_viol("C16", "declarative-passes", "%d passes over the declarative implications in a cycle", declaratives);
    npopped = -1; calls = declaratives = 0;
}
int hx_command(char **f, int n)
{
    if(strcmp(f[0], "imps")) return 0;  /* every valid temporal implication */
    for(int i=0; i<concepts.itemsAmount; i++) for(int o=0; o<=OPERATIONS_MAX; o++)
    {
        Concept *c = concepts.items[i].address; Table *t = &c->precondition_beliefs[o];
        for(int j=0; j<t->itemsAmount; j++) if(o_valid(&t->array[j]))
        {
            printf("@@{\"k\":\"imp\",\"t\":"); hx_term(&t->array[j].term); printf(",\"f\":%.17g,\"c\":%.17g,\"dt\":%.17g}\n", t->array[j].truth.frequency, t->array[j].truth.confidence, t->array[j].occurrenceTimeOffset);
        }
    }
    puts("@@{\"k\":\"imps\"}");
    return 1;
}
