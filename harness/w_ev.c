/* Evidence and implication use: every combination of stamps in the running reasoner is judged. */
#include "hx.h"
/* signatures as declared by the tree; anything else does not compile */
__typeof__(Stamp_make) __wrap_Stamp_make;
__typeof__(Stamp_checkOverlap) __wrap_Stamp_checkOverlap;
__typeof__(Inference_BeliefInduction) __wrap_Inference_BeliefInduction;
__typeof__(Inference_BeliefIntersection) __wrap_Inference_BeliefIntersection;
__typeof__(Inference_RevisionAndChoice) __wrap_Inference_RevisionAndChoice;
__typeof__(Inference_ImplicationRevision) __wrap_Inference_ImplicationRevision;
__typeof__(Inference_BeliefDeduction) __wrap_Inference_BeliefDeduction;
__typeof__(Inference_GoalDeduction) __wrap_Inference_GoalDeduction;
__typeof__(Inference_GoalSequenceDeduction) __wrap_Inference_GoalSequenceDeduction;
__typeof__(Event_InputEvent) __wrap_Event_InputEvent;
__typeof__(RuleTable_Apply) __wrap_RuleTable_Apply;
__typeof__(NAL_DerivedEvent) __wrap_NAL_DerivedEvent;
__typeof__(Memory_AddEvent) __wrap_Memory_AddEvent;
#include "Stats.h"
#include <math.h>
enum { NONE, INDUCTION, INTERSECTION, REVISION, IMPREVISION, GOALDED, GOALSEQ, BELDED };
static int ctx = NONE;
static Stamp last_declarative;         /* last combination made for declarative inference */
static Stamp last_induction;
static bool overlap(Stamp *a, Stamp *b)
{
    for(int i=0; i<STAMP_SIZE; i++) for(int j=0; j<STAMP_SIZE; j++) if(a->evidentialBase[i] && a->evidentialBase[i] == b->evidentialBase[j]) return true;
    return false;
}
static Stamp zip(Stamp *a, Stamp *b)
{
    Stamp r = {0}; int n = 0, la = 0, lb = 0;
    while(la < STAMP_SIZE && a->evidentialBase[la]) la++;
    while(lb < STAMP_SIZE && b->evidentialBase[lb]) lb++;
    for(int i=0; i<STAMP_SIZE; i++)
    {
        if(i < la && n < STAMP_SIZE) r.evidentialBase[n++] = a->evidentialBase[i];
        if(i < lb && n < STAMP_SIZE) r.evidentialBase[n++] = b->evidentialBase[i];
    }
    return r;
}
static bool same(Stamp *a, Stamp *b) { return !memcmp(a, b, sizeof(Stamp)); }
static const char *ss(Stamp *s)
{
    static char buf[4][300]; static int k = 0; char *b = buf[k++ & 3]; int n = 0;
    b[0] = 0;
    for(int i=0; i<STAMP_SIZE; i++) n += snprintf(b+n, 300-n, i ? ",%ld" : "%ld", s->evidentialBase[i]);
    return b;
}
Stamp __real_Stamp_make(Stamp *a, Stamp *b);
Stamp __wrap_Stamp_make(Stamp *a, Stamp *b)
{
    Stamp ka = *a, kb = *b, r = __real_Stamp_make(a, b), w = zip(&ka, &kb);
    hx_count("stamp_combinations", 1);
    if(!same(&r, &w)) hx_viol("C05", "zip", "stamps [%s] and [%s] combined to [%s]", ss(&ka), ss(&kb), ss(&r));
    bool ov = overlap(&ka, &kb);
    if(ov) hx_count("overlapping_pairs_exempt", ctx != NONE && ctx <= REVISION ? 0 : 1);
    if(ov && (ctx == NONE || ctx == INDUCTION || ctx == REVISION)) hx_viol("C05", ctx == NONE ? "declarative-overlap" : ctx == INDUCTION ? "induction-overlap" : ctx == INTERSECTION ? "sequence-overlap" : "revision-overlap", "stamps [%s] and [%s] share evidence and are combined", ss(&ka), ss(&kb));
    if(ctx == NONE) last_declarative = r;
    return r;
}
bool __real_Stamp_checkOverlap(Stamp *a, Stamp *b);
bool __wrap_Stamp_checkOverlap(Stamp *a, Stamp *b)
{
    bool r = __real_Stamp_checkOverlap(a, b);
    hx_count(r ? "overlaps_found" : "overlaps_none", 1);
    if(r != overlap(a, b)) hx_viol("C05", "overlap-test", "overlap of [%s] and [%s] reported as %d", ss(a), ss(b), r);
    return r;
}
#define IN(c) int keep = ctx; ctx = c;
#define OUT ctx = keep;
static void outcome(const char *what, Stamp *r, Stamp *a, Stamp *b)
{
    Stamp w1 = zip(a, b), w2 = zip(b, a);
    if(!same(r, &w1) && !same(r, &w2)) hx_viol("C05", "conclusion-stamp", "%s of [%s] and [%s] carries [%s]", what, ss(a), ss(b), ss(r));
}
Implication __real_Inference_BeliefInduction(Event *a, Event *b, bool *s);
Implication __wrap_Inference_BeliefInduction(Event *a, Event *b, bool *s)
{
    Stamp ka = a->stamp, kb = b->stamp;
    IN(INDUCTION) Implication r = __real_Inference_BeliefInduction(a, b, s); OUT
    hx_count("inductions", 1);
    if(*s) last_induction = r.stamp;
    if(*s) { if(overlap(&ka, &kb)) hx_viol("C05", "induction-overlap", "temporal induction from [%s] and [%s]", ss(&ka), ss(&kb)); outcome("induction", &r.stamp, &ka, &kb); }
    return r;
}
Event __real_Inference_BeliefIntersection(Event *a, Event *b, bool *s);
Event __wrap_Inference_BeliefIntersection(Event *a, Event *b, bool *s)
{
    Stamp ka = a->stamp, kb = b->stamp;
    IN(INTERSECTION) Event r = __real_Inference_BeliefIntersection(a, b, s); OUT
    hx_count("sequences", 1);
    if(*s) { if(overlap(&ka, &kb)) hx_viol("C05", "sequence-overlap", "sequence of %s [%s] and %s [%s]", hx_str(&a->term), ss(&ka), hx_str(&b->term), ss(&kb)); outcome("sequence", &r.stamp, &ka, &kb); }
    return r;
}
static Event last_prediction; static bool last_prediction_overlap = false;
Event __real_Inference_RevisionAndChoice(Event *x, Event *y, long t, bool *rev);
Event __wrap_Inference_RevisionAndChoice(Event *x, Event *y, long t, bool *rev)
{
    Event kx = *x, ky = *y; bool r = false;
    IN(REVISION) Event e = __real_Inference_RevisionAndChoice(x, y, t, &r); OUT
    if(rev) *rev = r;
    hx_count("revisions_or_choices", 1);
    if(last_prediction_overlap && ky.type == EVENT_TYPE_BELIEF && ky.occurrenceTime == last_prediction.occurrenceTime && same(&ky.stamp, &last_prediction.stamp) && ky.truth.confidence == last_prediction.truth.confidence && ky.truth.frequency == last_prediction.truth.frequency)
        hx_viol("C05", "prediction-overlap", "a prediction from overlapping evidence [%s] is used", ss(&ky.stamp));
    if(kx.type == EVENT_TYPE_DELETED || e.type == EVENT_TYPE_DELETED) { if(!same(&e.stamp, &ky.stamp)) hx_viol("C05", "conclusion-stamp", "new event with [%s] is kept with [%s]", ss(&ky.stamp), ss(&e.stamp)); return e; }
    if(r)
    {
        hx_count("revisions", 1);
        if(overlap(&kx.stamp, &ky.stamp)) hx_viol("C05", "revision-overlap", "[%s] and [%s] are revised", ss(&kx.stamp), ss(&ky.stamp));
        outcome("revision", &e.stamp, &kx.stamp, &ky.stamp);
    }
    else if(!same(&e.stamp, &kx.stamp) && !same(&e.stamp, &ky.stamp)) hx_viol("C05", "conclusion-stamp", "choice between [%s] and [%s] carries [%s]", ss(&kx.stamp), ss(&ky.stamp), ss(&e.stamp));
    return e;
}
Implication __real_Inference_ImplicationRevision(Implication *a, Implication *b);
Implication __wrap_Inference_ImplicationRevision(Implication *a, Implication *b)
{
    Stamp ka = a->stamp, kb = b->stamp;
    IN(IMPREVISION) Implication r = __real_Inference_ImplicationRevision(a, b); OUT
    outcome("implication revision", &r.stamp, &ka, &kb);
    if(overlap(&ka, &kb))
    {
        static int once = 0;
        hx_count("overlapping_implications_revised", 1);
        if(!once++) hx_viol("C05", "implication-revision-overlap", "evidence [%s] and [%s] of an implication is pooled", ss(&ka), ss(&kb));
    }
    hx_count("implication_revisions", 1);
    return r;
}
/* a learned implication is only applied while its precondition concept is the one it was learned with */
static void used(const char *what, Implication *m, Term *consequence)
{
    hx_count("implications_used", 1);
    if(m->sourceConcept == NULL) { hx_viol("C10", "no-source", "%s uses %s without source", what, hx_str(&m->term)); return; }
    Concept *c = m->sourceConcept;
    if(c->id != m->sourceConceptId) { hx_viol("C10", "outdated-used", "%s uses %s, whose precondition concept was forgotten", what, hx_str(&m->term)); return; }
    bool held = false;
    for(int i=0; i<concepts.itemsAmount; i++) if(concepts.items[i].address == c) held = true;
    if(!held) hx_viol("C10", "outdated-used", "%s uses %s, whose precondition concept is not held", what, hx_str(&m->term));
}
Event __real_Inference_BeliefDeduction(Event *e, Implication *m);
Event __wrap_Inference_BeliefDeduction(Event *e, Implication *m)
{
    Stamp ka = e->stamp, kb = m->stamp;
    used("prediction", m, NULL);
    IN(BELDED) Event r = __real_Inference_BeliefDeduction(e, m); OUT
    outcome("prediction", &r.stamp, &ka, &kb);
    last_prediction = r; last_prediction_overlap = overlap(&ka, &kb);
    hx_count("predictions", 1);
    return r;
}
Event __real_Inference_GoalDeduction(Event *e, Implication *m, long t);
Event __wrap_Inference_GoalDeduction(Event *e, Implication *m, long t)
{
    Stamp ka = e->stamp, kb = m->stamp;
    used("goal deduction", m, NULL);
    IN(GOALDED) Event r = __real_Inference_GoalDeduction(e, m, t); OUT
    outcome("goal deduction", &r.stamp, &ka, &kb);
    hx_count("goal_deductions", 1);
    return r;
}
Event __real_Inference_GoalSequenceDeduction(Event *a, Event *b, long t);
Event __wrap_Inference_GoalSequenceDeduction(Event *a, Event *b, long t)
{
    Stamp ka = a->stamp, kb = b->stamp;
    IN(GOALSEQ) Event r = __real_Inference_GoalSequenceDeduction(a, b, t); OUT
    outcome("goal sequence deduction", &r.stamp, &ka, &kb);
    hx_count("goal_sequence_deductions", 1);
    return r;
}
/* inputs: a fresh id each, or the imported stamp once */
Event __real_Event_InputEvent(Term term, char type, Truth truth, double dt, long now);
Event __wrap_Event_InputEvent(Term term, char type, Truth truth, double dt, long now)
{
    long b = base; Stamp imp = importstamp;
    Event e = __real_Event_InputEvent(term, type, truth, dt, now);
    hx_count("inputs", 1);
    if(imp.evidentialBase[0])
    {
        hx_count("imported_stamps", 1);
        if(!same(&e.stamp, &imp)) hx_viol("C05", "import", "imported stamp [%s], the input carries [%s]", ss(&imp), ss(&e.stamp));
        if(importstamp.evidentialBase[0]) hx_viol("C05", "import-kept", "the imported stamp is used again");
        if(base != b) hx_viol("C05", "base", "an id was consumed by an input with imported stamp");
    }
    else
    {
        Stamp w = {0}; w.evidentialBase[0] = b;
        if(!same(&e.stamp, &w)) hx_viol("C05", "fresh-id", "input carries [%s] instead of the fresh id %ld", ss(&e.stamp), b);
        if(base != b+1) hx_viol("C05", "base", "the id counter went from %ld to %ld", b, base);
    }
    return e;
}
/* conclusions of declarative inference carry the combination of both premises' evidence, or their only premise's */
static Stamp rule_stamp; static bool in_rule = false;
void __real_RuleTable_Apply(Term term1, Term term2, Truth truth1, Truth truth2, long conclusionOccurrence, double conclusionOccurrenceOffset, Stamp conclusionStamp, long currentTime, double parentPriority, double conceptPriority, bool doublePremise, Concept *validation_concept, long validation_cid);
void __wrap_RuleTable_Apply(Term term1, Term term2, Truth truth1, Truth truth2, long conclusionOccurrence, double conclusionOccurrenceOffset, Stamp conclusionStamp, long currentTime, double parentPriority, double conceptPriority, bool doublePremise, Concept *c, long cid)
{
    bool ok = false;
    for(int i=0; i<beliefsSelectedCnt; i++)
    {
        Stamp *s = &selectedBeliefs[i].stamp;
        if(!doublePremise) ok = ok || same(s, &conclusionStamp);
        else if(c)
        {
            Event *b[2] = { &c->belief, &c->belief_spike };
            for(int k=0; k<2; k++) if(b[k]->type != EVENT_TYPE_DELETED)
            {
                Stamp w = zip(s, &b[k]->stamp), w2 = zip(&b[k]->stamp, s);
                if(same(&w, &conclusionStamp) || same(&w2, &conclusionStamp))
                {
                    ok = true;
                    if(overlap(s, &b[k]->stamp)) hx_viol("C05", "declarative-overlap", "premises [%s] and [%s] share evidence", ss(s), ss(&b[k]->stamp));
                }
            }
        }
    }
    hx_count(doublePremise ? "two_premise_inferences" : "one_premise_inferences", 1);
    if(!ok) hx_viol("C05", "conclusion-stamp", "inference with evidence [%s] which is not that of its premises", ss(&conclusionStamp));
    rule_stamp = conclusionStamp; in_rule = true;
    __real_RuleTable_Apply(term1, term2, truth1, truth2, conclusionOccurrence, conclusionOccurrenceOffset, conclusionStamp, currentTime, parentPriority, conceptPriority, doublePremise, c, cid);
    in_rule = false;
}
static Stamp derived_stamp; static bool in_derived = false;
void __real_NAL_DerivedEvent(Term conclusionTerm, long conclusionOccurrence, Truth conclusionTruth, Stamp stamp, long currentTime, double parentPriority, double conceptPriority, double occurrenceTimeOffset, Concept *validation_concept, long validation_cid, bool varIntro, bool allowOverlap);
void __wrap_NAL_DerivedEvent(Term conclusionTerm, long conclusionOccurrence, Truth conclusionTruth, Stamp stamp, long currentTime, double parentPriority, double conceptPriority, double occurrenceTimeOffset, Concept *validation_concept, long validation_cid, bool varIntro, bool allowOverlap)
{
    hx_count("conclusions", 1);
    Stamp *w = in_rule ? &rule_stamp : &last_declarative;
    if(!same(&stamp, w) && (in_rule || !same(&stamp, &last_induction))) hx_viol("C05", "conclusion-stamp", "conclusion %s with evidence [%s], premises' combination [%s]", hx_str(&conclusionTerm), ss(&stamp), ss(w));
    derived_stamp = stamp; in_derived = true;
    __real_NAL_DerivedEvent(conclusionTerm, conclusionOccurrence, conclusionTruth, stamp, currentTime, parentPriority, conceptPriority, occurrenceTimeOffset, validation_concept, validation_cid, varIntro, allowOverlap);
    in_derived = false;
}
static Implication *entry_of(Term *t)
{
    Term post = Term_ExtractSubterm(t, 2);
    Concept *c = Memory_FindConceptByTerm(&post);
    if(c) for(int o=0; o<=OPERATIONS_MAX; o++) for(int i=0; i<c->precondition_beliefs[o].itemsAmount; i++) if(!memcmp(c->precondition_beliefs[o].array[i].term.atoms, t->atoms, sizeof(t->atoms))) return &c->precondition_beliefs[o].array[i];
    return NULL;
}
void __real_Memory_AddEvent(Event *event, long currentTime, double priority, bool input, bool derived, bool revised, int layer);
void __wrap_Memory_AddEvent(Event *event, long currentTime, double priority, bool input, bool derived, bool revised, int layer)
{
    if(in_derived && !same(&event->stamp, &derived_stamp)) hx_viol("C05", "conclusion-stamp", "derived event %s enters memory with [%s] instead of [%s]", hx_str(&event->term), ss(&event->stamp), ss(&derived_stamp));
    if(!(event->truth.frequency >= 0 && event->truth.frequency <= 1 && event->truth.confidence >= 0 && event->truth.confidence < 1)) hx_viol("C03", "event-truth", "event %s enters memory with truth %g %g", hx_str(&event->term), event->truth.frequency, event->truth.confidence);
    if(!(priority >= 0 && priority <= 1)) hx_viol("C03", "event-priority", "event %s enters memory with priority %g", hx_str(&event->term), priority);
    if(!isfinite(event->occurrenceTimeOffset)) hx_viol("C03", "offset", "event %s enters memory with time offset %g", hx_str(&event->term), event->occurrenceTimeOffset);
    bool kd = in_derived, kr = in_rule;
    last_prediction_overlap = false;
    in_derived = false; in_rule = false;
    /* an implication which gains evidence is usable again, even if its entry was outdated */
    Term t = event->term; Implication *entry = event->type == EVENT_TYPE_BELIEF && Narsese_copulaEquals(t.atoms[0], TEMPORAL_IMPLICATION) ? entry_of(&t) : NULL, old = {0};
    if(entry) old = *entry;
    __real_Memory_AddEvent(event, currentTime, priority, input, derived, revised, layer);
    if(entry && (entry = entry_of(&t)) && (entry->truth.confidence != old.truth.confidence || !same(&entry->stamp, &old.stamp)))
    {
        hx_count(Memory_ImplicationValid(&old) ? "entries_confirmed" : "outdated_entries_confirmed", 1);
        if(!Memory_ImplicationValid(entry)) hx_viol("C10", "revised-outdated", "%s gained evidence but its entry stays outdated", hx_str(&t));
    }
    in_derived = kd; in_rule = kr;
}
