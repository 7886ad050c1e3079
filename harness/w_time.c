/* Occurrence times and projection in the running reasoner. */
#include "hx.h"
#include <math.h>
/* signatures as declared by the tree; anything else does not compile */
__typeof__(Memory_AddInputEvent) __wrap_Memory_AddInputEvent;
__typeof__(RuleTable_Apply) __wrap_RuleTable_Apply;
__typeof__(NAL_DerivedEvent) __wrap_NAL_DerivedEvent;
__typeof__(Memory_AddEvent) __wrap_Memory_AddEvent;
__typeof__(Inference_BeliefIntersection) __wrap_Inference_BeliefIntersection;
__typeof__(Inference_BeliefDeduction) __wrap_Inference_BeliefDeduction;
__typeof__(Inference_GoalDeduction) __wrap_Inference_GoalDeduction;
__typeof__(Inference_GoalSequenceDeduction) __wrap_Inference_GoalSequenceDeduction;
static bool near(double a, double b) { return fabs(a-b) <= 1e-9; }
static double proj(double c, long from, long to) { return from == OCCURRENCE_ETERNAL || to == OCCURRENCE_ETERNAL ? c : c * pow(0.8, labs(to-from)); }
static bool sameterm(Term *a, Term *b) { return !memcmp(a->atoms, b->atoms, sizeof(a->atoms)); }
void __real_Memory_AddInputEvent(Event *event, long now);
void __wrap_Memory_AddInputEvent(Event *event, long now)
{
    hx_count("input_events", 1);
    if(now != currentTime) hx_viol("C13", "input-clock", "input processed with clock %ld at time %ld", now, currentTime);
    if(event->occurrenceTime != OCCURRENCE_ETERNAL && event->occurrenceTime != currentTime) hx_viol("C13", "input-occurrence", "%s was input at %ld but occurs at %ld", hx_str(&event->term), currentTime, event->occurrenceTime);
    if(event->creationTime != currentTime) hx_viol("C13", "input-creation", "%s was input at %ld but created at %ld", hx_str(&event->term), currentTime, event->creationTime);
    __real_Memory_AddInputEvent(event, now);
}
static bool in_rule = false; static long rule_occ;
void __real_RuleTable_Apply(Term term1, Term term2, Truth truth1, Truth truth2, long occ, double off, Stamp stamp, long now, double pp, double cp, bool two, Concept *c, long cid);
void __wrap_RuleTable_Apply(Term term1, Term term2, Truth truth1, Truth truth2, long occ, double off, Stamp stamp, long now, double pp, double cp, bool two, Concept *c, long cid)
{
    bool ok = false; const char *why = "is not a selected event";
    for(int i=0; i<beliefsSelectedCnt && !ok; i++)
    {
        Event *e = &selectedBeliefs[i];
        if(!sameterm(&e->term, &term1)) continue;
        if(e->occurrenceTime != occ) { why = "has another time than its conclusions"; continue; }
        if(e->truth.frequency != truth1.frequency || e->truth.confidence != truth1.confidence) { why = "is used with another truth value"; continue; }
        ok = true;
        if(two && c)
        {
            bool spike = occ != OCCURRENCE_ETERNAL && c->belief_spike.type != EVENT_TYPE_DELETED && labs(occ - c->belief_spike.occurrenceTime) < EVENT_BELIEF_DISTANCE;
            double f = spike ? c->belief_spike.truth.frequency : c->belief.truth.frequency, cc = spike ? proj(c->belief_spike.truth.confidence, c->belief_spike.occurrenceTime, occ) : c->belief.truth.confidence;
            hx_count(spike ? (c->belief_spike.occurrenceTime == occ ? "premise_events_same_time" : "premise_events_projected") : occ == OCCURRENCE_ETERNAL ? "eternal_with_eternal" : "event_with_eternal", 1);
            if(!near(truth2.frequency, f) || !near(truth2.confidence, cc))
                hx_viol("C13", spike ? "event-premise" : "eternal-premise", "%s (%s of time %ld, confidence %g) is used at %ld with (%g,%g), expected (%g,%g)", hx_str(&term2), spike ? "event" : "belief", c->belief_spike.occurrenceTime, c->belief_spike.truth.confidence, occ, truth2.frequency, truth2.confidence, f, cc);
        }
    }
    if(!ok) hx_viol("C13", "premise", "premise %s at %ld %s", hx_str(&term1), occ, why);
    if(now != currentTime) hx_count("nested_steps", 1);
    in_rule = true; rule_occ = occ;
    __real_RuleTable_Apply(term1, term2, truth1, truth2, occ, off, stamp, now, pp, cp, two, c, cid);
    /* the special inferences with the same premises follow */
    in_rule = two;
}
static bool in_derived = false; static long derived_occ;
void __real_NAL_DerivedEvent(Term t, long occ, Truth tv, Stamp s, long now, double pp, double cp, double off, Concept *c, long cid, bool vi, bool oe);
void __wrap_NAL_DerivedEvent(Term t, long occ, Truth tv, Stamp s, long now, double pp, double cp, double off, Concept *c, long cid, bool vi, bool oe)
{
    bool temporal = Narsese_copulaEquals(t.atoms[0], TEMPORAL_IMPLICATION) && c == NULL;
    hx_count(temporal ? "temporal_conclusions" : occ == OCCURRENCE_ETERNAL ? "eternal_conclusions" : "event_conclusions", 1);
    if(!temporal && !in_rule) hx_viol("C13", "conclusion-origin", "conclusion %s outside of an inference", hx_str(&t));
    if(!temporal && occ != rule_occ) hx_viol("C13", "conclusion-occurrence", "premise at %ld, conclusion %s at %ld", rule_occ, hx_str(&t), occ);
    bool kd = in_derived; long ko = derived_occ;
    in_derived = true; derived_occ = occ;
    __real_NAL_DerivedEvent(t, occ, tv, s, now, pp, cp, off, c, cid, vi, oe);
    in_derived = kd; derived_occ = ko;
}
void __real_Memory_AddEvent(Event *event, long now, double priority, bool input, bool derived, bool revised, int layer);
void __wrap_Memory_AddEvent(Event *event, long now, double priority, bool input, bool derived, bool revised, int layer)
{
    if(in_derived && event->occurrenceTime != derived_occ) hx_viol("C13", "stored-occurrence", "conclusion %s at %ld enters memory at %ld", hx_str(&event->term), derived_occ, event->occurrenceTime);
    if(event->type == EVENT_TYPE_GOAL && event->occurrenceTime == OCCURRENCE_ETERNAL) hx_viol("C13", "eternal-goal", "goal %s is eternal", hx_str(&event->term));
    Term t = event->term; long occ = event->occurrenceTime; Truth tv = event->truth; Stamp s = event->stamp; bool belief = event->type == EVENT_TYPE_BELIEF;
    Concept *c = Memory_FindConceptByTerm(&t); long cid = c ? c->id : -1; bool before = c && c->belief.type != EVENT_TYPE_DELETED;
    bool kd = in_derived; in_derived = false;
    __real_Memory_AddEvent(event, now, priority, input, derived, revised, layer);
    in_derived = kd;
    /* the first information about a statement: its eternal form and its event form */
    c = Memory_FindConceptByTerm(&t);
    if(belief && !before && c && c->belief.type != EVENT_TYPE_DELETED && (cid == -1 || c->id == cid) && !memcmp(&c->belief.stamp, &s, sizeof(Stamp)))
    {
        double want = occ == OCCURRENCE_ETERNAL ? tv.confidence : tv.confidence/(tv.confidence+1);
        hx_count(occ == OCCURRENCE_ETERNAL ? "eternal_stored" : "event_eternalized", 1);
        if(c->belief.occurrenceTime != OCCURRENCE_ETERNAL || !near(c->belief.truth.frequency, tv.frequency) || !near(c->belief.truth.confidence, want)) hx_viol("C13", "eternal-form", "%s (%g,%g)@%ld is held as (%g,%g)@%ld", hx_str(&t), tv.frequency, tv.confidence, occ, c->belief.truth.frequency, c->belief.truth.confidence, c->belief.occurrenceTime);
        if(occ == OCCURRENCE_ETERNAL && cid == -1 && (c->belief_spike.type != EVENT_TYPE_DELETED || c->predicted_belief.type != EVENT_TYPE_DELETED)) hx_viol("C13", "event-from-eternal", "eternal %s became an event", hx_str(&t));
    }
}
Event __real_Inference_BeliefIntersection(Event *a, Event *b, bool *s);
Event __wrap_Inference_BeliefIntersection(Event *a, Event *b, bool *s)
{
    Event ka = *a, kb = *b, r = __real_Inference_BeliefIntersection(a, b, s);
    if(*s)
    {
        hx_count("sequences", 1);
        double c = proj(ka.truth.confidence, ka.occurrenceTime, kb.occurrenceTime) * kb.truth.confidence;
        if(r.occurrenceTime != kb.occurrenceTime || !near(r.truth.confidence, c) || !near(r.truth.frequency, ka.truth.frequency*kb.truth.frequency)) hx_viol("C13", "sequence-time", "sequence of (%g)@%ld and (%g)@%ld is (%g)@%ld", ka.truth.confidence, ka.occurrenceTime, kb.truth.confidence, kb.occurrenceTime, r.truth.confidence, r.occurrenceTime);
    }
    return r;
}
Event __real_Inference_BeliefDeduction(Event *e, Implication *m);
Event __wrap_Inference_BeliefDeduction(Event *e, Implication *m)
{
    Event k = *e, r = __real_Inference_BeliefDeduction(e, m);
    hx_count("predictions", 1);
    if(k.occurrenceTime == OCCURRENCE_ETERNAL ? r.occurrenceTime != OCCURRENCE_ETERNAL : fabs(r.occurrenceTime - (k.occurrenceTime + m->occurrenceTimeOffset)) >= 1.0 + 1e-6) hx_viol("C13", "prediction-time", "%ld plus %g is predicted for %ld", k.occurrenceTime, m->occurrenceTimeOffset, r.occurrenceTime);
    return r;
}
Event __real_Inference_GoalDeduction(Event *e, Implication *m, long t);
Event __wrap_Inference_GoalDeduction(Event *e, Implication *m, long t)
{
    Event r = __real_Inference_GoalDeduction(e, m, t);
    hx_count("goal_deductions", 1);
    if(r.occurrenceTime != t) hx_viol("C13", "goal-time", "goal derived at %ld occurs at %ld", t, r.occurrenceTime);
    return r;
}
Event __real_Inference_GoalSequenceDeduction(Event *a, Event *b, long t);
Event __wrap_Inference_GoalSequenceDeduction(Event *a, Event *b, long t)
{
    Event r = __real_Inference_GoalSequenceDeduction(a, b, t);
    hx_count("goal_sequence_deductions", 1);
    if(r.occurrenceTime != t) hx_viol("C13", "goal-time", "goal derived at %ld occurs at %ld", t, r.occurrenceTime);
    return r;
}
