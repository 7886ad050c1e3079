/* Inference records: every application of the rule table (and the inferences with unification which follow it for the same
   premises) with everything memory is given until the next application. The premises themselves are judged here. */
#include "hx.h"
#include "RuleTable.h"
#include "ora.h"
__typeof__(RuleTable_Apply) __wrap_RuleTable_Apply;
__typeof__(Memory_AddEvent) __wrap_Memory_AddEvent;
__typeof__(Cycle_Perform) __wrap_Cycle_Perform;
#define OUTMAX 400
static struct { Event e; double p; bool input, derived, revised; int layer; bool eternal; } outs[OUTMAX];
static int nout = 0;
static bool open = false, direct = false, dbl = false;
static Term pt1, pt2; static Truth pv1, pv2; static long pocc, pnow; static double poff, ppp, pcp; static Stamp pst; static Concept *pc; static long pcid;
/* one pass: the applications for one selected belief */
static struct { bool on, judge; Term t; Truth v; long occ; Stamp s; double off; } pass;
static struct { long id; Concept *c; Event b, sp; bool done; } cand[CONCEPTS_MAX];
static int ncand = 0;
static bool spoiled = false;           /* the attention threshold was raised at some time */

static void flush()
{
    if(!open) return;
    open = false;
    bool recycled = !direct && dbl && (pc == NULL || pc->id != pcid);
    printf("@@{\"k\":\"rt\",\"d\":%d,\"t1\":", dbl); hx_term(&pt1); printf(",\"t2\":"); hx_term(&pt2);
    printf(",\"v1\":["); hx_num(pv1.frequency); printf(","); hx_num(pv1.confidence); printf("],\"v2\":["); hx_num(pv2.frequency); printf(","); hx_num(pv2.confidence);
    printf("],\"o\":%ld,\"off\":", pocc); hx_num(poff); printf(",\"s\":"); hx_stamp(&pst);
    printf(",\"now\":%ld,\"pp\":", pnow); hx_num(ppp); printf(",\"cp\":"); hx_num(pcp);
    printf(",\"rec\":%d,\"full\":%d,\"out\":[", recycled, nout >= OUTMAX);
    for(int i=0; i<nout; i++)
    {
        if(i) printf(",");
        printf("{\"e\":"); hx_event(&outs[i].e); printf(",\"p\":"); hx_num(outs[i].p);
        printf(",\"fl\":[%d,%d,%d,%d]}", outs[i].input, outs[i].derived, outs[i].revised, outs[i].layer);
    }
    printf("]}\n");
    nout = 0;
}
static bool shares(Term *a, Term *b)
{
    for(int i=0; i<UNIFICATION_DEPTH; i++) if(Narsese_IsSimpleAtom(a->atoms[i])) for(int j=0; j<UNIFICATION_DEPTH; j++) if(a->atoms[i] == b->atoms[j]) return true;
    return false;
}
static bool overlaps(Stamp *a, Stamp *b)
{
    for(int i=0; i<STAMP_SIZE; i++) for(int j=0; j<STAMP_SIZE; j++) if(a->evidentialBase[i] && a->evidentialBase[i] == b->evidentialBase[j]) return true;
    return false;
}
/* the belief of a concept an event (or eternal belief) is combined with */
static Event premise(Concept *c, long occ)
{
    Event b = c->belief;
    if(occ != OCCURRENCE_ETERNAL && c->belief_spike.type != EVENT_TYPE_DELETED)
    {
        long d = occ - c->belief_spike.occurrenceTime;
        if(d < 0) d = -d;
        if(d < EVENT_BELIEF_DISTANCE)
        {
            b = c->belief_spike;
            if(b.occurrenceTime != OCCURRENCE_ETERNAL) b.truth.confidence *= pow(0.8, d);
            b.occurrenceTime = occ;
        }
    }
    return b;
}
static bool same(double a, double b) { return fabs(a-b) <= 1e-9*(fabs(a)+fabs(b)) + 1e-12; }
static void endpass()
{
    flush();
    if(!pass.on) return;
    pass.on = false;
    if(conceptPriorityThreshold > 0) spoiled = true;
    int related = 0;                   /* the bound counts concepts without belief as well */
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address;
        if(shares(&pass.t, &c->term) || Term_Equal(&pass.t, &c->term)) related++;
    }
    if(!pass.judge || spoiled || concepts.itemsAmount >= CONCEPTS_MAX || related >= BELIEF_CONCEPT_MATCH_TARGET) return;
    hx_count("selected_beliefs_judged", 1);
    for(int i=0; i<ncand; i++)
    {
        if(cand[i].c->id != cand[i].id || memcmp(&cand[i].b, &cand[i].c->belief, sizeof(Event)) || memcmp(&cand[i].sp, &cand[i].c->belief_spike, sizeof(Event))) continue;
        Event b = premise(cand[i].c, pass.occ);
        if(overlaps(&pass.s, &b.stamp)) continue;
        if(cand[i].done) hx_count("partners_met", 1);
        else hx_viol("C06", "partner", "the selected belief %s is not combined with the belief of %s", hx_str(&pass.t), hx_str(&cand[i].c->term));
    }
}
static void startpass()
{
    /* the loop applies the single-premise rules again whenever new concepts matched: that is the same pass */
    if(pass.on && Term_Equal(&pass.t, &pt1) && !memcmp(&pass.s, &pst, sizeof(Stamp)) && pass.occ == pocc && pass.v.confidence == pv1.confidence) return;
    endpass();
    pass.on = true; pass.t = pt1; pass.v = pv1; pass.occ = pocc; pass.s = pst;
    if(conceptPriorityThreshold > 0) spoiled = true;
    pass.judge = concepts.itemsAmount < CONCEPTS_MAX;
    ncand = 0;
    bool known = false;
    for(int i=0; i<beliefsSelectedCnt; i++)
    {
        Event *e = &selectedBeliefs[i];
        if(Term_Equal(&e->term, &pt1) && e->truth.frequency == pv1.frequency && e->truth.confidence == pv1.confidence && e->occurrenceTime == pocc && !memcmp(&e->stamp, &pst, sizeof(Stamp)))
        {
            known = true;
            pass.off = e->occurrenceTimeOffset;
        }
    }
    if(!known) hx_viol("C06", "premise-selected", "the rules are applied to %s with a truth value, time or evidence that no selected belief has", hx_str(&pt1));
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address;
        if(c->belief.type == EVENT_TYPE_DELETED || !(shares(&pt1, &c->term) || Term_Equal(&pt1, &c->term))) continue;
        cand[ncand].id = c->id; cand[ncand].c = c; cand[ncand].b = c->belief; cand[ncand].sp = c->belief_spike; cand[ncand].done = false;
        ncand++;
    }
}
static void partner(Concept *c)
{
    if(c == NULL) { hx_viol("C06", "premise-concept", "two premises without a concept"); return; }
    for(int i=0; i<ncand; i++) if(cand[i].id == c->id) cand[i].done = true;
    if(!Term_Equal(&c->term, &pt2)) hx_viol("C06", "premise-term", "second premise %s is not the concept's term %s", hx_str(&pt2), hx_str(&c->term));
    if(!pass.on || !Term_Equal(&pass.t, &pt1) || pass.v.frequency != pv1.frequency || pass.v.confidence != pv1.confidence || pass.occ != pocc) hx_viol("C06", "premise-first", "first premise %s is not the selected belief", hx_str(&pt1));
    if(!shares(&pt1, &pt2) && !Term_Equal(&pt1, &pt2)) hx_viol("C06", "premise-unrelated", "%s and %s have nothing in common", hx_str(&pt1), hx_str(&pt2));
    Event b = premise(c, pocc);
    if(!same(b.truth.frequency, pv2.frequency) || !same(b.truth.confidence, pv2.confidence))
        hx_viol("C06", "premise-truth", "second premise %s has truth (%.9g, %.9g), the concept's belief (%.9g, %.9g)", hx_str(&pt2), pv2.frequency, pv2.confidence, b.truth.frequency, b.truth.confidence);
    if(overlaps(&pass.s, &b.stamp)) hx_viol("C06", "premise-overlap", "%s and %s share evidence", hx_str(&pt1), hx_str(&pt2));
    Stamp want = o_zip(&pass.s, &b.stamp);
    if(memcmp(&want, &pst, sizeof(Stamp))) hx_viol("C06", "premise-stamp", "the evidence of %s and %s is not what their conclusions are given", hx_str(&pt1), hx_str(&pt2));
    if(pcp != c->priority) hx_viol("C06", "premise-priority", "concept priority %.9g given as %.9g", c->priority, pcp);
    if(poff != pass.off) hx_viol("C06", "premise-offset", "time offset of the first premise %.9g given as %.9g", pass.off, poff);
    hx_count("premise_pairs", 1);
}
void __real_RuleTable_Apply(Term term1, Term term2, Truth truth1, Truth truth2, long conclusionOccurrence, double occurrenceTimeOffset, Stamp conclusionStamp, long currentTime, double parentPriority, double conceptPriority, bool doublePremise, Concept *validation_concept, long validation_cid);
void __wrap_RuleTable_Apply(Term term1, Term term2, Truth truth1, Truth truth2, long conclusionOccurrence, double occurrenceTimeOffset, Stamp conclusionStamp, long currentTime_, double parentPriority, double conceptPriority, bool doublePremise, Concept *validation_concept, long validation_cid)
{
    flush();
    pt1 = term1; pt2 = term2; pv1 = truth1; pv2 = truth2; pocc = conclusionOccurrence; poff = occurrenceTimeOffset; pst = conclusionStamp; pnow = currentTime_;
    ppp = parentPriority; pcp = conceptPriority; dbl = doublePremise; pc = validation_concept; pcid = validation_cid;
    if(!direct)
    {
        if(!dbl) startpass(); else partner(validation_concept);
        if(currentTime_ != currentTime) hx_viol("C06", "premise-now", "inference at time %ld is told it were %ld", currentTime, currentTime_);
    }
    open = true;
    __real_RuleTable_Apply(term1, term2, truth1, truth2, conclusionOccurrence, occurrenceTimeOffset, conclusionStamp, currentTime_, parentPriority, conceptPriority, doublePremise, validation_concept, validation_cid);
}
void __real_Memory_AddEvent(Event *event, long currentTime, double priority, bool input, bool derived, bool revised, int layer);
void __wrap_Memory_AddEvent(Event *event, long currentTime_, double priority, bool input, bool derived, bool revised, int layer)
{
    if(open && nout < OUTMAX)
    {
        outs[nout].e = *event; outs[nout].p = priority; outs[nout].input = input; outs[nout].derived = derived; outs[nout].revised = revised; outs[nout].layer = layer;
        nout++;
    }
    if(!direct) __real_Memory_AddEvent(event, currentTime_, priority, input, derived, revised, layer);
}
void __real_Cycle_Perform(long currentTime);
void __wrap_Cycle_Perform(long currentTime_)
{
    endpass();
    __real_Cycle_Perform(currentTime_);
    endpass();
}
void hx_begin_line(const char *line)
{
    endpass();
}
void hx_end_line(const char *line)
{
    endpass();
    if(!strcmp(line, "*reset")) spoiled = false;
}
/* @rt  term1 term2|- f1 c1 f2 c2 [validation: ok|stale] : the rule table alone, memory untouched */
int hx_command(char **f, int n)
{
    if(strcmp(f[0], "rt")) return 0;
    static Concept fake;
    Term t1 = hx_parse(f[1]), t2 = {0};
    bool two = strcmp(f[2], "-");
    if(two) t2 = hx_parse(f[2]);
    Truth v1 = { strtod(f[3], NULL), strtod(f[4], NULL) }, v2 = { strtod(f[5], NULL), strtod(f[6], NULL) };
    fake.id = 7;
    direct = true;
    RuleTable_Apply(t1, t2, v1, v2, 17, 3, (Stamp) { .evidentialBase = { 5, 9, 4 } }, 23, 0.5, 0.25, two, n > 7 ? &fake : NULL, n > 7 && !strcmp(f[7], "stale") ? 6 : 7);
    flush();
    direct = false;
    return 1;
}
