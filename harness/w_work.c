/* Work per step: how many events are selected, concepts matched, rules applied, steps made, basic blocks executed. */
#include "ora.h"
#include <stddef.h>
#include <stdint.h>
__typeof__(Cycle_Perform) __wrap_Cycle_Perform;
__typeof__(RuleTable_Apply) __wrap_RuleTable_Apply;
__typeof__(PriorityQueue_PopMax) __wrap_PriorityQueue_PopMax;
__typeof__(Memory_Conceptualize) __wrap_Memory_Conceptualize;
__typeof__(Variable_Unify) __wrap_Variable_Unify;
__typeof__(Decision_Execute) __wrap_Decision_Execute;
__typeof__(Decision_Suggest) __wrap_Decision_Suggest;
__typeof__(Decision_Anticipate) __wrap_Decision_Anticipate;
__typeof__(Memory_AddEvent) __wrap_Memory_AddEvent;
typedef struct { int pops[CYCLING_GOAL_EVENTS_LAYERS+1]; bool goals; int events, doubles, passes; long executions, adds; Event event; double prio; long ids[4*BELIEF_CONCEPT_MATCH_TARGET]; int nids; } Frame;
static Frame frames[8]; static int depth = 0; static Frame none; static Frame *F = &none;
static long topsteps = 0, blocks = 0, limit = 0, maxblocks = 0, nestedsteps = 0; static bool counting = false;
#define NOCOV __attribute__((no_sanitize("coverage")))
static void over(void);
NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for(; a < b; a++) *a = 1; }
NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if(counting) { blocks++; if(limit && blocks > limit) over(); } }
static void over(void)
{
    counting = false;
    hx_viol("C28", "endless", "a step is still at work after %ld basic blocks", blocks);
    printf("@@{\"k\":\"stopped\"}\n");
    fflush(stdout);
    _Exit(0);
}
/* visits of concepts per processed event */
#define NV 8192
static bool anticipating;
static void *visited[NV]; static int nvisited = 0; static Term *subject = NULL;
static bool isconcept(Term *t)
{
    char *p = (char*) t - offsetof(Concept, term);
    for(int i=0; i<concepts.itemsAmount; i++) if(concepts.items[i].address == (void*) p) return true;
    return false;
}
Concept *__real_Memory_Conceptualize(Term *t, long now);
Concept *__wrap_Memory_Conceptualize(Term *t, long now) { nvisited = 0; subject = NULL; return __real_Memory_Conceptualize(t, now); }
Substitution __real_Variable_Unify(Term *a, Term *b);
Substitution __wrap_Variable_Unify(Term *a, Term *b)
{
    bool keep = counting; counting = false;
    if(depth && !anticipating && !F->goals && F->pops[0] && !F->events && isconcept(a) && !isconcept(b))
    {
        if(subject != b) { subject = b; nvisited = 0; }
        for(int i=0; i<nvisited; i++) if(visited[i] == (void*) a) { hx_viol("C28", "revisited", "the event %s was matched twice with concept %s", hx_str(b), hx_str(a)); break; }
        if(nvisited < NV) visited[nvisited++] = a;
        if(nvisited > CONCEPTS_MAX) hx_viol("C28", "visits", "the event %s was matched with %d concepts", hx_str(b), nvisited);
        hx_count("visits", 1);
    }
    counting = keep;
    return __real_Variable_Unify(a, b);
}
void __real_Decision_Anticipate(int op, Term opterm, bool declarative, long now);
static bool anticipating = false;
void __wrap_Decision_Anticipate(int op, Term opterm, bool declarative, long now) { anticipating = true; __real_Decision_Anticipate(op, opterm, declarative, now); anticipating = false; }
bool __real_PriorityQueue_PopMax(PriorityQueue *q, void **a, double *p);
bool __wrap_PriorityQueue_PopMax(PriorityQueue *q, void **a, double *p)
{
    bool r = __real_PriorityQueue_PopMax(q, a, p);
    int l = q == &cycling_belief_events ? 0 : q >= &cycling_goal_events[0] && q < &cycling_goal_events[CYCLING_GOAL_EVENTS_LAYERS] ? 1 + (int) (q - &cycling_goal_events[0]) : -1;
    if(l > 0) F->goals = true;
    if(l >= 0 && r)
    {
        F->pops[l]++; hx_count(l ? "goals_selected" : "beliefs_selected", 1);
        if(!l && F->pops[0] > BELIEF_EVENT_SELECTIONS) hx_viol("C28", "beliefs", "%d belief events were selected in a step", F->pops[0]);
        if(l && F->pops[l] > GOAL_EVENT_SELECTIONS) hx_viol("C28", "goals", "%d goal events were selected in layer %d", F->pops[l], l-1);
    }
    return r;
}
void __real_RuleTable_Apply(Term term1, Term term2, Truth truth1, Truth truth2, long o, double dt, Stamp stamp, long now, double parent, double cprio, bool doublep, Concept *c, long id);
void __wrap_RuleTable_Apply(Term term1, Term term2, Truth truth1, Truth truth2, long o, double dt, Stamp stamp, long now, double parent, double cprio, bool doublep, Concept *c, long id)
{
    bool keep = counting; counting = false;
    if(depth && !doublep)
    {
        bool again = F->events && o_same(&F->event.term, &term1) && F->event.occurrenceTime == o && o_samestamp(&F->event.stamp, &stamp) && F->event.truth.confidence == truth1.confidence && F->event.truth.frequency == truth1.frequency && F->prio == parent;
        if(!again)
        {
            F->events++; F->doubles = F->passes = F->nids = 0;
            F->event = (Event) { .term = term1, .truth = truth1, .stamp = stamp, .occurrenceTime = o }; F->prio = parent;
            hx_count("inferences", 1);
            if(F->events > BELIEF_EVENT_SELECTIONS) hx_viol("C28", "inferences", "%d events entered inference in a step", F->events);
        }
        F->passes++;
        if(F->passes > BELIEF_CONCEPT_MATCH_TARGET + 2) hx_viol("C28", "passes", "%d passes over the concepts related to %s", F->passes, hx_str(&term1));
    }
    if(depth && doublep)
    {
        F->doubles++; hx_count("matches", 1);
        if(F->doubles > BELIEF_CONCEPT_MATCH_TARGET) hx_viol("C28", "matches", "%s was matched with %d beliefs", hx_str(&term1), F->doubles);
        if(F->doubles == BELIEF_CONCEPT_MATCH_TARGET) hx_count("match_target_reached", 1);
        for(int i=0; i<F->nids; i++) if(F->ids[i] == id) hx_viol("C28", "matched-twice", "%s was matched twice with the belief of %s", hx_str(&term1), hx_str(&term2));
        if(F->nids < 4*BELIEF_CONCEPT_MATCH_TARGET) F->ids[F->nids++] = id;
        if(!o_same(&F->event.term, &term1)) hx_viol("C28", "unselected", "inference with %s, selected was %s", hx_str(&term1), hx_str(&F->event.term));
    }
    counting = keep;
    __real_RuleTable_Apply(term1, term2, truth1, truth2, o, dt, stamp, now, parent, cprio, doublep, c, id);
}
void __real_Memory_AddEvent(Event *event, long now, double priority, bool input, bool derived, bool revised, int layer);
void __wrap_Memory_AddEvent(Event *event, long now, double priority, bool input, bool derived, bool revised, int layer)
{
    F->adds++;
    __real_Memory_AddEvent(event, now, priority, input, derived, revised, layer);
}
Decision __real_Decision_Suggest(Concept *c, Event *goal, long now);
Decision __wrap_Decision_Suggest(Concept *c, Event *goal, long now) { hx_count("suggestions", 1); return __real_Decision_Suggest(c, goal, now); }
void __real_Decision_Execute(long now, Decision *d);
void __wrap_Decision_Execute(long now, Decision *d)
{
    F->executions++; hx_count("executions", 1);
    if(F->executions > CYCLING_GOAL_EVENTS_LAYERS * GOAL_EVENT_SELECTIONS) hx_viol("C28", "executions", "%ld decisions were executed in a step", F->executions);
    __real_Decision_Execute(now, d);
}
void __real_Cycle_Perform(long now);
void __wrap_Cycle_Perform(long now)
{
    if(depth == 0) { topsteps++; blocks = 0; nestedsteps = 0; } else nestedsteps++;
    if(depth + 1 >= 8) { hx_viol("C28", "nested", "steps nest %d deep", depth + 1); over(); }
    Frame *keep = F;
    F = &frames[depth++]; memset(F, 0, sizeof(*F));
    if(depth > 2) hx_viol("C28", "nested", "steps nest %d deep", depth);
    if(nestedsteps > CYCLING_GOAL_EVENTS_LAYERS * GOAL_EVENT_SELECTIONS * MAX_COMPOUND_OP_LEN) hx_viol("C28", "nested-steps", "%ld steps within a step", nestedsteps);
    counting = true;
    __real_Cycle_Perform(now);
    counting = depth > 1;
    hx_count("steps", 1);
    depth--; F = keep;
    if(depth == 0)
    {
        if(blocks > maxblocks) maxblocks = blocks;
        hx_count("kiloblocks", blocks / 1000);
        if(concepts.itemsAmount == CONCEPTS_MAX) hx_count("steps_full", 1);
    }
}
static long linestart = 0, timestart = 0, windowblocks = 0;
void hx_begin_line(const char *line) { topsteps = 0; timestart = currentTime; }
void hx_end_line(const char *line)
{
    /* what a line makes the reasoner do */
    long expect = -1; size_t L = strlen(line);
    bool digits = L > 0; for(size_t i=0; i<L; i++) digits &= line[i] >= '0' && line[i] <= '9';
    const char *q = strrchr(line, '?');
    if(digits && L < 9) expect = atol(line);
    else if(line[0] == '/' && line[1] == '/') expect = 0;
    else if(line[0] == '*' || line[0] == 'q') expect = 0;
    else if(q && (!q[1] || q[1] == ' ')) expect = 0;
    else if(L && (line[0] == '<' || line[0] == '(' || line[0] == '^')) expect = 1;
    if(expect >= 0 && topsteps != expect) hx_viol("C28", "steps", "the line made %ld steps, not %ld", topsteps, expect);
    hx_count("lines", 1);
}
int hx_command(char **f, int n)
{
    if(!strcmp(f[0], "limit")) { limit = atol(f[1]); return 1; }
    if(!strcmp(f[0], "work")) { printf("@@{\"k\":\"work\",\"max\":%ld}\n", maxblocks); maxblocks = 0; return 1; }
    return 0;
}
