/* Decisions: every suggestion is recomputed from memory, the best one is executed once, its report is what happened. */
#include "ora.h"
/* signatures as declared by the tree; anything else does not compile */
__typeof__(Decision_Suggest) __wrap_Decision_Suggest;
__typeof__(NAR_AddInputBelief) __wrap_NAR_AddInputBelief;
__typeof__(Decision_Execute) __wrap_Decision_Execute;
__typeof__(PriorityQueue_PopMax) __wrap_PriorityQueue_PopMax;
__typeof__(Cycle_Perform) __wrap_Cycle_Perform;
#define MAXC 4000
typedef struct { double desire; int op; Term args; Term prec; } Cand;
static Cand cand[MAXC]; static int ncand; static bool unclear;
static int opleaves(Term *t, Term *out, int n)
{
    if(o_cop(t, "+")) { Term l = o_sub(t, 1), r = o_sub(t, 2); n = opleaves(&l, out, n); return opleaves(&r, out, n); }
    if(o_isop(t) && n < 16) out[n++] = *t;
    return n;
}
static int opnumber(Term *op)
{
    Atom a = o_name(op->atoms[0])[0] == '^' ? op->atoms[0] : op->atoms[2];
    for(int k=0; k<OPERATIONS_MAX; k++) if(operations[k].term.atoms[0] == a) return k+1;
    return 0;
}
/* would executing this hurt other goals more than it helps? */
static bool vetoed(int op, Term *imp)
{
    Event all = {0}; Term mine[16], other[16], s = o_sub(imp, 1); int n = opleaves(&s, mine, 0);
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address;
        if(c->goal_spike.type == EVENT_TYPE_DELETED || currentTime - c->goal_spike.occurrenceTime >= 20) continue;
        for(int j=0; j<c->precondition_beliefs[op].itemsAmount; j++)
        {
            Implication *m = &c->precondition_beliefs[op].array[j];
            if(!o_valid(m)) continue;
            Concept *p = m->sourceConcept;
            if(p->belief_spike.type == EVENT_TYPE_DELETED || currentTime - p->belief_spike.occurrenceTime >= 20) continue;
            Term ms = o_sub(&m->term, 1); int k = opleaves(&ms, other, 0); bool same = k == n;
            for(int x=0; same && x<k; x++) same = o_same(&mine[x], &other[x]);
            if(!same) continue;
            Event a = { .term = o_noop(&ms), .type = EVENT_TYPE_GOAL, .truth = o_goalded(c->goal_spike.truth, m->truth), .stamp = o_zip(&c->goal_spike.stamp, &m->stamp), .occurrenceTime = currentTime };
            a.truth = o_goalded(a.truth, o_proj(p->belief_spike.truth, p->belief_spike.occurrenceTime, currentTime));
            a.stamp = o_zip(&p->belief_spike.stamp, &a.stamp);
            all = Inference_RevisionAndChoice(&all, &a, currentTime, NULL);
        }
    }
    if(fabs(o_exp(all.truth) - 0.5) < 1e-12 && o_exp(all.truth) != 0.5) unclear = true;
    return o_exp(all.truth) < 0.5;
}
static void candidates(Concept *gc, Event *goal)
{
    ncand = 0; unclear = false;
    Substitution s1 = Variable_Unify(&gc->term, &goal->term);
    if(!s1.success) return;
    bool generic = Variable_hasVariable(&gc->term, true, true, true) && Variable_hasVariable(&goal->term, true, true, true);
    int nops = 0;
    while(nops < OPERATIONS_MAX && operations[nops].term.atoms[0]) nops++;
    for(int o=1; o<=nops; o++) for(int j=0; j<gc->precondition_beliefs[o].itemsAmount; j++) if(!o_valid(&gc->precondition_beliefs[o].array[j])) { unclear = true; return; }
    for(int o=1; o<=nops; o++)
        for(int j=0; j<gc->precondition_beliefs[o].itemsAmount; j++)
        {
            Implication *m = &gc->precondition_beliefs[o].array[j];
            bool ok, hasvar = Variable_hasVariable(&m->term, true, true, true);
            Term it = Variable_ApplySubstitute(m->term, s1, &ok);
            if(!ok) continue;
            Term subj = o_sub(&it, 1), left = o_noop(&subj);
            for(int k=0; k<concepts.itemsAmount; k++)
            {
                Concept *p = concepts.items[k].address;
                if(Variable_hasVariable(&p->term, true, true, true) || p->belief_spike.type == EVENT_TYPE_DELETED) continue;
                Substitution s2 = Variable_UnifyWithAnalogy(p->belief_spike.truth, &left, &p->term);
                if(!s2.success) continue;
                bool closer = false;
                if(s2.truth.confidence != p->belief_spike.truth.confidence)
                    for(int o2=1; o2<=nops && !closer; o2++) for(int j2=0; j2<gc->precondition_beliefs[o2].itemsAmount && !closer; j2++)
                    {
                        Term x = o_sub(&gc->precondition_beliefs[o2].array[j2].term, 1), y = o_noop(&x);
                        Substitution s3 = Variable_UnifyWithAnalogy(p->belief_spike.truth, &y, &p->term);
                        closer = s3.success && s3.truth.confidence > s2.truth.confidence;
                    }
                if(closer) { hx_count("closer_hypothesis_exists", 1); continue; }
                if(s2.truth.confidence != p->belief_spike.truth.confidence) hx_count("graded_matches", 1);
                Term spec = Variable_ApplySubstitute(it, s2, &ok);
                if(!ok || (generic && Variable_hasVariable(&spec, true, false, false))) continue;
                Term ss = o_sub(&spec, 1), op = o_sub(&ss, 2), args = {0};
                if(!o_isop(&op)) { op = (Term) {0}; }
                if(op.atoms[0] && o_name(op.atoms[0])[0] != '^') { args = o_sub(&op, 1); if(strcmp(o_name(args.atoms[3]), "SELF")) continue; }
                int opn = op.atoms[0] ? opnumber(&op) : 0;
                if(hasvar)
                {
                    bool inhibited = false; Term pred = o_sub(&spec, 2);
                    Concept *r = Memory_FindConceptByTerm(&pred);
                    for(int x=0; r && x<r->precondition_beliefs[o].itemsAmount; x++)
                    {
                        Implication *q = &r->precondition_beliefs[o].array[x];
                        inhibited = inhibited || (o_same(&q->term, &spec) && q->truth.confidence > 0.05 && q->truth.frequency < 0.5);
                    }
                    if(inhibited) { hx_count("inhibited_candidates", 1); continue; }
                }
                if(vetoed(opn, &spec)) { hx_count("vetoed_candidates", 1); continue; }
                Truth d = o_goalded(o_goalded(goal->truth, m->truth), o_proj(s2.truth, p->belief_spike.occurrenceTime, currentTime));
                if(ncand < MAXC) cand[ncand++] = (Cand) { .desire = o_exp(d), .op = opn, .args = args, .prec = p->term };
            }
        }
}
/* ------------------------------------------------------------ suggestions */
static Decision sug[64]; static int nsug = 0; static bool babbled[64]; static int executions_here = 0;
Decision __real_Decision_Suggest(Concept *c, Event *goal, long now);
Decision __wrap_Decision_Suggest(Concept *c, Event *goal, long now)
{
    candidates(c, goal);
    if(unclear) hx_count("unclear_suggestions", 1);
    bool skip = unclear;
    double best = 0;
    for(int i=0; i<ncand; i++) if(cand[i].desire > best) best = cand[i].desire;
    if(ncand && fabs(best - DECISION_THRESHOLD) < 1e-12) skip = true;
    if(ncand && fabs(best - 0.55) < 1e-12) skip = true;
    bool learned = ncand && best >= DECISION_THRESHOLD && best > 0;
    int nops = 0; while(nops < OPERATIONS_MAX && operations[nops].term.atoms[0]) nops++;
    Term g = goal->term;
    Decision d = __real_Decision_Suggest(c, goal, now);
    hx_count("suggestions", 1);
    bool babble = d.execute && d.reason == NULL;
    if(d.execute && d.operationID[0] > 0 && (d.operationID[0] > OPERATIONS_MAX || !operations[d.operationID[0]-1].term.atoms[0])) hx_viol("C15", "unregistered", "operation %d suggested, which is not registered", d.operationID[0]);
    if(babble)
    {
        hx_count("babbles", 1);
        int bops = BABBLING_OPS < nops ? BABBLING_OPS : nops;
        if(MOTOR_BABBLING_CHANCE <= 0) hx_viol("C15", "babbling-disabled", "motor babbling chose operation %d while disabled", d.operationID[0]);
        if(d.operationID[0] < 1 || d.operationID[0] > bops) hx_viol("C15", "babbling-ops", "motor babbling chose operation %d of %d", d.operationID[0], bops);
        else
        {
            Operation *o = &operations[d.operationID[0]-1];
            static const char *names[] = {"babble_1","babble_2","babble_3","babble_4","babble_5","babble_6","babble_7","babble_8","babble_9","babble_10"};
            hx_count(names[d.operationID[0]-1], 1);
            bool ok = !o->arguments[0].atoms[0] && !d.arguments[0].atoms[0];
            for(int i=0; o->arguments[0].atoms[0] && i<OPERATIONS_BABBLE_ARGS_MAX && o->arguments[i].atoms[0]; i++)
            {
                Term l = o_sub(&d.arguments[0], 1), r = o_sub(&d.arguments[0], 2);
                ok = ok || (o_cop(&d.arguments[0], "*") && o_cop(&l, "\"") && !strcmp(o_name(l.atoms[1]), "SELF") && o_same(&r, &o->arguments[i]));
            }
            if(!ok) hx_viol("C15", "babbling-args", "motor babbling chose arguments %s of operation %d, which are not registered", hx_str(&d.arguments[0]), d.operationID[0]);
            if(o->arguments[0].atoms[0]) hx_count("babbles_with_arguments", 1);
        }
        if(!skip && learned && best > 0.55) hx_viol("C15", "babbling-not-suppressed", "motor babbling overrode a decision with desire %g", best);
    }
    if(!skip && nops > 0 && !(learned && best > 0.55)) hx_count("babble_trials", 1), hx_count("babble_hits", babble);
    if(!skip && !babble)
    {
        if(d.execute != learned) hx_viol("C15", learned ? "missed-decision" : "unjustified-decision", "goal %s: best desire %g of %d candidates at threshold %g, the decision is %sexecuted with desire %g", hx_str(&g), best, ncand, DECISION_THRESHOLD, d.execute ? "" : "not ", d.desire);
        else if(d.execute)
        {
            hx_count("learned_decisions", 1);
            bool ok = false; int near = -1;
            for(int i=0; i<ncand; i++) if(fabs(cand[i].desire - best) < 1e-12) { near = i; ok = ok || (cand[i].op == d.operationID[0] && o_same(&cand[i].args, &d.arguments[0])); }
            if(!o_near(d.desire, best)) hx_viol("C15", "desire", "goal %s: decision with desire %g, the best candidate has %g", hx_str(&g), d.desire, best);
            else if(!ok) hx_viol("C15", "wrong-operation", "goal %s: operation %d(%s) was decided, the best candidate is %d(%s)", hx_str(&g), d.operationID[0], hx_str(&d.arguments[0]), cand[near].op, hx_str(&cand[near].args));
            if(ncand > 1) hx_count("decisions_among_several", 1);
            if(d.arguments[0].atoms[0]) hx_count("decisions_with_arguments", 1);
        }
        else if(ncand) hx_count("below_threshold", 1);
    }
    if(d.execute && nsug < 64) { babbled[nsug] = babble; sug[nsug++] = d; }
    return d;
}
/* ------------------------------------------------------------- executions */
static int acts = 0, feedbacks = 0; static int act_op; static Term act_args, feedback_term; static bool act_failed; static long fail_every = 0, act_count = 0;
static Action orig[OPERATIONS_MAX];
static Feedback act(int i, Term args)
{
    acts++; act_op = i+1; act_args = args; act_count++;
    printf("@@{\"k\":\"act\",\"op\":\""); hx_atom(operations[i].term.atoms[0]); printf("\",\"args\":"); hx_term(&args); printf(",\"time\":%ld}\n", currentTime);
    Feedback f = orig[i](args);
    if(fail_every && act_count % fail_every == 0) { f.failed = true; hx_count("failing_actions", 1); }
    act_failed = f.failed;
    return f;
}
#define T(i) static Feedback act##i(Term a) { return act(i, a); }
T(0) T(1) T(2) T(3) T(4) T(5) T(6) T(7) T(8) T(9)
static Action tramp[OPERATIONS_MAX] = {act0, act1, act2, act3, act4, act5, act6, act7, act8, act9};
void hx_begin_line(const char *line)
{
    for(int i=0; i<OPERATIONS_MAX; i++) if(operations[i].action && operations[i].action != tramp[i]) { orig[i] = operations[i].action; operations[i].action = tramp[i]; }
}
int hx_command(char **f, int n)
{
    if(!strcmp(f[0], "failevery")) { fail_every = atol(f[1]); return 1; }
    return 0;
}
static int in_execute = 0; static Event *fb_event;
Event __real_NAR_AddInputBelief(Term t);
Event __wrap_NAR_AddInputBelief(Term t)
{
    if(in_execute) { feedbacks++; feedback_term = t; }
    int k1 = acts, k2 = feedbacks; Term k3 = feedback_term, k4 = act_args; int k5 = act_op; bool k6 = act_failed;
    Event e = __real_NAR_AddInputBelief(t);
    acts = k1; feedbacks = k2; feedback_term = k3; act_args = k4; act_op = k5; act_failed = k6;
    return e;
}
void __real_Decision_Execute(long now, Decision *d);
void __wrap_Decision_Execute(long now, Decision *d)
{
    hx_count("executed_decisions", 1);
    if(++executions_here > 1) hx_viol("C15", "executed-twice", "%d decisions are executed for one selected goal", executions_here);
    double best = -1; bool ok = false; bool babble = d->reason == NULL;
    for(int i=0; i<nsug; i++) if(sug[i].desire > best) best = sug[i].desire;
    for(int i=0; i<nsug; i++) ok = ok || (o_near(sug[i].desire, best) && sug[i].operationID[0] == d->operationID[0] && o_same(&sug[i].arguments[0], &d->arguments[0]) && babbled[i] == babble);
    if(!nsug) hx_viol("C15", "not-suggested", "operation %d is executed without any suggestion", d->operationID[0]);
    else if(!ok) hx_viol("C15", "not-the-best", "operation %d with desire %g is executed, the best of %d suggestions has %g", d->operationID[0], d->desire, nsug, best);
    if(nsug > 1) hx_count("executions_among_several", 1);
    int op = d->operationID[0]; Term args = d->arguments[0];
    in_execute++; acts = 0; feedbacks = 0;
    __real_Decision_Execute(now, d);
    in_execute--;
    if(acts != 1) hx_viol("C15", acts ? "action-twice" : "not-executed", "the action of operation %d was called %d times for one decision", op, acts);
    else if(act_op != op || !o_same(&act_args, &args)) hx_viol("C15", "other-action", "operation %d(%s) was executed for the decision %d(%s)", act_op, hx_str(&act_args), op, hx_str(&args));
    if(feedbacks != (act_failed ? 0 : 1)) hx_viol("C15", act_failed ? "feedback-of-failure" : feedbacks ? "feedback-twice" : "no-feedback", "%d feedback events for %s execution of operation %d", feedbacks, act_failed ? "a failed" : "an", op);
    if(acts == 1 && feedbacks == 1)
    {
        Term pred = args.atoms[0] ? o_sub(&feedback_term, 2) : feedback_term, sub = args.atoms[0] ? o_sub(&feedback_term, 1) : args;
        if(pred.atoms[0] != operations[op-1].term.atoms[0] || !o_same(&sub, &args) || (args.atoms[0] && !o_cop(&feedback_term, ":"))) hx_viol("C15", "feedback-term", "execution of %d(%s) is reported as %s", op, hx_str(&args), hx_str(&feedback_term));
        hx_count("feedbacks", 1);
    }
    executions_here = 1; nsug = 0;
}
static void close_goal()
{
    bool any = false;
    for(int i=0; i<nsug; i++) any = any || sug[i].operationID[0] > 0;
    if(any && executions_here == 0) hx_viol("C15", "decision-dropped", "%d decisions were suggested and none was executed", nsug);
    nsug = 0; executions_here = 0;
}
bool __real_PriorityQueue_PopMax(PriorityQueue *q, void **address, double *priority);
bool __wrap_PriorityQueue_PopMax(PriorityQueue *q, void **address, double *priority)
{
    close_goal();
    return __real_PriorityQueue_PopMax(q, address, priority);
}
void __real_Cycle_Perform(long now);
void __wrap_Cycle_Perform(long now)
{
    int k = executions_here, ke = in_execute;
    executions_here = 0; nsug = 0; in_execute = 0;
    __real_Cycle_Perform(now);
    close_goal();
    executions_here = k; in_execute = ke;
}
