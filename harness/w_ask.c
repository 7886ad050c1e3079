/* Questions: what in memory matches, recorded before each question is asked, and that asking changes nothing. */
#include "ora.h"
typedef struct { Concept *c; double prio; Usage use; } Use;
static Use use[CONCEPTS_MAX]; static int nuse; static unsigned long digest; static long before_time; static bool asked = false;
static Concept *holder[CONCEPTS_MAX]; static int nholders;
static bool isq(Atom a) { const char *n = o_name(a); return n[0] == '?' && n[1]; }
static bool isvar(Atom a) { const char *n = o_name(a); return (n[0] == '$' || n[0] == '#' || n[0] == '?') && n[1]; }
/* the question with its query variables filled in consistently is the term */
static bool match(Term *q, Term *t, bool any)
{
    Term bound[COMPOUND_TERM_SIZE_MAX]; Atom var[COMPOUND_TERM_SIZE_MAX]; int n = 0;
    bool inside[COMPOUND_TERM_SIZE_MAX] = {0};
    for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++)
    {
        if(i > 0 && inside[(i-1)/2]) { inside[i] = true; continue; }
        if(q->atoms[i] && (any ? isvar(q->atoms[i]) : isq(q->atoms[i])))
        {
            Term s = o_sub(t, i); inside[i] = true;
            if(!s.atoms[0]) continue;
            if(isq(q->atoms[i]) && isvar(s.atoms[0])) return false;
            if(!strcmp(o_name(s.atoms[0]), "@")) return false;
            int k = 0;
            while(k < n && var[k] != q->atoms[i]) k++;
            if(k < n && !o_same(&bound[k], &s)) return false;
            if(k == n) { var[n] = q->atoms[i]; bound[n++] = s; }
        }
        else if(q->atoms[i] && q->atoms[i] != t->atoms[i]) return false;
    }
    return true;
}
static unsigned long mix(unsigned long h, const void *p, size_t n) { const unsigned char *c = p; for(size_t i=0; i<n; i++) h = (h ^ c[i]) * 1099511628211ul; return h; }
static unsigned long mixev(unsigned long h, Event *e)
{
    h = mix(h, &e->type, sizeof(e->type));
    if(e->type == EVENT_TYPE_DELETED) return h;
    h = mix(h, &e->term, sizeof(Term)); h = mix(h, &e->truth.frequency, 8); h = mix(h, &e->truth.confidence, 8); h = mix(h, &e->stamp, sizeof(Stamp));
    h = mix(h, &e->occurrenceTime, 8); return mix(h, &e->creationTime, 8);
}
static unsigned long state()
{
    unsigned long h = 14695981039346656037ul;
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address;
        h = mix(h, &c->id, sizeof(c->id)); h = mix(h, &c->term, sizeof(Term)); h = mixev(h, &c->belief); h = mixev(h, &c->belief_spike); h = mixev(h, &c->predicted_belief); h = mixev(h, &c->goal_spike);
        for(int o=0; o<=OPERATIONS_MAX+1; o++)
        {
            Table *t = o <= OPERATIONS_MAX ? &c->precondition_beliefs[o] : &c->implication_links;
            h = mix(h, &t->itemsAmount, sizeof(t->itemsAmount));
            for(int j=0; j<t->itemsAmount; j++)
            {
                Implication *m = &t->array[j];
                h = mix(h, &m->term, sizeof(Term)); h = mix(h, &m->truth.frequency, 8); h = mix(h, &m->truth.confidence, 8); h = mix(h, &m->stamp, sizeof(Stamp)); h = mix(h, &m->occurrenceTimeOffset, 8);
            }
        }
    }
    for(int l=-1; l<CYCLING_GOAL_EVENTS_LAYERS; l++)
    {
        PriorityQueue *q = l < 0 ? &cycling_belief_events : &cycling_goal_events[l];
        h = mix(h, &q->itemsAmount, sizeof(q->itemsAmount));
        for(int i=0; i<q->itemsAmount; i++) { h = mixev(h, q->items[i].address); h = mix(h, &q->items[i].priority, 8); }
    }
    h = mix(h, &base, sizeof(base));
    return mix(h, &RESTRICTED_CONCEPT_CREATION, sizeof(RESTRICTED_CONCEPT_CREATION));
}
static bool first; static Term Q; static int ntense;
static void item(Term *t, Truth tv, Stamp *s, long occ, long ct, double e, Concept *c, const char *k)
{
    printf("%s{\"t\":", first ? "" : ","); hx_term(t); printf(","); hx_truth(&tv); printf(",\"s\":"); hx_stamp(s);
    printf(",\"o\":%ld,\"ct\":%ld,\"e\":", occ, ct); hx_num(e); printf(",\"kind\":\"%s\"}", k);
    first = false;
    if(c && nholders < CONCEPTS_MAX) holder[nholders++] = c;
}
static void event(Event *e, Concept *c, const char *k)
{
    if(e->type == EVENT_TYPE_DELETED) return;
    if(!match(&Q, &e->term, true)) return;
    item(&e->term, e->truth, &e->stamp, ntense ? e->occurrenceTime : OCCURRENCE_ETERNAL, e->creationTime, o_exp(ntense ? o_proj(e->truth, e->occurrenceTime, currentTime) : e->truth), c, k);
}
void hx_begin_line(const char *line)
{
    char s[NARSESE_LEN_MAX+1]; double thr = -1; const char *from = line;
    asked = false;
    if(!strncmp(line, "*query ", 7)) { char *end; thr = strtod(line + 7, &end); from = end + 1; }
    else if(line[0] == '*') return;
    const char *mark = strrchr(from, '?');
    if(!mark || (mark[1] && strncmp(mark, "? :", 3))) return;
    snprintf(s, sizeof(s), "%s", from);
    char punctuation; Truth tv; double off;
    Narsese_Sentence(s, &Q, &punctuation, &ntense, &tv, &off);
    Q = RuleTable_Reduce(Q);
    if(punctuation != '?') return;
    asked = true; before_time = currentTime; nuse = nholders = 0; first = true;
    bool timp = o_cop(&Q, "$"), imp = o_cop(&Q, "?");
    Term pred = o_sub(&Q, 2);
    printf("@@{\"k\":\"ask\",\"thr\":"); hx_num(thr); printf(",\"tense\":%d,\"q\":", ntense); hx_term(&Q); printf(",\"items\":[");
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address;
        use[nuse++] = (Use) { .c = c, .prio = c->priority, .use = c->usage };
        if((timp || imp) && match(&pred, &c->term, false))
            for(int o=0; o<=OPERATIONS_MAX+1; o++)
            {
                if(imp != (o > OPERATIONS_MAX)) continue;
                Table *t = imp ? &c->implication_links : &c->precondition_beliefs[o];
                for(int j=0; j<t->itemsAmount; j++) if(match(&Q, &t->array[j].term, false)) item(&t->array[j].term, t->array[j].truth, &t->array[j].stamp, OCCURRENCE_ETERNAL, t->array[j].creationTime, o_exp(t->array[j].truth), NULL, "imp");
            }
        if(timp || !match(&Q, &c->term, false)) continue;
        if(ntense == 0) event(&c->belief, c, "belief");
        if(ntense == 1 || ntense == 2) event(&c->belief_spike, c, "event");
        if(ntense == 1 || ntense == 3) event(&c->predicted_belief, c, "prediction");
    }
    printf("]}\n");
    digest = state();
}
void hx_end_line(const char *line)
{
    if(!asked) return;
    asked = false;
    hx_count("asked", 1);
    if(currentTime != before_time) hx_viol("C11", "time", "asking took %ld steps", currentTime - before_time);
    if(state() != digest) hx_viol("C11", "changed", "asking changed beliefs, events or their attention: %s", line);
    int n = 0; Use *u = NULL;
    for(int i=0; i<nuse; i++) if(use[i].c->priority != use[i].prio || use[i].c->usage.useCount != use[i].use.useCount || use[i].c->usage.lastUsed != use[i].use.lastUsed) { n++; u = &use[i]; }
    if(n > 1) hx_viol("C11", "primed-many", "%d concepts changed their attention by a question", n);
    if(n == 1)
    {
        bool held = false;
        for(int i=0; i<nholders; i++) held = held || holder[i] == u->c;
        if(!held) hx_viol("C11", "primed-other", "the concept %s, which does not match, was primed by %s", hx_str(&u->c->term), hx_str(&Q));
        if(!o_near(u->c->priority, fmax(u->prio, QUESTION_PRIMING)) || u->c->usage.lastUsed != currentTime || u->c->usage.useCount <= u->use.useCount)
            hx_viol("C11", "priming", "priming gave %s priority %g from %g", hx_str(&u->c->term), u->c->priority, u->prio);
        hx_count("primed", 1);
        if(QUESTION_PRIMING <= 0) hx_viol("C11", "primed-off", "priming is off, and yet %s was primed", hx_str(&u->c->term));
    }
}
