/* What is reported: every addition to memory, every selection and every execution is logged around the lines printed for it. */
#include "ora.h"
/* signatures as declared by the tree; anything else does not compile */
__typeof__(Memory_AddEvent) __wrap_Memory_AddEvent;
__typeof__(Memory_AddInputEvent) __wrap_Memory_AddInputEvent;
__typeof__(PriorityQueue_PopMax) __wrap_PriorityQueue_PopMax;
__typeof__(Decision_Execute) __wrap_Decision_Execute;
__typeof__(Decision_Anticipate) __wrap_Decision_Anticipate;
__typeof__(Inference_RevisionAndChoice) __wrap_Inference_RevisionAndChoice;
static bool same(Event *a, Event *b)
{
    return a->type == b->type && a->occurrenceTime == b->occurrenceTime && a->truth.frequency == b->truth.frequency && a->truth.confidence == b->truth.confidence &&
           !memcmp(a->stamp.evidentialBase, b->stamp.evidentialBase, sizeof(a->stamp.evidentialBase)) && !memcmp(a->term.atoms, b->term.atoms, sizeof(a->term.atoms));
}
static int find(PriorityQueue *q, Event *e, double *p)
{
    for(int i=0; i<q->itemsAmount; i++) if(same(q->items[i].address, e)) { if(p) *p = q->items[i].priority; return 1; }
    return 0;
}
static int buffered(Event *e, double *p)
{
    if(e->type == EVENT_TYPE_BELIEF) return find(&cycling_belief_events, e, p);
    for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) if(find(&cycling_goal_events[l], e, p)) return 1;
    return 0;
}
static Concept *held(Term *t)
{
    for(int i=0; i<concepts.itemsAmount; i++) { Concept *c = concepts.items[i].address; if(!memcmp(c->term.atoms, t->atoms, sizeof(t->atoms))) return c; }
    return NULL;
}
static Implication *entry(Term *t)
{
    Term post = o_sub(t, 2); Concept *c = held(&post);
    if(!c) return NULL;
    for(int o=0; o<=OPERATIONS_MAX+1; o++)
    {
        Table *tb = o <= OPERATIONS_MAX ? &c->precondition_beliefs[o] : &c->implication_links;
        for(int i=0; i<tb->itemsAmount; i++) if(!memcmp(tb->array[i].term.atoms, t->atoms, sizeof(t->atoms))) return &tb->array[i];
    }
    return NULL;
}
static int depth = 0;
static Implication old[4]; static Event kept[4];
static void begin(Event *event, double priority, bool input)
{
    int d = depth++;
    if(d > 3) return;
    kept[d] = *event; old[d] = (Implication) {0};
    Implication *m = o_cop(&event->term, "$") || o_cop(&event->term, "?") ? entry(&event->term) : NULL;
    if(m) old[d] = *m;
    hx_count("additions", 1);
    printf("@@{\"k\":\"ab\",\"d\":%d,\"e\":", d); hx_event(event);
    printf(",\"p\":"); hx_num(priority);
    printf(",\"in\":%d,\"dup\":%d,\"pd\":%d,\"pin\":%d,\"pth\":", input, buffered(event, NULL), PRINT_DERIVATIONS, PRINT_INPUT); hx_num(PRINT_EVENTS_PRIORITY_THRESHOLD);
    printf("}\n");
}
static void end(void)
{
    int d = --depth;
    if(d > 3) return;
    Event *e = &kept[d];
    double p = -1; int b = buffered(e, &p);
    Implication *m = o_cop(&e->term, "$") || o_cop(&e->term, "?") ? entry(&e->term) : NULL;
    Concept *c = held(&e->term);
    printf("@@{\"k\":\"ae\",\"d\":%d,\"buf\":%d,\"p\":", d, b); hx_num(p);
    printf(",\"bel\":"); if(c) hx_event(&c->belief); else printf("null");
    printf(",\"tab\":"); if(m) hx_impl(m); else printf("null");
    printf(",\"moved\":%d}\n", m && (!old[d].term.atoms[0] || old[d].truth.confidence != m->truth.confidence || old[d].truth.frequency != m->truth.frequency || memcmp(&old[d].stamp, &m->stamp, sizeof(Stamp)) || old[d].creationTime != m->creationTime));
}
void __real_Memory_AddEvent(Event *event, long currentTime, double priority, bool input, bool derived, bool revised, int layer);
void __wrap_Memory_AddEvent(Event *event, long now, double priority, bool input, bool derived, bool revised, int layer)
{
    begin(event, priority, input);
    __real_Memory_AddEvent(event, now, priority, input, derived, revised, layer);
    end();
}
void __real_Memory_AddInputEvent(Event *event, long now);
void __wrap_Memory_AddInputEvent(Event *event, long now)
{
    begin(event, 1.0, true);
    __real_Memory_AddInputEvent(event, now);
    end();
}
bool __real_PriorityQueue_PopMax(PriorityQueue *q, void **a, double *p);
bool __wrap_PriorityQueue_PopMax(PriorityQueue *q, void **a, double *p)
{
    double got = 0; void *adr = NULL;
    bool r = __real_PriorityQueue_PopMax(q, &adr, &got);
    if(a) *a = adr;
    if(p) *p = got;
    bool events = q == &cycling_belief_events || (q >= cycling_goal_events && q < cycling_goal_events + CYCLING_GOAL_EVENTS_LAYERS);
    if(r && events)
    {
        hx_count("selections", 1);
        printf("@@{\"k\":\"pop\",\"e\":"); hx_event(adr); printf(",\"p\":"); hx_num(got);
        printf(",\"pd\":%d,\"pth\":", PRINT_DERIVATIONS); hx_num(PRINT_EVENTS_PRIORITY_THRESHOLD); printf("}\n");
    }
    return r;
}
void __real_Decision_Execute(long now, Decision *d);
void __wrap_Decision_Execute(long now, Decision *d)
{
    hx_count("executions", 1);
    int id = d->operationID[0];
    printf("@@{\"k\":\"xb\",\"op\":"); if(id) hx_term(&operations[id-1].term); else printf("null");
    printf(",\"args\":"); hx_term(&d->arguments[0]);
    printf(",\"desire\":"); hx_num(d->desire); printf("}\n");
    __real_Decision_Execute(now, d);
    printf("@@{\"k\":\"xe\"}\n");
}
static int anticipating = 0;
void __real_Decision_Anticipate(int id, Term op, bool declarative, long now);
void __wrap_Decision_Anticipate(int id, Term op, bool declarative, long now)
{
    printf("@@{\"k\":\"nb\",\"pd\":%d,\"pth\":", PRINT_DERIVATIONS); hx_num(PRINT_EVENTS_PRIORITY_THRESHOLD); printf("}\n");
    anticipating++;
    __real_Decision_Anticipate(id, op, declarative, now);
    anticipating--;
    printf("@@{\"k\":\"ne\"}\n");
}
Event __real_Inference_RevisionAndChoice(Event *x, Event *y, long t, bool *rev);
Event __wrap_Inference_RevisionAndChoice(Event *x, Event *y, long t, bool *rev)
{
    Event e = __real_Inference_RevisionAndChoice(x, y, t, rev);
    if(anticipating) { printf("@@{\"k\":\"rc\",\"e\":"); hx_event(&e); printf("}\n"); }
    return e;
}
