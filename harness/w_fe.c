/* Functional equivalence: what an executed decision's hypothesis is compared with, and what is concluded from it. */
#include "ora.h"
__typeof__(Decision_Execute) __wrap_Decision_Execute;
__typeof__(Memory_AddEvent) __wrap_Memory_AddEvent;
__typeof__(NAR_AddInputBelief) __wrap_NAR_AddInputBelief;
void __real_Decision_Execute(long now, Decision *d);
void __real_Memory_AddEvent(Event *e, long now, double priority, bool input, bool derived, bool revised, int layer);
Event __real_NAR_AddInputBelief(Term t);
#define DEEP 64
static bool open_[DEEP]; static int depth, ncalls;
void __wrap_Decision_Execute(long now, Decision *d)
{
    Implication *m = &d->specific_implication;
    assert(depth + 1 < DEEP, "nested executions");
    open_[++depth] = true; ncalls = 0;
    printf("@@{\"k\":\"fe\",\"now\":%ld,\"babbled\":%d,\"imp\":", now, m->term.atoms[0] ? 0 : 1);
    if(m->term.atoms[0]) hx_impl(m); else printf("null");
    printf(",\"table\":[");
    int n = 0;
    if(m->term.atoms[0])
    {
        Term cons = o_sub(&m->term, 2), s = o_sub(&m->term, 1), op = o_sub(&s, 2);
        Atom name = !op.atoms[0] ? 0 : o_name(op.atoms[0])[0] == '^' ? op.atoms[0] : op.atoms[2];
        for(int i=0; i<concepts.itemsAmount; i++)
        {
            Concept *c = concepts.items[i].address;
            if(!o_same(&c->term, &cons)) continue;
            for(int o=1; o<=OPERATIONS_MAX; o++)
                if(name && operations[o-1].term.atoms[0] == name)
                    for(int j=0; j<c->precondition_beliefs[o].itemsAmount; j++) { printf(n++ ? "," : ""); hx_impl(&c->precondition_beliefs[o].array[j]); }
        }
    }
    printf("],\"links\":[");
    if(n > 0)
    {
        int first = 1;
        for(int i=0; i<concepts.itemsAmount; i++)
        {
            Concept *c = concepts.items[i].address;
            for(int j=0; j<c->precondition_beliefs[0].itemsAmount; j++)
            {
                Implication *x = &c->precondition_beliefs[0].array[j];
                printf(first ? "{\"t\":" : ",{\"t\":"); first = 0; hx_term(&x->term); printf(","); hx_truth(&x->truth); printf("}");
            }
        }
    }
    printf("]}\n");
    __real_Decision_Execute(now, d);
    if(open_[depth]) puts("@@{\"k\":\"fend\"}");
    depth--;
}
void __wrap_Memory_AddEvent(Event *e, long now, double priority, bool input, bool derived, bool revised, int layer)
{
    if(depth && open_[depth])
    {
        printf("@@{\"k\":\"feq\",\"e\":"); hx_event(e);
        printf(",\"now\":%ld,\"p\":", now); hx_num(priority);
        printf(",\"in\":%d,\"der\":%d,\"rev\":%d,\"l\":%d}\n", input, derived, revised, layer);
    }
    /* what follows from adding it is not of interest here, and nothing of this is called again while it is added */
    bool was = open_[depth]; open_[depth] = false;
    __real_Memory_AddEvent(e, now, priority, input, derived, revised, layer);
    open_[depth] = was;
}
Event __wrap_NAR_AddInputBelief(Term t)
{
    if(depth && open_[depth]) { puts("@@{\"k\":\"fend\"}"); open_[depth] = false; }
    return __real_NAR_AddInputBelief(t);
}
