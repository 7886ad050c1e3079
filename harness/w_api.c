/* C29: the reasoner driven the way an embedding program does, through NAR.h, with registered callbacks. */
#include "hx.h"
#include "NAR.h"
#include "Decision.h"
#include "RuleTable.h"
void hx_viol(const char *prop, const char *key, const char *fmt, ...);
void hx_count(const char *name, long n);
static struct spec { char name[64]; int fail, every, calls, n, gen; char var[8][16]; char val[8][256]; } specs[10];
static int nspecs = 0;
static Feedback act(int k, int gen, Term args)
{
    struct spec *s = &specs[k];
    s->calls++;
    hx_count("acts", 1);
    if(gen != s->gen) hx_viol("C29", "stale-callback", "operation %s was registered again, but its former callback was called", s->name);
    bool failing = s->fail || (s->every && s->calls % s->every == 0);
    printf("@@{\"k\":\"cb\",\"op\":\"%s\",\"args\":", s->name); hx_term(&args);
    printf(",\"time\":%ld,\"base\":%ld,\"failed\":%d}\n", currentTime, base, failing);
    Feedback f = {0};
    f.failed = failing;
    for(int i=0; i<s->n; i++) f.subs.map[(int) Narsese_AtomicTermIndex(s->var[i])] = Narsese_Term(s->val[i]);
    return f;
}
#define CB(k) static Feedback cb##k##a(Term args) { return act(k, 0, args); } static Feedback cb##k##b(Term args) { return act(k, 1, args); }
CB(0) CB(1) CB(2) CB(3) CB(4) CB(5) CB(6) CB(7) CB(8) CB(9)
static Action cbs[2][10] = {{cb0a, cb1a, cb2a, cb3a, cb4a, cb5a, cb6a, cb7a, cb8a, cb9a}, {cb0b, cb1b, cb2b, cb3b, cb4b, cb5b, cb6b, cb7b, cb8b, cb9b}};

/* op NAME fail every [var val]... : (re)registers the operation with a callback which answers like this */
static void api_op(char **f, int n)
{
    int k = 0;
    while(k < nspecs && strcmp(specs[k].name, f[2])) k++;
    if(k == 10) exit(4);
    if(k == nspecs) nspecs++;
    int gen = !specs[k].gen;
    memset(&specs[k], 0, sizeof(specs[k]));
    specs[k].gen = gen;
    snprintf(specs[k].name, 64, "%s", f[2]);
    specs[k].fail = n > 3 ? atoi(f[3]) : 0;
    specs[k].every = n > 4 ? atoi(f[4]) : 0;
    for(int i=5; i+1<n && specs[k].n<8; i+=2)
    {
        snprintf(specs[k].var[specs[k].n], 16, "%s", f[i]);
        snprintf(specs[k].val[specs[k].n++], 256, "%s", f[i+1]);
    }
    NAR_AddOperation(f[2], cbs[gen][k]);
}
static void returned(const char *call, Event e, long t0, long b0)
{
    printf("@@{\"k\":\"ret\",\"call\":\"%s\",\"t0\":%ld,\"b0\":%ld,\"t1\":%ld,\"e\":", call, t0, b0, currentTime); hx_event(&e); printf("}\n");
}
int hx_command(char **f, int n)
{
    if(strcmp(f[0], "api") || n < 2) return 0;
    long t0 = currentTime, b0 = base;
    if(!strcmp(f[1], "init")) { NAR_INIT(); nspecs = 0; PRINT_DERIVATIONS = true; }
    else if(!strcmp(f[1], "op") && n > 2) api_op(f, n);
    else if(!strcmp(f[1], "in") && n > 7)
    {
        Term t = RuleTable_Reduce(Narsese_Term(f[2]));
        returned("in", NAR_AddInput(t, f[3][0] == '!' ? EVENT_TYPE_GOAL : EVENT_TYPE_BELIEF, (Truth) { .frequency = atof(f[4]), .confidence = atof(f[5]) }, atoi(f[6]), atof(f[7])), t0, b0);
    }
    else if(!strcmp(f[1], "belief") && n > 2) { Term t = RuleTable_Reduce(Narsese_Term(f[2])); returned("belief", NAR_AddInputBelief(t), t0, b0); }
    else if(!strcmp(f[1], "goal") && n > 2) { Term t = RuleTable_Reduce(Narsese_Term(f[2])); returned("goal", NAR_AddInputGoal(t), t0, b0); }
    else if(!strcmp(f[1], "cycles") && n > 2) NAR_Cycles(atoi(f[2]));
    else if(!strcmp(f[1], "narsese") && n > 2) NAR_AddInputNarsese(f[2]);
    else if(!strcmp(f[1], "query") && n > 3) NAR_AddInputNarsese2(f[3], true, atof(f[2]));
    else if(!strcmp(f[1], "dth") && n > 2) DECISION_THRESHOLD = atof(f[2]);
    else if(!strcmp(f[1], "babble") && n > 2) MOTOR_BABBLING_CHANCE = atof(f[2]);
    else return 0;
    fflush(stdout);
    printf("@@{\"k\":\"line\",\"cmd\":\"api\",\"time\":%ld,\"base\":%ld}\n", currentTime, base);
    return 1;
}
