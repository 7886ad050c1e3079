/* Monitor main: reads lines from stdin. Ordinary lines go to the shell, lines starting with '@' are monitor commands. */
#define _GNU_SOURCE
#include "hx.h"
#include <unistd.h>
ssize_t getline(char **, size_t *, FILE *);

jmp_buf hx_jmp;
int hx_jmp_on = 0;
char hx_jmp_msg[256];
int __attribute__((weak)) hx_command(char **f, int n) { return 0; }
void __attribute__((weak)) hx_begin_line(const char *line) {}
void __attribute__((weak)) hx_end_line(const char *line) {}
void __attribute__((weak)) hx_walk(void) {}
void __attribute__((weak)) hx_finish(void) {}
static long hx_nviol = 0;
void hx_viol(const char *prop, const char *key, const char *fmt, ...)
{
    if(hx_nviol++ > 60) return;
    va_list a;
    va_start(a, fmt);
    char msg[900];
    vsnprintf(msg, sizeof(msg), fmt, a);
    va_end(a);
    printf("\n@@{\"k\":\"v\",\"p\":\"%s\",\"key\":\"%s\",\"msg\":\"", prop, key);
    for(char *p = msg; *p; p++) putchar(*p == '"' || *p == '\\' || (unsigned char) *p < 32 ? '_' : *p);
    printf("\"}\n");
}
static long hx_cn[64]; static const char *hx_cname[64];
void hx_count(const char *name, long n)
{
    for(int i=0; i<64; i++)
    {
        if(!hx_cname[i]) hx_cname[i] = name;
        if(!strcmp(hx_cname[i], name)) { hx_cn[i] += n; return; }
    }
}
char *hx_str(Term *t)       /* printable form for messages, rotating buffers */
{
    static char buf[8][400]; static int k = 0;
    char *b = buf[k++ & 7]; int n = 0;
    for(int i=0; i<COMPOUND_TERM_SIZE_MAX && n < 360; i++) if(t->atoms[i]) n += snprintf(b+n, 400-n, n ? " %d:%s" : "%d:%s", i, Narsese_atomNames[t->atoms[i]-1]);
    b[n] = 0;
    return b;
}

void __real_Globals_assert(bool b, char *msg);
void __wrap_Globals_assert(bool b, char *msg)
{
    if(!b && hx_jmp_on)
    {
        snprintf(hx_jmp_msg, sizeof(hx_jmp_msg), "%s", msg);
        hx_jmp_on = 0;
        longjmp(hx_jmp, 1);
    }
    __real_Globals_assert(b, msg);
}

static void dump_state()
{
    printf("@@{\"k\":\"state\",\"time\":%ld,\"base\":%ld,\"cid\":%ld,\"restricted\":%d,\"pd\":%d,\"pi\":%d", currentTime, base, (long) concept_id, RESTRICTED_CONCEPT_CREATION, PRINT_DERIVATIONS, PRINT_INPUT);
    printf(",\"dth\":"); hx_num(DECISION_THRESHOLD);
    printf(",\"ac\":"); hx_num(ANTICIPATION_CONFIDENCE);
    printf(",\"mb\":"); hx_num(MOTOR_BABBLING_CHANCE);
    printf(",\"bops\":%d,\"sd\":", BABBLING_OPS); hx_num(Variable_similarity_distance);
    printf(",\"qp\":"); hx_num(QUESTION_PRIMING);
    printf(",\"pth\":"); hx_num(PRINT_EVENTS_PRIORITY_THRESHOLD);
    printf(",\"imp\":"); hx_stamp(&importstamp);
    printf(",\"nc\":%d,\"nb\":%d,\"sel\":%d}\n", concepts.itemsAmount, cycling_belief_events.itemsAmount, beliefsSelectedCnt);
}
static void dump_ops()
{
    for(int i=0; i<OPERATIONS_MAX; i++)
    {
        printf("@@{\"k\":\"op\",\"i\":%d,\"t\":", i); hx_term(&operations[i].term);
        printf(",\"a\":%d,\"si\":%d,\"args\":[", operations[i].action != NULL, operations[i].stdinOutput);
        for(int j=0; j<OPERATIONS_BABBLE_ARGS_MAX; j++) { if(j) printf(","); hx_term(&operations[i].arguments[j]); }
        printf("]}\n");
    }
}
static void dump_values()
{
    for(int i=0; i<ATOMS_MAX; i++)
    {
        if(Narsese_atomHasValue[i])
        {
            printf("@@{\"k\":\"val\",\"name\":\""); hx_esc(Narsese_atomNames[i]);
            printf("\",\"v\":"); hx_num(Narsese_atomValues[i]);
            printf(",\"m\":\""); hx_esc(Narsese_atomMeasurementNames[i]); printf("\"}\n");
        }
    }
}
static void dump_concepts(int imps)
{
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address;
        printf("@@{\"k\":\"c\",\"i\":%d,\"q\":", i); hx_num(concepts.items[i].priority);
        printf(",\"id\":%ld,\"t\":", c->id); hx_term(&c->term);
        printf(",\"uc\":%ld,\"lu\":%ld,\"pr\":", c->usage.useCount, c->usage.lastUsed); hx_num(c->priority);
        printf(",\"ls\":%ld,\"b\":", c->lastSelectionTime); hx_event(&c->belief);
        printf(",\"bs\":"); hx_event(&c->belief_spike);
        printf(",\"pb\":"); hx_event(&c->predicted_belief);
        printf(",\"gs\":"); hx_event(&c->goal_spike);
        printf("}\n");
        if(imps)
        {
            for(int o=0; o<=OPERATIONS_MAX+1; o++)
            {
                Table *tb = o <= OPERATIONS_MAX ? &c->precondition_beliefs[o] : &c->implication_links;
                for(int j=0; j<tb->itemsAmount && j<TABLE_SIZE; j++)
                {
                    printf("@@{\"k\":\"m\",\"cid\":%ld,\"op\":%d,\"j\":%d,\"m\":", c->id, o <= OPERATIONS_MAX ? o : -1, j);
                    hx_impl(&tb->array[j]);
                    printf(",\"ok\":%d}\n", Memory_ImplicationValid(&tb->array[j]));
                }
            }
        }
    }
}
static void dump_queue(const char *k, int layer, PriorityQueue *q)
{
    for(int i=0; i<q->itemsAmount; i++)
    {
        printf("@@{\"k\":\"%s\",\"l\":%d,\"i\":%d,\"q\":", k, layer, i); hx_num(q->items[i].priority);
        printf(",\"e\":"); hx_event(q->items[i].address);
        printf("}\n");
    }
}
/* what: s state, o operations, v values, c concepts, m concepts and implications, b/g belief/goal events */
void hx_dump(const char *what)
{
    if(strchr(what, 's')) dump_state();
    if(strchr(what, 'o')) dump_ops();
    if(strchr(what, 'v')) dump_values();
    if(strchr(what, 'm')) dump_concepts(1); else if(strchr(what, 'c')) dump_concepts(0);
    if(strchr(what, 'b')) dump_queue("b", 0, &cycling_belief_events);
    if(strchr(what, 'g')) for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) dump_queue("g", l, &cycling_goal_events[l]);
}

static char hx_auto[16] = "";
static int hx_num_lines = 0;
int main(int argc, char **argv)
{
    mysrand(666);
    NAR_INIT();
    Shell_NARInit();
    char *line = NULL;
    size_t cap = 0;
    while(getline(&line, &cap, stdin) > 0)
    {
        size_t L = strlen(line);
        if(L && line[L-1] == '\n') line[L-1] = 0;
        if(line[0] == '@')
        {
            char *f[64];
            int n = hx_split(line+1, f, 64);
            if(!strcmp(f[0], "dump")) hx_dump(f[1]);
            else if(!strcmp(f[0], "auto")) snprintf(hx_auto, sizeof(hx_auto), "%s", n > 1 ? f[1] : "");
            else if(!strcmp(f[0], "mark")) printf("@@{\"k\":\"mark\",\"v\":\"%s\"}\n", n > 1 ? f[1] : "");
            else if(!hx_command(f, n)) { printf("@@{\"k\":\"unknown\",\"v\":\"%s\"}\n", f[0]); exit(4); }
            continue;
        }
        if(strlen(line) > 1022) line[1022] = 0;     /* what the shell's own line buffer holds */
        hx_begin_line(line);
        char copy[1100];
        snprintf(copy, sizeof(copy), "%s", line);
        int cmd = Shell_ProcessInput(line);
        if(cmd == SHELL_RESET) Shell_NARInit();
        hx_end_line(copy);
        hx_walk();
        printf("@@{\"k\":\"line\",\"n\":%d,\"cmd\":%d,\"time\":%ld,\"base\":%ld}\n", hx_num_lines++, cmd, currentTime, base);
        if(hx_auto[0]) hx_dump(hx_auto);
        if(cmd == SHELL_EXIT) break;
    }
    hx_finish();
    printf("@@{\"k\":\"counts\"");
    for(int i=0; i<64 && hx_cname[i]; i++) printf(",\"%s\":%ld", hx_cname[i], hx_cn[i]);
    printf("}\n");
    printf("@@{\"k\":\"end\"}\n");
    return 0;
}
