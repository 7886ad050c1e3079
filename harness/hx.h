/* Shared by all monitors: serialisation of the reasoner's data as one-line JSON records ("@@{...}") on stdout. */
#ifndef HX_H
#define HX_H
#include "Shell.h"
#include <setjmp.h>
#include <stdarg.h>

static inline void hx_num(double v)
{
    if(v != v) printf("NaN"); else if(v > 1e308*10) printf("Infinity"); else if(v < -1e308*10) printf("-Infinity"); else printf("%.17g", v);
}
static inline void hx_esc(const char *s)
{
    for(int i=0; s[i] && i<ATOMIC_TERM_LEN_MAX; i++)
    {
        unsigned char c = s[i];
        if(c == '"' || c == '\\') printf("\\%c", c);
        else if(c < 32 || c > 126) printf("\\u%04x", c);
        else putchar(c);
    }
}
static inline void hx_atom(Atom a)
{
    hx_esc(Narsese_atomNames[a-1]);
}
/* "pos:name pos:name ..." of all set positions, as a JSON string */
static inline void hx_term(Term *t)
{
    printf("\"");
    for(int i=0, first=1; i<COMPOUND_TERM_SIZE_MAX; i++)
    {
        if(t->atoms[i])
        {
            printf(first ? "%d:" : " %d:", i);
            hx_atom(t->atoms[i]);
            first = 0;
        }
    }
    printf("\"");
}
static inline void hx_stamp(Stamp *s)
{
    printf("[");
    int n = STAMP_SIZE;
    while(n > 0 && s->evidentialBase[n-1] == STAMP_FREE) n--;   /* holes before the last id stay visible as 0 */
    for(int i=0; i<n; i++) printf(i ? ",%ld" : "%ld", s->evidentialBase[i]);
    printf("]");
}
static inline void hx_truth(Truth *t)
{
    printf("\"f\":"); hx_num(t->frequency);
    printf(",\"c\":"); hx_num(t->confidence);
}
static inline void hx_event(Event *e)
{
    if(e->type == EVENT_TYPE_DELETED) { printf("null"); return; }
    printf("{\"t\":"); hx_term(&e->term);
    printf(",\"ty\":\"%s\",", e->type == EVENT_TYPE_GOAL ? "!" : e->type == EVENT_TYPE_BELIEF ? "." : "bad");
    hx_truth(&e->truth);
    printf(",\"s\":"); hx_stamp(&e->stamp);
    printf(",\"o\":%ld,\"dt\":", e->occurrenceTime); hx_num(e->occurrenceTimeOffset);
    printf(",\"ct\":%ld,\"in\":%d}", e->creationTime, e->input ? 1 : 0);
}
static inline void hx_impl(Implication *m)
{
    printf("{\"t\":"); hx_term(&m->term);
    printf(","); hx_truth(&m->truth);
    printf(",\"s\":"); hx_stamp(&m->stamp);
    printf(",\"dt\":"); hx_num(m->occurrenceTimeOffset);
    printf(",\"ct\":%ld,\"sid\":%ld,\"src\":", m->creationTime, m->sourceConceptId);
    if(m->sourceConcept) printf("%ld", ((Concept*) m->sourceConcept)->id); else printf("null");
    printf("}");
}
/* term from "pos:name pos:name" */
static inline Term hx_parse(const char *s)
{
    Term t = {0};
    char name[4096];
    while(*s)
    {
        while(*s == ' ') s++;
        if(!*s) break;
        int pos = atoi(s);
        s = strchr(s, ':') + 1;
        int n = 0;
        while(*s && *s != ' ' && n < 4000) name[n++] = *s++;
        name[n] = 0;
        t.atoms[pos] = Narsese_AtomicTermIndex(name);
    }
    return t;
}
/* splits at tabs, in place */
static inline int hx_split(char *line, char **f, int max)
{
    int n = 0;
    f[n++] = line;
    for(char *p = line; *p && n < max; p++)
    {
        if(*p == '\t') { *p = 0; f[n++] = p+1; }
    }
    return n;
}
static inline Stamp hx_parsestamp(const char *s)
{
    Stamp st = {0};
    for(int i=0; *s && i<STAMP_SIZE; i++)
    {
        st.evidentialBase[i] = strtol(s, (char**) &s, 10);
        if(*s == ',') s++;
    }
    return st;
}
/* weak hooks of the individual monitors */
int hx_command(char **f, int n);       /* returns 1 if handled */
void hx_begin_line(const char *line);
void hx_end_line(const char *line);
extern jmp_buf hx_jmp;
extern int hx_jmp_on;
extern char hx_jmp_msg[256];
void hx_dump(const char *what);
void hx_viol(const char *prop, const char *key, const char *fmt, ...);  /* reports a violation of a property */
void hx_count(const char *name, long n);                                /* observation counters, printed at the end */
char *hx_str(Term *t);
#endif
