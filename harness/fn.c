/* Direct drives of the reasoner's functions: "@cmd\targ\targ". Each prints one "@@{...}" record. A failed assertion
   is reported as {"k":...,"rej":msg} and the drive continues. */
#include "hx.h"
#define TR(i) ((Truth) { .frequency = strtod(f[i], NULL), .confidence = strtod(f[(i)+1], NULL) })

typedef Truth (*TF)(Truth, Truth);
static struct { const char *n; TF f; } tf[] = {
#define E(x) { #x, Truth_##x },
E(Revision) E(Deduction) E(Induction) E(Intersection) E(GoalDeduction) E(Abduction) E(Exemplification) E(Comparison) E(Analogy) E(Resemblance)
E(StructuralDeduction) E(StructuralDeductionNegated) E(StructuralIntersection) E(Union) E(Difference) E(Conversion) E(Negation)
E(DecomposePNN) E(DecomposeNPP) E(DecomposePNP) E(DecomposePPP) E(DecomposeNNN) E(AnonymousAnalogy) E(FrequencyGreater) E(FrequencyEqual)
{ NULL, NULL } };

static void outtruth(Truth t)
{
    printf("{"); hx_truth(&t); printf("}");
}
/* event spec: term, type, f, c, stamp, occ, dt, creation  (8 fields) */
static Event ev(char **f)
{
    Event e = {0};
    e.term = hx_parse(f[0]);
    e.type = f[1][0] == '!' ? EVENT_TYPE_GOAL : f[1][0] == '.' ? EVENT_TYPE_BELIEF : EVENT_TYPE_DELETED;
    e.truth = TR(2);
    e.stamp = hx_parsestamp(f[4]);
    e.occurrenceTime = strtol(f[5], NULL, 10);
    e.occurrenceTimeOffset = strtod(f[6], NULL);
    e.creationTime = strtol(f[7], NULL, 10);
    return e;
}
static Implication im(char **f)
{
    Implication m = {0};
    m.term = hx_parse(f[0]);
    m.truth = TR(2);
    m.stamp = hx_parsestamp(f[4]);
    m.occurrenceTimeOffset = strtod(f[6], NULL);
    m.creationTime = strtol(f[7], NULL, 10);
    return m;
}
static void outsub(Substitution *s)
{
    /* bindings of the 27 variables, by variable name */
    static const char *names[] = { "$1","$2","$3","$4","$5","$6","$7","$8","$9","#1","#2","#3","#4","#5","#6","#7","#8","#9","?1","?2","?3","?4","?5","?6","?7","?8","?9" };
    printf("\"ok\":%d,\"truth\":", s->success); outtruth(s->truth);
    printf(",\"map\":{");
    int first = 1;
    for(int i=0; i<27; i++)
    {
        int a = Narsese_AtomicTermIndex((char*) names[i]);
        if(a >= 1 && a <= 27 && s->map[a].atoms[0])
        {
            printf(first ? "\"%s\":" : ",\"%s\":", names[i]);
            hx_term(&s->map[a]);
            first = 0;
        }
    }
    printf("}");
}

static int drive(char **f, int n)
{
    const char *c = f[0];
    if(!strcmp(c, "truth"))
    {
        for(int i=0; tf[i].n; i++) if(!strcmp(tf[i].n, f[1])) { Truth t = tf[i].f(TR(2), TR(4)); printf("@@"); outtruth(t); puts(""); return 1; }
        Truth r = {0};
        if(!strcmp(f[1], "Eternalize")) r = Truth_Eternalize(TR(2));
        else if(!strcmp(f[1], "Projection")) r = Truth_Projection(TR(2), atol(f[4]), atol(f[5]));
        else if(!strcmp(f[1], "Expectation")) r.frequency = Truth_Expectation(TR(2));
        else if(!strcmp(f[1], "w2c")) r.frequency = Truth_w2c(strtod(f[2], NULL));
        else if(!strcmp(f[1], "c2w")) r.frequency = Truth_c2w(strtod(f[2], NULL));
        else return 0;
        printf("@@"); outtruth(r); puts("");
        return 1;
    }
    if(!strcmp(c, "parse"))       /* sentence -> term, punctuation, tense, truth, dt */
    {
        Term t = {0}; char p = 0; int tense = -9; Truth tv = {0}; double dt = 0;
        Narsese_Sentence(f[1], &t, &p, &tense, &tv, &dt);
        printf("@@{\"t\":"); hx_term(&t);
        printf(",\"p\":\"%c\",\"te\":%d,", p, tense); hx_truth(&tv); printf(",\"dt\":"); hx_num(dt); puts("}");
        return 1;
    }
    if(!strcmp(c, "term"))
    {
        Term t = Narsese_Term(f[1]);
        printf("@@{\"t\":"); hx_term(&t); puts("}");
        return 1;
    }
    if(!strcmp(c, "print"))       /* raw line with the printed form follows */
    {
        Term t = hx_parse(f[1]);
        printf("@@P "); Narsese_PrintTerm(&t); puts("");
        return 1;
    }
    if(!strcmp(c, "printall"))    /* every stored concept and implication term with its printed form */
    {
        for(int i=0; i<concepts.itemsAmount; i++)
        {
            Concept *co = concepts.items[i].address;
            printf("@@{\"k\":\"pa\",\"t\":"); hx_term(&co->term); printf("}\n@@P "); Narsese_PrintTerm(&co->term); puts("");
            for(int o=0; o<=OPERATIONS_MAX+1; o++)
            {
                Table *tb = o <= OPERATIONS_MAX ? &co->precondition_beliefs[o] : &co->implication_links;
                for(int j=0; j<tb->itemsAmount; j++) { printf("@@{\"k\":\"pa\",\"t\":"); hx_term(&tb->array[j].term); printf("}\n@@P "); Narsese_PrintTerm(&tb->array[j].term); puts(""); }
            }
        }
        return 1;
    }
    if(!strcmp(c, "extract"))
    {
        Term t = hx_parse(f[1]);
        Term r = Term_ExtractSubterm(&t, atoi(f[2]));
        printf("@@{\"t\":"); hx_term(&r); printf(",\"orig\":"); hx_term(&t); puts("}");
        return 1;
    }
    if(!strcmp(c, "override"))
    {
        Term t = hx_parse(f[1]), s = hx_parse(f[3]);
        bool ok = Term_OverrideSubterm(&t, atoi(f[2]), &s);
        printf("@@{\"ok\":%d,\"t\":", ok); hx_term(&t); puts("}");
        return 1;
    }
    if(!strcmp(c, "cmp"))         /* equality, hash agreement, complexity, contained atom */
    {
        Term a = hx_parse(f[1]), b = hx_parse(f[2]);
        /* the second term is built in dirty memory, as terms in recycled storage are */
        Term d; memset(&d, 0xA5, sizeof(d)); memcpy(d.atoms, b.atoms, sizeof(d.atoms)); d.hashed = false;
        bool e1 = Term_Equal(&a, &b), e2 = Term_Equal(&b, &a), e3 = Term_Equal(&a, &d), e4 = Term_Equal(&a, &a);
        HASH_TYPE h1 = Term_Hash(&a), h2 = Term_Hash(&b), h3 = Term_Hash(&d), h4 = Term_Hash(&a);
        bool e5 = Term_Equal(&a, &b);
        Atom x = Narsese_AtomicTermIndex(f[3]);
        printf("@@{\"eq\":%d,\"sym\":%d,\"dirty\":%d,\"refl\":%d,\"after\":%d,\"h\":%d,\"hd\":%d,\"hs\":%d,\"ca\":%d,\"cb\":%d,\"has\":%d}\n", e1, e2, e3, e4, e5, h1 == h2, h2 == h3, h1 == h4,
               Term_Complexity(&a), Term_Complexity(&b), Term_HasAtom(&a, x));
        return 1;
    }
    if(!strcmp(c, "unify"))       /* kind general specific [f c] */
    {
        Term g = hx_parse(f[2]), s = hx_parse(f[3]);
        Substitution r;
        Truth tv = n > 5 ? TR(4) : (Truth) { 1.0, 0.9 };
        if(f[1][0] == 'a') r = Variable_UnifyWithAnalogy(tv, &g, &s);
        else if(f[1][0] == 'q') r = Variable_Unify2(tv, &g, &s, true);
        else r = Variable_Unify(&g, &s);
        bool ok = false;
        printf("@@{"); outsub(&r);
        if(r.success)
        {
            Term u = Variable_ApplySubstitute(g, r, &ok);
            printf(",\"sok\":%d,\"t\":", ok); hx_term(&u);
        }
        puts("}");
        return 1;
    }
    if(!strcmp(c, "subst"))       /* term, then var/term pairs */
    {
        Term t = hx_parse(f[1]);
        Substitution s = {0};
        s.success = true;
        for(int i=2; i+1<n; i+=2) s.map[(int) Narsese_AtomicTermIndex(f[i])] = hx_parse(f[i+1]);
        bool ok = false;
        Term r = Variable_ApplySubstitute(t, s, &ok);
        printf("@@{\"ok\":%d,\"t\":", ok); hx_term(&r); puts("}");
        return 1;
    }
    if(!strcmp(c, "normalize"))
    {
        Term t = hx_parse(f[1]);
        Variable_Normalize(&t);
        printf("@@{\"t\":"); hx_term(&t); puts("}");
        return 1;
    }
    if(!strcmp(c, "intro"))       /* kind(i,c) extensional term */
    {
        Term t = hx_parse(f[3]);
        bool ok = false;
        Term r = f[1][0] == 'i' ? Variable_IntroduceImplicationVariables(t, &ok, atoi(f[2])) : Variable_IntroduceConjunctionVariables(t, &ok, atoi(f[2]));
        printf("@@{\"ok\":%d,\"t\":", ok); hx_term(&r); puts("}");
        return 1;
    }
    if(!strcmp(c, "hasvar"))
    {
        Term t = hx_parse(f[1]);
        printf("@@{\"i\":%d,\"d\":%d,\"q\":%d,\"any\":%d}\n", Variable_hasVariable(&t, true, false, false), Variable_hasVariable(&t, false, true, false), Variable_hasVariable(&t, false, false, true), Variable_hasVariable(&t, true, true, true));
        return 1;
    }
    if(!strcmp(c, "preop"))       /* precondition without operation, operation part, sequence length */
    {
        Term t = hx_parse(f[1]);
        Term w = Narsese_GetPreconditionWithoutOp(&t);
        Term o = Narsese_getOperationTerm(&t);
        printf("@@{\"w\":"); hx_term(&w); printf(",\"o\":"); hx_term(&o);
        printf(",\"len\":%d,\"isop\":%d}\n", Narsese_SequenceLength(&t), Narsese_isOperation(&t));
        return 1;
    }
    if(!strcmp(c, "setvalue"))
    {
        Narsese_setAtomValue(Narsese_AtomicTermIndex(f[1]), strtod(f[2], NULL), f[3]);
        return 1;
    }
    if(!strcmp(c, "simdist")) { Variable_similarity_distance = strtod(f[1], NULL); return 1; }
    if(!strcmp(c, "stamp"))
    {
        Stamp a = hx_parsestamp(f[1]), b = hx_parsestamp(f[2]);
        Stamp r = Stamp_make(&a, &b);
        printf("@@{\"s\":"); hx_stamp(&r); printf(",\"ov\":%d,\"eq\":%d}\n", Stamp_checkOverlap(&a, &b), Stamp_Equal(&a, &b));
        return 1;
    }
    if(!strcmp(c, "choice"))      /* now, existing event (8), incoming event (8) */
    {
        Event a = ev(f+2), b = ev(f+10), ka = a, kb = b;
        bool rev = false;
        Event r = Inference_RevisionAndChoice(&a, &b, atol(f[1]), &rev);
        printf("@@{\"rev\":%d,\"e\":", rev); hx_event(&r);
        printf(",\"pure\":%d}\n", !memcmp(&a.truth, &ka.truth, sizeof(Truth)) && !memcmp(&b.truth, &kb.truth, sizeof(Truth)) && a.occurrenceTime == ka.occurrenceTime && b.occurrenceTime == kb.occurrenceTime);
        return 1;
    }
    if(!strcmp(c, "induct") || !strcmp(c, "intersect"))
    {
        Event a = ev(f+1), b = ev(f+9);
        bool ok = false;
        if(c[2] == 'd')
        {
            Implication r = Inference_BeliefInduction(&a, &b, &ok);
            printf("@@{\"ok\":%d,\"m\":", ok); hx_impl(&r); puts("}");
        }
        else
        {
            Event r = Inference_BeliefIntersection(&a, &b, &ok);
            printf("@@{\"ok\":%d,\"e\":", ok); hx_event(&r); puts("}");
        }
        return 1;
    }
    if(!strcmp(c, "goalded"))     /* now, goal event (8), implication (8) */
    {
        Event a = ev(f+2); Implication m = im(f+10);
        Event r = Inference_GoalDeduction(&a, &m, atol(f[1]));
        printf("@@{\"e\":"); hx_event(&r); puts("}");
        return 1;
    }
    if(!strcmp(c, "goalseq"))     /* now, compound, component */
    {
        Event a = ev(f+2), b = ev(f+10);
        Event r = Inference_GoalSequenceDeduction(&a, &b, atol(f[1]));
        printf("@@{\"e\":"); hx_event(&r); puts("}");
        return 1;
    }
    if(!strcmp(c, "belded"))      /* event, implication */
    {
        Event a = ev(f+1); Implication m = im(f+9);
        Event r = Inference_BeliefDeduction(&a, &m);
        printf("@@{\"e\":"); hx_event(&r); puts("}");
        return 1;
    }
    if(!strcmp(c, "update"))      /* now, event */
    {
        Event a = ev(f+2);
        Event r = Inference_EventUpdate(&a, atol(f[1]));
        printf("@@{\"e\":"); hx_event(&r); puts("}");
        return 1;
    }
    if(!strcmp(c, "imprev"))
    {
        Implication a = im(f+1), b = im(f+9);
        Implication r = Inference_ImplicationRevision(&a, &b);
        printf("@@{\"m\":"); hx_impl(&r); puts("}");
        return 1;
    }
    return 0;
}
int hx_command_more(char **f, int n);
int __attribute__((weak)) hx_command_more(char **f, int n) { return 0; }
int hx_command(char **f, int n)
{
    if(setjmp(hx_jmp))
    {
        printf("\n@@{\"rej\":\"");
        for(char *p = hx_jmp_msg; *p; p++) putchar(*p == '"' || *p == '\\' || (unsigned char) *p < 32 ? ' ' : *p);
        printf("\"}\n");
        return 1;
    }
    hx_jmp_on = 1;
    int r = drive(f, n) || hx_command_more(f, n);
    hx_jmp_on = 0;
    return r;
}
