/* Random operation sequences on the real priority queue, hash table and atom store, each step judged against a reference.
   usage: ds SEED ROUNDS. Violations are printed as @@{"k":"v",...} records. */
#include "hx.h"
#include <math.h>
jmp_buf hx_jmp; int hx_jmp_on = 0; char hx_jmp_msg[256];
static unsigned long long rs;
static unsigned rnd(unsigned n) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return n ? (unsigned)((rs >> 33) % n) : 0; }
static double rprio(int mode)
{
    if(mode == 0) return rnd(3) / 2.0;              /* many ties */
    if(mode == 1) return rnd(1000000) / 1000000.0;
    if(mode == 2) return rnd(10) / 10.0;
    return rnd(2) ? 1.0 : rnd(1000) / 1e9;
}
static long nv = 0, c_ops = 0, c_push = 0, c_refused = 0, c_evict = 0, c_evict_tie = 0, c_popmax = 0, c_popmin = 0, c_popat = 0, c_rebuild = 0, c_full = 0, c_hset = 0, c_hget = 0, c_hdel = 0, c_hfull = 0, c_hupd = 0, c_intern = 0, c_hit = 0, c_rej = 0, c_maxchain = 0;
static void viol(const char *p, const char *key, const char *fmt, ...)
{
    if(nv++ > 50) return;
    va_list a; va_start(a, fmt);
    printf("@@{\"k\":\"v\",\"p\":\"%s\",\"key\":\"%s\",\"msg\":\"", p, key); vprintf(fmt, a); puts("\"}");
    va_end(a);
}
void __real_Globals_assert(bool b, char *msg);
void __wrap_Globals_assert(bool b, char *msg)
{
    if(!b && hx_jmp_on) { snprintf(hx_jmp_msg, sizeof(hx_jmp_msg), "%s", msg); hx_jmp_on = 0; longjmp(hx_jmp, 1); }
    __real_Globals_assert(b, msg);
}

/* --- priority queue --- */
#define CAPMAX 400
static long store[CAPMAX];
static bool live[CAPMAX];
static double lp[CAPMAX];
static void check_contents(PriorityQueue *q, int cap, const char *op, int seq)
{
    int n = 0;
    for(int i=0; i<cap; i++) n += live[i];
    if(q->itemsAmount != n) { viol("C08", "amount", "after %s (step %d): %d items held, %d expected", op, seq, q->itemsAmount, n); return; }
    if(q->itemsAmount > cap) viol("C08", "capacity", "after %s: %d items in capacity %d", op, q->itemsAmount, cap);
    static int seen[CAPMAX];
    for(int i=0; i<cap; i++) seen[i] = 0;
    for(int i=0; i<cap; i++)       /* also the free slots: each storage cell is handed out by exactly one slot */
    {
        long k = (long*) q->items[i].address - store;
        if(k < 0 || k >= cap) { viol("C08", "foreign-address", "after %s: slot %d holds a foreign address", op, i); return; }
        if(seen[k]++) viol("C08", "shared-storage", "after %s (step %d): storage %ld belongs to two slots", op, seq, k);
        if(i < q->itemsAmount)
        {
            if(!live[k]) viol("C08", "not-live", "after %s (step %d): item %ld is held but was popped, refused or evicted", op, seq, k);
            else if(q->items[i].priority != lp[k]) viol("C08", "priority-changed", "after %s (step %d): item %ld has priority %g, was pushed with %g", op, seq, k, q->items[i].priority, lp[k]);
        }
    }
}
static void pq_round()
{
    static Item items[CAPMAX];
    PriorityQueue q;
    int caps[] = { 1, 2, 3, 4, 5, 6, 7, 8, 13, 15, 16, 17, 31, 40, 64, 400 };
    int cap = caps[rnd(16)], mode = rnd(4), steps = cap > 64 ? 1500 : 400;
    PriorityQueue_INIT(&q, items, cap);
    if(q.itemsAmount != 0 || q.maxElements != cap) viol("C08", "init", "queue not empty after initialisation");
    for(int i=0; i<cap; i++) { items[i] = (Item) { .address = &store[i] }; live[i] = false; }
    int grow = rnd(3);
    for(int s=0; s<steps && nv < 50; s++)
    {
        int k = rnd(100), n = 0, op;
        double mn = 1e9, mx = -1e9;
        for(int i=0; i<cap; i++) if(live[i]) { n++; if(lp[i] < mn) mn = lp[i]; if(lp[i] > mx) mx = lp[i]; }
        op = grow == 0 ? (k < 70 ? 0 : k < 80 ? 1 : k < 85 ? 2 : k < 92 ? 3 : 4) : grow == 1 ? (k < 45 ? 0 : k < 65 ? 1 : k < 75 ? 2 : k < 95 ? 3 : 4) : (k < 55 ? 0 : k < 70 ? 1 : k < 80 ? 2 : k < 90 ? 3 : 4);
        c_ops++;
        if(op == 0)
        {
            double p = n && rnd(4) == 0 ? (rnd(2) ? mn : mx) : rprio(mode);
            PriorityQueue_Push_Feedback f = PriorityQueue_Push(&q, p);
            c_push++;
            bool full = n == cap;
            c_full += full;
            if(full && p < mn)
            {
                c_refused++;
                if(f.added || f.evicted) viol("C08", "push-not-refused", "cap %d: priority %g below minimum %g was added=%d evicted=%d", cap, p, mn, f.added, f.evicted);
            }
            else
            {
                if(!f.added) viol("C08", "push-refused", "cap %d, %d items: priority %g (min %g) refused", cap, n, p, mn);
                if(f.evicted != full) viol("C08", "eviction", "cap %d, %d items: evicted=%d", cap, n, f.evicted);
                if(full && f.evicted)
                {
                    c_evict++;
                    if(p == mn) c_evict_tie++;
                    long v = (long*) f.evictedItem.address - store;
                    if(v < 0 || v >= cap || !live[v]) viol("C08", "evicted-dead", "evicted item was not in the queue");
                    else
                    {
                        if(lp[v] != mn || f.evictedItem.priority != mn) viol("C08", "evicted-not-min", "cap %d step %d: evicted priority %g (reported %g), minimum %g", cap, s, lp[v], f.evictedItem.priority, mn);
                        live[v] = false;
                    }
                    if(f.addedItem.address != f.evictedItem.address) viol("C08", "storage-not-reused", "the storage of the evicted item is not the one handed out");
                }
                if(f.added)
                {
                    long v = (long*) f.addedItem.address - store;
                    if(v < 0 || v >= cap) viol("C08", "foreign-address", "push handed out a foreign address");
                    else
                    {
                        if(live[v]) viol("C08", "shared-storage", "cap %d step %d: push handed out the storage of a held item", cap, s);
                        if(f.addedItem.priority != p) viol("C08", "added-priority", "added with %g instead of %g", f.addedItem.priority, p);
                        live[v] = true; lp[v] = p;
                    }
                }
            }
            check_contents(&q, cap, "push", s);
        }
        else if(op == 1 || op == 2)
        {
            void *a = NULL; double p = -5;
            int nulls = rnd(8);
            bool ok = op == 1 ? PriorityQueue_PopMax(&q, nulls == 1 ? NULL : &a, nulls == 2 ? NULL : &p) : PriorityQueue_PopMin(&q, nulls == 1 ? NULL : &a, nulls == 2 ? NULL : &p);
            if(op == 1) c_popmax++; else c_popmin++;
            if(ok != (n > 0)) viol("C08", "pop-result", "pop on %d items returned %d", n, ok);
            if(ok && nulls != 1)
            {
                long v = (long*) a - store;
                double want = op == 1 ? mx : mn;
                if(v < 0 || v >= cap || !live[v]) { viol("C08", "popped-dead", "popped item was not in the queue"); break; }
                if(lp[v] != want || (nulls != 2 && p != want)) viol("C08", op == 1 ? "pop-not-max" : "pop-not-min", "cap %d, %d items, step %d: popped %g (reported %g), expected %g", cap, n, s, lp[v], p, want);
                live[v] = false;
            }
            else if(ok)      /* address not asked for: find which one went */
            {
                double want = op == 1 ? mx : mn; int gone = -1;
                for(int i=0; i<cap; i++) if(live[i])
                {
                    bool there = false;
                    for(int j=0; j<q.itemsAmount; j++) if(q.items[j].address == &store[i]) there = true;
                    if(!there) gone = i;
                }
                if(gone < 0 || lp[gone] != want || p != want) viol("C08", "pop-without-address", "cap %d: the item removed is not the one of the extreme priority", cap);
                if(gone >= 0) live[gone] = false;
            }
            check_contents(&q, cap, op == 1 ? "popmax" : "popmin", s);
        }
        else if(op == 3)
        {
            void *a = NULL;
            if(!n) { if(PriorityQueue_PopAt(&q, 0, &a)) viol("C08", "pop-result", "popat on an empty queue succeeded"); continue; }
            int i = rnd(n);
            long v = (long*) q.items[i].address - store;
            bool ok = PriorityQueue_PopAt(&q, i, &a);
            c_popat++;
            if(!ok || a != (void*) &store[v]) viol("C08", "popat-item", "popat(%d) did not return the item at that place", i);
            live[v] = false;
            check_contents(&q, cap, "popat", s);
        }
        else
        {
            /* re-prioritisation: decay, random or constant, then rebuild */
            int m = rnd(3);
            for(int i=0; i<q.itemsAmount; i++)
            {
                double p = m == 0 ? q.items[i].priority * 0.9999 : m == 1 ? rprio(mode) : 0.5;
                q.items[i].priority = p;
                lp[(long*) q.items[i].address - store] = p;
            }
            PriorityQueue_Rebuild(&q);
            c_rebuild++;
            check_contents(&q, cap, "rebuild", s);
        }
    }
    /* drain: all remaining items come out in order */
    double last = 1e18; int up = rnd(2), n = 0;
    for(int i=0; i<cap; i++) n += live[i];
    for(int i=0; i<n; i++)
    {
        void *a; double p;
        if(!(up ? PriorityQueue_PopMin(&q, &a, &p) : PriorityQueue_PopMax(&q, &a, &p))) { viol("C08", "drain", "queue ran empty early"); break; }
        if(i && (up ? p < last : p > last)) viol("C08", "drain-order", "cap %d: draining gives %g after %g", cap, p, last);
        last = p;
    }
}

/* --- hash table --- */
typedef struct { int v; int pad; } Key;
static int hmod = 1;
static bool keq(void *a, void *b) { return ((Key*) a)->v == ((Key*) b)->v; }
static HASH_TYPE khash(void *a) { return hmod == 0 ? ((Key*) a)->v : hmod == 1 ? 7 : (HASH_TYPE) ((Key*) a)->v * hmod; }
#define HK 300
static void ht_round()
{
    static VMItem st[HK]; static VMItem *ptrs[HK]; static VMItem *bucketarr[64];
    static Key keys[HK][3]; static void *ref[HK]; static int values[4096];
    HashTable h;
    int bs[] = { 1, 2, 3, 7, 16, 64 }, caps[] = { 1, 2, 5, 20, 100, HK };
    int buckets = bs[rnd(6)], cap = caps[rnd(6)];
    hmod = rnd(4) == 0 ? 1 : rnd(2) ? 0 : buckets;
    memset(bucketarr, 0xA5, sizeof(bucketarr)); memset(st, 0xA5, sizeof(st)); memset(ptrs, 0xA5, sizeof(ptrs));
    HashTable_INIT(&h, st, ptrs, bucketarr, buckets, cap, keq, khash);
    int universe = cap * 2 < HK ? cap * 2 : HK;
    if(universe < 4) universe = 4;
    for(int i=0; i<universe; i++) { for(int j=0; j<3; j++) keys[i][j] = (Key) { i, (int) rnd(1000) }; ref[i] = NULL; }
    int held = 0;
    for(int s=0; s<500 && nv < 50; s++)
    {
        int i = rnd(universe), k = rnd(10);
        c_ops++;
        if(k < 5 && (ref[i] || held < cap))
        {
            void *v = &values[rnd(4096)];
            if(ref[i]) c_hupd++; else held++;
            if(held == cap) c_hfull++;
            HashTable_Set(&h, &keys[i][rnd(3)], v); ref[i] = v; c_hset++;
        }
        else if(k < 8 && ref[i]) { HashTable_Delete(&h, &keys[i][rnd(3)]); ref[i] = NULL; held--; c_hdel++; }
        if(s % 7 == 0 || s > 480)
        {
            for(int j=0; j<universe; j++)
            {
                c_hget++;
                void *g = HashTable_Get(&h, &keys[j][rnd(3)]);
                if(g != ref[j]) viol("C09", g == NULL ? "lost" : ref[j] == NULL ? "ghost" : "wrong-value", "buckets %d, cap %d, hash mode %d, step %d: lookup of key %d gives %s", buckets, cap, hmod, s, j, g == NULL ? "nothing" : ref[j] == NULL ? "a deleted entry" : "another value");
            }
            int total = 0, longest = 0, cnt[64] = {0};
            for(int j=0; j<universe; j++) if(ref[j]) { int b = khash(&keys[j][0]) % buckets; cnt[b]++; total++; if(cnt[b] > longest) longest = cnt[b]; }
            if(HashTable_MaximumChainLength(&h) != longest) viol("C09", "chain-length", "longest chain reported %d, is %d", HashTable_MaximumChainLength(&h), longest);
            if(longest > c_maxchain) c_maxchain = longest;
            if(h.VMStack.stackpointer != cap - total) viol("C09", "leaked-entry", "%d of %d entries free with %d held", h.VMStack.stackpointer, cap, total);
        }
    }
}

/* --- atom names --- */
static void atom_round(long names)
{
    Narsese_INIT();
    static char (*nm)[40]; static int *id; static char *byid;
    if(!nm) { nm = malloc(sizeof(*nm) * 70000); id = malloc(sizeof(int) * 70000); byid = malloc(70000); }
    memset(byid, 0, 70000);
    long n = 0;
    char prefix[32]; int pl = rnd(25);
    for(int i=0; i<pl; i++) prefix[i] = 'a' + rnd(26);
    prefix[pl] = 0;
    int free0 = 0;
    for(int i=0; i<ATOMS_MAX; i++) if(Narsese_atomNames[i][0]) free0++;
    long room = ATOMS_MAX - free0 - 3;
    if(names > room) names = room;
    for(long s=0; s<names*2 && nv < 50; s++)
    {
        char b[40];
        bool old = n && rnd(2);
        long k = old ? rnd(n) : n;
        if(old) snprintf(b, 40, "%s", nm[k]);
        else
        {
            if(n >= names) continue;
            int w = rnd(4);
            if(w == 0) snprintf(b, 32, "%sq%ld", prefix, n);
            else if(w == 1) snprintf(b, 32, "%ldw%s", n, prefix);
            else if(w == 2) snprintf(b, 32, "%c%c%ld%c", 'a' + (int) rnd(26), 'A' + (int) rnd(26), n, 'a' + (int) rnd(26));
            else { memset(b, 'z', 31); b[31] = 0; char t[12]; snprintf(t, 12, "%ld", n); memcpy(b + 31 - strlen(t), t, strlen(t)); b[0] = 'L'; }
            /* names are unique by construction up to coincidence: skip coincidences */
            snprintf(nm[n], 40, "%s", b);
        }
        char tmp[40]; memset(tmp, 0x5A, 40); snprintf(tmp, 40, "%s", b);    /* different garbage behind the terminator */
        if(rnd(2)) memset(tmp + strlen(b) + 1, 0, 39 - strlen(b));
        int a = Narsese_AtomicTermIndex(tmp);
        c_intern++;
        if(a < 1 || a >= ATOMS_MAX + 1) { viol("C09", "atom-range", "atom '%s' interned as %d", b, a); break; }
        if(strcmp(Narsese_atomNames[a-1], b)) viol("C09", "atom-name", "atom '%s' interned under the name '%s'", b, Narsese_atomNames[a-1]);
        if(old) { c_hit++; if(a != id[k]) viol("C09", "atom-identity", "atom '%s' was %d, is now %d", b, id[k], a); }
        else
        {
            if(byid[a])
            {
                bool coincidence = false;
                for(long j=0; j<n; j++) if(!strcmp(nm[j], b)) coincidence = true;
                if(!coincidence) viol("C09", "atom-shared", "atom '%s' got the identity of another name", b);
                continue;
            }
            byid[a] = 1; id[n] = a; n++;
        }
    }
    /* a full atom table still answers for known names and rejects new ones */
    if(ATOMS_MAX < 5000)
    {
        volatile long extra = 0; volatile bool rejected = false;
        if(!setjmp(hx_jmp))
        {
            hx_jmp_on = 1;
            for(; extra < ATOMS_MAX + 5; extra++) { char t[32]; snprintf(t, 32, "fill%ld", extra); int a = Narsese_AtomicTermIndex(t); if(strcmp(Narsese_atomNames[a-1], t)) { viol("C09", "atom-full-name", "'%s' interned as another name in a full table", t); break; } }
            hx_jmp_on = 0;
        }
        else rejected = true;
        if(!rejected) viol("C09", "atom-full", "more than %d atom names were accepted", ATOMS_MAX);
        c_rej++;
        for(long j=0; j<n; j++) { char t[40]; snprintf(t, 40, "%s", nm[j]); c_hit++; if(Narsese_AtomicTermIndex(t) != id[j]) { viol("C09", "atom-identity", "atom '%s' changed identity when the table was full", t); break; } }
    }
}

/* --- implication tables --- */
static long c_tadd = 0, c_trev = 0, c_tfull = 0, c_tref = 0, c_tdis = 0, c_trem = 0;
static double t_exp(Truth t) { return t.confidence*(t.frequency-0.5)+0.5; }
static double t_w(double c) { return c/(1.0-c); }
static bool near(double a, double b) { return fabs(a-b) <= 1e-9*(1+fabs(a)+fabs(b)); }
static bool same_imp(Implication *a, Implication *b)
{
    return !memcmp(a->term.atoms, b->term.atoms, sizeof(a->term.atoms)) && a->truth.frequency == b->truth.frequency && a->truth.confidence == b->truth.confidence && !memcmp(&a->stamp, &b->stamp, sizeof(Stamp)) &&
           a->occurrenceTimeOffset == b->occurrenceTimeOffset && a->sourceConcept == b->sourceConcept && a->sourceConceptId == b->sourceConceptId && a->creationTime == b->creationTime;
}
static int t_find(Table *t, Term *x, int *amount)
{
    int at = -1; *amount = 0;
    for(int i=0; i<t->itemsAmount; i++) if(!memcmp(t->array[i].term.atoms, x->atoms, sizeof(x->atoms))) { at = i; (*amount)++; }
    return at;
}
static void tb_round()
{
    static Table t, old; static Concept src[3];
    memset(&t, 0, sizeof(t));
    int nterms = 1 + rnd(TABLE_SIZE*2 + 3), steps = 20 + rnd(150), mode = rnd(4); long id = 1;
    Term terms[TABLE_SIZE*2+4];
    for(int i=0; i<nterms; i++)
    {
        terms[i] = (Term) {0};
        terms[i].atoms[0] = Narsese_CopulaIndex(TEMPORAL_IMPLICATION); terms[i].atoms[1] = 60 + i % 7; terms[i].atoms[2] = 60 + i / 7;
        if(rnd(2)) { terms[i].hash = Term_Hash(&terms[i]); terms[i].hashed = true; }
    }
    for(int s=0; s<steps; s++)
    {
        old = t;
        if(t.itemsAmount && rnd(12) == 0)
        {
            int k = rnd(t.itemsAmount);
            Table_Remove(&t, k); c_trem++; c_ops++;
            if(t.itemsAmount != old.itemsAmount-1) viol("C10", "remove-amount", "removing one of %d entries leaves %d", old.itemsAmount, t.itemsAmount);
            else for(int i=0; i<t.itemsAmount; i++) if(!same_imp(&t.array[i], &old.array[i < k ? i : i+1])) { viol("C10", "remove-other", "removing entry %d of %d changes another one", k, old.itemsAmount); break; }
            continue;
        }
        Implication m = { .term = terms[rnd(nterms)] };
        m.truth.frequency = mode == 0 ? rnd(2) : mode == 1 ? rnd(5)/4.0 : rnd(1000001)/1000000.0;
        m.truth.confidence = mode == 0 ? 0.5 : mode == 2 ? (rnd(3)+1)/4.0 : 0.01 + rnd(1000000)/1000000.0*0.97;
        m.occurrenceTimeOffset = mode == 1 ? rnd(20) : rnd(20000)/1000.0;
        int ids = rnd(5); for(int i=0; i<ids; i++) m.stamp.evidentialBase[i] = id++;
        m.sourceConcept = &src[rnd(3)]; m.sourceConceptId = rnd(5); m.creationTime = s;
        Implication given = m;
        int before, after, k = t_find(&old, &m.term, &before);
        double mn = 9; for(int i=0; i<old.itemsAmount; i++) if(t_exp(old.array[i].truth) < mn) mn = t_exp(old.array[i].truth);
        Implication *r = Table_AddAndRevise(&t, &m);
        c_ops++; c_tadd++;
        int at = t_find(&t, &given.term, &after);
        if(t.itemsAmount < 0 || t.itemsAmount > TABLE_SIZE) { viol("C10", "capacity", "%d entries", t.itemsAmount); break; }
        if(after > 1) viol("C10", "duplicate", "%d entries for the same implication", after);
        for(int i=1; i<t.itemsAmount; i++) if(t_exp(t.array[i].truth) > t_exp(t.array[i-1].truth) + 1e-15) { viol("C10", "order", "entry %d ranked below the weaker entry %d", i, i-1); break; }
        if(r != NULL && (at < 0 || r != &t.array[at])) viol("C10", "result", "the returned entry is not the one of the implication added");
        if(before)
        {
            c_trev++;
            if(at < 0 || r == NULL || t.itemsAmount != old.itemsAmount) { viol("C10", "revision-lost", "the entry of a known implication is gone after adding evidence (%d -> %d entries)", old.itemsAmount, t.itemsAmount); continue; }
            Implication *o = &old.array[k], *n = &t.array[at];
            double w1 = t_w(o->truth.confidence), w2 = t_w(given.truth.confidence), w = w1+w2, c = w/(w+1);
            if(c > 0.99) c = 0.99;
            if(c < o->truth.confidence) c = o->truth.confidence;
            if(c < given.truth.confidence) c = given.truth.confidence;
            if(!near(n->truth.frequency, (w1*o->truth.frequency + w2*given.truth.frequency)/w) || !near(n->truth.confidence, c))
                viol("C10", "revision-truth", "(%g,%g) and (%g,%g) pooled to (%g,%g)", o->truth.frequency, o->truth.confidence, given.truth.frequency, given.truth.confidence, n->truth.frequency, n->truth.confidence);
            if(!near(n->occurrenceTimeOffset, (w1*o->occurrenceTimeOffset + w2*given.occurrenceTimeOffset)/w)) viol("C10", "revision-offset", "offsets %g (w %g) and %g (w %g) averaged to %g", o->occurrenceTimeOffset, w1, given.occurrenceTimeOffset, w2, n->occurrenceTimeOffset);
        }
        else if(old.itemsAmount < TABLE_SIZE || t_exp(given.truth) > mn)
        {
            if(old.itemsAmount == TABLE_SIZE) c_tdis++;
            if(at < 0 || r == NULL) viol("C10", "not-added", "an implication of expectation %g was not added to a table with %d entries, weakest %g", t_exp(given.truth), old.itemsAmount, mn);
            else if(!same_imp(&t.array[at], &given)) viol("C10", "added-changed", "a new implication was changed when it was added");
            if(t.itemsAmount != MIN(TABLE_SIZE, old.itemsAmount+1)) viol("C10", "amount", "%d entries after adding to %d", t.itemsAmount, old.itemsAmount);
        }
        else
        {
            c_tref++;
            if(at >= 0 || r != NULL) viol("C10", "weaker-displaces", "an implication of expectation %g displaced another one, weakest %g", t_exp(given.truth), mn);
        }
        /* the others: unchanged, at most one of minimal expectation displaced */
        int lost = 0;
        for(int i=0; i<old.itemsAmount; i++)
        {
            if(i == k && before) continue;
            int d, j = t_find(&t, &old.array[i].term, &d);
            if(j < 0) { lost++; if(t_exp(old.array[i].truth) > mn) viol("C10", "stronger-displaced", "an entry of expectation %g was displaced, the weakest had %g", t_exp(old.array[i].truth), mn); }
            else if(!same_imp(&t.array[j], &old.array[i])) viol("C10", "other-changed", "another entry was changed");
        }
        if(lost > (!before && old.itemsAmount == TABLE_SIZE && at >= 0 ? 1 : 0)) viol("C10", "lost", "%d entries lost", lost);
        if(t.itemsAmount == TABLE_SIZE) c_tfull++;
    }
}
int main(int argc, char **argv)
{
    long rounds = atol(argv[2]);
    NAR_INIT();
    for(long r=0; r<rounds; r++)
    {
        rs = strtoull(argv[1], NULL, 10) * 1000003ULL + r * 7919ULL + 1; rnd(1);
        if(!strcmp(argv[3], "pq")) pq_round();
        else if(!strcmp(argv[3], "ht")) ht_round();
        else if(!strcmp(argv[3], "tb")) tb_round();
        else atom_round(strtol(argv[4], NULL, 10));
    }
    printf("@@{\"k\":\"sum\",\"operations\":%ld,\"pushes\":%ld,\"pushes_full\":%ld,\"refused\":%ld,\"evictions\":%ld,\"tie_evictions\":%ld,\"popmax\":%ld,\"popmin\":%ld,\"popat\":%ld,\"rebuilds\":%ld,"
           "\"sets\":%ld,\"updates\":%ld,\"gets\":%ld,\"deletes\":%ld,\"full_tables\":%ld,\"interned\":%ld,\"interned_again\":%ld,\"full_atom_tables\":%ld,\"table_additions\":%ld,\"table_revisions\":%ld,\"table_full\":%ld,\"table_refused\":%ld,\"table_displaced\":%ld,\"table_removals\":%ld}\n",
           c_ops, c_push, c_full, c_refused, c_evict, c_evict_tie, c_popmax, c_popmin, c_popat, c_rebuild, c_hset, c_hupd, c_hget, c_hdel, c_hfull, c_intern, c_hit, c_rej, c_tadd, c_trev, c_tfull, c_tref, c_tdis, c_trem);
    return 0;
}
