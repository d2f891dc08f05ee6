// lists, queues and stacks against a plain sequence (C09)
#include "h.hh"
#include <algorithm>
#include "trick/dllist.h"
#include "trick/lqueue.h"
#include "trick/lstack.h"
static int eq(void *a, void *b) { return a == b; }
static int gt(void *a, void *b) { return a > b; }
typedef std::vector<std::pair<DLLPOS, void *>> Ref;
static const char *op = "";
static void same(DLLIST *l, Ref &r) {
    if (DLL_GetCount(l) != (int)r.size()) fail("%s: count %d, %d elements", op, DLL_GetCount(l), (int)r.size());
    DLLPOS p = DLL_GetHeadPosition(l), q = DLL_GetTailPosition(l); size_t n = r.size();
    for (size_t i = 0; i < n; i++) { if (!p || p != r[i].first || p->info != r[i].second) fail("%s: element %d of %d is not the one expected going forward", op, (int)i, (int)n); p = p->next; }
    if (p) fail("%s: the list goes on after its last element", op);
    for (size_t i = n; i-- > 0;) { if (!q || q != r[i].first) fail("%s: element %d of %d is not the one expected going backward", op, (int)i, (int)n); q = q->prev; }
    if (q) fail("%s: the list goes on before its first element", op);
}
int main(int c, char **v) {
    H h(c, v); char s[120]; freopen("/dev/null", "w", stderr);
    while (h.more()) {
        int kind = h.below(3); LQUEUE *Q = 0; LSTACK *S = 0; DLLIST *l = kind == 0 ? DLL_Create() : kind == 1 ? &(Q = LQ_Create())->list : &(S = LS_Create())->list; Ref r; int steps = h.range(1, 25); same(l, r);
        for (int k = 0; k < steps; k++) {
            void *d = (void *)h.range(1, 6); size_t n = r.size(), i = n ? h.below(n) : 0; void *got = 0, *want = 0; DLLPOS np = 0; int o = kind == 0 ? h.below(14) : 20 + h.below(5);
            if (n > 10 && kind == 0) o = 4;
            snprintf(s, 120, "container %d, operation %d at %d of %d", kind, o, (int)i, (int)n); op = s;
            DLLPOS p = n ? r[i].first : 0; Ref::iterator it = r.begin() + i;
            switch (o) {
            case 0: np = DLL_AddHead(d, l); r.insert(r.begin(), {np, d}); break;
            case 1: np = DLL_AddTail(d, l); r.push_back({np, d}); break;
            case 2: np = DLL_InsertBefore(p, d, l); if (n) r.insert(it, {np, d}); else if (np) fail("%s: inserted without a position", s); break;
            case 3: np = DLL_InsertAfter(p, d, l); if (n) r.insert(it + 1, {np, d}); else if (np) fail("%s: inserted without a position", s); break;
            case 4: got = DLL_RemoveAt(p, l); if (n) { want = it->second; r.erase(it); } break;
            case 5: got = DLL_SetAt(p, d, l); if (n) { want = it->second; it->second = d; } break;
            case 6: got = DLL_GetAt(p, l); if (n) want = it->second; break;
            case 7: { DLLPOS q = p; got = DLL_GetNext(&q, l); if (n) { want = it->second; if (q != (i + 1 < n ? r[i + 1].first : 0)) fail("%s: the position does not move to the next", s); } else if (q) fail("%s: a position appears", s); break; }
            case 8: { DLLPOS q = p; got = DLL_GetPrev(&q, l); if (n) { want = it->second; if (q != (i ? r[i - 1].first : 0)) fail("%s: the position does not move to the one before", s); } break; }
            case 9: { got = DLL_FindPos(d, l); for (auto &e : r) if (e.second == d) { want = e.first; break; } break; }
            case 10: { int x = h.range(-1, n + 1); got = DLL_FindIndex(x, l); if (x >= 0 && x < (int)n) want = r[x].first; break; }
            case 11: { l->compare = h.coin() ? eq : 0; got = DLL_Find(d, l); if (l->compare) for (auto &e : r) if (e.second == d) want = d; break; }
            case 12: if (h.below(4) == 0) { DLL_RemoveAll(l); r.clear(); } break;
            case 13: if (h.below(3) == 0) { l->compare = gt; bubble_sort(l); std::vector<void *> x; for (auto &e : r) x.push_back(e.second); std::stable_sort(x.begin(), x.end()); std::vector<void *> y, z; int m = 0; for (DLLPOS q = l->head; q; q = q->next) y.push_back(q->info); for (auto e : y) m += (long)e; int w = 0; for (auto e : x) w += (long)e; if (m != w || y.size() != x.size()) fail("%s: sorting changes the elements", s); for (size_t j = 0; j < n; j++) r[j].second = y[j]; } break;
            case 20: case 21: if (Q) LQ_EnQ(d, Q); else LS_Push(d, S); r.insert(r.begin(), {l->head, d}); break;
            case 22: got = Q ? LQ_DeQ(Q) : LS_Pop(S); if (n) { Ref::iterator e = Q ? r.end() - 1 : r.begin(); want = e->second; r.erase(e); } break;
            case 23: got = Q ? LQ_Peek(Q) : LS_Peek(S); if (n) want = Q ? r.back().second : r.front().second; break;
            case 24: got = (void *)(long)(Q ? LQ_GetCount(Q) : LS_GetCount(S)); want = (void *)(long)n; break;
            }
            if (got != want) fail("%s: %p instead of %p", s, got, want);
            same(l, r);
        }
        if (kind == 0) DLL_Delete(l); else { DLL_RemoveAll(l); free(Q); free(S); }
    }
    return h.ok();
}
