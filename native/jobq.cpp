// the job queue against a reference: -DWANT=1 order and membership (C01), -DWANT=2 dispatch times (C02)
#include "h.hh"
#include <algorithm>
#include <string>
#include <vector>
#define private public
#define protected public
#include "trick/ScheduledJobQueue.hh"
#include "trick/TrickConstant.hh"
#include "trick/SimObject.hh"
#include "trick/InstrumentBase.hh"
using namespace Trick;
static std::string trace;
static void T(const char *f, ...) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, 300, f, a); va_end(a); trace += b; if (trace.size() > 3000) trace.erase(0, 500); }
#define CHECK(c, ...) do { if (!(c)) { char b_[400]; snprintf(b_, 400, __VA_ARGS__); fail("%s; operations: %s", b_, trace.c_str()); } } while (0)
static bool before(const JobData *a, const JobData *b, int asid) {
    int as = asid;
    if (a->job_class != b->job_class) return a->job_class < b->job_class;
    if (a->phase != b->phase) return a->phase < b->phase;
    if (as != b->sim_object_id) return as < b->sim_object_id;
    return a->id < b->id;
}
static std::vector<const void *> calls;
struct Inst : InstrumentBase { Inst(JobData *j) : InstrumentBase(j) {} int call() override { calls.push_back(this); return 0; } };
struct Obj : SimObject { int rc = 0; int call_function(JobData *j) override { calls.push_back(j); return j->sup_class_data ? 7 : 0; } double call_function_double(JobData *j) override { calls.push_back(j); return 2.5; } };
int main(int c, char **v) {
    H h(c, v);
    while (h.left()) {
        trace.clear();
        ScheduledJobQueue q;
        std::vector<JobData *> ref, pool; size_t cur = 0; long long njt = TRICK_MAX_LONG_LONG;
        Obj ob;
        int np = h.range(1, 14), few = h.coin() ? 3 : 70000;
        for (int i = 0; i < np; i++) {
            JobData *j = new JobData(); j->job_class = h.range(0, few); j->phase = (unsigned short)(h.coin() ? h.range(0, 3) : h.range(0, 65535)); j->sim_object_id = h.range(0, h.coin() ? 2 : 2000000); j->id = h.range(0, 5);
            j->disabled = h.below(4) == 0; j->system_job_class = h.below(5) == 0;
            j->cycle_tics = h.range(1, 6); j->next_tics = h.below(5) == 0 ? TRICK_MAX_LONG_LONG : h.range(0, 12); j->stop_tics = h.below(3) ? TRICK_MAX_LONG_LONG : h.range(0, 20);
            j->parent_object = &ob; j->sup_class_data = 0; pool.push_back(j);
        }
        int ops = h.range(1, 40);
        for (int k = 0; k < ops; k++) {
            int op = h.below(12);
            if (op <= 3) {
                JobData *j = pool[h.below(np)];
                if (std::find(ref.begin(), ref.end(), j) != ref.end()) continue;
                bool ign = h.below(4) == 0; int sid = j->sim_object_id;
                T("push%s(%d,%d,%d,%d) ", ign ? "_ignore" : "", j->job_class, j->phase, sid, j->id);
                size_t p = 0; while (p < ref.size() && !before(j, ref[p], ign ? 1000000 : sid)) p++;
                bool sorted = true; for (size_t a = 0; a + 1 < ref.size(); a++) if (before(ref[a + 1], ref[a], ref[a + 1]->sim_object_id)) sorted = false;
                if (!sorted) { trace.resize(trace.size()); continue; }
                j->handled = false;
                int r = ign ? q.push_ignore_sim_object(j) : q.push(j);
                ref.insert(ref.begin() + p, j); if (p < cur) cur++;
                CHECK(r == 0 && j->handled, "push returned %d, handled %d", r, j->handled);
                CHECK(j->sim_object_id == sid, "push changed the job's sim object id");
            } else if (op == 4) {
                JobData *j = pool[h.below(np)];
                auto it = std::find(ref.begin(), ref.end(), j); size_t p = it - ref.begin();
                T("remove(#%zu) ", p);
                int r = q.remove(j);
                CHECK(r == (it == ref.end() ? -1 : 0), "remove returned %d", r);
                if (it != ref.end()) { ref.erase(it); if (p < cur) cur--; }
            } else if (op == 5) { T("reset "); q.reset_curr_index(); cur = 0; }
            else if (op == 6) { unsigned i = h.below(ref.size() + 3); T("set_curr_index(%u) ", i); q.set_curr_index(i); if (i < ref.size()) cur = i; }
            else if (op == 7) {
                T("get_next_job ");
                JobData *e = 0; while (cur < ref.size() && !e) { if (!ref[cur]->disabled) e = ref[cur]; cur++; }
                JobData *r = q.get_next_job();
                if (WANT == 1) CHECK(r == e, "get_next_job returns the wrong job");
                if (r != e) break;
            } else if (op == 8 && WANT == 1) {
                if (q.list_size && q.curr_index < q.list_size) CHECK(q.top() == ref[cur], "top is not the current job");
                if (!q.list_size) CHECK(q.top() == NULL, "top of an empty queue");
                CHECK(q.empty() == ref.empty(), "empty()");
                if (h.below(8) == 0) { T("clear "); q.clear(); ref.clear(); cur = 0; njt = TRICK_MAX_LONG_LONG; }
                else if (h.below(4) == 0) {
                    T("execute_all_jobs ");
                    for (auto j : ref) { j->inst_before.clear(); j->inst_after.clear(); j->sup_class_data = h.below(8) == 0 ? (void *)1 : 0; }
                    std::vector<const void *> want; std::vector<Inst *> del; int rc = 0;
                    for (auto j : ref) {
                        int nb = h.below(3), na = h.below(3);
                        for (int i = 0; i < nb; i++) { Inst *x = new Inst(j); del.push_back(x); x->phase = h.below(3); j->add_inst_before(x); }
                        for (int i = 0; i < na; i++) { Inst *x = new Inst(j); del.push_back(x); x->phase = h.below(3); j->add_inst_after(x); }
                        for (size_t i = 1; i < j->inst_before.size(); i++) CHECK(j->inst_before[i - 1]->phase <= j->inst_before[i]->phase, "instrumentation not in phase order");
                        if (j->disabled || rc) continue;
                        for (auto x : j->inst_before) want.push_back(x);
                        want.push_back(j);
                        for (auto x : j->inst_after) want.push_back(x);
                        if (j->sup_class_data) rc = 7;
                    }
                    calls.clear(); int r = q.execute_all_jobs();
                    CHECK(r == rc, "execute_all_jobs returned %d, expected %d", r, rc);
                    CHECK(calls == want, "execute_all_jobs made %zu calls, expected %zu, or another order", calls.size(), want.size());
                    if (!ref.empty()) {
                        JobData *j = ref[0]; want.clear(); calls.clear();
                        for (auto x : j->inst_before) want.push_back(x);
                        want.push_back(j);
                        for (auto x : j->inst_after) want.push_back(x);
                        double d = j->call_double(); CHECK(d == 2.5 && calls == want, "call_double: wrong calls or value");
                    }
                    for (auto j : ref) { j->inst_before.clear(); j->inst_after.clear(); }
                    for (auto x : del) delete x;
                    cur = q.curr_index;
                    if (!rc) CHECK(cur == ref.size(), "execute_all_jobs did not reach the end");
                }
            } else if (op == 9 && WANT == 2) {
                long long t = h.range(0, 14); bool fj = h.below(4) == 0;
                T("%s(%lld)@%zu ", fj ? "find_job" : "find_next_job", t, cur);
                JobData *e = 0;
                std::vector<long long> want; for (auto j : ref) want.push_back(j->next_tics);
                while (cur < ref.size() && !e) {
                    JobData *j = ref[cur];
                    if (fj) { if (j->next_tics == t && !j->disabled) e = j; }
                    else if (j->next_tics == t) {
                        if (!j->system_job_class) { long long n = t + j->cycle_tics; want[cur] = n > j->stop_tics ? TRICK_MAX_LONG_LONG : n; njt = std::min(njt, want[cur]); }
                        if (!j->disabled) e = j;
                    } else if (j->next_tics > t) njt = std::min(njt, j->next_tics);
                    cur++;
                }
                JobData *r = fj ? q.find_job(t) : q.find_next_job(t);
                CHECK(r == e, "find%s_job(%lld) returns the wrong job", fj ? "" : "_next", t);
                for (size_t i = 0; i < ref.size(); i++) CHECK(ref[i]->next_tics == want[i], "job %zu next call %lld, expected %lld", i, ref[i]->next_tics, want[i]);
            } else if (op == 10 && WANT == 2) {
                if (h.coin()) { T("get_next_job_call_time "); for (size_t i = cur; i < ref.size(); i++) njt = std::min(njt, ref[i]->next_tics); long long r = q.get_next_job_call_time(); CHECK(r == njt, "get_next_job_call_time %lld, expected %lld", r, njt); }
                else if (h.coin() && !ref.empty()) { JobData *j = ref[h.below(ref.size())]; long long t = h.range(0, 14); T("test_next_job_call_time(%lld,%lld) ", j->next_tics, t); if (j->next_tics > t && j->next_tics < njt) njt = j->next_tics; q.test_next_job_call_time(j, t); }
                else { long long t = h.coin() ? TRICK_MAX_LONG_LONG : h.range(0, 20); T("set_next_job_call_time(%lld) ", t); q.set_next_job_call_time(t); njt = t; }
            } else if (op == 11 && WANT == 2) {
                JobData *j = pool[h.below(np)]; long long was = j->next_tics;
                int w = h.below(5);
                if (w == 0) { long long t = h.range(0, 30); if (h.below(6) == 0) j->cycle_tics = 0; j->set_next_call_time(t);
                    long long e = was > t ? (j->cycle_tics ? (t / j->cycle_tics + 1) * j->cycle_tics : was) : t;
                    T("set_next_call_time(%lld) ", t); CHECK(j->next_tics == e, "set_next_call_time(%lld): next call %lld, was %lld, cycle %lld, expected %lld", t, j->next_tics, was, j->cycle_tics, e); if (!j->cycle_tics) j->cycle_tics = 3; }
                else if (w == 1) { JobData::set_time_tic_value(h.coin() ? 1000000 : 1000); double cy = h.coin() ? h.range(1, 5000) * 1e-6 : h.unit() * 100; j->set_cycle(cy); long long e = llround(cy * JobData::time_tic_value);
                    CHECK(j->cycle == cy && j->cycle_tics == e, "set_cycle(%.17g): %lld tics, expected %lld at %lld tics per second", cy, j->cycle_tics, e, JobData::time_tic_value); j->cycle_tics = h.range(1, 6); }
                else if (w == 2) { j->enable(); CHECK(!j->disabled, "enable"); }
                else if (w == 3) { j->disable(); CHECK(j->disabled, "disable"); if (h.coin()) j->enable(); }
                else { JobData a, b; for (JobData *p : {&a, &b}) { p->disabled = h.coin(); p->complete = h.coin(); p->handled = h.coin(); p->cycle = h.real(9); p->start = h.real(9); p->stop = h.real(9); p->phase = h.below(65536); p->system_job_class = h.below(9); p->thread = h.below(99);
                        p->cycle_tics = h.u(); p->start_tics = h.u(); p->stop_tics = h.u(); p->next_tics = h.u(); p->job_class_name = h.coin() ? "scheduled" : "initialization"; p->id = h.below(99); p->sim_object_id = h.below(99); p->job_class = h.below(99); p->name = h.coin() ? "a" : "b"; }
                    JobData o(b); b.copy_from_checkpoint(&a);
                    CHECK(b.disabled == a.disabled && b.complete == a.complete && b.handled == a.handled && b.cycle == a.cycle && b.start == a.start && b.stop == a.stop && b.phase == a.phase && b.system_job_class == a.system_job_class && b.thread == a.thread && b.cycle_tics == a.cycle_tics
                        && b.start_tics == a.start_tics && b.stop_tics == a.stop_tics && b.next_tics == a.next_tics && b.job_class_name == a.job_class_name, "copy_from_checkpoint does not restore every field");
                    CHECK(b.id == o.id && b.sim_object_id == o.sim_object_id && b.job_class == o.job_class && b.name == o.name, "copy_from_checkpoint changes the job's identity"); }
            }
            if (WANT == 1) {
                CHECK(q.size() == ref.size(), "size %u, expected %zu", q.size(), ref.size());
                for (size_t i = 0; i < ref.size(); i++) CHECK(q.list[i] == ref[i], "position %zu holds the wrong job", i);
                CHECK(q.get_curr_index() == cur, "current index %u, expected %zu", q.get_curr_index(), cur);
            } else if (q.list_size != ref.size() || q.curr_index != cur || (ref.size() && memcmp(q.list, ref.data(), ref.size() * sizeof(JobData *)))) break;
            if (WANT == 2) CHECK(q.next_job_time == njt, "next event time %lld, expected %lld", q.next_job_time, njt);
        }
        for (auto j : pool) delete j;
    }
    return h.ok();
}
