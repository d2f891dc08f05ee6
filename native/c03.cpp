// the executive's main loop, with real queues and jobs and instantaneous child threads, against a reference schedule (C03)
#include "h.hh"
#include <algorithm>
#include <string>
#include <vector>
#include "trick/Executive.hh"
#include "trick/ExecutiveException.hh"
#include "trick/TrickConstant.hh"
using namespace Trick;
typedef long long ll;
static std::vector<std::string> got, want;
static std::string setup;
static void add(std::vector<std::string> &l, const char *f, ...) { char b[200]; va_list a; va_start(a, f); vsnprintf(b, 200, f, a); va_end(a); l.push_back(b); }
static void note(const char *f, ...) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, 300, f, a); va_end(a); setup += b; }
static Executive *E;
enum Q { TOPQ, SYNCQ, INQ, SCHEDQ, ENDQ };
struct Spec { int q, th; ll cycle, start, stop; bool off; int at, act; int calls; ll next; int id; bool sys; ll nextset; };
static std::vector<Spec> specs;           // in queue order for each queue
static bool giveup;
static int freezes;
int Executive::freeze_loop() { if (exec_command != NoCmd) fail("freeze_loop called with a pending command; %s", setup.c_str()); add(got, "freeze @%lld", time_tics); return 0; }
static std::vector<std::string> child[4], cwant[4]; static bool instep; static void step_child();
struct Obj : SimObject {
    int call_function(JobData *j) override {
        if (got.size() > 5000) fail("the loop does not end; %s", setup.c_str());
        static unsigned rnd = 1; rnd = rnd * 1103515245 + 12345; if (!instep && (rnd >> 16) % 3 == 0) step_child();
        if (j->id == 900) { int r = E->advance_sim_time(); return r; }
        if (j->id == 901) return E->thread_sync();
        Spec &s = specs[j->id];
        if (s.th && s.q == SCHEDQ) add(child[s.th], "%d @%lld", s.id, E->threads[s.th]->curr_time_tics);
        else add(got, "%d(q%d t%d) @%lld", s.id, s.q, s.th, E->time_tics);
        if (j->complete && s.q == SCHEDQ && E->threads.size() > 1) fail("job %d is marked complete while it is being called; %s", s.id, setup.c_str());
        for (auto d : j->depends) if (!d->complete) fail("job %d called before the job it depends on was complete; %s", s.id, setup.c_str());
        int n = s.calls++;
        if (s.sys) { j->next_tics = E->time_tics + s.cycle; }
        if (n == s.at) { if (s.act == 99) return 7; if (s.act) E->exec_command = (SIM_COMMAND)s.act; }
        return 0;
    }
    double call_function_double(JobData *) override { return 0; }
};
extern "C" int exec_terminate_with_return(int rc, const char *f, int l, const char *m) { throw ExecutiveException(rc, f ? f : "", l, m); return 0; }
static ll sf;
struct Child : ThreadTriggerBase {
    int k; bool hold = false, running = false; Child(int k) : ThreadTriggerBase(TT_FLAG), k(k) {}
    void init() override {} void wait() override {} void dump(std::ostream &) override {}
    void fire() override {
        Threads *t = E->threads[k];
        add(got, "thread %d @%lld", k, t->curr_time_tics);
        if (running) fail("thread %d started while it is still running; %s", k, setup.c_str());
        if (t->curr_time_tics != E->time_tics) fail("thread %d started with time %lld at %lld; %s", k, t->curr_time_tics, E->time_tics, setup.c_str());
        if (t->child_complete) fail("thread %d started without being marked busy; %s", k, setup.c_str());
        t->job_queue.reset_curr_index(); t->job_queue.set_next_job_call_time(TRICK_MAX_LONG_LONG); running = true;
        if (t->process_type == PROCESS_TYPE_ASYNC_CHILD) { while (running) step(); if (hold) t->child_complete = false; }
    }
    void step() {
        Threads *t = E->threads[k]; bool was = instep; instep = true;
        if (JobData *j = t->job_queue.find_next_job(t->curr_time_tics)) { j->call(); j->complete = true; } else { running = false; t->child_complete = true; }
        instep = was;
    }
};
static void step_child() {
    static unsigned r = 7; r = r * 1103515245 + 12345; int m = E->threads.size(), o = (r >> 16) % m;
    for (int i = 0; i < m; i++) { int k = (o + i) % m; Child *c = (Child *)E->threads[k]->trigger_container.ttBase; if (k && c->running) { c->step(); return; } }
}
static long naps;
extern "C" int nanosleep(const struct timespec *, struct timespec *) { if (E) { if (naps++ > 100000) fail("waits for ever; %s", setup.c_str()); step_child(); } return 0; }
static ll nextof(const Spec &s, ll t) { ll n = s.next; if (n == TRICK_MAX_LONG_LONG) return n; return n > t ? n : TRICK_MAX_LONG_LONG; }
int main(int c, char **v) {
    H h(c, v);
    while (h.left()) {
        got.clear(); want.clear(); setup.clear(); specs.clear();
        static std::vector<Threads *> pool; static Executive &e = *new Executive; E = &e; Obj ob; e.frame_count = 0; e.rt_nap = true; naps = 0; for (int k = 0; k < 4; k++) { child[k].clear(); cwant[k].clear(); }
        sf = h.range(2, 9);
        ll term = h.below(6) == 0 ? 0 : h.range(0, 45);
        int m = h.coin() ? 1 : h.range(2, 4);
        note("frame %lld, end %lld, threads %d;", sf, term, m);
        std::vector<Threads *> th; std::vector<JobData *> jobs;
        for (int k = 0; k < m; k++) {
            if (k >= (int)pool.size()) { pool.push_back(new Threads(k, false)); pool[k]->trigger_container.ttBase = new Child(k); }
            Threads *t = pool[k]; e.threads.push_back(t); t->enabled = true; t->process_type = PROCESS_TYPE_SCHEDULED; t->amf_cycle_tics = t->amf_next_tics = t->curr_time_tics = 0;
            for (auto *q : {&t->job_queue, &t->top_of_frame_queue, &t->end_of_frame_queue}) { q->clear(); q->set_next_job_call_time(TRICK_MAX_LONG_LONG); }
            ((Child *)t->trigger_container.ttBase)->hold = false; ((Child *)t->trigger_container.ttBase)->running = false;
            t->rt_nap = false; t->child_complete = true; th.push_back(t);
            if (k) { int p = h.below(3); t->process_type = p == 0 ? PROCESS_TYPE_SCHEDULED : p == 1 ? PROCESS_TYPE_ASYNC_CHILD : PROCESS_TYPE_AMF_CHILD; t->amf_cycle_tics = p == 0 ? 0 : p == 1 ? (h.coin() ? 0 : h.range(1, 12)) : h.range(1, 12); t->amf_next_tics = 0; t->enabled = h.below(6) != 0;
                ((Child *)t->trigger_container.ttBase)->hold = p == 1 && h.below(3) == 0;
                note(" thread %d: type %d cycle %lld%s%s;", k, p, t->amf_cycle_tics, t->enabled ? "" : " off", ((Child *)t->trigger_container.ttBase)->hold ? " slow" : ""); }
        }
        int n = h.range(1, 12), trouble = h.below(3);
        for (int i = 0; i < n; i++) {
            Spec s; s.id = i; s.q = (int[]){TOPQ, INQ, SCHEDQ, SCHEDQ, SCHEDQ, ENDQ}[h.below(6)]; s.th = s.q == INQ ? 0 : h.below(m);
            if (s.th && (s.q == TOPQ || s.q == ENDQ) && th[s.th]->process_type != PROCESS_TYPE_SCHEDULED) s.th = 0;
            if (s.th && s.q == SCHEDQ && !th[s.th]->enabled) s.th = 0;
            s.cycle = h.range(1, 12); s.start = h.below(3) ? 0 : h.range(0, 9); s.stop = h.below(5) ? TRICK_MAX_LONG_LONG : h.range(0, 30); s.off = h.below(6) == 0;
            s.at = h.below(4); s.act = s.th == 0 && trouble == 0 && h.below(4) == 0 ? (h.coin() ? ExitCmd : h.coin() ? FreezeCmd : h.coin() ? RunCmd : 99) : 0; s.calls = 0; s.next = s.start;
            s.sys = s.q == INQ || (s.q == SCHEDQ && !s.th && h.below(6) == 0);
            if (s.sys) s.stop = TRICK_MAX_LONG_LONG;
            if (s.sys && s.off) s.off = false;
            specs.push_back(s);
            JobData *j = new JobData(); jobs.push_back(j);
            j->id = i; j->job_class = s.q; j->phase = 100 + i; j->sim_object_id = 1; j->parent_object = &ob; j->cycle_tics = s.cycle; j->next_tics = s.start; j->stop_tics = s.stop; j->disabled = s.off; j->system_job_class = s.sys; j->sup_class_data = 0; j->complete = false;
            Threads *t = th[s.th];
            if (s.q == TOPQ) (s.th ? t->top_of_frame_queue : e.top_of_frame_queue).push(j);
            else if (s.q == INQ) e.input_processor_run_queue.push(j);
            else if (s.q == SCHEDQ) t->job_queue.push(j);
            else (s.th ? t->end_of_frame_queue : e.end_of_frame_queue).push(j);
            note(" %d: q%d t%d start %lld cycle %lld%s%s%s", i, s.q, s.th, s.start, s.cycle, s.stop == TRICK_MAX_LONG_LONG ? "" : (" stop " + std::to_string(s.stop)).c_str(), s.off ? " off" : "", s.sys ? " sys" : "");
            if (s.act) note(" action %d at call %d", s.act, s.at);
            setup += ";";
        }
        // a main job may depend on a job of a synchronous child that is due whenever it is
        JobData adv, syn;
        for (JobData *j : {&adv, &syn}) { j->parent_object = &ob; j->sim_object_id = 1; j->job_class = 9; j->phase = 60000; j->cycle_tics = 1; j->next_tics = 0; j->stop_tics = TRICK_MAX_LONG_LONG; j->disabled = false; j->system_job_class = 1; }
        adv.id = 900; syn.id = 901; e.advance_sim_time_job = &adv; th[0]->job_queue.push(&adv); e.thread_sync_queue.push(&syn);
        if (m > 1) for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) if (specs[i].q == SCHEDQ && !specs[i].th && specs[k].q == SCHEDQ && specs[k].th && th[specs[k].th]->process_type == PROCESS_TYPE_SCHEDULED && !specs[k].off && specs[k].stop == TRICK_MAX_LONG_LONG && specs[k].start == specs[i].start && specs[k].cycle == specs[i].cycle && h.coin()) jobs[i]->depends.push_back(jobs[k]);
        e.time_tics = 0; e.time_last_pass_tics = 0; e.software_frame_tics = sf; e.next_frame_check_tics = sf; e.terminate_time = term; e.exec_command = h.below(8) == 0 ? FreezeCmd : NoCmd;
        // ---- reference
        int cmd = e.exec_command; ll t = 0, nfc = sf, frames = 0; int rc = 0; bool end = false;
        if (cmd) note(" starts frozen;");
        std::vector<int> calls(n, 0); std::vector<ll> anext(m, 0); std::vector<bool> busy(m, false);
        std::vector<ll> pt(m), acy(m); for (int k = 1; k < m; k++) { pt[k] = th[k]->process_type; acy[k] = th[k]->amf_cycle_tics; }
        auto call = [&](Spec &s) { if (s.th && s.q == SCHEDQ) { add(cwant[s.th], "%d @%lld", s.id, t); calls[s.id]++; return; } add(want, "%d(q%d t%d) @%lld", s.id, s.q, s.th, t); int k = calls[s.id]++; if (k == s.at) { if (s.act == 99) { rc = 7; end = true; } else if (s.act) cmd = s.act; } };
        auto frame = [&](int q) { for (int k = 0; k < m && !end; k++) { if (k && pt[k] != 0) continue; for (auto &s : specs) if (s.q == q && s.th == k && !s.off && !end) call(s); } };
        auto due = [&](int q, int k) { for (auto &s : specs) if (s.q == q && s.th == k && s.next == t && !end) { if (s.sys) { if (!s.off) s.next = t + s.cycle; } else { s.next = t + s.cycle > s.stop ? TRICK_MAX_LONG_LONG : t + s.cycle; } if (!s.off) call(s); } };
        for (int pass = 0; pass < 400 && !end; pass++) {
            if (cmd == FreezeCmd) { cmd = 0; add(want, "freeze @%lld", t); }
            if (t == nfc - sf) { frame(TOPQ); if (end) break; frames++; }
            for (int k = 1; k < m; k++) if (pt[k] == 1 && acy[k] && anext[k] < t && !busy[k]) while (anext[k] < t) anext[k] += acy[k];
            due(INQ, 0); if (end) break;
            for (int k = 1; k < m; k++) {
                bool r = th[k]->enabled && (pt[k] == 0 || (pt[k] == 2 && anext[k] == t) || (pt[k] == 1 && !busy[k] && (acy[k] == 0 || anext[k] == t)));
                if (!r) continue;
                add(want, "thread %d @%lld", k, t); due(SCHEDQ, k);
                if (((Child *)th[k]->trigger_container.ttBase)->hold) busy[k] = true;
                anext[k] += acy[k];
            }
            due(SCHEDQ, 0); if (end) break;
            ll nt = nfc;
            for (auto &s : specs) if ((s.q == SCHEDQ && !s.th) || s.q == INQ) nt = std::min(nt, nextof(s, t));
            for (auto &s : specs) if (s.q == SCHEDQ && s.th && th[s.th]->enabled && pt[s.th] == 0) nt = std::min(nt, nextof(s, t));
            for (int k = 1; k < m; k++) if (th[k]->enabled && pt[k] == 2 && acy[k]) nt = std::min(nt, anext[k]);
            nt = std::min(nt, std::max(term, (ll)0));
            if (cmd == ExitCmd) break;
            if (cmd == RunCmd) cmd = 0;
            if (term <= t) break;
            t = nt;
            if (t == nfc) { frame(ENDQ); if (end) break; nfc += sf; }
        }
        for (auto &s : specs) s.calls = 0;
        // ---- the code
        int r = -99;
        try { if (m == 1) e.loop_single_thread(); else e.loop_multi_thread(); fail("the loop returned; %s", setup.c_str()); } catch (ExecutiveException &x) { r = x.ret_code; }
        if (m > 1) for (int i = 0; i < 4000; i++) step_child();
        for (int k = 1; k < m; k++) if (child[k] != cwant[k]) fail("thread %d made %zu calls, expected %zu, or others; %s", k, child[k].size(), cwant[k].size(), setup.c_str());
        size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
        if (i < got.size() || i < want.size()) fail("call %zu: %s, expected %s; %s", i, i < got.size() ? got[i].c_str() : "end of run", i < want.size() ? want[i].c_str() : "end of run", setup.c_str());
        if (r != rc) fail("the run ended with status %d, expected %d; %s", r, rc, setup.c_str());
        if (e.frame_count != frames) fail("%lld frames counted, expected %lld; %s", (ll)e.frame_count, frames, setup.c_str());
        if (!rc && cmd != ExitCmd && e.time_tics != t) fail("the run ended at %lld, expected %lld; %s", e.time_tics, t, setup.c_str());
        if (e.get_sim_time() != (double)e.time_tics / e.time_tic_value) fail("get_sim_time");
        // isThreadReadyToRun, scheduled_thread_sync and thread_sync with nothing to wait for
        for (int k = 1; k < m; k++) { ll tt = h.range(0, 9); bool w = th[k]->enabled && (pt[k] == 0 || (pt[k] == 2 && th[k]->amf_next_tics == tt) || (pt[k] == 1 && th[k]->child_complete && (!acy[k] || th[k]->amf_next_tics == tt)));
            if (e.isThreadReadyToRun(th[k], tt) != w) fail("isThreadReadyToRun: type %lld, complete %d, next %lld, time %lld", pt[k], (int)th[k]->child_complete, th[k]->amf_next_tics, tt); }
        for (auto j : jobs) delete j;
        std::vector<Threads *>().swap(e.threads); e.top_of_frame_queue.clear(); e.end_of_frame_queue.clear(); e.input_processor_run_queue.clear(); e.thread_sync_queue.clear();
    }
    return h.ok();
}
