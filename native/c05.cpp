// freezes, runs and stops: the executive's commands and its freeze loop against a reference (C05)
#include "h.hh"
#include <algorithm>
#include <string>
#include <vector>
#include "trick/Executive.hh"
#include "trick/ExecutiveException.hh"
#include "trick/TrickConstant.hh"
using namespace Trick;
typedef long long ll;
static const ll NEVER = TRICK_MAX_LONG_LONG;
static std::vector<std::string> got, want;
static std::string setup;
static void add(std::vector<std::string> &l, const char *f, ...) { char b[200]; va_list a; va_start(a, f); vsnprintf(b, 200, f, a); va_end(a); l.push_back(b); }
static void note(const char *f, ...) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, 300, f, a); va_end(a); setup += b; }
static Executive *E;
struct Spec { int q; ll next, cycle; bool sys, off; int at, act, calls; bool last; };
static std::vector<Spec> specs;
struct Obj : SimObject {
    int call_function(JobData *j) override {
        if (got.size() > 3000) fail("the freeze does not end; %s", setup.c_str());
        Spec &s = specs[j->id]; add(got, "%d @%lld frame %lld mode %d", j->id, E->freeze_time_tics, E->freeze_frame_count, (int)E->mode);
        int n = s.calls++;
        if (s.sys) j->next_tics = E->freeze_time_tics + s.cycle;
        if (n == s.at || (s.last && n > s.at)) { if (s.act == 99) return 7; if (s.act) E->exec_command = (SIM_COMMAND)s.act; }
        return 0;
    }
    double call_function_double(JobData *) override { return 0; }
};
extern "C" int exec_terminate_with_return(int rc, const char *f, int l, const char *m) { throw ExecutiveException(rc, f ? f : "", l, m); return 0; }
extern "C" int message_publish(int, const char *, ...) { return 0; }
static void check(const std::vector<ll> &w, const char *what) {
    auto q = E->freeze_times; if (q.size() != w.size()) fail("%s: %d freezes are pending, expected %d; %s", what, (int)q.size(), (int)w.size(), setup.c_str());
    for (ll x : w) { if (q.top() != x) fail("%s: a freeze is pending for %lld, expected %lld; %s", what, (ll)q.top(), x, setup.c_str()); q.pop(); }
}
int main(int c, char **v) {
    H h(c, v);
    static Executive &e = *new Executive; E = &e; static Threads t0(0, false); e.threads.push_back(&t0);
    while (h.left()) {
        // ---- requests
        setup.clear(); while (!e.freeze_times.empty()) e.freeze_times.pop();
        static const int res[] = {1, 2, 10, 100, 1024, 1000000}; e.time_tic_value = res[h.below(6)]; e.time_tics = h.range(0, 20) * e.time_tic_value + h.range(0, 3); t0.curr_time_tics = e.time_tics; e.terminate_time = NEVER - 1;
        JobData fj; e.freeze_job = &fj; fj.next_tics = NEVER; std::vector<ll> pend; e.exec_command = NoCmd; e.async_freeze_command = false; e.freeze_on_frame_boundary = h.coin();
        int ec = NoCmd; bool as = false; ll term = e.terminate_time, jn = NEVER;
        for (int k = h.range(1, 10); k > 0; k--) {
            int op = h.below(9);
            if (op < 4) { double t = h.range(0, 200) / (h.coin() ? 8.0 : 4.0); ll n = (ll)(t * e.time_tic_value); e.freeze(t); note(" freeze(%g) at %lld of 1/%d;", t, e.time_tics, e.time_tic_value); if (n > e.time_tics) { pend.push_back(n); std::sort(pend.begin(), pend.end()); jn = std::min(jn, n); } }
            else if (op == 4) { bool eof = h.coin(); ll d = h.range(0, 8) * e.time_tic_value / (h.coin() ? 1 : 8); if (h.coin()) for (ll p : pend) if (p > e.time_tics) { d = p - e.time_tics; break; } e.time_tics += d; t0.curr_time_tics = e.time_tics; e.sched_freeze_to_exec_command(eof); note(" at %lld, end of frame %d;", e.time_tics, eof);
                if (eof || !e.freeze_on_frame_boundary) { size_t n = 0; while (n < pend.size() && pend[n] <= e.time_tics) n++; if (n) ec = FreezeCmd; pend.erase(pend.begin(), pend.begin() + n); jn = pend.empty() ? NEVER : pend[0]; } }
            else if (op == 5) { e.freeze(); as = true; note(" freeze();"); }
            else if (op == 6) { e.async_freeze_to_exec_command(); if (as) ec = FreezeCmd; as = false; note(" end of frame;"); }
            else if (op == 7) { if (h.coin()) { e.run(); ec = RunCmd; note(" run();"); } else { e.stop(); ec = ExitCmd; note(" stop();"); } }
            else { double t = h.range(0, 200) / 8.0; e.stop(t); term = (ll)(t * e.time_tic_value); note(" stop(%g);", t); }
            check(pend, "pending freezes");
            if (e.exec_command != ec || e.async_freeze_command != as) fail("the command is %d (freeze at the end of the frame %d), expected %d (%d); %s", (int)e.exec_command, (int)e.async_freeze_command, ec, as, setup.c_str());
            if (e.terminate_time != term) fail("the run ends at %lld, expected %lld; %s", e.terminate_time, term, setup.c_str());
            if (fj.next_tics != jn) fail("the freeze job is called at %lld, expected %lld; %s", fj.next_tics, jn, setup.c_str());
        }
        // ---- the freeze loop
        got.clear(); want.clear(); setup.clear(); specs.clear(); Obj ob; std::vector<JobData *> jobs;
        ScheduledJobQueue *qs[] = {&e.freeze_init_queue, &e.freeze_scheduled_queue, &e.freeze_queue, &e.unfreeze_queue};
        for (auto q : qs) q->clear();
        ll fr = h.range(1, 6); e.freeze_frame_tics = fr; e.software_frame_tics = h.range(1, 9); int n = h.range(0, 8); bool ends = false; note("freeze frame %lld;", fr);
        for (int i = 0; i < n || !ends; i++) {
            Spec s; s.q = i >= n ? 2 : (int)h.below(4); s.cycle = h.range(1, 9); s.next = 0; s.sys = s.q == 1 && h.below(4) == 0; s.off = i < n && s.q != 1 && h.below(6) == 0; s.at = h.below(4); s.calls = 0; s.last = i >= n;
            s.act = i >= n ? (h.below(4) ? RunCmd : ExitCmd) : h.below(4) == 0 ? (int[]){RunCmd, FreezeCmd, ExitCmd, 99}[h.below(4)] : 0; if (i >= n) ends = true;
            specs.push_back(s); JobData *j = new JobData; jobs.push_back(j); j->id = i; j->phase = 100 + i; j->sim_object_id = 1; j->parent_object = &ob; j->cycle_tics = s.cycle; j->next_tics = h.range(0, 50); j->stop_tics = NEVER; j->disabled = s.off; j->system_job_class = s.sys; j->job_class = 1;
            qs[s.q]->push(j); note(" %d: queue %d cycle %lld%s%s", i, s.q, s.cycle, s.sys ? " sys" : "", s.off ? " off" : ""); if (s.act) note(" action %d at call %d", s.act, s.at); setup += ";";
        }
        e.time_tics = h.range(0, 100); e.exec_command = h.below(4) ? NoCmd : FreezeCmd; int cmd = e.exec_command; e.mode = Run; if (cmd) note(" freeze commanded;");
        e.freeze_time_tics = 77; e.init_freeze_scheduled();
        if (e.freeze_time_tics || e.freeze_frame_count || e.next_freeze_frame_check_tics != fr) fail("the freeze clock does not start at zero");
        for (size_t i = 0; i < jobs.size(); i++) if (specs[i].q == 1 && jobs[i]->next_tics) fail("job %d is due at %lld when a freeze begins; %s", (int)i, jobs[i]->next_tics, setup.c_str());
        // reference
        ll t = 0, nf = fr, frames = 0; int mode = Freeze, rc = 0; bool stop = false; int ns = specs.size(); std::vector<int> calls(ns, 0); std::vector<ll> nx(ns, 0);
        auto call = [&](int i) { add(want, "%d @%lld frame %lld mode %d", i, t, frames, mode); int k = calls[i]++; if (k == specs[i].at || (specs[i].last && k > specs[i].at)) { if (specs[i].act == 99) return 7; if (specs[i].act) cmd = specs[i].act; } return 0; };
        for (int i = 0; i < ns; i++) if (specs[i].q == 0 && !specs[i].off) call(i);
        while (mode == Freeze && !stop) {
            while (t < nf && !stop) {
                for (int i = 0; i < ns && !stop; i++) if (specs[i].q == 1 && nx[i] == t) { if (int r = call(i)) { rc = r; stop = true; } nx[i] = t + specs[i].cycle; }
                ll m = t + fr; for (int i = 0; i < ns; i++) if (specs[i].q == 1 && nx[i] > t) m = std::min(m, nx[i]);
                if (!stop) t = std::min(m, nf);
            }
            if (stop) break;
            frames++; nf += fr;
            for (int i = 0; i < ns && !stop; i++) if (specs[i].q == 2 && !specs[i].off) if (int r = call(i)) { rc = r; stop = true; }
            if (stop) break;
            if (cmd == RunCmd) { mode = Run; cmd = NoCmd; } else if (cmd == FreezeCmd) cmd = NoCmd;
            if (cmd == ExitCmd) stop = true;
        }
        if (!stop) for (int i = 0; i < ns; i++) if (specs[i].q == 3 && !specs[i].off) call(i);
        bool thrown = false; int r = 0;
        try { r = e.freeze_loop(); } catch (ExecutiveException &x) { thrown = true; r = x.ret_code; }
        if (got != want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) k++; fail("call %d in freeze is %s, expected %s; %s", (int)k, k < got.size() ? got[k].c_str() : "none", k < want.size() ? want[k].c_str() : "none", setup.c_str()); }
        if (thrown != stop || r != rc) fail("the freeze %s with %d, expected %s with %d; %s", thrown ? "ends the run" : "returns", r, stop ? "the end of the run" : "return", rc, setup.c_str());
        if (!stop && (e.mode != mode || e.exec_command != cmd)) fail("after the freeze the mode is %d and the command %d, expected %d and %d; %s", (int)e.mode, (int)e.exec_command, mode, cmd, setup.c_str());
        if (e.freeze_frame_count != frames || e.next_freeze_frame_check_tics != nf) fail("%lld freeze frames, the next ends at %lld, expected %lld and %lld; %s", e.freeze_frame_count, e.next_freeze_frame_check_tics, frames, nf, setup.c_str());
        for (auto q : qs) q->clear();
        for (auto j : jobs) delete j;
    }
    return h.ok();
}
