// changes of the number of tics per second, and conversions between seconds and tics, against exact arithmetic (C04)
#include "h.hh"
#include <string>
#include <vector>
#include <algorithm>
#include <cmath>
#include "trick/Executive.hh"
#include "trick/EventManager.hh"
#include "trick/TrickConstant.hh"
using namespace Trick;
typedef long long ll;
static int o_, n_;
extern "C" int exec_get_time_tic_value() { return n_; }
extern "C" int exec_get_old_time_tic_value() { return o_; }
static std::string setup;
static void same(const char *what, ll now, ll was) {
    if (was >= TRICK_MAX_LONG_LONG - 1) { if (now != was) fail("%s: never became %lld; %s", what, now, setup.c_str()); return; }
    __int128 d = (__int128)was * n_, e = (__int128)now * o_;
    __int128 diff = d > e ? d - e : e - d;
    if (d % o_ == 0 ? diff != 0 : diff >= o_) fail("%s: %lld tics of 1/%d s became %lld tics of 1/%d s; %s", what, was, o_, now, n_, setup.c_str());
}
struct Obj : SimObject { int seen = 0; int rc = 0; int call_function(JobData *) override { seen++; return rc; } double call_function_double(JobData *) override { return 0; } };
struct Ev : Event { int process(long long) override { return 0; } void add() override {} void remove() override {} void restart() override {} };
int main(int c, char **v) {
    H h(c, v);
    static const int res[] = {1, 2, 3, 4, 5, 8, 10, 64, 100, 128, 250, 1000, 1024, 4000, 10000, 100000, 1000000, 2000000, 10000000};
    auto time = [&]() -> ll { int k = h.below(8); return k == 0 ? 0 : k == 1 ? (ll)o_ * h.range(0, 50) : k == 2 ? h.range(0, 20) : k == 3 ? (ll)o_ * h.range(0, 20) + o_ / 2 : h.range(0, 30000); };
    auto cyc = [&]() -> double { int k = h.below(4); return k == 0 ? h.range(0, 4) : k == 1 ? h.range(0, 80) / 8.0 : k == 2 ? h.range(0, 50) / 10.0 : h.range(0, 3000) / 1000.0; };
    // a period in seconds, kept in seconds: its tics may be rounded either way, and are exact when it is a whole number of them
    auto period = [&](const char *what, double s, ll now) {
        double x = s * n_, r = floor(x + 0.5);
        if (fabs(x - r) < 1e-6 ? llabs(now - (ll)r) > (s * 8 == floor(s * 8) ? 0 : 1) : fabs(x - (double)now) >= 1) fail("%s: %g s became %lld tics of 1/%d s; %s", what, s, now, n_, setup.c_str());
    };
    while (h.left()) {
        static Executive &e = *new Executive; static std::vector<Threads *> pool; static std::vector<JobData *> jobs; Obj ob, tell[3];
        o_ = res[h.below(19)]; n_ = res[h.below(19)];
        e.time_tic_value = o_; JobData::set_time_tic_value(o_);
        setup = "from " + std::to_string(o_) + " to " + std::to_string(n_);
        int m = h.range(1, 3);
        e.threads.clear();
        for (int k = 0; k < m; k++) { if (k >= (int)pool.size()) pool.push_back(new Threads(k, false)); e.threads.push_back(pool[k]); Threads *t = pool[k]; t->set_amf_cycle(cyc(), o_); t->amf_next_tics = time(); t->curr_time_tics = time(); t->job_queue.clear(); t->job_queue.set_next_job_call_time(h.coin() ? TRICK_MAX_LONG_LONG : time()); }
        std::vector<Threads> t0; std::vector<ll> an, cu, am, nq;
        for (auto t : e.threads) { an.push_back(t->amf_next_tics); cu.push_back(t->curr_time_tics); am.push_back(t->amf_cycle_tics); nq.push_back(t->job_queue.next_job_time); }
        e.time_tics = time(); e.next_frame_check_tics = time(); e.terminate_time = h.coin() ? TRICK_MAX_LONG_LONG - 1 : time(); e.freeze_time_tics = time(); e.next_freeze_frame_check_tics = time();
        e.software_frame = cyc(); e.freeze_frame = cyc();
        e.input_processor_run_queue.set_next_job_call_time(time()); e.freeze_scheduled_queue.set_next_job_call_time(time());
        ll a0 = e.time_tics, a1 = e.next_frame_check_tics, a2 = e.terminate_time, a3 = e.freeze_time_tics, a4 = e.next_freeze_frame_check_tics, a5 = e.input_processor_run_queue.next_job_time, a6 = e.freeze_scheduled_queue.next_job_time;
        for (auto j : jobs) delete j; jobs.clear(); e.all_jobs_vector.clear();
        int n = h.range(0, 5); std::vector<ll> st, sp, nx, cy;
        for (int i = 0; i < n; i++) {
            JobData *j = new JobData; jobs.push_back(j); e.all_jobs_vector.push_back(j);
            j->job_class_name = h.below(3) ? "scheduled" : "integ_loop"; j->set_cycle(cyc()); j->start_tics = h.below(5) ? time() : TRICK_MAX_LONG_LONG; j->stop_tics = h.coin() ? TRICK_MAX_LONG_LONG : time(); j->next_tics = h.below(5) == 0 ? TRICK_MAX_LONG_LONG : time();
            j->disabled = h.coin(); j->system_job_class = h.coin();
            st.push_back(j->start_tics); sp.push_back(j->stop_tics); nx.push_back(j->next_tics); cy.push_back(j->cycle_tics);
        }
        e.freeze_job = n ? jobs[h.below(n)] : NULL;
        while (!e.freeze_times.empty()) e.freeze_times.pop();
        std::vector<ll> fz; for (int k = h.range(0, 5); k > 0; k--) { fz.push_back(time()); e.freeze_times.push(fz.back()); }
        std::sort(fz.begin(), fz.end());
        e.time_tic_changed_queue.clear(); int q = h.range(0, 3), bad = h.below(6) == 0 && q ? h.below(q) : -1; std::vector<JobData *> tj;
        for (int k = 0; k < q; k++) { JobData *j = new JobData; tj.push_back(j); j->parent_object = &tell[k]; j->id = k; j->phase = 60000; tell[k].rc = k == bad ? 3 : 0; e.time_tic_changed_queue.push(j); }
        // conversions in the old resolution
        for (ll x : {a0, a3}) { e.terminate_time = x; double s = e.get_terminate_time(); e.terminate_time = 0; e.set_terminate_time(s); ll b = e.terminate_time; if (llabs(b - x) > 1 || s * o_ - x > 1e-6 * (1 + x) || x - s * o_ > 1e-6 * (1 + x)) fail("%lld tics of 1/%d s are %.9g s as termination time", x, o_, s); }
        if (m == 1) { double s = e.get_sim_time(); if (s * o_ - cu[0] > 1e-6 * (1 + cu[0]) || cu[0] - s * o_ > 1e-6 * (1 + cu[0])) fail("the time of thread 0, %lld tics of 1/%d s, is given as %.9g s", cu[0], o_, s); }
        e.terminate_time = a2;
        int rc = e.set_time_tic_value(n_);
        if (rc != (bad >= 0 ? 3 : 0)) fail("status %d; %s", rc, setup.c_str());
        if (bad < 0) for (int k = 0; k < q; k++) if (tell[k].seen != 1) fail("a job that has to be told about the change was called %d times; %s", tell[k].seen, setup.c_str());
        same("time", e.time_tics, a0); same("end of frame", e.next_frame_check_tics, a1); same("termination time", e.terminate_time, a2); same("freeze clock", e.freeze_time_tics, a3); same("end of freeze frame", e.next_freeze_frame_check_tics, a4);
        same("next top-level event", e.input_processor_run_queue.next_job_time, a5); same("next freeze event", e.freeze_scheduled_queue.next_job_time, a6);
        period("software frame", e.software_frame, e.software_frame_tics); period("freeze frame", e.freeze_frame, e.freeze_frame_tics);
        for (int i = 0; i < n; i++) {
            JobData *j = jobs[i];
            same("job start", j->start_tics, st[i]); same("job stop", j->stop_tics, sp[i]); period("job cycle", j->cycle, j->cycle_tics);
            if (j->job_class_name == "integ_loop" && nx[i] == st[i] + cy[i]) { if (j->next_tics != j->start_tics + j->cycle_tics) fail("first call of an integration loop; %s", setup.c_str()); }
            else same("next call of a job", j->next_tics, nx[i]);
        }
        if (e.freeze_times.size() != fz.size()) fail("%d freezes were pending, now %d are", (int)fz.size(), (int)e.freeze_times.size());
        for (ll f : fz) { same("pending freeze", e.freeze_times.top(), f); e.freeze_times.pop(); }
        for (int k = 0; k < m; k++) { same("next event of a thread", e.threads[k]->job_queue.next_job_time, nq[k]); if (bad >= 0) continue; same("next call of a thread", e.threads[k]->amf_next_tics, an[k]); same("time of a thread", e.threads[k]->curr_time_tics, cu[k]); period("cycle of a thread", e.threads[k]->amf_cycle, e.threads[k]->amf_cycle_tics); }
        for (auto j : tj) delete j;
        // events
        static EventManager &em = *new EventManager; static Event *act[4]; em.active_events = act; em.num_active_events = h.range(0, 4); std::vector<ll> en, ec;
        for (unsigned k = 0; k < em.num_active_events; k++) { act[k] = new Ev; act[k]->next_tics = time(); act[k]->set_cycle(cyc());  en.push_back(act[k]->next_tics); ec.push_back(act[k]->cycle_tics); }
        em.time_tic_changed();
        for (unsigned k = 0; k < em.num_active_events; k++) { same("next time of an event", act[k]->next_tics, en[k]); period("cycle of an event", act[k]->cycle, act[k]->cycle_tics); delete act[k]; }
        em.num_active_events = 0; em.active_events = NULL;
    }
    return h.ok();
}
