// real-time synchronisation against a reference model (C16), with a clock and a timer that only record
#include "h.hh"
#include <string>
#include <cstring>
#include <new>
#include "trick/RealtimeSync.hh"
#include "trick/exec_proto.h"
#include "trick/TrickConstant.hh"
#include "trick/sim_mode.h"
using namespace Trick;
typedef long long ll;
static std::string hist; static ll now, T; static double ratio, swf, frf; static int mode, tps; static ll ftt;
static std::vector<std::string> got;
static void ev(const char *f, ...) { char b[200]; va_list a; va_start(a, f); vsnprintf(b, 200, f, a); va_end(a); got.push_back(b); }
static void note(const char *f, ...) { char b[200]; va_list a; va_start(a, f); vsnprintf(b, 200, f, a); va_end(a); if (hist.size() > 3000) hist.erase(0, 1000); hist += b; }
extern "C" {
double exec_get_software_frame() { return swf; }
double exec_get_freeze_frame() { return frf; }
int exec_get_time_tic_value() { return tps; }
ll exec_get_time_tics() { return T; }
ll exec_get_freeze_time_tics() { return ftt; }
SIM_MODE exec_get_mode() { return (SIM_MODE)mode; }
int exec_freeze() { ev("freeze"); return 0; }
int exec_terminate_with_return(int r, const char *, int, const char *) { ev("terminate %d", r); throw 1; return 0; }
int message_publish(int, const char *, ...) { return 0; }
}
namespace Trick {
Clock::Clock(unsigned long long t, std::string) : clock_tics_per_sec(t), rt_clock_ratio(1), sim_tic_ratio(1), ref_time_tics(0) {}
int Clock::set_global_clock() { return 0; } double Clock::get_rt_clock_ratio() { return ratio; }
int Clock::set_rt_clock_ratio(double r) { ev("ratio %.17g", r); return 0; }
int Clock::adjust_ref_time(ll t) { ev("adjust %lld", t); return 0; }
int Clock::set_reference(ll) { return 0; } int Clock::calc_sim_time_ratio(int) { return 0; } int Clock::sync_to_wall_clock(double, int) { return 0; }
ll Clock::clock_time() { return now; } ll Clock::clock_reset(ll r) { ev("reset %lld", r); return 0; } const char *Clock::get_name() { return ""; } ll Clock::clock_spin(ll t) { ev("spin %lld", t); return now; }
Timer::Timer() {} int Timer::enable() { return 0; } int Timer::disable() { return 0; } bool Timer::get_enabled() { return true; } void Timer::set_active(bool) {}
}
struct C : Clock { int st; C() : Clock(1000000, "c"), st(0) {} int clock_init() override { return st; } ll wall_clock_time() override { return now; } int clock_stop() override { return 0; } };
struct M : Timer { int init() override { ev("init"); return 0; } int start(double f) override { ev("start %.12g", f); return 0; } int reset(double f) override { ev("again %.12g", f); return 0; } int stop() override { ev("stop"); return 0; } int pause() override { ev("pause"); return 0; } int shutdown() override { return 0; } };
struct Mod { bool act = false, en = false, dis = false, sh = false; unsigned cnt = 0, tot = 0; ll last = 0, ft = 0, ff = 0, lim = 0; } m;
static std::vector<std::string> want;
static void wv(const char *f, ...) { char b[200]; va_list a; va_start(a, f); vsnprintf(b, 200, f, a); va_end(a); want.push_back(b); }
int main(int c, char **v) {
    H h(c, v);
    static C clk, other; static M tim;
    while (h.left()) {
        alignas(RealtimeSync) static char mem[sizeof(RealtimeSync)]; memset(mem, 0, sizeof mem); RealtimeSync &r = *new (mem) RealtimeSync(&clk, &tim);
        m = Mod(); hist.clear(); tps = h.coin() ? 1000000 : h.range(1, 5000); r.tics_per_sec = tps; swf = h.range(1, 100) / 10.0; frf = h.range(1, 100) / 10.0; ratio = h.coin() ? 1.0 : h.range(1, 40) / 8.0;
        r.rt_max_overrun_cnt = h.coin() ? 100000000 : h.range(1, 5); r.rt_overrun_freeze = h.coin(); r.rt_max_overrun_time = h.coin() ? 1e37 : h.range(0, 30) / 8.0; r.rt_max_overrun_time_tics = m.lim = h.coin() ? TRICK_MAX_LONG_LONG : h.range(1, 100);
        T = h.below(4) == 0 ? -h.range(1, 30) : h.range(0, 1000); now = h.range(0, 1000); ftt = 0;
        r.last_clock_time = m.last = now;
        note("tics/s %d frame %g ratio %g max count %u max time %g freeze %d;", tps, swf, ratio, r.rt_max_overrun_cnt, r.rt_max_overrun_time, r.rt_overrun_freeze);
        auto sleep = [&]() { if (m.act && T >= 0) { wv("init"); m.lim = r.rt_max_overrun_time > 1e36 ? TRICK_MAX_LONG_LONG : (ll)(r.rt_max_overrun_time * tps); } };
        auto start = [&](double f, ll ref) { if (m.act) { if (ref >= 0) { wv("reset %lld", ref); sleep(); wv("start %.12g", f / ratio); } else { m.act = false; m.en = true; } } m.last = now; };
        for (int k = h.range(1, 40); k--;) {
            got.clear(); want.clear(); bool thr = false, wthr = false; T += h.range(0, 10); now += h.range(0, 12); if (h.below(20) == 0) now = T - h.range(0, 5);
            try {
                switch (h.below(10)) {
                    case 0: note(" enable"); r.enable(); m.en = true; break;
                    case 1: if (h.coin()) { note(" disable"); r.disable(); m.dis = true; } break;
                    case 2: { note(" freeze_init@%lld", T); r.freeze_init(frf); if (m.act) wv("start %.12g", frf / ratio); m.ff = (ll)(frf * tps); m.ft = T; break; }
                    case 3: { note(" freeze_pause"); 
                        if (!m.act) { if (m.en) { m.act = true; m.en = false; start(frf, m.ft); } m.dis = false; } else { m.en = false; if (m.dis) m.act = m.dis = false; wv("pause"); wv("spin %lld", m.ft + m.ff); wv("again %.12g", frf / ratio); m.ft += m.ff; }
                        r.freeze_pause(frf); break; }
                    case 4: { note(" unfreeze@%lld clock %lld", T, now); if (m.act) { if (m.sh) { wv("terminate -1"); wthr = true; } else { wv("adjust %lld", m.ft - T); wv("start %.12g", swf / ratio); } } if (!wthr) m.last = now; r.unfreeze(T, swf); break; }
                    case 5: { mode = h.coin() ? Run : Freeze; note(" restart mode %d", mode); wv("reset %lld", T); if (mode == Run) start(swf, T); else { if (m.act) wv("start %.12g", frf / ratio); m.ff = (ll)(frf * tps); m.ft = T; } r.restart(T); break; }
                    default: {
                        note(" monitor(%lld)@%lld", T, now); ll c0 = now, ft = c0 - m.last; m.last = c0; ll t = T;
                        if (!m.act) { if (m.en) { m.act = true; m.en = false; start(swf, t); } m.dis = false; }
                        else {
                            m.en = false; if (m.dis) m.act = m.dis = false;
                            if (c0 > t) { m.cnt++; m.tot++; if (m.cnt >= r.rt_max_overrun_cnt || c0 - t >= m.lim) { if (r.rt_overrun_freeze) { m.sh = true; wv("freeze"); } else { wv("terminate -1"); wthr = true; } } if (!wthr) { wv("stop"); wv("spin %lld", t); } }
                            else { m.cnt = 0; wv("pause"); wv("spin %lld", t); wv("again %.12g", swf / ratio); }
                        }
                        try { r.rt_monitor(T); } catch (int) { thr = true; }
                        if (r.frame_sched_time != ft) fail("frame time %lld, expected %lld; %s", r.frame_sched_time, ft, hist.c_str());
                    }
                }
            } catch (int) { thr = true; }
            if (thr != wthr || got != want) { std::string a, b; for (auto &s : got) a += s + ","; for (auto &s : want) b += s + ","; fail("actions [%s], expected [%s]; %s", a.c_str(), b.c_str(), hist.c_str()); }
            if (thr) break;
            if (r.active != m.act || r.enable_flag != m.en || r.disable_flag != m.dis || r.freeze_shutdown != m.sh) fail("active %d enable %d disable %d shutdown %d, expected %d %d %d %d; %s", r.active, r.enable_flag, r.disable_flag, r.freeze_shutdown, m.act, m.en, m.dis, m.sh, hist.c_str());
            if (r.frame_overrun_cnt != m.cnt || r.total_overrun != m.tot) fail("overruns %u/%u, expected %u/%u; %s", r.frame_overrun_cnt, r.total_overrun, m.cnt, m.tot, hist.c_str());
            if (r.last_clock_time != m.last || r.rt_max_overrun_time_tics != m.lim) fail("last clock %lld limit %lld, expected %lld %lld; %s", r.last_clock_time, r.rt_max_overrun_time_tics, m.last, m.lim, hist.c_str());
        }
        other.st = h.below(3); r.change_clock(&other); if ((r.rt_clock == &other) != (other.st == 0)) fail("change_clock: a clock whose initialisation returns %d", other.st);
    }
    return h.ok();
}
