// clock scaling against a reference model, on a clock whose wall time is scripted (C18)
#include "h.hh"
#include <time.h>
#include "trick/Clock.hh"
#include "trick/GetTimeOfDayClock.hh"
using namespace Trick;
typedef long long ll; typedef long double ld;
static std::string hist; static std::vector<ll> script; static size_t at; static ll wall; static int nap;
static void note(const char *f, ...) { char b[200]; va_list a; va_start(a, f); vsnprintf(b, 200, f, a); va_end(a); if (hist.size() > 3000) hist.erase(0, 1000); hist += b; }
extern "C" { int exec_get_rt_nap() { return nap; } 
static struct timespec fake; static clockid_t asked;
int clock_gettime(clockid_t i, struct timespec *t) noexcept { if (i == CLOCK_MONOTONIC && !asked) { return 0; } asked = i; *t = fake; return 0; } }
struct S : Clock { S(unsigned long long t) : Clock(t, "s") {} int clock_init() override { return 0; } int clock_stop() override { return 0; } ll wall_clock_time() override { return at < script.size() ? wall = script[at++] : wall; } };
static double secs() { return (double)clock() / CLOCKS_PER_SEC; }
int main(int c, char **v) {
    H h(c, v); double t0 = secs();
    while (secs() - t0 < h.budget) { h.n++;
        unsigned long long ctps = h.coin() ? 1000000 : 1ull << h.range(8, 20); S k(ctps); hist.clear(); at = 0; script.clear();
        int tps = h.coin() ? (int)ctps : h.below(3) == 0 ? h.range(1, 100000) : 1 << h.range(4, 22); wall = h.range(0, 1000000000); ll ref = 0; double r = 1;
        k.calc_sim_time_ratio(tps); note("clock %llu tics %d wall %lld;", ctps, tps, wall); 
        auto dy = [&]() { int e; return frexp(r * 1024, &e), r == ldexp(1, ilogb(r)) && ((ctps & (ctps - 1)) == 0 && (tps & (tps - 1)) == 0 || tps == (int)ctps); };
        auto K = [&]() { return (ld)r * tps / ctps; };
        auto close = [&](ll g, ld w, const char *what) { ll q = (ll)w; if (std::llabs(g - q) > (dy() ? 0 : 1)) fail("%s %lld, expected %.6Lf (ratio %.17g) after %s", what, g, w, r, hist.c_str()); };
        if (tps == (int)ctps ? k.sim_tic_ratio != 1 : fabs(k.sim_tic_ratio * ctps - tps) > 1e-6 * tps) fail("tic ratio %g; %s", k.sim_tic_ratio, hist.c_str());
        for (int n = h.range(1, 25); n--;) {
            wall += h.range(0, 100000);
            switch (h.below(6)) {
                case 0: { ll t = h.below(5) ? h.range(0, 100000000) : -h.range(0, 100000); ll g = k.clock_reset(t); ll want = wall - (ll)(t / K()); note(" reset(%lld)@%lld", t, wall); close(k.ref_time_tics, want, "reference"); ref = k.ref_time_tics; close(g, ref * K(), "reference in tics"); ll now = k.clock_time(); if (fabsl((ld)now - t) > K() + 1.01) fail("clock reads %lld just after it was set; %s", now, hist.c_str()); break; }
                case 1: { ll t = h.range(-100000, 100000); k.adjust_ref_time(t); note(" adjust(%lld)", t); close(k.ref_time_tics, ref + (ll)(t / K()), "reference"); ref = k.ref_time_tics; break; }
                case 2: { double q = h.coin() ? ldexp(1, h.range(-3, 3)) : h.range(1, 40) / 10.0; ll t = k.clock_time(); k.set_rt_clock_ratio(q); r = q; note(" ratio(%g)@%lld", q, wall); if (k.get_rt_clock_ratio() != q) fail("ratio %g; %s", k.get_rt_clock_ratio(), hist.c_str()); ref = k.ref_time_tics; ll n2 = k.clock_time(); if (fabsl((ld)n2 - t) > K() + 1.01) fail("the clock jumped from %lld to %lld; %s", t, n2, hist.c_str()); break; }
                case 3: { ll t = k.clock_time() + h.range(-50, 200); nap = h.coin(); script.clear(); at = 0; ll w = wall; for (int i = 0; i < 400; i++) script.push_back(w += h.below(20)); script.push_back(w + (ll)(300 / K()) + 2); note(" spin(%lld)@%lld", t, wall); ll g = k.clock_spin(t); if (g < t) fail("waiting ended at %lld; %s", g, hist.c_str()); close(g, (wall - ref) * K(), "reading"); script.clear(); at = 0; break; }
                case 4: { double a = h.coin() ? 1 : h.range(1, 8) / 4.0; ld m = (ld)a * ctps / r; if (m < 1 || m > 1e9) break; k.sync_to_wall_clock(a, tps); ll d = (ll)m; note(" sync(%g)@%lld", a, wall); if (!(k.ref_time_tics > wall && k.ref_time_tics <= wall + d + 1) || (dy() && k.ref_time_tics % d)) fail("reference %lld, not the next multiple of %lld; %s", k.ref_time_tics, d, hist.c_str()); ref = k.ref_time_tics; break; }
                default: note(" read@%lld", wall); close(k.clock_time(), (wall - ref) * K(), "reading"); if (h.below(10) == 0) { k.set_reference(ref = h.range(0, 1000000)); note(" reference(%lld)", ref); }
            }
        }
        GetTimeOfDayClock g; fake.tv_sec = h.range(0, 2000000000); fake.tv_nsec = h.range(0, 999999999); int id = h.coin() ? CLOCK_REALTIME : CLOCK_MONOTONIC_RAW; g.set_clock_ID(id); asked = -1; ll got = g.wall_clock_time(), want = fake.tv_sec * 1000000ll + fake.tv_nsec / 1000;
        if (got != want || asked != id || g.get_clock_ID() != id) fail("wall clock of clock %d (asked %d) %lld at %ld.%09ld", id, (int)asked, got, (long)fake.tv_sec, (long)fake.tv_nsec);
    }
    return h.ok();
}
