// event-time estimators against a reference model (C14)
#include "h.hh"
#include <cfloat>
#include "trick/regula_falsi.h"
#include "Rootfinder.hh"
static std::string hist;
static void note(const char *f, ...) { char b[200]; va_list a; va_start(a, f); vsnprintf(b, 200, f, a); va_end(a); if (hist.size() > 3000) hist.erase(0, 1000); hist += b; }
struct M { bool l = false, u = false; double xl = 0, tl = 0, xu = 0, tu = 0, last = 0; int it = 0, dir = 0; };
static double step(M &m, double t, double e, double tol, int mode, double none, bool rf) {
    bool near = fabs(e) < tol, stall = m.it > 0 && fabs(m.last - e) < tol;
    if ((rf ? m.it > 0 && (near || stall) : near || stall) && (mode == 0 || (mode > 0 ? m.l : m.u))) return 0;
    if (e < 0) m.l = true, m.xl = e, m.tl = t; else if (e > 0) m.u = true, m.xu = e, m.tu = t;
    if (m.l && m.u) {
        if (mode == 0 || mode == m.dir) { m.it++; m.last = e; return near || m.it > 20 ? 0 : -e * (m.tu - m.tl) / (m.xu - m.xl); }
        if (mode > 0) m.l = false; else m.u = false;
        m.dir = 0;
    } else if (m.l) m.dir = 1; else if (m.u) m.dir = -1;
    m.it = 0;
    return none;
}
static bool same(double a, double b) { return a == b || fabs(a - b) <= 1e-9 * (1e-30 + fabs(a) + fabs(b)) || (std::isnan(a) && std::isnan(b)); }
int main(int c, char **v) {
    H h(c, v);
    while (h.left()) {
        REGULA_FALSI r; memset(&r, 0, sizeof r); hist.clear();
        double tol = h.coin() ? 1e-6 : h.coin() ? 0.5 : 1e-11; int mode = h.range(-1, 1); r.error_tol = tol; r.mode = (Regula_Falsi)mode;
        double t = h.real(10); reset_regula_falsi(t, &r);
        if (r.lower_set || r.upper_set || r.iterations || r.last_error != 0 || r.t_lower != t || r.t_upper != t || r.delta_time != BIG_TGO) fail("reset left state behind at %g", t);
        RootFinder f(tol, (SlopeConstraint)mode); M a, b; b.last = DBL_MAX;
        note("tol %g mode %d:", tol, mode);
        double w = h.real(3), ph = h.real(3), off = h.coin() ? 0 : h.real(1); int kind = h.below(3);
        for (int k = h.range(1, 60); k--;) {
            if (h.below(6) == 0) w = h.real(3); double e = kind == 0 ? sin(w * t + ph) + off : kind == 1 ? h.range(-3, 3) : w * (t - ph);
            note(" (%.17g, %.17g)", t, e);
            if (h.below(30) == 0) { f.init(tol, (SlopeConstraint)mode); M z; z.last = DBL_MAX; z.dir = b.dir; b = z; note(" new search"); }
            r.error = e; double g1 = regula_falsi(t, &r), w1 = step(a, t, e, tol, mode, BIG_TGO, true); double g2 = f.find_roots(t, e), w2 = step(b, t, e, tol, mode, DBL_MAX, false);
            if (!same(g1, w1)) fail("regula_falsi gave %.17g, expected %.17g after%s", g1, w1, hist.c_str());
            if (!same(g2, w2)) fail("find_roots gave %.17g, expected %.17g after%s", g2, w2, hist.c_str());
            t += h.coin() && fabs(g1) < 5 && g1 != 0 ? g1 : h.unit() + 1e-3;
            if (h.below(30) == 0) { reset_regula_falsi(t, &r); int d = a.dir; a = M(); a.dir = d; note(" reset"); }
        }
    }
    return h.ok();
}
