// integration schemes against reference tableaux on time-dependent systems (C13)
#include "h.hh"
#include <memory>
#include <vector>
#include <functional>
#include "SAIntegrator.hh"
using namespace SA; typedef std::vector<double> V;
struct Ode { int n; V a, b, c, d; };
static Ode ode; static int calls; static double ud_mark;
static void f(double x, double y[], double r[], void *u) { calls++; if (u != &ud_mark) fail("user data lost"); for (int i = 0; i < ode.n; i++) r[i] = ode.a[i] + ode.b[i] * x + ode.c[i] * y[i] + ode.d[i] * y[(i + 1) % ode.n]; }
static V F(double x, V y) { V r(ode.n); f(x, y.data(), r.data(), &ud_mark); return r; }
struct Tab { const char *n; V c; std::vector<V> A; V b; };
static Tab EU{"Euler", {0}, {{}}, {1}}, HE{"Heun", {0, 1}, {{}, {1}}, {.5, .5}}, R2{"RK2", {0, .5}, {{}, {.5}}, {0, 1}}, R4{"RK4", {0, .5, .5, 1}, {{}, {.5}, {0, .5}, {0, 0, 1}}, {1 / 6., 1 / 3., 1 / 3., 1 / 6.}},
    R38{"RK3/8", {0, 1 / 3., 2 / 3., 1}, {{}, {1 / 3.}, {-1 / 3., 1}, {1, -1, 1}}, {.125, .375, .375, .125}},
    F4{"RKF45", {0, .25, .375, 12 / 13., 1, .5}, {{}, {.25}, {3 / 32., 9 / 32.}, {1932 / 2197., -7200 / 2197., 7296 / 2197.}, {439 / 216., -8, 3680 / 513., -845 / 4104.}, {-8 / 27., 2, -3544 / 2565., 1859 / 4104., -11 / 40.}}, {25 / 216., 0, 1408 / 2565., 2197 / 4104., -.2, 0}};
static V step(const Tab &t, double x, V y, double h, const V *w = 0) {
    std::vector<V> k; const V &b = w ? *w : t.b;
    for (size_t s = 0; s < t.c.size(); s++) { V z = y; for (size_t j = 0; j < t.A[s].size(); j++) for (int i = 0; i < ode.n; i++) z[i] += h * t.A[s][j] * k[j][i]; k.push_back(F(x + t.c[s] * h, z)); }
    for (size_t s = 0; s < b.size(); s++) for (int i = 0; i < ode.n; i++) y[i] += h * b[s] * k[s][i];
    return y;
}
static const double AB[5][5] = {{1}, {1.5, -.5}, {23 / 12., -16 / 12., 5 / 12.}, {55 / 24., -59 / 24., 37 / 24., -9 / 24.}, {1901 / 720., -2774 / 720., 2616 / 720., -1274 / 720., 251 / 720.}};
static const double AM[5][5] = {{1}, {.5, .5}, {5 / 12., 8 / 12., -1 / 12.}, {9 / 24., 19 / 24., -5 / 24., 1 / 24.}, {251 / 720., 646 / 720., -264 / 720., 106 / 720., -19 / 720.}};
static bool near(double a, double b) { return fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)); }
struct Abm { int s; const Tab *prime; std::vector<V> H;
    V go(double x, V y, double h) {
        std::vector<V> G = H; G.insert(G.begin(), F(x, y)); if ((int)G.size() > s) G.resize(s); int c = G.size(); H = G;
        if (prime && c < s) return step(*prime, x, y, h);
        V p = y; for (int i = 0; i < ode.n; i++) for (int j = 0; j < c; j++) p[i] += h * AB[c - 1][j] * G[j][i];
        std::vector<V> Q = G; Q.insert(Q.begin(), F(x + h, p)); V r = y; for (int i = 0; i < ode.n; i++) for (int j = 0; j < c; j++) r[i] += h * AM[c - 1][j] * Q[j][i];
        return r; } };
static void acc(double t, double x[], double v[], double r[], void *) { for (int i = 0; i < ode.n; i++) r[i] = ode.a[i] + ode.b[i] * t + ode.c[i] * x[i] + ode.d[i] * v[i]; }
static double secs() { return (double)clock() / CLOCKS_PER_SEC; }
static double event_at; static double when(double x, double y[], RootFinder *R, void *) { return R->find_roots(x, x - event_at); }
int main(int c, char **v) {
    H h(c, v); double t0 = secs();
    while (secs() - t0 < h.budget) { h.n++;
        int n = ode.n = h.range(1, 4); auto rnd = [&]() { return h.range(-1000, 1000) / 500.0; };
        for (V *p : {&ode.a, &ode.b, &ode.c, &ode.d}) { p->assign(n, 0); for (double &x : *p) x = rnd(); }
        V y(n), z(n); for (double &q : y) q = rnd(); std::vector<double *> in(n), out(n); bool two = h.coin(); for (int i = 0; i < n; i++) in[i] = &y[i], out[i] = two ? &z[i] : &y[i];
        double hh = h.range(1, 400) / 1000.0, x0 = h.coin() ? 0 : rnd() * 5; int kind = h.below(11), steps = h.range(1, 12), eps_k = h.range(3, 9);
        std::unique_ptr<FirstOrderODEIntegrator> I; const Tab *T = 0; Abm A{0, 0, {}};
        double **pi = in.data(), **po = out.data(); RKF45Integrator *rk = 0;
        switch (kind) {
            case 0: I.reset(new FirstOrderODEIntegrator(hh, n, pi, po, f, &ud_mark)); T = &EU; break;
            case 1: I.reset(new EulerIntegrator(hh, n, pi, po, f, &ud_mark)); T = &EU; break;
            case 2: I.reset(new HeunsMethod(hh, n, pi, po, f, &ud_mark)); T = &HE; break;
            case 3: I.reset(new RK2Integrator(hh, n, pi, po, f, &ud_mark)); T = &R2; break;
            case 4: I.reset(new RK4Integrator(hh, n, pi, po, f, &ud_mark)); T = &R4; break;
            case 5: I.reset(new RK3_8Integrator(hh, n, pi, po, f, &ud_mark)); T = &R38; break;
            case 6: I.reset(rk = new RKF45Integrator(pow(10, -eps_k), hh, n, pi, po, f, &ud_mark)); T = &F4; break;
            case 7: A.s = h.range(1, 5); I.reset(new ABMIntegrator(A.s, hh, n, pi, po, f, &ud_mark)); break;
            case 8: A.s = 2; A.prime = &R2; I.reset(new ABM2Integrator(hh, n, pi, po, f, &ud_mark)); break;
            case 9: A.s = 4; A.prime = &R4; I.reset(new ABM4Integrator(hh, n, pi, po, f, &ud_mark)); break;
            default: {
                V p(n), w(n); std::vector<double *> xp(n), vp(n); for (int i = 0; i < n; i++) p[i] = rnd(), w[i] = rnd(), xp[i] = &p[i], vp[i] = &w[i];
                EulerCromerIntegrator E(hh, n, xp.data(), vp.data(), acc, &ud_mark); E.setIndyVar(x0);
                for (int s = 0; s < steps; s++) { V p0 = p, w0 = w, a(n); acc(x0 + s * hh, p0.data(), w0.data(), a.data(), 0); bool u = h.below(4) == 0;
                    E.integrate(); if (u) { E.undo_integrate(); if (p != p0 || w != w0) fail("Euler-Cromer: undo does not restore"); E.integrate(); }
                    for (int i = 0; i < n; i++) { double v1 = w0[i] + hh * a[i]; if (!near(w[i], v1) || !near(p[i], p0[i] + hh * v1)) fail("Euler-Cromer step %d: %.17g %.17g, expected %.17g %.17g", s, p[i], w[i], p0[i] + hh * v1, v1); } }
                continue; }
        }
        const char *nm = T ? T->n : A.prime ? A.s == 2 ? "ABM2" : "ABM4" : "ABM"; I->setIndyVar(x0); double x = x0;
        bool ev = (kind >= 1 && kind <= 5) && h.below(4) == 0;
        if (ev) { auto *vs = static_cast<FirstOrderODEVariableStepIntegrator *>(I.get()); event_at = x0 + hh * h.range(1, 900) / 1000.0; vs->add_Rootfinder(1e-9, Unconstrained, when); }
        for (int s = 0; s < steps; s++) {
            V y0 = y; bool u = h.below(3) == 0;
            I->integrate(); 
            if (u && !ev) { I->undo_integrate(); if (y != y0) fail("%s: undo does not restore the variables", nm); if (!near(I->getIndyVar(), x)) fail("%s: undo leaves the independent variable at %.17g", nm, I->getIndyVar()); I->integrate(); }
            double hs = rk ? rk->getLastStepSize() : hh; V want = T ? step(*T, x, y0, hs) : A.go(x, y0, hh), &got = two ? z : y;
            if (!ev) for (int i = 0; i < n; i++) if (!near(got[i], want[i])) fail("%s (history %d, h %g, x0 %g) step %d%s: state %d is %.17g, expected %.17g", nm, A.s, hh, x0, s, u ? " after an undo" : "", i, got[i], want[i]);
            if (rk) { static const V b5{16 / 135., 0, 6656 / 12825., 28561 / 56430., -9 / 50., 2 / 55.}; V w = step(*T, x, y0, hs, &b5); for (int i = 0; i < n; i++) if (fabs(w[i] - want[i]) / hs > pow(10, -eps_k) * 1.001 + 1e-12) fail("RKF45: error %g per step above epsilon 1e-%d", fabs(w[i] - want[i]) / hs, eps_k); if (hs > hh * 1.0000001 && s) fail("RKF45: step %g above the limit %g", hs, hh); }
            x += hs; if (!near(I->getIndyVar(), x)) fail("%s: independent variable %.17g, expected %.17g", nm, I->getIndyVar(), x);
            if (two) y = z;
        }
    }
    return h.ok();
}
