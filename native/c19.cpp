// near-equality against its definition (C19), on values clustered around the boundaries
#include "h.hh"
#include <cfloat>
#include "trick/compareFloatingPoint.hh"
template <class F> struct L; template <> struct L<double> { static constexpr double mn = DBL_MIN, eps = DBL_EPSILON, mx = DBL_MAX; static bool near(double a, double b, double t) { return Trick::dbl_is_near(a, b, t); } };
template <> struct L<float> { static constexpr float mn = FLT_MIN, eps = FLT_EPSILON, mx = FLT_MAX; static bool near(float a, float b, float t) { return Trick::flt_is_near(a, b, t); } };
template <class F> F pick(H &h) {
    F b[] = {0, -F(0), 1, L<F>::mn, L<F>::mn / L<F>::eps, L<F>::eps, L<F>::mx, F(INFINITY), F(NAN), L<F>::mn / 4, F(h.real(10)), F(std::ldexp(h.real(1), h.range(-100, 100))), F(h.range(-5, 5))};
    F x = b[h.below(13)]; if (h.coin()) x = -x; if (h.below(3) == 0) for (int k = h.range(1, 3); k--;) x = std::nextafter(x, h.coin() ? F(INFINITY) : -F(INFINITY)); return x;
}
template <class F> void one(H &h, const char *nm) {
    F a = pick<F>(h), t = pick<F>(h), b = h.below(4) ? h.coin() ? F(a + t) : F(a - t) : pick<F>(h); if (h.below(4) == 0) b = std::nextafter(b, h.coin() ? F(INFINITY) : -F(INFINITY)); if (h.below(8) == 0) b = a; if (h.below(4) == 0) { t = L<F>::eps * std::max(std::fabs(a), std::fabs(b)); if (h.coin()) t = std::nextafter(t, F(0)); if (h.coin()) b = std::nextafter(a, F(0)); }
    bool want = false;
    if (std::isfinite(a) && std::isfinite(b)) {
        F x = std::fpclassify(a) == FP_SUBNORMAL ? F(0) : a, y = std::fpclassify(b) == FP_SUBNORMAL ? F(0) : b, e = t; if (x > y) { F z = x; x = y; y = z; }
        if (std::fpclassify(t) != FP_NORMAL || t < L<F>::mn / L<F>::eps) e = L<F>::mn / L<F>::eps;
        volatile F sum = x + e, gap = L<F>::eps * std::fmax(std::fabs(x), std::fabs(y));
        want = x == y || (e >= gap && sum >= y);
    }
    if (L<F>::near(a, b, t) != want || L<F>::near(b, a, t) != want) fail("%s(%.17g, %.17g, %.17g) is %d, swapped %d, expected %d", nm, (double)a, (double)b, (double)t, L<F>::near(a, b, t), L<F>::near(b, a, t), want);
}
int main(int c, char **v) { H h(c, v); while (h.more()) { one<double>(h, "dbl_is_near"); one<float>(h, "flt_is_near"); } return h.ok(); }
