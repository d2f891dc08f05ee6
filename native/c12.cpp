// tables of up to four parameters against direct multilinear interpolation (C12)
#include "h.hh"
#include "trick/Interpolator.hh"
int main(int c, char **v) {
    H h(c, v);
    while (h.more()) {
        int n = h.range(1, 4); unsigned size[4]; std::vector<std::vector<double>> bp(n); double *bps[4]; long total = 1; double p[4]; bool bad = false; int lo[4];
        for (int j = 0; j < n; j++) {
            size[j] = h.range(2, h.coin() ? 3 : 6); total *= size[j]; double b = h.range(-8, 8) * 0.25;
            for (unsigned k = 0; k < size[j]; k++) { bp[j].push_back(b); b += h.range(1, 8) * 0.25; }
            // exactly as long as it says: reads beyond are caught
            bps[j] = (double *)malloc(8 * size[j]); memcpy(bps[j], bp[j].data(), 8 * size[j]);
            int q = h.below(6); double first = bp[j][0], last = bp[j].back();
            p[j] = q == 0 ? bp[j][h.below(size[j])] : q == 1 && h.below(4) == 0 ? (h.coin() ? first - 0.125 : last + 0.125) : first + (last - first) * h.unit();
            if (p[j] < first || p[j] > last) bad = true;
            lo[j] = 0; while (lo[j] + 2 < (int)size[j] && p[j] > bp[j][lo[j] + 1]) lo[j]++;
        }
        double *t = (double *)malloc(8 * total); for (long i = 0; i < total; i++) t[i] = h.range(-64, 64) * 0.5;
        double want = 0;
        if (!bad) for (int m = 0; m < 1 << n; m++) { double w = 1; long at = 0; for (int j = 0; j < n; j++) { int k = lo[j] + (m >> j & 1); double d = bp[j][lo[j] + 1] - bp[j][lo[j]]; w *= (m >> j & 1) ? (p[j] - bp[j][lo[j]]) / d : (bp[j][lo[j] + 1] - p[j]) / d; at = at * size[j] + k; } want += w * t[at]; }
        Trick::Interpolator I(t, bps, size, n); double got = 0; bool threw = false; int form = h.below(2); char s[200]; snprintf(s, 200, "%d parameters (%g, %g, %g, %g)", n, p[0], n > 1 ? p[1] : 0, n > 2 ? p[2] : 0, n > 3 ? p[3] : 0);
        try { got = form ? I.eval(p) : n == 1 ? I.eval(p[0]) : n == 2 ? I.eval(p[0], p[1]) : n == 3 ? I.eval(p[0], p[1], p[2]) : I.eval(p[0], p[1], p[2], p[3]); } catch (std::logic_error &) { threw = true; }
        if (threw != bad) fail("%s: %s", s, bad ? "no error for a parameter outside its range" : "an error for parameters inside their ranges");
        if (!bad && fabs(got - want) > 1e-9) fail("%s: %.17g instead of %.17g", s, got, want);
        for (int j = 0; j < n; j++) free(bps[j]);
        free(t);
    }
    return h.ok();
}
