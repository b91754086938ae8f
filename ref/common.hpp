// Reference model of the per-pixel algorithms, written for the monitors in /verif.
// Shared pieces: decision margins, regularised harmonic fit, robust harmonic fit.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
#include <gsl/gsl_multifit.h>
#include <gsl/gsl_linalg.h>
#include <gsl/gsl_statistics.h>
#include <gsl/gsl_errno.h>

namespace ref {

// ---- margins ------------------------------------------------------------------
// Every discrete decision reports how far (relatively) it was from flipping.
// A disagreement with the real code on a run whose smallest margin is below the
// tolerance is inconclusive, never a violation.
struct Margins {
    double min_rel = 1e9;         // smallest relative margin seen
    std::string where;            // decision that had it
    long decisions = 0;
    void note(const char *what, double value, double thr, double unc = 0) {
        decisions++;
        if (std::isnan(value)) { if (min_rel > 0) { min_rel = 0; where = std::string("nan:") + what; } return; }
        double scale = std::max(std::fabs(thr), 1e-9);
        double m = std::fabs(value - thr) / scale - unc;
        if (m < min_rel) { min_rel = m; where = what; }
    }
};
extern thread_local Margins *g_m;
inline void note(const char *w, double v, double t, double u = 0) { if (g_m) g_m->note(w, v, t, u); }

// Arithmetic variants: 0 = plain; >0 = every fit input and prediction is disturbed by about one
// unit in the last place, to learn how much of a result is rounding noise.
extern thread_local unsigned g_variant;
extern thread_local unsigned g_noise;
inline float jig(float v) {
    if (!g_variant) return v;
    g_noise = g_noise * 1664525u + 1013904223u;
    int k = (int)((g_noise >> 20) % 5) - 2;
    return (float)(v * (1.0 + k * 6e-8));
}

inline double djig(double v) {
    if (!g_variant) return v;
    g_noise = g_noise * 1664525u + 1013904223u;
    return v * (1.0 + ((int)((g_noise >> 20) % 5) - 2) * 2.3e-16);
}

constexpr double kPi = 3.1415926535897935;
constexpr double kYear = 365.25;

template <int NB> struct ObsT { int date; float y[NB]; };

// ---- L1-regularised least squares (cyclic coordinate descent, standardised) ------
// x: ncol columns of length n.  Returns intercept + coefficients.
inline void lasso(std::vector<std::vector<float>> x, std::vector<float> y, float lambda,
                  std::vector<double> &out) {
    int n = (int)y.size(), p = (int)x.size();
    if (g_variant) {
        for (int j = 1; j < p; j++) for (int i = 0; i < n; i++) x[j][i] = jig(x[j][i]);
        for (int i = 0; i < n; i++) y[i] = jig(y[i]);
    }
    out.assign(p + 1, 0.0);
    std::vector<char> use(p, 0);
    bool any = false;
    for (int j = 0; j < p; j++)
        for (int i = 1; i < n; i++) if (x[j][i] != x[j][0]) { use[j] = 1; any = true; break; }
    if (!any) { out[0] = std::numeric_limits<double>::quiet_NaN(); return; }
    float sw = 0; for (int i = 0; i < n; i++) sw += 1.0f;
    float w = 1.0f / sw, v = std::sqrt(w);
    std::vector<float> xm(p, 0), xs(p, 1), g(p, 0), a(p, 0);
    for (int j = 0; j < p; j++) {
        if (!use[j]) continue;
        float m = 0; for (int i = 0; i < n; i++) m += w * x[j][i];
        m = jig(m);
        if (j == 0) for (int q = 0; q < 8; q++) m = jig(m);       // the date column: long sum of large values
        xm[j] = m;
        float s = 0;
        for (int i = 0; i < n; i++) { x[j][i] = v * (x[j][i] - m); }
        for (int i = 0; i < n; i++) s += x[j][i] * x[j][i];
        xs[j] = std::sqrt(s);
        for (int i = 0; i < n; i++) x[j][i] /= xs[j];
    }
    float ym = 0; for (int i = 0; i < n; i++) ym += w * y[i];
    ym = jig(ym);
    for (int i = 0; i < n; i++) y[i] = v * (y[i] - ym);
    float ys = 0; for (int i = 0; i < n; i++) ys += y[i] * y[i];
    ys = std::sqrt(ys);
    for (int i = 0; i < n; i++) y[i] /= ys;
    for (int j = 0; j < p; j++) if (use[j]) { float s = 0; for (int i = 0; i < n; i++) s += y[i] * x[j][i]; g[j] = jig(s); }
    float lam = lambda / ys;
    const float thr = 1e-4f;
    std::vector<std::vector<float>> c(p);          // cross products of entered columns
    std::vector<int> entered; std::vector<int> slot(p, -1);
    auto step = [&](int k, float &dlx, bool full) {
        float ak = a[k], u = g[k] + ak, vv = std::fabs(u) - lam;
        a[k] = vv > 0.0f ? (u >= 0 ? vv : -vv) : 0.0f;
        if (a[k] == ak) return;
        if (slot[k] < 0) {
            slot[k] = (int)entered.size();
            std::vector<float> col(p, 0);
            for (int j = 0; j < p; j++) {
                if (!use[j]) continue;
                if (j == k) { col[j] = 1.0f; continue; }
                if (slot[j] >= 0 && j != k) { col[j] = c[slot[j]][k]; continue; }
                float s = 0; for (int i = 0; i < n; i++) s += x[j][i] * x[k][i];
                col[j] = jig(s);
            }
            c[slot[k]] = col;
            entered.push_back(k);
        }
        float del = a[k] - ak;
        dlx = std::max(std::fabs(del), dlx);
        if (full) { for (int j = 0; j < p; j++) if (use[j]) g[j] -= c[slot[k]][j] * del; }
        else for (int j : entered) g[j] -= c[slot[k]][j] * del;
    };
    for (int guard = 0; guard < 100000; guard++) {
        float dlx = 0;
        for (int k = 0; k < p; k++) if (use[k]) step(k, dlx, true);
        if (dlx > 0) note("lasso-stop", dlx, thr);
        if (dlx < thr) break;
        std::vector<float> a0; for (int k : entered) a0.push_back(a[k]);
        for (int g2 = 0; g2 < 100000; g2++) {
            dlx = 0;
            for (size_t l = 0; l < entered.size(); l++) step(entered[l], dlx, false);
            if (dlx > 0) note("lasso-stop", dlx, thr);
            if (dlx < thr) break;
        }
        for (int j = 0; j < p; j++) if (slot[j] < 0 && use[j]) {
            float s = 0;
            for (size_t l = 0; l < entered.size(); l++) s += (a[entered[l]] - a0[l]) * c[l][j];
            g[j] -= s;
        }
    }
    float dot = 0;
    for (int k : entered) { float b = ys * a[k] / xs[k]; out[k + 1] = b; dot += b * xm[k]; }
    out[0] = (float)(ym - dot);
}

// Harmonic design: 1, t, cos/sin of 1..3 cycles per year. df in {4,6,8} coefficients.
struct Fit { float c[8]; float rmse; std::vector<float> resid; };

inline float harmonic(const float *c, int df, int date) {
    float w = 2.0 * kPi / kYear, w2 = 2 * w, w3 = 3 * w, t = (float)date;
    float r = c[0] + c[1] * t / 10000;
    float a1 = jig(t * w);
    r = r + c[2] * cosf(a1) + c[3] * sinf(a1);
    if (df >= 6) { float a2 = jig(t * w2); r = r + c[4] * cosf(a2) + c[5] * sinf(a2); }
    if (df >= 8) { float a3 = jig(t * w3); r = r + c[6] * cosf(a3) + c[7] * sinf(a3); }
    return jig(r);
}

inline void fit_series(const std::vector<int> &d, const std::vector<float> &y, int df, Fit &f, float lambda = 20.f) {
    float w = 2.0 * kPi / kYear;
    int n = (int)d.size();
    std::vector<std::vector<float>> x(df - 1, std::vector<float>(n));
    for (int i = 0; i < n; i++) {
        float t = (float)d[i];
        x[0][i] = t;
        for (int h = 1; 2 * h < df; h++) {
            float arg = jig(h == 1 ? w * t : h * w * t);
            x[2 * h - 1][i] = cosf(arg);
            x[2 * h][i] = sinf(arg);
        }
    }
    std::vector<double> b;
    lasso(x, y, lambda, b);
    for (int j = 0; j < 8; j++) f.c[j] = 0;
    for (int j = 0; j < df; j++) f.c[j] = j == 1 ? (float)(b[1] * 10000) : (float)b[j];
    f.resid.resize(n);
    float s = 0;
    for (int i = 0; i < n; i++) { f.resid[i] = y[i] - harmonic(f.c, df, d[i]); }
    for (int i = 0; i < n; i++) s += f.resid[i] * f.resid[i];
    f.rmse = sqrtf(s) / sqrtf((float)(n - df));
}

// Bisquare-weighted harmonic regression: annual + one slow cycle over the span.
// Returns the prediction at each date.
inline bool robust_predict(const std::vector<int> &d, const std::vector<float> &y, int years, std::vector<double> &pred) {
    size_t n = d.size(); const size_t p = 5;
    pred.assign(n, 0);
    if (n < p) return false;
    double w = 2.0 * kPi / kYear, w2 = w / (double)years;
    gsl_matrix *X = gsl_matrix_alloc(n, p), *cov = gsl_matrix_alloc(p, p);
    gsl_vector *Y = gsl_vector_alloc(n), *c = gsl_vector_alloc(p), *wt = gsl_vector_alloc(n), *fac = gsl_vector_alloc(n);
    for (size_t i = 0; i < n; i++) {
        double t = d[i];
        gsl_matrix_set(X, i, 0, 1); gsl_matrix_set(X, i, 1, djig(cos(djig(w * t)))); gsl_matrix_set(X, i, 2, djig(sin(djig(w * t))));
        gsl_matrix_set(X, i, 3, djig(cos(djig(w2 * t)))); gsl_matrix_set(X, i, 4, djig(sin(djig(w2 * t))));
        gsl_vector_set(Y, i, y[i]);
    }
    gsl_multifit_linear_workspace *wk = gsl_multifit_linear_alloc(n, p);
    double chi, lower = 1e-6 * gsl_stats_sd(Y->data, 1, n);
    if (lower == 0) lower = 1;
    gsl_multifit_linear(X, Y, c, cov, &chi, wk);
    {   // leverage of the unweighted design
        gsl_linalg_SV_leverage(wk->A, fac);
        for (size_t i = 0; i < n; i++) {
            double h = std::min(gsl_vector_get(fac, i), 0.9999);
            gsl_vector_set(fac, i, 1 / sqrt(1 - h));
        }
    }
    auto resid = [&](size_t i) {
        double s = 0; for (size_t j = 0; j < p; j++) s += gsl_matrix_get(X, i, j) * gsl_vector_get(c, j);
        return gsl_vector_get(Y, i) - s;
    };
    std::vector<double> r(n), ab(n);
    for (int it = 0; it < 5; it++) {
        for (size_t i = 0; i < n; i++) { r[i] = resid(i) * gsl_vector_get(fac, i); ab[i] = fabs(r[i]); }
        std::sort(ab.begin(), ab.end());
        size_t m = n - p + 1; const double *q = ab.data() + p - 1;
        double med = m % 2 ? q[m / 2] : 0.5 * (q[m / 2 - 1] + q[m / 2]);
        double sig = std::max(med / 0.6745, lower) * 4.685;
        for (size_t i = 0; i < n; i++) {
            double u = r[i] * (1.0 / sig), f = fabs(u) < 1 ? (1 - u * u) * (1 - u * u) : 0;
            gsl_vector_set(wt, i, f);
        }
        std::vector<double> prev(p); for (size_t j = 0; j < p; j++) prev[j] = gsl_vector_get(c, j);
        gsl_multifit_wlinear(X, wt, Y, c, cov, &chi, wk);
        bool conv = true;
        for (size_t j = 0; j < p; j++)
            if (fabs(gsl_vector_get(c, j) - prev[j]) > 1.4901161193847656e-08 * std::max(fabs(prev[j]), fabs(gsl_vector_get(c, j)))) conv = false;
        if (conv) break;
    }
    for (size_t i = 0; i < n; i++) pred[i] = gsl_vector_get(Y, i) - resid(i);
    gsl_multifit_linear_free(wk);
    gsl_matrix_free(X); gsl_matrix_free(cov); gsl_vector_free(Y); gsl_vector_free(c); gsl_vector_free(wt); gsl_vector_free(fac);
    return true;
}

template <class O> std::vector<char> screen(const std::vector<O> &o, int a, int b, float years, float t_green, float t_swir) {
    std::vector<int> d; std::vector<float> g, s;
    for (int k = a; k <= b; k++) { d.push_back(o[k].date); g.push_back(o[k].y[1]); s.push_back(o[k].y[4]); }
    std::vector<double> pg, ps;
    int yr = (int)std::ceil(years);
    robust_predict(d, g, yr, pg); robust_predict(d, s, yr, ps);
    std::vector<char> bad(d.size(), 0);
    for (size_t i = 0; i < d.size(); i++) {
        double tg = 4.42f * t_green, ts = 4.42f * t_swir;
        double dg = fabs(g[i] - pg[i]), ds = fabs(s[i] - ps[i]);
        bad[i] = dg > tg || ds > ts;
        note("screen", dg, tg); note("screen", ds, ts);
    }
    return bad;
}

inline float median_sorted(std::vector<float> v) {
    std::sort(v.begin(), v.end());
    size_t m = v.size() / 2;
    return v.size() % 2 ? v[m] : (float)((v[m - 1] + v[m]) / 2.0);
}

template <int NB, class O> void variogram(const std::vector<O> &o, float *out) {
    for (int b = 0; b < NB; b++) out[b] = 0;
    if (o.size() < 2) return;
    for (int b = 0; b < NB; b++) {
        std::vector<float> v;
        for (size_t j = 0; j + 1 < o.size(); j++) v.push_back((float)abs((int)(o[j + 1].y[b] - o[j].y[b])));
        out[b] = median_sorted(v);
    }
}

// mean angle between successive residual vectors (columns), degrees
inline float mean_angle(const std::vector<std::vector<float>> &v) {
    if (v.size() < 2) return 0;
    float sum = 0;
    for (size_t i = 0; i + 1 < v.size(); i++) {
        float pr = 0, a = 0, b = 0;
        for (size_t j = 0; j < v[i].size(); j++) { pr += v[i][j] * v[i + 1][j]; a += v[i][j] * v[i][j]; b += v[i + 1][j] * v[i + 1][j]; }
        float cs = pr / (sqrtf(a) * sqrtf(b));
        if (cs > 1) cs = 1; else if (cs < -1) cs = -1;      // zero vectors: stays NaN
        float t = acosf(cs);
        sum += (t * 180.0) / kPi;
    }
    return sum / (v.size() - 1);
}
inline double decay(double a, double lo, double hi) { return a < lo ? 1.0 : a > hi ? 0.0 : 1.0 - (a - lo) / (hi - lo); }

// season sort used for the temporally adjusted error: keeps the sort's tie order
inline void season_sort(std::vector<float> &key, std::vector<int> &idx, int l, int r) {
    int i = l, j = r; float pv = key[(l + r) / 2];
    while (i <= j) {
        while (key[i] < pv) i++;
        while (key[j] > pv) j--;
        if (i <= j) { std::swap(key[i], key[j]); std::swap(idx[i], idx[j]); i++; j--; }
    }
    if (l < i - 1) season_sort(key, idx, l, i - 1);
    if (i < r) season_sort(key, idx, i, r);
}
inline int n_coefs(int span) { return span < 18 ? 4 : span < 24 ? 6 : 8; }
} // namespace ref
