// Reference model: stochastic detection (state-space form), its monitoring state and incremental updates.
#include "common.hpp"
#include <climits>
namespace ref {
using S6 = ObsT<6>;
static const int USE[5] = {1, 2, 3, 4, 5};
constexpr int ORIGIN = 723742, YEAR0 = 723546, KEEP = 8, QCAP = 240, MINOBS = 18;
constexpr double OUT_KF = 25.7448, OUT_BACK = 30.8562;

// exchange layout, all fields four bytes
struct Model {
    int32_t t_start, num_obs, obs[6][8], date[8];
    float cov[6][36], coef[6][6], H[6];
    uint32_t sum[6];
    int32_t norm, angle, last;
};
struct Seg { int32_t t_start, t_break, num_obs; float coefs[6][6], rmse[6], mag[6]; };
struct Pin { int32_t t_break; float coefs[6][6]; int32_t obs[6][8], date[8], norm[8], angle[8]; };
struct Queued { int32_t y[6], date; };
struct State {
    int mode = 0, nseg = 0; int32_t floor_[6] = {0};
    std::vector<Seg> segs; Model m{}; std::vector<Queued> q; std::vector<Pin> pins;
};
struct Par { double tcg; int conse; bool c2, pin; double gate, pred; };

// ---- state space -----------------------------------------------------------------
struct Filter {
    double P[6][6]; float c[6]; float H; unsigned sum;
    void reset() { for (auto &r : P) for (double &v : r) v = 0; for (int k = 0; k < 6; k++) P[k][k] = k == 1 ? (double)(10000.0f / 1000000) : 10000.0; }
    static const double (&T())[6][6] {
        static double t[6][6]; static bool done = false;
        if (!done) {
            double a = 2 * kPi / kYear;
            t[0][0] = t[0][1] = t[1][1] = 1;
            for (int h = 1; h < 3; h++) { int k = 2 * h; t[k][k] = t[k + 1][k + 1] = cos(h * a); t[k][k + 1] = sin(h * a); t[k + 1][k] = -sin(h * a); }
            done = true;
        }
        return t;
    }
    void turn() {                           // P = T P T' (P: upper triangle)
        auto &t = T(); double m[6][6] = {};
        for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
            double v = 0; m[i][j] += t[i][j] * P[j][j];
            for (int k = j + 1; k < 6; k++) { m[i][k] += t[i][j] * P[j][k]; v += t[i][k] * P[j][k]; }
            m[i][j] += v;
        }
        for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { double v = 0; for (int k = 0; k < 6; k++) v += m[i][k] * t[j][k]; P[i][j] = v; }
    }
    void advance() {                        // one day without observation: P = T P T' + Q
        turn();
        for (int i = 0; i < 6; i++) P[i][i] += i == 1 ? 0.1 / 1e6 : 0.1;
    }
    // absorb an observation at day d and predict up to day next; returns the prediction error
    void absorb(float y, int d, int next, double &vt) {
        if (next <= d) return;
        const double w = 2 * kPi / kYear;
        double a[6];
        a[0] = c[0] + d * (double)c[1] / 10000; a[1] = (double)c[1] / 10000;
        for (int h = 1; h < 3; h++) {
            int k = 2 * h; double co = cos((double)d * h * w), si = sin((double)d * h * w);
            a[k] = c[k] * co + c[k + 1] * si; a[k + 1] = -c[k] * si + c[k + 1] * co;
        }
        double kt[6] = {};
        for (int i = 0; i < 6; i++) {
            double z = i % 2 ? 0 : 1, v = 0; kt[i] += z * P[i][i];
            for (int j = i + 1; j < 6; j++) { kt[j] += z * P[i][j]; v += (j % 2 ? 0 : 1) * P[i][j]; }
            kt[i] += v;
        }
        double ft = kt[0] + kt[2] + kt[4] + H;
        vt = y - (a[0] + a[2] + a[4]);
        if (ft > 1e-14) {
            double inv = 1.0 / ft;
            for (int i = 0; i < 6; i++) a[i] += vt * inv * kt[i];
            for (int i = 0; i < 6; i++) { double g = -inv * kt[i]; for (int j = i; j < 6; j++) P[i][j] += kt[j] * g; }
        }
        auto &t = T(); double b[6];
        for (int i = 0; i < 6; i++) { b[i] = 0; for (int j = 0; j < 6; j++) b[i] += t[i][j] * a[j]; }
        advance();
        int e = d + 1;
        c[0] = jig((float)(b[0] - b[1] * e)); c[1] = jig((float)(b[1] * 10000));
        for (int h = 1; h < 3; h++) {
            int k = 2 * h; double co = cos((double)e * h * w), si = sin((double)e * h * w);
            c[k] = jig((float)(co * b[k] - si * b[k + 1])); c[k + 1] = jig((float)(co * b[k + 1] + si * b[k]));
        }
        for (int j = 1; j < next - d; j++) advance();
    }
    void skip(int days) { for (int j = 0; j < days; j++) advance(); }
    void add(double vt) {
        double s = (double)sum + vt * vt;
        sum = s < (double)UINT_MAX ? (unsigned)s : UINT_MAX;
    }
    float at(int date) const {
        const double w = 2 * kPi / kYear; float t = (float)date;
        return jig(c[0] + c[1] * t / 10000 + c[2] * cos(t * w) + c[3] * sin(t * w) + c[4] * cos(t * 2 * w) + c[5] * sin(t * 2 * w));
    }
};

static void fit_one(const std::vector<S6> &o, int a, int b, int band, int df, Fit &f) {
    float w = 2.0 * kPi / kYear; int n = b - a + 1;
    std::vector<std::vector<float>> x(df - 1, std::vector<float>(n)); std::vector<float> y(n);
    for (int i = 0; i < n; i++) {
        float t = (float)o[a + i].date; y[i] = o[a + i].y[band]; x[0][i] = t;
        double a1 = jig(w * t), a2 = g_variant ? (double)jig(2.0f * w * t) : 2.0 * w * t;
        x[1][i] = (float)cos(a1); x[2][i] = (float)sin(a1);
        if (df >= 6) { x[3][i] = (float)cos(a2); x[4][i] = (float)sin(a2); }
    }
    std::vector<double> c; lasso(x, y, 20.f, c);
    for (int j = 0; j < 8; j++) f.c[j] = 0;
    for (int j = 0; j < df; j++) f.c[j] = j == 1 ? (float)(c[1] * 10000) : (float)c[j];
    f.resid.resize(n); float s = 0;
    for (int i = 0; i < n; i++) { f.resid[i] = y[i] - harmonic(f.c, df, o[a + i].date); s += f.resid[i] * f.resid[i]; }
    f.rmse = (float)(sqrtf(s) / std::sqrt((double)(n - df)));
}
static void fit6(const std::vector<S6> &o, int a, int b, int df, Fit *f) { for (int k = 0; k < 6; k++) fit_one(o, a, b, k, df, f[k]); }

static void start_filter(Filter &k, const std::vector<S6> &o, int a, int b, int band, const Fit &f, float H) {
    for (int j = 0; j < 6; j++) k.c[j] = f.c[j];
    k.H = H; k.reset();
    int n = b - a + 1, years = (int)ceil((o[b].date - o[a].date + 1) / kYear);
    std::vector<int> d(2 * n + 1); std::vector<float> y(2 * n + 1);
    for (int i = 0; i < n; i++) { d[i] = (int)(o[a + i].date - years * kYear); y[i] = o[a + i].y[band]; }
    for (int i = 0; i <= n; i++) { const S6 &q = o[std::min(a + i, (int)o.size() - 1)]; d[n + i] = q.date; y[n + i] = q.y[band]; }
    k.sum = 0; double vt = 0;
    for (int i = 0; i < 2 * n; i++) { k.absorb(y[i], d[i], d[i + 1], vt); if (i >= n) k.add(vt); }
}

static int32_t metric(float v) { return std::isnan(v) ? 0 : (int32_t)(short)(v > 32767 ? 32767 : v); }
static float col_median(const std::vector<std::vector<float>> &r, int band, int n) {
    std::vector<float> v; for (int k = 0; k < n; k++) v.push_back(r[k][band]);
    return median_sorted(v);
}
static void drop(std::vector<S6> &o, int k) { o.erase(o.begin() + k); }

struct Standard {
    const Par &p; State &s; std::vector<S6> &o;
    int i = 0, first = 0, dense = 0, prev = 0; bool trained = false, changed = false;
    Filter kf[6]{}; int nobs = 0, t_start = 0; Fit ini[6];
    std::vector<float> year;                 // strongest anomaly of each year (pinpoint output)
    Standard(const Par &p_, State &s_, std::vector<S6> &o_) : p(p_), s(s_), o(o_) {}
    int n() const { return (int)o.size(); }

    bool initialise() {
        int conse = p.conse, gap = 0;
        for (int k = first; k < i; k++) gap = std::max(gap, o[k + 1].date - o[k].date);
        if (gap > kYear) { first++; dense++; return false; }
        int end = std::min(i + conse - 1, n() - 1);
        auto bad = screen(o, first, end, (float)((double)(o[end].date - o[first].date) / kYear), (float)s.floor_[1], (float)s.floor_[4]);
        std::vector<S6> t; int keep = 0, last = 0;
        for (int k = 0; k < n(); k++) {
            if (k >= first && k <= i && bad[k - first]) continue;
            if (k >= first && k <= i) { keep++; last = (int)t.size(); }
            t.push_back(o[k]);
        }
        if (keep < MINOBS) return false;
        if ((t[last].date - t[first].date) / kYear < 1) return false;
        o.swap(t); i = last;
        fit6(o, first, i, 4, ini);
        float norm = 0, scale[6];
        for (int b = 0; b < 6; b++) scale[b] = std::max((float)s.floor_[b], ini[b].rmse);
        for (int q = 0; q < 5; q++) {
            int b = USE[q]; float v0 = ini[b].resid[0] / scale[b], v1 = ini[b].resid[i - first] / scale[b];
            float sl = ini[b].c[1] * (o[i].date - o[first].date) / scale[b] / 10000;
            float v = fabs((double)sl) + std::max(fabs((double)v0), fabs((double)v1));
            norm += v * v;
        }
        note("stable-start", norm, p.tcg);
        if (norm > p.tcg) { first++; return false; }
        if (s.nseg == 0) prev = dense;
        for (int k = first - 1; k >= prev; k--) {
            int m = std::min(conse, k - prev + 1);
            std::vector<std::vector<float>> dir; float least = 9999, mag0 = 0;
            for (int j = 0; j < m; j++) {
                std::vector<float> v(5); float g = 0;
                for (int q = 0; q < 5; q++) { int b = USE[q]; v[q] = (o[k - j].y[b] - harmonic(ini[b].c, 4, o[k - j].date)) / scale[b]; g += v[q] * v[q]; }
                dir.push_back(v); if (j == 0) mag0 = g;
                if (std::isnan(g)) note("nan:back", NAN, 0);
                least = std::min(least, g);
            }
            float ang = mean_angle(dir);
            note("back-mag", least, p.tcg); if (least > p.tcg) note("back-angle", ang, 45);
            if (least > p.tcg && ang < 45) break;
            note("back-outlier", mag0, OUT_BACK);
            if (mag0 > OUT_BACK) { drop(o, k); i--; }
            first = k;
        }
        if (s.nseg == 0 && first - dense >= 6) {        // what precedes the first stable segment
            Fit f[6]; fit6(o, dense, first, 4, f);
            int m = std::min(conse, first - dense);
            Seg r{}; std::vector<std::vector<float>> res;
            for (int j = 1; j <= m; j++) {
                std::vector<float> v(6); for (int b = 0; b < 6; b++) v[b] = o[first - j].y[b] - harmonic(ini[b].c, 4, o[first - j].date);
                res.push_back(v);
            }
            r.t_start = o[0].date; r.t_break = o[first].date; r.num_obs = first - prev;
            for (int b = 0; b < 6; b++) { r.mag[b] = -col_median(res, b, m); r.rmse[b] = f[b].rmse; for (int j = 0; j < 6; j++) r.coefs[b][j] = f[b].c[j]; }
            s.segs.push_back(r); s.nseg++; prev = first;
        }
        return true;
    }

    void snapshot(Model &m) {
        memset(&m, 0, sizeof m);
        for (int b = 0; b < 6; b++) {
            for (int j = 0; j < 36; j++) m.cov[b][j] = (float)kf[b].P[j / 6][j % 6];
            for (int j = 0; j < 6; j++) m.coef[b][j] = kf[b].c[j];
            m.H[b] = kf[b].H; m.sum[b] = kf[b].sum;
        }
        m.t_start = t_start - ORIGIN; m.num_obs = nobs;
        for (int k = 0; k < p.conse; k++) { for (int b = 0; b < 6; b++) m.obs[b][k] = (short)o[i + k].y[b]; m.date[k] = (short)(o[i + k].date - ORIGIN); }
    }

    void pinpoint(const std::vector<std::vector<float>> &dir, const std::vector<float> &mag, float least) {
        int y = (int)((o[i].date - YEAR0) / kYear);
        if ((int)year.size() <= y) year.resize(y + 1, 0);
        if (year[y] != 0) note("pin-best", least, year[y]);
        if (!(least > year[y])) return;
        if (year[y] == 0) s.pins.push_back(Pin{});
        Pin &r = s.pins.back(); memset(&r, 0, sizeof r);
        float cm = 999999;
        for (int k = 0; k < p.conse; k++) {
            cm = std::min(cm, mag[k] * 100);
            std::vector<std::vector<float>> d(dir.begin(), dir.begin() + k + 1);
            r.norm[k] = metric(cm); r.angle[k] = metric(mean_angle(d) * 100);
        }
        for (int k = 0; k < KEEP; k++) if (i + k < n()) { for (int b = 0; b < 6; b++) r.obs[b][k] = (short)o[i + k].y[b]; r.date[k] = (short)(o[i + k].date - ORIGIN); }
        for (int b = 0; b < 6; b++) for (int j = 0; j < 6; j++) r.coefs[b][j] = kf[b].c[j];
        r.t_break = o[i].date; year[y] = least;
    }

    void monitor() {
        int conse = p.conse; float tcg = (float)p.tcg, rb[6], sc[6], least = 9999, ang = 0;
        std::vector<std::vector<float>> dir, res; std::vector<float> mag;
        for (int b = 0; b < 6; b++) { rb[b] = (float)kf[b].sum / (nobs - 6); sc[b] = std::max((float)s.floor_[b], sqrtf(rb[b])); }
        bool change = true; int k;
        for (k = 0; k < conse; k++) {
            std::vector<float> r(6), d(5); float g = 0;
            for (int b = 0; b < 6; b++) r[b] = o[i + k].y[b] - kf[b].at(o[i + k].date);
            for (int q = 0; q < 5; q++) { d[q] = r[USE[q]] / sc[USE[q]]; g += d[q] * d[q]; }
            if (std::isnan(g)) note("nan:monitor", NAN, 0);
            res.push_back(r); dir.push_back(d); mag.push_back(g);
            if (g < least) least = g;
            if (p.pin) { if (k < 3) note("gate", least, p.gate); if (least < p.gate && k < 3) { change = false; break; } }
            else { note("change-mag", least, tcg); if (least < tcg) { change = false; break; } }
        }
        if (p.pin && k >= 3) pinpoint(dir, mag, least);
        if (change) {
            note("change-mag", least, tcg);
            if (least < tcg) change = false;
            else { ang = mean_angle(dir); if (!std::isnan(ang)) note("change-angle", ang, 45); else note("nan:angle", NAN, 0); if (ang > 45) change = false; }
        }
        if (change) {
            Seg r{};
            r.t_start = t_start; r.t_break = o[i].date; r.num_obs = nobs;
            for (int b = 0; b < 6; b++) { r.rmse[b] = sqrtf(rb[b]); r.mag[b] = col_median(res, b, conse); for (int j = 0; j < 6; j++) r.coefs[b][j] = kf[b].c[j]; }
            s.segs.push_back(r); s.nseg++;
            first = prev = i; trained = false;
            snapshot(s.m);
            s.m.norm = metric(least * 100); s.m.angle = metric(ang * 100); s.m.last = conse;
            if (s.mode != 0) changed = true;
            i++;
            return;
        }
        note("outlier", mag[0], OUT_KF);
        if (mag[0] > (float)OUT_KF) {
            for (auto &f : kf) f.skip(o[i + 1].date - o[i].date);
            drop(o, i);
            return;
        }
        double vt = 0;
        for (int b = 0; b < 6; b++) { kf[b].absorb(o[i].y[b], o[i].date, o[i + 1].date, vt); kf[b].add(vt); }
        nobs++; i++;
    }

    void finish() {
        int was = s.mode, conse = p.conse;
        if (was == 0) s.mode = trained ? 1 : 12;
        else if (changed) s.mode = was / 10 == 1 ? 12 : 5;
        else if (was % 10 == 2) { if (trained) s.mode = 1; }
        else if (was % 10 == 5) {
            if (o[n() - conse].date - s.m.date[0] - ORIGIN < 15) prev = 0; else s.mode = 12;
        }
        if (s.mode % 10 == 1) {
            snapshot(s.m);
            float sc[6]; int df = nobs < 18 ? 4 : 6;
            for (int b = 0; b < 6; b++) { float rb = (float)kf[b].sum / (nobs - df); sc[b] = std::max((float)s.floor_[b], sqrtf(rb)); }
            std::vector<std::vector<float>> dir; std::vector<float> mag; int calm = 0;
            for (int k = 0; k < conse; k++) {
                const S6 &q = o[n() - 1 - k]; std::vector<float> d(5); float g = 0;
                for (int x = 0; x < 5; x++) { d[x] = (q.y[USE[x]] - kf[USE[x]].at(q.date)) / sc[USE[x]]; g += d[x] * d[x]; }
                if (std::isnan(g)) note("nan:tail", NAN, 0);
                dir.push_back(d); mag.push_back(g); calm += g < p.pred;
                if (s.mode / 10 == 1) note("predictable", g, p.pred);
            }
            if (s.mode / 10 == 1 && conse > 1 && (float)calm / conse > 0.5) s.mode -= 10;
            int run = 0; float cm = 999999;
            for (; run < conse; run++) {
                note("tail-gate", mag[run], p.gate);
                if (mag[run] <= p.gate) break;
                cm = std::min(cm, mag[run] * 100);
            }
            s.m.norm = s.m.angle = -9999; s.m.last = run;
            if (run > 0) { dir.resize(run); s.m.norm = metric(cm); s.m.angle = metric(mean_angle(dir) * 100); }
        }
        s.q.clear();
        if (s.mode % 10 == 2 || s.mode % 10 == 5)
            for (int k = std::max(prev, n() - QCAP); k < n(); k++) { Queued q; for (int b = 0; b < 6; b++) q.y[b] = (short)o[k].y[b]; q.date = (short)(o[k].date - ORIGIN); s.q.push_back(q); }
    }

    void run() {
        if (s.mode % 10 == 1) {
            for (int b = 0; b < 6; b++) {
                for (int j = 0; j < 36; j++) kf[b].P[j / 6][j % 6] = s.m.cov[b][j];
                for (int j = 0; j < 6; j++) kf[b].c[j] = s.m.coef[b][j];
                kf[b].H = s.m.H[b]; kf[b].sum = s.m.sum[b];
            }
            t_start = ORIGIN + s.m.t_start; nobs = s.m.num_obs; trained = true;
        }
        while (i + p.conse <= n() - 1) {
            if (trained) { monitor(); continue; }
            bool ok = i - first + 1 >= MINOBS && (double)(o[i].date - o[first].date) / kYear >= 1 && initialise();
            if (ok) {
                Fit f[6]; fit6(o, first, i, 6, f);
                for (int b = 0; b < 6; b++) start_filter(kf[b], o, first, i, b, f[b], f[b].rmse * f[b].rmse);
                nobs = i - first + 1; t_start = o[first].date; trained = true;
            }
            i++;
        }
        finish();
    }
};

static void snow(std::vector<S6> &o, State &s) {
    int n = (int)o.size(); Filter kf[6]{};
    if (s.mode != 3) {
        if (n < MINOBS) {
            s.mode = 4; s.q.clear();
            for (auto &x : o) { Queued q; for (int b = 0; b < 6; b++) q.y[b] = (short)x.y[b]; q.date = (short)(x.date - ORIGIN); s.q.push_back(q); }
            return;
        }
        memset(&s.m, 0, sizeof s.m);
        for (int b = 0; b < 6; b++) { Fit f; fit_one(o, 0, n - 1, b, 4, f); start_filter(kf[b], o, 0, n - 1, b, f, f.rmse); }
        s.m.t_start = (short)(o[0].date - ORIGIN); s.m.num_obs = n; s.q.clear();
    } else {
        for (int b = 0; b < 6; b++) {
            for (int j = 0; j < 36; j++) kf[b].P[j / 6][j % 6] = s.m.cov[b][j];
            for (int j = 0; j < 6; j++) kf[b].c[j] = s.m.coef[b][j];
            kf[b].H = s.m.H[b]; kf[b].sum = s.m.sum[b]; double vt = 0;
            for (int k = 0; k < n - KEEP; k++) { kf[b].absorb(o[k].y[b], o[k].date, o[k + 1].date, vt); kf[b].add(vt); }
        }
        s.m.num_obs += n - KEEP;
    }
    for (int b = 0; b < 6; b++) {
        for (int j = 0; j < 36; j++) s.m.cov[b][j] = (float)kf[b].P[j / 6][j % 6];
        for (int j = 0; j < 6; j++) s.m.coef[b][j] = kf[b].c[j];
        s.m.H[b] = kf[b].H; s.m.sum[b] = kf[b].sum;
        for (int k = 0; k < KEEP; k++) s.m.obs[b][k] = (short)o[n - KEEP + k].y[b];
    }
    for (int k = 0; k < KEEP; k++) s.m.date[k] = (short)(o[n - KEEP + k].date - ORIGIN);
    s.m.norm = s.m.angle = -9999; s.m.last = 0; s.mode = 3;
}

static int stochastic(int n, const int64_t *d, const int64_t *bands, const int64_t *qa, const Par &p, State &s) {
    long clear = 0, snowy = 0;
    for (int k = 0; k < n; k++) switch (qa[k]) { case 0: case 1: clear++; break; case 3: snowy++; break; case 2: case 4: case 255: break; default: return -1; }
    for (int k = 0; k + 1 < n; k++) if (d[k] > d[k + 1]) return -2;
    bool sn = s.mode == 0 ? (double)snowy / (double)(snowy + clear + 0.01) >= 0.75 : s.mode == 3 || s.mode == 4;
    std::vector<S6> o;
    if (s.mode == 4 || s.mode % 10 == 2 || s.mode % 10 == 5)
        for (auto &q : s.q) { S6 x; x.date = q.date + ORIGIN; for (int b = 0; b < 6; b++) x.y[b] = (float)q.y[b]; o.push_back(x); }
    else if (s.mode == 3 || s.mode % 10 == 1)
        for (int k = 0; k < (s.mode == 3 ? KEEP : p.conse); k++) { S6 x; x.date = s.m.date[k] + ORIGIN; for (int b = 0; b < 6; b++) x.y[b] = (float)s.m.obs[b][k]; o.push_back(x); }
    size_t before = o.size();
    for (int k = 0; k < n; k++) {
        auto v = [&](int b) { return bands[(size_t)b * n + k]; };
        bool ok;
        if (sn) ok = qa[k] == 3 || qa[k] < 2;
        else {
            ok = qa[k] < 2 && v(0) > -200 && v(0) < 10000;
            for (int b = 1; b < 6; b++) ok = ok && v(b) > 0 && v(b) < 10000;
            int64_t t = (v(6) == 0 || p.c2) ? 0 : v(6) * 10 - 27320;
            ok = ok && t > -9320 && t < 7070;
        }
        if (!ok || (!o.empty() && o.back().date == d[k])) continue;
        S6 x; x.date = (int)d[k]; for (int b = 0; b < 6; b++) x.y[b] = (float)v(b);
        o.push_back(x);
    }
    if (sn) { snow(o, s); return 0; }
    if (o.size() == before) return 0;
    if (s.nseg == 0 && s.mode == 0) { float f[6]; variogram<6>(o, f); for (int b = 0; b < 6; b++) s.floor_[b] = (short)f[b]; }
    Standard st(p, s, o); st.run();
    return 0;
}
} // namespace ref
using namespace ref;

// io: mode, number of closed segments, queue length (in/out)
extern "C" int ref_sccd(int n, const int64_t *d, const int64_t *bands, const int64_t *qa, double tcg, int conse, int c2, int pin, double gate, double pred,
                        int32_t *mode, int32_t *nseg, int32_t *floor_, Model *m, Queued *q, int32_t *nq, Seg *seg, Pin *pins, int32_t *npin, int cap,
                        double *margin, char *where) {
    gsl_set_error_handler_off();
    Margins mg; g_m = &mg;
    Par p{tcg, conse, (bool)c2, (bool)pin, gate, pred}; State s;
    s.mode = *mode; s.nseg = *nseg; s.m = *m; s.q.assign(q, q + *nq); memcpy(s.floor_, floor_, sizeof s.floor_);
    int r = stochastic(n, d, bands, qa, p, s);
    *margin = mg.min_rel; snprintf(where, 64, "%s", mg.where.c_str()); g_m = nullptr;
    if (r < 0) return r;
    if ((int)s.segs.size() > cap || (int)s.pins.size() > cap) return -3;
    std::copy(s.segs.begin(), s.segs.end(), seg); std::copy(s.pins.begin(), s.pins.end(), pins);
    *npin = (int)s.pins.size(); *mode = s.mode; *nseg = s.nseg; *m = s.m; *nq = (int)s.q.size();
    std::copy(s.q.begin(), s.q.end(), q); memcpy(floor_, s.floor_, sizeof s.floor_);
    return (int)s.segs.size();
}
