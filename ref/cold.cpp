// Reference model: COLD detection, fallback fits, object-based reconstruction.
#include "common.hpp"
namespace ref {
thread_local Margins *g_m = nullptr;
thread_local unsigned g_variant = 0, g_noise = 1;
using O = ObsT<7>;
static const int LB[5] = {1, 2, 3, 4, 5};       // bands used for change decisions
constexpr float OUTLIER = 30.8562;
constexpr float RECON = 15.0863;

struct Rec { int t_start, t_end, t_break, pos, num_obs, category, prob; float coefs[7][8], rmse[7], mag[7]; };

struct Input {
    int n; const int64_t *d; const int64_t *b[7]; const int64_t *qa;
    bool c2;
};

static bool usable_range(const Input &in, int i) {
    for (int k = 0; k < 6; k++) {
        int64_t lo = k == 0 ? -200 : 0, v = in.b[k][i];
        if (!(v > lo && v < 10000)) return false;
    }
    int64_t t = (in.b[6][i] == 0 || in.c2) ? 0 : in.b[6][i] * 10 - 27320;
    if (!(t > -9320 && t < 7070)) return false;
    return in.qa[i] < 255;
}
static O make(const Input &in, int i, float thermal) {
    O o; o.date = (int)in.d[i];
    for (int k = 0; k < 6; k++) o.y[k] = (float)in.b[k][i];
    o.y[6] = thermal; return o;
}
static float kelvin(const Input &in, int i) { return (float)(in.b[6][i] * 10 - 27320); }

static std::vector<O> clear_obs(const Input &in, bool c2zero) {
    std::vector<O> v;
    for (int i = 0; i < in.n; i++)
        if (in.qa[i] < 2 && usable_range(in, i) && (v.empty() || v.back().date != in.d[i]))
            v.push_back(make(in, i, c2zero && in.c2 && in.b[6][i] == 0 ? 0.f : kelvin(in, i)));
    return v;
}
template <class V> static void fit_band(const V &o, int a, int b, int band, int df, Fit &f) {
    std::vector<int> d; std::vector<float> y;
    for (int k = a; k <= b; k++) { d.push_back(o[k].date); y.push_back(o[k].y[band]); }
    fit_series(d, y, df, f);
}
static void fit_all(const std::vector<O> &o, int a, int b, int df, Fit *f) { for (int k = 0; k < 7; k++) fit_band(o, a, b, k, df, f[k]); }
static void store(Rec &r, const Fit *f) {
    for (int b = 0; b < 7; b++) { r.rmse[b] = f[b].rmse; for (int k = 0; k < 8; k++) r.coefs[b][k] = f[b].c[k]; }
}

// one slot of the change-magnitude output, with the runner-up for near-tie reports
struct Slots {
    bool on = false; int start = 0, step = 1, n = 0; int16_t *val = nullptr, *date = nullptr;
    int16_t *rival = nullptr;       // best value of a different date in this slot
    void put(float angle, float m, int d) {
        if (!on) return;
        float p = decay(angle, 45, 90);
        double v = std::round((double)(p * m * 100));
        if (std::isnan(v)) { note("cm", NAN, 0); v = 0; }
        if (v > 32767) v = 32767;
        if (d < start) return;
        int s = (d - start) / step;
        if (s >= n) return;
        int16_t iv = (int16_t)v, id = (int16_t)(d - 723742);
        if (iv > val[s]) { rival[s] = val[s]; val[s] = iv; date[s] = id; }
        else if (iv > rival[s]) rival[s] = iv;
    }
};

static int fallback(const Input &in, float snow_share, std::vector<Rec> &out) {
    Rec r{}; Fit f[7];
    if (snow_share > 0.75) {
        std::vector<O> o;
        for (int i = 0; i < in.n; i++) if (in.qa[i] == 3 || in.qa[i] < 2) o.push_back(make(in, i, in.c2 ? 0.f : kelvin(in, i)));
        if ((int)o.size() < 12) return 0;
        for (int k = 0; k < 7; k++) {
            std::vector<int> d; std::vector<float> y;
            for (auto &q : o) {
                float v = q.y[k];
                if (k < 6 ? (v > 0 && v < 10000) : (v > -9320 && v < 7070)) { d.push_back(q.date); y.push_back(v); }
            }
            if (y.size() < 12) { for (int j = 0; j < 8; j++) f[k].c[j] = 0; f[k].c[0] = 10000; f[k].rmse = 0; }
            else fit_series(d, y, 4, f[k]);
        }
        r.t_start = o.front().date; r.t_end = o.back().date; r.num_obs = (int)o.size(); r.category = 54;
        store(r, f); out.push_back(r); return 0;
    }
    std::vector<O> o;
    for (int i = 0; i < in.n; i++) if (usable_range(in, i) && (o.empty() || o.back().date != in.d[i])) o.push_back(make(in, i, in.c2 ? 0.f : kelvin(in, i)));
    if (o.empty()) return 0;
    std::vector<float> g; for (auto &q : o) g.push_back(q.y[1]);
    double lim = median_sorted(g) + 400.0;
    std::vector<O> k; for (auto &q : o) if (q.y[1] < lim) k.push_back(q);
    if (k.size() < 12) return 0;
    fit_all(k, 0, (int)k.size() - 1, 4, f);
    r.t_start = k.front().date; r.t_end = k.back().date; r.num_obs = (int)k.size(); r.category = 44;
    store(r, f); out.push_back(r); return 0;
}

struct Counts { int clear = 0, snow = 0; bool bad = false; };
static Counts count(const Input &in) {
    Counts c;
    for (int i = 0; i < in.n; i++) switch (in.qa[i]) {
        case 0: case 1: c.clear++; break;
        case 3: c.snow++; break;
        case 2: case 4: case 255: break;
        default: c.bad = true;
    }
    return c;
}

// Window of consecutive residual vectors under test.
struct Window {
    std::vector<std::vector<float>> dir;   // scaled residuals, 5 bands
    std::vector<std::vector<float>> res;   // raw residuals, 7 bands
    std::vector<float> mag; std::vector<double> unc;
};
static void residual(const O &o, const Fit *f, int df, const float *scale5, std::vector<float> &res, std::vector<float> &dir, float &mag) {
    res.assign(7, 0); dir.assign(5, 0); mag = 0;
    for (int b = 0; b < 7; b++) res[b] = o.y[b] - harmonic(f[b].c, df, o.date);
    for (int q = 0; q < 5; q++) { dir[q] = res[LB[q]] / scale5[q]; mag += dir[q] * dir[q]; }
}
static float column_median(const std::vector<std::vector<float>> &res, int band, int a, int b) {
    std::vector<float> v; for (int k = a; k < b; k++) v.push_back(res[k][band]);
    return median_sorted(v);
}

static void detect(std::vector<O> o, float tcg, int conse, double gap, Slots &cm, std::vector<Rec> &out) {
    float floor_[7]; variogram<7>(o, floor_);
    int n = (int)o.size();
    int s = 0, e = 11, dense = 0;            // segment [s,e], first candidate
    bool trained = false, fitted = false;
    Fit f[7]; Rec cur{}; Window w; int df = 8, fit_e = 0, span0 = 0; std::vector<int> basis;
    auto after_break = [&](int limit, int dflt) {
        if (out.empty()) return dflt;
        for (int k = 0; k < limit; k++) if (o[k].date >= out.back().t_break) return k;
        return dflt;
    };
    auto scale = [&](const Fit *ff, float *sc) { for (int q = 0; q < 5; q++) sc[q] = std::max(floor_[LB[q]], ff[LB[q]].rmse); };
    while (e + 1 + conse <= n) {
        int span = e - s + 1;
        float yrs = (float)(o[e].date - o[s].date) / kYear;
        if (!(span >= 12 && yrs >= 1.0f)) { e++; continue; }
        if (!trained) {
            int widest = 0; for (int k = s; k < e; k++) widest = std::max(widest, o[k + 1].date - o[k].date);
            if (widest > gap) { e++; s++; dense = s; continue; }
            auto bad = screen(o, s, e + conse, (float)(o[e + conse].date - o[s].date) / kYear, floor_[1], floor_[4]);
            int keep = 0; for (int k = s; k <= e; k++) keep += !bad[k - s];
            if (keep < 12) { e++; continue; }
            std::vector<O> t; for (int k = 0; k < n; k++) if (!(k >= s && k <= e && bad[k - s])) t.push_back(o[k]);
            int e2 = s + keep - 1;
            float y2 = (t[e2].date - t[s].date) / kYear;
            if (y2 < 1) { e++; continue; }
            o.swap(t); n = (int)o.size(); e = e2;
            fit_all(o, s, e, 4, f);
            float sc[5]; scale(f, sc);
            float total = 0;
            for (int q = 0; q < 5; q++) {
                float a = f[LB[q]].resid[0] / sc[q], b = f[LB[q]].resid[e - s] / sc[q];
                float sl = f[LB[q]].c[1] * (o[e].date - o[s].date) / sc[q] / 10000;
                float v = std::fabs((double)sl) + std::max(std::fabs((double)a), std::fabs((double)b));
                total += v * v;
            }
            note("stability", total, tcg);
            if (total > tcg) { s++; e++; continue; }
            trained = true; fitted = false;
            int first = after_break(n, dense);
            std::vector<std::vector<float>> back;     // residuals of the last look-back window
            for (int q = s - 1; s > first && q >= first; q--) {
                int m = std::min(conse, q - first + 1);
                float low = 9999; std::vector<std::vector<float>> dir(m), res(m); float m0 = 0;
                for (int k = 0; k < m; k++) {
                    float mg; residual(o[q - k], f, 4, sc, res[k], dir[k], mg);
                    if (k == 0) m0 = mg;
                    low = std::min(low, mg);
                }
                back = res;
                float ang = mean_angle(dir);
                if (m >= conse) cm.put(ang, low, o[q + 1].date);
                note("back-mag", low, tcg); if (m > 1 && low > tcg * 0.99) note("back-angle", ang, 45);
                if (low > tcg && ang < 45) break;
                if (std::isnan(ang)) note("back-angle", ang, 45);
                note("back-outlier", m0, OUTLIER);
                if (m0 > OUTLIER) { o.erase(o.begin() + q); n--; e--; }
                s = q;
            }
            if (out.empty() && s - dense >= 6) {
                Fit g[7]; fit_all(o, dense, s - 1, 4, g);
                for (int b = 0; b < 7; b++) f[b] = g[b];
                Rec r{}; r.t_start = o[dense].date; r.t_end = o[s - 1].date; r.t_break = o[s].date; r.category = 14; r.prob = 100;
                r.num_obs = s - dense;
                store(r, g);
                for (int b = 0; b < 7; b++) r.mag[b] = -column_median(back, b, 0, (int)back.size());
                out.push_back(r);
            }
        }
        span = e - s + 1;
        if (span0 == 0) span0 = span;
        df = n_coefs(span);
        if (!fitted || span <= 24) {
            fitted = true; fit_e = e;
            fit_all(o, s, e, df, f);
            cur = Rec{}; cur.t_start = o[s].date; cur.t_end = o[e].date; cur.num_obs = span; cur.category = df; store(cur, f);
            float sc[5]; scale(f, sc);
            w.dir.assign(conse, {}); w.res.assign(conse, {}); w.mag.assign(conse, 0); w.unc.assign(conse, 0);
            for (int k = 0; k < conse; k++) residual(o[e + 1 + k], f, df, sc, w.res[k], w.dir[k], w.mag[k]);
            basis.clear(); for (int k = s; k <= e; k++) basis.push_back(k);
        } else {
            if (e - fit_e >= 1 && e - fit_e > (int)(span0 * 0.03)) {
                fit_e = e; span0 = span;
                fit_all(o, s, e, df, f); store(cur, f); cur.num_obs = span; cur.category = df;
                basis.clear(); for (int k = s; k <= e; k++) basis.push_back(k);
            }
            cur.t_end = o[e].date;
            const O &tip = o[e + conse];
            std::vector<float> key; std::vector<int> idx;
            for (size_t k = 0; k < basis.size(); k++) {
                int dd = o[basis[k]].date - tip.date;
                key.push_back((float)std::fabs(std::round((double)(float)dd / kYear) * kYear - (float)dd));
                idx.push_back((int)k);
            }
            season_sort(key, idx, 0, (int)key.size() - 1);
            int use = 3 * cur.category;
            float sc[5]; double unc = 0;
            for (int q = 0; q < 5; q++) {
                float sum = 0; for (int k = 0; k < use; k++) { float v = f[LB[q]].resid[idx[k]]; sum += v * v; }
                float t = sqrtf(sum) / sqrtf((float)(use - cur.category));
                sc[q] = std::max((double)floor_[LB[q]], (double)t);
                if (use < (int)key.size() && key[use] - key[use - 1] < 0.01) {     // tie at the cut: order not prescribed
                    double base = 0, lo, hi; std::vector<double> tied; int inside = 0;
                    for (size_t k = 0; k < key.size(); k++) {
                        double v = f[LB[q]].resid[idx[k]]; v *= v;
                        if (std::fabs(key[k] - key[use - 1]) < 0.01) { tied.push_back(v); if ((int)k < use) inside++; }
                        else if ((int)k < use) base += v;
                    }
                    std::sort(tied.begin(), tied.end()); lo = hi = base;
                    for (int k = 0; k < inside; k++) { lo += tied[k]; hi += tied[tied.size() - 1 - k]; }
                    unc = std::max(unc, hi > 0 && lo > 0 ? hi / lo - 1 : 1e6);
                }
            }
            std::vector<float> res, dir; float mg; residual(tip, f, df, sc, res, dir, mg);
            w.res.erase(w.res.begin()); w.dir.erase(w.dir.begin()); w.mag.erase(w.mag.begin()); w.unc.erase(w.unc.begin());
            w.res.push_back(res); w.dir.push_back(dir); w.mag.push_back(mg); w.unc.push_back(unc);
        }
        float ang = mean_angle(w.dir), low = 9999;
        double unc = 0; for (double u : w.unc) unc = std::max(unc, u);
        for (float m : w.mag) low = std::min(low, m);
        cm.put(ang, low, o[e + 1].date);
        note("mag", low, tcg, unc); if (low > tcg * 0.98 || unc > 0) { if (low * (1 + unc) > tcg) note("angle", ang, 45, unc > 0 ? std::min(unc, 1.0) : 0); }
        if (low > tcg && ang < 45) {
            cur.t_break = o[e + 1].date; cur.prob = 100;
            for (int b = 0; b < 7; b++) cur.mag[b] = column_median(w.res, b, 0, conse);
            out.push_back(cur);
            s = e + 1; trained = false; span0 = 0;
            e++; continue;
        }
        note("outlier", w.mag[0], OUTLIER, w.unc[0]);
        if (w.mag[0] > OUTLIER) { o.erase(o.begin() + e + 1); n--; e--; }
        e++;
    }
    if (trained) {
        int last = conse;
        for (int k = conse - 1; k >= 0; k--) {
            std::vector<std::vector<float>> t(w.dir.begin() + k, w.dir.end());
            float ang = mean_angle(t);
            note("tail-mag", w.mag[k], tcg, w.unc[k]); if (w.mag[k] > tcg * 0.98 && t.size() > 1) note("tail-angle", ang, 45);
            if (w.mag[k] <= tcg || ang >= 45) { last = k + 1; break; }
        }
        cur.prob = (int)((double)(conse - last) * 100.0 / conse);
        cur.t_end = o[n - 1 - conse + last].date;
        if (conse > last) {
            cur.t_break = o[n - conse + last].date;
            for (int b = 0; b < 7; b++) cur.mag[b] = column_median(w.res, b, last, conse);
        }
        out.push_back(cur);
    } else {
        s = after_break(n, 0);
        if (n - s >= 6) {
            auto bad = screen(o, s, n - 1, (float)(o[n - 1].date - o[s].date) / kYear, floor_[1], floor_[4]);
            std::vector<O> t; for (int k = 0; k < n; k++) if (!(k >= s && bad[k - s])) t.push_back(o[k]);
            o.swap(t); n = (int)o.size();
        }
        if (n - s >= 6) {
            fit_all(o, s, n - 1, 4, f);
            Rec r{}; r.t_start = out.empty() ? o[0].date : out.back().t_break; r.t_end = o[n - 1].date; r.num_obs = n - s; r.category = 24;
            store(r, f); out.push_back(r);
        }
    }
}

static void reconstruct(const Input &in, std::vector<int64_t> breaks, int conse, std::vector<Rec> &out) {
    std::vector<O> o = clear_obs(in, true);
    float floor_[7]; variogram<7>(o, floor_);
    std::sort(breaks.begin(), breaks.end());
    std::vector<int> bl; int64_t prev = 0;
    for (auto b : breaks) if (b > 0 && (double)(b - prev) >= kYear) { bl.push_back((int)b); prev = b; }
    // a break is placed at the usable observation closest in time (the earlier of two equally close)
    auto at = [&](const std::vector<O> &v, int d) {
        int best = 0; for (int k = 1; k < (int)v.size(); k++) if (std::abs(v[k].date - d) < std::abs(v[best].date - d)) best = k;
        return best;
    };
    if (o.empty()) return;
    int a = 0; Fit f[7];
    for (size_t j = 0; j <= bl.size(); j++) {
        bool lastseg = j == bl.size();
        int b = lastseg ? (int)o.size() : at(o, bl[j]);
        if (b - a < 6) continue;
        if (b - a >= 12 && !lastseg) {
            auto bad = screen(o, a, b - 1, (float)(o[b - 1].date - o[a].date + 1) / kYear, floor_[1], floor_[4]);
            std::vector<O> t; int nb = 0;
            for (int k = 0; k < (int)o.size(); k++) if (k >= a && k < b && bad[k - a]) nb++; else t.push_back(o[k]);
            if (b - a - nb < 6) continue;
            int b2 = b - nb, df = n_coefs(b2 - a);
            for (int q = 0; q < 5; q++) fit_band(t, a, b2 - 1, LB[q], df, f[LB[q]]);
            std::vector<O> u; int rm = 0;
            for (int k = 0; k < (int)t.size(); k++) {
                if (k >= a && k < b2) {
                    float s = 0; for (int q = 0; q < 5; q++) {
                        float v = (t[k].y[LB[q]] - harmonic(f[LB[q]].c, df, t[k].date)) / std::max(floor_[LB[q]], f[LB[q]].rmse); s += v * v; }
                    note("recon-outlier", s, RECON);
                    if (s > RECON) { rm++; continue; }
                }
                u.push_back(t[k]);
            }
            if (b2 - a - rm < 6) continue;
            o.swap(u);
        }
        b = lastseg ? (int)o.size() : at(o, bl[j]);
        int df = n_coefs(b - a);
        fit_all(o, a, b - 1, df, f);
        Rec r{}; r.t_start = o[a].date; r.t_end = o[b - 1].date; r.num_obs = b - a; r.category = df; store(r, f);
        if (!lastseg) {
            int m = std::min(conse, (int)o.size() - b);
            r.prob = 100;
            if (m > 0) {
                r.t_break = o[b].date;
                for (int q = 0; q < 7; q++) { std::vector<float> v; for (int k = 0; k < m; k++) v.push_back(o[b + k].y[q] - harmonic(f[q].c, df, o[b + k].date)); r.mag[q] = median_sorted(v); }
            }
            a = b;
        }
        out.push_back(r);
    }
}
} // namespace ref

using namespace ref;
struct RawRec { int32_t v[7]; float coefs[7][8], rmse[7], mag[7]; };
static int dump(const std::vector<Rec> &out, int pos, RawRec *r, int cap) {
    int k = 0;
    for (auto &q : out) {
        if (k == cap) return -3;
        r[k].v[0] = q.t_start; r[k].v[1] = q.t_end; r[k].v[2] = q.t_break; r[k].v[3] = pos; r[k].v[4] = q.num_obs; r[k].v[5] = q.category; r[k].v[6] = q.prob;
        memcpy(r[k].coefs, q.coefs, sizeof q.coefs); memcpy(r[k].rmse, q.rmse, sizeof q.rmse); memcpy(r[k].mag, q.mag, sizeof q.mag); k++;
    }
    return k;
}
static Input mk(int n, const int64_t *d, const int64_t *bands, const int64_t *qa, int c2) {
    Input in; in.n = n; in.d = d; for (int k = 0; k < 7; k++) in.b[k] = bands + (size_t)k * n; in.qa = qa; in.c2 = c2; return in;
}
static float share(const Counts &c) { return (float)c.snow / (float)(c.snow + c.clear + 0.01); }
static void fin(Margins &m, double *margin, char *where) { *margin = m.min_rel; snprintf(where, 64, "%s", m.where.c_str()); g_m = nullptr; }

extern "C" int ref_cold(int n, const int64_t *d, const int64_t *bands, const int64_t *qa, double tcg, int conse, int c2, double gap, int pos,
                        int cm_on, int cm_start, int cm_n, int cm_step, int16_t *cmv, int16_t *cmd, int16_t *rival,
                        RawRec *r, int cap, double *margin, char *where) {
    gsl_set_error_handler_off();
    Margins m; g_m = &m; std::vector<Rec> out;
    Input in = mk(n, d, bands, qa, c2); Counts c = count(in);
    if (c.bad) { fin(m, margin, where); return -1; }
    for (int i = 0; i + 1 < n; i++) if (d[i] > d[i + 1]) { fin(m, margin, where); return -2; }
    Slots cm; cm.on = cm_on; cm.start = cm_start; cm.n = cm_n; cm.step = cm_step; cm.val = cmv; cm.date = cmd; cm.rival = rival;
    if (c.clear < 24) fallback(in, share(c), out);
    else detect(clear_obs(in, true), (float)tcg, conse, gap, cm, out);
    fin(m, margin, where); return dump(out, pos, r, cap);
}
extern "C" int ref_recon(int n, const int64_t *d, const int64_t *bands, const int64_t *qa, int nb, const int64_t *br, int conse, int c2, int pos,
                         RawRec *r, int cap, double *margin, char *where) {
    gsl_set_error_handler_off();
    Margins m; g_m = &m; std::vector<Rec> out;
    Input in = mk(n, d, bands, qa, c2); Counts c = count(in);
    if (c.bad) { fin(m, margin, where); return -1; }
    for (int i = 0; i + 1 < n; i++) if (d[i] > d[i + 1]) { fin(m, margin, where); return -2; }
    if (c.clear < 24) fallback(in, share(c), out);
    else {
        reconstruct(in, std::vector<int64_t>(br, br + nb), conse, out);
        if (out.empty()) fallback(in, share(c), out);
    }
    if (!out.empty()) { out.back().prob = 0; out.back().t_break = 0; for (auto &x : out.back().mag) x = 0; }
    fin(m, margin, where); return dump(out, pos, r, cap);
}

extern "C" void ref_variant(unsigned v) { g_variant = v; g_noise = v * 2654435761u + 1; }
