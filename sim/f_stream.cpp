// Family "stream": models fed by sensor streams that cross an unreliable network (C14, C15, C21).
#include "mdl.h"
#include <algorithm>
#include <deque>
#include "xmmKMeans.hpp"
namespace {
enum { C14 = 1, C15 = 2, C21 = 4 };
unsigned prop_bit;
void viol(unsigned mask, const char *cls, const char *fmt, ...) {
    char b[900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (mask & prop_bit) sim_fail(cls, "%s", b);
    sim_probe("other-property"); sim_log("(violation of another property: %s: %s)\n", cls, b); sim_end();
}
bool close(double a, double b, double rel, double abs = 0) { if (a == b || (a != a && b != b)) return true; return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b)); }
typedef std::vector<float> Frame;

// one sensor sends a frame every 10 ms; the network loses, repeats, delays and thereby reorders them, and the sensor itself glitches
std::vector<Frame> deliver(Op const &o, uint64_t tsseed, int dim, int use, bool &ordinary) {
    Rng r(o.u("seed", 1)); int n = o.i("n", 10); ordinary = true;
    std::vector<Frame> src = phrase_data(tsseed, o.i("l"), 100 + o.i("seed") % 50, dim, n, 0); float noise = (float)o.i("x") / 10;
    struct Msg { int64_t at; int k; }; std::vector<Msg> q; int64_t last = 0;
    for (int k = 0; k < n; k++) {
        for (int d = 0; d < dim; d++) src[k][d] += dim_amp(d) * noise * r.g();
        if (o.i("far")) for (int d = 0; d < dim; d++) src[k][d] += dim_amp(d) * (float)o.i("far");
        if (r.chance(o.i("nf"))) { static const float v[] = { NAN, INFINITY, -INFINITY }; src[k][r.n(dim)] = v[r.n(3)]; sim_count(F_NONFINITE); ordinary = false; }
        if (r.chance(o.i("huge"))) { static const float v[] = { 1e30f, -3e38f, 1e-42f, 1e10f }; src[k][r.n(dim)] = v[r.n(4)]; sim_count(F_HUGE); ordinary = false; }
        int copies = 1; if (r.chance(o.i("drop"))) { copies = 0; sim_count(F_DROP); } else if (r.chance(o.i("dup"))) { copies = 2; sim_count(F_DUP); }
        for (int c = 0; c < copies; c++) {
            int64_t at = k * 10 + r.n(4); if (r.chance(o.i("late"))) { at += r.n(200); sim_count(F_DELAY); }
            if (at < last) sim_count(F_REORDER); last = at; Msg m = { at, k }; q.push_back(m);
        }
    }
    std::stable_sort(q.begin(), q.end(), [](Msg const &a, Msg const &b) { return a.at < b.at; });
    std::vector<Frame> out; for (auto &m : q) { Frame f = src[m.k]; f.resize(use); out.push_back(f); }
    return out;
}

// ------------------------------------------------------------ reference: what the learned parameters say about a stream
typedef xmm::SingleClassGMM Mix; typedef xmm::SingleClassHMM Hmm;
struct Out { std::vector<double> val, cov; };
// densities, conditional means and covariances from mean and covariance alone, by Cholesky decomposition; where rounding would decide, the result is not "sure"
typedef xmm::GaussianDistribution Gauss;
bool is_full(Gauss const &g) { return g.covariance_mode.get() == Gauss::CovarianceMode::Full; }
struct Chol {
    int n; bool ok; std::vector<double> L; double worst, det;
    Chol(Gauss const &g, int n_) : n(n_), ok(true), L(n_ * n_, 0.), worst(1), det(1) {
        int D = (int)g.dimension.get();
        for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) {
            long double s = g.covariance[i * D + j]; for (int k = 0; k < j; k++) s -= (long double)L[i * n + k] * L[j * n + k];
            if (i == j) { if (!(s > 0)) { ok = false; return; } worst = std::max(worst, (double)(g.covariance[i * D + i] / s)); det *= (double)s; L[i * n + i] = (double)sqrtl(s); } else L[i * n + j] = (double)(s / L[j * n + j]);
        }
    }
    void solve(std::vector<double> &v) const { // v := inverse * v
        for (int i = 0; i < n; i++) { long double s = v[i]; for (int k = 0; k < i; k++) s -= (long double)L[i * n + k] * v[k]; v[i] = (double)(s / L[i * n + i]); }
        for (int i = n - 1; i >= 0; i--) { long double s = v[i]; for (int k = i + 1; k < n; k++) s -= (long double)L[k * n + i] * v[k]; v[i] = (double)(s / L[i * n + i]); }
    }
};
double density(Gauss const &g, Frame const &f, bool bi) {
    int n = bi ? (int)g.dimension_input.get() : (int)g.dimension.get(); double q = 0, det = 1; bool sure = true;
    if (is_full(g)) {
        Chol c(g, n); det = c.det; std::vector<double> v(n), w; for (int i = 0; i < n; i++) v[i] = f[i] - g.mean[i]; w = v; double m = 0;
        if (c.ok) { c.solve(w); for (int i = 0; i < n; i++) { q += v[i] * w[i]; m += std::fabs(v[i] * w[i]); } sure = m * c.worst * 1e-15 < 1e-5 && c.worst < 1e9; } else sure = false;
    } else for (int i = 0; i < n; i++) { double d = f[i] - g.mean[i]; q += d * d / g.covariance[i]; det *= g.covariance[i]; }
    double p = exp(-0.5 * q) / sqrt(det * pow(2 * M_PI, n));
    if (!sure || !(det > 1e-290) || !std::isfinite(q)) { sim_probe("density-unsure"); return bi ? g.likelihood_input(&f[0]) : g.likelihood(&f[0]); }
    sim_probe("density-recomputed");
    return p < 1e-180 || !std::isfinite(p) ? 1e-180 : p;
}
void conditional(Gauss const &g, Frame const &f, int dout, std::vector<double> &val, std::vector<double> &cov) {
    int n = (int)g.dimension_input.get(), D = (int)g.dimension.get(); val.assign(dout, 0.);
    if (!is_full(g)) { for (int d = 0; d < dout; d++) val[d] = g.mean[n + d]; cov.assign(g.covariance.begin() + n, g.covariance.begin() + n + dout); return; }
    Chol c(g, n); bool sure = c.ok && c.worst < 1e9; std::vector<double> w(n); for (int i = 0; i < n; i++) w[i] = f[i] - g.mean[i]; cov.assign(dout * dout, 0.);
    if (sure) {
        c.solve(w);
        for (int d = 0; d < dout; d++) { double m = 0; val[d] = g.mean[n + d]; for (int e = 0; e < n; e++) { double t = g.covariance[(n + d) * D + e] * w[e]; val[d] += t; m += std::fabs(t); } if (!(m * 1e-6 * c.worst < 1e-4 * (dim_amp(n + d) + std::fabs(val[d])))) sure = false; }
        for (int b = 0; b < dout; b++) {
            std::vector<double> u(n); for (int e = 0; e < n; e++) u[e] = g.covariance[e * D + n + b]; c.solve(u);
            for (int a = 0; a < dout; a++) { double x = g.covariance[(n + a) * D + n + b], m = std::fabs(x); for (int e = 0; e < n; e++) { double t = g.covariance[(n + a) * D + e] * u[e]; x -= t; m += std::fabs(t); } cov[a * dout + b] = x; if (!(m * 1e-14 * c.worst < 1e-10 * dim_amp(n + a) * dim_amp(n + b))) sure = false; }
        }
    }
    if (sure) { sim_probe("regression-recomputed"); return; }
    sim_probe("regression-unsure"); Frame v(dout, 0.f); g.regression(f, v); val.assign(v.begin(), v.end()); cov = g.output_covariance;
}
double mix_prob(Mix const &g, Frame const &f, bool bi, std::vector<double> *part = 0) {
    double s = 0; for (size_t c = 0; c < g.components.size(); c++) { double p = g.mixture_coeffs[c] * density(g.components[c], f, bi); s += p; if (part) part->push_back(p); } return s;
}
Out mix_out(Mix const &g, Frame const &f, int dout) {
    std::vector<double> b, v, k; double s = mix_prob(g, f, true, &b); Out o; o.val.assign(dout, 0);
    for (size_t c = 0; c < g.components.size(); c++) {
        conditional(g.components[c], f, dout, v, k); double w = b[c] / s; if (!c) o.cov.assign(k.size(), 0);
        for (int d = 0; d < dout; d++) o.val[d] += w * v[d];
        for (size_t q = 0; q < k.size(); q++) o.cov[q] += w * w * k[q];
    }
    return o;
}
struct ClsRef { std::vector<double> a[3], exitp; std::deque<double> logs; double inst = 0, exit = 0, progress = 0; int best = 0; bool tie = false, coarse = false, has_cov = true, has_out = true; Out out; };
struct RefBase { bool started = false, alive = true, first = false; double total = 0; std::map<std::string, ClsRef> c; void clear() { *this = RefBase(); } };
void ref_frame(RefBase &R, xmm::GMM const &m, Frame const &f, bool bi, int dout) {
    for (auto &k : m.models) { ClsRef &c = R.c[k.first]; c.inst = mix_prob(k.second, f, bi); if (bi) c.out = mix_out(k.second, f, dout); }
    R.started = true;
}
bool ergodic(Hmm const &h) { return h.parameters.transition_mode.get() == xmm::HMM::TransitionMode::Ergodic; }
double stay(float t, float e) { return e < 1.f ? t / (1.f - e) : 0.f; } // parameters have single precision
void ref_frame(RefBase &R, HHMM const &m, Frame const &f, bool bi, int dout) {
    bool hier = m.configuration.hierarchical.get(); R.first = !R.started; bool under = false; double total = 0; size_t n = m.models.size(), ci = 0;
    std::vector<double> e1, e2; // mass that leaves each class for another one, or for the start
    if (R.started && hier) for (auto &k : m.models) { ClsRef &c = R.c[k.first]; double s1 = 0, s2 = 0; for (auto x : c.a[1]) s1 += x; for (auto x : c.a[2]) s2 += x; e1.push_back(s1); e2.push_back(s2); }
    for (auto &k : m.models) {
        Hmm const &h = k.second; ClsRef &c = R.c[k.first]; int N = (int)h.states.size(); bool erg = ergodic(h); std::vector<double> front(N, 0.), b(N);
        for (int i = 0; i < N; i++) b[i] = mix_prob(h.states[i], f, bi);
        if (c.exitp.empty()) { Json::Value e = h.toJson()["exitProbabilities"]; for (Json::ArrayIndex i = 0; i < e.size(); i++) c.exitp.push_back(e[i].asDouble()); }
        auto tr = [&](int i, int j) -> double { if (erg) return h.transition[i * N + j]; if (i == j) return h.transition[i * 2]; if (j == i + 1) return h.transition[i * 2 + 1]; return (!hier && N > 1 && i == N - 1 && j == 0) ? h.transition[i * 2 + 1] : 0.; };
        if (!R.started) {
            for (int i = 0; i < N; i++) front[i] = erg ? h.prior[i] : i == 0 ? (hier ? m.prior[ci] : 1.) : 0.;
        } else if (!hier) {
            for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) front[j] += c.a[0][i] * tr(i, j);
            if (!erg && N == 1) front[0] += c.a[0][0] * h.transition[1];
        } else {
            double in = 0; for (size_t s = 0; s < n; s++) in += e1[s] * m.transition[s][ci] + m.prior[ci] * e2[s];
            for (int j = 0; j < N; j++) {
                for (int i = 0; i < N; i++) front[j] += c.a[0][i] * (!erg && i == 0 && j == 0 ? tr(0, 0) : stay(tr(i, j), c.exitp[i]));
                front[j] += erg ? h.prior[j] * in : j == 0 ? in : 0.;
            }
        }
        bool split = hier && R.started; double x = m.exit_transition.size() > ci ? m.exit_transition[ci] : 0; c.inst = c.exit = 0;
        for (int e = 0; e < 3; e++) c.a[e].assign(N, 0.);
        for (int i = 0; i < N; i++) {
            double t = front[i] * b[i]; c.inst += t; if (t > 0 && t < 1e-290) under = true; // no longer exact
            if (!split) c.a[0][i] = t;
            else { c.a[2][i] = x * c.exitp[i] * t; c.a[1][i] = (1 - x) * c.exitp[i] * t; c.a[0][i] = (1 - c.exitp[i]) * t; c.exit += c.exitp[i] * t; }
        }
        total += c.inst; ci++;
        for (float t : h.transition) if (t > 0 && t < 1e-36f) c.coarse = true; // too small for the precision of its type
    }
    R.total = total;
    if (hier && R.started && total == 0) { R.started = false; ref_frame(R, m, f, bi, dout); return; } // nothing explains the frame: from the priors again
    for (auto &k : m.models) {
        Hmm const &h = k.second; ClsRef &c = R.c[k.first]; int N = (int)h.states.size(); double z = hier ? total : c.inst; if (under) z = 0;
        if (!(z > 1e-290) || !std::isfinite(z)) { R.alive = false; sim_probe("reference-underflow"); return; }
        std::vector<double> w(N); for (int i = 0; i < N; i++) { for (int e = 0; e < 3; e++) c.a[e][i] /= z; w[i] = c.a[0][i] + c.a[1][i]; }
        c.best = 0; for (int i = 1; i < N; i++) if (w[i] > w[c.best]) c.best = i;
        c.tie = false; for (int i = 0; i < N; i++) if (i != c.best && close(w[i], w[c.best], 1e-3)) c.tie = true;
        int lo = std::max(0, c.best - N / 2), hi = std::min(N, c.best + N / 2); double wn = 0, p = 0, pn = 0;
        for (int i = lo; i < hi; i++) { double s = w[i] + c.a[2][i]; wn += w[i]; p += s * i; pn += s; }
        c.progress = (pn > 0 ? p / pn : p) / std::max(1, N - 1);
        if (!bi) continue;
        int re = (int)h.parameters.regression_estimator.get(); bool full = h.parameters.covariance_mode.get() == xmm::GaussianDistribution::CovarianceMode::Full; size_t nc = full ? dout * dout : dout;
        c.has_cov = re != (int)xmm::HMM::RegressionEstimator::Likeliest; c.has_out = re == (int)xmm::HMM::RegressionEstimator::Full || (!c.tie && (N > 1 || c.has_cov == false));
        c.out.val.assign(dout, 0); c.out.cov.assign(nc, 0);
        if (re == (int)xmm::HMM::RegressionEstimator::Likeliest) { c.out.val = mix_out(h.states[c.best], f, dout).val; continue; }
        if (re == (int)xmm::HMM::RegressionEstimator::Full) { lo = 0; hi = N; wn = 1; }
        if (wn <= 0) wn = 1;
        for (int i = lo; i < hi; i++) { Out s = mix_out(h.states[i], f, dout); for (int d = 0; d < dout; d++) c.out.val[d] += w[i] * s.val[d] / wn; for (size_t q = 0; q < nc; q++) c.out.cov[q] += w[i] * w[i] * s.cov[q] / wn; }
    }
    R.started = true;
}
bool negligible(RefBase const &R, ClsRef const &c, double v) { return v < (c.coarse ? 1e-30 : 1e-90) * R.total; }
void extra_checks(RefBase &, xmm::GMM const &, int) {}
void extra_checks(RefBase &R, HHMM const &m, int si) {
    bool hier = m.configuration.hierarchical.get();
    for (auto &k : m.models) {
        auto &r = k.second.results; int N = (int)k.second.states.size();
        if (!(r.progress >= -1e-9 && r.progress <= 1 + 1e-9)) viol(C14, "progress", "model %d: the progress of class %s is %.17g", si, k.first.c_str(), r.progress);
        if ((int)r.likeliest_state >= N) viol(C14, "likeliest-state", "model %d: the likeliest state of class %s is %u of %d", si, k.first.c_str(), r.likeliest_state, N);
        if (!(r.exit_ratio >= 0 && r.exit_ratio <= 1 + 1e-9)) viol(C14, "exit-ratio", "model %d: the exit ratio of class %s is %.17g", si, k.first.c_str(), r.exit_ratio);
        if (!(prop_bit & C21) || !R.alive) continue;
        ClsRef &c = R.c[k.first];
        if (hier && !negligible(R, c, c.exit) && !close(r.exit_likelihood, c.exit, 1e-3, 1e-290)) viol(C21, "exit-likelihood", "model %d: the exit likelihood of class %s is %.17g instead of %.17g", si, k.first.c_str(), r.exit_likelihood, c.exit);
        if (hier && c.inst > 1e-290 && !negligible(R, c, c.inst) && !close(r.exit_ratio, c.exit / c.inst, 1e-3, 1e-9)) viol(C21, "exit-ratio", "model %d: the exit ratio of class %s is %.17g instead of %.17g", si, k.first.c_str(), r.exit_ratio, c.exit / c.inst);
        if (c.tie || (hier && (c.inst < 1e-250 || negligible(R, c, c.inst)))) continue;
        if ((int)r.likeliest_state != c.best) viol(C21, "likeliest-state", "model %d: the likeliest state of class %s is %u instead of %d", si, k.first.c_str(), r.likeliest_state, c.best);
        if (!close(r.progress, c.progress, 1e-3, 1e-6)) viol(C21, "progress", "model %d: the progress of class %s is %.17g instead of %.17g", si, k.first.c_str(), r.progress, c.progress);
    }
}
bool first_scaled(xmm::GMM const &) { return false; }
bool first_scaled(HHMM const &m) { return m.configuration.hierarchical.get(); } // only the ratios of the first frame are compared
void add_exit(xmm::GMM &, Op const &) {}
std::vector<float> exits(Hmm const &h) { std::vector<float> v; Json::Value e = h.toJson()["exitProbabilities"]; for (Json::ArrayIndex i = 0; i < e.size(); i++) v.push_back(e[i].asFloat()); return v; }
void add_exit(HHMM &m, Op const &o) {
    float p = (float)o.i("pr", 30) / 100; int x = o.i("x"); bool hier = m.configuration.hierarchical.get(), all = o.i("all"); if (!hier) return; // refused otherwise
    std::map<std::string, std::vector<float>> want; int lo = 1000; std::string only;
    { SimQuiet q; for (auto &k : m.models) { want[k.first] = exits(k.second); lo = std::min(lo, (int)k.second.states.size()); } only = label_name(o.i("l")); }
    if (lo == 1000 || (!all && !want.count(only))) return;
    if (all) x %= lo; else x %= (int)m.models.at(only).states.size();
    if (all) m.addExitPoint(x, p); else m.models.at(only).addExitPoint(x, p);
    SimQuiet q;
    for (auto &k : m.models) {
        std::vector<float> &w = want[k.first], now = exits(k.second); if (all || k.first == only) w[x] = p;
        if (now != w) viol(C21, "exit-point", "the exit points of class %s are not those that were set (state %d, probability %g)", k.first.c_str(), x, p);
    }
}
bool is_gmm(xmm::GMM const &) { return true; } bool is_gmm(HHMM const &) { return false; }

template <class M> struct User {
    struct Slot { M *m = 0; Op cfg; TsSpec ts; bool plain = true, bi = false, ordinary = true; int win = 1, dout = 0, use = 1; uint64_t learned = 0; RefBase ref; };
    std::map<int, Slot> slots;
    Slot *at(int i) { auto it = slots.find(i); return it == slots.end() ? 0 : &it->second; }
    void drop(int i) { auto it = slots.find(i); if (it == slots.end()) return; delete it->second.m; slots.erase(it); }
    void fresh(Slot &s) { s.ref.clear(); s.ordinary = true; s.win = (int)s.m->shared_parameters->likelihood_window.get(); SimQuiet q; s.learned = model_print(*s.m); }
    void trained(Slot &s, TsSpec const &t, int label) {
        TsData d; { SimQuiet q; d.build(t); }
        if (label < 0) s.m->train(d.ts); else s.m->train(d.ts, label_name(label));
        SimQuiet q; d.drop();
    }
    M *build(Op const &cfg, TsSpec const &t) { M *m = new M(t.bi); apply_cfg(*m, cfg); Slot s; s.m = m; trained(s, t, -1); return m; }
    void same_learned(Slot &s, int i, Op const &o) { SimQuiet q; if (model_print(*s.m) != s.learned) viol(C15, "learned-changed", "model %d: what it has learned has changed (after: %s)", i, o.text().c_str()); }

    void check(Slot &s, int i, Frame const &f, bool bad_frame) {
        SimQuiet q; auto &R = s.m->results; size_t n = s.m->models.size(); if (!n) return;
        if (R.instant_likelihoods.size() != n || R.instant_normalized_likelihoods.size() != n || R.smoothed_likelihoods.size() != n || R.smoothed_normalized_likelihoods.size() != n || R.smoothed_log_likelihoods.size() != n)
            viol(C14, "sizes", "model %d: the results are not those of %zu classes", i, n);
        double s1 = 0, s2 = 0, t1 = 0, t2 = 0, best = -INFINITY; size_t k = 0; bool found = false;
        for (size_t j = 0; j < n; j++) {
            double a = R.instant_normalized_likelihoods[j], b = R.smoothed_normalized_likelihoods[j];
            if (!(a >= 0 && a <= 1 + 1e-12)) viol(C14, "not-normalised", "model %d: the instantaneous normalised likelihood of class %zu is %.17g", i, j, a);
            if (!(b >= 0 && b <= 1 + 1e-12)) viol(C14, "not-normalised", "model %d: the smoothed normalised likelihood of class %zu is %.17g", i, j, b);
            s1 += a; s2 += b; t1 += R.instant_likelihoods[j]; t2 += R.smoothed_likelihoods[j];
            double l = R.smoothed_log_likelihoods[j]; if (l != l) viol(C14, "not-a-number", "model %d: the log-likelihood of class %zu is not a number", i, j);
            best = std::max(best, l);
            if (!close(R.smoothed_likelihoods[j], exp(l), 1e-9)) viol(C14, "smoothed", "model %d: the smoothed likelihood of class %zu is %.17g, its logarithm %.17g", i, j, R.smoothed_likelihoods[j], l);
        }
        if (!close(s1, 1, 1e-9) || !close(s2, 1, 1e-9)) viol(C14, "not-normalised", "model %d: the normalised likelihoods sum to %.17g and %.17g", i, s1, s2);
        for (size_t j = 0; j < n; j++) {
            if (t1 > 0 && std::isfinite(t1) && !close(R.instant_normalized_likelihoods[j], R.instant_likelihoods[j] / t1, 1e-9, 1e-300)) viol(C14, "proportion", "model %d: the normalised instantaneous likelihood of class %zu is out of proportion", i, j);
            if (t2 > 0 && std::isfinite(t2) && !close(R.smoothed_normalized_likelihoods[j], R.smoothed_likelihoods[j] / t2, 1e-9, 1e-300)) viol(C14, "proportion", "model %d: the normalised smoothed likelihood of class %zu is out of proportion", i, j);
        }
        for (auto &c : s.m->models) {
            if (c.first == R.likeliest) { found = true; if (!close(R.smoothed_log_likelihoods[k], best, 1e-12, 1e-12)) viol(C14, "likeliest", "model %d: class %s is reported as likeliest with a log-likelihood of %.17g, the largest is %.17g", i, c.first.c_str(), R.smoothed_log_likelihoods[k], best); }
            auto &r = c.second.results; double inst = r.instant_likelihood;
            if (!close(R.instant_likelihoods[k], inst, 1e-12) || !close(R.smoothed_log_likelihoods[k], r.log_likelihood, 1e-12)) viol(C14, "class-results", "model %d: the results of class %s and of the model disagree", i, c.first.c_str());
            if (!(inst >= 0)) viol(C14, "not-a-number", "model %d: the instantaneous likelihood of class %s is %.17g", i, c.first.c_str(), inst);
            ClsRef &x = s.ref.c[c.first]; x.logs.push_back(log(inst)); if ((int)x.logs.size() > s.win) x.logs.pop_front();
            double mean = 0, mag = 0; for (double v : x.logs) { mean += v; mag += std::fabs(v); } mean /= (double)x.logs.size(); mag /= (double)x.logs.size();
            if (!(r.log_likelihood == mean || std::fabs(r.log_likelihood - mean) <= 1e-9 * (1 + mag))) viol(C14, "window", "model %d: the smoothed log-likelihood of class %s is %.17g, the mean over the last %zu frames is %.17g", i, c.first.c_str(), r.log_likelihood, x.logs.size(), mean);
            k++;
        }
        if (!found) viol(C14, "likeliest", "model %d: the likeliest class is '%s', which it does not have", i, R.likeliest.c_str());
        if (s.bi) {
            if ((int)R.output_values.size() != s.dout) viol(C14, "sizes", "model %d: %zu output values instead of %d", i, R.output_values.size(), s.dout);
            if (s.ordinary) { for (float v : R.output_values) if (!std::isfinite(v)) viol(C14, "output", "model %d: an output value is %g", i, v); for (float v : R.output_covariance) if (!std::isfinite(v)) viol(C14, "output", "model %d: an output covariance is %g", i, v); }
        }
        bool mixed = false;
        if ((prop_bit & C21) && s.ref.alive) {
            ref_frame(s.ref, *s.m, f, s.bi, s.dout); double ti = 0; bool scaled = s.ref.first && first_scaled(*s.m); for (auto &c : s.m->models) ti += s.ref.c[c.first].inst;
            if (s.ref.alive && !bad_frame) {
                sim_probe("frame-compared");
                if (scaled) { int e = 0; for (auto &c : s.m->models) e |= 1 << is_ergodic(c.second); mixed = e == 3; } k = 0;
                for (auto &c : s.m->models) {
                    ClsRef &x = s.ref.c[c.first]; double got = c.second.results.instant_likelihood, want = x.inst; if (scaled) { got = R.instant_normalized_likelihoods[k]; want /= ti; }
                    if (!(scaled && mixed) && !negligible(s.ref, x, x.inst) && !close(got, want, 1e-3, scaled ? 1e-9 : 1e-290)) viol(C21, "likelihood", "model %d: the instantaneous likelihood of class %s is %.17g, the learned parameters give %.17g", i, c.first.c_str(), got, want);
                    if (s.bi && s.ordinary && x.has_out) compare_out(i, c.first.c_str(), c.second.results.output_values, c.second.results.output_covariance, x.out, x.has_cov);
                    k++;
                }
                if (s.bi && s.ordinary) { // combination of the classes
                    Out o; o.val.assign(s.dout, 0); bool full = s.m->configuration.covariance_mode.get() == xmm::GaussianDistribution::CovarianceMode::Full; o.cov.assign(full ? s.dout * s.dout : s.dout, 0); k = 0;
                    bool lik = s.m->configuration.multiClass_regression_estimator == xmm::MultiClassRegressionEstimator::Likeliest;
                    for (auto &c : s.m->models) {
                        auto &r = c.second.results; double w = R.smoothed_normalized_likelihoods[k++]; bool cf = c.second.parameters.covariance_mode.get() == xmm::GaussianDistribution::CovarianceMode::Full;
                        if (lik) { if (c.first == R.likeliest) { o.val.assign(r.output_values.begin(), r.output_values.end()); o.cov.assign(r.output_covariance.begin(), r.output_covariance.end()); } continue; }
                        for (int d = 0; d < s.dout; d++) { o.val[d] += w * r.output_values[d]; for (int e = 0; e < s.dout; e++) { if (!full && e != d) continue; if (!cf && e != d) continue; o.cov[full ? d * s.dout + e : d] += w * r.output_covariance[cf ? d * s.dout + e : d]; } }
                    }
                    compare_out(i, "(all)", R.output_values, R.output_covariance, o, true);
                }
            }
        }
        extra_checks(s.ref, *s.m, i);
    }
    static bool is_ergodic(Mix const &) { return false; }
    static bool is_ergodic(Hmm const &h) { return ergodic(h); }
    void compare_out(int i, const char *cls, std::vector<float> const &v, std::vector<float> const &c, Out const &o, bool cov) {
        double mag = 1e-3 * data_amp; for (double x : o.val) mag = std::max(mag, std::fabs(x)); if (mag > 1e5 * std::max(1.f, data_amp)) return;
        if (v.size() != o.val.size()) viol(C21, "output", "model %d: class %s predicts %zu values instead of %zu", i, cls, v.size(), o.val.size());
        for (size_t d = 0; d < v.size(); d++) if (!close(v[d], o.val[d], 1e-3, 1e-3 * (data_amp + mag))) viol(C21, "output", "model %d: class %s predicts %.9g in dimension %zu, the learned parameters give %.9g", i, cls, v[d], d, o.val[d]);
        if (!cov) return; double cm = 1e-6 * data_amp * data_amp; for (double x : o.cov) cm = std::max(cm, std::fabs(x));
        if (c.size() != o.cov.size()) viol(C21, "output-covariance", "model %d: class %s has %zu output covariances instead of %zu", i, cls, c.size(), o.cov.size());
        for (size_t d = 0; d < c.size(); d++) if (!close(c[d], o.cov[d], 1e-3, 1e-3 * cm)) viol(C21, "output-covariance", "model %d: class %s has the output covariance %.9g, the learned parameters give %.9g", i, cls, c[d], o.cov[d]);
    }
    void feed(Slot &s, int i, Frame const &f, bool ordinary) {
        bool bad = false; for (float x : f) if (!std::isfinite(x)) bad = true; if (!ordinary) s.ordinary = false;
        s.m->filter(f); check(s, i, f, bad);
    }
    std::vector<Frame> stream(Slot &s, Op const &o, bool &ordinary) { SimQuiet q; return deliver(o, s.ts.seed, s.ts.dim, s.use, ordinary); }
    M *twin(Slot &s, int d, int how) { // a model with the same knowledge and no past
        Slot *t = at(d); if (how == 4 && !s.plain) how = 0;
        if (how == 1 && t) { *t->m = *s.m; return t->m; }
        if (how == 3 && t) { t->m->fromJson(s.m->toJson()); return t->m; }
        drop(d);
        if (how == 2 || how == 3) return new M(s.m->toJson());
        if (how == 4) return build(s.cfg, s.ts);
        if (how == 5) { M *m = new M(s.bi); *m = *s.m; return m; }
        return new M(*s.m);
    }
    Slot &place(int d, M *m, Slot const &s) { Slot &t = slots[d]; { SimQuiet q; RefBase r; t.m = m; t.cfg = s.cfg; t.ts = s.ts; t.plain = s.plain; t.bi = s.bi; t.dout = s.dout; t.use = s.use; } fresh(t); return t; }
    uint64_t print(Slot &s) { SimQuiet q; Hash h; if (s.m->models.empty()) return 0; hash_results(h, *s.m, s.bi); hash_extra(h, *s.m); return h.h; }
    void step(Op const &o) {
        std::string const &n = o.name; int i = o.i("s"), d = o.i("d"); sim_log("%s\n", o.text().c_str());
        if (n == "new") {
            drop(i); TsSpec t; { SimQuiet q; t.from(o); } M *m = build(o, t); Slot x; { SimQuiet q; x.cfg = o; x.ts = t; x.bi = t.bi; x.dout = t.bi ? t.dim - t.din : 0; x.use = t.bi ? t.din : t.dim; }
            Slot &s = place(i, m, x); s.plain = true; return;
        }
        Slot *s = at(i); if (!s) return;
        if (n == "frames") { bool ord; std::vector<Frame> v = stream(*s, o, ord); for (auto &f : v) feed(*s, i, f, ord); same_learned(*s, i, o); }
        else if (n == "reset") { s->m->reset(); s->ref.clear(); s->ordinary = true; s->win = (int)s->m->shared_parameters->likelihood_window.get(); same_learned(*s, i, o); }
        else if (n == "win") { s->m->shared_parameters->likelihood_window.set(o.i("w", 1)); { SimQuiet q; s->cfg.set("win", o.i("w", 1)); } s->m->reset(); fresh(*s); }
        else if (n == "est") { s->m->configuration.multiClass_regression_estimator = o.i("e") ? xmm::MultiClassRegressionEstimator::Mixture : xmm::MultiClassRegressionEstimator::Likeliest; SimQuiet q; s->cfg.set("est", o.i("e")); s->learned = model_print(*s->m); }
        else if (n == "rm") { if (!s->m->models.count(label_name(o.i("l")))) return; s->m->removeClass(label_name(o.i("l"))); s->plain = false; s->m->reset(); fresh(*s); }
        else if (n == "gram") { grammar(*s->m, o.u("g", 1)); s->plain = false; s->m->reset(); fresh(*s); }
        else if (n == "exitp") { add_exit(*s->m, o); s->plain = false; s->m->reset(); fresh(*s); }
        else if (n == "tr") { TsSpec t; { SimQuiet q; t.from(o); } trained(*s, t, o.i("l", -1)); s->plain = false; fresh(*s); }
        else if (n == "save") { { Json::Value v = s->m->toJson(); } same_learned(*s, i, o); }
        else if (n == "twin") { if (d == i) return; place(d, twin(*s, d, o.i("how")), *s); same_learned(*s, i, o); }
        else if (n == "duel") {
            if (d == i) return; s->m->reset(); s->ref.clear(); s->ordinary = true; s->win = (int)s->m->shared_parameters->likelihood_window.get(); same_learned(*s, i, o);
            Slot &t = place(d, twin(*s, d, o.i("how")), *s); bool ord; std::vector<Frame> v = stream(*s, o, ord); int k = 0;
            for (auto &f : v) {
                feed(*s, i, f, ord); feed(t, d, f, ord);
                if (print(*s) != print(t)) viol(C15, "past-shows", "model %d: %d frames after a reset its results are not those of a model without a past (twin %d)", i, k + 1, o.i("how"));
                k++;
            }
            same_learned(*s, i, o); same_learned(t, d, o);
        } else if (n == "forget") { // mixtures forget on their own
            if (d == i || !is_gmm(*s->m)) return; Slot &t = place(d, twin(*s, d, 0), *s); bool ord; Op p = o; { SimQuiet q; p.set("seed", o.i("seed") + 1).set("n", o.i("n1")); }
            std::vector<Frame> v = stream(*s, p, ord); for (auto &f : v) feed(*s, i, f, ord);
            { SimQuiet q; p.set("seed", o.i("seed") + 2).set("n", o.i("n2")); } v = stream(*s, p, ord); for (auto &f : v) feed(t, d, f, ord);
            { SimQuiet q; p = o; p.set("n", s->win + 1 + o.i("more")).set("drop", 0); } v = stream(*s, p, ord); for (auto &f : v) { feed(*s, i, f, ord); feed(t, d, f, ord); }
            SimQuiet q; auto &A = s->m->results, &B = t.m->results; size_t nc = A.smoothed_log_likelihoods.size(); bool tie = false; double mag = 1;
            if ((int)v.size() < s->win) return;
            if (nc != B.smoothed_log_likelihoods.size()) viol(C15, "past-shows", "model %d: twins have results for different classes", i);
            for (size_t j = 0; j < nc; j++) { mag = std::max(mag, std::fabs(A.smoothed_log_likelihoods[j])); for (size_t l = 0; l < j; l++) if (close(A.smoothed_log_likelihoods[j], A.smoothed_log_likelihoods[l], 1e-9, 1e-9)) tie = true; }
            for (size_t j = 0; j < nc; j++) {
                if (!close(A.smoothed_log_likelihoods[j], B.smoothed_log_likelihoods[j], 1e-9, 1e-9 * mag) || !close(A.instant_likelihoods[j], B.instant_likelihoods[j], 1e-12) || (mag < 500 && !close(A.smoothed_normalized_likelihoods[j], B.smoothed_normalized_likelihoods[j], 1e-5, 1e-7)))
                    viol(C15, "past-shows", "model %d: a full window of frames later the results still depend on earlier frames (class %zu: %.17g and %.17g)", i, j, A.smoothed_log_likelihoods[j], B.smoothed_log_likelihoods[j]);
            }
            if (!tie && A.likeliest != B.likeliest) viol(C15, "past-shows", "model %d: a full window of frames later the likeliest class still depends on earlier frames", i);
            if (!tie && s->bi && ord) for (size_t k = 0; k < A.output_values.size(); k++) if (!close(A.output_values[k], B.output_values[k], 1e-4, 1e-4 * data_amp)) viol(C15, "past-shows", "model %d: a full window of frames later the output still depends on earlier frames", i);
            sim_probe("forgotten");
        }
    }
    void run(Plan const &p) { for (auto &o : p.ops) step(o); while (!slots.empty()) drop(slots.begin()->first); }
};

// ------------------------------------------------------------ k-means: the nearest centre, whatever came before
void run_kmeans(Plan const &plan) {
    struct S { xmm::KMeans *m; TsSpec ts; std::vector<float> centers; }; std::map<int, S> slots; Op last;
    auto feed = [&](S &s, int i, Op const &o, xmm::KMeans *twin) {
        bool ord; std::vector<Frame> v; { SimQuiet q; v = deliver(o, s.ts.seed, s.ts.dim, s.ts.dim, ord); }
        for (auto &f : v) {
            s.m->filter(f); if (twin) twin->filter(f);
            SimQuiet q; auto &R = s.m->results; size_t n = s.m->configuration.clusters.get(); int D = s.ts.dim; bool ok = true; for (float x : f) ok = ok && std::isfinite(x) && std::fabs(x) < 1e15f;
            if (R.distances.size() != n || R.likeliest >= n) viol(C14 | C21, "sizes", "model %d: the results are not those of %zu clusters", i, n);
            if (ok) for (size_t k = 0; k < n; k++) {
                double d = 0; for (int x = 0; x < D; x++) d += ((double)f[x] - s.m->centers[k * D + x]) * ((double)f[x] - s.m->centers[k * D + x]); d = sqrt(d);
                if (!close(R.distances[k], d, 1e-3, 1e-5 * data_amp)) viol(C21, "distance", "model %d: the distance to cluster %zu is %.9g instead of %.9g", i, k, R.distances[k], d);
                if (R.distances[k] < R.distances[R.likeliest]) viol(C14 | C21, "likeliest", "model %d: cluster %u is reported, cluster %zu is nearer", i, R.likeliest, k);
            }
            if (twin) { Hash a, b; a.vec(R.distances); a.u(R.likeliest); b.vec(twin->results.distances); b.u(twin->results.likeliest); if (a.h != b.h) viol(C15, "past-shows", "model %d: its results are not those of a model without a past", i); }
            if (s.centers != s.m->centers) viol(C15, "learned-changed", "model %d: what it has learned has changed", i);
        }
    };
    for (auto &o : plan.ops) {
        int i = o.i("s"); sim_log("%s\n", o.text().c_str());
        if (o.name == "new") {
            auto it = slots.find(i); if (it != slots.end()) { delete it->second.m; slots.erase(it); }
            S x; { SimQuiet q; x.ts.from(o); } x.m = new xmm::KMeans(o.i("k", 2)); x.m->configuration.clusters.set(o.i("k", 2)); x.m->initialization_mode = o.i("rnd") ? xmm::KMeans::InitializationMode::Random : xmm::KMeans::InitializationMode::Biased;
            TsData d; { SimQuiet q; d.build(x.ts); } x.m->train(d.ts); x.m->reset(); { SimQuiet q; d.drop(); x.centers = x.m->centers; slots[i] = x; } continue;
        }
        auto it = slots.find(i); if (it == slots.end()) continue; S &s = it->second;
        if (o.name == "frames" || o.name == "forget") feed(s, i, o, 0);
        else if (o.name == "reset") { s.m->reset(); if (s.centers != s.m->centers) viol(C15, "learned-changed", "model %d: what it has learned has changed", i); }
        else if (o.name == "duel") { s.m->reset(); xmm::KMeans t(*s.m); feed(s, i, o, &t); }
        else if (o.name == "twin") { xmm::KMeans *t = new xmm::KMeans(*s.m); delete s.m; s.m = t; s.m->reset(); }
    }
    for (auto &p : slots) delete p.second.m;
}
}
void gen_stream(Plan &p, Rng &r) {
    int type = r.chance(8) ? 2 : r.chance(55) ? 1 : 0; p.opt.set("type", type).set("cap", 200000000);
    int amp = r.chance(20) ? r.in(1, 3) : 0; if (amp) { static const char *const a[] = { "0.01", "0.0001", "1000" }; p.opt.set("amp", a[amp - 1]); }
    int skew = r.chance(12) ? r.in(1, 3) : 0; if (skew) { static const char *const a[] = { "0.01", "0.00001", "1000" }; p.opt.set("skew", a[skew - 1]).set("skew1", r.n(2)); }
    bool bi = type < 2 && r.chance(45); int dim = bi ? r.in(2, 4) : r.in(1, 3), din = bi ? r.in(1, dim - 1) : 0, labels = r.in(1, 4); uint64_t seed = 1 + r.n(1000);
    auto data = [&](Op &o, uint64_t sd, int only) {
        TsSpec s; s.own = r.chance(85);
        for (int l = 0; l < labels; l++) { if (only >= 0 && l != only && r.chance(50)) continue; int k = r.in(1, 2); for (int j = 0; j < k; j++) { PhraseSpec q = { l, r.chance(6) ? 5 : 0, r.in(6, 16) }; s.ph.push_back(q); } }
        o.set("seed", sd).set("dim", dim).set("din", din).set("bi", bi).set("own", s.own).set("ph", TsSpec::list(s.ph));
    };
    auto make = [&](int i) {
        Op &o = p.add("new"); o.set("s", i); data(o, seed, -1); o.set("mt", 0).set("g", r.in(1, 3)).set("cov", r.n(2)).set("itmin", 1).set("itmax", r.in(1, 5)).set("win", r.chance(70) ? r.in(1, 5) : r.in(6, 30)).set("est", r.n(2));
        if (type == 2) o.set("k", r.in(1, 4)).set("rnd", r.n(2));
        if (type == 1) { o.set("st", r.in(1, 5)).set("tm", r.n(2)).set("hier", r.chance(65)); if (bi) o.set("re", r.n(3)); if (o.i("st") > 2) o.set("g", r.in(1, 2)); }
        if (r.chance(20)) o.set("ar", r.chance(50) ? "0.0001" : "0.5").set("rr", r.chance(50) ? "0.0001" : "0.1");
        if (amp) o.set("ar", amp == 1 ? (r.chance(50) ? "1e-05" : "1e-08") : r.chance(50) ? "1e-08" : "1e-12");
        if (skew && !amp) o.set("ar", r.chance(50) ? "1e-08" : "1e-12").set("rr", r.chance(50) ? "0.01" : "1e-06");
        if (r.chance(25)) { char b[32]; snprintf(b, sizeof b, "%d.%d.%d.%d", r.in(1, 2), r.in(1, 3), r.n(2), r.n(2)); o.set(("o" + std::to_string(r.n(labels))).c_str(), b); }
    };
    int calm = r.n(3); // how bad the transport is
    auto net = [&](Op &o, int n) -> Op & {
        o.set("seed", r.n(100000)).set("n", n).set("l", r.n(labels + 1)).set("x", r.n(30));
        if (calm) o.set("drop", r.n(25)).set("dup", r.n(20)).set("late", r.n(25));
        if (calm == 2 && r.chance(70)) o.set("nf", r.n(12)).set("huge", r.n(12));
        if (r.chance(15)) { static const int far[] = { 30, -100, 1000, 100000 }; o.set("far", far[r.n(4)]); }
        return o;
    };
    int ns = r.in(1, 2); for (int i = 0; i < ns; i++) make(i);
    int len = r.in(4, 14);
    for (int k = 0; k < len; k++) {
        int i = r.n(ns), d = r.n(4), n = r.chance(75) ? r.in(1, 25) : r.in(26, 90);
        if (type == 1 && r.chance(12)) p.add("gram").set("s", i).set("g", r.n(100000));
        switch (r.n(16)) {
        case 0: case 1: case 2: case 3: net(p.add("frames").set("s", i), n); break;
        case 4: p.add("reset").set("s", i); break;
        case 5: p.add("win").set("s", i).set("w", r.in(1, 20)); break;
        case 6: p.add(bi ? "est" : "save").set("s", i).set("e", r.n(2)); break;
        case 7: p.add("rm").set("s", i).set("l", r.n(labels)); break;
        case 8: p.add("exitp").set("s", i).set("l", r.n(labels)).set("x", r.n(6)).set("pr", r.chance(20) ? 100 : r.n(100)).set("all", r.n(2)); break;
        case 9: { Op &o = p.add("tr"); o.set("s", i); int l = r.n(labels); data(o, seed, l); if (r.chance(80)) o.set("l", l); break; }
        case 10: p.add("twin").set("s", i).set("d", d).set("how", r.n(6)); break;
        case 11: net(p.add("forget").set("s", i).set("d", d).set("n1", r.n(20)).set("n2", r.n(20)).set("more", r.n(10)), 0); break;
        default: net(p.add("duel").set("s", i).set("d", d).set("how", r.n(6)), n); break;
        }
    }
}
void run_stream(Plan const &p, int) {
    int n = atoi(p.prop.c_str() + 1); prop_bit = n == 14 ? C14 : n == 15 ? C15 : C21; int t = p.opt.i("type");
    if (t == 2) run_kmeans(p); else if (t == 1) { User<HHMM> u; u.run(p); } else { User<xmm::GMM> u; u.run(p); }
}
