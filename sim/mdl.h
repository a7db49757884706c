// Helpers around models and training sets, shared by the scenario families.
#ifndef MDL_H
#define MDL_H
#include "scen.h"
#include "json.h"
typedef xmm::HierarchicalHMM HHMM;

// ---- training sets: op with keys seed dim din bi own ph=label.kind.length,...
struct PhraseSpec { int label, kind, len; };
struct TsSpec {
    uint64_t seed = 1; int dim = 2, din = 1; bool bi = false, own = true; std::vector<PhraseSpec> ph;
    void from(Op const &o) {
        seed = o.u("seed", 1); dim = o.i("dim", 2); din = o.i("din", 1); bi = o.i("bi"); own = o.i("own", 1); ph.clear();
        std::string s = o.s("ph"); const char *p = s.c_str();
        while (*p) { PhraseSpec q; int n = 0; if (sscanf(p, "%d.%d.%d%n", &q.label, &q.kind, &q.len, &n) != 3) break; ph.push_back(q); p += n; if (*p == ',') p++; }
    }
    static std::string list(std::vector<PhraseSpec> const &v) { std::string s; for (auto &q : v) s += (s.empty() ? "" : ",") + std::to_string(q.label) + "." + std::to_string(q.kind) + "." + std::to_string(q.len); return s.empty() ? "-" : s; }
    std::string key(int only) const { // identifies the data of one label
        std::string s = std::to_string(seed) + "/" + std::to_string(dim) + "/" + std::to_string(din) + "/" + std::to_string(bi) + ":"; int i = 0;
        for (auto &q : ph) { if (only < 0 || q.label == only) s += std::to_string(i) + "." + std::to_string(q.label) + "." + std::to_string(q.kind) + "." + std::to_string(q.len) + ","; i++; }
        return s;
    }
    std::set<int> labels() const { std::set<int> s; for (auto &q : ph) s.insert(q.label); return s; }
};
struct TsData { // a training set of the library together with the memory it reads (shared-memory sets)
    xmm::TrainingSet *ts = 0; std::vector<float *> mem; TsSpec spec; bool lent = false, borrowed = false; // (lent: others use it or its memory)
    void build(TsSpec const &s) {
        spec = s;
        ts = new xmm::TrainingSet(s.own ? xmm::MemoryMode::OwnMemory : xmm::MemoryMode::SharedMemory, s.bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
        ts->dimension.set(s.dim); if (s.bi) ts->dimension_input.set(s.din);
        for (size_t i = 0; i < s.ph.size(); i++) {
            ts->addPhrase((int)i, std::string(label_name(s.ph[i].label)));
            std::vector<std::vector<float>> d = phrase_data(s.seed, s.ph[i].label, (int)i, s.dim, s.ph[i].len, s.ph[i].kind);
            std::shared_ptr<xmm::Phrase> p = ts->getPhrase((int)i);
            if (s.own) {
                for (auto &f : d) {
                    if (!s.bi) p->record(f);
                    else { p->record_input(std::vector<float>(f.begin(), f.begin() + s.din)); p->record_output(std::vector<float>(f.begin() + s.din, f.end())); }
                }
            } else if (!d.empty()) {
                int a = s.bi ? s.din : s.dim, b = s.dim - a; float *x = new float[d.size() * a], *y = b ? new float[d.size() * b] : 0;
                for (size_t t = 0; t < d.size(); t++) { for (int k = 0; k < a; k++) x[t * a + k] = d[t][k]; for (int k = 0; k < b; k++) y[t * b + k] = d[t][a + k]; }
                mem.push_back(x); if (y) mem.push_back(y);
                if (s.bi) p->connect(x, y, (unsigned)d.size()); else p->connect(x, (unsigned)d.size());
            }
        }
    }
    void drop() { if (!borrowed) delete ts; ts = 0; for (float *f : mem) delete[] f; mem.clear(); }
};

// ---- configuration: op with keys g st cov tm re hier rr ar itmax itmin pc win est mt o<label>=g.st.cov.tm
inline void set_class(xmm::ClassParameters<xmm::GMM> &p, int g, int, int cov, int) {
    p.gaussians.set(g); p.covariance_mode.set(cov ? xmm::GaussianDistribution::CovarianceMode::Diagonal : xmm::GaussianDistribution::CovarianceMode::Full);
}
inline void set_class(xmm::ClassParameters<xmm::HMM> &p, int g, int st, int cov, int tm) {
    p.gaussians.set(g); p.states.set(st); p.covariance_mode.set(cov ? xmm::GaussianDistribution::CovarianceMode::Diagonal : xmm::GaussianDistribution::CovarianceMode::Full);
    p.transition_mode.set(tm ? xmm::HMM::TransitionMode::LeftRight : xmm::HMM::TransitionMode::Ergodic);
}
inline void set_default(xmm::ClassParameters<xmm::GMM> &p, Op const &o) {
    if (o.has("rr")) p.relative_regularization.set(o.d("rr")); if (o.has("ar")) p.absolute_regularization.set(o.d("ar"));
    set_class(p, o.i("g", 1), 0, o.i("cov"), 0);
}
inline void set_default(xmm::ClassParameters<xmm::HMM> &p, Op const &o) {
    if (o.has("rr")) p.relative_regularization.set(o.d("rr")); if (o.has("ar")) p.absolute_regularization.set(o.d("ar"));
    set_class(p, o.i("g", 1), o.i("st", 2), o.i("cov"), o.i("tm"));
    p.hierarchical.set(o.i("hier", 1) != 0);
    p.regression_estimator.set((xmm::HMM::RegressionEstimator)o.i("re", 0));
}
template <class P> void set_own(P &p, Op const &o, int l) { // what the settings of a label add to the default ones
    std::string k = "o" + std::to_string(l);
    if (o.has(k.c_str())) { int g = 1, st = 2, c = 0, tm = 0; sscanf(o.s(k.c_str()).c_str(), "%d.%d.%d.%d", &g, &st, &c, &tm); set_class(p, g, st, c, tm); }
}
template <class P> void set_label(P &p, Op const &o, int l) { set_default(p, o); set_own(p, o, l); } // what a class of this label is trained with
inline void set_shared(xmm::SharedParameters &s, Op const &o) {
    s.em_algorithm_min_iterations.set(o.i("itmin", 2)); s.em_algorithm_max_iterations.set(o.i("itmax", 3)); s.em_algorithm_percent_chg.set(o.d("pc", 0.01)); s.likelihood_window.set(o.i("win", 2));
}
template <class M> void apply_cfg(M &m, Op const &o) {
    m.configuration.reset(); set_default(m.configuration, o); set_shared(*m.shared_parameters, o);
    m.configuration.multithreading = (xmm::MultithreadingMode)o.i("mt", 1);
    m.configuration.multiClass_regression_estimator = o.i("est") ? xmm::MultiClassRegressionEstimator::Mixture : xmm::MultiClassRegressionEstimator::Likeliest;
    for (auto &p : o.a) if (p.first[0] == 'o' && isdigit(p.first[1])) { int l = atoi(p.first.c_str() + 1); set_own(m.configuration[label_name(l)], o, l); }
}
inline std::string cfg_key(Op const &o, int label) { // what decides the training of one class
    std::string k; static const char *const n[] = { "g", "st", "cov", "tm", "rr", "ar", "itmax", "itmin", "pc", "hier", "re" };
    for (auto s : n) k += o.s(s, "-") + ",";
    return k + o.s(("o" + std::to_string(label)).c_str(), "-");
}

// ---- fingerprints
inline std::string json_text(Json::Value const &v) { return Json::FastWriter().write(v); }
template <class V> inline void hash_gauss(Hash &h, V const &g) { h.u(g.dimension.get()); h.u(g.dimension_input.get()); h.u((uint64_t)g.covariance_mode.get()); h.vec(g.mean); h.vec(g.covariance); h.vec(g.output_covariance); }
template <class C> inline void hash_cls(Hash &h, C const &c, xmm::SingleClassGMM const *) { h.u(c.components.size()); for (auto &g : c.components) hash_gauss(h, g); h.vec(c.mixture_coeffs); }
inline void hash_class(Hash &h, xmm::SingleClassGMM const &c) { hash_cls(h, c, (xmm::SingleClassGMM const *)0); h.u(c.parameters.gaussians.get()); h.u((uint64_t)c.parameters.covariance_mode.get()); h.d(c.parameters.relative_regularization.get()); h.d(c.parameters.absolute_regularization.get()); h.s(c.label); }
inline void hash_class(Hash &h, xmm::SingleClassHMM const &c) {
    h.u(c.states.size()); for (auto &s : c.states) hash_cls(h, s, (xmm::SingleClassGMM const *)0);
    h.vec(c.prior); h.vec(c.transition); h.u(c.parameters.states.get()); h.u(c.parameters.gaussians.get()); h.u((uint64_t)c.parameters.covariance_mode.get()); h.u((uint64_t)c.parameters.transition_mode.get());
    h.u((uint64_t)c.parameters.regression_estimator.get()); h.u(c.parameters.hierarchical.get()); h.d(c.parameters.relative_regularization.get()); h.d(c.parameters.absolute_regularization.get()); h.s(c.label);
    h.s(json_text(c.toJson()["exitProbabilities"]));
}
template <class C> uint64_t class_print(C const &c) { Hash h; hash_class(h, c); return h.h; }
inline void hash_structure(Hash &, xmm::GMM const &) {}
inline void hash_structure(Hash &h, HHMM const &m) { h.vec(m.prior); h.u(m.transition.size()); for (auto &r : m.transition) h.vec(r); h.vec(m.exit_transition); }
// a grammar set by the user: probabilities of starting with, following and ending after each class
inline void grammar(xmm::GMM &, uint64_t) {}
inline void grammar(HHMM &m, uint64_t seed) {
    Rng r(seed); size_t n = m.models.size(); int zero = r.n(3) * 20; if (!n) return;
    auto row = [&]() { std::vector<double> v(n); double s = 0; for (auto &x : v) { x = r.chance(zero) ? 0 : 0.02 + r.f(); s += x; } if (s == 0) { v[r.n((int)n)] = 1; s = 1; } for (auto &x : v) x /= s; return v; };
    std::vector<double> p = row(); m.prior.assign(p.begin(), p.end()); m.transition.resize(n); for (size_t i = 0; i < n; i++) { std::vector<double> t = row(); m.transition[i].assign(t.begin(), t.end()); }
    m.exit_transition.resize(n); for (auto &x : m.exit_transition) x = r.chance(20) ? 0 : r.chance(10) ? 1 : r.f();
}
template <class M> uint64_t structure_print(M const &m) { Hash h; hash_structure(h, m); return h.h; }
template <class M> uint64_t settings_print(M const &m) { Hash h; h.s(json_text(m.configuration.toJson())); h.s(json_text(m.shared_parameters->toJson())); return h.h; }
template <class M> uint64_t model_print(M const &m) { // everything it has learned and was told
    Hash h; h.u(settings_print(m)); h.u(structure_print(m)); h.u(m.models.size()); for (auto &c : m.models) { h.s(c.first); hash_class(h, c.second); } return h.h;
}
inline void hash_extra(Hash &, xmm::GMM const &) {}
inline void hash_extra(Hash &h, HHMM const &m) { for (auto &c : m.models) { h.d(c.second.results.progress); h.d(c.second.results.exit_likelihood); h.d(c.second.results.exit_ratio); h.u(c.second.results.likeliest_state); } }
template <class M> void hash_results(Hash &h, M const &m, bool bi) {
    h.vec(m.results.instant_likelihoods); h.vec(m.results.instant_normalized_likelihoods); h.vec(m.results.smoothed_likelihoods); h.vec(m.results.smoothed_normalized_likelihoods); h.vec(m.results.smoothed_log_likelihoods);
    h.s(m.results.likeliest);
    for (auto &c : m.models) { h.d(c.second.results.instant_likelihood); h.d(c.second.results.log_likelihood); if (bi) { h.vec(c.second.results.output_values); h.vec(c.second.results.output_covariance); } }
    if (bi) { h.vec(m.results.output_values); h.vec(m.results.output_covariance); }
}
inline std::vector<float> frame_of(uint64_t seed, int t, int dim) { Rng r(seed * 977 + t); std::vector<float> f(dim); for (auto &x : f) x = 2.5f * r.g() * data_amp; return f; }
// results of a whole stream; the caller decides whether a reset precedes it
template <class M> uint64_t stream_print(M &m, uint64_t seed, int n, bool extra = true) {
    Hash h; bool bi = m.shared_parameters->bimodal.get(); int d = bi ? m.shared_parameters->dimension_input.get() : m.shared_parameters->dimension.get();
    for (int t = 0; t < n; t++) { std::vector<float> f = frame_of(seed, t, d); m.filter(f); hash_results(h, m, bi); if (extra) hash_extra(h, m); }
    return h.h;
}
#endif
