// Family "store": objects are saved on the simulated disk, processes crash and restart, files get damaged (C11, C12, C13).
#include "mdl.h"
#include <algorithm>
#include <cfloat>
extern void *sim_shared;
namespace {
typedef Json::Value JV; typedef xmm::Configuration<xmm::GMM> ConfG; struct ConfH : xmm::Configuration<xmm::HMM>, xmm::Writable { // (HMM configurations are not files of their own in the library)
    ConfH() {} explicit ConfH(Json::Value const &v) : xmm::Configuration<xmm::HMM>(v) {} Json::Value toJson() const { return xmm::Configuration<xmm::HMM>::toJson(); } void fromJson(Json::Value const &v) { xmm::Configuration<xmm::HMM>::fromJson(v); }
};
typedef xmm::GaussianDistribution Gauss;
enum { T_GMM, T_HMM, T_GAUSS, T_PHRASE, T_TSET, T_SHARED, T_CONFG, T_CONFH, NTYPES, NFILES = 10 };
const char *const type_name[] = { "GMM", "hierarchical HMM", "Gaussian distribution", "phrase", "training set", "set of shared parameters", "GMM configuration", "HMM configuration" };
// what an observer outside the simulated processes knows about the files
struct FileRec { int attempted, acked, type, damaged, wild; uint64_t value, print, stream, seed; int n; };
struct World { FileRec f[NFILES], prev[NFILES]; }; // prev: before a save that did not return normally
World *W() { return (World *)sim_shared; }
std::string path_of(int f) { return "/simdisk/f" + std::to_string(f) + ".json"; }
std::string content(int f) { SimQuiet q; std::string p = path_of(f), s; size_t n = disk_size(p.c_str()); s.resize(n); if (n) s.resize(disk_read(p.c_str(), &s[0], n)); return s; }

void hash_json(Hash &h, JV const &v) { // numbers by value, so that -0 and 0, 1 and 1.0 are the same
    switch (v.type()) {
    case Json::nullValue: h.u(1); break;
    case Json::intValue: case Json::uintValue: case Json::realValue: h.u(2); h.d(v.asDouble()); break;
    case Json::stringValue: h.u(3); h.s(v.asString()); break;
    case Json::booleanValue: h.u(4); h.u(v.asBool()); break;
    case Json::arrayValue: h.u(5); h.u(v.size()); for (Json::ArrayIndex i = 0; i < v.size(); i++) hash_json(h, v[i]); break;
    default: { h.u(6); std::vector<std::string> m = v.getMemberNames(); std::sort(m.begin(), m.end()); h.u(m.size()); for (auto &k : m) { h.s(k); hash_json(h, v[k]); } }
    }
}
uint64_t json_print(JV const &v) { Hash h; hash_json(h, v); return h.h; }
bool finite_json(JV const &v) {
    if (v.type() == Json::realValue) return std::isfinite(v.asDouble());
    if (v.isArray()) { for (Json::ArrayIndex i = 0; i < v.size(); i++) if (!finite_json(v[i])) return false; }
    else if (v.isObject()) { for (auto &k : v.getMemberNames()) if (!finite_json(v[k])) return false; }
    return true;
}
bool complete(std::string const &s) { // the outermost object of the document is closed
    int depth = 0; bool str = false, any = false;
    for (size_t i = 0; i < s.size(); i++) {
        char c = s[i]; if (str) { if (c == '\\') i++; else if (c == '"') str = false; continue; }
        if (c == '"') str = true; else if (c == '{' || c == '[') { depth++; any = true; } else if (c == '}' || c == ']') { if (--depth == 0) return true; }
    }
    return any && depth <= 0;
}
bool parse(std::string const &s, JV &v) { try { Json::Reader r; return r.parse(s, v); } catch (std::exception &) { return false; } } // (very deep nesting)

// ---- objects of every persistent type behind one interface
struct Obj {
    int type; bool wild = false; Op cfg; virtual ~Obj() {}
    virtual xmm::Writable &w() = 0;
    JV json() { return w().toJson(); }
    virtual uint64_t print() = 0;                               // what it holds, read through its interface
    virtual uint64_t stream(uint64_t, int) { return 0; }         // what it does with further input
    virtual void use(Rng &) {}                                  // further use of an object from a damaged file: anything may throw
    virtual void again(Op const &, Rng &, bool) {}               // ... to be trained again
    virtual void train(Op const &, int) {}
    virtual void settle() {}
    virtual bool step(Op const &) { return false; }
};
template <class F> void may_throw(F f) { try { f(); } catch (std::exception &e) { sim_probe("use-refused"); } }
inline bool sane(xmm::ClassParameters<xmm::GMM> &p) { return p.gaussians.get() <= 6; }
inline bool sane(xmm::ClassParameters<xmm::HMM> &p) { return p.gaussians.get() <= 6 && p.states.get() <= 8; }
template <class M> struct ModelObj : Obj {
    M *m; TsData data; std::vector<TsData> old; int dims() { return m->shared_parameters->bimodal.get() ? m->shared_parameters->dimension_input.get() : m->shared_parameters->dimension.get(); }
    ModelObj(M *x, int t) : m(x) { type = t; }
    ~ModelObj() { delete m; if (data.ts) data.drop(); for (auto &d : old) d.drop(); }
    xmm::Writable &w() { return *m; }
    void settle() { int n = 0; while (m->training()) { sim_yield(); if (++n > 20000000) sim_fail("hang", "a training never ends"); } }
    uint64_t print() { Hash h; h.u(model_print(*m)); h.u((uint64_t)m->configuration.multithreading); h.u((uint64_t)m->configuration.multiClass_regression_estimator); auto c = m->configuration; for (int l = 0; l < 8; l++) h.u(json_print(c[label_name(l)].toJson())); return h.h; }
    uint64_t stream(uint64_t seed, int n) { if (!m->size()) return 0; m->reset(); uint64_t s = stream_print(*m, seed, n); m->reset(); return s; }
    void use(Rng &r) {
        may_throw([&]() { m->reset(); });
        int d = std::min(dims(), 70000); uint64_t seed = r.next();
        for (int t = 0; t < 4; t++) may_throw([&]() { std::vector<float> f = frame_of(seed, t, d); m->filter(f); Hash h; hash_results(h, *m, m->shared_parameters->bimodal.get()); });
        may_throw([&]() { m->reset(); std::vector<float> f = frame_of(seed, 9, d); m->filter(f); });
        may_throw([&]() { M c(*m); c.reset(); std::vector<float> f = frame_of(seed, 9, d); c.filter(f); JV v = c.toJson(); });
    }
    void again(Op const &o, Rng &r, bool threads) {
        int dim = m->shared_parameters->dimension.get(); if (wild && (dim > 6 || m->size() > 12)) return;
        { SimQuiet q; bool ok = sane(m->configuration); auto c = m->configuration; for (int l = 0; l < 8; l++) ok = ok && sane(c[label_name(l)]); if (!ok) return; }
        may_throw([&]() { m->shared_parameters->em_algorithm_min_iterations.set(1); m->shared_parameters->em_algorithm_max_iterations.set(1 + r.n(3)); });
        if (!threads) m->configuration.multithreading = xmm::MultithreadingMode::Sequential;
        TsSpec s; { SimQuiet q; s.from(o); s.bi = m->shared_parameters->bimodal.get(); s.dim = dim; s.din = s.bi ? m->shared_parameters->dimension_input.get() : 0; }
        hold(s); int l = o.i("l", -1); if (l >= 0 && !s.labels().count(l)) l = -1;
        auto go = [&]() { if (l >= 0) m->train(data.ts, label_name(l)); else m->train(data.ts); };
        if (wild) may_throw(go); else go();
        settle();
        if (!wild && l < 0 && m->size() != s.labels().size()) sim_fail("target-damaged", "a %s that refused a damaged file cannot be trained any more", type_name[type]);
        use(r);
    }
    void hold(TsSpec const &s) { SimQuiet q; if (data.ts) { old.push_back(data); data = TsData(); } data.build(s); }
    void train(Op const &o, int l) {
        settle(); TsSpec s; { SimQuiet q; s.from(o); s.bi = m->shared_parameters->bimodal.get(); if (l >= 0 && m->size()) { s.dim = m->shared_parameters->dimension.get(); s.din = m->shared_parameters->dimension_input.get(); } s.dim = std::max(s.dim, s.bi ? 2 : 1); if (s.bi) s.din = std::min(std::max(1, s.din), s.dim - 1); }
        hold(s); if (l >= 0) { if (!s.labels().count(l)) return; m->train(data.ts, label_name(l)); } else m->train(data.ts);
        if (!o.i("nowait")) settle();
    }
    void exits(xmm::SingleClassGMM &, Op const &) {}
    void exits(xmm::SingleClassHMM &c, Op const &o) { int n = (int)c.parameters.states.get(); c.addExitPoint(o.i("x") % n, (float)o.i("p", 30) / 100); }
    bool step(Op const &o) {
        settle();
        if (o.name == "rm") { if (m->models.count(label_name(o.i("l")))) m->removeClass(label_name(o.i("l"))); return true; }
        if (o.name == "reset") { m->reset(); return true; }
        if (o.name == "cfg") { apply_cfg(*m, o); return true; }
        if (o.name == "gram") { grammar(*m, o.u("seed", 1)); return true; }
        if (o.name == "filter") { if (!m->size()) return true; std::vector<float> f; for (int t = 0; t < o.i("n", 3); t++) { f = frame_of(o.u("seed", 1), t, dims()); m->filter(f); } return true; }
        if (o.name == "exitp") { auto it = m->models.find(label_name(o.i("l"))); if (it != m->models.end()) may_throw([&]() { exits(it->second, o); }); return true; }
        return false;
    }
};
struct GaussObj : Obj {
    Gauss *g; GaussObj(Gauss *x) : g(x) { type = T_GAUSS; } ~GaussObj() { delete g; }
    xmm::Writable &w() { return *g; } uint64_t print() { Hash h; hash_gauss(h, *g); return h.h; }
    bool bi() { return json()["bimodal"].asBool(); }
    uint64_t stream(uint64_t seed, int n) {
        Hash h; int d = g->dimension.get(), i = g->dimension_input.get(); bool b = bi();
        for (int t = 0; t < n; t++) {
            std::vector<float> f = frame_of(seed, t, d); h.d(g->likelihood(f.data()));
            if (b) { h.d(g->likelihood_input(f.data())); h.d(g->likelihood_bimodal(f.data(), f.data() + i)); std::vector<float> in(f.begin(), f.begin() + i), out(d - i); g->regression(in, out); h.vec(out); }
        }
        return h.h;
    }
    void fill(Op const &o) { // some covariance that can be inverted
        Rng r(o.u("seed", 1)); int d = g->dimension.get(); bool full = g->covariance_mode.get() == Gauss::CovarianceMode::Full;
        for (int i = 0; i < d; i++) g->mean[i] = r.g();
        for (int i = 0; i < d; i++) { if (!full) g->covariance[i] = 0.5 + r.f(); else for (int k = 0; k < d; k++) g->covariance[i * d + k] = i == k ? 1 + r.f() : 0.1 / (1 + i + k); }
        g->updateInverseCovariance();
    }
    bool step(Op const &o) {
        if (o.name == "fill") { fill(o); return true; }
        if (o.name == "cov") { g->covariance_mode.set(o.i("c") ? Gauss::CovarianceMode::Diagonal : Gauss::CovarianceMode::Full); fill(o); return true; }
        if (o.name == "reg") { g->regularize(std::vector<double>(g->dimension.get(), 0.25)); g->updateInverseCovariance(); return true; }
        return false;
    }
    void use(Rng &r) {
        uint64_t seed = r.next(); may_throw([&]() { stream(seed, 2); });
        may_throw([&]() { if (g->dimension.get() > 1) { xmm::Ellipse e = g->toEllipse(0, 1); g->fromEllipse(e, 0, 1); } });
        may_throw([&]() { Gauss c(*g); c.updateInverseCovariance(); std::vector<float> f = frame_of(seed, 3, c.dimension.get()); c.likelihood(f.data()); });
    }
    void again(Op const &o, Rng &r, bool) { if (g->dimension.get() > 12) return; if (wild) may_throw([&]() { fill(o); }); else fill(o); use(r); }
};
void hash_phrase(Hash &h, xmm::Phrase const &p) {
    h.u(p.bimodal()); h.u(p.dimension.get()); h.u(p.dimension_input.get()); h.s(p.label.get()); h.u(p.column_names.size()); for (auto &c : p.column_names) h.s(c);
    h.u(p.size()); for (unsigned t = 0; t < p.size(); t++) for (unsigned d = 0; d < p.dimension.get(); d++) h.d(p.getValue(t, d));
    if (p.size()) { h.vec(p.mean()); h.vec(p.standardDeviation()); }
}
void record(xmm::Phrase &p, uint64_t seed, int n, bool skew) {
    int d = p.dimension.get(), i = p.dimension_input.get();
    for (int t = 0; t < n; t++) {
        std::vector<float> f = frame_of(seed, t, d);
        if (!p.bimodal()) p.record(f); else { p.record_input(std::vector<float>(f.begin(), f.begin() + i)); if (!(skew && t + 1 == n)) p.record_output(std::vector<float>(f.begin() + i, f.end())); }
    }
}
void use_phrase(xmm::Phrase &p, Rng &r) {
    may_throw([&]() { Hash h; hash_phrase(h, p); });
    if (p.dimension.get() > 64) return;
    uint64_t seed = r.next(); may_throw([&]() { record(p, seed, 3, r.chance(30)); }); may_throw([&]() { p.getValue(p.size() ? p.size() - 1 : 0, p.dimension.get() - 1); });
    may_throw([&]() { xmm::Phrase c(p); c.clear(); record(c, seed, 2, false); }); may_throw([&]() { auto mm = p.minmax(); std::vector<float> o(p.dimension.get(), 1), g(p.dimension.get(), 2); p.rescale(o, g); });
    may_throw([&]() { if (p.size()) { if (p.bimodal()) { p.getPointer_input(p.size() - 1); p.getPointer_output(p.size() - 1); } else p.getPointer(p.size() - 1); } });
}
struct PhraseObj : Obj {
    xmm::Phrase *p; PhraseObj(xmm::Phrase *x) : p(x) { type = T_PHRASE; } ~PhraseObj() { delete p; }
    xmm::Writable &w() { return *p; } uint64_t print() { Hash h; hash_phrase(h, *p); return h.h; }
    bool step(Op const &o) {
        if (o.name == "rec") { record(*p, o.u("seed", 1), o.i("n", 3), o.i("skew")); return true; }
        if (o.name == "label") { p->label.set(label_name(o.i("l"))); return true; }
        if (o.name == "wipe") { p->clear(); return true; }
        if (o.name == "cols") { for (size_t i = 0; i < p->column_names.size(); i++) p->column_names[i] = "c" + std::to_string(i * o.i("x", 1)); return true; }
        return false;
    }
    void use(Rng &r) { use_phrase(*p, r); }
    void again(Op const &o, Rng &, bool) { if (p->dimension.get() > 64) return; auto f = [&]() { p->clear(); record(*p, o.u("seed", 1), 3, false); if (!wild && p->size() != 3) sim_fail("target-damaged", "a phrase that refused a damaged file does not record any more"); }; if (wild) may_throw(f); else f(); }
};
struct TsetObj : Obj {
    TsData d; TsetObj() { type = T_TSET; } ~TsetObj() { d.drop(); }
    xmm::Writable &w() { return *d.ts; }
    uint64_t print() {
        Hash h; auto &t = *d.ts; h.u(t.bimodal()); h.u(t.ownMemory()); h.u(t.dimension.get()); h.u(t.dimension_input.get()); for (auto &c : t.column_names.get()) h.s(c);
        h.u(t.size()); for (auto it = t.begin(); it != t.end(); ++it) { h.u((uint64_t)it->first); hash_phrase(h, *it->second); }
        for (auto &l : t.labels()) { h.s(l); xmm::TrainingSet *u = t.getPhrasesOfClass(l); h.u(u ? u->size() : 99999); } return h.h;
    }
    bool step(Op const &o) {
        auto &t = *d.ts; int x = o.i("x");
        if (o.name == "rec") { auto p = t.getPhrase(x); if (p) record(*p, o.u("seed", 1), o.i("n", 3), o.i("skew")); return true; }
        if (o.name == "label") { auto p = t.getPhrase(x); if (p) p->label.set(label_name(o.i("l"))); return true; }
        if (o.name == "add") { t.addPhrase(x, label_name(o.i("l"))); record(*t.getPhrase(x), o.u("seed", 1), o.i("n", 2), false); return true; }
        if (o.name == "rm") { t.removePhrase(x); return true; }
        if (o.name == "wipe") { t.removePhrasesOfClass(label_name(o.i("l"))); return true; }
        if (o.name == "cols") { std::vector<std::string> c; for (unsigned i = 0; i < t.dimension.get(); i++) c.push_back("c" + std::to_string(i * x)); t.column_names.set(c); return true; }
        return false;
    }
    void use(Rng &r) {
        auto &t = *d.ts; may_throw([&]() { print(); }); may_throw([&]() { t.mean(); t.standardDeviation(); t.minmax(); });
        for (auto it = t.begin(); it != t.end(); ++it) { if (!it->second) sim_fail("null-phrase", "a training set from a damaged file holds a phrase number without a phrase"); use_phrase(*it->second, r); if (r.chance(50)) break; }
        may_throw([&]() { t.addPhrase(3, label_name(r.n(5))); if (t.dimension.get() <= 64) record(*t.getPhrase(3), 5, 3, false); }); may_throw([&]() { t.getPhrase(3)->label.set(label_name(r.n(5))); });
        may_throw([&]() { xmm::TrainingSet c(t); c.removePhrase(3); c.clear(); });
    }
    void again(Op const &o, Rng &r, bool) { // its phrases can train a model
        auto &t = *d.ts; int n = 0; for (auto it = t.begin(); it != t.end(); ++it) n += it->second->size(); if (t.dimension.get() > 6 || t.size() > 20 || n > 300) return;
        auto f = [&]() { if (r.chance(50)) { xmm::GMM m(t.bimodal()); set_shared(*m.shared_parameters, o); m.configuration.gaussians.set(1); m.train(&t); use_model(m); } else { HHMM m(t.bimodal()); set_shared(*m.shared_parameters, o); m.configuration.states.set(2); m.train(&t); use_model(m); } };
        may_throw(f);
        if (!wild) step(o);
    }
    template <class M> void use_model(M &m) { while (m.training()) sim_yield(); if (m.size()) { m.reset(); int k = m.shared_parameters->bimodal.get() ? m.shared_parameters->dimension_input.get() : m.shared_parameters->dimension.get(); std::vector<float> f = frame_of(3, 1, k); m.filter(f); } }
};
struct SharedObj : Obj {
    xmm::SharedParameters *s; SharedObj(xmm::SharedParameters *x) : s(x) { type = T_SHARED; } ~SharedObj() { delete s; }
    xmm::Writable &w() { return *s; }
    uint64_t print() { Hash h; h.u(s->bimodal.get()); h.u(s->dimension.get()); h.u(s->dimension_input.get()); h.u(s->em_algorithm_min_iterations.get()); h.u(s->em_algorithm_max_iterations.get()); h.d(s->em_algorithm_percent_chg.get()); h.u(s->likelihood_window.get()); h.u(s->column_names.size()); for (auto &c : s->column_names.get()) h.s(c); return h.h; }
    bool step(Op const &o) { if (o.name == "cfg") { set_shared(*s, o); return true; } if (o.name == "cols") { std::vector<std::string> c(s->dimension.get(), "col " + std::to_string(o.i("x"))); s->column_names.set(c); return true; } return false; }
    void use(Rng &) { may_throw([&]() { print(); }); may_throw([&]() { xmm::SharedParameters c(*s); c.dimension.set(3); s->likelihood_window.set(4); }); }
};
template <class C> struct ConfObj : Obj {
    C *c; ConfObj(C *x, int t) : c(x) { type = t; } ~ConfObj() { delete c; }
    xmm::Writable &w() { return *c; }
    uint64_t print() { Hash h; h.u((uint64_t)c->multithreading); h.u((uint64_t)c->multiClass_regression_estimator); h.u(json_print(c->toJson()["default_parameters"])); C x(*c); for (int l = 0; l < 8; l++) h.u(json_print(x[label_name(l)].toJson())); return h.h; }
    bool step(Op const &o) {
        if (o.name != "cfg") return false;
        c->reset(); set_default(*c, o); c->multithreading = (xmm::MultithreadingMode)o.i("mt"); c->multiClass_regression_estimator = (xmm::MultiClassRegressionEstimator)o.i("est");
        for (auto &p : o.a) if (p.first[0] == 'o' && isdigit(p.first[1])) { int l = atoi(p.first.c_str() + 1); set_label((*c)[label_name(l)], o, l); }
        return true;
    }
    void use(Rng &) { may_throw([&]() { print(); }); may_throw([&]() { C x(*c); x["a"].gaussians.set(3); }); }
};
Obj *fresh(int t, Op const &o) {
    bool bi = o.i("bi"); int dim = std::max(bi ? 2 : 1, o.i("dim", 2)), din = bi ? std::min(std::max(1, o.i("din", 1)), dim - 1) : 0; Obj *b = 0; (void)din;
    switch (t) {
    case T_GMM: { auto m = new xmm::GMM(bi); apply_cfg(*m, o); b = new ModelObj<xmm::GMM>(m, t); break; }
    case T_HMM: { auto m = new HHMM(bi); apply_cfg(*m, o); b = new ModelObj<HHMM>(m, t); break; }
    case T_GAUSS: { auto g = new GaussObj(new Gauss(bi, dim, din, o.i("cov") ? Gauss::CovarianceMode::Diagonal : Gauss::CovarianceMode::Full)); g->fill(o); b = g; break; }
    case T_PHRASE: { auto p = new xmm::Phrase(xmm::MemoryMode::OwnMemory, bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal); p->dimension.set(dim); if (bi) p->dimension_input.set(din); p->label.set(label_name(o.i("l"))); b = new PhraseObj(p); break; }
    case T_TSET: { TsSpec s; { SimQuiet q; s.from(o); s.own = true; s.dim = dim; s.din = din; s.bi = bi; } auto x = new TsetObj(); x->d.build(s); b = x; break; }
    case T_SHARED: { auto s = new xmm::SharedParameters(); s->bimodal.set(bi); s->dimension.set(dim); if (bi) s->dimension_input.set(din); set_shared(*s, o); b = new SharedObj(s); break; }
    case T_CONFG: { b = new ConfObj<ConfG>(new ConfG(), t); Op c; { SimQuiet q; c = o; c.name = "cfg"; } b->step(c); break; }
    default: { b = new ConfObj<ConfH>(new ConfH(), t); Op c; { SimQuiet q; c = o; c.name = "cfg"; } b->step(c); }
    }
    { SimQuiet q; b->cfg = o; } return b;
}
Obj *construct(int t, JV const &v) { // through the constructors that take a document
    switch (t) {
    case T_GMM: return new ModelObj<xmm::GMM>(new xmm::GMM(v), t);
    case T_HMM: return new ModelObj<HHMM>(new HHMM(v), t);
    case T_GAUSS: return new GaussObj(new Gauss(v));
    case T_PHRASE: return new PhraseObj(new xmm::Phrase(v));
    case T_TSET: { xmm::TrainingSet *s = new xmm::TrainingSet(v); auto x = new TsetObj(); x->d.ts = s; return x; }
    case T_SHARED: return new SharedObj(new xmm::SharedParameters(v));
    case T_CONFG: return new ConfObj<ConfG>(new ConfG(v), t);
    default: return new ConfObj<ConfH>(new ConfH(v), t);
    }
}

// ---- damage
void walk(JV &v, std::vector<std::pair<JV *, JV *>> &out, JV *parent) {
    out.push_back(std::make_pair(&v, parent));
    if (v.isArray()) for (Json::ArrayIndex i = 0; i < v.size(); i++) walk(v[i], out, &v); else if (v.isObject()) for (auto &k : v.getMemberNames()) walk(v[k], out, &v);
}
void clamp_window(JV &v) { if (v.isArray()) { for (Json::ArrayIndex i = 0; i < v.size(); i++) clamp_window(v[i]); } else if (v.isObject()) for (auto &k : v.getMemberNames()) { if (k == "likelihood_window" && v[k].isNumeric() && v[k].asDouble() > 5000 && v[k].asDouble() < 1e9) v[k] = 77; clamp_window(v[k]); } }
JV odd_value(Rng &r) {
    switch (r.n(22)) {
    case 0: return JV(); case 1: return JV(true); case 2: return JV(0); case 3: return JV(1); case 4: return JV(-1); case 5: return JV(2); case 6: return JV(3); case 7: return JV(1e300); case 8: return JV(-1e300); case 9: return JV(4294967296.0); case 10: return JV(2147483647);
    case 11: return JV(-2147483647); case 12: return JV("x"); case 13: return JV(""); case 14: return JV(Json::arrayValue); case 15: return JV(Json::objectValue); case 16: { JV a(Json::arrayValue); a.append(JV(Json::arrayValue)); return a; } case 17: return JV(1.5); case 18: return JV(1e-310); case 19: return JV(65536); case 20: return JV(4294967295u); default: return JV(false);
    }
}
bool edit(std::string &s, Rng &r) {
    JV v; if (!parse(s, v)) return false;
    int n = r.in(1, 3);
    for (int k = 0; k < n; k++) {
        std::vector<std::pair<JV *, JV *>> all; walk(v, all, 0); if (all.size() < 2) break;
        // structure is a small part of the document: choose a level first
        std::vector<int> cand; bool big = r.chance(60); for (size_t i = 1; i < all.size(); i++) if (!big || !all[i].second->isArray() || !all[i].first->isNumeric()) cand.push_back((int)i);
        if (cand.empty()) for (size_t i = 1; i < all.size(); i++) cand.push_back((int)i);
        JV *x = all[cand[r.n((int)cand.size())]].first, *p = 0; for (auto &a : all) if (a.first == x) p = a.second;
        switch (r.n(8)) {
        case 0: case 1: *x = odd_value(r); break;
        case 2: if (p->isObject()) { for (auto &m : p->getMemberNames()) if (&(*p)[m] == x) { p->removeMember(m); break; } } else { JV c(Json::arrayValue); for (Json::ArrayIndex i = 0; i < p->size(); i++) if (&(*p)[i] != x) c.append((*p)[i]); *p = c; } break;
        case 3: if (r.chance(40) && !all.empty()) { // an array that is much longer than it should be
                std::vector<JV *> as; for (auto &a : all) if (a.first->isArray()) as.push_back(a.first);
                if (!as.empty()) { JV *a = as[r.n((int)as.size())]; int n = 1 << r.n(13), f = r.n(3); JV v = a->size() && f ? (*a)[a->size() - 1] : JV(f == 1 ? 0.25 : 0.0); if (json_text(v).size() > 200) n = r.in(1, 8); for (int i = r.in(1, n); i > 0; i--) a->append(v); }
            } else if (p->isArray()) { JV c = *x; p->append(c); } else (*p)["unknown"] = *x; break;
        case 4: if (x->isArray() || x->isObject()) { if (x->isArray()) x->resize(r.chance(50) ? 0 : x->size() / 2); else x->clear(); } else *x = odd_value(r); break;
        case 5: { JV c = *all[1 + r.n((int)all.size() - 1)].first; *x = c; break; }
        case 6: if (x->isNumeric()) { double d = x->asDouble(); int a = r.n(6); *x = d == std::floor(d) && std::fabs(d) < 1e9 ? JV((int)(a == 0 ? d + 1 : a == 1 ? d - 1 : a == 2 ? d * 2 : a == 3 ? -d : a == 4 ? d + 100 : d * 1000)) : JV(a % 2 ? -d : d * 1e200); } else *x = odd_value(r); break;
        default: if (x->isBool()) *x = !x->asBool(); else if (x->isNumeric()) *x = x->asDouble() ? JV(0) : JV(1); else if (x->isString()) *x = JV(x->asString() + "b"); else *x = odd_value(r);
        }
    }
    clamp_window(v); s = r.chance(50) ? Json::FastWriter().write(v) : Json::StyledWriter().write(v); sim_count(F_EDIT); return true;
}
// kinds: 0 cut short, 1 a lost sector, 2 flipped bits, 3 changed characters, 4 edited document, 5 foreign file, 6 mixture of two files, 7 very deep nesting, 8 empty, 9 garbage sector, 10 lost write of the writing process
void damage(Op const &o) {
    SimQuiet q; int f = o.i("f") % NFILES, k = o.i("k"); Rng r(o.u("seed", 1)); FileRec &rec = W()->f[f]; if (!disk_exists(path_of(f).c_str())) return;
    std::string s = content(f), was = s; size_t n = s.size(); int mark = 1;
    if (k == 0) { size_t c = n ? (size_t)((double)n * r.n(1001) / 1000.0) : 0; if (r.chance(30)) c = n - std::min(n, (size_t)r.in(1, 6)); s.resize(std::min(c, n)); mark = 2; sim_count(F_TORN); }
    else if (k == 1 || k == 9) { if (n) { size_t sz = r.chance(50) ? 512 : 64, b = (size_t)r.n((int)(n / sz + 1)) * sz; for (size_t i = b; i < std::min(n, b + sz); i++) s[i] = k == 1 ? 0 : (char)r.n(256); } sim_count(F_LOSTSECTOR); }
    else if (k == 2) { for (int i = r.in(1, 4); i > 0 && n; i--) s[(size_t)r.n((int)n)] ^= (char)(1 << r.n(8)); sim_count(F_BITFLIP); }
    else if (k == 3) { static const char cs[] = "0123456789-+.eE,:[]{}\"\\ntf \n/*"; for (int i = r.in(1, 3); i > 0 && !s.empty(); i--) { size_t at = (size_t)r.n((int)s.size()); char c = cs[r.n((int)sizeof cs - 1)]; int h = r.n(3); if (h == 0) s[at] = c; else if (h == 1) s.insert(at, 1, c); else s.erase(at, 1 + (size_t)r.n(3)); } sim_count(F_EDIT); }
    else if (k == 4) { if (!edit(s, r)) return; }
    else if (k == 5) { int g = o.i("g") % NFILES; if (!disk_exists(path_of(g).c_str())) return; s = content(g); sim_count(F_EDIT); }
    else if (k == 6) { int g = o.i("g") % NFILES; std::string t = content(g); size_t c = std::min(n, t.size()); c = c ? (size_t)r.n((int)c) : 0; s = s.substr(0, c) + (c < t.size() ? t.substr(c) : ""); sim_count(F_TORN); }
    else if (k == 7) { size_t at = n ? (size_t)r.n((int)n) : 0; std::string deep((size_t)(r.chance(50) ? 300000 : r.in(900, 3000)), r.chance(50) ? '[' : '{'); if (deep[0] == '{') { std::string d; for (size_t i = 0; i < deep.size() / 5; i++) d += "{\"a\":"; deep = d; } s = r.chance(50) ? deep : s.substr(0, at) + deep; sim_count(F_EDIT); }
    else if (k == 8) { s.clear(); mark = 2; sim_count(F_TORN); }
    else if (k == 10) { uint64_t off[64], len[64]; int c = disk_unsynced(path_of(f).c_str(), off, len, 64); if (!c) return; int i = r.n(c); for (uint64_t a = off[i]; a < off[i] + len[i] && a < n; a++) s[a] = 0; sim_count(F_LOSTSECTOR); }
    if (s == was) return;
    disk_put(path_of(f).c_str(), s.data(), s.size()); rec.damaged = rec.damaged == 1 ? 1 : mark; if (!rec.attempted) { rec.attempted = 1; rec.damaged = 1; }
}
void copy_file(Op const &o) { SimQuiet q; int a = o.i("f") % NFILES, b = o.i("g") % NFILES; if (!disk_exists(path_of(b).c_str())) return; std::string s = content(b); disk_put(path_of(a).c_str(), s.data(), s.size()); W()->f[a] = W()->f[b]; }

void plan_faults(std::string const &s) { disk_plan_clear(); const char *p = s.c_str(); unsigned k; unsigned long long n, a; int c; while (sscanf(p, "%u.%llu.%llu%n", &k, &n, &a, &c) == 3) { disk_plan((int)k, n, a); p += c; if (*p == ',') p++; else break; } }
struct Process {
    std::map<int, Obj *> slots; bool threads = false; int prop = 0;
    Obj *at(int i) { auto it = slots.find(i); return it == slots.end() ? 0 : it->second; }
    void put(int i, Obj *o) { auto it = slots.find(i); if (it != slots.end()) delete it->second; SimQuiet q; slots[i] = o; }
    void save(Op const &o) {
        Obj *x = at(o.i("s")); if (!x) return; x->settle(); int f = o.i("f") % NFILES; FileRec &rec = W()->f[f]; std::string path; FileRec want; bool known = true;
        { SimQuiet q; path = path_of(f); memset(&want, 0, sizeof want); want.type = x->type; want.wild = x->wild; want.attempted = 1; want.seed = 1 + o.u("seed"); want.n = x->wild ? 0 : o.i("n", 4);
          if (!x->wild) { JV v = x->json(); if (!finite_json(v)) { sim_probe("save-not-finite"); sim_log("not finite: %.300s\n", json_text(v).c_str()); if (prop != 12) sim_error("the workload saves values that are not finite"); x->wild = want.wild = true; want.n = 0; } want.value = json_print(v); want.print = x->print(); want.stream = o.i("probe", 1) ? x->stream(want.seed, want.n) : 0; if (!o.i("probe", 1)) want.n = 0; }
          W()->prev[f] = rec; rec = want; }
        uint64_t before = sim_count_of(F_ALLOC); bool threw = false; std::string why; plan_faults(o.s("pf")); bool oom = o.i("oom");
        try { struct G { bool on; G(bool o) : on(o) { if (on) sim_alloc_faults(1); } ~G() { if (on) sim_alloc_faults(0); } } g(oom); x->w().writeFile(&path[0]); }
        catch (std::exception &e) { SimQuiet q; threw = true; why = e.what(); }
        SimQuiet q; int hard = 0; { static const int hk[] = { F_DISK_OPEN, F_DISK_ENOSPC, F_DISK_EIO, F_DISK_CLOSE }; (void)hk; } hard = disk_fired(); std::string pf = o.s("pf");
        sim_log("save of slot %d in file %d: %s\n", o.i("s"), f, threw ? why.c_str() : "done");
        if (threw) which(f);
        if (x->wild) { if (!threw) rec.acked = 1; return; }
        if (x->print() != want.print || json_print(x->json()) != want.value) sim_fail("save-changes", "saving a %s changes it", type_name[x->type]);
        if (threw) {
            sim_probe("save-reported");
            if (!hard && sim_count_of(F_ALLOC) == before) sim_fail("save-refused", "saving a %s fails without a reason: %s", type_name[x->type], why.c_str());
            if (hard && transient_only(pf) && sim_count_of(F_ALLOC) == before) sim_fail("save-refused", "saving a %s fails after interrupted or partial writes that could be completed: %s", type_name[x->type], why.c_str());
            return;
        }
        std::string s = content(f); JV v;
        if (!complete(s) || !parse(s, v)) sim_fail("save-lost", "saving a %s returned normally but the file is incomplete (%zu bytes)", type_name[x->type], s.size());
        if (json_print(v) != want.value) sim_fail("save-lost", "saving a %s returned normally but the file holds something else", type_name[x->type]);
        rec.acked = 1; sim_probe("save-complete"); (void)known;
    }
    // a save that failed may have left the former file in place
    static void which(int f) {
        FileRec &rec = W()->f[f], &prev = W()->prev[f]; if (rec.acked || rec.damaged || !prev.attempted) return; std::string s = content(f); JV v;
        try { if (complete(s) && parse(s, v) && json_print(v) != rec.value && (prev.wild || json_print(v) == prev.value)) rec = prev; } catch (std::exception &) { if (prev.wild) rec = prev; }
    }
    static bool transient_only(std::string const &pf) { const char *p = pf.c_str(); unsigned k; unsigned long long n, a; int c; while (sscanf(p, "%u.%llu.%llu%n", &k, &n, &a, &c) == 3) { if (k != F_DISK_EINTR && k != F_DISK_SHORT) return false; p += c; if (*p == ',') p++; else break; } return true; }
    void load(Op const &o) {
        int f = o.i("f") % NFILES, how = o.i("how"), i = o.i("s"); FileRec rec; { SimQuiet q; which(f); rec = W()->f[f]; } if (!rec.attempted || !disk_exists(path_of(f).c_str())) return;
        Obj *x = how ? at(i) : 0; int t = how ? (x ? x->type : 0) : o.i("t", rec.type) % NTYPES; if (how && !x) return; if (x) x->settle();
        std::string text, path; uint64_t p0 = 0, v0 = 0, s0 = 0; bool comp; uint64_t allocs = sim_count_of(F_ALLOC); JV doc; bool parsed = true, watch = x && !x->wild, threw = false; std::string why; Obj *fresh_obj = 0;
        { SimQuiet q; text = content(f); path = path_of(f); comp = complete(text); if (watch) { p0 = x->print(); v0 = json_print(x->json()); s0 = x->stream(77, 3); } }
        plan_faults(how == 2 ? o.s("pf") : ""); bool oom = o.i("oom"); struct G { bool on; G(bool o) : on(o) { if (on) sim_alloc_faults(1); } ~G() { if (on) sim_alloc_faults(0); } };
        try {
            if (how == 2) { G g(oom); x->w().readFile(&path[0]); }
            else {
                { SimQuiet q; parsed = parse(text, doc); }
                if (!parsed) { JV d2; Json::Reader r; r.parse(text, d2); }  // the parser runs on it, too (and may throw)
                if (parsed) {
                    if (how == 1) { G g(oom); x->w().fromJson(doc); }
                    else { G g(oom); fresh_obj = construct(t, doc); }
                } else threw = true;
            }
        } catch (std::exception &e) { SimQuiet q; threw = true; why = e.what(); }
        int fired = disk_fired(); bool readerr = fired && o.s("pf").find(std::to_string((int)F_DISK_READERR) + ".") == 0;
        { SimQuiet q; sim_log("load of file %d (%zu bytes%s, %s, damage %d) into %s (how %d): %s\n", f, text.size(), comp ? "" : ", incomplete", rec.acked ? "acknowledged" : "unacknowledged", rec.damaged, type_name[t], how, threw ? ("refused " + why).c_str() : "accepted"); sim_probe(threw ? "load-refused" : "load-accepted"); if (!rec.damaged) sim_probe("load-undamaged"); }
        bool same_type = rec.type == t && !rec.wild, intact = same_type && !rec.damaged && (rec.acked || comp), cut = !comp && (rec.damaged == 2 || (!rec.damaged && !rec.acked));
        if (threw) {
            SimQuiet q;
            if (intact && !readerr && !(oom && sim_count_of(F_ALLOC) > allocs)) sim_fail("restore-refused", "a completely saved %s cannot be restored: %s", type_name[t], why.c_str());
            if (watch) {
                if (x->print() != p0 || json_print(x->json()) != v0) sim_fail("target-changed", "a %s that refused a file (%s) is not as it was before", type_name[t], why.c_str());
                if (x->stream(77, 3) != s0) sim_fail("target-changed", "a %s that refused a damaged file behaves differently", type_name[t]);
            }
            return;
        }
        if (fresh_obj) { { SimQuiet q; fresh_obj->cfg = o; } put(i, fresh_obj); x = fresh_obj; }
        if (cut && same_type) sim_fail("torn-accepted", "a %s was restored from a file that was cut short (%zu bytes)", type_name[t], text.size());
        if (intact || (same_type && rec.damaged == 2 && comp)) {
            SimQuiet q; x->wild = false;
            if (x->print() != rec.print) sim_fail("restored-different", "a restored %s holds something else than was saved", type_name[t]);
            if (json_print(x->json()) != rec.value) sim_fail("saved-again", "a restored %s is saved differently", type_name[t]);
            if (rec.n && x->stream(rec.seed, rec.n) != rec.stream) sim_fail("restored-behaviour", "a restored %s behaves differently from the one that was saved", type_name[t]);
            sim_probe("restored-identical");
        } else { SimQuiet q; x->wild = true; sim_probe("load-wild"); }
    }
    void step(Op const &o) {
        { SimQuiet q; sim_log("%s\n", o.text().c_str()); }
        if (o.name == "damage") return damage(o);
        if (o.name == "copy") return copy_file(o);
        if (o.name == "obj") { put(o.i("s"), fresh(o.i("t") % NTYPES, o)); return; }
        if (o.name == "save") return save(o);
        if (o.name == "load") return load(o);
        Obj *x = at(o.i("s")); if (!x) return; Rng *r; { SimQuiet q; r = new Rng(o.u("seed", 1)); }
        if (o.name == "use") { x->settle(); if (x->wild) x->use(*r); }
        else if (o.name == "again") { x->settle(); x->again(o, *r, threads); }
        else if (!x->wild) { if (o.name == "train") x->train(o, o.i("l", -1)); else x->step(o); }
        SimQuiet q; delete r;
    }
    void finish() { while (!slots.empty()) { Obj *x = slots.begin()->second; x->settle(); delete x; SimQuiet q; slots.erase(slots.begin()); } }
};
void cfg_keys(Op &o, Rng &r, bool threads) {
    o.set("g", r.in(1, 3)).set("st", r.in(1, 4)).set("cov", r.n(2)).set("tm", r.n(2)).set("hier", r.chance(70) ? 1 : 0).set("re", r.n(3)).set("itmin", 1).set("itmax", r.in(1, 4)).set("win", r.in(1, 6)).set("est", r.n(2)).set("mt", threads ? r.n(3) : 0);
    if (r.chance(30)) o.set("rr", r.chance(50) ? "0.0123456789012345" : "0.3"); if (r.chance(30)) o.set("ar", r.chance(50) ? "0.00123" : "0.1"); if (r.chance(30)) o.set("pc", r.chance(50) ? "0.123456789012345" : "5");
    if (r.chance(30)) { std::string v = std::to_string(r.in(1, 3)) + "." + std::to_string(r.in(1, 3)) + "." + std::to_string(r.n(2)) + "." + std::to_string(r.n(2)); o.set(("o" + std::to_string(r.n(5))).c_str(), v); }
}
void ts_keys(Op &o, Rng &r, bool bi, int dim, int din, int labels, bool allow_empty) {
    std::vector<PhraseSpec> v; int n = r.in(1, 4); for (int i = 0; i < n; i++) { PhraseSpec q = { r.n(labels), 0, r.in(8, 16) }; if (allow_empty && r.chance(15)) q.kind = r.in(1, 2); v.push_back(q); }
    o.set("seed", r.n(100000)).set("dim", dim).set("din", din).set("bi", bi).set("ph", TsSpec::list(v));
}
}
void gen_store(Plan &p, Rng &r) {
    int prop = atoi(p.prop.c_str() + 1); bool threads = r.chance(25); p.opt.set("threads", threads); p.opt.set("cap", 600000000); int last = 0;
    if (prop != 11 && r.chance(prop == 13 ? 35 : 25)) p.opt.set("palloc", r.in(3, 80)).set("awork", 0).set("amin", r.chance(60) ? 1 : 33);
    struct S { int t; bool bi; int dim, din; bool live; }; std::map<int, S> sl; int labels = r.in(1, 5);
    auto object = [&](int s, int t, int st) {
        bool bi = r.chance(40); int dim = bi ? r.in(2, 4) : r.in(1, 3), din = bi ? r.in(1, dim - 1) : 0; Op &o = p.add("obj"); o.set("s", s).set("t", t).set("l", r.n(8)); if (st) o.set("sg", st);
        cfg_keys(o, r, threads); ts_keys(o, r, bi, dim, din, labels, true); S x = { t, bi, dim, din, true }; sl[s] = x;
        if (t == T_TSET && r.chance(8)) { std::vector<PhraseSpec> v; for (int i = 0; i < 4; i++) { PhraseSpec q = { r.n(labels), 0, r.in(60, 200) }; v.push_back(q); } o.set("ph", TsSpec::list(v)); }
        if (t == T_TSET && r.chance(8)) o.set("ph", "-");
    };
    auto train = [&](int s, int st, bool nowait) { S &x = sl[s]; Op &o = p.add("train"); o.set("s", s); if (st) o.set("sg", st); ts_keys(o, r, x.bi, x.dim, x.din, labels, false); if (r.chance(25)) o.set("l", r.n(labels)); if (nowait) o.set("nowait", 1); };
    auto history = [&](int s, int st, int len) {
        S &x = sl[s]; bool model = x.t <= T_HMM; if (model && r.chance(88)) train(s, st, false);
        for (int k = 0; k < len; k++) {
            static const char *const nm[] = { "rm", "reset", "filter", "filter", "exitp", "exitp", "cfg", "train", "gram" }, *const ng[] = { "fill", "cov", "reg" }, *const np[] = { "rec", "rec", "label", "wipe", "cols" }, *const nt[] = { "rec", "label", "add", "add", "rm", "wipe", "cols" };
            const char *n = model ? nm[r.n(9)] : x.t == T_GAUSS ? ng[r.n(3)] : x.t == T_PHRASE ? np[r.n(5)] : x.t == T_TSET ? nt[r.n(7)] : r.chance(70) ? "cfg" : "cols";
            if (!strcmp(n, "train")) { train(s, st, false); continue; }
            if (!strcmp(n, "cfg") && model) continue; // (a configuration is followed by training)
            Op &o = p.add(n); o.set("s", s).set("seed", r.n(100000)).set("n", r.in(1, 6)).set("l", r.n(labels)).set("x", r.n(5)).set("c", r.n(2)).set("p", r.in(1, 90)); if (st) o.set("sg", st);
            if (!strcmp(n, "rec") && r.chance(25)) o.set("skew", 1); if (!strcmp(n, "cfg")) cfg_keys(o, r, threads);
        }
    };
    auto save = [&](int s, int f, int st) -> Op & { Op &o = p.add("save"); o.set("s", s).set("f", f).set("n", r.in(1, 5)).set("seed", r.n(100000)); if (r.chance(20)) o.set("probe", 0); if (st) o.set("sg", st); return o; };
    auto fault = [&](int kind, int n, int a) { return std::to_string(kind) + "." + std::to_string(n) + "." + std::to_string(a); };
    auto load = [&](int s, int f, int how, int st) -> Op & { Op &o = p.add("load"); o.set("s", s).set("f", f).set("how", how).set("sg", st); return o; };
    auto weak = [&]() { return std::string(r.chance(50) ? fault(F_DISK_SHORT, r.in(1, 3), r.n(2000)) : fault(F_DISK_EINTR, r.in(1, 3), 0)); };
    auto weak_read = [&]() { return std::string(r.chance(50) ? fault(F_DISK_SHORTREAD, r.in(1, 4), r.n(3000)) : fault(F_DISK_RINTR, r.in(1, 4), 0)); };
    int type = r.n(100); type = type < 26 ? T_GMM : type < 56 ? T_HMM : type < 66 ? T_GAUSS : type < 76 ? T_PHRASE : type < 90 ? T_TSET : type < 93 ? T_SHARED : type < 96 ? T_CONFG : T_CONFH;
    if (prop == 11) {
        object(0, type, 0); history(0, 0, r.n(5)); { Op &o = save(0, 0, 0); if (r.chance(25)) o.set("pf", weak()); }
        if (r.chance(50)) { history(0, 0, r.n(3)); Op &o = save(0, r.chance(50) ? 1 : 0, 0); if (r.chance(40)) o.set("pf", fault(F_CRASH, r.in(1, 2), r.n(30000))); }
        if (type <= T_HMM && threads && r.chance(40)) train(0, 0, true);
        p.opt.set("end0", r.n(2)); int stages = r.in(1, 3);
        for (int st = 1; st <= stages; st++) {
            int loads = r.in(1, 3);
            for (int k = 0; k < loads; k++) {
                int how = r.n(3), s = r.n(2); if (how) { if (k == 0 || r.chance(50)) { S keep = sl[0]; object(s, type, st); (void)keep; if (r.chance(60)) history(s, st, r.n(2)); } }
                Op &o = load(s, r.n(2), how, st); S x = { type, sl[0].bi, sl[0].dim, sl[0].din, true }; sl[s] = x; if (how == 2 && r.chance(40)) o.set("pf", weak_read());
            }
            if (st < stages) { for (int s = 0; s < 2; s++) if (r.chance(50)) { if (sl.count(s)) history(s, st, r.n(3)); } for (int k = r.in(1, 2); k > 0; k--) { Op &o = save(r.n(2), r.n(2), st); if (r.chance(20)) o.set("pf", fault(F_CRASH, 1, r.n(30000))); } p.opt.set(("end" + std::to_string(st)).c_str(), r.n(2)); }
            last = st;
        }
    } else if (prop == 13) {
        object(0, type, 0); history(0, 0, r.n(3)); int n = r.in(1, 5);
        for (int k = 0; k < n; k++) {
            Op &o = save(0, r.n(2), 0); int w = r.n(100); int nth = r.chance(60) ? 1 : r.in(1, 6); std::string pf;
            if (w < 12) pf = fault(F_DISK_OPEN, 1, r.n(4)); else if (w < 32) pf = fault(F_DISK_ENOSPC, nth, r.chance(50) ? 0 : r.n(9000)); else if (w < 47) pf = fault(F_DISK_EIO, nth, 0); else if (w < 60) pf = fault(F_DISK_CLOSE, 1, r.n(300)); else if (w < 78) { pf = weak(); if (r.chance(40)) pf += "," + weak(); } else if (w < 84) pf = weak() + "," + fault(F_DISK_ENOSPC, r.in(1, 4), r.n(2000)); else if (w < 88) pf = fault(F_CRASH, nth, r.n(9000));
            if (!pf.empty()) o.set("pf", pf); if (r.chance(30)) o.set("oom", 1);
            if (r.chance(30)) history(0, 0, 1);
        }
        p.opt.set("end0", r.n(2)); last = 1; for (int f = 0; f < 2; f++) { int how = r.chance(50) ? 0 : 2; if (how) object(f, type, 1); load(f, f, how, 1); }
    } else {
        object(0, type, 0); history(0, 0, r.n(3)); { Op &o = save(0, 0, 0); (void)o; }
        int other = r.chance(50) ? type : r.n(NTYPES); object(1, other, 0); history(1, 0, r.n(2)); { Op &o = save(1, 1, 0); if (r.chance(35)) o.set("pf", fault(F_CRASH, r.in(1, 2), r.n(30000))); }
        p.opt.set("end0", r.n(2)); int rounds = r.in(2, 7); last = 1;
        for (int k = 0; k < rounds; k++) {
            int src = r.chance(75) ? 0 : 1, t = src ? other : type, w = r.n(100); p.add("copy").set("f", 2).set("g", src).set("sg", 1);
            int nd = w < 6 ? 0 : w < 80 ? 1 : 2;
            for (int i = 0; i < nd; i++) { int kind = r.n(100); kind = kind < 14 ? 0 : kind < 22 ? 1 : kind < 34 ? 2 : kind < 48 ? 3 : kind < 84 ? 4 : kind < 88 ? 5 : kind < 92 ? 6 : kind < 94 ? 7 : kind < 95 ? 8 : kind < 97 ? 9 : 10; p.add("damage").set("f", kind == 10 ? src : 2).set("g", kind == 6 || kind == 5 ? 1 - src : 0).set("k", kind).set("seed", r.n(1000000)).set("sg", 1); if (kind == 10) p.add("copy").set("f", 2).set("g", src).set("sg", 1); }
            int how = r.n(3), tt = r.chance(88) ? t : r.n(NTYPES), s = 2 + r.n(2);
            if (how) { if (!sl.count(s) || sl[s].t != tt || r.chance(30)) { object(s, tt, 1); history(s, 1, r.n(2)); } } else { S x = { tt, false, 2, 0, true }; sl[s] = x; }
            Op &o = load(s, 2, how, 1); if (!how) o.set("t", tt); if (r.chance(40)) o.set("oom", 1); if (how == 2 && r.chance(25)) o.set("pf", r.chance(60) ? fault(F_DISK_READERR, r.in(1, 4), 0) : weak_read());
            if (r.chance(75)) p.add("use").set("s", s).set("seed", r.n(1000000)).set("sg", 1);
            if (r.chance(40)) { Op &a = p.add("again"); a.set("s", s).set("sg", 1).set("itmin", 1).set("itmax", 2); ts_keys(a, r, false, 2, 1, labels, false); if (r.chance(25)) a.set("l", r.n(labels)); }
            if (r.chance(40)) { save(s, 3, 1); if (r.chance(70)) { load(s, 3, r.n(3), 1).set("t", tt); p.add("use").set("s", s).set("seed", r.n(1000000)).set("sg", 1); } }
        }
    }
    p.opt.set("last", last);
}
void run_store(Plan const &plan, int stage) {
    Process *p; bool more = false; { SimQuiet q; p = new Process(); } p->threads = plan.opt.i("threads"); p->prop = atoi(plan.prop.c_str() + 1);
    for (auto &o : plan.ops) { if (o.i("sg") > stage) more = true; if (o.i("sg") == stage) p->step(o); }
    if (more && !plan.opt.i(("end" + std::to_string(stage)).c_str())) sim_crash();
    p->finish(); { SimQuiet q; delete p; }
    if (more) sim_next_stage();
}
