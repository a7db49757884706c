// Family "obj": distributions, K-means models, configurations and shared parameters, copied around and used by several threads
// (C10, part of C09). Every operation may change the objects it names and no others, and each thread's objects must go
// through exactly the states they go through when its operations are the only ones.
#include "mdl.h"
#include "xmmKMeans.hpp"
namespace {
typedef xmm::GaussianDistribution Gauss;
template <class F> void quiet(F f) { SimQuiet q; f(); }
struct Thing {
    virtual ~Thing() {}
    virtual Thing *copy() = 0; virtual void take(Thing &) = 0; virtual Json::Value json() = 0; virtual void load(Json::Value const &) = 0;
    virtual uint64_t print() = 0;            // everything that can be seen of it
    virtual uint64_t act(Op const &) = 0;    // uses or changes it; what the operation returned
};
struct GaussThing : Thing {
    Gauss *g; explicit GaussThing(Gauss *x) : g(x) {} ~GaussThing() { delete g; }
    Thing *copy() { Gauss *x = new Gauss(*g); SimQuiet q; return new GaussThing(x); } void take(Thing &t) { *g = *((GaussThing &)t).g; }
    Json::Value json() { return g->toJson(); } void load(Json::Value const &v) { g->fromJson(v); }
    bool bi() { SimQuiet q; return g->toJson()["bimodal"].asBool(); }
    uint64_t use(uint64_t seed) {
        Hash h; int d = g->dimension.get(), i = g->dimension_input.get(); bool b = bi(); std::vector<float> f; quiet([&]() { f = frame_of(seed, 0, d); });
        h.d(g->likelihood(f.data()));
        if (b) { h.d(g->likelihood_input(f.data())); h.d(g->likelihood_bimodal(f.data(), f.data() + i)); std::vector<float> in(f.begin(), f.begin() + i), out(d - i); g->regression(in, out); h.vec(out); }
        return h.h;
    }
    uint64_t print() { SimQuiet q; Hash h; hash_gauss(h, *g); h.s(json_text(g->toJson())); h.u(use(7)); return h.h; }
    void fill(uint64_t seed) {
        Rng r(seed); int d = g->dimension.get(); bool full = g->covariance_mode.get() == Gauss::CovarianceMode::Full;
        for (int i = 0; i < d; i++) g->mean[i] = r.g();
        for (int i = 0; i < d; i++) { if (!full) g->covariance[i] = 0.5 + r.f(); else for (int k = 0; k < d; k++) g->covariance[i * d + k] = i == k ? 1 + r.f() : 0.1 / (1 + i + k); }
        g->updateInverseCovariance();
    }
    uint64_t act(Op const &o) {
        switch (o.i("w") % 7) {
        case 0: case 1: return use(o.u("seed"));
        case 2: fill(o.u("seed")); return 0;
        case 3: g->covariance_mode.set(o.u("seed") % 2 ? Gauss::CovarianceMode::Diagonal : Gauss::CovarianceMode::Full); fill(o.u("seed")); return 0;
        case 4: { int d = 1 + o.i("x") % 4; bool b = bi(); if (b) { d = std::max(d, 2); if ((int)g->dimension_input.get() >= d) g->dimension_input.set(1); } g->dimension.set(d); if (b) g->dimension_input.set(1 + o.i("x") % (d - 1)); fill(o.u("seed")); return 0; }
        case 5: g->regularize(std::vector<double>(g->dimension.get(), 0.25)); g->updateInverseCovariance(); return 0;
        default: { if (g->dimension.get() < 2) return 0; xmm::Ellipse e = g->toEllipse(0, 1); Hash h; h.d(e.x); h.d(e.y); h.d(e.width); h.d(e.height); h.d(e.angle); if (o.i("x") % 3 == 0 && e.width > 0.1 && e.height > 0.1) { e.x += 1; g->fromEllipse(e, 0, 1); g->updateInverseCovariance(); } return h.h; }
        }
    }
};
struct KMeansThing : Thing {
    xmm::KMeans *m; bool trained = false, filtered = false; explicit KMeansThing(xmm::KMeans *x) : m(x) {} ~KMeansThing() { delete m; }
    Thing *copy() { xmm::KMeans *x = new xmm::KMeans(*m); SimQuiet q; auto t = new KMeansThing(x); t->trained = trained; return t; } void take(Thing &t) { KMeansThing &o = (KMeansThing &)t; *m = *o.m; trained = o.trained; }
    Json::Value json() { return Json::Value(); } void load(Json::Value const &) {}
    uint64_t print() { SimQuiet q; Hash h; h.vec(m->centers); h.s(json_text(m->configuration.toJson())); h.s(json_text(m->shared_parameters->toJson())); h.u((uint64_t)m->initialization_mode); h.vec(m->results.distances); if (filtered) h.u(m->results.likeliest); return h.h; }
    uint64_t act(Op const &o) {
        switch (o.i("w") % 5) {
        case 0: case 1: { // (the number of clusters only changes together with the centres)
            m->configuration.clusters.set(2 + o.i("x") % 3); m->configuration.max_iterations.set(1 + o.i("x") % 9); m->initialization_mode = xmm::KMeans::InitializationMode::Biased;
            TsSpec s; TsData d; quiet([&]() { s.seed = o.u("seed"); s.dim = 1 + o.i("x") % 3; if (s.seed % 3 == 0) { s.bi = true; s.dim++; s.din = s.dim - 1; } if (s.seed % 5 == 0) s.own = false; PhraseSpec q = { o.i("x") % 3, 0, 4 + o.i("x") % 9 }; s.ph.push_back(q); q.label = 1; s.ph.push_back(q); d.build(s); });
            m->train(d.ts); trained = true; quiet([&]() { d.drop(); }); return 0; }
        case 2: case 3: { if (!trained) return 0; std::vector<float> f; quiet([&]() { f = frame_of(o.u("seed"), 0, m->shared_parameters->dimension.get()); }); m->filter(f); filtered = true; Hash h; h.vec(m->results.distances); h.u(m->results.likeliest); return h.h; }
        default: m->configuration.relative_distance_threshold.set(o.i("x") % 2 ? 0.01f : 0.2f); m->reset(); return 0;
        }
    }
};
inline void set_default(xmm::ClassParameters<xmm::KMeans> &p, Op const &o) { p.clusters.set(o.i("g", 1)); p.max_iterations.set(o.i("st", 1)); p.relative_distance_threshold.set(0.01f * o.i("st", 1)); }
inline unsigned count_of(xmm::ClassParameters<xmm::KMeans> &p) { return p.clusters.get(); }
template <class P> inline unsigned count_of(P &p) { return p.gaussians.get(); }
inline void set_count(xmm::ClassParameters<xmm::KMeans> &p, int n) { p.clusters.set(n); }
template <class P> inline void set_count(P &p, int n) { p.gaussians.set(n); }
template <class K> struct ConfThing : Thing {
    typedef xmm::Configuration<K> C; C *c; explicit ConfThing(C *x) : c(x) {} ~ConfThing() { delete c; }
    Thing *copy() { C *x = new C(*c); SimQuiet q; return new ConfThing(x); } void take(Thing &t) { *c = *((ConfThing &)t).c; }
    Json::Value json() { return c->toJson(); } void load(Json::Value const &v) { c->fromJson(v); }
    uint64_t print() { SimQuiet q; Hash h; h.s(json_text(c->toJson())); return h.h; }
    uint64_t act(Op const &o) {
        std::string l; Op k; quiet([&]() { l = label_name(o.i("x")); Rng r(o.u("seed")); k.set("g", r.in(1, 4)).set("st", r.in(1, 5)).set("cov", r.n(2)).set("tm", r.n(2)).set("hier", r.n(2)).set("re", r.n(3)).set("ar", "0.02").set("rr", "0.03"); });
        switch (o.i("w") % 7) {
        case 0: set_default(*c, k); return 0;
        case 1: case 2: set_default((*c)[l], k); return 0;
        case 3: c->reset(l); return 0;
        case 4: c->multithreading = (xmm::MultithreadingMode)(o.i("x") % 3); c->multiClass_regression_estimator = (xmm::MultiClassRegressionEstimator)(o.i("x") % 2); return 0;
        case 5: { bool b = c->includes(l); uint64_t g = count_of((*c)[l]); if (!b) c->reset(l); return g * 2 + b; }
        default: if (o.i("x") % 3 == 0) c->reset(); else { xmm::ClassParameters<K> p((*c)[l]); set_count(p, 1 + o.i("x") % 5); (*c)[l] = p; } return 0;
        }
    }
};
struct SharedThing : Thing {
    xmm::SharedParameters *s; explicit SharedThing(xmm::SharedParameters *x) : s(x) {} ~SharedThing() { delete s; }
    Thing *copy() { auto x = new xmm::SharedParameters(*s); SimQuiet q; return new SharedThing(x); } void take(Thing &t) { *s = *((SharedThing &)t).s; }
    Json::Value json() { return s->toJson(); } void load(Json::Value const &v) { s->fromJson(v); }
    uint64_t print() { SimQuiet q; Hash h; h.s(json_text(s->toJson())); return h.h; }
    uint64_t act(Op const &o) {
        int x = o.i("x");
        switch (o.i("w") % 4) {
        case 0: s->em_algorithm_min_iterations.set(1 + x % 3); s->em_algorithm_max_iterations.set(3 + x % 5); return 0;
        case 1: s->likelihood_window.set(1 + x % 9); s->em_algorithm_percent_chg.set(0.01 * (1 + x % 5)); return 0;
        case 2: { std::vector<std::string> v(s->dimension.get()); for (size_t k = 0; k < v.size(); k++) v[k] = "column " + std::to_string(k + x) + (k % 2 ? "" : " with a name too long to be stored in place"); s->column_names.set(v); return 0; }
        default: { int d = 1 + x % 4; bool b = s->bimodal.get(); if (b) { d = std::max(d, 2); s->dimension_input.set(1); } s->dimension.set(d); if (!b && d > 1 && x % 3 == 0) { s->bimodal.set(true); b = true; } if (b) s->dimension_input.set(1 + x % (d - 1)); return s->dimension.get(); } // (the modality is chosen once)
        }
    }
};
Thing *make(int kind, Op const &o) {
    int x = o.i("x");
    switch (kind) {
    case 0: { bool bi = o.u("seed") % 2 != 0; int d = bi ? 2 + x % 3 : 1 + x % 4; Gauss *g = new Gauss(bi, d, bi ? 1 + x % (d - 1) : 0, x % 2 ? Gauss::CovarianceMode::Diagonal : Gauss::CovarianceMode::Full); SimQuiet q; auto t = new GaussThing(g); t->fill(o.u("seed")); return t; }
    case 1: { auto m = new xmm::KMeans(2 + x % 3); SimQuiet q; return new KMeansThing(m); }
    case 2: { auto c = new xmm::Configuration<xmm::GMM>(); SimQuiet q; return new ConfThing<xmm::GMM>(c); }
    case 3: { auto c = new xmm::Configuration<xmm::HMM>(); SimQuiet q; return new ConfThing<xmm::HMM>(c); }
    case 4: { auto c = new xmm::Configuration<xmm::KMeans>(); SimQuiet q; return new ConfThing<xmm::KMeans>(c); }
    default: { auto s = new xmm::SharedParameters(); SimQuiet q; return new SharedThing(s); }
    }
}
enum { KINDS = 6 };
struct User { // objects of one thread; slot i holds kind i % KINDS
    int id = 0; std::map<int, Thing *> slots; std::map<int, uint64_t> was; std::vector<Op> ops; std::vector<uint64_t> trail; std::vector<uint64_t> const *alone = 0;
    void bad(const char *cls, int i, const char *what, Op const &o) { sim_fail(cls, "object %d of thread %d (kind %d): %s (after: %s)", i, id, i % KINDS, what, o.text().c_str()); }
    void drop(int i) { auto it = slots.find(i); if (it == slots.end()) return; delete it->second; SimQuiet q; slots.erase(it); was.erase(i); }
    void put(int i, Thing *t) { drop(i); SimQuiet q; slots[i] = t; was[i] = t->print(); }
    void step(Op const &o) {
        int i = o.i("s"), d = o.i("d"); bool src = false, dst = false; uint64_t ret = 0; { SimQuiet q; sim_log("[u%d] %s\n", id, o.text().c_str()); }
        Thing *t = slots.count(i) ? slots[i] : 0, *u = slots.count(d) ? slots[d] : 0; std::string const &n = o.name;
        try {
            if (n == "new") { put(i, make(i % KINDS, o)); src = true; }
            else if (!t) ;
            else if (n == "destroy") { drop(i); src = true; }
            else if (n == "copy") { if (i != d) { Thing *c = t->copy(); put(d, c); dst = true; } }
            else if (n == "assign") { if (u) { u->take(*t); dst = true; } }
            else if (n == "load") { if (u && i % KINDS != 1) { Json::Value v = t->json(); u->load(v); dst = true; } }
            else if (n == "save") { if (i % KINDS != 1) { Json::Value v = t->json(); SimQuiet q; Hash h; h.s(json_text(v)); ret = h.h; } }
            else if (n == "act") { ret = t->act(o); src = true; }
        } catch (std::exception &e) { bad("refused", i, e.what(), o); }
        SimQuiet q; Hash h; h.u(ret); h.u(slots.size());
        for (auto &p : slots) {
            uint64_t x = p.second->print(); h.u(x); if (x == was[p.first]) continue;
            if (!(src && p.first == i) && !(dst && p.first == d)) bad("shared-state", p.first, "it has changed, but the operation was on other objects", o);
            was[p.first] = x;
        }
        if (alone && trail.size() < alone->size() && (*alone)[trail.size()] != h.h) bad("not-as-alone", i, "what its thread sees differs from what it sees when it is the only one", o);
        trail.push_back(h.h);
    }
    void finish() { while (!slots.empty()) drop(slots.begin()->first); }
    void run() { for (auto &o : ops) step(o); finish(); }
};
void world(Plan const &plan, std::vector<User *> &us, bool threads) {
    for (auto &o : plan.ops) {
        if (!o.i("pre")) { SimQuiet q; us[o.i("u")]->ops.push_back(o); continue; }
        if (o.name == "give") { auto it = us[0]->slots.find(o.i("s")); if (it != us[0]->slots.end()) us[o.i("du")]->put(o.i("d"), it->second->copy()); continue; }
        us[0]->step(o);
    }
    if (!threads) { for (auto u : us) u->run(); return; }
    std::vector<std::thread> *th; { SimQuiet q; th = new std::vector<std::thread>(us.size()); }
    for (size_t u = 1; u < us.size(); u++) (*th)[u] = std::thread(&User::run, us[u]);
    us[0]->run();
    for (size_t u = 1; u < us.size(); u++) (*th)[u].join();
    SimQuiet q; delete th;
}
}
void gen_obj(Plan &p, Rng &r) {
    int nu = p.prop == "C09" || r.chance(70) ? r.in(2, 3) : 1; p.opt.set("threads", nu > 1 ? 1 : 0);
    int kind = r.chance(75) ? r.n(KINDS) : -1; // mostly objects of one kind
    auto slot = [&]() { return (kind >= 0 ? kind : r.n(KINDS)) + KINDS * r.n(3); };
    auto args = [&](Op &o) { o.set("w", r.n(35)).set("x", r.n(60)).set("seed", r.in(1, 100000)); };
    for (int k = 0, n = r.in(1, 3); k < n; k++) {
        int s = slot(); Op &o = p.add("new"); args(o); o.set("s", s).set("pre", 1);
        for (int j = r.n(4); j-- > 0;) { Op &a = p.add("act"); args(a); a.set("s", s).set("pre", 1); }
        for (int u = 1; u < nu; u++) if (r.chance(70)) p.add("give").set("pre", 1).set("s", s).set("d", s).set("du", u);
    }
    for (int u = 0; u < nu; u++) {
        int len = nu > 1 ? r.in(2, 12) : r.in(4, 25);
        for (int k = 0; k < len; k++) {
            static const char *const n[] = { "new", "destroy", "copy", "copy", "assign", "assign", "load", "save", "act", "act", "act", "act", "act", "act", "act", "act" };
            int s = slot(); Op &o = p.add(k == 0 && r.chance(60) ? "new" : n[r.n(16)]); args(o); o.set("s", s).set("d", s % KINDS + KINDS * r.n(3)); if (u) o.set("u", u);
        }
    }
}
void run_obj(Plan const &plan, int) {
    int nu = 1; std::vector<User *> us, solo; std::vector<std::vector<uint64_t>> alone;
    { SimQuiet q; for (auto &o : plan.ops) nu = std::max(nu, std::max(o.i("u"), o.i("du")) + 1); for (int u = 0; u < nu; u++) { us.push_back(new User()); us[u]->id = u; solo.push_back(new User()); solo[u]->id = u; } }
    if (nu > 1) {
        world(plan, solo, false); // one user after the other
        SimQuiet q; for (auto u : solo) alone.push_back(u->trail); for (int u = 0; u < nu; u++) us[u]->alone = &alone[u];
    }
    world(plan, us, nu > 1);
    SimQuiet q; for (auto u : us) delete u; for (auto u : solo) delete u;
}
