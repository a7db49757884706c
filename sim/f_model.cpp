// Family "model": programs of operations on GMMs and hierarchical HMMs, trained in every threading mode (C01..C10).
#include "mdl.h"
#include <algorithm>
#include <chrono>
namespace {
enum { C01 = 1 << 1, C02 = 1 << 2, C03 = 1 << 3, C04 = 1 << 4, C05 = 1 << 5, C06 = 1 << 6, C07 = 1 << 7, C08 = 1 << 8, C09 = 1 << 9, C10 = 1 << 10 };
enum { RESULT = C01 | C04 | C05 | C06 | C07 | C08 | C10, NL = 15 };
int inside_every, witnesses; bool inside_model_only; unsigned prop_bit; bool has_users; int fair; // fair: every thread gets its turn regularly
void viol(unsigned mask, const char *cls, const char *fmt, ...) {
    char b[900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (mask & prop_bit) sim_fail(cls, "%s", b);
    sim_probe("other-property"); sim_log("(violation of another property: %s: %s)\n", cls, b); sim_end();
}
int label_index(std::string const &s) { for (int i = 0; i < NL; i++) if (s == label_name(i)) return i; return -1; }
const char *short_name(int l) { static const char *const n[] = { "a", "b", "walk", "long", "quoted", "b2", "empty", "utf8", "A", "0", "10", "9", "space", "walk2", "z" }; return l >= 0 && l < NL ? n[l] : "?"; }

struct Ev { int kind, label, it; double ll; float prog; }; // kind: TrainingEvent status, or 100 start of a class, 101 call returned, 102 cancel requested
struct Witness;
struct Listener {
    std::vector<Witness *> witnesses; std::vector<Ev> events; ~Listener();
    std::vector<Ev> log; void *model = 0; int slot = 0, inside = 0; bool dead = false; int alldone = 0, frozen = -1; std::function<void(int, int)> attempts; // what is tried during an iteration event
    void on(xmm::TrainingEvent const &e) {
        {
            SimQuiet q;
            if (dead) viol(C06, "late-event", "an event of slot %d arrived after its model was destroyed", slot);
            if (inside++) viol(C02, "event-overlap", "two events of the model in slot %d are delivered at the same time", slot);
            int l = e.status == xmm::TrainingEvent::Status::Alldone ? -1 : label_index(e.label);
            sim_log("  [t%d] slot %d event %d label %s iteration %g\n", sim_tid(), slot, (int)e.status, l < 0 ? "-" : short_name(l), e.iterations);
            if (frozen >= 0) viol(C04 | C06, "late-event", "an event (status %d, label %s) of slot %d arrived after the training had been ended", (int)e.status, short_name(l), slot);
            if (e.model != model) viol(C02, "event-source", "an event of slot %d names another object as its source", slot);
            if (e.status == xmm::TrainingEvent::Status::Alldone) alldone++;
            else if (l < 0) viol(C02, "event-label", "an event of slot %d carries an unknown label", slot);
            Ev v = { (int)e.status, l, (int)e.iterations, e.log_likelihood, e.progression }; log.push_back(v); events.push_back(v); compare();
        }
        sim_event();
        if (e.status == xmm::TrainingEvent::Status::Run && attempts) { int l; { SimQuiet q; l = label_index(e.label); } attempts(l, (int)e.iterations); }
        { SimQuiet q; inside--; }
    }
    void compare(bool end = false);
};
// further listeners of the same model: they are told the same
struct Witness {
    Listener *first; size_t from; bool off = false; std::vector<Ev> events;
    Witness(Listener *l) : first(l), from(l->events.size()) {}
    void on(xmm::TrainingEvent const &e) {
        SimQuiet q;
        if (off) viol(C02, "removed-listener", "a listener that was removed from the model in slot %d is told of an event", first->slot);
        if (first->dead) viol(C06, "late-event", "an event of slot %d arrived after its model was destroyed", first->slot);
        if (e.model != first->model) viol(C02, "event-source", "an event of slot %d names another object as its source", first->slot);
        int l = e.status == xmm::TrainingEvent::Status::Alldone ? -1 : label_index(e.label);
        Ev v = { (int)e.status, l, (int)e.iterations, e.log_likelihood, e.progression }; events.push_back(v); first->compare();
    }
};
Listener::~Listener() { for (auto w : witnesses) delete w; }
void Listener::compare(bool end) {
    for (auto w : witnesses) {
        if (w->off) continue;
        size_t a = events.size() - w->from, b = w->events.size();
        if (a > b + 1 || b > a + 1 || (end && a != b)) viol(C02, "listeners-differ", "two listeners of the model in slot %d have been told of %d and %d events", slot, (int)a, (int)b);
        if (!b || !a) continue;
        size_t i = std::min(a, b) - 1; Ev &x = events[w->from + i], &y = w->events[i];
        if (x.kind != y.kind || x.label != y.label || x.it != y.it || memcmp(&x.ll, &y.ll, sizeof x.ll) || memcmp(&x.prog, &y.prog, sizeof x.prog)) viol(C02, "listeners-differ", "two listeners of the model in slot %d are told of different events", slot);
    }
}
struct Source {
    TsSpec const *ts; int label; Op cfg; std::map<int, float> exits; // exit points set by the user after the training
    std::string exit_key() const { std::string k; for (auto &e : exits) k += "x" + std::to_string(e.first) + "=" + std::to_string(e.second); return k; }
    int states() const { xmm::ClassParameters<xmm::HMM> p; set_label(p, cfg, label); return p.states.get(); }
};
void set_exits(xmm::SingleClassGMM &, std::map<int, float> const &) {}
void set_exits(xmm::SingleClassHMM &c, std::map<int, float> const &x) { for (auto &e : x) c.addExitPoint(e.first, e.second); }
struct Ref { bool ok; uint64_t print; std::vector<double> ll; };
struct LlLog { std::vector<double> ll; void on(xmm::TrainingEvent const &e) { if (e.status == xmm::TrainingEvent::Status::Run) ll.push_back(e.log_likelihood); } };

template <class M> struct Cls; template <> struct Cls<xmm::GMM> { typedef xmm::SingleClassGMM T; }; template <> struct Cls<HHMM> { typedef xmm::SingleClassHMM T; };

// ---- reference: each class trained alone by the library, quietly, in the calling thread
template <class M> struct Reference {
    typedef typename Cls<M>::T C;
    std::map<std::string, Ref> memo; std::map<std::string, std::pair<uint64_t, uint64_t>> joint;
    static void train_one(std::map<std::string, C> &models, std::shared_ptr<xmm::SharedParameters> sp, Source const &s, std::vector<double> *ll) {
        TsData d; TsSpec sp1 = *s.ts; d.build(sp1); std::string name = label_name(s.label);
        set_shared(*sp, s.cfg);
        C &c = models.insert(std::pair<std::string, C>(name, C(sp))).first->second; c.label = name; set_label(c.parameters, s.cfg, s.label);
        LlLog log; c.training_events.addListener(&log, &LlLog::on);
        c.train(d.ts->getPhrasesOfClass(name));
        c.training_events.removeListeners(); if (ll) *ll = log.ll;
        if (c.training_status.status == xmm::TrainingEvent::Status::Done) set_exits(c, s.exits);
        d.drop();
    }
    static void prepare(M &m, TsSpec const &s) { m.shared_parameters->dimension.set(s.dim); if (s.bi) m.shared_parameters->dimension_input.set(s.din); }
    Ref const &of(Source const &s) {
        std::string k = s.ts->key(s.label) + "#" + cfg_key(s.cfg, s.label) + s.exit_key(); auto it = memo.find(k); if (it != memo.end()) return it->second;
        M m(s.ts->bi); Ref r; prepare(m, *s.ts); apply_cfg(m, s.cfg); train_one(m.models, m.shared_parameters, s, &r.ll); C &c = m.models.begin()->second;
        r.ok = c.training_status.status == xmm::TrainingEvent::Status::Done; if (r.ok) m.reset(); // (resetting prepares non-hierarchical classes)
        r.print = r.ok ? class_print(c) : 0;
        return memo[k] = r;
    }
    static void structure(M &m, xmm::GMM *) { (void)m; }
    static void structure(M &m, HHMM *) {
        int n = (int)m.models.size(); TsSpec s; s.dim = 1; for (int i = 0; i < n; i++) { PhraseSpec p = { i, 0, 6 }; s.ph.push_back(p); }
        HHMM h; TsData d; d.build(s); Op o; o.set("mt", 0).set("g", 1).set("st", 1).set("itmax", 1); apply_cfg(h, o); if (n) h.train(d.ts); d.drop();
        m.prior = h.prior; m.transition = h.transition; m.exit_transition = h.exit_transition;
    }
    // structure and results of a model holding these classes
    std::pair<uint64_t, uint64_t> whole(std::map<int, Source> const &cur, TsSpec const *any, Op const &cfg, uint64_t stream, int n, uint64_t gram) {
        if (!cur.empty()) any = cur.begin()->second.ts;
        std::string k = std::to_string(gram) + ":" + std::to_string(stream) + "/" + std::to_string(n) + "/" + cfg.s("win") + "/" + cfg.s("est") + "/" + cfg.s("hier") + "/" + cfg.s("cov") + "/" + cfg.s("re");
        for (auto &p : cur) k += "|" + std::to_string(p.first) + "=" + p.second.ts->key(p.first) + "#" + cfg_key(p.second.cfg, p.first) + p.second.cfg.s("re") + p.second.exit_key();
        auto it = joint.find(k); if (it != joint.end()) return it->second;
        M m(any->bi); prepare(m, *any); Op c = cfg; c.set("mt", 0); apply_cfg(m, c);
        for (auto &p : cur) train_one(m.models, m.shared_parameters, p.second, 0);
        set_shared(*m.shared_parameters, cfg); structure(m, (M *)0); if (gram) grammar(m, gram); uint64_t st = structure_print(m);
        m.reset(); uint64_t r = cur.empty() ? 0 : stream_print(m, stream, n);
        return joint[k] = std::make_pair(st, r);
    }
};

void exit_point(xmm::GMM &, std::string const &, int, float) {}
void exit_point(HHMM &m, std::string const &l, int st, float p) { m.models.at(l).addExitPoint(st, p); }

struct Gram { uint64_t seed = 0; bool maybe = false; std::set<int> labels; void off() { seed = 0; maybe = false; labels.clear(); } }; // set by the user; kept as long as the classes are the same
template <class M> struct Slot {
    Gram gram;
    M *m = 0; Listener *L = 0; Op cfg; std::map<int, Source> cur, pend; int dim = 0, din = 0; // of the data it was last trained with
    size_t pos = 0; int seen[NL], open[NL], done_runs[NL], ended_starts[NL], status[NL]; int amin = 0, amax = 0; bool bg = false, loose = false, fresh = false, stale = false; // state of the log reader
    Slot() { for (int i = 0; i < NL; i++) seen[i] = open[i] = done_runs[i] = ended_starts[i] = 0, status[i] = -1; }
};

template <class M> struct User {
    int id = 0; std::map<int, Slot<M>> slots; std::map<int, TsData> tss; std::vector<Listener *> listeners; std::vector<Witness *> dropped; Reference<M> *ref = 0; TsSpec const *any = 0;
    std::vector<Op> ops; int allocs_seen = 0;
    ~User() { SimQuiet q; for (auto l : listeners) delete l; for (auto w : dropped) delete w; }

    Slot<M> *slot(int i) { auto it = slots.find(i); return it == slots.end() || !it->second.m ? 0 : &it->second; }
    void attach(Slot<M> &s, int i) { // quiet bookkeeping around a new model object
        { SimQuiet q; s.L = new Listener(); s.L->slot = i; s.L->model = s.m; listeners.push_back(s.L); }
        if (inside_every) { SimQuiet q; M *m = s.m; Listener *L = s.L; s.L->attempts = [m, L](int l, int it) { inside(*m, *L, l, it); }; }
        for (int i = 0; i < witnesses; i++) { SimQuiet q; s.L->witnesses.push_back(new Witness(s.L)); }
        listen(s.m, s.L);
    }
    static void listen(M *m, Listener *L) {
        m->training_events.removeListeners(); m->training_events.addListener(L, &Listener::on);
        for (auto w : L->witnesses) if (!w->off) m->training_events.addListener(w, &Witness::on);
    }
    // inside an iteration event the model is in training for sure
    template <class F> static void refused(Listener &L, const char *what, F f) {
        bool threw = false; try { f(); } catch (std::exception &) { threw = true; }
        if (!threw) viol(C07, "used-in-training", "slot %d is in training but %s does not throw", L.slot, what); else sim_probe("refused-in-event");
    }
    static void refused_exit(xmm::GMM &, Listener &) {}
    static void refused_exit(HHMM &m, Listener &L) { refused(L, "adding an exit point", [&]() { m.addExitPoint(0, 0.2f); }); }
    static void inside(M &m, Listener &L, int l, int it) {
        if ((it + l) % inside_every) return; std::string name; std::vector<float> f; { SimQuiet q; xmm::SharedParameters &s = *m.shared_parameters; name = label_name(l); f = frame_of(5, it, s.bimodal.get() ? s.dimension_input.get() : s.dimension.get()); }
        switch ((it * 5 + l + inside_every) % 13) {
        case 0: refused(L, "looking up a class", [&]() { m.hasClass(name); }); break;
        case 1: refused(L, "looking up the number of a class", [&]() { m.getIndex(name); }); break;
        case 2: refused(L, "resetting it", [&]() { m.reset(); }); break;
        case 3: refused(L, "filtering", [&]() { m.filter(f); }); break;
        case 4: refused(L, "saving it", [&]() { Json::Value v = m.toJson(); }); break;
        case 5: refused(L, "copying it", [&]() { M c(m); }); break;
        case 6: { M o(false); refused(L, "assigning it", [&]() { o = m; }); break; }
        case 7: { M o(false); refused(L, "assigning to it", [&]() { m = o; }); break; }
        case 8: { M o(false); Json::Value v = o.toJson(); refused(L, "restoring into it", [&]() { m.fromJson(v); }); break; }
        case 9: refused_exit(m, L); break;
        default: { // the class itself
            if (inside_model_only) return; auto p = m.models.find(name); if (p == m.models.end()) viol(C02 | C05, "classes", "slot %d: class %s sends an event but is not there", L.slot, short_name(l)); auto &c = p->second;
            switch ((it * 3 + l) % 5) {
            case 0: refused(L, "filtering with one of its classes", [&]() { c.filter(f); }); break;
            case 1: refused(L, "resetting one of its classes", [&]() { c.reset(); }); break;
            case 2: refused(L, "saving one of its classes", [&]() { Json::Value v = c.toJson(); }); break;
            case 3: refused(L, "copying one of its classes", [&]() { typename Cls<M>::T d(c); }); break;
            default: { typename Cls<M>::T d(m.shared_parameters); refused(L, "assigning one of its classes", [&]() { d = c; }); refused(L, "assigning to one of its classes", [&]() { c = d; }); }
            }
        }
        }
    }
    void mark(Slot<M> &s, int kind, int label) { SimQuiet q; Ev v = { kind, label, 0, 0, 0 }; s.L->log.push_back(v); s.L->frozen = kind == 100 ? -1 : s.L->frozen; }

    // read the log up to now
    void audit(Slot<M> &s, bool quiescent) {
        SimQuiet q; std::vector<Ev> &v = s.L->log; int in_call = 0;
        for (; s.pos < v.size(); s.pos++) {
            Ev const e = v[s.pos]; int l = e.label; // (a copy: while a reference is trained below other threads may go on and add events)
            if (e.kind == 100) { s.seen[l]++; in_call++; continue; }
            if (e.kind == 101) { for (int i = 0; i < NL; i++) s.ended_starts[i] = s.seen[i]; continue; }
            if (e.kind == 102) continue;
            if (e.kind == (int)xmm::TrainingEvent::Status::Alldone) {
                for (int i = 0; i < NL; i++) {
                    if (s.open[i]) viol(C02, "early-alldone", "the end of the training of slot %d is announced while class %s is still training", s.L->slot, short_name(i));
                    if (s.ended_starts[i] > s.done_runs[i] && !s.loose) viol(C02, "early-alldone", "the end of the training of slot %d is announced before class %s has terminated", s.L->slot, short_name(i));
                }
                continue;
            }
            if (s.seen[l] <= s.done_runs[l]) viol(C02 | C04 | C06, "stray-event", "slot %d: class %s, which is not being trained, sends an event (status %d, iteration %d)", s.L->slot, short_name(l), e.kind, e.it);
            if (e.kind == (int)xmm::TrainingEvent::Status::Run) {
                if (e.it != s.open[l] + 1) viol(C02 | C05, "iteration-order", "slot %d: class %s reports iteration %d after iteration %d", s.L->slot, short_name(l), e.it, s.open[l]);
                if (e.it > 1000) viol(C03, "too-many-iterations", "slot %d: class %s goes on after %d iterations", s.L->slot, short_name(l), e.it);
                s.open[l] = e.it;
                auto p = s.pend.find(l);
                if (p != s.pend.end() && s.seen[l] == s.done_runs[l] + 1) {
                    Ref const &r = ref->of(p->second);
                    if ((size_t)e.it > r.ll.size() ? (r.ok || !r.ll.empty()) : memcmp(&r.ll[e.it - 1], &e.ll, 8) != 0) viol(C01 | C05, "likelihood", "slot %d: class %s reports another log-likelihood at iteration %d than when trained alone", s.L->slot, short_name(l), e.it);
                }
            } else { s.open[l] = 0; s.done_runs[l]++; s.status[l] = e.kind; }
        }
        if (!quiescent) return;
        for (int i = 0; i < NL; i++) if (!s.loose && s.seen[i] != s.done_runs[i]) viol(C02 | C03 | C04, "no-terminal-event", "slot %d: the training is over but class %s never reported its end", s.L->slot, short_name(i));
        if (s.L->alldone > s.amax) viol(C02, "alldone-count", "slot %d: the end of the training was announced %d times instead of %d", s.L->slot, s.L->alldone, s.amax);
        if (s.L->alldone < s.amin) viol(C02, "alldone-count", "slot %d: the end of the training was announced %d times instead of %d", s.L->slot, s.L->alldone, s.amin);
        for (size_t i = v.size(); i-- > 0;) { if (v[i].kind >= 100) continue; if (v[i].kind != (int)xmm::TrainingEvent::Status::Alldone && !s.loose) viol(C02, "alldone-last", "slot %d: the last event of the training is not the announcement of its end", s.L->slot); break; }
    }
    static bool hopeless(Source const &s) { bool empty = true; for (auto &q : s.ts->ph) if (q.label == s.label) { if (q.kind == 3 || q.kind == 4) return true; if (q.kind != 1 && q.len > 0) empty = false; } return empty; }
    // the training is over: which classes are there now?
    void reconcile(Slot<M> &s) {
        SimQuiet q;
        for (auto &p : s.pend) {
            int st = s.status[p.first];
            if (st == (int)xmm::TrainingEvent::Status::Done) {
                if (!p.second.exits.empty()) { // retraining a class may keep or drop its own exit points
                    Source plain = p.second; plain.exits.clear(); auto c = s.m->models.find(label_name(p.first));
                    if (c != s.m->models.end() && class_print(c->second) == ref->of(plain).print) p.second = plain; else sim_probe("exit-point-kept");
                }
                s.cur[p.first] = p.second;
                if (hopeless(p.second)) viol(C08, "bad-class-trained", "slot %d: class %s is reported as trained although its data is empty or not finite", s.L->slot, short_name(p.first));
                if (!ref->of(p.second).ok) viol(C01 | C05 | C08, "bad-class-trained", "slot %d: class %s is reported as trained although training it alone fails", s.L->slot, short_name(p.first));
            } else {
                s.cur.erase(p.first);
                if (st == (int)xmm::TrainingEvent::Status::Error) {
                    if (ref->of(p.second).ok) {
                        if (allocs_seen < (int)sim_count_of(F_ALLOC)) allocs_seen++;
                        else viol(C01 | C05 | C08, "good-class-failed", "slot %d: the training of class %s failed although training it alone succeeds and no memory ran out", s.L->slot, short_name(p.first));
                    } else sim_probe("class-failed");
                } else if (st == (int)xmm::TrainingEvent::Status::Cancel) sim_probe("class-cancelled");
            }
        }
        s.pend.clear(); s.bg = false;
        for (int i = 0; i < NL; i++) s.status[i] = -1;
    }
    std::pair<uint64_t, uint64_t> expected(Slot<M> &s, uint64_t seed, int frames) {
        if (!s.gram.seed) return ref->whole(s.cur, any, s.cfg, seed, frames, 0);
        std::set<int> now; for (auto &p : s.cur) now.insert(p.first);
        if (now.size() == s.gram.labels.size() && (s.gram.maybe || now != s.gram.labels)) { // as many classes as before, but others, or one was away for a while
            auto w = ref->whole(s.cur, any, s.cfg, seed, frames, s.gram.seed); if (structure_print(*s.m) != w.first) s.gram.off(); else { s.gram.labels = now; s.gram.maybe = false; }
        } else if (now != s.gram.labels) s.gram.off();
        if (s.gram.seed) sim_probe("grammar-kept");
        return ref->whole(s.cur, any, s.cfg, seed, frames, s.gram.seed);
    }
    void verify(Slot<M> &s, bool stream, bool loud) {
        std::string names; bool same = true; size_t n;
        {
            SimQuiet q; auto it = s.cur.begin(); (void)it; std::set<std::string> want; for (auto &p : s.cur) want.insert(label_name(p.first));
            n = s.m->models.size(); for (auto &c : s.m->models) { if (!want.count(c.first)) { same = false; names = "unexpected class " + std::string(short_name(label_index(c.first))); } }
            for (auto &p : s.cur) if (!s.m->models.count(label_name(p.first))) { same = false; names = std::string("class ") + short_name(p.first) + " is missing"; }
            if (!same) viol(RESULT | C03, "classes", "slot %d: %s (%d classes, %d expected)", s.L->slot, names.c_str(), (int)n, (int)s.cur.size());
            for (auto &p : s.cur) {
                auto &c = s.m->models.at(label_name(p.first));
                if (class_print(c) != ref->of(p.second).print) viol(RESULT, "class-parameters", "slot %d: class %s does not hold the parameters that training it alone gives", s.L->slot, short_name(p.first));
            }
        }
        if (s.m->training()) viol(C03 | C04 | C06, "still-training", "slot %d still reports to be in training", s.L->slot);
        if (s.m->trained() != !s.cur.empty()) viol(C01 | C03 | C07, "trained", "slot %d: trained() is %d with %d classes", s.L->slot, (int)s.m->trained(), (int)s.cur.size());
        uint64_t seed = 77 + s.L->slot; int frames = 3;
        std::pair<uint64_t, uint64_t> w; { SimQuiet q; w = expected(s, seed, frames); if (structure_print(*s.m) != w.first) viol(RESULT, "multi-class", "slot %d: the multi-class parameters differ from those of a model trained undisturbed", s.L->slot); }
        if (!stream || s.cur.empty()) return;
        uint64_t got; bool was_fresh = s.fresh;
        if (loud) { if (!s.fresh) s.m->reset(); got = stream_print(*s.m, seed, frames); }
        else { SimQuiet q; if (!s.fresh) s.m->reset(); got = stream_print(*s.m, seed, frames); }
        s.fresh = false;
        if (got != w.second) viol(RESULT, "results", "slot %d: recognition results differ from those of a model trained undisturbed%s", s.L->slot, was_fresh ? " (first use after training)" : "");
    }
    // called when the model said that it is no longer training
    void settle(Slot<M> &s, bool loud) {
        if (!s.bg) { audit(s, false); return; }
        audit(s, false); reconcile(s);
        try { verify(s, true, loud); } catch (std::exception &e) { viol(C07 | C03 | C01, "use-refused", "slot %d is not in training but using it throws: %s", s.L->slot, e.what()); }
        while (s.L->alldone < s.amin) {
            // the announcement may come between the two looks
            if (!has_users && !sim_threads_alive() && s.L->alldone < s.amin) viol(C02, "alldone-missing", "slot %d: the end of the training is never announced", s.L->slot);
            sim_yield();
        }
        while (!s.loose && !announced(s) && (has_users || sim_threads_alive())) sim_yield();
        audit(s, true);
    }
    // whether the last training event is the announcement of an end of training
    bool announced(Slot<M> &s) {
        for (size_t i = s.L->log.size(); i-- > 0;) { if (s.L->log[i].kind >= 100) continue; return s.L->log[i].kind == (int)xmm::TrainingEvent::Status::Alldone; }
        return true;
    }
    // a class that was asked to stop when the log had this length does not go on for long
    void stopped(Slot<M> &s, size_t from, int only) {
        if (!fair) return; int n[NL] = {}; std::vector<Ev> &v = s.L->log;
        for (size_t i = from; i < v.size(); i++) {
            int l = v[i].label; if (v[i].kind >= 100 || l < 0 || (only >= 0 && l != only)) continue;
            if (v[i].kind == (int)xmm::TrainingEvent::Status::Run) n[l]++;
            else if (v[i].kind == (int)xmm::TrainingEvent::Status::Cancel && n[l] >= 60) viol(C04, "not-stopped", "slot %d: class %s went on for %d iterations after cancelling was requested", s.L->slot, short_name(l), n[l]);
        }
    }
    void poll(Slot<M> &s, int kind) {
        if (kind == 1) while (s.m->training()) std::this_thread::sleep_for(std::chrono::microseconds(20));
        else if (kind == 2) { int a = s.amin; if (s.bg && !s.loose) { while (s.L->alldone < a) { if (!has_users && !sim_threads_alive() && s.L->alldone < a) viol(C02 | C03, "alldone-missing", "slot %d: the end of the training is never announced", s.L->slot); sim_yield(); } while (s.m->training()) sim_yield(); } else while (s.m->training()) sim_yield(); }
        else if (kind == 3) while (!s.m->trained()) { if (!s.m->training()) break; }
        else while (s.m->training()) sim_yield();
    }
    void idle(Slot<M> &s) { if (s.bg) { poll(s, 0); settle(s, false); } }
    // the training, if any, was ended by the call that just returned
    void ended(Slot<M> &s, const char *what) {
        if (s.m->training()) viol(C03 | C04 | C06, "still-training", "slot %d is in training after %s", s.L->slot, what);
        audit(s, false); reconcile(s); audit(s, true); s.L->frozen = 1;
    }

    // a call that starts training: its classes
    void announce(Slot<M> &s, std::set<int> const &ls, TsSpec const *spec) {
        SimQuiet q; audit(s, false); s.L->frozen = -1;
        for (int l : ls) { Source src; src.ts = spec; src.label = l; src.cfg = s.cfg;
            Source *old = s.pend.count(l) ? &s.pend[l] : s.cur.count(l) ? &s.cur[l] : 0;
            if (old && !old->exits.empty() && old->states() == src.states()) src.exits = old->exits;
            s.pend[l] = src; mark(s, 100, l); }
    }
    // a call that trains threw: only a failure to start a thread may cause that
    void after_throw(Slot<M> &s, uint64_t faults, std::string const &what) {
        mark(s, 101, 0);
        if (sim_count_of(F_THREAD) == faults) viol(C01 | C03 | C05 | C08, "train-refused", "slot %d: training throws: %s", s.L->slot, what.c_str());
        sim_probe("thread-failure-reported"); s.loose = true; s.amin = 0;
        poll(s, 0);
        SimQuiet q; audit(s, false); s.gram.maybe = true;
        std::map<int, Source> was = s.cur; s.cur.clear();
        for (auto &c : s.m->models) {
            int l = label_index(c.first); uint64_t p = 0; bool ok = false;
            try { p = class_print(c.second); ok = true; } catch (std::exception &) {}
            if (ok && s.pend.count(l) && ref->of(s.pend[l]).ok && ref->of(s.pend[l]).print == p) s.cur[l] = s.pend[l];
            else if (ok && was.count(l) && ref->of(was[l]).print == p) s.cur[l] = was[l];
            else viol(C08 | C03, "untrained-class-left", "slot %d: after a thread could not be started, class %s is left in the model without being trained", s.L->slot, short_name(l));
        }
        s.pend.clear(); s.bg = false; s.fresh = false;
        for (int i = 0; i < NL; i++) { s.done_runs[i] = s.seen[i]; s.open[i] = 0; s.status[i] = -1; }
        s.stale = true;
    }
    void resync(Slot<M> &s) { // after a failed start: every thread of it has finished now
        SimQuiet q; audit(s, false); for (int i = 0; i < NL; i++) { s.done_runs[i] = s.seen[i]; s.open[i] = 0; s.status[i] = -1; }
        s.amin = s.amax = s.L->alldone; s.loose = false; s.stale = false;
    }
    void full_train(Slot<M> &s, int ti) {
        if (!tss.count(ti)) return;
        TsData &d = tss[ti]; if (!d.ts) return; std::set<int> ls; { SimQuiet q; ls = d.spec.labels(); }
        if (ls.empty()) { s.m->train(d.ts); return; }
        if (s.stale) resync(s);
        uint64_t faults = sim_count_of(F_THREAD); bool thrown = false; std::string what;
        { SimQuiet q; s.dim = d.spec.dim; s.din = d.spec.din; if (s.bg) sim_count(F_CANCEL); s.amin++; s.amax++; s.cur.clear(); s.pend.clear(); s.gram.off(); announce(s, ls, &d.spec); }
        try { s.m->train(d.ts); } catch (std::exception &e) { thrown = true; SimQuiet q; what = e.what(); }
        if (thrown) { after_throw(s, faults, what); return; }
        mark(s, 101, 0); s.fresh = true; s.bg = true;
        if (s.cfg.i("mt", 1) != 2) {
            ended(s, "training it in the foreground"); verify_safe(s, true, true);
        }
    }
    void label_train(Slot<M> &s, int ti, int l) {
        if (!tss.count(ti)) return;
        TsData &d = tss[ti]; if (!d.ts) return; bool has; { SimQuiet q; has = d.spec.labels().count(l) > 0; }
        if (!has) {
            bool threw = false; try { s.m->train(d.ts, label_name(l)); } catch (std::out_of_range &) { threw = true; }
            if (!threw) viol(C05, "unknown-label", "slot %d: training a label that the training set does not have does not throw", s.L->slot);
            return;
        }
        if (s.stale) resync(s);
        bool other; { SimQuiet q; other = s.dim && (d.spec.dim != s.dim || (d.spec.bi && d.spec.din != s.din)); }
        if (other && s.loose) return;
        if (other && s.bg) { // refused as well; the class is no longer in training, the others go on
            bool kept = false; { SimQuiet q; for (auto &p : s.cur) if (p.first != l && !s.pend.count(p.first)) kept = true; } if (!kept) return;
            { SimQuiet q; audit(s, false); sim_count(F_CANCEL); s.gram.maybe = true; }
            bool threw = false; try { s.m->train(d.ts, label_name(l)); } catch (std::runtime_error &) { threw = true; }
            sim_probe("other-dimensions-joining"); if (!threw) viol(C05, "other-dimensions", "slot %d: a class with data of other dimensions does not throw", s.L->slot);
            SimQuiet q; audit(s, false); if (s.seen[l] != s.done_runs[l]) viol(C02 | C03 | C05, "no-terminal-event", "slot %d: class %s was to be trained again but never reported its end", s.L->slot, short_name(l));
            return;
        }
        if (other && !s.cur.empty()) { // refused, and nothing happens to the classes it has
            bool threw = false; try { s.m->train(d.ts, label_name(l)); } catch (std::runtime_error &) { threw = true; }
            sim_probe("other-dimensions"); if (!threw) viol(C05, "other-dimensions", "slot %d: a class with data of other dimensions does not throw", s.L->slot);
            audit(s, false); verify_safe(s, true, true); return;
        }
        { SimQuiet q; s.dim = d.spec.dim; s.din = d.spec.din; }
        uint64_t faults = sim_count_of(F_THREAD); bool thrown = false; std::string what;
        { SimQuiet q; s.amax++; if (s.bg) s.gram.maybe = true; else s.amin++; std::set<int> one; one.insert(l); announce(s, one, &d.spec); }
        try { s.m->train(d.ts, label_name(l)); } catch (std::exception &e) { thrown = true; SimQuiet q; what = e.what(); }
        if (thrown) { after_throw(s, faults, what); return; }
        mark(s, 101, 0); s.fresh = true; s.bg = true;
        if (s.cfg.i("mt", 1) != 2) { ended(s, "training a class in the foreground"); verify_safe(s, true, true); }
    }
    void verify_safe(Slot<M> &s, bool stream, bool loud) {
        try { verify(s, stream, loud); } catch (std::exception &e) { viol(C07 | C03 | C01, "use-refused", "slot %d is not in training but using it throws: %s", s.L->slot, e.what()); }
    }
    // an operation that must be refused during training and must work otherwise; true: it was carried out
    template <class F> bool attempt(Slot<M> &s, const char *what, F f) {
        bool t0 = s.m->training(), threw = false; std::string msg;
        try { f(); } catch (std::exception &e) { threw = true; SimQuiet q; msg = e.what(); }
        if (threw && !t0) viol(C07 | C03, "use-refused", "slot %d is not in training but %s throws: %s", s.L->slot, what, msg.c_str());
        if (!threw && s.m->training()) viol(C07, "used-in-training", "slot %d is in training but %s does not throw", s.L->slot, what);
        if (threw) sim_probe("refused-in-training");
        return !threw;
    }
    void place(int d, M *m, Slot<M> &src) { // a new object holding what src holds
        Slot<M> *t = 0;
        { SimQuiet q; Slot<M> n; n.m = m; n.cfg = src.cfg; n.cur = src.cur; n.dim = src.dim; n.din = src.din; n.gram = src.gram; slots[d] = n; t = &slots[d]; }
        attach(*t, d);
    }
    void destroy(int i) {
        Slot<M> *s = slot(i); if (!s) return;
        if (s->bg) sim_count(F_DESTROY);
        delete s->m; SimQuiet q; s->L->compare(true); s->L->dead = true; slots.erase(i);
    }
    void step(Op const &o) {
        const std::string &n = o.name; int mi = o.i("m"); Slot<M> *s = slot(mi);
        { SimQuiet q; sim_log("[u%d] %s\n", id, o.text().c_str()); }
        if (n == "ts") { { SimQuiet q; if (tss.count(o.i("i"))) return; tss[o.i("i")]; } TsSpec sp; { SimQuiet q; sp.from(o); } tss[o.i("i")].build(sp); { SimQuiet q; TsSpec c = sp; tss[o.i("i")].spec = c; if (!any) any = &tss[o.i("i")].spec; } return; }
        if (n == "tsdrop") { for (auto &p : slots) if (p.second.m) idle(p.second); if (tss.count(o.i("i")) && !tss[o.i("i")].lent) tss[o.i("i")].drop(); return; }
        if (n == "new") {
            if (s) return;
            M *m = new M(o.i("bi") != 0); Slot<M> *t; { SimQuiet q; Slot<M> x; x.m = m; x.cfg = o; slots[mi] = x; t = &slots[mi]; }
            attach(*t, mi); apply_cfg(*m, t->cfg); return;
        }
        if (n == "wait") { for (int k = 0; k < o.i("n", 1); k++) sim_yield(); return; }
        if (!s) return;
        if (n == "cfg") { idle(*s); { SimQuiet q; for (auto &p : o.a) if (p.first != "m" && p.first != "u") s->cfg.a[p.first] = p.second; } apply_cfg(*s->m, s->cfg); s->fresh = false; }
        else if (n == "train") full_train(*s, o.i("i"));
        else if (n == "trainl") label_train(*s, o.i("i"), o.i("l"));
        else if (n == "cancel") {
            if (s->bg) sim_count(F_CANCEL);
            int at[NL]; bool inrun[NL]; size_t mark0; { SimQuiet q; audit(*s, false); mark0 = s->L->log.size(); for (int i = 0; i < NL; i++) { at[i] = s->open[i]; inrun[i] = s->seen[i] == s->done_runs[i] + 1; } }
            if (s->stale) resync(*s);
            s->m->cancelTraining();
            if (!s->bg) { audit(*s, false); verify_safe(*s, true, true); return; }
            { SimQuiet q; audit(*s, false); if (fair) for (auto &p : s->pend) if (inrun[p.first] && s->status[p.first] == (int)xmm::TrainingEvent::Status::Done && (int)ref->of(p.second).ll.size() - at[p.first] >= 60) viol(C04, "not-stopped", "slot %d: class %s had %d iterations left when cancelling was requested and was run to completion", mi, short_name(p.first), (int)ref->of(p.second).ll.size() - at[p.first]); stopped(*s, mark0, -1); }
            ended(*s, "cancelling the training");
            if (o.i("w")) { sim_watch(s->m, sizeof(M)); for (int k = 0; k < o.i("w"); k++) sim_yield(); uint64_t h = sim_watch_hits(); sim_unwatch(); if (h) viol(C04 | C06, "late-access", "slot %d: another thread still touches the model after cancelling has returned", mi); }
            verify_safe(*s, true, true);
        } else if (n == "cancell") {
            int l = o.i("l"), at; bool inrun; size_t mark0; { SimQuiet q; audit(*s, false); mark0 = s->L->log.size(); at = s->open[l]; inrun = s->seen[l] == s->done_runs[l] + 1; }
            if (s->bg) { sim_count(F_CANCEL); s->gram.maybe = true; }
            bool alone; { SimQuiet q; alone = s->bg && s->pend.size() == 1 && s->pend.count(l); } // no other class is in training
            s->m->cancelTraining(label_name(l));
            if (alone && s->m->training()) viol(C03 | C04 | C05 | C06, "still-training", "slot %d is in training after cancelling class %s, the only one in training", mi, short_name(l));
            SimQuiet q; audit(*s, false);
            if (s->seen[l] != s->done_runs[l]) viol(C02 | C03 | C05, "no-terminal-event", "slot %d: cancelling class %s has returned but the class never reported its end", mi, short_name(l));
            auto p = s->pend.find(l);
            if (p != s->pend.end() && fair && inrun && s->status[l] == (int)xmm::TrainingEvent::Status::Done && (int)ref->of(p->second).ll.size() - at >= 60) viol(C04 | C05, "not-stopped", "slot %d: class %s had %d iterations left when cancelling was requested and was run to completion", mi, short_name(l), (int)ref->of(p->second).ll.size() - at);
            stopped(*s, mark0, l);
        } else if (n == "rm") {
            int l = o.i("l"); bool known; { SimQuiet q; known = s->cur.count(l) || s->pend.count(l); }
            bool pending = s->pend.count(l) > 0, threw = false;
            try { s->m->removeClass(label_name(l)); } catch (std::out_of_range &) { threw = true; }
            catch (std::exception &e) { viol(C03 | C05, "remove-refused", "slot %d: removing class %s throws: %s", mi, short_name(l), e.what()); }
            { SimQuiet q; audit(*s, false); }
            if (threw && known && !pending) viol(C05, "remove-refused", "slot %d: removing class %s, which is there, throws", mi, short_name(l));
            if (!threw && !known) viol(C05, "remove-unknown", "slot %d: removing class %s, which is not there, does not throw", mi, short_name(l));
            if (s->seen[l] != s->done_runs[l] && !s->stale) viol(C02 | C03 | C05, "no-terminal-event", "slot %d: class %s was removed in training but never reported its end", mi, short_name(l));
            { SimQuiet q; s->cur.erase(l); s->pend.erase(l); s->status[l] = -1; if (s->bg) s->gram.maybe = true; }
            if (!threw) s->fresh = s->bg ? s->fresh : true;
            if (!s->bg) verify_safe(*s, true, true);
        } else if (n == "clear") {
            if (s->bg) sim_count(F_CANCEL);
            s->m->clear(); if (s->stale) resync(*s);
            if (s->bg) ended(*s, "clearing it"); { SimQuiet q; s->cur.clear(); s->gram.off(); } s->fresh = true; verify_safe(*s, true, true);
        } else if (n == "destroy") destroy(mi);
        else if (n == "listen") { // another listener comes or goes between two trainings
            if (s->bg) return;
            s->m->cancelTraining(); // (nothing is being delivered any more)
            auto &ws = s->L->witnesses; int w = o.i("w"); { SimQuiet q; while ((int)ws.size() <= w) { ws.push_back(new Witness(s->L)); ws.back()->off = true; } s->L->compare(true); }
            if (!ws[w]->off) { s->m->training_events.removeListener(ws[w], &Witness::on); ws[w]->off = true; }
            else { { SimQuiet q; Witness *n = new Witness(s->L); dropped.push_back(ws[w]); ws[w] = n; } s->m->training_events.addListener(ws[w], &Witness::on); }
        }
        else if (n == "poll") { poll(*s, o.i("k")); settle(*s, o.i("loud", 1)); }
        else if (n == "waitev") { size_t k = s->L->log.size() + o.i("n", 1); while (s->m->training()) { size_t c; { SimQuiet q; c = s->L->log.size(); } if (c >= k) break; sim_yield(); } }
        else if (n == "copy" || n == "restore") {
            int d = o.i("d"); if (d == mi || slot(d)) return;
            M *m = 0; bool done;
            if (n == "copy") done = attempt(*s, "copying it", [&]() { m = new M(*s->m); });
            else done = attempt(*s, "saving it", [&]() { Json::Value v = s->m->toJson(); m = new M(v); });
            if (done && s->bg) { settle(*s, true); }
            if (done) { place(d, m, *s); verify_safe(slots[d], true, true); }
        } else if (n == "assign" || n == "load") {
            Slot<M> *t = slot(o.i("d")); if (!t || t == s) return;
            if (s->bg && t->bg) idle(*t); // one of the two may be in training
            bool done;
            if (t->bg) { idle(*s); done = attempt(*t, n == "assign" ? "assigning to it" : "restoring into it", [&]() { if (n == "assign") *t->m = *s->m; else t->m->fromJson(s->m->toJson()); }); }
            else done = attempt(*s, n == "assign" ? "assigning it" : "saving it", [&]() { if (n == "assign") *t->m = *s->m; else t->m->fromJson(s->m->toJson()); });
            if (done) {
                if (s->bg) settle(*s, true);
                if (t->bg) { audit(*t, false); reconcile(*t); while (t->L->alldone < t->amin && (has_users || sim_threads_alive())) sim_yield(); }
                { SimQuiet q; t->cur = s->cur; t->dim = s->dim; t->din = s->din; t->gram = s->gram; t->cfg = s->cfg; t->pend.clear(); t->fresh = false; t->bg = false; }
                listen(t->m, t->L);
                verify_safe(*t, true, true);
            }
        } else if (n == "try") {
            int w = o.i("w"); Slot<M> &x = *s; bool done = false;
            switch (w) {
            case 0: { bool has = false; std::string nm = label_name(o.i("l")); done = attempt(x, "looking up a class", [&]() { has = x.m->hasClass(nm); }); if (done) { bool want; if (x.bg) { audit(x, false); reconcile(x); x.bg = true; } { SimQuiet q; want = x.cur.count(o.i("l")) > 0; } if (has != want) viol(C07, "lookup", "slot %d: hasClass tells %d for class %s after the training", mi, (int)has, short_name(o.i("l"))); } break; }
            case 1: done = attempt(x, "looking up the number of a class", [&]() { x.m->getIndex(label_name(o.i("l"))); }); break;
            case 2: done = attempt(x, "resetting it", [&]() { x.m->reset(); }); if (done) x.fresh = true; break;
            case 3: { std::vector<float> f; { SimQuiet q; f = frame_of(5, 0, x.dim ? (any->bi ? x.din : x.dim) : any->bi ? any->din : any->dim); } bool use = x.bg; { SimQuiet q; use = use || !x.cur.empty(); } if (!use || !(x.fresh || x.bg)) break; done = attempt(x, "filtering", [&]() { x.m->filter(f); }); if (done) x.fresh = false; break; }
            case 4: done = attempt(x, "saving it", [&]() { Json::Value v = x.m->toJson(); }); break;
            case 5: done = attempt(x, "copying it", [&]() { M c(*x.m); }); break;
            case 6: { M other(any->bi); done = attempt(x, "assigning it", [&]() { other = *x.m; }); break; }
            case 7: if (x.bg) { M other(any->bi); Json::Value v; { SimQuiet q; v = other.toJson(); } bool t0 = x.m->training(); if (!t0) break; bool threw = false; try { x.m->fromJson(v); } catch (std::exception &) { threw = true; } if (!threw) { if (x.m->training()) viol(C07, "used-in-training", "slot %d is in training but restoring into it does not throw", mi); audit(x, false); reconcile(x); SimQuiet q; x.cur.clear(); x.gram.off(); x.stale = true; x.loose = true; apply_cfg(*x.m, x.cfg); listen(x.m, x.L); x.fresh = false; return; } sim_probe("refused-in-training"); } break;
            case 8: if (x.bg) { M other(any->bi); bool t0 = x.m->training(); if (!t0) break; bool threw = false; try { *x.m = other; } catch (std::exception &) { threw = true; } if (!threw) { if (x.m->training()) viol(C07, "used-in-training", "slot %d is in training but assigning to it does not throw", mi); audit(x, false); reconcile(x); SimQuiet q; x.cur.clear(); x.gram.off(); x.stale = true; x.loose = true; apply_cfg(*x.m, x.cfg); listen(x.m, x.L); x.fresh = false; return; } sim_probe("refused-in-training"); } break;
            }
            if (done && s->bg) settle(*s, true);
        } else if (n == "gram") { // the user sets the probabilities of the order of the classes
            bool any_class; { SimQuiet q; any_class = !s->cur.empty(); } if (s->bg || !any_class) return;
            grammar(*s->m, o.u("g", 1)); { SimQuiet q; s->gram.off(); s->gram.seed = o.u("g", 1); for (auto &p : s->cur) s->gram.labels.insert(p.first); } verify_safe(*s, true, true);
        } else if (n == "exitp") { // the user changes where a class can be left
            if (s->bg || !s->cfg.i("hier", 1)) return; int l = -1;
            { SimQuiet q; int k = o.i("l") % std::max(1, (int)s->cur.size()); for (auto &p : s->cur) if (k-- == 0) l = p.first; }
            if (l < 0) return; int st; { SimQuiet q; st = o.i("k") % 2 ? s->cur[l].states() - 1 : o.i("k") / 2 % s->cur[l].states(); s->cur[l].exits[st] = (float)o.d("p"); }
            exit_point(*s->m, label_name(l), st, (float)o.d("p")); verify_safe(*s, true, true);
        } else if (n == "reset") { if (s->bg) return; s->m->reset(); s->fresh = true; }
        else if (n == "filter") {
            if (s->bg) return; bool any_class; { SimQuiet q; any_class = !s->cur.empty(); } if (!any_class) return;
            if (!s->fresh) s->m->reset(); stream_print(*s->m, o.u("s", 3), o.i("n", 3)); s->fresh = false;
        } else if (n == "check") { if (s->bg) { if (!s->m->training()) settle(*s, true); } else verify_safe(*s, true, true); }
    }
    void finish() {
        for (auto &p : slots) if (p.second.m && p.second.bg && !p.second.loose) { poll(p.second, 0); settle(p.second, false); }
        while (!slots.empty()) destroy(slots.begin()->first);
    }
    void drop() { for (auto &p : tss) p.second.drop(); } // once no user needs the connected data any more
    void run() { for (auto &o : ops) step(o); finish(); }
};

template <class M> void run_typed(Plan const &plan) {
    uint64_t mark = sim_live_mark(); int nu = 1; Reference<M> *ref; std::vector<User<M> *> us;
    { SimQuiet q; ref = new Reference<M>(); for (auto &o : plan.ops) nu = std::max(nu, o.i("u") + 1); for (int u = 0; u < nu; u++) { us.push_back(new User<M>()); us[u]->id = u; us[u]->ref = ref; } }
    has_users = nu > 1;
    if (plan.prop == "C08") sim_alloc_faults(1);
    // what one thread prepares before the others start
    for (auto &o : plan.ops) {
        if (!o.i("pre")) { SimQuiet q; us[o.i("u")]->ops.push_back(o); continue; }
        if (o.name == "give") { // a copy of a model or a training set for another user
            User<M> &a = *us[o.i("u")], &b = *us[o.i("du")];
            if (o.has("m")) { Slot<M> *s = a.slot(o.i("m")); if (!s || b.slot(o.i("d"))) continue; a.idle(*s); M *m; if (o.i("json")) m = new M(s->m->toJson()); else m = new M(*s->m); b.place(o.i("d"), m, *s); SimQuiet q; if (!b.any) b.any = a.any; }
            else { if (!a.tss.count(o.i("i")) || b.tss.count(o.i("j"))) continue; TsData *d; { SimQuiet q; d = &b.tss[o.i("j")]; d->spec = a.tss[o.i("i")].spec; if (!b.any) b.any = &d->spec; } { SimQuiet q; a.tss[o.i("i")].lent = d->lent = true; } if (o.i("share")) { d->ts = a.tss[o.i("i")].ts; d->borrowed = true; } else d->ts = new xmm::TrainingSet(*a.tss[o.i("i")].ts); }
            continue;
        }
        us[o.i("u")]->step(o);
    }
    std::vector<std::thread> *th; { SimQuiet q; th = new std::vector<std::thread>(nu); }
    for (int u = 1; u < nu; u++) (*th)[u] = std::thread(&User<M>::run, us[u]);
    us[0]->run();
    for (int u = 1; u < nu; u++) (*th)[u].join();
    for (auto *u : us) u->drop();
    sim_alloc_faults(0);
    sim_drain();
    if (int n = sim_threads_unreleased()) viol(C06, "thread-leak", "%d training threads were never joined or detached", n);
    { SimQuiet q; for (auto *u : us) delete u; delete th; }
    if (uint64_t n = sim_live_since(mark)) viol(C06, "memory-leak", "%llu blocks of memory are never released", (unsigned long long)n);
}

// ------------------------------------------------------------------ generator
struct Gen {
    Plan &p; Rng &r; int prop; bool hmm, bi; int dim, din, nts = 0, labels; bool big, brief = false, endless = false, mixed = false, witness = false, crowd = false, lengthy = false; int user = 0;
    std::vector<TsSpec> spec;
    Gen(Plan &p_, Rng &r_) : p(p_), r(r_) { prop = atoi(p.prop.c_str() + 1); }
    Op &op(const char *n) { Op &o = p.add(n); if (user) o.set("u", user); return o; }
    void cfg_keys(Op &o, bool first) {
        if (first) o.set("mt", (prop == 1 || prop == 2 || prop == 3) ? r.n(3) : r.chance(prop == 10 ? 50 : 80) ? 2 : r.n(2));
        else if (r.chance(50)) o.set("mt", r.n(3));
        if (first || r.chance(40)) o.set("g", brief ? r.in(1, 5) : r.in(1, 2));
        if (first || r.chance(30)) o.set("cov", r.n(2));
        if (first || r.chance(30)) { if (big) o.set("itmin", 2).set("itmax", r.in(100, 140)); else if (r.chance(25)) o.set("itmin", r.in(1, 3)).set("itmax", 0).set("pc", brief && endless ? "0" : "5"); else o.set("itmin", 1).set("itmax", lengthy ? 1 : r.in(1, 5)); }
        if (first || r.chance(30)) o.set("win", r.in(1, 3));
        if (first || r.chance(30)) o.set("est", r.n(2));
        if (hmm) { if (first || r.chance(30)) o.set("st", r.in(1, 3)).set("tm", r.n(2)); if (first) o.set("hier", r.chance(75) ? 1 : 0); if (bi && (first || r.chance(30))) o.set("re", r.n(3)); }
        if (r.chance(25)) { int l = r.n(labels); char b[32]; snprintf(b, sizeof b, "%d.%d.%d.%d", r.in(1, 2), r.in(1, 3), r.n(2), r.n(2)); o.set(("o" + std::to_string(l)).c_str(), b); }
    }
    int make_ts(int want_bad) {
        if (nts && mixed && r.chance(60)) { dim = bi ? r.in(2, 4) : r.in(1, 4); din = bi ? r.in(1, dim - 1) : 0; } // recordings of different sensors
        TsSpec s; s.seed = 1 + r.n(1000); s.dim = dim; s.din = din; s.bi = bi; s.own = r.chance(80);
        int n = crowd ? r.in(labels / 2, labels) : r.in(1, labels); std::vector<int> ls; for (int i = 0; i < labels; i++) ls.push_back(i); for (int i = labels; i-- > 1;) std::swap(ls[i], ls[r.n(i + 1)]);
        for (int i = 0; i < n; i++) { int k = r.chance(30) ? 2 : 1; for (int j = 0; j < k; j++) { PhraseSpec q = { ls[i], 0, brief ? r.in(1, 6) : r.in(6, 12) }; if (r.chance(5)) q.kind = 5; s.ph.push_back(q); } }
        if (lengthy) s.ph[r.n((int)s.ph.size())].len = r.in(250, 330);
        if (want_bad) { int b = r.in(1, std::max(1, n / 2 + (r.chance(20) ? n : 0))); for (int i = 0; i < b; i++) { PhraseSpec &q = s.ph[r.n((int)s.ph.size())]; q.kind = r.in(1, 4); } }
        for (int i = (int)s.ph.size(); i-- > 1;) std::swap(s.ph[i], s.ph[r.n(i + 1)]);
        Op &o = op("ts"); o.set("i", nts).set("seed", s.seed).set("dim", dim).set("din", din).set("bi", bi).set("own", s.own).set("ph", TsSpec::list(s.ph));
        if (user_pre) o.set("pre", 1);
        spec.push_back(s); return nts++;
    }
    bool user_pre = false; std::vector<std::pair<int, int>> ts_of; // (user, index)
    void create(int m) { Op &o = op("new"); o.set("m", m).set("bi", bi); cfg_keys(o, true); if (user_pre) o.set("pre", 1); }
    void program(std::vector<int> const &ms, std::vector<int> const &ts, int len, const int *w) {
        // weights: 0 train 1 trainl 2 cancel 3 cancell 4 rm 5 clear 6 destroy+new 7 copy 8 assign 9 restore/load 10 try 11 poll 12 wait 13 waitev 14 cfg 15 filter/reset/check
        int total = 0; for (int i = 0; i < 16; i++) total += w[i];
        op("train").set("m", ms[0]).set("i", ts[0]);
        for (int k = 0; k < len; k++) {
            if (hmm && r.chance(prop == 5 || prop == 10 ? 15 : 4)) { static const char *const pr[] = { "0", "0.05", "0.3", "1" }; op("exitp").set("m", ms[r.n((int)ms.size())]).set("l", r.n(labels)).set("k", r.n(6)).set("p", pr[r.n(4)]); }
            if (hmm && r.chance(prop == 5 || prop == 10 ? 12 : 4)) op("gram").set("m", ms[r.n((int)ms.size())]).set("g", r.in(1, 100000));
            if (r.chance(prop == 6 || prop == 7 || prop == 9 ? 4 : 1)) op("tsdrop").set("i", ts[r.n((int)ts.size())]); // (a trained model does not need it)
            if ((prop == 10 && r.chance(22)) || (!brief && r.chance(3))) { // a copy, then something happens to one of the two, then the other one is looked at
                int m = ms[r.n((int)ms.size())], d = r.n(4), a, b; if (d == m) continue;
                switch (r.n(4)) { case 0: op("assign").set("m", m).set("d", d); break; case 1: op(r.chance(50) ? "restore" : "load").set("m", m).set("d", d); break; default: op("copy").set("m", m).set("d", d); }
                if (r.chance(50)) a = m, b = d; else a = d, b = m;
                for (int j = r.in(1, 3); j--;) switch (r.n(11)) {
                    case 0: case 1: case 2: case 3: { Op &o = op("cfg").set("m", a); cfg_keys(o, false); if (r.chance(50)) o.set("win", r.in(1, 6)); break; }
                    case 4: case 10: { Op &o = op("train").set("m", a).set("i", ts[r.n((int)ts.size())]); (void)o; op("wait").set("n", 1 << r.n(8)); break; }
                    case 5: op("rm").set("m", a).set("l", r.n(labels)); break;
                    case 6: op(r.chance(50) ? "clear" : "destroy").set("m", a); break;
                    case 7: if (hmm) op("exitp").set("m", a).set("l", r.n(labels)).set("k", r.n(6)).set("p", "0.3"); else op("filter").set("m", a); break;
                    case 8: if (hmm) op("gram").set("m", a).set("g", r.in(1, 100000)); break;
                    default: op(r.chance(50) ? "filter" : "reset").set("m", a);
                }
                op(r.chance(70) ? "check" : "filter").set("m", b); op("check").set("m", a); continue;
            }
            if (witness && r.chance(10)) op("listen").set("m", ms[r.n((int)ms.size())]).set("w", r.n(3));
            int x = r.n(total), c = 0; while (x >= w[c]) x -= w[c++];
            int m = ms[r.n((int)ms.size())], t = ts[r.n((int)ts.size())], l = r.n(labels);
            switch (c) {
            case 0: op("train").set("m", m).set("i", t); break;
            case 1: if (r.chance(85)) { auto &q = spec[t].ph; l = q[r.n((int)q.size())].label; } op("trainl").set("m", m).set("i", t).set("l", l); break;
            case 2: { Op &o = op("cancel").set("m", m); if (r.chance(60)) o.set("w", r.in(1, 30)); break; }
            case 3: op("cancell").set("m", m).set("l", l); break;
            case 4: op("rm").set("m", m).set("l", l); break;
            case 5: op("clear").set("m", m); break;
            case 6: op("destroy").set("m", m); if (r.chance(30)) op("wait").set("n", r.in(1, 20)); create(m); break;
            case 7: op("copy").set("m", m).set("d", r.n(4)); break;
            case 8: op("assign").set("m", m).set("d", r.n(4)); break;
            case 9: op(r.chance(50) ? "restore" : "load").set("m", m).set("d", r.n(4)); break;
            case 10: op("try").set("m", m).set("w", r.n(9)).set("l", l); break;
            case 11: op("poll").set("m", m).set("k", r.n(4)); break;
            case 12: op("wait").set("n", 1 << r.n(8)); break;
            case 13: op("waitev").set("m", m).set("n", r.in(1, 6)); break;
            case 14: { Op &o = op("cfg").set("m", m); cfg_keys(o, false); break; }
            default: { static const char *const n[] = { "filter", "reset", "check" }; op(n[r.n(3)]).set("m", m); }
            }
        }
    }
};
}
void gen_model(Plan &p, Rng &r) {
    Gen g(p, r); int prop = g.prop; p.opt.set("threads", 1);
    g.hmm = r.chance(50); g.bi = r.chance(prop == 10 ? 40 : 30); g.dim = g.bi ? r.in(2, 3) : r.in(1, 3); g.din = g.bi ? r.in(1, g.dim - 1) : 0; g.labels = r.in(2, 5); g.big = false;
    p.opt.set("hmm", g.hmm);
    if (r.chance(40)) p.opt.set("pcas", r.in(1, 4));
    if (prop == 7 && r.chance(50)) p.opt.set("inl", r.in(1, 3));
    if (r.chance(prop == 2 ? 40 : 10)) { g.witness = true; p.opt.set("wit", r.in(1, 2)); }
    g.brief = r.chance(prop == 1 ? 30 : 12);
    if (g.brief && prop == 3 && r.chance(4)) { g.endless = true; g.labels = 2; } // converges only when nothing changes any more, or never
    if (prop != 10 && !g.endless && r.chance(5)) { g.labels = r.in(6, NL); g.brief = true; g.crowd = true; } // many classes
    if (!g.crowd && !g.endless && r.chance(1)) { g.lengthy = true; g.labels = 2; g.brief = false; } // phrases of several blocks
    g.mixed = r.chance(prop == 10 ? 30 : 15);
    if ((prop == 4 || prop == 5) && r.chance(30)) { g.big = true; p.opt.set("strategy", r.chance(60) ? 6 : 4); g.labels = r.in(2, 3); if (g.bi) g.bi = false, g.din = 0; g.dim = r.in(1, 2); }
    //                        tr tl ca cl rm cl de cp as re try po wa we cf fi
    static const int W[11][16] = { {},
        /* C01 */            { 40, 15,  0,  0,  2,  2,  2,  2,  0,  0,  0, 40,  5,  5, 15,  8 },
        /* C02 */            { 30, 10, 18, 10,  3,  2,  2,  0,  0,  0,  0, 25,  8, 10, 10,  0 },
        /* C03 */            { 25, 12, 14, 10,  8,  6,  5,  2,  2,  2,  3, 15,  8, 10,  5,  2 },
        /* C04 */            { 25,  8, 45,  8,  0,  2,  0,  1,  0,  0,  0,  8, 10, 25,  3,  3 },
        /* C05 */            { 12, 35,  2, 18, 18,  0,  0,  0,  0,  0,  0, 20,  6, 12,  4,  4 },
        /* C06 */            { 30,  6,  5,  3,  3, 12, 25,  2,  6,  4,  0,  4, 10, 10,  0,  0 },
        /* C07 */            { 25,  5,  3,  2,  1,  1,  0,  5,  5,  5, 80, 20,  5, 10,  0,  5 },
        /* C08 */            { 30, 15,  5,  5,  3,  2,  2,  0,  0,  0,  2, 30,  5,  5,  5,  3 },
        /* C09 */            { 30, 10,  8,  6,  5,  4,  6,  5,  4,  5,  3, 20,  8,  5,  4,  8 },
        /* C10 */            { 25, 10,  4,  2,  5,  4,  5, 20, 15, 15,  0, 15,  3,  3, 20, 15 } };
    bool bad = prop == 8 ? r.chance(75) : prop == 2 || prop == 3 || prop == 5 || prop == 6 || prop == 9 ? r.chance(20) : false;
    if (prop < 8 && r.chance(8)) p.opt.set("pthr", r.in(2, 8));
    if (prop == 8) { if (r.chance(35)) { p.opt.set("palloc", r.in(3, 40)); if (r.chance(60)) p.opt.set("amin", 1); } if (r.chance(35)) p.opt.set("pthr", r.in(2, 8)); }
    bool multi = (prop == 9 && r.chance(60)) || (prop == 10 && r.chance(60));
    if (!multi) {
        int nm = prop == 10 ? 2 : prop == 9 ? r.in(1, 2) : r.chance(25) ? 2 : 1; std::vector<int> ms, ts;
        for (int i = 0; i < nm; i++) { g.create(i); ms.push_back(i); }
        if (prop == 6 || prop == 7 || prop == 10) for (int i = nm; i < 3; i++) { if (r.chance(40)) g.create(i); ms.push_back(i); }
        int nt = r.in(1, prop == 5 || prop == 10 ? 3 : 2); for (int i = 0; i < nt; i++) ts.push_back(g.make_ts(bad && (i == 0 || r.chance(50))));
        g.program(ms, ts, g.big ? r.in(2, 5) : r.in(2, 11), W[prop]);
        return;
    }
    // several threads, each with objects of its own; some of them are copies made beforehand
    int nu = r.in(2, 3); g.user_pre = true; g.user = 0; g.create(0); int t0 = g.make_ts(0);
    bool given = r.chance(70); int given_ts = r.chance(60) ? r.in(1, 2) : 0; // (1: a copy, 2: the same one, which the models only read)
    if (given) { g.op("train").set("m", 0).set("i", t0).set("pre", 1); g.op("poll").set("m", 0).set("pre", 1); }
    std::vector<std::vector<int>> ts(nu); ts[0].push_back(t0);
    for (int u = 1; u < nu; u++) {
        if (given) g.op("give").set("pre", 1).set("m", 0).set("d", 0).set("du", u).set("json", r.chance(25) ? 1 : 0);
        if (given_ts) { g.op("give").set("pre", 1).set("i", t0).set("j", g.nts).set("du", u).set("share", given_ts > 1 ? 1 : 0); g.spec.push_back(g.spec[t0]); ts[u].push_back(g.nts++); }
    }
    g.user_pre = false;
    for (int u = 0; u < nu; u++) {
        g.user = u; if (u && !given) g.create(0);
        if (ts[u].empty() || r.chance(40)) ts[u].push_back(g.make_ts(bad));
        std::vector<int> ms(1, 0); if (r.chance(30)) { g.create(1); ms.push_back(1); }
        g.program(ms, ts[u], r.in(1, 5), W[prop]);
    }
}
void run_model(Plan const &p, int) {
    prop_bit = 1u << atoi(p.prop.c_str() + 1); int st = p.opt.i("strategy"); fair = st == 4 || st == 6;
    witnesses = p.opt.i("wit"); inside_every = p.opt.i("inl"); inside_model_only = false; for (auto &o : p.ops) if (o.name == "trainl") inside_model_only = true; // (a class that joins changes the set of classes at the same time)
    if (p.opt.i("hmm")) run_typed<HHMM>(p); else run_typed<xmm::GMM>(p);
}
