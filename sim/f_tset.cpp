// Family "tset": histories of operations on training sets and the phrases in them (C17, part of C10).
#include "mdl.h"
#include <algorithm>
namespace {
typedef xmm::TrainingSet TS; typedef std::shared_ptr<xmm::Phrase> PP;
struct RP { // what a phrase must hold
    bool own = true, bi = false; int dim = 1, din = 0; std::vector<float> in, out; std::string label; std::vector<std::string> cols;
    int di() const { return bi ? din : dim; } int dout() const { return dim - din; }
    int lin() const { return (int)in.size() / di(); } int lout() const { return bi ? (int)out.size() / dout() : 0; } int size() const { return bi ? std::min(lin(), lout()) : lin(); }
    float v(int t, int d) const { return d < di() ? in[t * di() + d] : out[t * dout() + d - di()]; }
    float &v(int t, int d) { return d < di() ? in[t * di() + d] : out[t * dout() + d - di()]; }
};
typedef std::shared_ptr<RP> RR;
struct RS { bool own = true, bi = false; int dim = 1, din = 0; std::vector<std::string> cols; std::map<int, RR> ph; };
struct Slot { TS *t = 0; RS r; std::map<int, xmm::Phrase *> at; }; // at: its phrases after the last operation
struct Held { PP p; RR r; };
bool same(float a, float b) { return memcmp(&a, &b, 4) == 0; }
struct User {
    int id = 0, frame_no = 0; float amp = 1, base = 0; bool faults = false; std::map<int, Slot> slots; std::map<int, Held> held; std::vector<float *> mem; std::vector<Op> ops; Op const *now = 0;
    void bad(const char *cls, int i, std::string const &what) { sim_fail(cls, "training set %d: %s (after: %s)", i, what.c_str(), now ? now->text().c_str() : "-"); }
    std::vector<float> frame(int n) { std::vector<float> f(n); frame_no++; Rng r(frame_no * 31 + id); for (int d = 0; d < n; d++) f[d] = amp * (base + (float)(d + 1) + 3 * r.g()); return f; }

    void check_phrase(int i, std::string const &what, xmm::Phrase const &p, RP const &r) {
        if (p.ownMemory() != r.own || p.bimodal() != r.bi || (int)p.dimension.get() != r.dim || (r.bi && (int)p.dimension_input.get() != r.din)) bad("phrase-dimensions", i, what + " has other dimensions than it was given");
        if (p.label.get() != r.label) bad("phrase-label", i, what + " has another label than it was given");
        if (p.column_names.size() != r.cols.size() || !std::equal(r.cols.begin(), r.cols.end(), p.column_names.begin())) bad("phrase-columns", i, what + " has other column names than the training set");
        if ((int)p.size() != r.size() || (int)p.inputSize() != r.lin() || (r.bi && (int)p.outputSize() != r.lout())) bad("phrase-length", i, what + " has " + std::to_string(p.size()) + " frames, " + std::to_string(r.size()) + " were recorded");
        for (int t = 0; t < r.size(); t++) for (int d = 0; d < r.dim; d++) if (!same(p.getValue(t, d), r.v(t, d))) bad("phrase-content", i, what + " holds other data than was recorded");
    }
    void check(int i) {
        SimQuiet q; Slot &s = slots[i]; TS &t = *s.t; RS &r = s.r;
        if (t.ownMemory() != r.own || t.bimodal() != r.bi) bad("mode", i, "memory mode or modality changed");
        if ((int)t.dimension.get() != r.dim || (r.bi && (int)t.dimension_input.get() != r.din)) bad("dimensions", i, "its dimensions are not those it was given");
        if (t.column_names.get() != r.cols) bad("columns", i, "its column names are not those it was given");
        if (t.size() != r.ph.size() || t.empty() != r.ph.empty()) bad("size", i, "it counts " + std::to_string(t.size()) + " phrases, there are " + std::to_string(r.ph.size()));
        std::set<std::string> want; for (auto &p : r.ph) want.insert(p.second->label);
        if (t.labels() != want) { std::string g; for (auto &l : t.labels()) g += "'" + l + "' "; std::string w; for (auto &l : want) w += "'" + l + "' "; bad("labels", i, "its labels are " + g + "but its phrases have " + w); }
        size_t n = 0; for (auto it = t.cbegin(); it != t.cend(); ++it, n++) if (!r.ph.count(it->first) || !it->second || it->second != t.getPhrase(it->first)) bad("phrases", i, "iteration yields a phrase that is not there");
        if (n != r.ph.size()) bad("phrases", i, "iteration misses phrases");
        for (int k = -2; k < 10; k++) if ((t.getPhrase(k) != nullptr) != (r.ph.count(k) > 0)) bad("phrases", i, "phrase " + std::to_string(k) + (r.ph.count(k) ? " is missing" : " should not be there"));
        for (auto &p : r.ph) check_phrase(i, "phrase " + std::to_string(p.first), *t.getPhrase(p.first), *p.second);
        s.at.clear(); for (auto it = t.begin(); it != t.end(); ++it) s.at[it->first] = it->second.get();
        for (int l = 0; l < 8; l++) {
            std::string name = label_name(l); TS *u = t.getPhrasesOfClass(name);
            if ((u != 0) != (want.count(name) > 0)) bad("subset", i, std::string("there is ") + (u ? "a" : "no") + " subset for label '" + name + "'");
            if (!u) continue;
            size_t m = 0; for (auto &p : r.ph) if (p.second->label == name) { m++; if (u->getPhrase(p.first) != t.getPhrase(p.first)) bad("subset", i, "the subset of label '" + name + "' does not hold phrase " + std::to_string(p.first)); }
            if (u->size() != m) bad("subset", i, "the subset of label '" + name + "' holds " + std::to_string(u->size()) + " phrases instead of " + std::to_string(m));
            if (u->dimension.get() != t.dimension.get() || u->dimension_input.get() != t.dimension_input.get() || u->bimodal() != t.bimodal() || u->ownMemory() != t.ownMemory()) bad("subset-dimensions", i, "the subset of label '" + name + "' has other dimensions");
            if (u->column_names.get() != r.cols) bad("subset-columns", i, "the subset of label '" + name + "' has other column names");
        }
    }
    void check_all() { for (auto &s : slots) check(s.first); for (auto &h : held) { SimQuiet q; check_phrase(-1, "held phrase " + std::to_string(h.first), *h.second.p, *h.second.r); } }
    template <class F> bool call(int i, F f) { // false: ran out of memory
        uint64_t before = sim_count_of(F_ALLOC);
        struct Guard { bool on; Guard(bool o) : on(o) { if (on) sim_alloc_faults(1); } ~Guard() { if (on) sim_alloc_faults(0); } };
        try { Guard g(faults); f(); return true; }
        catch (std::bad_alloc &) { if (sim_count_of(F_ALLOC) == before) bad("refused", i, "out of memory without a failing allocation"); sim_probe("survived-out-of-memory"); return false; }
        catch (std::exception &e) { bad("refused", i, std::string("the operation throws: ") + e.what()); }
        return false;
    }
    // an operation ran out of memory: what is in the set now may be the old or the new state of each phrase; the next
    // operation that succeeds has to make everything consistent again
    void recover(int i, RS const &after) {
        Slot &s = slots[i]; SimQuiet q; s.t->removePhrase(99);
        std::map<int, RR> ph;
        for (auto it = s.t->begin(); it != s.t->end(); ++it) {
            if (!it->second) bad("null-phrase", i, "a failed operation left a phrase number without a phrase");
            auto a = s.r.ph.find(it->first); auto b = after.ph.find(it->first);
            auto fits = [&](RR const &r) { xmm::Phrase &p = *it->second; return p.label.get() == r->label && (int)p.size() == r->size() && (r->size() == 0 || same(p.getValue(0, 0), r->v(0, 0))); };
            bool old = a != s.r.ph.end() && s.at.count(it->first) && s.at[it->first] == it->second.get(); // the object tells them apart where the contents do not
            if (old && fits(a->second)) ph[it->first] = a->second; else if (!old && b != after.ph.end() && fits(b->second)) ph[it->first] = b->second;
            else bad("phrases", i, "a failed operation left phrase " + std::to_string(it->first) + " in a state it never had");
        }
        for (auto &p : s.r.ph) if (after.ph.count(p.first) && after.ph.at(p.first) == p.second && !ph.count(p.first)) bad("phrases", i, "a failed operation lost phrase " + std::to_string(p.first));
        s.r.ph = ph;
    }
    void put(int i, TS *t, RS const &r) { destroy(i); SimQuiet q; slots[i].t = t; slots[i].r = r; }
    void destroy(int i) { auto it = slots.find(i); if (it == slots.end()) return; delete it->second.t; SimQuiet q; slots.erase(it); }
    static RS deep(RS const &r) { RS c = r; c.ph.clear(); for (auto &p : r.ph) c.ph[p.first] = std::make_shared<RP>(*p.second); return c; }
    // phrases of this set that other sets hold, too
    bool shared_elsewhere(int i) { SimQuiet q; for (auto &p : slots[i].r.ph) for (auto &s : slots) if (s.first != i) for (auto &o : s.second.r.ph) if (o.second == p.second) return true; return false; }
    void record(xmm::Phrase &p, RR const &r, int n, int skew) {
        SimQuiet q;
        if (!r->own) { // connects new data
            n = std::max(1, n); int a = r->di(), b = r->bi ? r->dout() : 0; std::vector<float> x = frame(n * a), y = frame(std::max(1, n * b)); float *m, *k = 0; { m = new float[n * a]; if (b) k = new float[n * b]; }
            std::copy(x.begin(), x.begin() + n * a, m); if (b) std::copy(y.begin(), y.begin() + n * b, k); mem.push_back(m); if (k) mem.push_back(k);
            if (b) p.connect(m, k, n); else p.connect(m, n); r->in.assign(x.begin(), x.begin() + n * a); if (b) r->out.assign(y.begin(), y.begin() + n * b); return;
        }
        for (int k = 0; k < n; k++) {
            std::vector<float> f = frame(r->dim);
            if (!r->bi) p.record(f); else { p.record_input(std::vector<float>(f.begin(), f.begin() + r->din)); if (!(skew && k + 1 == n)) p.record_output(std::vector<float>(f.begin() + r->din, f.end())); }
            r->in.insert(r->in.end(), f.begin(), f.begin() + r->di()); if (r->bi && !(skew && k + 1 == n)) r->out.insert(r->out.end(), f.begin() + r->di(), f.end());
        }
    }
    RR blank(RS const &s, std::string const &label) { RR r = std::make_shared<RP>(); r->own = s.own; r->bi = s.bi; r->dim = s.dim; r->din = s.din; r->label = label; r->cols = s.cols; return r; }
    bool close(double a, double b, double scale) { return std::fabs(a - b) <= 1e-4 * scale + 1e-5 * std::min(1.f, amp); }
    // statistics over the recorded frames; false: there are none
    bool reference(RS const &r, std::vector<double> &mean, std::vector<double> &sd, std::vector<double> &lo, std::vector<double> &hi, double &scale) {
        mean.assign(r.dim, 0); sd = mean; lo.assign(r.dim, 1e300); hi.assign(r.dim, -1e300); int n = 0; scale = amp;
        for (auto &p : r.ph) { n += p.second->size(); for (int t = 0; t < p.second->size(); t++) for (int d = 0; d < r.dim; d++) mean[d] += p.second->v(t, d), scale = std::max(scale, (double)std::fabs(p.second->v(t, d))); }
        if (!n) return false;
        for (auto &m : mean) m /= n;
        for (auto &p : r.ph) for (int t = 0; t < p.second->size(); t++) for (int d = 0; d < r.dim; d++) sd[d] += (p.second->v(t, d) - mean[d]) * (p.second->v(t, d) - mean[d]);
        for (auto &x : sd) x = std::sqrt(x / n);
        for (auto &p : r.ph) for (int d = 0; d < r.dim; d++) for (int t = 0; t < (d < p.second->di() ? p.second->lin() : p.second->lout()); t++) { lo[d] = std::min(lo[d], (double)p.second->v(t, d)); hi[d] = std::max(hi[d], (double)p.second->v(t, d)); }
        return true;
    }
    void step(Op const &o) {
        now = &o; std::string const &n = o.name; int i = o.i("s"), d = o.i("d"), x = o.i("x"), h = o.i("h"); std::string label = label_name(o.i("l")); { SimQuiet q; sim_log("[u%d] %s\n", id, o.text().c_str()); }
        if (n == "new") {
            RS r; { SimQuiet q; r.own = o.i("own", 1) != 0; r.bi = o.i("bi") != 0; r.dim = r.bi ? std::max(2, o.i("dim", 2)) : std::max(1, o.i("dim", 1)); r.din = r.bi ? std::min(std::max(1, o.i("din", 1)), r.dim - 1) : 0; r.cols.resize(r.dim); }
            TS *t = new TS(r.own ? xmm::MemoryMode::OwnMemory : xmm::MemoryMode::SharedMemory, r.bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
            t->dimension.set(r.dim); if (r.bi) t->dimension_input.set(r.din);
            put(i, t, r); return check_all();
        }
        auto it = slots.find(i); if (it == slots.end()) return; Slot &s = it->second; TS &t = *s.t;
        if (n == "destroy") { destroy(i); return check_all(); }
        if (n == "add" || n == "addc" || n == "addp") {
            RS after; { SimQuiet q; after = s.r; } bool ok;
            if (n == "add") { SimQuiet q; after.ph[x] = blank(s.r, label); }
            else {
                auto k = held.find(h); if (k == held.end()) return; RP &p = *k->second.r; if (p.own != s.r.own || p.bi != s.r.bi || p.dim != s.r.dim || p.din != s.r.din || p.cols != s.r.cols) return;
                SimQuiet q; after.ph[x] = n == "addp" ? k->second.r : std::make_shared<RP>(p);
            }
            if (n == "add") ok = call(i, [&]() { t.addPhrase(x, label); }); else if (n == "addc") ok = call(i, [&]() { t.addPhrase(x, *held[h].p); }); else ok = call(i, [&]() { t.addPhrase(x, held[h].p); });
            if (!ok) recover(i, after); else { SimQuiet q; s.r = after; }
        } else if (n == "hold") { PP p = t.getPhrase(x); if (!p) return; SimQuiet q; held[h].p = p; held[h].r = s.r.ph[x]; }
        else if (n == "make") { // a phrase of the user that fits this set
            RR r; { SimQuiet q; r = blank(s.r, label); }
            PP p = std::make_shared<xmm::Phrase>(s.r.own ? xmm::MemoryMode::OwnMemory : xmm::MemoryMode::SharedMemory, s.r.bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
            p->dimension.set(s.r.dim); if (s.r.bi) p->dimension_input.set(s.r.din); p->column_names = s.r.cols; p->label.set(label); record(*p, r, o.i("n"), 0); SimQuiet q; held[h].p = p; held[h].r = r;
        } else if (n == "drop") { held.erase(h); }
        else if (n == "rec") { PP p = t.getPhrase(x); if (!p) return; record(*p, s.r.ph[x], o.i("n", 3), o.i("skew")); }
        else if (n == "rech") { auto k = held.find(h); if (k == held.end()) return; record(*k->second.p, k->second.r, o.i("n", 3), 0); }
        else if (n == "wipe") { PP p = t.getPhrase(x); if (!p || !s.r.own) return; p->clear(); SimQuiet q; s.r.ph[x]->in.clear(); s.r.ph[x]->out.clear(); }
        else if (n == "relabel") { // through the set, a subset, or a phrase held by the user
            PP p; RR r; int w = o.i("w");
            if (w == 2) { auto k = held.find(h); if (k == held.end()) return; SimQuiet q; p = k->second.p; r = k->second.r; }
            else { if (!s.r.ph.count(x)) return; { SimQuiet q; r = s.r.ph[x]; } if (w == 1) { TS *u = t.getPhrasesOfClass(r->label); if (!u) bad("subset", i, "a subset is missing"); p = u->getPhrase(x); } else p = t.getPhrase(x); }
            bool ok = call(i, [&]() { p->label.set(label); });
            { SimQuiet q; r->label = p->label.get(); }
            if (!ok) { for (auto &z : slots) recover(z.first, z.second.r); }
            if (ok && r->label != label) bad("phrase-label", i, "a phrase does not take its label");
        } else if (n == "over") { // assigns one phrase to another
            if (!s.r.ph.count(x)) return; auto k = held.find(h); if (k == held.end()) return; RR a = s.r.ph[x], b = k->second.r; if (a == b || a->own != b->own || a->dim != b->dim || a->din != b->din || a->bi != b->bi || a->cols != b->cols) return;
            *t.getPhrase(x) = *k->second.p; SimQuiet q; *a = *b;
        } else if (n == "rm") { RS after; { SimQuiet q; after = s.r; after.ph.erase(x); } if (call(i, [&]() { t.removePhrase(x); })) { SimQuiet q; s.r = after; } else recover(i, after); }
        else if (n == "rmc") {
            RS after; { SimQuiet q; if (o.i("alias") && !t.labels().empty()) label = *t.labels().begin(); after = s.r; for (auto p = after.ph.begin(); p != after.ph.end();) if (p->second->label == label) p = after.ph.erase(p); else ++p; }
            bool ok = o.i("alias") && !t.labels().empty() ? call(i, [&]() { t.removePhrasesOfClass(*t.labels().begin()); }) : call(i, [&]() { t.removePhrasesOfClass(label); });
            if (ok) { SimQuiet q; s.r = after; } else recover(i, after);
        } else if (n == "clear") { t.clear(); SimQuiet q; s.r.ph.clear(); }
        else if (n == "dims") {
            if (shared_elsewhere(i)) return; int dim = std::max(s.r.bi ? 2 : 1, o.i("dim", 2)), din = s.r.bi ? std::min(std::max(1, o.i("din", 1)), dim - 1) : 0;
            if (s.r.bi && din < s.r.din && !o.i("late")) t.dimension_input.set(din); t.dimension.set(dim); if (s.r.bi) t.dimension_input.set(din);
            SimQuiet q; s.r.dim = dim; s.r.din = din; s.r.cols.resize(dim); for (auto &p : s.r.ph) { p.second->dim = dim; p.second->din = din; p.second->in.clear(); p.second->out.clear(); p.second->cols.resize(dim); }
        } else if (n == "cols") {
            if (shared_elsewhere(i)) return; std::vector<std::string> c; for (int k = 0; k < s.r.dim; k++) c.push_back("c" + std::to_string(k * o.i("k", 1)) + (k % 2 ? "" : " with a name too long to be stored in place"));
            t.column_names.set(c); SimQuiet q; s.r.cols = c; for (auto &p : s.r.ph) p.second->cols = c;
        } else if (n == "copy") { if (i == d) return; TS *c = 0; if (call(i, [&]() { c = new TS(t); })) { RS r; { SimQuiet q; r = deep(s.r); } put(d, c, r); } }
        else if (n == "assign") {
            auto k = slots.find(d); if (k == slots.end()) return; RS r; { SimQuiet q; r = i == d ? s.r : deep(s.r); }
            *k->second.t = t; SimQuiet q; k->second.r = r;
        } else if (n == "assignsub") { // becomes (a copy of) a subset, possibly one of its own
            auto k = slots.find(d); if (k == slots.end()) return; TS *u = t.getPhrasesOfClass(label); if (!u) return;
            RS r; { SimQuiet q; r = s.r; for (auto p = r.ph.begin(); p != r.ph.end();) if (p->second->label != label) p = r.ph.erase(p); else ++p; r = deep(r); }
            *k->second.t = *u; SimQuiet q; k->second.r = r;
        } else if (n == "restore" || n == "load") {
            if (!s.r.own) return; std::string text = Json::FastWriter().write(t.toJson()); Json::Value v; { SimQuiet q; Json::Reader().parse(text, v); } sim_count(F_RESTART);
            RS r; { SimQuiet q; r = deep(s.r); for (auto &p : r.ph) { RP &a = *p.second; int z = a.size(); a.in.resize(z * a.di()); if (a.bi) a.out.resize(z * a.dout()); } }
            if (n == "load") { auto k = slots.find(d); if (k == slots.end()) return; k->second.t->fromJson(v); SimQuiet q; k->second.r = r; } else { TS *c = new TS(v); put(d, c, r); }
            if (slots.count(d)) { SimQuiet q; std::string again = Json::FastWriter().write(slots[d].t->toJson()); if (again != text) bad("saved-again", d, "a restored training set is saved differently"); }
        } else if (n == "save") { if (!s.r.ph.empty()) t.toJson(); }
        else if (n == "stats") {
            std::vector<double> m, sd, lo, hi; double sc; { SimQuiet q; if (!reference(s.r, m, sd, lo, hi, sc)) return; }
            std::vector<float> a = t.mean(), b = t.standardDeviation(); std::vector<std::pair<float, float>> c = t.minmax(); SimQuiet q;
            if ((int)a.size() != s.r.dim || (int)b.size() != s.r.dim || (int)c.size() != s.r.dim) bad("statistics", i, "statistics have another number of dimensions");
            for (int k = 0; k < s.r.dim; k++) {
                if (!close(a[k], m[k], sc)) bad("statistics", i, "the mean is not that of the recorded frames"); if (!close(b[k], sd[k], sc)) bad("statistics", i, "the standard deviation is not that of the recorded frames");
                if (c[k].first != (float)lo[k] || c[k].second != (float)hi[k]) bad("statistics", i, "minimum and maximum are not those of the recorded frames");
            }
            for (auto &p : s.r.ph) { // each phrase alone
                RP &r = *p.second; if (!r.size()) continue; RS one; one.dim = r.dim; one.din = r.din; one.bi = r.bi; one.ph[0] = p.second; reference(one, m, sd, lo, hi, sc); std::vector<float> e = t.getPhrase(p.first)->mean(), f = t.getPhrase(p.first)->standardDeviation(); auto g = t.getPhrase(p.first)->minmax();
                for (int k = 0; k < r.dim; k++) { if (!close(e[k], m[k], sc) || !close(f[k], sd[k], sc)) bad("statistics", i, "statistics of a phrase are not those of its frames"); if (r.lin() == r.size() && (!r.bi || r.lout() == r.size()) && (g[k].first != (float)lo[k] || g[k].second != (float)hi[k])) bad("statistics", i, "minimum and maximum of a phrase are not those of its frames"); }
            }
        } else if (n == "rescale" || n == "normalize") {
            std::vector<double> m, sd, lo, hi; double sc; if (!s.r.own) return; { SimQuiet q; if (!reference(s.r, m, sd, lo, hi, sc)) return; for (auto v : sd) if (v < 1e-3 * sc) return; }
            std::vector<float> off(s.r.dim), g(s.r.dim); for (int k = 0; k < s.r.dim; k++) { off[k] = 0.25f * (float)k + 0.5f; g[k] = k % 2 ? 0.5f : 1.5f; }
            if (n == "rescale") t.rescale(off, g); else t.normalize();
            SimQuiet q;
            std::set<RP *> u; // a phrase can be in the set under several numbers
            for (auto &p : s.r.ph) if (u.insert(p.second.get()).second) for (int k = 0; k < p.second->size(); k++) for (int c = 0; c < s.r.dim; c++) {
                double want = n == "rescale" ? ((double)p.second->v(k, c) - off[c]) * g[c] : (p.second->v(k, c) - m[c]) / sd[c]; float got = t.getPhrase(p.first)->getValue(k, c);
                if (!close(got, want, n == "rescale" ? std::max(sc, 10.0) : 10 * sc / *std::min_element(sd.begin(), sd.end()))) bad("rescaled", i, "phrase " + std::to_string(p.first) + " was not rescaled correctly"); p.second->v(k, c) = got;
            }
        }
        check_all();
    }
    void finish() { held.clear(); while (!slots.empty()) destroy(slots.begin()->first); for (float *m : mem) delete[] m; SimQuiet q; mem.clear(); mem.shrink_to_fit(); }
    void run() { for (auto &o : ops) step(o); finish(); }
};
}
void gen_tset(Plan &p, Rng &r) {
    bool multi = p.prop == "C10" || p.prop == "C09"; int nu = !multi || (p.prop == "C10" && r.chance(35)) ? 1 : r.in(2, 3); p.opt.set("threads", nu > 1 ? 1 : 0);
    if (r.chance(35)) { static const char *const amp[] = { "0.0001", "0.01", "1000", "1e-06" }; p.opt.set("amp", amp[r.n(4)]); }
    if (r.chance(25)) { static const int base[] = { -20, 20, -100 }; p.opt.set("base", base[r.n(3)]); }
    bool large = multi && r.chance(12); // long recordings in what is copied
    if (!multi && r.chance(35)) p.opt.set("palloc", r.in(3, 60)).set("awork", 0).set("amin", r.chance(70) ? 33 : 64);
    bool bi = r.chance(40); int dim = bi ? r.in(2, 4) : r.in(1, 3), din = bi ? r.in(1, dim - 1) : 0, own = r.chance(85), labels = r.in(2, 5);
    auto fresh = [&](Op &o, int s) { o.set("s", s).set("own", own).set("bi", bi).set("dim", dim).set("din", din); };
    fresh(p.add("new").set("pre", 1), 0); int np = r.in(0, 4);
    for (int k = 0; k < np; k++) { p.add("add").set("pre", 1).set("s", 0).set("x", r.n(4)).set("l", r.n(labels)); p.add("rec").set("pre", 1).set("s", 0).set("x", r.n(4)).set("n", large ? r.in(900, 2600) : r.in(1, 5)); }
    if (multi) for (int u = 1; u < nu; u++) p.add("give").set("pre", 1).set("s", 0).set("d", 0).set("du", u).set("k", r.n(4));
    for (int u = 0; u < nu; u++) {
        int len = multi ? r.in(2, 10) : r.in(4, 30);
        for (int k = 0; k < len; k++) {
            Op *o = 0; int s = r.chance(60) ? 0 : r.n(3);
            switch (r.n(34)) {
            case 0: o = &p.add("new"); fresh(*o, s); if (r.chance(20)) o->set("own", r.n(2)); break;
            case 1: case 2: case 3: case 4: case 5: o = &p.add("add"); break;
            case 6: case 7: o = &p.add("addc"); break;
            case 8: case 9: case 10: o = &p.add("addp"); break;
            case 11: case 12: o = &p.add("hold"); break;
            case 13: case 14: o = &p.add("make"); o->set("n", r.n(5)); break;
            case 15: o = &p.add("drop"); break;
            case 16: case 17: o = &p.add(r.chance(70) ? "rec" : "rech"); o->set("n", r.chance(88) ? r.in(1, 6) : r.chance(65) ? 257 : r.in(500, 2600)).set("skew", r.chance(20) ? 1 : 0); break;
            case 18: case 19: case 20: case 21: o = &p.add("relabel"); o->set("w", r.n(3)); break;
            case 22: o = &p.add(r.chance(70) ? "over" : "wipe"); break;
            case 23: case 24: o = &p.add("rm"); break;
            case 25: o = &p.add("rmc"); o->set("alias", r.chance(40) ? 1 : 0); break;
            case 26: o = &p.add(r.chance(60) ? "clear" : "destroy"); break;
            case 27: o = &p.add("dims"); o->set("dim", r.in(1, 4)).set("din", r.in(1, 3)).set("late", r.n(2)); break;
            case 28: o = &p.add("cols"); o->set("k", r.in(1, 3)); break;
            case 29: o = &p.add("copy"); break;
            case 30: o = &p.add(r.chance(60) ? "assign" : "assignsub"); break;
            case 31: o = &p.add(r.chance(50) ? "restore" : "load"); break;
            case 32: o = &p.add(r.chance(60) ? "stats" : "save"); break;
            default: o = &p.add(r.chance(50) ? "rescale" : "normalize");
            }
            o->set("s", s).set("d", r.n(3)).set("x", r.chance(95) ? r.n(5) : r.in(-1, 8)).set("h", r.n(3)).set("l", r.n(labels)); if (u) o->set("u", u);
        }
    }
}
void run_tset(Plan const &plan, int) {
    int nu = 1; std::vector<User *> us;
    { SimQuiet q; for (auto &o : plan.ops) nu = std::max(nu, std::max(o.i("u"), o.i("du")) + 1); for (int u = 0; u < nu; u++) { us.push_back(new User()); us[u]->id = u; } }
    us[0]->faults = plan.prop == "C17"; for (auto *u : us) u->amp = (float)plan.opt.d("amp", 1), u->base = (float)plan.opt.i("base");
    for (auto &o : plan.ops) {
        if (!o.i("pre")) { SimQuiet q; us[o.i("u")]->ops.push_back(o); continue; }
        if (o.name == "give") {
            auto it = us[0]->slots.find(o.i("s")); if (it == us[0]->slots.end()) continue; Slot &s = it->second; RS r; { SimQuiet q; r = User::deep(s.r); } if (!s.r.own) continue;
            bool even = true; for (auto &p : s.r.ph) if (p.second->bi && p.second->lin() != p.second->lout()) even = false;
            TS *t; int k = o.i("k"); if (k == 0 || (k == 2 && !even)) t = new TS(*s.t); else if (k == 1) { t = new TS(); *t = *s.t; } else if (k == 2) t = new TS(s.t->toJson());
            else { t = new TS(s.r.own ? xmm::MemoryMode::OwnMemory : xmm::MemoryMode::SharedMemory, s.r.bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal); t->dimension.set(s.r.dim); if (s.r.bi) t->dimension_input.set(s.r.din); t->column_names.set(s.r.cols); for (auto p = s.t->begin(); p != s.t->end(); ++p) t->addPhrase(p->first, *p->second); }
            us[o.i("du")]->put(o.i("d"), t, r); continue;
        }
        us[0]->step(o);
    }
    std::vector<std::thread> *th; { SimQuiet q; th = new std::vector<std::thread>(nu); }
    for (int u = 1; u < nu; u++) (*th)[u] = std::thread(&User::run, us[u]);
    us[0]->run();
    for (int u = 1; u < nu; u++) (*th)[u].join();
    SimQuiet q; for (auto u : us) delete u; delete th;
}
