// Family "phrase": recordings from two independent streams, copies, assignments, connected data (C16, part of C10).
#include "mdl.h"
#include <algorithm>
#include <queue>
namespace {
struct Buf { float *mem = 0; std::vector<float> want; int refs = 0; };
struct PRef { // what the phrase must hold
    bool own = true, bi = false; int dim = 1, din = 0; std::vector<float> in, out; Buf *bin = 0, *bout = 0; int nin = 0, nout = 0; // connected: lengths in frames
    int label = 6; std::vector<std::string> cols;
    int di() const { return bi ? din : dim; } int dout() const { return dim - din; }
    int len_in() const { return own ? (int)in.size() / di() : nin; } int len_out() const { return !bi ? 0 : own ? (int)out.size() / dout() : nout; }
    int size() const { return bi ? std::min(len_in(), len_out()) : len_in(); }
    float vin(int t, int d) const { return own ? in[t * di() + d] : bin->want[t * di() + d]; }
    float vout(int t, int d) const { return own ? out[t * dout() + d] : bout->want[t * dout() + d]; }
    void wipe() { in.clear(); out.clear(); bin = bout = 0; nin = nout = 0; }
};
struct Slot { xmm::Phrase *p = 0; PRef r; };
bool same(float a, float b) { return memcmp(&a, &b, 4) == 0; }
struct User {
    int id = 0; std::map<int, Slot> slots; std::vector<Buf *> bufs; std::vector<Op> ops; int frame_no = 0; bool faults = false;
    void bad(const char *cls, int i, const char *what, Op const *o) { sim_fail(cls, "phrase %d: %s (after: %s)", i, what, o ? o->text().c_str() : "-"); }
    std::vector<float> frame(int n) { std::vector<float> f(n); frame_no++; for (int d = 0; d < n; d++) f[d] = (float)(id * 100000 + frame_no) + 0.01f * (float)d; return f; }

    void check(int i, Op const *o) {
        Slot &s = slots[i]; xmm::Phrase &p = *s.p; PRef &r = s.r; char b[300];
        if (p.ownMemory() != r.own || p.bimodal() != r.bi) bad("mode", i, "memory mode or modality changed", o);
        if ((int)p.dimension.get() != r.dim || (int)p.dimension_input.get() != (r.bi ? r.din : 0)) bad("dimensions", i, "its dimensions are not those it was given", o);
        if ((int)p.size() != r.size() || (int)p.inputSize() != r.len_in() || (r.bi && (int)p.outputSize() != r.len_out())) {
            snprintf(b, sizeof b, "its length is %u (input %u, output %u), %d (%d, %d) frames were recorded", p.size(), p.inputSize(), p.outputSize(), r.size(), r.len_in(), r.len_out()); bad("length", i, b, o);
        }
        if (p.size() > 0 && p.empty()) bad("empty", i, "it has frames and says it is empty", o);
        if (r.len_in() == 0 && r.len_out() == 0 && r.own && !p.empty()) bad("empty", i, "it has no frame and says it is not empty", o);
        if (p.label.get() != label_name(r.label)) bad("label", i, "its label changed", o);
        if (p.column_names.size() != r.cols.size() || !std::equal(r.cols.begin(), r.cols.end(), p.column_names.begin())) bad("columns", i, "its column names changed", o);
        for (int m = 0; m < (r.bi ? 2 : 1); m++) {
            int n = m ? r.len_out() : r.len_in(), w = m ? r.dout() : r.di();
            for (int t = 0; t < n; t++) {
                if (n > 64 && t > 20 && t < n - 20 && (t + frame_no) % 7) continue;
                for (int d = 0; d < w; d++) {
                    float v = 0; try { v = p.getValue(t, m * r.di() + d); } catch (std::exception &) { bad("read-refused", i, "a recorded frame cannot be read", o); }
                    float want = m ? r.vout(t, d) : r.vin(t, d);
                    if (!same(v, want)) { snprintf(b, sizeof b, "frame %d, dimension %d is %.9g, recorded was %.9g", t, m * r.di() + d, v, want); bad("content", i, b, o); }
                }
                if (t < r.size()) {
                    float *q = 0; try { q = !r.bi ? p.getPointer(t) : m ? p.getPointer_output(t) : p.getPointer_input(t); } catch (std::exception &) { bad("read-refused", i, "no pointer to a recorded frame", o); }
                    for (int d = 0; d < w; d++) if (!same(q[d], m ? r.vout(t, d) : r.vin(t, d))) bad("content", i, "the pointer to a frame leads to other data", o);
                    if (!r.own && q != (m ? r.bout->mem + t * w : r.bin->mem + t * w)) bad("in-place", i, "connected data is not read in place", o);
                }
            }
            bool threw = false; try { p.getValue(n, m * r.di()); } catch (std::out_of_range &) { threw = true; }
            if (!threw) bad("read-beyond", i, "reading beyond the last frame is not refused", o);
            threw = false; try { p.getValue(n + 100000, m * r.di()); } catch (std::out_of_range &) { threw = true; }
            if (!threw) bad("read-beyond", i, "reading beyond the last frame is not refused", o);
            threw = false; try { if (!r.bi) p.getPointer(r.size()); else if (m) p.getPointer_output(r.size()); else p.getPointer_input(r.size()); } catch (std::exception &) { threw = true; }
            if (!threw) bad("read-beyond", i, "a pointer beyond the last frame is handed out", o);
        }
        bool threw = false; try { p.getValue(0, r.dim); } catch (std::out_of_range &) { threw = true; }
        if (!threw) bad("read-beyond", i, "reading beyond the last dimension is not refused", o);
        for (Buf *x : bufs) for (size_t k = 0; k < x->want.size(); k++) if (!same(x->mem[k], x->want[k])) bad("external", i, "connected external data was overwritten", o);
    }
    void check_all(Op const *o) { for (auto &s : slots) check(s.first, o); }
    // a call that may only fail for lack of memory; false: it did fail
    template <class F> bool call(int i, Op const &o, F f) {
        uint64_t before = sim_count_of(F_ALLOC);
        struct Guard { bool on; Guard(bool o) : on(o) { if (on) sim_alloc_faults(1); } ~Guard() { if (on) sim_alloc_faults(0); } };
        try { Guard g(faults); f(); return true; }
        catch (std::bad_alloc &) { if (sim_count_of(F_ALLOC) == before) bad("refused", i, "out of memory without a failing allocation", &o); sim_probe("survived-out-of-memory"); return false; }
        catch (std::exception &e) { std::string w = std::string("refused: ") + e.what(); bad("refused", i, w.c_str(), &o); }
        return false;
    }
    template <class F> void refuse(int i, Op const &o, F f) {
        bool threw = false; try { f(); } catch (std::bad_alloc &) { threw = sim_count_of(F_ALLOC) > 0; } catch (std::exception &) { threw = true; }
        if (!threw) bad("accepted", i, "an impossible operation is accepted", &o);
        sim_probe("refused");
    }
    Buf *buffer(int floats) { Buf *b; { SimQuiet q; b = new Buf(); } b->mem = new float[floats]; SimQuiet q; b->want = frame(floats); for (int k = 0; k < floats; k++) b->mem[k] = b->want[k]; bufs.push_back(b); return b; }
    void put(int i, xmm::Phrase *p, PRef const &r) { Slot &s = slots[i]; s.p = p; s.r = r; }
    void destroy(int i) { auto it = slots.find(i); if (it == slots.end()) return; delete it->second.p; slots.erase(it); }
    void rec(Slot &s, int i, Op const &o, int stream) { // 0 both, 1 input, 2 output
        PRef &r = s.r; std::vector<float> f = frame(stream == 0 ? r.dim : stream == 1 ? r.din : r.dout());
        bool ok = call(i, o, [&]() { if (stream == 0) s.p->record(f); else if (stream == 1) s.p->record_input(f); else s.p->record_output(f); });
        if (!ok) return;
        SimQuiet q;
        if (!r.bi) r.in.insert(r.in.end(), f.begin(), f.end());
        else if (stream == 0) { r.in.insert(r.in.end(), f.begin(), f.begin() + r.din); r.out.insert(r.out.end(), f.begin() + r.din, f.end()); }
        else (stream == 1 ? r.in : r.out).insert((stream == 1 ? r.in : r.out).end(), f.begin(), f.end());
    }
    // frames of two devices travel over a network that loses, duplicates, delays and reorders them
    void net(Slot &s, int i, Op const &o) {
        Rng n(o.u("seed", 1)); struct Msg { int64_t at; int stream; int k; }; std::vector<Msg> q;
        for (int stream = 1; stream <= 2; stream++) {
            int cnt = o.i(stream == 1 ? "nin" : "nout"); int64_t per = 10 + n.n(10), last = 0;
            for (int k = 0; k < cnt; k++) {
                int copies = 1; if (n.chance(o.i("loss"))) { copies = 0; sim_count(F_DROP); } else if (n.chance(o.i("dup"))) { copies = 2; sim_count(F_DUP); }
                for (int c = 0; c < copies; c++) {
                    int64_t at = k * per + n.n(4); if (n.chance(o.i("delay"))) { at += n.n(40 * (int)per); sim_count(F_DELAY); }
                    if (at < last) sim_count(F_REORDER); last = at; Msg m = { at, stream, k }; q.push_back(m);
                }
            }
        }
        std::stable_sort(q.begin(), q.end(), [](Msg const &a, Msg const &b) { return a.at < b.at; });
        for (auto &m : q) rec(s, i, o, m.stream);
    }
    void step(Op const &o) {
        std::string const &n = o.name; int i = o.i("p"), d = o.i("d"); sim_log("[u%d] %s\n", id, o.text().c_str());
        if (n == "new") {
            destroy(i); bool own = o.i("own", 1) != 0, bi = o.i("bi") != 0; xmm::Phrase *p = 0;
            if (!call(i, o, [&]() { p = new xmm::Phrase(own ? xmm::MemoryMode::OwnMemory : xmm::MemoryMode::SharedMemory, bi ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal); })) return;
            PRef r; r.own = own; r.bi = bi; r.dim = bi ? 2 : 1; r.din = bi ? 1 : 0; put(i, p, r);
            slots[i].r.cols = p->column_names;
        }
        if (n == "destroy") { destroy(i); return check_all(&o); }
        auto it = slots.find(i); if (it == slots.end()) return; Slot &s = it->second; PRef &r = s.r;
        if (n == "dims" || n == "new") {
            int dim = o.i("dim", r.dim), din = r.bi ? o.i("din", r.din) : 0; if (r.bi) { dim = std::max(dim, 2); din = std::min(std::max(din, 1), dim - 1); }
            bool ok = call(i, o, [&]() { if (r.bi && din < r.din && r.din >= dim) s.p->dimension_input.set(din); s.p->dimension.set(dim); if (r.bi) s.p->dimension_input.set(din); });
            if (!ok) { // only the new column names need memory
                r.dim = s.p->dimension.get(); r.din = s.p->dimension_input.get();
                if (s.p->size() || s.p->inputSize()) bad("length", i, "frames of another dimension are left", &o);
                s.p->column_names = std::vector<std::string>(); try { s.p->column_names.resize(r.dim); } catch (std::bad_alloc &) {}
                if (r.bi) { int w = std::min(std::max((int)s.p->dimension_input.get(), 1), r.dim - 1); try { s.p->dimension_input.set(w); } catch (std::exception &) {} r.din = s.p->dimension_input.get(); if (r.din != w) { destroy(i); return; } }
                r.wipe(); r.cols = s.p->column_names; return;
            }
            r.dim = dim; r.din = din; r.wipe(); r.cols.resize(dim);
        } else if (n == "rec") { for (int k = 0; k < o.i("n", 1); k++) { if (!r.own) { std::vector<float> f = frame(r.dim); refuse(i, o, [&]() { s.p->record(f); }); return check_all(&o); } if (r.bi && r.len_in() != r.len_out()) { std::vector<float> f = frame(r.dim); refuse(i, o, [&]() { s.p->record(f); }); break; } rec(s, i, o, 0); } }
        else if (n == "recin" || n == "recout") {
            for (int k = 0; k < o.i("n", 1); k++) {
                if (!r.own || !r.bi) { std::vector<float> f = frame(r.dim); refuse(i, o, [&]() { if (n == "recin") s.p->record_input(f); else s.p->record_output(f); }); break; }
                rec(s, i, o, n == "recin" ? 1 : 2);
            }
        } else if (n == "net") { if (r.own && r.bi) net(s, i, o); else return; }
        else if (n == "wrong") { // a frame of the wrong size
            int k = o.i("k"); std::vector<float> f = frame((r.bi && k ? (k == 1 ? r.din : r.dout()) : r.dim) + (o.i("more") ? 1 : -1));
            refuse(i, o, [&]() { if (k == 0) s.p->record(f); else if (k == 1) s.p->record_input(f); else s.p->record_output(f); });
        } else if (n == "clear" || n == "clearin" || n == "clearout") {
            auto f = [&]() { if (n == "clear") s.p->clear(); else if (n == "clearin") s.p->clearInput(); else s.p->clearOutput(); };
            if (!r.own) { refuse(i, o, f); } else { if (!call(i, o, f)) return; SimQuiet q; if (n != "clearout" || !r.bi) r.in.clear(); if (n != "clearin" || !r.bi) r.out.clear(); }
        } else if (n == "connect") {
            int k = o.i("k"), len = std::max(1, o.i("n", 5));
            if (r.own) { float x[1] = { 0 }; refuse(i, o, [&]() { s.p->connect(x, 1); }); return check_all(&o); }
            if (!r.bi) { Buf *b = buffer(len * r.dim); if (!call(i, o, [&]() { s.p->connect(b->mem, len); })) return; r.bin = b; r.nin = len; }
            else {
                Buf *a = k != 2 ? buffer(len * r.din) : 0, *b = k != 1 ? buffer(len * r.dout()) : 0;
                if (!call(i, o, [&]() { if (k == 0) s.p->connect(a->mem, b->mem, len); else if (k == 1) s.p->connect_input(a->mem, len); else s.p->connect_output(b->mem, len); })) return;
                if (a) { r.bin = a; r.nin = len; } if (b) { r.bout = b; r.nout = len; }
            }
        } else if (n == "disconnect") { if (r.own) refuse(i, o, [&]() { s.p->disconnect(); }); else { if (!call(i, o, [&]() { s.p->disconnect(); })) return; r.wipe(); } }
        else if (n == "poke") { // the owner of connected data changes it
            if (!r.own && r.bin && r.nin) { int k = o.i("k") % (int)r.bin->want.size(); r.bin->want[k] += 1; r.bin->mem[k] = r.bin->want[k]; }
        } else if (n == "copy") {
            if (i == d) return; PRef c; { SimQuiet q; c = r; } xmm::Phrase *p = 0; if (!call(i, o, [&]() { p = new xmm::Phrase(*s.p); })) return check_all(&o); destroy(d); put(d, p, c);
        } else if (n == "assign") {
            auto t = slots.find(d); if (t == slots.end()) return; if (!call(d, o, [&]() { *t->second.p = *s.p; })) return check_all(&o); SimQuiet q; if (d != i) t->second.r = r;
        } else if (n == "save" || n == "restore" || n == "load") {
            Json::Value v; { SimQuiet q; v = s.p->toJson(); }
            if (n == "save") { Json::Value w = s.p->toJson(); return check_all(&o); }
            PRef c; { SimQuiet q; c = r; c.own = true; c.bin = c.bout = 0; c.in.clear(); c.out.clear(); for (int t = 0; t < r.size(); t++) { for (int k = 0; k < r.di(); k++) c.in.push_back(r.vin(t, k)); if (r.bi) for (int k = 0; k < r.dout(); k++) c.out.push_back(r.vout(t, k)); } c.nin = c.nout = 0; }
            bool loaded = false;
            auto t = slots.find(d);
            if (n == "load") { if (t == slots.end()) return; loaded = call(d, o, [&]() { t->second.p->fromJson(v); }); if (!loaded) return check_all(&o); SimQuiet q; t->second.r = c; }
            else { if (i == d) return; xmm::Phrase *p = 0; if (!call(d, o, [&]() { p = new xmm::Phrase(v); })) return check_all(&o); destroy(d); put(d, p, c); }
        } else if (n == "label") { int l = o.i("l"); if (!call(i, o, [&]() { s.p->label.set(label_name(l)); })) return; r.label = l; }
        else if (n == "cols") { std::vector<std::string> c; for (int k = 0; k < r.dim; k++) c.push_back("column " + std::to_string(k * o.i("k", 1)) + (k % 2 ? "" : " with a name too long to be stored in place")); if (!call(i, o, [&]() { s.p->column_names = c; })) { r.cols = s.p->column_names; return; } SimQuiet q; r.cols = c; }
        else if (n == "stats") { if (r.size() == 0) return; call(i, o, [&]() { s.p->mean(); s.p->standardDeviation(); s.p->minmax(); }); }
        else if (n == "rescale") {
            if (!r.own && o.i("shared", 1) == 0) return;
            std::vector<float> off(r.dim), g(r.dim); for (int k = 0; k < r.dim; k++) { off[k] = 0.5f * (float)k + 1; g[k] = k % 2 ? 0.5f : 2.0f; }
            if (!call(i, o, [&]() { s.p->rescale(off, g); })) return check_all(&o);
            for (int t = 0; t < r.size(); t++) for (int k = 0; k < r.dim; k++) {
                int w = r.bi && k >= r.din, c = w ? k - r.din : k, wd = w ? r.dout() : r.di(); float &x = r.own ? (w ? r.out : r.in)[t * wd + c] : (w ? r.bout : r.bin)->want[t * wd + c];
                x -= off[k]; x *= g[k];
            }
        }
        check_all(&o);
    }
    void finish() { for (auto &s : slots) delete s.second.p; slots.clear(); for (Buf *b : bufs) { for (size_t k = 0; k < b->want.size(); k++) if (!same(b->mem[k], b->want[k])) bad("external", -1, "connected external data was overwritten", 0); delete[] b->mem; SimQuiet q; delete b; } bufs.clear(); }
    void run() { for (auto &o : ops) step(o); finish(); }
};
}
void gen_phrase(Plan &p, Rng &r) {
    bool multi = p.prop == "C10" || p.prop == "C09"; int nu = !multi || (p.prop == "C10" && r.chance(35)) ? 1 : r.in(2, 3); p.opt.set("threads", nu > 1 ? 1 : 0);
    if (!multi && r.chance(45)) { p.opt.set("palloc", r.chance(50) ? r.in(2, 12) : r.in(10, 60)); p.opt.set("awork", 0); p.opt.set("amin", r.chance(50) ? 64 : 1000); }
    int dim = r.in(1, 4), din; bool bi = r.chance(60); if (bi) dim = std::max(dim, 2); din = bi ? r.in(1, dim - 1) : 0;
    auto fresh = [&](Op &o) { o.set("own", r.chance(75) ? 1 : 0).set("bi", r.chance(85) ? bi : !bi).set("dim", dim).set("din", din); };
    fresh(p.add("new").set("p", 0).set("pre", 1)); p.add("rec").set("p", 0).set("n", r.chance(30) ? r.in(250, 262) : r.in(0, 10)).set("pre", 1);
    if (r.chance(50)) p.add("connect").set("p", 0).set("k", r.n(3)).set("n", r.in(1, 6)).set("pre", 1);
    if (r.chance(40)) p.add("label").set("p", 0).set("l", r.n(8)).set("pre", 1);
    if (multi) for (int u = 1; u < nu; u++) p.add("give").set("p", 0).set("d", 0).set("du", u).set("k", r.n(3)).set("pre", 1);
    // how far the streams are when a history continues: growth happens at multiples of the block size
    int burst[] = { 1, 2, 7, 100, 255, 256, 257, 300 };
    for (int u = 0; u < nu; u++) {
        int len = multi ? r.in(2, 8) : r.in(4, 24);
        for (int k = 0; k < len; k++) {
            int i = r.n(3), d = r.n(3); Op *o = 0;
            switch (r.n(20)) {
            case 0: o = &p.add("new"); fresh(*o); break;
            case 1: o = &p.add("dims"); o->set("dim", r.in(1, 5)).set("din", r.in(1, 4)); break;
            case 2: case 3: o = &p.add("rec"); o->set("n", r.chance(80) ? burst[r.n(4)] : burst[r.n(8)]); break;
            case 4: o = &p.add("recin"); o->set("n", r.chance(75) ? burst[r.n(4)] : burst[r.n(8)]); break;
            case 5: o = &p.add("recout"); o->set("n", r.chance(75) ? burst[r.n(4)] : burst[r.n(8)]); break;
            case 6: case 7: case 8: { o = &p.add("net"); int n = r.chance(70) ? r.in(1, 40) : r.in(200, 330); o->set("nin", n).set("nout", r.chance(60) ? n : r.n(n)).set("loss", r.chance(60) ? r.n(20) : 0).set("dup", r.chance(60) ? r.n(20) : 0).set("delay", r.chance(60) ? r.n(30) : 0).set("seed", r.n(100000)); break; }
            case 9: o = &p.add("wrong"); o->set("k", r.n(3)).set("more", r.n(2)); break;
            case 10: { static const char *const n[] = { "clear", "clearin", "clearout" }; o = &p.add(n[r.n(3)]); break; }
            case 11: o = &p.add("connect"); o->set("k", r.n(3)).set("n", r.in(1, 12)); break;
            case 12: o = &p.add(r.chance(40) ? "disconnect" : "poke"); o->set("k", r.n(12)); break;
            case 13: case 14: o = &p.add("copy"); break;
            case 15: case 16: o = &p.add("assign"); break;
            case 17: { static const char *const n[] = { "save", "restore", "load" }; o = &p.add(n[r.n(3)]); break; }
            case 18: o = &p.add(r.chance(50) ? "label" : "cols"); o->set("l", r.n(8)).set("k", r.in(1, 3)); break;
            default: o = &p.add(r.chance(50) ? "stats" : "rescale"); if (multi) o->set("shared", 0); break;
            }
            if (r.chance(2) && o->has("n") && o->name.compare(0, 3, "rec") == 0) o->set("n", r.in(900, 4200));
            o->set("p", i).set("d", d); if (u) o->set("u", u);
        }
    }
}
void run_phrase(Plan const &plan, int) {
    int nu = 1; std::vector<User *> us;
    { SimQuiet q; for (auto &o : plan.ops) nu = std::max(nu, std::max(o.i("u"), o.i("du")) + 1); for (int u = 0; u < nu; u++) { us.push_back(new User()); us[u]->id = u; } }
    us[0]->faults = plan.prop == "C16";
    for (auto &o : plan.ops) {
        if (!o.i("pre")) { SimQuiet q; us[o.i("u")]->ops.push_back(o); continue; }
        if (o.name == "give") {
            auto it = us[0]->slots.find(o.i("p")); if (it == us[0]->slots.end()) continue; Slot &s = it->second; User &b = *us[o.i("du")]; PRef r; { SimQuiet q; r = s.r; }
            if (!r.own) continue; // connected data stays with its owner
            xmm::Phrase *p; if (o.i("k") == 0) { p = new xmm::Phrase(); *p = *s.p; } else if (o.i("k") == 1 || r.len_in() != r.len_out()) p = new xmm::Phrase(*s.p); else p = new xmm::Phrase(s.p->toJson());
            b.put(o.i("d"), p, r); continue;
        }
        us[0]->step(o);
    }
    std::vector<std::thread> *th; { SimQuiet q; th = new std::vector<std::thread>(nu); }
    for (int u = 1; u < nu; u++) (*th)[u] = std::thread(&User::run, us[u]);
    us[0]->run();
    for (int u = 1; u < nu; u++) (*th)[u].join();
    SimQuiet q; for (auto u : us) delete u; delete th;
}
