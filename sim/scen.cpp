// Plans, data and dispatch. Compiled like the scenarios; runs quiet.
#include "scen.h"
#include <algorithm>
Plan *g_plan;
std::string Plan::text() const {
    char b[96]; std::string t = "prop " + prop + "\nfamily " + family + "\nsched " + std::to_string(sched) + "\n";
    Op o = opt; o.name = "opt"; t += o.text() + "\n";
    for (auto &p : ops) { t += "op "; t += p.text() + "\n"; }
    for (auto &f : fault) { snprintf(b, sizeof b, "fault %u %u %llu %llu\n", f.kind, f.tid, (unsigned long long)f.n, (unsigned long long)f.arg); t += b; }
    for (auto &d : dec) { snprintf(b, sizeof b, "dec %u %llu %u\n", d.tid, (unsigned long long)d.point, d.target); t += b; }
    if (replay) t += "replay\n";
    return t;
}
static bool parse_op(Op &o, std::string const &s) {
    size_t i = 0; auto word = [&]() { while (i < s.size() && s[i] == ' ') i++; size_t b = i; while (i < s.size() && s[i] != ' ') i++; return s.substr(b, i - b); };
    o.name = word(); o.a.clear();
    for (;;) { std::string w = word(); if (w.empty()) break; size_t e = w.find('='); if (e == std::string::npos) return false; o.a[w.substr(0, e)] = w.substr(e + 1); }
    return !o.name.empty();
}
bool Plan::parse(const char *t, std::string &err) {
    *this = Plan(); std::string all(t); size_t p = 0; int line = 0;
    while (p < all.size()) {
        size_t e = all.find('\n', p); if (e == std::string::npos) e = all.size(); std::string l = all.substr(p, e - p); p = e + 1; line++;
        if (l.empty() || l[0] == '#') continue;
        size_t sp = l.find(' '); std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
        if (k == "prop") prop = v; else if (k == "family") family = v; else if (k == "sched") sched = strtoull(v.c_str(), 0, 10);
        else if (k == "opt") { Op o; if (!parse_op(o, "opt" + (v.compare(0, 3, "opt") ? " " + v : v.substr(3)))) { err = "bad opt"; return false; } opt = o; }
        else if (k == "op") { Op o; if (!parse_op(o, v)) { err = "bad op in line " + std::to_string(line); return false; } ops.push_back(o); }
        else if (k == "fault") { sim_fault f; unsigned long long n, a; if (sscanf(v.c_str(), "%u %u %llu %llu", &f.kind, &f.tid, &n, &a) != 4) { err = "bad fault"; return false; } f.n = n; f.arg = a; fault.push_back(f); }
        else if (k == "dec") { sim_decision d; unsigned long long pt; if (sscanf(v.c_str(), "%u %llu %u", &d.tid, &pt, &d.target) != 3) { err = "bad dec"; return false; } d.point = pt; dec.push_back(d); }
        else if (k == "replay") replay = true;
        else { err = "unknown line " + std::to_string(line) + ": " + k; return false; }
    }
    return !prop.empty() && !family.empty();
}
const char *label_name(int i) {
    static const char *const n[] = { "a", "b", "walk", "a much longer class label than fits in place, or in any buffer of a fixed size that somebody might have thought to be large enough for the name of a movement of the left hand", "z\"q\\", "b2", "", "\xc3\xa9t\xc3\xa9" };
    static const char *const more[] = { "A", "0", "10", "9", " ", "walk2", "z" }; // only used where there are many classes
    if (i >= 8 && i < 15) return more[i - 8];
    return n[((i % 8) + 8) % 8];
}
std::string hex(uint64_t h) { char b[24]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h); return b; }

float data_amp = 1, data_skew = 1; int skew_first = 0;
std::vector<std::vector<float>> phrase_data(uint64_t seed, int label, int index, int dim, int len, int kind) {
    Rng r(seed * 1000003 + label * 7919 + index * 104729);
    std::vector<std::vector<float>> v;
    if (kind == 1) len = 0;
    if (kind == 2) len = 1;
    std::vector<float> c(dim), s(dim);
    Rng rl(seed * 31 + label);
    for (int d = 0; d < dim; d++) { c[d] = 2 * rl.g(); s[d] = 0.5f * rl.g(); }
    int bad = len ? r.n(len) : 0, badd = r.n(dim);
    for (int t = 0; t < len; t++) {
        std::vector<float> f(dim);
        for (int d = 0; d < dim; d++) {
            f[d] = c[d] + s[d] * (float)t * 0.3f + 0.25f * r.g();
            if (kind == 5) f[d] = c[d];
            f[d] *= dim_amp(d);
            if (kind == 6) f[d] *= 1e6f;
            if (kind == 3 && t == bad && d == badd) f[d] = NAN;
            if (kind == 4 && t == bad && d == badd) f[d] = INFINITY;
        }
        v.push_back(f);
    }
    return v;
}

struct Fam { const char *name; GenFn gen; RunFn run; };
static const Fam fams[] = { { "model", gen_model, run_model }, { "store", gen_store, run_store }, { "stream", gen_stream, run_stream }, { "phrase", gen_phrase, run_phrase }, { "tset", gen_tset, run_tset }, { "obj", gen_obj, run_obj } };
static const char *family_of(std::string const &prop, Rng &r) {
    int n = atoi(prop.c_str() + 1); (void)r;
    if (n <= 8) return "model";
    if (n <= 10) { int k = r.n(100); if (n == 9) return k < 64 ? "model" : k < 76 ? "tset" : k < 84 ? "phrase" : "obj"; return k < 44 ? "model" : k < 66 ? "tset" : k < 82 ? "phrase" : "obj"; }
    if (n <= 13) return "store";
    if (n <= 15 || n == 21) return "stream";
    if (n == 16) return "phrase";
    return "tset";
}
extern "C" {
// called by the supervisor's child before the simulation starts: generate or parse
int scen_plan(const char *prop, unsigned long long seed, unsigned long long index) {
    Rng r(seed * 1000003ULL * 65537 + index * 7 + (uint64_t)atoi(prop + 1) * 0x51ED2701ULL);
    g_plan = new Plan(); g_plan->prop = prop; g_plan->family = family_of(prop, r); g_plan->sched = r.next() >> 16; g_plan->opt.name = "opt";
    for (auto &f : fams) if (g_plan->family == f.name) { f.gen(*g_plan, r); return 0; }
    return 1;
}
int scen_parse(const char *text, char *err, size_t n) {
    g_plan = new Plan(); std::string e; if (g_plan->parse(text, e)) return 0; snprintf(err, n, "%s", e.c_str()); return 1;
}
size_t scen_text(char *b, size_t n) { std::string t = g_plan->text(); snprintf(b, n, "%s", t.c_str()); return t.size(); }
void scen_config(sim_config *c) {
    memset(c, 0, sizeof *c); Plan &p = *g_plan; c->seed = p.sched;
    std::stable_sort(p.dec.begin(), p.dec.end(), [](sim_decision const &a, sim_decision const &b) { return a.tid != b.tid ? a.tid < b.tid : a.point < b.point; });
    c->replay = p.replay; c->dec = p.dec.data(); c->ndec = (uint32_t)p.dec.size(); c->fault = p.fault.data(); c->nfault = (uint32_t)p.fault.size();
    c->races = p.prop == "C09"; c->threads = p.opt.i("threads", 0); c->strategy = p.opt.i("strategy", 0);
    c->step_cap = p.opt.u("cap", 30000000); c->p_casweak = (uint32_t)p.opt.i("pcas", 0); c->p_thread = (uint32_t)p.opt.i("pthr", 0);
    c->p_alloc = (uint32_t)p.opt.i("palloc", 0); c->alloc_min = (uint32_t)p.opt.i("amin", 64); c->alloc_workers_only = p.opt.i("awork", 1);
    c->fill = (uint32_t)p.opt.i("fill", 256); c->quarantine = p.opt.u("quar", 1 << 20);
}
void scen_run(int stage) { data_amp = (float)g_plan->opt.d("amp", 1); data_skew = (float)g_plan->opt.d("skew", 1); skew_first = (int)g_plan->opt.i("skew1", 0); for (auto &f : fams) if (g_plan->family == f.name) { f.run(*g_plan, stage); return; } sim_error("unknown family"); }
}
