// Common parts of the scenarios: plans, random numbers, data, fingerprints.
#ifndef SCEN_H
#define SCEN_H
#include "rt.h"
#include <stdint.h>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "xmm.h"

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    int n(int k) { return k <= 0 ? 0 : (int)((next() >> 17) % (uint64_t)k); }   // 0..k-1
    int in(int a, int b) { return a + n(b - a + 1); }
    bool chance(int pct) { return n(100) < pct; }
    float f() { return (float)((double)(next() >> 40) / (double)(1 << 24)); }  // 0..1
    float g() { return f() + f() + f() - 1.5f; }
};

struct Op {
    std::string name; std::map<std::string, std::string> a;
    int i(const char *k, int d = 0) const { auto it = a.find(k); return it == a.end() ? d : atoi(it->second.c_str()); }
    uint64_t u(const char *k, uint64_t d = 0) const { auto it = a.find(k); return it == a.end() ? d : strtoull(it->second.c_str(), 0, 10); }
    double d(const char *k, double v = 0) const { auto it = a.find(k); return it == a.end() ? v : atof(it->second.c_str()); }
    std::string s(const char *k, const char *d = "") const { auto it = a.find(k); return it == a.end() ? std::string(d) : it->second; }
    bool has(const char *k) const { return a.count(k) > 0; }
    Op &set(const char *k, std::string const &v) { a[k] = v; return *this; }
    Op &set(const char *k, const char *v) { a[k] = v; return *this; }
    Op &set(const char *k, long long v) { a[k] = std::to_string(v); return *this; }
    Op &set(const char *k, int v) { a[k] = std::to_string(v); return *this; }
    Op &set(const char *k, uint64_t v) { a[k] = std::to_string(v); return *this; }
    std::string text() const { std::string t = name; for (auto &p : a) t += " " + p.first + "=" + p.second; return t; }
};
struct Plan {
    std::string prop, family; uint64_t sched = 1; Op opt; std::vector<Op> ops; // opt: options of the run
    std::vector<sim_decision> dec; std::vector<sim_fault> fault; bool replay = false;
    Op &add(const char *n) { ops.push_back(Op()); ops.back().name = n; return ops.back(); }
    std::string text() const;
    bool parse(const char *t, std::string &err);
};
// families: generate a plan for a property; run it (stage counts simulated processes)
typedef void (*GenFn)(Plan &, Rng &);
typedef void (*RunFn)(Plan const &, int stage);
void gen_model(Plan &, Rng &); void run_model(Plan const &, int);
void gen_store(Plan &, Rng &); void run_store(Plan const &, int);
void gen_stream(Plan &, Rng &); void run_stream(Plan const &, int);
void gen_phrase(Plan &, Rng &); void run_phrase(Plan const &, int);
void gen_obj(Plan &, Rng &); void run_obj(Plan const &, int);
void gen_tset(Plan &, Rng &); void run_tset(Plan const &, int);

extern Plan *g_plan;
const char *label_name(int i);               // class labels, some long, some awkward
std::string hex(uint64_t h);
struct Hash {
    uint64_t h = 1469598103934665603ULL;
    void bytes(const void *p, size_t n) { for (size_t i = 0; i < n; i++) { h = (h ^ ((const unsigned char *)p)[i]) * 0x100000001B3ULL; } h ^= h >> 31; }
    void u(uint64_t v) { bytes(&v, 8); }
    void d(double v) { if (v == 0) v = 0; if (v != v) { u(0x7ff8deadULL); return; } bytes(&v, 8); }
    void s(std::string const &v) { u(v.size()); bytes(v.data(), v.size()); }
    template <class V> void vec(V const &v) { u(v.size()); for (size_t i = 0; i < v.size(); i++) d(v[i]); }
};

// ---- training data
// kind: 0 regular, 1 empty phrase, 2 too short, 3 not-a-number, 4 infinite, 5 constant, 6 huge values
struct DataSpec { uint64_t seed; int dim, din; bool bimodal, shared; std::vector<std::pair<int, int>> phrases; std::vector<int> kinds; };
extern float data_amp, data_skew; // order of magnitude of the recorded values, and how much that of every other dimension differs
extern int skew_first;
inline float dim_amp(int d) { return ((d + skew_first) & 1) ? data_amp * data_skew : data_amp; }
std::vector<std::vector<float>> phrase_data(uint64_t seed, int label, int index, int dim, int len, int kind);
#endif
