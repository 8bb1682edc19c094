// Canonical boolean-function domain (hash-consed decision graphs) used as the
// per-bit abstract value of the bit-flow analysis.
#pragma once
#include <cstring>
#include <cstdint>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <set>

using Bit = uint32_t;
static constexpr Bit kF = 0, kT = 1;
struct Overflow : std::runtime_error { Overflow() : std::runtime_error("overflow") {} };

struct Dd {
  struct N { uint32_t v, lo, hi; };
  std::vector<N> n;
  std::vector<uint32_t> tab;  // open addressing unique table
  struct C { uint32_t f, g, h, r; };
  std::vector<C> cache;
  size_t limit = 0;
  Dd() { reset(); }
  void reset() {
    work = 0; n.clear(); n.push_back({0xffffffffu, 0, 0}); n.push_back({0xffffffffu, 1, 1});
    if (tab.size() > (1u << 18)) { std::vector<uint32_t>().swap(tab); }
    tab.assign(1u << 14, 0);
    if (cache.size() != (1u << 14)) { std::vector<C>().swap(cache); cache.assign(1u << 14, C{~0u, 0, 0, 0}); }
    else std::fill(cache.begin(), cache.end(), C{~0u, 0, 0, 0});
    limit = hard;
  }
  size_t hard = 12000000; uint64_t work = 0, maxWork = 150000000; // deterministic effort bound per wrapper
  bool exhausted() const { return n.size() + 1000 >= hard || work > maxWork; }
  static uint64_t hsh(uint64_t a, uint64_t b, uint64_t c) {
    uint64_t h = a * 0x9E3779B97F4A7C15ull; h ^= h >> 29; h += b; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 31; h += c; h *= 0x94D049BB133111EBull; return h ^ (h >> 32);
  }
  Bit mk(uint32_t v, Bit lo, Bit hi) {
    if (lo == hi) return lo;
    size_t m = tab.size() - 1, i = hsh(v, lo, hi) & m;
    while (tab[i]) { const N& x = n[tab[i]]; if (x.v == v && x.lo == lo && x.hi == hi) return tab[i]; i = (i + 1) & m; }
    if (n.size() >= limit) throw Overflow();
    n.push_back({v, lo, hi}); tab[i] = n.size() - 1;
    if (n.size() * 2 > tab.size()) grow();
    return n.size() - 1;
  }
  void grow() {
    std::vector<uint32_t> t(tab.size() * 4, 0); size_t m = t.size() - 1;
    for (size_t k = 2; k < n.size(); k++) { size_t i = hsh(n[k].v, n[k].lo, n[k].hi) & m; while (t[i]) i = (i + 1) & m; t[i] = k; }
    tab.swap(t);
    if (cache.size() < tab.size() && cache.size() < (1u << 22)) { cache.assign(std::min<size_t>(tab.size(), 1u << 22), C{~0u, 0, 0, 0}); }
  }
  Bit ite(Bit f, Bit g, Bit h) {
    if (f == kT) return g; if (f == kF) return h; if (g == h) return g;
    if (g == kT && h == kF) return f;
    if (f == g) g = kT; if (f == h) h = kF;
    if (g == h) return g; if (g == kT && h == kF) return f;
    size_t ci = hsh(f, g, h) & (cache.size() - 1);
    { const C& c = cache[ci]; if (c.f == f && c.g == g && c.h == h) return c.r; }
    if (++work > maxWork) throw Overflow();
    uint32_t v = n[f].v; if (n[g].v < v) v = n[g].v; if (n[h].v < v) v = n[h].v;
    Bit f0 = f, f1 = f, g0 = g, g1 = g, h0 = h, h1 = h;
    if (n[f].v == v) { f0 = n[f].lo; f1 = n[f].hi; }
    if (n[g].v == v) { g0 = n[g].lo; g1 = n[g].hi; }
    if (n[h].v == v) { h0 = n[h].lo; h1 = n[h].hi; }
    Bit r1 = ite(f1, g1, h1), r0 = ite(f0, g0, h0);
    Bit r = mk(v, r0, r1);
    ci = hsh(f, g, h) & (cache.size() - 1); cache[ci] = {f, g, h, r};
    return r;
  }
  Bit inv(Bit a) { return ite(a, kF, kT); }
  Bit land(Bit a, Bit b) { if (a == kF || b == kF) return kF; if (a == kT) return b; if (b == kT) return a; if (a > b) std::swap(a, b); return ite(a, b, kF); }
  Bit lor(Bit a, Bit b) { if (a == kT || b == kT) return kT; if (a == kF) return b; if (b == kF) return a; if (a > b) std::swap(a, b); return ite(a, kT, b); }
  Bit lxor(Bit a, Bit b) { if (a == b) return kF; if (a == kF) return b; if (b == kF) return a; if (a > b) std::swap(a, b); return ite(a, inv(b), b); }
  Bit var(uint32_t v) { return mk(v, kF, kT); }
  // support
  void support(Bit b, std::set<uint32_t>& out, std::vector<uint8_t>& seen) {
    if (b <= 1) return;
    if (isVar(b)) { out.insert(n[b].v); return; }
    uint32_t ep; if (seen.empty()) { ep = ++epoch; seen.resize(4); memcpy(seen.data(), &ep, 4); } else memcpy(&ep, seen.data(), 4); // `seen` carries the epoch of the marks
    if (mark.size() < n.size()) mark.resize(n.size() * 2, 0);
    std::vector<Bit> st{b};
    while (!st.empty()) { Bit x = st.back(); st.pop_back(); if (x <= 1 || mark[x] == ep) continue; mark[x] = ep; out.insert(n[x].v); st.push_back(n[x].lo); st.push_back(n[x].hi); }
  }
  std::vector<uint32_t> mark; uint32_t epoch = 0;
  bool isVar(Bit b) const { return b > 1 && n[b].lo == kF && n[b].hi == kT; }
};
