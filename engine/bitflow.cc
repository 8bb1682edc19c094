// bitflow: bit-provenance dataflow over LLVM IR.
//
// Abstract value of every SSA bit = canonical boolean function (bdd.h) over
//   * input atoms    (one bit of a documented input of the wrapper),
//   * garbage atoms  (unspecified input bits / undef),
//   * term atoms     (bit k of an uninterpreted/normalised word operator).
// For each wrapper pair (implementation, reference) the tool compares the
// abstract output bits, and checks each memory access against its allowance.
#include "bdd.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Utils/LoopSimplify.h>
#include <llvm/Transforms/Utils/LCSSA.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/ADT/StringSwitch.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <functional>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include "llvm/Support/SHA1.h"
#include "llvm/ADT/StringExtras.h"
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
using namespace llvm;
using Word = std::vector<Bit>;
static Dd D;

struct Unsupported : std::runtime_error { explicit Unsupported(const std::string& s) : std::runtime_error(s) {} };

// ------------------------------------------------------------------ atoms
enum AKind { kInput, kGarbage, kTerm };
struct Atom {
  AKind kind; std::string id; int64_t lane = 0; int bit = 0; bool mask = false;   // input: object id, byte index, bit
  int op = 0; std::vector<Word> args; int k = 0; bool imprecise = false;          // term
  bool depsDone = false; std::vector<uint32_t> deps; bool depImprecise = false; bool deepTerm = false;
};
static std::vector<Atom> A;
static std::map<std::string, int> opIds; static std::vector<std::string> opNames;
static int opId(const std::string& s) { auto it = opIds.find(s); if (it != opIds.end()) return it->second; int i = opNames.size(); opNames.push_back(s); opIds[s] = i; return i; }
struct TKey { int op; std::vector<Word> args; int k; bool operator<(const TKey& o) const { if (op != o.op) return op < o.op; if (k != o.k) return k < o.k; return args < o.args; } };
static std::map<TKey, Bit> terms;
static std::map<std::tuple<std::string, int64_t, int>, Bit> inputs;
static int garbageCount = 0;

static Bit newAtom(Atom a) { A.push_back(std::move(a)); return D.var(A.size() - 1); }
static Bit garbage(const std::string& why) { Atom a; a.kind = kGarbage; a.id = why; a.lane = garbageCount++; return newAtom(a); }
static Bit inputBit(const std::string& id, int64_t byte, int bit, bool mask = false) {
  auto key = std::make_tuple(id, byte, bit); auto it = inputs.find(key); if (it != inputs.end()) return it->second;
  Atom a; a.kind = kInput; a.id = id; a.lane = byte; a.bit = bit; a.mask = mask; return inputs[key] = newAtom(a);
}
static Bit term(const std::string& op, std::vector<Word> args, int k, bool imprecise = false) {
  TKey key{opId(op), args, k}; auto it = terms.find(key); if (it != terms.end()) return it->second;
  Atom a; a.kind = kTerm; a.op = key.op; a.args = std::move(args); a.k = k; a.imprecise = imprecise;
  Bit b = newAtom(std::move(a)); terms[key] = b; return b;
}
static bool caseSplit(const std::string& op, const std::vector<Word>& args, int w, Word& out);
static Word termWord(const std::string& op, const std::vector<Word>& args, int w, bool imprecise = false) { Word cs; if (caseSplit(op, args, w, cs)) return cs; Word r(w); for (int k = 0; k < w; k++) r[k] = term(op, args, k, imprecise); return r; }

static void atomDeps(uint32_t a);
static void bitDeps(Bit b, std::set<uint32_t>& base, bool& imprecise, bool& viaTerm) {
  std::set<uint32_t> s; std::vector<uint8_t> seen; D.support(b, s, seen);
  for (uint32_t v : s) {
    if (A[v].kind != kTerm) base.insert(v);
    else { viaTerm = true; atomDeps(v); base.insert(A[v].deps.begin(), A[v].deps.end()); imprecise |= A[v].depImprecise; }
  }
}
static std::map<std::vector<Word>, uint32_t> depOf; // first atom whose dependences were computed for these operands
static void atomDeps(uint32_t v) {
  if (A[v].depsDone) return;
  auto ins = depOf.emplace(A[v].args, v); if (!ins.second) { uint32_t f = ins.first->second; if (A[f].depsDone && A[f].imprecise == A[v].imprecise) { A[v].deps = A[f].deps; A[v].depImprecise = A[f].depImprecise; A[v].depsDone = true; return; } }
  std::set<uint32_t> base; bool imp = A[v].imprecise, vt = false;
  std::set<Bit> bits; for (auto& w : A[v].args) for (Bit b : w) bits.insert(b);
  std::set<uint32_t> sup; std::vector<uint8_t> seen; for (Bit b : bits) D.support(b, sup, seen);
  for (uint32_t x : sup) { if (A[x].kind != kTerm) base.insert(x); else { atomDeps(x); base.insert(A[x].deps.begin(), A[x].deps.end()); imp |= A[x].depImprecise; } }
  (void)vt;
  A[v].deps.assign(base.begin(), base.end()); A[v].depImprecise = imp; A[v].depsDone = true;
}

// ------------------------------------------------------------- word algebra
static Word cst(uint64_t v, int w) { Word r(w); for (int i = 0; i < w; i++) r[i] = i < 64 ? ((v >> i) & 1) : 0; return r; }
static bool isConst(const Word& a) { for (Bit b : a) if (b > 1) return false; return true; }
static uint64_t constVal(const Word& a) { uint64_t v = 0; for (size_t i = 0; i < a.size() && i < 64; i++) v |= uint64_t(a[i] & 1) << i; return v; }
static Word sub(const Word& a, int lo, int n) { return Word(a.begin() + lo, a.begin() + lo + n); }
static Word bnot(const Word& a) { Word r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = D.inv(a[i]); return r; }
static Word ite(Bit c, const Word& a, const Word& b) { Word r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = D.ite(c, a[i], b[i]); return r; }
static Word ext(const Word& a, int w, bool sgn) { Word r = a; Bit s = sgn ? a.back() : kF; while ((int)r.size() < w) r.push_back(s); r.resize(w); return r; }
static Bit orAll(const Word& a) { Bit r = kF; for (size_t i = a.size(); i-- > 0;) r = D.lor(r, a[i]); return r; }
static Bit andAll(const Word& a) { Bit r = kT; for (size_t i = a.size(); i-- > 0;) r = D.land(r, a[i]); return r; }

struct Budget { size_t save; explicit Budget(size_t n) { save = D.limit; D.limit = std::min(D.limit, D.n.size() + n); } ~Budget() { D.limit = save; } };
static size_t kOpBudget = 60000;
static size_t dupBudget(const Word& a) { return kOpBudget * std::max<size_t>(1, a.size() / 16); }

// linear combinations (mod 2^w) as normal form for sums that are not blasted
struct LC { uint64_t c = 0; std::map<Word, uint64_t> t; };
static std::map<Word, LC> lcOf;
static uint64_t maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static LC getLC(const Word& w) {
  if (isConst(w)) { LC l; l.c = constVal(w); return l; }
  auto it = lcOf.find(w); if (it != lcOf.end()) return it->second;
  LC l; l.t[w] = 1; return l;
}
static Word lcWord(const LC& full, int w) {
  Word r;
  for (int k = 0; k < w; k++) {
    int n = k + 1; LC l; l.c = full.c & maskw(n);
    for (auto& e : full.t) { uint64_t co = e.second & maskw(n); if (!co) continue; Word tr = sub(e.first, 0, n);
      // strip: coefficient's trailing zeros shift the word
      if (isConst(tr)) { l.c = (l.c + co * constVal(tr)) & maskw(n); continue; }
      l.t[tr] += co; l.t[tr] &= maskw(n); if (!l.t[tr]) l.t.erase(tr); }
    if (l.t.empty()) { r.push_back((l.c >> k) & 1); continue; }
    if (l.t.size() == 1 && l.c == 0 && l.t.begin()->second == 1) { r.push_back(l.t.begin()->first[k]); continue; }
    std::vector<Word> args; std::string op = "lc"; 
    for (auto& e : l.t) { args.push_back(e.first); op += "," + std::to_string(e.second); } op += "+" + std::to_string(l.c);
    r.push_back(term(op, args, k));
    Word pre(r.begin(), r.end()); lcOf[pre] = l;
  }
  return r;
}
static int termsIn(const Word& a) { std::set<uint32_t> s; std::vector<uint8_t> seen; for (Bit b : a) D.support(b, s, seen); int n = 0; for (uint32_t v : s) n += A[v].kind == kTerm; return n; }
static Word addBlast(const Word& a, const Word& b, Bit cin, Bit* cout = nullptr) {
  Word r(a.size()); Bit c = cin;
  for (size_t i = 0; i < a.size(); i++) { Bit x = D.lxor(a[i], b[i]); r[i] = D.lxor(x, c); if (i + 1 < a.size() || cout) c = D.lor(D.land(a[i], b[i]), D.land(x, c)); }
  if (cout) *cout = c; return r;
}
static Word add(const Word& a, const Word& b); static Word mul(const Word& a, const Word& b); static bool smallish(const Word& a, const Word& b);
// a sum in which an opaque operand (an object's base address, say) cancelled: what is left may be small enough to be exact
static Word lcEval(const LC& l, int w) {
  int n = 0; for (auto& e : l.t) n += (int)e.first.size() == w && smallish(e.first, {}) ? 0 : 1;
  if (!n) { Word r = cst(l.c, w); for (auto& e : l.t) r = add(r, mul(e.first, cst(e.second, w))); return r; }
  return lcWord(l, w);
}
static void lcClean(LC& l, int w) { for (auto it = l.t.begin(); it != l.t.end();) if (!(it->second & maskw(w))) it = l.t.erase(it); else ++it; }
static bool smallish(const Word& a, const Word& b) { return termsIn(a) + termsIn(b) <= 10; }
static Word add(const Word& a, const Word& b) {
  if (isConst(a) && isConst(b)) return addBlast(a, b, kF);
  if (isConst(a) && constVal(a) == 0 && a.size() <= 64) return b; if (isConst(b) && constVal(b) == 0 && b.size() <= 64) return a;
  if (smallish(a, b)) { try { Budget g(dupBudget(a)); return addBlast(a, b, kF); } catch (Overflow&) { if (D.exhausted()) throw; } }
  LC x = getLC(a), y = getLC(b); x.c += y.c; size_t n0 = x.t.size() + y.t.size(); for (auto& e : y.t) x.t[e.first] += e.second; lcClean(x, a.size());
  return x.t.size() + 1 < n0 ? lcEval(x, a.size()) : lcWord(x, a.size());
}
static Word neg(const Word& a) {
  if (smallish(a, {})) { try { Budget g(dupBudget(a)); return addBlast(bnot(a), cst(1, a.size()), kF); } catch (Overflow&) { if (D.exhausted()) throw; } }
  LC x = getLC(a); x.c = -x.c; for (auto& e : x.t) e.second = -e.second; return lcWord(x, a.size());
}
static Word subw(const Word& a, const Word& b) {
  if (a == b) return cst(0, a.size());
  if (smallish(a, b)) { try { Budget g(dupBudget(a)); return addBlast(a, bnot(b), kT); } catch (Overflow&) { if (D.exhausted()) throw; } }
  LC x = getLC(a), y = getLC(b); x.c -= y.c; size_t n0 = x.t.size() + y.t.size(); for (auto& e : y.t) x.t[e.first] -= e.second; lcClean(x, a.size());
  return x.t.size() + 1 < n0 ? lcEval(x, a.size()) : lcWord(x, a.size());
}
static Word trimTop(Word a) { while (a.size() > 1 && a.back() == kF) a.pop_back(); return a; }
static Word shlc(const Word& a, int s) { Word r(a.size(), kF); for (int i = s; i < (int)a.size(); i++) r[i] = a[i - s]; return r; }
static Word mul(const Word& a, const Word& b) {
  int w = a.size();
  const Word* c = isConst(a) ? &a : isConst(b) ? &b : nullptr;
  if (c) { const Word& o = c == &a ? b : a; Word r = cst(0, w); bool first = true;
    int ones = 0; for (Bit x : *c) ones += x == kT;
    if (ones > w / 2 && w <= 64 && (constVal(*c) == maskw(w))) return neg(o);
    for (int i = 0; i < w; i++) if ((*c)[i] == kT) { r = first ? shlc(o, i) : add(r, shlc(o, i)); first = false; } return r; }
  // few non-constant bits: sum of selected shifts
  auto nb = [](const Word& x) { int n = 0; std::set<Bit> s; for (Bit y : x) if (y > 1) s.insert(y); return (int)s.size(); };
  if (nb(a) == 1 || nb(b) == 1) { const Word& s = nb(b) == 1 ? b : a; const Word& o = nb(b) == 1 ? a : b; Bit v = kF; for (Bit y : s) if (y > 1) v = y;
    Word s1 = s, s0 = s; for (auto& y : s1) if (y > 1) y = kT; for (auto& y : s0) if (y > 1) y = kF; return ite(v, mul(o, s1), mul(o, s0)); }
  static const bool exact = getenv("BITFLOW_ADDR"); // size computations: shift and add within a node budget
  if (exact) { try { Budget g(4000000); Word p(w, kF); for (int i = 0; i < w; i++) { if (a[i] == kF) continue; Word t = shlc(b, i); for (auto& x : t) x = D.land(x, a[i]); p = addBlast(p, t, kF); } return p; } catch (Overflow&) { if (D.exhausted()) throw; } }
  Word r(w);
  for (int k = 0; k < w; k++) { Word x = trimTop(sub(a, 0, k + 1)), y = trimTop(sub(b, 0, k + 1)); if (y < x) std::swap(x, y);
    if (isConst(x) || isConst(y)) { // low bits constant: finish by shifting
      Word xx = sub(a, 0, k + 1), yy = sub(b, 0, k + 1); Word m = mul(xx, yy); r[k] = m[k]; continue; }
    // common trailing zeros
    size_t tz = 0; while (tz < x.size() && x[tz] == kF) tz++; size_t tz2 = 0; while (tz2 < y.size() && y[tz2] == kF) tz2++;
    if (tz + tz2) { if ((int)(tz + tz2) > k) { r[k] = kF; continue; } int kk = k - tz - tz2; Word x2(x.begin() + tz, x.end()), y2(y.begin() + tz2, y.end()); x2.resize(std::min<size_t>(x2.size(), kk + 1)); y2.resize(std::min<size_t>(y2.size(), kk + 1)); x2 = trimTop(x2); y2 = trimTop(y2); if (y2 < x2) std::swap(x2, y2); r[k] = (kk == 0) ? D.land(x2[0], y2[0]) : term("mul", {x2, y2}, kk); continue; }
    r[k] = k == 0 ? D.land(a[0], b[0]) : term("mul", {x, y}, k); }
  return r;
}
static Bit eqw(const Word& a, const Word& b) {
  if (a == b) return kT;
  for (size_t i = 0; i < a.size(); i++) { if (a[i] <= 1 && b[i] <= 1 && a[i] != b[i]) return kF; }
  try { Budget g(dupBudget(a)); Bit r = kT; for (size_t i = a.size(); i-- > 0;) r = D.land(r, D.inv(D.lxor(a[i], b[i]))); return r; } catch (Overflow&) { if (D.exhausted()) throw; }
  Word x = a, y = b; if (y < x) std::swap(x, y); return term("eq", {x, y}, 0);
}
static Bit ultw(const Word& a, const Word& b) {
  if (a == b) return kF;
  if (smallish(a, b)) { try { Budget g(dupBudget(a)); Bit lt = kF; for (size_t i = 0; i < a.size(); i++) { lt = D.ite(D.lxor(a[i], b[i]), b[i], lt); } return lt; } catch (Overflow&) { if (D.exhausted()) throw; } }
  return term("ult", {a, b}, 0);
}
static Word flipTop(Word a) { a.back() = D.inv(a.back()); return a; }
static Bit sltw(const Word& a, const Word& b) { return ultw(flipTop(a), flipTop(b)); }
static Word popc(const Word& a, int w) { // adder tree
  std::vector<Word> v; for (Bit b : a) v.push_back({b});
  while (v.size() > 1) { std::vector<Word> n; for (size_t i = 0; i + 1 < v.size(); i += 2) { int s = std::max(v[i].size(), v[i + 1].size()); Bit co; Word x = ext(v[i], s, false), y = ext(v[i + 1], s, false); Word r = addBlast(x, y, kF, &co); r.push_back(co); n.push_back(r); } if (v.size() & 1) n.push_back(v.back()); v.swap(n); }
  return ext(v[0], w, false);
}
static Word lzc(const Word& a) { int w = a.size(); Word r = cst(w, w); for (int i = 0; i < w; i++) r = ite(a[i], cst(w - 1 - i, w), r); return r; }
static Word tzc(const Word& a) { int w = a.size(); Word r = cst(w, w); for (int i = w - 1; i >= 0; i--) r = ite(a[i], cst(i, w), r); return r; }
// logical/arith shift by word; amounts >= width give fill
static Word shvar(const Word& a, const Word& amt, int kind /*0 shl 1 lshr 2 ashr*/, bool clampBig) {
  int w = a.size(); Word r = a; Bit fill = kind == 2 ? a.back() : kF; int lg = 0; while ((1 << lg) < w) lg++;
  for (int s = 0; s < lg && s < (int)amt.size(); s++) {
    Word t(w); int d = 1 << s;
    for (int i = 0; i < w; i++) { if (kind == 0) t[i] = i >= d ? r[i - d] : kF; else t[i] = i + d < w ? r[i + d] : fill; }
    r = ite(amt[s], t, r);
  }
  if (clampBig) { Bit big = kF; for (size_t s = lg; s < amt.size(); s++) big = D.lor(big, amt[s]); if ((1 << lg) != w) {} r = ite(big, Word(w, fill), r); }
  return r;
}
static Word smin(const Word& a, const Word& b) { return ite(sltw(a, b), a, b); }
static Word smax(const Word& a, const Word& b) { return ite(sltw(a, b), b, a); }
static Word umin(const Word& a, const Word& b) { return ite(ultw(a, b), a, b); }
static Word umax(const Word& a, const Word& b) { return ite(ultw(a, b), b, a); }
static Word satAddS(const Word& a, const Word& b) { int w = a.size(); Word s = add(ext(a, w + 1, true), ext(b, w + 1, true)); Bit ov = D.lxor(s[w], s[w - 1]); Word sat(w, D.inv(s[w])); sat[w - 1] = s[w]; return ite(ov, sat, sub(s, 0, w)); }
static Word satSubS(const Word& a, const Word& b) { int w = a.size(); Word s = subw(ext(a, w + 1, true), ext(b, w + 1, true)); Bit ov = D.lxor(s[w], s[w - 1]); Word sat(w, D.inv(s[w])); sat[w - 1] = s[w]; return ite(ov, sat, sub(s, 0, w)); }
static Word satAddU(const Word& a, const Word& b) { int w = a.size(); Word s = add(ext(a, w + 1, false), ext(b, w + 1, false)); Word r = sub(s, 0, w); for (auto& x : r) x = D.lor(x, s[w]); return r; }
static Word satSubU(const Word& a, const Word& b) { Word s = subw(a, b); Bit lt = ultw(a, b); for (auto& x : s) x = D.land(x, D.inv(lt)); return s; }
// saturating narrow of signed a to w bits (signed or unsigned result)
static Word packS(const Word& a, int w, bool uns) {
  int W = a.size(); Bit neg = a[W - 1];
  if (uns) { Bit hi = kF; for (int i = w; i < W - 1; i++) hi = D.lor(hi, a[i]); Word r(w); for (int i = 0; i < w; i++) r[i] = D.land(D.inv(neg), D.lor(hi, a[i])); return r; }
  Bit ov = kF; for (int i = w - 1; i < W - 1; i++) ov = D.lor(ov, D.lxor(a[i], neg)); Word r(w); for (int i = 0; i < w; i++) r[i] = i == w - 1 ? neg : D.ite(ov, D.inv(neg), a[i]); return r;
}
static Word absw(const Word& a) { return ite(a.back(), neg(a), a); }
static void cat(Word& r, const Word& x) { r.insert(r.end(), x.begin(), x.end()); }

// exact integer -> IEEE conversion (round to nearest even); x unsigned magnitude, sign s
static Word gIntFpArg; static std::string gIntFpOp;
static bool intToFp(Word x, Bit s, int w, Word& out) {
  int m = w == 64 ? 52 : w == 32 ? 23 : w == 16 ? 10 : 0; if (!m || w == 16) return false; int bias = w == 64 ? 1023 : 127, n = x.size();
  auto round = [&](bool full, const Word& x, Bit none = kT) { Word r = cst(0, w);
    for (int p = n - 1; p >= 0; p--) { Bit f = D.land(none, x[p]); none = D.land(none, D.inv(x[p])); if (f == kF) continue; // f: the leading one is at p
      Word v(w - 1, kF); for (int k = 0; k < m; k++) { int src = p - m + k; v[k] = src >= 0 && src < p ? (full ? D.land(f, x[src]) : x[src]) : kF; }
      uint64_t e = p + bias; for (int k = m; k < w - 1; k++) v[k] = ((e >> (k - m)) & 1) ? f : kF;
      Bit c = kF;
      if (p > m) { c = D.land(f, x[p - m - 1]); if (full) { Bit st = kF; for (int k = 0; k < p - m - 1; k++) st = D.lor(st, x[k]); c = D.land(c, D.lor(st, x[p - m])); }
        for (int k = m - 1; !full && k >= 0; k--) c = D.land(c, v[k]); } // a carry into the exponent needs an all-ones (odd) mantissa, so ties go up
      for (int k = full ? 0 : m; k < w - 1 && c != kF; k++) { Bit t = D.lxor(v[k], c); c = D.land(v[k], c); v[k] = t; }
      for (int k = full ? 0 : m; k < w - 1; k++) r[k] = D.lor(r[k], v[k]); }
    r[w - 1] = s; return r; };
  try { Budget g(60000); out = round(true, x); return true; } catch (Overflow&) { if (D.exhausted()) throw; }
  auto mant = [&](Word& r) { for (int k = 0; k < m; k++) r[k] = term(gIntFpOp, {gIntFpArg}, k); };
  if (s == kF) try { Budget g(300000); Word r = round(false, x); mant(r); out = r; return true; } catch (Overflow&) { if (D.exhausted()) throw; }
  if (s == kF) return false;
  try { Budget g(300000); Word y = gIntFpArg; y.pop_back(); Word r = round(false, ext(y, n, false), D.inv(s)); for (int k = m; k < w - 1; k++) r[k] = D.ite(s, term(gIntFpOp, {gIntFpArg}, k), r[k]); mant(r); r[w - 1] = s; out = r; return true; } catch (Overflow&) { if (D.exhausted()) throw; return false; }
}
template <class F, class U> static bool concreteF(const std::string& op, uint64_t ua, uint64_t ub, uint64_t& r) {
  U x = (U)ua, y = (U)ub, z; F a, b, c; memcpy(&a, &x, sizeof a); memcpy(&b, &y, sizeof b);
  if (op == "fadd") c = a + b; else if (op == "fsub") c = a - b; else if (op == "fmul") c = a * b; else if (op == "fdiv") c = a / b;
  else if (op == "folt") { r = a < b; return true; } else if (op == "fole") { r = a <= b; return true; } else if (op == "foeq") { r = a == b; return true; }
  else return false;
  if (c != c) return false; memcpy(&z, &c, sizeof z); r = z; return true;
}
static bool concreteOp(const std::string& op, const std::vector<Word>& as, uint64_t& r) {
  if (op == "sse2.cvtps2dq:32" || op == "sse2.cvttps2dq:32") {
    uint32_t a = (uint32_t)constVal(as[0]); float f; memcpy(&f, &a, 4); double d = op == "sse2.cvtps2dq:32" ? nearbyint((double)f) : trunc((double)f);
    r = !(d >= -2147483648.0 && d < 2147483648.0) ? 0x80000000u : (uint32_t)(int32_t)d; return true; }
  if (op.size() < 6 || as.size() != 2) return false;
  std::string base = op.substr(0, 4), sz = op.substr(4);
  if (sz == "32") return concreteF<float, uint32_t>(base, constVal(as[0]), constVal(as[1]), r);
  if (sz == "64") return concreteF<double, uint64_t>(base, constVal(as[0]), constVal(as[1]), r);
  return false;
}
// operator on few possible operand values: evaluated exactly per case
static bool caseSplit(const std::string& op, const std::vector<Word>& args, int w, Word& out) {
  bool cvt = op == "sse2.cvtps2dq:32" || op == "sse2.cvttps2dq:32";
  if (!cvt) { static const char* ok[] = {"fadd", "fsub", "fmul", "fdiv", "folt", "fole", "foeq"}; bool f = false; for (auto o : ok) f |= op.compare(0, 4, o) == 0 && (op.size() == 6 && (op.substr(4) == "32" || op.substr(4) == "64")); if (!f) return false; }
  std::vector<Bit> db; { std::set<Bit> seen; for (auto& a : args) for (Bit b : a) if (b > 1 && seen.insert(b).second) db.push_back(b); }
  uint64_t cv;
  if (db.empty()) { if (!concreteOp(op, args, cv)) return false; out = cst(cv, w); return true; }
  if (db.size() <= 3) {
    try { Budget g(200000); Word r(w, kF);
      for (int m = 0; m < (1 << db.size()); m++) { Bit c = kT; std::vector<Word> as = args;
        for (size_t k = 0; k < db.size(); k++) { bool one = (m >> k) & 1; c = D.land(c, one ? db[k] : D.inv(db[k])); for (auto& a : as) for (Bit& b : a) if (b == db[k]) b = one ? kT : kF; }
        if (c == kF) continue; if (!concreteOp(op, as, cv)) return false; for (int k = 0; k < w; k++) if (k < 64 && ((cv >> k) & 1)) r[k] = D.lor(r[k], c); }
      out = r; return true; } catch (Overflow&) { if (D.exhausted()) throw; return false; } }
  if (!cvt) { std::set<uint32_t> sup; std::vector<uint8_t> seen; for (Bit b : db) { D.support(b, sup, seen); if (sup.size() > 12) return false; } for (uint32_t v : sup) if (A[v].kind == kTerm) return false; }
  int leaves = 0; bool bad = false; std::map<std::vector<Word>, Word> memo;
  std::function<Word(const std::vector<Word>&)> rec = [&](const std::vector<Word>& as) -> Word {
    bool c = true; uint32_t top = ~0u; for (auto& a : as) for (Bit b : a) if (b > 1) { c = false; top = std::min(top, D.n[b].v); }
    if (c) { uint64_t v = 0; if (++leaves > (cvt ? 256 : 4096)) throw Overflow(); if (!concreteOp(op, as, v)) { bad = true; throw Overflow(); } return cst(v, w); }
    auto it = memo.find(as); if (it != memo.end()) return it->second; if (memo.size() > 9000) throw Overflow();
    auto hi = as, lo = as; for (size_t i = 0; i < as.size(); i++) for (size_t k = 0; k < as[i].size(); k++) { Bit b = as[i][k]; if (b > 1 && D.n[b].v == top) { hi[i][k] = D.n[b].hi; lo[i][k] = D.n[b].lo; } }
    Word h = rec(hi), l = rec(lo), r = ite(D.mk(top, kF, kT), h, l); memo[as] = r; return r; };
  try { Budget g(200000); out = rec(args); return true; } catch (Overflow&) { if (D.exhausted()) throw; return false; }
}
static Bit fterm(const std::string& op, const std::vector<Word>& args) { Word r; if (caseSplit(op, args, 1, r)) return r[0]; return term(op, args, 0); }

// ---------------------------------------------------------------- memory
struct Access { int64_t off; Bit cond; bool write; const Instruction* at; };
struct Obj {
  std::string name; int64_t size = 0, base = 0; std::vector<Bit> bits; std::vector<uint8_t> init;  // 0 = uninit garbage
  bool role = false, readOnly = false; std::map<int64_t, Bit> part; /* byte -> condition under which it was initialised */ std::string fillId; // lazily created input atoms for role memory
  std::vector<Access> acc; const Constant* cinit = nullptr; bool local = false; uint64_t addr = 0; Function* fn = nullptr; // addr: concrete address (functions and globals, if pointers are kept in memory)
};
struct PCase { Bit c; int obj; Word off; };  // off: 64-bit signed offset
struct Ptr { std::vector<PCase> cs; };
struct Val { Word bits; std::vector<Ptr> ptrs; std::vector<Val> el; };
static std::vector<Obj> O;
static Bit uninit() { return 0xffffffffu; }
static Bit rd(int o, int64_t byte, int bit) {
  Obj& ob = O[o]; Bit& b = ob.bits[byte * 8 + bit];
  if (b == uninit()) { if (ob.role) b = inputBit(ob.fillId, byte - ob.base, bit); else b = garbage("uninit:" + ob.name); }
  return b;
}

struct Eval {
  Module& M; const DataLayout& DL; std::map<const Value*, Val> env; std::map<const GlobalVariable*, int> globs;
  Bit pc = kT; const Instruction* cur = nullptr; std::set<std::string> notes; int depth = 0;
  explicit Eval(Module& m) : M(m), DL(m.getDataLayout()) {}

  int newObj(const std::string& n, int64_t size) { Obj o; o.name = n; o.size = size; o.bits.assign(size * 8, uninit()); O.push_back(std::move(o)); return O.size() - 1; }
  Ptr mkPtr(int o, int64_t off) { Ptr p; p.cs.push_back({kT, o, cst((uint64_t)off, 64)}); return p; }
  static unsigned eltBits(Type* t) { return t->getScalarType()->getPrimitiveSizeInBits(); }
  static unsigned numEl(Type* t) { if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements(); return 1; }
  static bool isPtr(Type* t) { return t->isPtrOrPtrVectorTy(); }

  Val undefVal(Type* t) {
    Val v; if (t->isStructTy() || t->isArrayTy()) { for (unsigned i = 0; i < (t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements()); i++) v.el.push_back(undefVal(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType())); return v; }
    if (isPtr(t)) { for (unsigned i = 0; i < numEl(t); i++) v.ptrs.push_back(Ptr()); return v; }
    unsigned n = eltBits(t) * numEl(t); for (unsigned i = 0; i < n; i++) v.bits.push_back(garbage("undef")); return v;
  }
  // With BITFLOW_ADDR, functions and globals have distinct concrete addresses, so that pointers to them can be stored, loaded and compared.
  static bool concreteAddr() { static const bool b = getenv("BITFLOW_ADDR"); return b; }
  std::map<const Function*, int> funcs;
  int funcObj(const Function* f) { auto it = funcs.find(f); if (it != funcs.end()) return it->second; int k = 1; for (auto& g : M) { if (&g == f) break; k++; } int o = newObj("@" + f->getName().str(), 1); O[o].fn = const_cast<Function*>(f); O[o].addr = 0x1000000000ull + k * 0x10000ull; O[o].readOnly = true; funcs[f] = o; return o; }
  uint64_t globAddr(const GlobalVariable* g) { static std::map<const GlobalVariable*, int> idx; if (idx.empty()) { int k = 1; for (auto& x : M.globals()) idx[&x] = k++; } auto it = idx.find(g); return 0x2000000000ull + (it == idx.end() ? idx.size() + 1 : it->second) * 0x10000000ull; }
  std::vector<const Function*> taken; bool takenInit = false; const std::vector<const Function*>& addrTaken() { if (!takenInit) { takenInit = true; for (auto& f : M) if (f.hasAddressTaken()) taken.push_back(&f); } return taken; }
  int globalObj(const GlobalVariable* g) {
    auto it = globs.find(g); if (it != globs.end()) return it->second;
    int o = newObj("@" + g->getName().str(), std::max<int64_t>(1, DL.getTypeAllocSize(g->getValueType())));
    globs[g] = o; if (concreteAddr()) O[o].addr = globAddr(g); static const bool initAll = getenv("BITFLOW_GLOBAL_INIT"); // program start: writable globals hold their initialiser
    if (g->hasInitializer() && (g->isConstant() || initAll)) { O[o].readOnly = g->isConstant(); std::vector<uint8_t> raw(O[o].size, 0); std::vector<uint8_t> ok(O[o].size, 1); flat(g->getInitializer(), raw, ok, 0); for (int64_t i = 0; i < O[o].size; i++) if (ok[i]) for (int b = 0; b < 8; b++) O[o].bits[i * 8 + b] = (raw[i] >> b) & 1; }
    return o;
  }
  void flat(const Constant* c, std::vector<uint8_t>& raw, std::vector<uint8_t>& ok, int64_t at) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
    if (isa<UndefValue>(c)) { for (uint64_t i = 0; i < DL.getTypeStoreSize(t); i++) ok[at + i] = 0; return; }
    if (concreteAddr() && t->isPointerTy()) { APInt off(64, 0); const Value* b = c->stripAndAccumulateConstantOffsets(DL, off, true); uint64_t a = 0; if (auto* f = dyn_cast<Function>(b)) a = O[funcObj(f)].addr; else if (auto* g = dyn_cast<GlobalVariable>(b)) a = globAddr(g); if (a) { a += off.getZExtValue(); for (int i = 0; i < 8; i++) raw[at + i] = (a >> (8 * i)) & 255; return; } }
    if (auto* ci = dyn_cast<ConstantInt>(c)) { for (unsigned i = 0; i < (ci->getBitWidth() + 7) / 8; i++) raw[at + i] = ci->getValue().extractBitsAsZExtValue(std::min(8u, ci->getBitWidth() - 8 * i), 8 * i); return; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); for (unsigned i = 0; i < v.getBitWidth() / 8; i++) raw[at + i] = v.extractBitsAsZExtValue(8, 8 * i); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = cd->getElementByteSize(); for (unsigned i = 0; i < cd->getNumElements(); i++) flat(cd->getElementAsConstant(i), raw, ok, at + i * es); return; }
    if (t->isStructTy()) { const StructLayout* sl = DL.getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < c->getNumOperands(); i++) flat(cast<Constant>(c->getOperand(i)), raw, ok, at + sl->getElementOffset(i)); return; }
    if (t->isArrayTy()) { uint64_t es = DL.getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) flat(cast<Constant>(c->getOperand(i)), raw, ok, at + i * es); return; }
    if (auto* v = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL.getTypeStoreSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) flat(c->getAggregateElement(i), raw, ok, at + i * es); return; }
    for (uint64_t i = 0; i < DL.getTypeStoreSize(t); i++) ok[at + i] = 0;
  }
  Val constant(const Constant* c) {
    Type* t = c->getType(); Val v;
    if (isa<UndefValue>(c)) return undefVal(t);
    if (auto* ci = dyn_cast<ConstantInt>(c)) { for (unsigned i = 0; i < ci->getBitWidth(); i++) v.bits.push_back(ci->getValue()[i]); return v; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt x = cf->getValueAPF().bitcastToAPInt(); for (unsigned i = 0; i < x.getBitWidth(); i++) v.bits.push_back(x[i]); return v; }
    if (auto* f = dyn_cast<Function>(c)) { if (!concreteAddr()) throw Unsupported("function address"); v.ptrs.push_back(mkPtr(funcObj(f), 0)); return v; }
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constant(ga->getAliasee());
    if (auto* g = dyn_cast<GlobalVariable>(c)) { v.ptrs.push_back(mkPtr(globalObj(g), 0)); return v; }
    if (isa<ConstantPointerNull>(c)) { v.ptrs.push_back(Ptr()); return v; }
    if (t->isVectorTy()) { for (unsigned i = 0; i < numEl(t); i++) { Constant* e = c->getAggregateElement(i); if (!e) throw Unsupported("const elt"); Val x = constant(e); cat(v.bits, x.bits); for (auto& p : x.ptrs) v.ptrs.push_back(p); } return v; }
    if (t->isStructTy() || t->isArrayTy()) { unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); for (unsigned i = 0; i < n; i++) v.el.push_back(constant(c->getAggregateElement(i))); return v; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) { Instruction* I = ce->getAsInstruction(); Val r; try { r = inst(I); } catch (...) { I->deleteValue(); throw; } env.erase(I); I->deleteValue(); return r; }
    throw Unsupported("constant");
  }
  Val get(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return constant(c);
    auto it = env.find(v); if (it == env.end()) throw Unsupported("undefined value"); return it->second;
  }
  Word W(const Value* v) { Val x = get(v); return x.bits; }

  // ---- memory access
  void note(int o, int64_t off, Bit c, bool wr) { Obj& ob = O[o]; if (ob.role && c != kF) { if (!ob.acc.empty() && ob.acc.back().off == off && ob.acc.back().cond == c && ob.acc.back().write == wr) return; ob.acc.push_back({off - ob.base, c, wr, cur}); } }
  // enumerate feasible constant offsets of a pointer case for an n-byte access
  void forOffsets(const PCase& p, Bit cond, const std::function<void(int64_t, Bit)>& f) {
    Bit c0 = D.land(cond, p.c); if (c0 == kF) return;
    if (isConst(p.off)) { f((int64_t)constVal(p.off), c0); return; }
    if (O[p.obj].role) { std::set<uint32_t> sup; std::vector<uint8_t> seen; for (Bit b : p.off) D.support(b, sup, seen); for (uint32_t v : sup) if (A[v].kind == kGarbage) { gaddr.insert(O[p.obj].name + " is accessed at an offset computed from unspecified bits (" + A[v].id + ")"); return; } }
    // cofactor enumeration over offset bits within the object
    Word off = p.off; std::vector<std::pair<int64_t, Bit>> res;
    std::function<void(int, int64_t, Bit)> rec = [&](int k, int64_t v, Bit c) {
      if (c == kF) return; if (res.size() > 5000) throw Unsupported("too many offsets");
      if (k < 0) { res.push_back({v, c}); return; }
      rec(k - 1, v, D.land(c, D.inv(off[k]))); rec(k - 1, v | (int64_t(1) << k), D.land(c, off[k]));
    };
    try { Budget g(2000000); rec(63, 0, c0); } catch (Overflow&) { throw Unsupported("variable offset"); }
    for (auto& e : res) f(e.first, e.second);
  }
  Word load(const Ptr& p, unsigned nbits, Bit cond, bool log = true) {
    unsigned nb = (nbits + 7) / 8; Word out; bool first = true;
    for (auto& c : p.cs) {
      if (!O[c.obj].role && garbageOnly(c.off)) { // only the bounds matter
        forOffsets(c, cond, [&](int64_t off, Bit cc) { for (unsigned i = 0; i < nb; i++) if (off + i < 0 || off + i >= O[c.obj].size) oob(c.obj, off + i, D.land(cc, pc)); });
        Word w; for (unsigned i = 0; i < nbits; i++) w.push_back(garbage("selected by an unspecified index")); out = first ? w : ite(D.land(cond, c.c), w, out); first = false; continue;
      }
      forOffsets(c, pc == kT ? cond : D.land(cond, pc), [&](int64_t off, Bit cc) {
        Word w; Obj* ob = &O[c.obj];
        for (unsigned i = 0; i < nb; i++) {
          int64_t o = off + i; if (log) note(c.obj, o, D.land(cc, pc), false);
          bool in = o >= 0 && o < ob->size;
          if (!in && ob->role) throw Unsupported("access far outside role memory " + ob->name);
          if (!in) oob(c.obj, o, D.land(cc, pc));
          Bit pi = kT; if (in && !ob->part.empty()) { auto it = ob->part.find(o); if (it != ob->part.end() && D.land(cc, D.inv(it->second)) != kF) pi = it->second; }
          for (int b = 0; b < 8; b++) { Bit x = in ? rd(c.obj, o, b) : garbage("oob"); if (pi != kT) x = D.ite(pi, x, garbage("uninit:" + ob->name)); w.push_back(x); }
        }
        w.resize(nbits); out = first ? w : ite(cc, w, out); first = false;
      });
    }
    if (first) { for (unsigned i = 0; i < nbits; i++) out.push_back(!p.cs.empty() || D.land(cond, pc) == kF ? kF : garbage("nullload")); }
    return out;
  }
  std::set<std::string> oobs, gaddr;
  void oob(int o, int64_t off, Bit c) { if (c == kF) return; oobs.insert(O[o].name + "[" + std::to_string(off) + "] of " + std::to_string(O[o].size)); }
  void store(const Ptr& p, const Word& w, Bit cond) {
    unsigned nb = (w.size() + 7) / 8;
    for (auto& c : p.cs) {
      forOffsets(c, D.land(cond, pc), [&](int64_t off, Bit cc) {
        Obj* ob = &O[c.obj];
        for (unsigned i = 0; i < nb; i++) {
          int64_t o = off + i; note(c.obj, o, cc, true);
          if (o < 0 || o >= ob->size) { if (ob->role) throw Unsupported("access far outside role memory " + ob->name); oob(c.obj, o, cc); continue; }
          bool fresh = false; if (!ob->role) { if (cc == kT) ob->part.erase(o); else if (ob->bits[o * 8] == uninit()) { ob->part[o] = cc; fresh = true; } else { auto it = ob->part.find(o); if (it != ob->part.end()) { it->second = D.lor(it->second, cc); if (it->second == kT) ob->part.erase(it); } } }
          for (int b = 0; b < 8; b++) { Bit nv = i * 8 + b < w.size() ? w[i * 8 + b] : kF; Bit& slot = O[c.obj].bits[o * 8 + b]; if (cc == kT || fresh) slot = nv; else { Bit old = rd(c.obj, o, b); O[c.obj].bits[o * 8 + b] = D.ite(cc, nv, old); } }
        }
      });
    }
  }
  Ptr addOff(const Ptr& p, const Word& off) { Ptr r = p; for (auto& c : r.cs) c.off = add(c.off, off); return r; }
  Ptr selPtr(Bit c, const Ptr& a, const Ptr& b) {
    if (c == kT) return a; if (c == kF) return b;
    Ptr r; Bit nc = D.inv(c);
    for (auto& x : a.cs) { PCase y = x; y.c = D.land(y.c, c); r.cs.push_back(y); }
    for (auto& x : b.cs) { PCase y = x; y.c = D.land(y.c, nc); bool m = false; for (auto& z : r.cs) if (z.obj == y.obj) { z.off = ite(z.c, z.off, y.off); z.c = D.lor(z.c, y.c); m = true; break; } if (!m) r.cs.push_back(y); }
    return r;
  }
  Word ptrWord(const Ptr& p) { // opaque address: base symbol + offset
    Word r; bool first = true;
    if (p.cs.empty()) return cst(0, 64);
    for (auto& c : p.cs) { Word base = O[c.obj].addr ? cst(O[c.obj].addr, 64) : termWord("addr:" + O[c.obj].name, {}, 64); Word a = add(base, c.off); r = first && !concreteAddr() ? a : ite(c.c, a, first ? cst(0, 64) : r); first = false; }
    return r;
  }
  // a loaded word as a pointer: its feasible values are enumerated and looked up among the concrete addresses
  Ptr wordPtr(const Word& w, Bit cond) {
    Ptr r; std::vector<std::pair<uint64_t, Bit>> res; for (Bit b : w) if (b > 1) { std::set<uint32_t> sup; std::vector<uint8_t> seen; D.support(b, sup, seen); for (uint32_t v : sup) if (A[v].kind == kGarbage) { if (A[v].id == "oob") return r; throw Unsupported("pointer loaded from unspecified memory " + A[v].id); } }
    std::function<void(int, uint64_t, Bit)> rec = [&](int k, uint64_t v, Bit c) { if (c == kF) return; if (res.size() > 3000) throw Unsupported("too many pointers"); if (k < 0) { res.push_back({v, c}); return; } rec(k - 1, v, D.land(c, D.inv(w[k]))); rec(k - 1, v | (1ull << k), D.land(c, w[k])); };
    try { Budget g(2000000); rec(63, 0, D.land(cond, pc)); } catch (Overflow&) { throw Unsupported("loaded pointer"); }
    for (auto& e : res) { if (!e.first) continue; int found = -1; for (auto* f : addrTaken()) if (O[funcObj(f)].addr == e.first) found = funcObj(f); for (auto& g : M.globals()) { uint64_t a = globAddr(&g); if (e.first >= a && e.first < a + 0x10000000ull) found = globalObj(&g); } for (size_t o = 0; found < 0 && o < O.size(); o++) if (O[o].local && O[o].addr && e.first >= O[o].addr && e.first < O[o].addr + 0x10000000ull) found = o; if (found < 0) throw Unsupported("loaded pointer to an unknown object"); PCase q; q.c = e.second; q.obj = found; q.off = cst(e.first - O[found].addr, 64); r.cs.push_back(q); }
    return r;
  }
  Val loadVal(Type* t, const Ptr& p, Bit cond) {
    Val v;
    if (t->isStructTy()) { const StructLayout* sl = DL.getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); i++) v.el.push_back(loadVal(t->getStructElementType(i), addOff(p, cst(sl->getElementOffset(i), 64)), cond)); return v; }
    if (t->isArrayTy()) { uint64_t es = DL.getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); i++) v.el.push_back(loadVal(t->getArrayElementType(), addOff(p, cst(i * es, 64)), cond)); return v; }
    if (isPtr(t)) { if (!concreteAddr()) throw Unsupported("load ptr"); v.ptrs.push_back(wordPtr(load(p, 64, cond), cond)); return v; }
    v.bits = load(p, eltBits(t) * numEl(t), cond); return v;
  }
  void storeVal(Type* t, const Val& v, const Ptr& p, Bit cond) {
    if (t->isStructTy()) { const StructLayout* sl = DL.getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); i++) storeVal(t->getStructElementType(i), v.el[i], addOff(p, cst(sl->getElementOffset(i), 64)), cond); return; }
    if (t->isArrayTy()) { uint64_t es = DL.getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); i++) storeVal(t->getArrayElementType(), v.el[i], addOff(p, cst(i * es, 64)), cond); return; }
    if (isPtr(t)) { Word w; for (auto& q : v.ptrs) cat(w, ptrWord(q)); store(p, w, cond); return; }
    store(p, v.bits, cond);
  }

  // ---- instructions
  Bit fcmpBit(CmpInst::Predicate P, const Word& a, const Word& b) {
    using C = CmpInst; bool fin = false; (void)fin;
    std::string w = std::to_string(a.size());
    auto olt = [&](const Word& x, const Word& y) { return x == y ? kF : fterm("folt" + w, {x, y}); };
    auto ole = [&](const Word& x, const Word& y) { return fterm("fole" + w, {x, y}); };
    auto oeq = [&](Word x, Word y) { if (y < x) std::swap(x, y); return fterm("foeq" + w, {x, y}); };
    auto uno = [&](Word x, Word y) { // isnan(x) | isnan(y), exact bit definition
      auto nan = [&](const Word& z) -> Bit { int m = z.size() == 64 ? 52 : z.size() == 32 ? 23 : z.size() == 16 ? 10 : -1; if (m < 0) return term("fnan" + w, {z}, 0); Word e(z.begin() + m, z.end() - 1), f(z.begin(), z.begin() + m); return D.land(andAll(e), orAll(f)); };
      return D.lor(nan(x), nan(y)); };
    switch (P) {
      case C::FCMP_FALSE: return kF; case C::FCMP_TRUE: return kT;
      case C::FCMP_OLT: return olt(a, b); case C::FCMP_OGT: return olt(b, a); case C::FCMP_OLE: return ole(a, b); case C::FCMP_OGE: return ole(b, a);
      case C::FCMP_UGE: return D.inv(olt(a, b)); case C::FCMP_ULE: return D.inv(olt(b, a)); case C::FCMP_UGT: return D.inv(ole(a, b)); case C::FCMP_ULT: return D.inv(ole(b, a));
      case C::FCMP_OEQ: return oeq(a, b); case C::FCMP_UNE: return D.inv(oeq(a, b));
      case C::FCMP_UNO: return uno(a, b); case C::FCMP_ORD: return D.inv(uno(a, b));
      case C::FCMP_UEQ: return D.lor(oeq(a, b), uno(a, b)); case C::FCMP_ONE: return D.inv(D.lor(oeq(a, b), uno(a, b)));
      default: throw Unsupported("fcmp");
    }
  }
  Bit icmpBit(CmpInst::Predicate P, const Word& a, const Word& b) {
    using C = CmpInst;
    switch (P) { case C::ICMP_EQ: return eqw(a, b); case C::ICMP_NE: return D.inv(eqw(a, b));
      case C::ICMP_ULT: return ultw(a, b); case C::ICMP_UGT: return ultw(b, a); case C::ICMP_ULE: return D.inv(ultw(b, a)); case C::ICMP_UGE: return D.inv(ultw(a, b));
      case C::ICMP_SLT: return sltw(a, b); case C::ICMP_SGT: return sltw(b, a); case C::ICMP_SLE: return D.inv(sltw(b, a)); case C::ICMP_SGE: return D.inv(sltw(a, b)); default: throw Unsupported("icmp"); }
  }
  // restoring division, exact within a node budget; division by zero is left opaque
  bool divide(const Word& x, const Word& y, bool quot, Word& out) {
    if (!concreteAddr() || x.size() > 64 || y.size() > 64 || D.land(pc, D.inv(orAll(y))) != kF) return false; int n = y.size();
    try { Budget g(3000000); Word r(n + 1, kF), yy = y, q(x.size(), kF); yy.push_back(kF);
      for (int k = (int)x.size() - 1; k >= 0; k--) { r.insert(r.begin(), x[k]); r.pop_back(); Bit ge = D.inv(ultw(r, yy)); q[k] = ge; r = ite(ge, subw(r, yy), r); }
      if (quot) out = q; else { r.resize(std::min<size_t>(n, x.size())); out = r; } return true; } catch (Overflow&) { if (D.exhausted()) throw; return false; }
  }
  Word lanes(Type* t, const std::function<Word(int)>& f) { Word r; for (unsigned i = 0; i < numEl(t); i++) cat(r, f(i)); return r; }
  Word fbin(const std::string& op, Word a, Word b, bool comm) { if (comm && b < a) std::swap(a, b); return termWord(op + std::to_string(a.size()), {a, b}, a.size()); }

  // binary64 -> binary32, round to nearest even, exact when the exponent field is constant
  bool narrowFp(const Word& x, Word& out) {
    Word ef(x.begin() + 52, x.begin() + 63); if (!isConst(ef)) return false;
    int e = (int)constVal(ef); Bit sgn = x[63]; Word m(x.begin(), x.begin() + 52); out.assign(32, kF); out[31] = sgn;
    auto inf = [&]() { for (int k = 23; k < 31; k++) out[k] = kT; };
    if (e == 2047) { inf(); Bit nan = orAll(m); for (int k = 0; k < 23; k++) out[k] = m[k + 29]; out[22] = nan; return true; }
    if (e >= 1151) { inf(); return true; }
    int sh = e >= 897 ? 29 : 29 + (897 - e); if (e == 0 || sh > 54) return true; // below half of the smallest subnormal
    Word M = m; M.push_back(kT); M.resize(64, kF); // 53 significant bits
    Word base(32, kF); for (int k = sh; k < 64 && k - sh < 32; k++) base[k - sh] = M[k];
    Bit half = sh - 1 < 64 ? M[sh - 1] : kF; Word low(M.begin(), M.begin() + std::min(sh - 1, 64)); Bit up = D.land(half, D.lor(orAll(low), base[0]));
    Word inc(32, kF); inc[0] = up; Word r = add(base, inc); if (e >= 897) r = add(r, cst((uint64_t)(e - 897) << 23, 32)); // the hidden bit adds one to the exponent field
    for (int k = 0; k < 31; k++) out[k] = r[k]; return true;
  }
  Val inst(const Instruction* I) {
    Type* t = I->getType(); Val v; unsigned w = 0; if (t->isIntOrIntVectorTy() || t->isFPOrFPVectorTy()) w = eltBits(t);
    if (auto* bo = dyn_cast<BinaryOperator>(I)) {
      Word a = W(bo->getOperand(0)), b = W(bo->getOperand(1));
      switch (bo->getOpcode()) {
        case Instruction::And: v.bits.resize(a.size()); for (size_t i = 0; i < a.size(); i++) v.bits[i] = D.land(a[i], b[i]); return v;
        case Instruction::Or: v.bits.resize(a.size()); for (size_t i = 0; i < a.size(); i++) v.bits[i] = D.lor(a[i], b[i]); return v;
        case Instruction::Xor: v.bits.resize(a.size()); for (size_t i = 0; i < a.size(); i++) v.bits[i] = D.lxor(a[i], b[i]); return v;
        default: break;
      }
      v.bits = lanes(t, [&](int i) -> Word {
        Word x = sub(a, i * w, w), y = sub(b, i * w, w);
        switch (bo->getOpcode()) {
          case Instruction::Add: return add(x, y); case Instruction::Sub: return subw(x, y); case Instruction::Mul: return mul(x, y);
          case Instruction::Shl: return shift(x, y, 0); case Instruction::LShr: return shift(x, y, 1); case Instruction::AShr: return shift(x, y, 2);
          case Instruction::UDiv: case Instruction::URem: { bool q = bo->getOpcode() == Instruction::UDiv; if (w > 64 && isConst(x) && isConst(y)) { APInt X(w, 0), Y(w, 0); for (unsigned k = 0; k < w; k++) { if (x[k] == kT) X.setBit(k); if (y[k] == kT) Y.setBit(k); } if (Y != 0) { APInt R = q ? X.udiv(Y) : X.urem(Y); Word r(w, kF); for (unsigned k = 0; k < w; k++) r[k] = R[k] ? kT : kF; return r; } } if (isConst(x) && isConst(y) && w <= 64 && constVal(y)) return cst(q ? constVal(x) / constVal(y) : constVal(x) % constVal(y), w); if (isConst(y) && w <= 64) { uint64_t c = constVal(y); if (c && !(c & (c - 1))) { int s = __builtin_ctzll(c); Word r(w, kF); if (q) { for (unsigned k = s; k < w; k++) r[k - s] = x[k]; } else for (int k = 0; k < s; k++) r[k] = x[k]; return r; } }
            { Word xt = trimTop(x), yt = trimTop(y); Word ex; if (divide(xt, yt, q, ex)) return ext(ex, w, false); Word r = termWord(q ? "udiv" : "urem", {xt, yt}, std::min<int>(w, xt.size())); return ext(r, w, false); } }
          case Instruction::SDiv: return termWord("sdiv", {x, y}, w); case Instruction::SRem: return termWord("srem", {x, y}, w);
          case Instruction::FAdd: return fbin("fadd", x, y, true); case Instruction::FSub: return fbin("fsub", x, y, false); case Instruction::FMul: return fbin("fmul", x, y, true); case Instruction::FDiv: return fbin("fdiv", x, y, false); case Instruction::FRem: return fbin("frem", x, y, false);
          default: throw Unsupported(bo->getOpcodeName());
        } });
      return v;
    }
    if (auto* u = dyn_cast<UnaryOperator>(I)) { Word a = W(u->getOperand(0)); v.bits = lanes(t, [&](int i) { Word x = sub(a, i * w, w); return flipTop(x); }); return v; }
    if (auto* c = dyn_cast<CmpInst>(I)) {
      Type* ot = c->getOperand(0)->getType();
      if (isPtr(ot)) { Val a = get(c->getOperand(0)), b = get(c->getOperand(1)); for (size_t i = 0; i < a.ptrs.size(); i++) { bool n0 = a.ptrs[i].cs.empty(), n1 = b.ptrs[i].cs.empty(); if ((n0 != n1) && c->isEquality()) { Bit nn = kF; for (auto& q : n0 ? b.ptrs[i].cs : a.ptrs[i].cs) nn = D.lor(nn, q.c); v.bits.push_back(c->getPredicate() == CmpInst::ICMP_NE ? nn : D.inv(nn)); } else v.bits.push_back(icmpBit(c->getPredicate(), ptrWord(a.ptrs[i]), ptrWord(b.ptrs[i]))); } return v; }
      Word a = W(c->getOperand(0)), b = W(c->getOperand(1)); unsigned ow = eltBits(ot);
      for (unsigned i = 0; i < numEl(ot); i++) { Word x = sub(a, i * ow, ow), y = sub(b, i * ow, ow); v.bits.push_back(isa<FCmpInst>(c) ? fcmpBit(c->getPredicate(), x, y) : icmpBit(c->getPredicate(), x, y)); }
      return v;
    }
    if (auto* c = dyn_cast<CastInst>(I)) {
      Type* ot = c->getOperand(0)->getType(); Val a = get(c->getOperand(0));
      switch (c->getOpcode()) {
        case Instruction::BitCast: if (isPtr(t) != isPtr(ot)) throw Unsupported("bitcast ptr"); return a;
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: { unsigned ow = eltBits(ot); v.bits = lanes(t, [&](int i) { return ext(sub(a.bits, i * ow, ow), w, c->getOpcode() == Instruction::SExt); }); if (c->getOpcode() == Instruction::Trunc) {} return v; }
        case Instruction::PtrToInt: { for (auto& p : a.ptrs) cat(v.bits, ext(ptrWord(p), w, false)); return v; }
        case Instruction::IntToPtr: { Word x = ext(a.bits, 64, false); if (numEl(t) > 1 || isa<FixedVectorType>(t)) throw Unsupported("inttoptr"); // an address minus the base of its object is a plain offset
          for (size_t o = 0; o < O.size(); o++) { if (!O[o].role) continue; Word base = termWord("addr:" + O[o].name, {}, 64); Word off = subw(x, base); std::set<uint32_t> sup; std::vector<uint8_t> seen; for (Bit b : off) D.support(b, sup, seen); bool ok = true; for (uint32_t q : sup) if (A[q].kind == kTerm && opNames[A[q].op].compare(0, 5, "addr:") == 0) ok = false; if (!ok) continue; PCase pcs; pcs.obj = o; pcs.off = off; pcs.c = kT; Ptr pp; pp.cs.push_back(pcs); v.ptrs.push_back(pp); return v; }
          if (concreteAddr()) { v.ptrs.push_back(wordPtr(x, kT)); return v; } throw Unsupported("inttoptr"); }
        case Instruction::AddrSpaceCast: return a;
        default: { unsigned ow = eltBits(ot); std::string nm = std::string(c->getOpcodeName()) + std::to_string(ow) + "_" + std::to_string(w);
          bool fromInt = c->getOpcode() == Instruction::SIToFP || c->getOpcode() == Instruction::UIToFP;
          v.bits = lanes(t, [&](int i) { Word x = sub(a.bits, i * ow, ow);
            if (fromInt) { bool s = c->getOpcode() == Instruction::SIToFP; while (x.size() > 1 && (s ? x[x.size() - 1] == x[x.size() - 2] : x.back() == kF)) x.pop_back(); if (s && x.back() == kF && x.size() > 1) { x.pop_back(); s = false; } Word ex; gIntFpArg = x; gIntFpOp = std::string(s ? "sitofp" : "uitofp") + std::to_string(w); if (intToFp(s ? absw(x) : x, s ? x.back() : kF, w, ex)) return ex; return termWord(std::string(s ? "sitofp" : "uitofp") + std::to_string(w), {x}, w); }
            { Word ex; if (c->getOpcode() == Instruction::FPTrunc && ow == 64 && w == 32 && narrowFp(x, ex)) return ex; }
            return termWord(nm, {x}, w); }); return v; }
      }
    }
    if (auto* s = dyn_cast<SelectInst>(I)) {
      Word c = W(s->getCondition()); Val a = get(s->getTrueValue()), b = get(s->getFalseValue());
      if (isPtr(t)) { for (size_t i = 0; i < a.ptrs.size(); i++) v.ptrs.push_back(selPtr(c.size() > 1 ? c[i] : c[0], a.ptrs[i], b.ptrs[i])); return v; }
      return selVal(t, c, a, b);
    }
    if (auto* f = dyn_cast<FreezeInst>(I)) return get(f->getOperand(0));
    if (auto* sv = dyn_cast<ShuffleVectorInst>(I)) {
      Val a = get(sv->getOperand(0)), b = get(sv->getOperand(1)); unsigned n = numEl(sv->getOperand(0)->getType());
      if (isPtr(t)) throw Unsupported("ptr shuffle");
      for (int m : sv->getShuffleMask()) { if (m < 0) { for (unsigned k = 0; k < w; k++) v.bits.push_back(garbage("undef")); } else cat(v.bits, m < (int)n ? sub(a.bits, m * w, w) : sub(b.bits, (m - n) * w, w)); }
      return v;
    }
    if (auto* e = dyn_cast<ExtractElementInst>(I)) {
      Val a = get(e->getVectorOperand()); Word ix = W(e->getIndexOperand()); unsigned n = numEl(e->getVectorOperand()->getType());
      if (isPtr(t)) { if (!isConst(ix)) throw Unsupported("ptr extract"); v.ptrs.push_back(a.ptrs[constVal(ix)]); return v; }
      if (isConst(ix)) { if (constVal(ix) >= n) return undefVal(t); v.bits = sub(a.bits, constVal(ix) * w, w); return v; }
      v.bits = muxw(a.bits, w, n, ix); return v;
    }
    if (auto* e = dyn_cast<InsertElementInst>(I)) {
      Val a = get(e->getOperand(0)), x = get(e->getOperand(1)); Word ix = W(e->getOperand(2)); unsigned n = numEl(t); v = a;
      if (isPtr(t)) { if (!isConst(ix)) throw Unsupported("ptr insert"); v.ptrs[constVal(ix)] = x.ptrs[0]; return v; }
      for (unsigned i = 0; i < n; i++) { Bit c = eqw(ix, cst(i, ix.size())); if (c == kF) continue; for (unsigned k = 0; k < w; k++) v.bits[i * w + k] = D.ite(c, x.bits[k], v.bits[i * w + k]); }
      return v;
    }
    if (auto* e = dyn_cast<ExtractValueInst>(I)) { v = get(e->getAggregateOperand()); for (unsigned i : e->indices()) { Val t2 = v.el[i]; v = t2; } return v; }
    if (auto* e = dyn_cast<InsertValueInst>(I)) { v = get(e->getAggregateOperand()); Val* p = &v; for (unsigned i : e->indices()) p = &p->el[i]; *p = get(e->getInsertedValueOperand()); return v; }
    if (auto* a = dyn_cast<AllocaInst>(I)) { auto sz = a->getAllocationSize(DL); if (!sz) throw Unsupported("alloca"); int o = newObj("local:" + a->getName().str(), sz->getFixedValue()); O[o].local = true; if (concreteAddr()) O[o].addr = 0x700000000000ull + o * 0x10000000ull; v.ptrs.push_back(mkPtr(o, 0)); return v; }
    if (auto* g = dyn_cast<GetElementPtrInst>(I)) { return gep(g); }
    if (auto* l = dyn_cast<LoadInst>(I)) { Val p = get(l->getPointerOperand()); return loadVal(t, p.ptrs[0], kT); }
    if (auto* s = dyn_cast<StoreInst>(I)) { Val p = get(s->getPointerOperand()); storeVal(s->getValueOperand()->getType(), get(s->getValueOperand()), p.ptrs[0], kT); return v; }
    if (isa<FenceInst>(I)) return v;
    if (auto* r = dyn_cast<AtomicRMWInst>(I)) { // sequential semantics: the check quantifies over one thread's inputs
      if (isPtr(t)) throw Unsupported("atomicrmw ptr"); Val p = get(r->getPointerOperand()); v = loadVal(t, p.ptrs[0], kT); Word x = v.bits, y = W(r->getValOperand()), z(x.size());
      switch (r->getOperation()) { case AtomicRMWInst::Xchg: z = y; break; case AtomicRMWInst::Add: z = add(x, y); break; case AtomicRMWInst::Sub: z = subw(x, y); break; case AtomicRMWInst::And: for (size_t i = 0; i < x.size(); i++) z[i] = D.land(x[i], y[i]); break; case AtomicRMWInst::Or: for (size_t i = 0; i < x.size(); i++) z[i] = D.lor(x[i], y[i]); break; case AtomicRMWInst::Xor: for (size_t i = 0; i < x.size(); i++) z[i] = D.lxor(x[i], y[i]); break; case AtomicRMWInst::UMax: z = umax(x, y); break; case AtomicRMWInst::UMin: z = umin(x, y); break; case AtomicRMWInst::Max: z = smax(x, y); break; case AtomicRMWInst::Min: z = smin(x, y); break; default: throw Unsupported("atomicrmw"); }
      Val nv; nv.bits = z; storeVal(t, nv, p.ptrs[0], kT); return v; }
    if (auto* x = dyn_cast<AtomicCmpXchgInst>(I)) { Type* ct = x->getCompareOperand()->getType(); if (isPtr(ct)) throw Unsupported("cmpxchg ptr"); Val p = get(x->getPointerOperand()); Val old = loadVal(ct, p.ptrs[0], kT); Bit eq = eqw(old.bits, W(x->getCompareOperand())); Val nv; nv.bits = ite(eq, W(x->getNewValOperand()), old.bits); storeVal(ct, nv, p.ptrs[0], kT); Val e; e.bits = {eq}; v.el = {old, e}; return v; }
    if (auto* c = dyn_cast<CallInst>(I)) return call(c);
    throw Unsupported(std::string("inst ") + I->getOpcodeName());
  }
  Val selVal(Type* t, const Word& c, const Val& a, const Val& b) {
    Val v; if (t->isStructTy() || t->isArrayTy()) { for (size_t i = 0; i < a.el.size(); i++) v.el.push_back(selVal(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(), c, a.el[i], b.el[i])); return v; }
    if (isPtr(t)) { for (size_t i = 0; i < a.ptrs.size(); i++) v.ptrs.push_back(selPtr(c.size() > 1 ? c[i] : c[0], a.ptrs[i], b.ptrs[i])); return v; }
    unsigned w = eltBits(t); v.bits.resize(a.bits.size()); for (size_t i = 0; i < a.bits.size(); i++) v.bits[i] = D.ite(c.size() > 1 ? c[i / w] : c[0], a.bits[i], b.bits[i]); return v;
  }
  Val gep(const GEPOperator* g) { return gepI(g); }
  Val gep(const GetElementPtrInst* g) { return gepI(cast<GEPOperator>(g)); }
  Val gepI(const GEPOperator* g) {
    Val v; Val base = get(g->getPointerOperand()); unsigned n = 1; if (auto* vt = dyn_cast<FixedVectorType>(g->getType())) n = vt->getNumElements();
    for (unsigned i = 0; i < n; i++) {
      Word off = cst(0, 64);
      for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
        Value* ix = gi.getOperand();
        if (StructType* st = gi.getStructTypeOrNull()) { uint64_t f = cast<ConstantInt>(ix)->getZExtValue(); off = add(off, cst(DL.getStructLayout(st)->getElementOffset(f), 64)); continue; }
        Word x = W(ix); unsigned iw = eltBits(ix->getType()); if (numEl(ix->getType()) > 1 || isa<FixedVectorType>(ix->getType())) x = sub(x, i * iw, iw);
        uint64_t es = DL.getTypeAllocSize(gi.getIndexedType()); off = add(off, mul(ext(x, 64, true), cst(es, 64)));
      }
      v.ptrs.push_back(addOff(base.ptrs.size() > 1 ? base.ptrs[i] : base.ptrs[0], off));
    }
    return v;
  }
  Word shift(const Word& x, const Word& y, int kind) {
    int w = x.size();
    if (isConst(y)) { uint64_t s = constVal(y); if (s >= (uint64_t)w) { Word r; for (int i = 0; i < w; i++) r.push_back(garbage("undef")); return r; } return shvar(x, y, kind, false); }
    return shvar(x, y, kind, false);
  }
  // select element ix (word) among n elements of width w; index taken modulo low bits only
  // a non-constant word all of whose bits are functions of unspecified bits alone
  static bool garbageOnly(const Word& x) {
    if (isConst(x)) return false; std::set<uint32_t> sup; std::vector<uint8_t> seen; for (Bit b : x) D.support(b, sup, seen);
    for (uint32_t v : sup) if (A[v].kind != kGarbage) return false; return true;
  }
  Word muxw(const Word& tbl, unsigned w, unsigned n, const Word& ix) {
    std::vector<Word> cur; for (unsigned i = 0; i < n; i++) cur.push_back(sub(tbl, i * w, w));
    if (garbageOnly(ix)) { bool same = true; for (auto& c : cur) same &= c == cur[0]; if (same) return cur[0]; Word r; for (unsigned i = 0; i < w; i++) r.push_back(garbage("selected by an unspecified index")); return r; }
    unsigned k = 0; while (cur.size() > 1) { std::vector<Word> nx; Bit s = k < ix.size() ? ix[k] : kF; for (size_t i = 0; i < cur.size(); i += 2) nx.push_back(i + 1 < cur.size() ? ite(s, cur[i + 1], cur[i]) : cur[i]); cur.swap(nx); k++; }
    return cur[0];
  }
#include "intrinsics.inc"

  // ---- control flow
  bool run(Function& F, const std::vector<Val>& args) {
    unsigned ai = 0; for (auto& a : F.args()) env[&a] = args[ai++];
    BasicBlock* bb = &F.getEntryBlock(); BasicBlock* pred = nullptr; int steps = 0; pc = kT;
    while (true) {
      if (++steps > 60000) throw Unsupported("steps");
      // phis
      std::vector<std::pair<const Instruction*, Val>> ph;
      for (auto& phi : bb->phis()) ph.push_back({&phi, get(phi.getIncomingValueForBlock(pred))});
      for (auto& e : ph) env[e.first] = e.second;
      for (auto& I : *bb) { if (isa<PHINode>(I) || I.isTerminator()) continue; cur = &I; env[&I] = inst(&I); }
      Instruction* T = bb->getTerminator(); cur = T; if (pc == kF) return false;
      if (isa<ReturnInst>(T)) return true;
      if (isa<UnreachableInst>(T)) return false;
      BasicBlock* nxt = nullptr;
      if (auto* br = dyn_cast<BranchInst>(T)) { if (!br->isConditional()) nxt = br->getSuccessor(0); else { Bit c = W(br->getCondition())[0]; if (c == kT) nxt = br->getSuccessor(0); else if (c == kF) nxt = br->getSuccessor(1); } }
      else if (auto* sw = dyn_cast<SwitchInst>(T)) { Word c = W(sw->getCondition()); if (isConst(c)) { nxt = sw->getDefaultDest(); for (auto& cs : sw->cases()) { if (constant(cs.getCaseValue()).bits == c) nxt = cs.getCaseSuccessor(); } } }
      else throw Unsupported("terminator");
      if (nxt) { pred = bb; bb = nxt; continue; }
      region(bb); return true;
    }
  }
  // ---- general control flow: loops with data-dependent trip counts are iterated until the condition of the back edge
  // is the constant false; state is merged per edge (LCSSA form), memory through the block condition.
  struct EdgeV { Bit c = kF; std::vector<std::pair<const PHINode*, Val>> phi; };
  std::map<std::pair<BasicBlock*, BasicBlock*>, EdgeV> ge; LoopInfo* LI = nullptr; std::map<Loop*, std::vector<BasicBlock*>> lord; size_t gsteps = 0;
  void gEdge(BasicBlock* a, BasicBlock* b, Bit c) {
    if (c == kF) return; EdgeV& e = ge[{a, b}]; bool first = e.c == kF; size_t k = 0;
    for (auto& phi : b->phis()) { Val x = get(phi.getIncomingValueForBlock(a)); if (first) e.phi.push_back({&phi, x}); else { e.phi[k].second = selVal(phi.getType(), Word{c}, x, e.phi[k].second); } k++; }
    e.c = first ? c : D.lor(e.c, c);
  }
  std::vector<std::pair<Bit, Val>> rets; Bit econd = kT, retCov = kF; std::set<Function*> active; int redepth = 0;
  // the callee's body is evaluated in place under the current condition
  Val callFn(Function* G, const std::vector<Val>& args, Bit cond) {
    Val none; if (cond == kF) return G->getReturnType()->isVoidTy() ? none : undefVal(G->getReturnType());
    bool again = !active.insert(G).second; if (again ? !concreteAddr() || ++redepth > 64 : active.size() > 12) throw Unsupported("recursion into " + G->getName().str());
    std::vector<std::pair<const Value*, Val>> senv; decltype(ge) sge; if (again) { auto keep = [&](const Value* v) { auto it = env.find(v); if (it != env.end()) senv.emplace_back(v, it->second); }; for (auto& a : G->args()) keep(&a); for (auto& b : *G) for (auto& i : b) keep(&i); sge = std::move(ge); ge.clear(); } // the outer activation's values
    auto sLI = LI; auto sl = std::move(lord); lord.clear(); auto sr = std::move(rets); rets.clear(); Bit se = econd, sp = pc, sv = retCov; retCov = kF; const Instruction* sc = cur;
    econd = cond; runGeneral(*G, args); auto rr = std::move(rets);
    LI = sLI; lord = std::move(sl); rets = std::move(sr); econd = se; pc = D.land(sp, D.inv(D.land(cond, D.inv(retCov)))); retCov = sv; cur = sc; if (again) { for (auto& e : senv) env[e.first] = std::move(e.second); ge = std::move(sge); redepth--; } else active.erase(G); // what does not return from the callee does not continue here
    if (G->getReturnType()->isVoidTy()) return none; if (rr.empty()) return undefVal(G->getReturnType());
    Val v = rr[0].second; for (size_t i = 1; i < rr.size(); i++) v = selVal(G->getReturnType(), Word{rr[i].first}, rr[i].second, v); return v;
  }
  bool gPending(BasicBlock* b) { for (BasicBlock* p : predecessors(b)) { auto it = ge.find({p, b}); if (it != ge.end() && it->second.c != kF) return true; } return false; }
  void gBlock(BasicBlock* b, bool entry) {
    Bit c = entry ? econd : kF; if (++gsteps > (concreteAddr() ? 20000000u : 200000u)) throw Unsupported("steps");
    if (!entry) {
      std::vector<EdgeV> in; std::set<BasicBlock*> seen; for (BasicBlock* p : predecessors(b)) { if (!seen.insert(p).second) continue; auto it = ge.find({p, b}); if (it == ge.end()) continue; in.push_back(std::move(it->second)); ge.erase(it); }
      if (in.empty()) return;
      std::vector<std::pair<const PHINode*, Val>> vals;
      for (auto& e : in) { if (c == kF) vals = e.phi; else for (size_t i = 0; i < vals.size(); i++) vals[i].second = selVal(vals[i].first->getType(), Word{e.c}, e.phi[i].second, vals[i].second); c = D.lor(c, e.c); }
      for (auto& v : vals) env[v.first] = v.second;
    }
    if (c == kF) return;
    pc = c; for (auto& I : *b) { if (isa<PHINode>(I) || I.isTerminator()) continue; cur = &I; env[&I] = inst(&I); }
    Instruction* T = b->getTerminator(); cur = T; c = pc; if (c == kF) return;
    if (auto* br = dyn_cast<BranchInst>(T)) { if (!br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1)) gEdge(b, br->getSuccessor(0), c); else { Bit k = W(br->getCondition())[0]; gEdge(b, br->getSuccessor(0), D.land(c, k)); gEdge(b, br->getSuccessor(1), D.land(c, D.inv(k))); } }
    else if (auto* sw = dyn_cast<SwitchInst>(T)) { Word x = W(sw->getCondition()); Bit rest = c; std::map<BasicBlock*, Bit> to; for (auto& cs : sw->cases()) { Bit e = eqw(x, constant(cs.getCaseValue()).bits); Bit& t = to.emplace(cs.getCaseSuccessor(), kF).first->second; t = D.lor(t, D.land(c, e)); rest = D.land(rest, D.inv(e)); } Bit& t = to.emplace(sw->getDefaultDest(), kF).first->second; t = D.lor(t, rest); for (auto& q : to) gEdge(b, q.first, q.second); }
    else if (auto* ri = dyn_cast<ReturnInst>(T)) { retCov = D.lor(retCov, c); if (ri->getReturnValue() && !active.empty()) rets.push_back({c, get(ri->getReturnValue())}); }
    else if (!isa<UnreachableInst>(T)) throw Unsupported("terminator");
  }
  Loop* childOf(Loop* L, BasicBlock* b) { Loop* x = LI->getLoopFor(b); if (x == L) return nullptr; while (x && x->getParentLoop() != L) x = x->getParentLoop(); return x; }
  void gLevel(Loop* L, BasicBlock* entry, bool fnEntry) {
    auto it = lord.find(L);
    if (it == lord.end()) {
      std::vector<BasicBlock*> order; std::map<BasicBlock*, int> st; // child loops are represented by their headers
      std::function<void(BasicBlock*)> dfs = [&](BasicBlock* b) { st[b] = 1; SmallVector<BasicBlock*, 8> succ; if (Loop* C = childOf(L, b)) C->getExitBlocks(succ); else for (BasicBlock* s : successors(b)) succ.push_back(s);
        for (BasicBlock* s : succ) { if (L && (!L->contains(s) || s == L->getHeader())) continue; if (Loop* C = childOf(L, s)) { if (s != C->getHeader()) throw Unsupported("irreducible loop"); } if (st[s] == 1) throw Unsupported("irreducible loop"); if (!st[s]) dfs(s); } st[b] = 2; order.push_back(b); };
      dfs(entry); std::reverse(order.begin(), order.end()); it = lord.emplace(L, order).first;
    }
    std::vector<BasicBlock*> order = it->second;
    for (BasicBlock* b : order) {
      if (Loop* C = childOf(L, b)) { int n = 0; while (gPending(b)) { if (++n > 5000) throw Unsupported("loop does not close"); gLevel(C, b, false); } }
      else gBlock(b, fnEntry && b == entry);
    }
  }
  void runGeneral(Function& F, const std::vector<Val>& args) {
    unsigned ai = 0; for (auto& a : F.args()) env[&a] = args[ai++]; 
    static std::map<Function*, bool> done; if (!done[&F]) { done[&F] = true; PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM); FunctionPassManager P; P.addPass(LoopSimplifyPass()); P.addPass(LCSSAPass()); P.run(F, FAM); }
    DominatorTree DT(F); LoopInfo li(DT); LI = &li; gLevel(nullptr, &F.getEntryBlock(), true); LI = nullptr; pc = kT;
  }
  // acyclic if-conversion of everything reachable from bb's terminator
  void region(BasicBlock* start) {
    std::vector<BasicBlock*> order; std::map<BasicBlock*, int> st;
    std::function<void(BasicBlock*)> dfs = [&](BasicBlock* b) { st[b] = 1; for (BasicBlock* s : successors(b)) { if (st[s] == 1) throw Unsupported("data-dependent loop"); if (!st[s]) dfs(s); } st[b] = 2; order.push_back(b); };
    dfs(start); std::reverse(order.begin(), order.end());
    std::map<std::pair<BasicBlock*, BasicBlock*>, Bit> edge; std::map<BasicBlock*, Bit> bc; bc[start] = pc;
    auto addEdge = [&](BasicBlock* a, BasicBlock* b, Bit c) { auto k = std::make_pair(a, b); auto it = edge.find(k); edge[k] = it == edge.end() ? c : D.lor(it->second, c); };
    for (BasicBlock* b : order) {
      if (b != start) {
        Bit c = kF; for (BasicBlock* p : predecessors(b)) { auto it = edge.find({p, b}); if (it != edge.end()) c = D.lor(c, it->second); }
        bc[b] = c; if (c == kF) { continue; }
        for (auto& phi : b->phis()) { Val v; bool first = true; for (unsigned i = 0; i < phi.getNumIncomingValues(); i++) { auto it = edge.find({phi.getIncomingBlock(i), b}); if (it == edge.end() || it->second == kF) continue; Val x = get(phi.getIncomingValue(i)); v = first ? x : selVal(phi.getType(), Word{it->second}, x, v); first = false; } env[&phi] = v; }
        pc = c; for (auto& I : *b) { if (isa<PHINode>(I) || I.isTerminator()) continue; cur = &I; env[&I] = inst(&I); } bc[b] = pc;
      }
      Instruction* T = b->getTerminator(); Bit c = bc[b]; pc = c;
      if (auto* br = dyn_cast<BranchInst>(T)) { if (!br->isConditional()) addEdge(b, br->getSuccessor(0), c); else { Bit k = W(br->getCondition())[0]; addEdge(b, br->getSuccessor(0), D.land(c, k)); addEdge(b, br->getSuccessor(1), D.land(c, D.inv(k))); } }
      else if (auto* sw = dyn_cast<SwitchInst>(T)) { Word x = W(sw->getCondition()); Bit rest = c; for (auto& cs : sw->cases()) { Bit e = eqw(x, constant(cs.getCaseValue()).bits); addEdge(b, cs.getCaseSuccessor(), D.land(c, e)); rest = D.land(rest, D.inv(e)); } addEdge(b, sw->getDefaultDest(), rest); }
      else if (!isa<ReturnInst>(T) && !isa<UnreachableInst>(T)) throw Unsupported("terminator");
    }
    pc = kT;
  }
};

// ------------------------------------------------------------------ driver
static std::vector<std::string> split(const std::string& s, char d) { std::vector<std::string> r; std::string x; std::stringstream ss(s); while (std::getline(ss, x, d)) r.push_back(x); return r; }
struct Role { char kind = 0; bool out = false, mask = false; std::string id; int Tb = 1; int N = 0; int size = 0; char rep = 'v'; int64_t lo = 0, hi = 0; std::string perm, allow; int vb = 0; uint64_t vmask = 0; bool vset = false; bool care = false; uint64_t cval = 0; bool isc = false; int bits = 0; };
static Role parseRole(const std::string& s) {
  auto f = split(s, ':'); Role r;
  if (f[0] == "v" || f[0] == "m" || f[0] == "om" || f[0] == "o") {
    r.kind = f[0] == "v" || f[0] == "o" ? 'v' : 'm'; r.out = f[0][0] == 'o'; r.id = f[1]; r.Tb = atoi(f[2].c_str()); r.N = atoi(f[3].c_str()); r.size = atoi(f[4].c_str()); if (f.size() > 5) { if (r.kind == 'm') r.rep = f[5][0]; else if (f[5][0] == 'x') { r.vmask = strtoull(f[5].c_str() + 1, 0, 16); r.vset = true; } else if (atoi(f[5].c_str())) r.vmask = (1ull << atoi(f[5].c_str())) - 1; }
  } else if (f[0] == "oc") { r.kind = 'm'; r.out = true; r.care = true; r.id = "care:" + f[1]; r.N = atoi(f[2].c_str()); r.size = r.N; r.rep = 'y'; }
  else if (f[0] == "p") { r.kind = 'p'; r.id = f[1]; r.Tb = atoi(f[2].c_str()); r.lo = atoll(f[3].c_str()); r.hi = atoll(f[4].c_str()); r.perm = f[5]; if (f.size() > 6) r.allow = f[6]; }
  else if (f[0] == "s") { r.kind = 's'; r.id = f[1]; r.bits = atoi(f[2].c_str()); r.vb = r.bits; if (f.size() > 3) { if (f[3][0] == '=') { r.isc = true; r.cval = strtoull(f[3].c_str() + 1, 0, 0); } else r.vb = atoi(f[3].c_str()); } }
  else { fprintf(stderr, "bad role %s\n", s.c_str()); exit(2); }
  return r;
}
static const int64_t kMargin = 320;
static bool bitOk(const Role& r, int by, int b) { if (!r.vmask && !r.vset) return true; int k = (by % r.Tb) * 8 + b; return k < 64 && (r.vmask >> k & 1); }
static void seedAtoms(const std::vector<Role>& rs) {
  // masks, scalars, then data interleaved by (bit position, object)
  for (auto& r : rs) if (r.kind == 'm' && !r.out) for (int i = 0; i < r.N; i++) inputBit(r.id, i, 0, true);
  if (getenv("BITFLOW_ADDR")) { for (int k = 0; k < 64; k++) for (auto& r : rs) if (r.kind == 's' && !r.isc && k < r.vb) inputBit(r.id, k / 8, k % 8); } // several wide scalars combined bit by bit
  for (auto& r : rs) if (r.kind == 's' && !r.isc) for (int k = 0; k < r.vb; k++) inputBit(r.id, k / 8, k % 8);
  // index vectors (role id 'x') precede the data they select, which keeps multiplexers small
  for (auto& r : rs) if (r.id == "x" && !r.out) { if (r.kind == 'v') for (int64_t by = 0; by < r.Tb * r.N; by++) for (int b = 0; b < 8; b++) if (bitOk(r, by, b)) inputBit(r.id, by, b); if (r.kind == 'p') for (int64_t by = r.lo; by < r.hi; by++) for (int b = 0; b < 8; b++) inputBit(r.id, by, b); }
  int64_t lo = 0, hi = 0; for (auto& r : rs) { if (r.kind == 'v' && !r.out) hi = std::max<int64_t>(hi, r.Tb * r.N); if (r.kind == 'p' && r.perm.find('r') != std::string::npos) { lo = std::min(lo, r.lo); hi = std::max(hi, r.hi); } }
  for (int64_t by = lo; by < hi; by++) for (int b = 0; b < 8; b++) for (auto& r : rs) {
    if (r.kind == 'v' && !r.out && by >= 0 && by < r.Tb * r.N && bitOk(r, by, b)) inputBit(r.id, by, b);
    if (r.kind == 'p' && r.perm.find('r') != std::string::npos && by >= r.lo && by < r.hi) inputBit(r.id, by, b);
  }
}
static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') { r += "\\n"; continue; } r += c; } return r; }
static std::string describe(Bit b) {
  if (b == kF) return "0"; if (b == kT) return "1"; if (b == 0xffffffffu) return "uninit";
  std::string neg; Bit v = b; if (!D.isVar(b)) { Bit i = D.inv(b); if (D.isVar(i)) { neg = "!"; v = i; } }
  if (D.isVar(v)) { Atom& a = A[D.n[v].v]; if (a.kind == kInput) return neg + a.id + (a.mask ? "[lane " : "[byte ") + std::to_string(a.lane) + (a.mask ? "]" : " bit " + std::to_string(a.bit) + "]"); if (a.kind == kGarbage) return neg + "unspecified(" + a.id + ")"; std::string s = neg + opNames[a.op] + "#" + std::to_string(a.k) + "("; for (size_t i = 0; i < a.args.size(); i++) { if (i) s += ","; s += a.args[i].empty() ? "" : describe(a.args[i][0]) + ".."; if (s.size() > 200) break; } return s + ")"; }
  std::set<uint32_t> s; std::vector<uint8_t> seen; D.support(b, s, seen); std::string r = "f{"; int n = 0; for (uint32_t x : s) { if (n++) r += ", "; r += describe(D.var(x)); if (n > 5) { r += ", ..."; break; } } return r + "}";
}

struct Out { std::map<std::string, std::vector<Word>> objs; };  // id -> per lane words
struct Side { std::map<std::string, std::vector<Word>> outs; std::map<std::string, int> outTb; std::vector<std::string> memViol; std::set<std::string> oobs; std::set<std::string> notes; };

static std::string locOf(const Instruction* I) {
  if (!I) return ""; const DILocation* L = I->getDebugLoc().get(); std::string r; int n = 0;
  for (; L; L = L->getInlinedAt()) { std::string f = L->getFilename().str(); if (f.find("/hwy/") == std::string::npos && f.find("hwy/") != 0) continue; std::string sp = L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : ""; r += (r.empty() ? "" : " < ") + f.substr(f.rfind("hwy/") == std::string::npos ? 0 : f.rfind("hwy/")) + ":" + std::to_string(L->getLine()) + " " + sp; if (++n >= 4) break; }
  return r;
}
static std::string funcLocs(Function& F) {
  std::set<std::string> s; std::string r; int n = 0;
  for (auto& I : instructions(F)) { const DILocation* L = I.getDebugLoc().get(); if (!L) continue; std::string f = L->getFilename().str(); size_t p = f.rfind("hwy/"); if (p == std::string::npos) continue; std::string x = f.substr(p) + ":" + std::to_string(L->getLine()) + (L->getScope()->getSubprogram() ? " " + L->getScope()->getSubprogram()->getName().str() : ""); if (s.insert(x).second) { r += (n ? "; " : "") + x; if (++n >= 6) break; } }
  return r;
}

static Side evalSide1(Module& M, const std::string& fn, const std::vector<Role>& rs, bool isRef, bool general);
static Side evalSide(Module& M, const std::string& fn, const std::vector<Role>& rs, bool isRef) {
  static std::set<std::string> gen; if (!gen.count(fn)) try { return evalSide1(M, fn, rs, isRef, false); } catch (Unsupported& e) { if (std::string(e.what()) != "data-dependent loop") throw; gen.insert(fn); }
  return evalSide1(M, fn, rs, isRef, true);
}
static Side evalSide1(Module& M, const std::string& fn, const std::vector<Role>& rs, bool isRef, bool general) {
  Side S; Function* F = M.getFunction(fn); if (!F || F->isDeclaration()) throw Unsupported("missing function " + fn);
  O.clear(); Eval E(M); std::vector<Val> args; std::vector<int> objOf(rs.size(), -1);
  if (F->arg_size() != rs.size()) throw Unsupported("arity of " + fn);
  for (size_t i = 0; i < rs.size(); i++) {
    const Role& r = rs[i]; Val v;
    if (r.kind == 's') { if (r.isc) v.bits = cst(r.cval, r.bits); else for (int k = 0; k < r.bits; k++) v.bits.push_back(k < r.vb ? inputBit(r.id, k / 8, k % 8) : kF); args.push_back(v); continue; }
    int64_t size = r.size, base = 0; if (r.kind == 'p') { base = kMargin - r.lo; size = r.hi - r.lo + 2 * kMargin; }
    int o = E.newObj(r.id, size); O[o].base = base; objOf[i] = o;
    if (r.kind == 'v' && !r.out) { for (int by = 0; by < r.Tb * r.N; by++) for (int b = 0; b < 8; b++) O[o].bits[by * 8 + b] = bitOk(r, by, b) ? inputBit(r.id, by, b) : kF; }
    if (r.kind == 'm' && !r.out) { if (r.rep == 'b') { for (int k = std::max(16, r.N * r.Tb) / r.Tb; k < r.size * 8; k++) O[o].bits[k] = kF; for (int k = 0; k < r.N; k++) O[o].bits[k] = inputBit(r.id, k, 0, true); } else if (r.rep == 'y') for (int k = 0; k < r.N; k++) for (int b = 0; b < 8; b++) O[o].bits[k * 8 + b] = b == 0 ? inputBit(r.id, k, 0, true) : kF; else for (int k = 0; k < r.N * r.Tb * 8; k++) O[o].bits[k] = inputBit(r.id, k / (r.Tb * 8), 0, true); }
    if (r.kind == 'p') { O[o].role = true; O[o].fillId = r.id; if (r.perm.find('z') != std::string::npos) { for (auto& b : O[o].bits) b = kF; } }
    v.ptrs.push_back(E.mkPtr(o, base)); args.push_back(v);
  }
  if (general) E.runGeneral(*F, args); else E.run(*F, args);
  S.oobs = E.oobs; if (!isRef) for (auto& g : E.gaddr) S.memViol.push_back(g); S.notes = E.notes;
  for (size_t i = 0; i < rs.size(); i++) {
    const Role& r = rs[i]; int o = objOf[i]; if (o < 0) continue;
    if (r.kind == 'p') {
      // access allowance
      if (!isRef) for (auto& a : O[o].acc) {
        Bit bad = a.cond; bool can = a.write ? r.perm.find('w') != std::string::npos : r.perm.find('r') != std::string::npos;
        if (can && a.off >= r.lo && a.off < r.hi) {
          bad = kF;
          if (!r.allow.empty() && (r.allow[0] == 'n' || r.allow[0] == 'm')) { std::string id0 = r.allow.substr(2), id = id0.substr(0, id0.find(',')); int64_t lane = a.off / r.Tb; Bit ok = kF; if (r.allow[0] == 'm') ok = inputBit(id, lane, 0, true); else { Word n; for (auto& q : rs) if (q.kind == 's' && q.id == id) { for (int k = 0; k < q.bits; k++) n.push_back(q.isc ? ((q.cval >> k) & 1) : k < q.vb ? inputBit(id, k / 8, k % 8) : kF); } int64_t fm = 1, fa = 0, fr = 1; size_t cp = id0.find(','); if (cp != std::string::npos) sscanf(id0.c_str() + cp, ",%ld,%ld,%ld", &fm, &fa, &fr); n = add(mul(n, cst(fm, n.size())), cst(fa, n.size())); ok = ultw(cst(lane - (fr > 1 ? lane % fr : 0), n.size()), n); } bad = D.land(a.cond, D.inv(ok)); }
        }
        if (bad != kF) { std::set<uint32_t> b2; bool im = false, vt = false; bitDeps(bad, b2, im, vt); S.memViol.push_back(std::string(im || vt ? "?" : "") + (a.write ? "write" : "read") + " of byte " + std::to_string(a.off) + " of '" + r.id + "' outside " + (can ? "the allowed range [" + std::to_string(r.lo) + "," + std::to_string(r.hi) + ")" + (r.allow.empty() ? "" : " restricted by " + r.allow) : "permissions") + (a.cond == kT ? "" : " (conditional)") + " at " + locOf(a.at)); }
      }
      if (r.perm.find('w') != std::string::npos) { std::vector<Word> ws; int64_t lo = r.lo - 64, hi = r.hi + 64, cl = r.hi; if (!r.allow.empty() && r.allow[0] == 'c') cl = atoll(r.allow.c_str() + 2); for (int64_t by = lo; by < hi; by += r.Tb) { if (by >= cl && by < r.hi) { ws.push_back(Word()); continue; } Word w; for (int64_t q = by; q < by + r.Tb && q < hi; q++) for (int b = 0; b < 8; b++) w.push_back(rd(o, q + O[o].base, b)); ws.push_back(w); } S.outs[r.id] = ws; S.outTb[r.id] = r.Tb; }
      continue;
    }
    if (!r.out) continue;
    std::vector<Word> ws;
    if (r.kind == 'v') for (int k = 0; k < r.N; k++) { Word w; for (int b = 0; b < r.Tb * 8; b++) w.push_back(rd(o, k * r.Tb + b / 8, b % 8)); ws.push_back(w); }
    else for (int k = 0; k < r.N; k++) { Word w; if (r.rep == 'b') { w.push_back(rd(o, k / 8, k % 8)); } else if (r.rep == 'y') { w.push_back(rd(o, k, 0)); } else for (int b = 0; b < r.Tb * 8; b++) w.push_back(rd(o, (k * r.Tb * 8 + b) / 8, b % 8)); ws.push_back(w); }
    S.outs[r.id] = ws; S.outTb[r.id] = r.Tb;
  }
  return S;
}

// base dependence of a word, as (object, lane) pairs given Tb of each input object
struct Dep { std::set<std::pair<std::string, int64_t>> in; bool garbage = false, imprecise = false, term = false; std::string gname; };
static Dep wordDep(const Word& w, const std::map<std::string, int>& tb) {
  Dep d; std::set<uint32_t> base; std::set<uint32_t> sup; std::vector<uint8_t> seen; for (Bit b : w) D.support(b, sup, seen);
  for (uint32_t v : sup) { if (A[v].kind != kTerm) base.insert(v); else { d.term = true; atomDeps(v); base.insert(A[v].deps.begin(), A[v].deps.end()); d.imprecise |= A[v].depImprecise; } }
  for (uint32_t v : base) { if (A[v].kind == kGarbage) { d.garbage = true; d.gname = A[v].id; } else { int t = 1; auto it = tb.find(A[v].id); if (it != tb.end() && !A[v].mask) t = it->second; d.in.insert({A[v].id, A[v].lane >= 0 ? A[v].lane / t : -((-A[v].lane + t - 1) / t)}); } }
  return d;
}
static bool simpleTerm(Bit b, int& op, bool& pure) { // single term atom (or its negation) whose args are var/const words
  Bit v = b; if (!D.isVar(v)) { Bit i = D.inv(b); if (!D.isVar(i)) return false; v = i; }
  Atom& a = A[D.n[v].v]; if (a.kind != kTerm || a.imprecise) return false; op = a.op; pure = true;
  std::set<uint32_t> sup; std::vector<uint8_t> seen; for (auto& w : a.args) for (Bit x : w) D.support(x, sup, seen); for (uint32_t x : sup) if (A[x].kind != kInput) pure = false;
  return true;
}

static bool knownFloatOp(const std::string& n) { for (const char* p : {"fadd", "fsub", "fmul", "fdiv", "fma", "llvm.sqrt", "llvm.rint", "llvm.floor", "llvm.ceil", "llvm.trunc", "folt", "fole", "foeq"}) if (n.compare(0, strlen(p), p) == 0) return true; return false; }
// every term in x and y is an opaque floating-point operator applied to plain inputs, and both sides use
// the same operators: then the terms behave as free variables and a difference is a difference.
static bool opaqueOnly(const Word& x, const Word& y) {
  std::set<std::string> ox, oy; 
  for (int side = 0; side < 2; side++) { std::set<uint32_t> sup; std::vector<uint8_t> seen; for (Bit b : side ? y : x) D.support(b, sup, seen);
    for (uint32_t v : sup) { Atom& a = A[v]; if (a.kind != kTerm) continue; const std::string& n = opNames[a.op]; if (a.imprecise) return false;
      if (!knownFloatOp(n)) return false;
      for (auto& w : a.args) if (isConst(w)) return false; std::set<uint32_t> s2; std::vector<uint8_t> n2; for (auto& w : a.args) for (Bit b : w) D.support(b, s2, n2); for (uint32_t q : s2) if (A[q].kind != kInput) return false;
      (side ? oy : ox).insert(n); } }
  return ox == oy;
}

// Canonical text of a function for result reuse: everything the analysis reads (instructions, referenced constants and
// globals with initialisers), without attribute and metadata numbers.
static std::string canonFn(const Function& F) {
  std::string t; raw_string_ostream os(t); std::set<const GlobalVariable*> gs; std::set<const Function*> fs; std::function<void(const Value*, int)> walk = [&](const Value* v, int d) { if (d > 12) return; if (auto* g = dyn_cast<GlobalVariable>(v)) { if (gs.insert(g).second && g->hasInitializer()) walk(g->getInitializer(), d + 1); return; } if (auto* f = dyn_cast<Function>(v)) { fs.insert(f); return; } if (auto* c = dyn_cast<Constant>(v)) for (auto& o : c->operands()) walk(o.get(), d + 1); };
  for (auto& A : F.args()) { A.printAsOperand(os, true); os << ' '; if (A.hasNoAliasAttr()) os << "na "; }
  for (auto& B : F) { os << '\n'; B.printAsOperand(os, false); os << ':'; for (auto& I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; os << '\n'; I.print(os); for (auto& o : I.operands()) walk(o.get(), 0); } }
  for (auto* g : gs) { os << '\n'; g->print(os); }
  os.flush(); std::string r; r.reserve(t.size());
  for (size_t i = 0; i < t.size(); i++) { if ((t[i] == '#' || t[i] == '!') && i + 1 < t.size() && isdigit(t[i + 1])) { while (i + 1 < t.size() && isdigit(t[i + 1])) i++; continue; } r += t[i]; }
  return r;
}

int main(int argc, char** argv) {
  if (argc < 4) { fprintf(stderr, "usage: bitflow ir spec out\n"); return 2; }
  LLVMContext C; SMDiagnostic Err; auto M = parseIRFile(argv[1], Err, C); if (!M) { Err.print("bitflow", errs()); return 2; }
  std::ifstream in(argv[2]); std::ofstream out(argv[3]); std::string line; bool verbose = argc > 5; std::string only = argc > 4 ? argv[4] : "";
  while (std::getline(in, line)) {
    if (line.empty()) continue; auto t0 = std::chrono::steady_clock::now(); auto f = split(line, '\t'); std::string id = f[0]; if (!only.empty() && id != only) continue;
    std::string cacheFile; const char* cdir = getenv("BITFLOW_ADDR") ? nullptr : getenv("BITFLOW_CACHE"); // callees evaluated in place are not part of the key
    if (cdir && only.empty()) { Function* F0 = M->getFunction(f[1]); Function* F1 = f.size() > 4 && f[3] != "-" ? M->getFunction(f[3]) : nullptr;
      if (F0 && !F0->isDeclaration()) { std::string key = f[2] + "\t" + (f.size() > 4 ? f[4] : "") + "\t" + canonFn(*F0) + "\t" + (F1 ? canonFn(*F1) : std::string("-"));
        cacheFile = std::string(cdir) + "/" + toHex(SHA1::hash(arrayRefFromStringRef(key)));
        std::ifstream ci(cacheFile); std::string body; if (ci && std::getline(ci, body) && !body.empty()) { out << "{\"ms\":0,\"reused\":1,\"id\":\"" << id << "\"," << body << ",\"loc\":\"" << esc(funcLocs(*F0)) << "\"}\n"; out.flush(); continue; } } }
    D.reset(); 
    A.clear(); depOf.clear(); terms.clear(); inputs.clear(); lcOf.clear(); garbageCount = 0; O.clear();
    std::vector<Role> ri, rr; for (auto& s : split(f[2], ' ')) ri.push_back(parseRole(s)); bool hasRef = f.size() > 4 && f[3] != "-"; if (hasRef) for (auto& s : split(f[4], ' ')) rr.push_back(parseRole(s));
    std::string status, detail; std::vector<std::string> mem, gar, cross, mis; size_t lanesProven = 0, lanesTotal = 0, undec = 0; std::string loc; std::string undecWhy; std::set<std::string> notes;
    size_t memOk = 0;
    try {
      std::vector<Role> all = ri; if (hasRef) for (auto& r : rr) { bool dup = false; for (auto& q : all) dup |= q.id == r.id; if (!dup) all.push_back(r); }
      seedAtoms(all);
      std::map<std::string, int> tb; for (auto& r : all) if (!r.out && (r.kind == 'v' || r.kind == 'p')) tb[r.id] = r.Tb;
      for (auto& r : all) if (r.kind == 's') tb[r.id] = 64;
      Side I = evalSide(*M, f[1], ri, false); for (auto& s : I.memViol) mem.push_back(s); for (auto& s : I.oobs) mem.push_back("access outside a local/static object: " + s); notes = I.notes;
      for (auto& o : O) memOk += o.acc.size();
      Side R; if (hasRef) { R = evalSide(*M, f[3], rr, true); if (!R.oobs.empty()) throw Unsupported("reference oob " + *R.oobs.begin()); }
      for (auto& e : I.outs) {
        for (size_t k = 0; k < e.second.size(); k++) {
          lanesTotal++; Word cx = e.second[k]; int Tb = I.outTb[e.first]; (void)Tb;
          Word y; bool haveY = false; if (hasRef) { auto it = R.outs.find(e.first); if (it == R.outs.end() || k >= it->second.size()) throw Unsupported("ref output shape"); y = it->second[k]; if (y.size() == 1 && cx.size() > 1) y.assign(cx.size(), y[0]); if (cx.size() == 1 && y.size() > 1) y.resize(1); haveY = true; if (y.size() != cx.size()) throw Unsupported("ref width"); }
          if (haveY && R.outs.count("care:" + e.first)) { Bit cb = R.outs["care:" + e.first][k][0]; for (auto& q : cx) q = D.land(q, cb); for (auto& q : y) q = D.land(q, cb); }
          const Word& x = cx;
          if (haveY && x == y) { bool g = false; Dep dx = wordDep(y, tb); g = dx.garbage; if (g) { gar.push_back("reference reads unspecified bits"); } lanesProven++; continue; }
          Dep dx = wordDep(x, tb), dy; if (haveY) dy = wordDep(y, tb);
          std::string where = e.first + "[" + std::to_string(k) + "]"; size_t bad = 0; while (haveY && bad < x.size() && x[bad] == y[bad]) bad++;
          std::string msg = where; if (haveY && bad < x.size()) msg += " bit " + std::to_string(bad) + ": got " + describe(x[bad]) + ", documented " + describe(y[bad]);
          if (dx.garbage) { gar.push_back(std::string(dx.imprecise ? "?" : "") + where + " depends on unspecified bits (" + dx.gname + ")"); if (dx.imprecise) undec++; continue; }
          if (!haveY) { lanesProven++; continue; }
          std::string extra; for (auto& p : dx.in) if (!dy.in.count(p)) { extra = p.first + "[" + std::to_string(p.second) + "]"; break; }
          std::string miss; for (auto& p : dy.in) if (!dx.in.count(p)) { miss = p.first + "[" + std::to_string(p.second) + "]"; break; }
          bool exact = !dx.term && !dy.term && !dx.imprecise && !dy.imprecise;
          bool decisive = exact;
          if (!miss.empty()) { decisive = true; msg += "; does not depend on " + miss; }
          if (!extra.empty() && !dx.imprecise && (!dx.term || opaqueOnly(x, y))) { decisive = true; cross.push_back(where + " depends on " + extra); msg += "; depends on " + extra; }
          if (!decisive && opaqueOnly(x, y)) decisive = true;
          if (!decisive) { for (size_t b = 0; b < x.size() && !decisive; b++) { if (x[b] == y[b]) continue; int o1, o2; bool p1, p2; std::set<uint32_t> s1, s2; std::vector<uint8_t> n1, n2; D.support(x[b], s1, n1); D.support(y[b], s2, n2); bool t1 = false, t2 = false; for (auto v : s1) t1 |= A[v].kind == kTerm; for (auto v : s2) t2 |= A[v].kind == kTerm; if (!t1 && !t2) decisive = true; else if (simpleTerm(x[b], o1, p1) && simpleTerm(y[b], o2, p2) && p1 && p2 && knownFloatOp(opNames[o1]) && knownFloatOp(opNames[o2])) decisive = true; if (decisive) msg = where + " bit " + std::to_string(b) + ": got " + describe(x[b]) + ", documented " + describe(y[b]); } }
          if (decisive) mis.push_back(msg); else { undec++; if (undecWhy.empty()) undecWhy = msg; }
        }
      }
      loc = funcLocs(*M->getFunction(f[1]));
    } catch (Unsupported& e) { status = "unsupported"; detail = e.what(); } catch (Overflow&) { status = "unsupported"; detail = "size limit"; }
    auto arr = [&](std::vector<std::string>& v) { std::string r = "["; size_t n = std::min<size_t>(v.size(), 4); for (size_t i = 0; i < n; i++) r += (i ? ",\"" : "\"") + esc(v[i]) + "\""; return r + "]"; };
    std::string nt; for (auto& s : notes) nt += (nt.empty() ? "" : ",") + s;
    int ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
    std::ostringstream bo; bo << "\"status\":\"" << (status.empty() ? "done" : status) << "\",\"detail\":\"" << esc(detail) << "\",\"lanes\":" << lanesTotal << ",\"proven\":" << lanesProven << ",\"undecided\":" << undec << ",\"undec_why\":\"" << esc(undecWhy) << "\",\"acc\":" << memOk << ",\"mem\":" << arr(mem) << ",\"garbage\":" << arr(gar) << ",\"cross\":" << arr(cross) << ",\"mismatch\":" << arr(mis) << ",\"nodes\":" << D.n.size() << ",\"notes\":\"" << esc(nt) << "\"";
    if (!cacheFile.empty()) { std::string tmp = cacheFile + "." + std::to_string(getpid()); { std::ofstream co(tmp); co << bo.str() << "\n"; } rename(tmp.c_str(), cacheFile.c_str()); }
    if (loc.empty()) if (Function* F0 = M->getFunction(f[1])) loc = funcLocs(*F0);
    out << "{\"ms\":" << ms << ",\"id\":\"" << id << "\"," << bo.str() << ",\"loc\":\"" << esc(loc) << "\"}\n"; out.flush();
    (void)verbose;
  }
  return 0;
}
