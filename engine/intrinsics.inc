// Models of LLVM generic and x86 intrinsics (included inside struct Eval).
static bool has(const StringRef& s, const char* p) { return s.find(p) != StringRef::npos; }
// element-wise uninterpreted operator: result lane i depends on lane i of every vector operand
Val lanewise(const CallInst* c, const std::string& op, bool imprecise = false) {
  Type* t = c->getType(); Val v; unsigned w = eltBits(t), n = numEl(t);
  std::vector<Word> as; std::vector<unsigned> aw, an;
  for (auto& a : c->args()) { Type* at = a->getType(); if (at->isMetadataTy()) continue; as.push_back(W(a)); aw.push_back(eltBits(at)); an.push_back(numEl(at)); }
  for (unsigned i = 0; i < n; i++) {
    std::vector<Word> la; for (size_t k = 0; k < as.size(); k++) { if (an[k] == n && n > 1) la.push_back(sub(as[k], i * aw[k], aw[k])); else if (an[k] == 1 && aw[k] == n && n > 1 && !isConst(as[k])) la.push_back(Word{as[k][i]}); else if (an[k] > 1) la.push_back(sub(as[k], std::min(i, an[k] - 1) * aw[k], aw[k])); else la.push_back(as[k]); }
    cat(v.bits, termWord(op + ":" + std::to_string(w), la, w, imprecise));
  }
  return v;
}
Bit msb(const Word& w) { return w.back(); }
// One machine word of hardware or operating-system state: a free input, the same for every query of it.
Word hwWord(const std::string& id, unsigned w) { Word r; for (unsigned k = 0; k < w; k++) r.push_back(inputBit(id, k / 8, k % 8)); return r; }
// Queries of processor and operating-system capabilities by inline assembly
bool hardware(const CallInst* c, const InlineAsm* ia, const std::string& s, Val& out) {
  bool cpuid = s.find("cpuid") != std::string::npos, xg = s.find("xgetbv") != std::string::npos || s.find("0x0F, 0x01, 0xD0") != std::string::npos, cnt = s.find("cntb") != std::string::npos || s.find("vsetvli") != std::string::npos;
  if (!cpuid && !xg && !cnt) return false;
  std::vector<std::string> outs; std::map<char, Word> in; unsigned ai = 0; bool memOut = false;
  for (auto& ci : ia->ParseConstraints()) {
    if (ci.Type == InlineAsm::isClobber) continue; std::string code = ci.Codes.empty() ? "" : ci.Codes[0];
    if (ci.Type == InlineAsm::isOutput) { if (ci.isIndirect) memOut = true; outs.push_back(code); continue; }
    std::string where = code; if (!code.empty() && isdigit((unsigned char)code[0])) where = outs.at(atoi(code.c_str()));
    Word x = W(c->getArgOperand(ai++)); char r = where.find("ax") != std::string::npos ? 'a' : where.find("cx") != std::string::npos ? 'c' : '?'; in[r] = x; }
  if (memOut) throw Unsupported("asm memory output");
  auto reg = [&](const std::string& o, unsigned k) -> char { if (o.find("ax") != std::string::npos) return 'a'; if (o.find("bx") != std::string::npos) return 'b'; if (o.find("cx") != std::string::npos) return 'c'; if (o.find("dx") != std::string::npos) return 'd'; return "abcd"[k & 3]; };
  auto word = [&](unsigned k, unsigned w) -> Word {
    if (cnt) return hwWord("vlen" + std::to_string(k), w);
    char r = reg(outs[k], k);
    if (xg) { if (!in.count('c') || !isConst(in['c'])) throw Unsupported("xgetbv index"); return hwWord("xcr" + std::to_string(constVal(in['c'])) + r, w); }
    if (!in.count('a') || !isConst(in['a'])) throw Unsupported("cpuid leaf"); uint64_t leaf = constVal(in['a']); bool subs = leaf == 4 || leaf == 7 || leaf == 0xB || leaf == 0xD || leaf == 0xF || leaf == 0x10 || leaf == 0x12 || leaf == 0x14 || leaf == 0x1D || leaf == 0x24; std::string sb = "0";
    if (subs) { if (!in.count('c')) { Word g; for (unsigned i = 0; i < w; i++) g.push_back(garbage("cpuid without sub-leaf")); return g; } if (!isConst(in['c'])) throw Unsupported("cpuid sub-leaf"); sb = std::to_string(constVal(in['c'])); }
    return hwWord("cpuid." + std::to_string(leaf) + "." + sb + "." + r, w); };
  Type* t = c->getType();
  if (t->isStructTy()) for (unsigned k = 0; k < t->getStructNumElements(); k++) { Val e; e.bits = word(k, eltBits(t->getStructElementType(k))); out.el.push_back(e); }
  else if (!t->isVoidTy()) out.bits = word(0, eltBits(t));
  return true;
}
Val call(const CallInst* c) {
  Type* t = c->getType(); Val v; unsigned w = 0, n = 1; if (t->isIntOrIntVectorTy() || t->isFPOrFPVectorTy()) { w = eltBits(t); n = numEl(t); }
  if (c->isInlineAsm()) { // only escapes "+x"/"+r"(v) and empty barriers are used; treated as identity when empty
    auto* ia = cast<InlineAsm>(c->getCalledOperand()); std::string s = ia->getAsmString();
    if (s.empty()) { if (t->isVoidTy()) return v; if (c->arg_size() >= 1) return get(c->getArgOperand(0)); }
    Val m; if (hardware(c, ia, s, m)) return m;
    throw Unsupported("inline asm " + s);
  }
  Function* F = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
  // a declared probe function: its result names the function and repeats its first argument
  auto probe = [&](Function* G, const std::vector<Val>& as) { Val r; uint64_t k = (O[funcObj(G)].addr >> 16) & 0xffff; r.bits = cst(k, 32); Word x = as.empty() ? cst(0, 32) : as[0].bits; x.resize(32, kF); cat(r.bits, x); r.bits.resize(w, kF); return r; };
  auto isProbe = [&](Function* G) { return concreteAddr() && G->isDeclaration() && G->getName().find("VFprobe") != StringRef::npos; };
  if (concreteAddr() && (!F || isProbe(F) || (!F->isDeclaration() && !F->isIntrinsic()))) {
    std::vector<Val> as; for (auto& a : c->args()) as.push_back(get(a));
    if (F) return isProbe(F) ? probe(F, as) : callFn(F, as, pc);
    Val fp = get(c->getCalledOperand()); Bit cov = kF; bool first = true;
    for (auto& q : fp.ptrs[0].cs) { Bit cc = D.land(q.c, pc); if (cc == kF) continue; Function* G = O[q.obj].fn; if (!G || !isConst(q.off) || constVal(q.off)) throw Unsupported("call through a data pointer"); if (G->arg_size() != as.size()) { oobs.insert("call through a pointer to a function with other parameters: " + G->getName().str()); continue; }
      if (G->isDeclaration() && !isProbe(G)) throw Unsupported("indirect call of " + G->getName().str());
      Val r = isProbe(G) ? probe(G, as) : callFn(G, as, cc); cov = D.lor(cov, cc); if (!t->isVoidTy()) { v = first ? r : selVal(t, Word{cc}, r, v); first = false; } }
    if (D.land(pc, D.inv(cov)) != kF) { oobs.insert("call through a null function pointer"); if (first && !t->isVoidTy()) return undefVal(t); }
    return v;
  }
  if (!F) throw Unsupported("indirect call");
  if (F->isDeclaration() && !F->isIntrinsic() && c->doesNotReturn()) return t->isVoidTy() ? v : undefVal(t);
  StringRef N = F->getName();
  auto arg = [&](unsigned i) { return W(c->getArgOperand(i)); };
  auto aw = [&](unsigned i) { return eltBits(c->getArgOperand(i)->getType()); };
  auto an = [&](unsigned i) { return numEl(c->getArgOperand(i)->getType()); };
  auto el = [&](const Word& x, unsigned i, unsigned ww) { return sub(x, i * ww, ww); };
  auto un = [&](const std::function<Word(const Word&)>& f) { Word a = arg(0); v.bits = lanes(t, [&](int i) { return f(el(a, i, aw(0))); }); return v; };
  auto bin = [&](const std::function<Word(const Word&, const Word&)>& f) { Word a = arg(0), b = arg(1); v.bits = lanes(t, [&](int i) { return f(el(a, i, aw(0)), el(b, i, aw(1))); }); return v; };
  if (N == "llvm.x86.xgetbv") { Word a = arg(0); if (!isConst(a)) throw Unsupported("xgetbv index"); Word r = hwWord("xcr" + std::to_string(constVal(a)) + "a", 32); cat(r, hwWord("xcr" + std::to_string(constVal(a)) + "d", 32)); v.bits = r; return v; }
  if (F->isDeclaration() && N == "getauxval") { Word a = arg(0); if (!isConst(a)) throw Unsupported("getauxval"); v.bits = hwWord("auxv" + std::to_string(constVal(a)), w); return v; }
  if (!F->isDeclaration() && !F->isIntrinsic()) { // inline the callee (bounded)
    if (depth > 8) throw Unsupported("call depth"); Eval E(M); E.depth = depth + 1; E.globs = globs; E.pc = kT; if (pc != kT) throw Unsupported("conditional call");
    throw Unsupported("call " + N.str());
  }
  switch (F->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::donothing: return v;
    case Intrinsic::ctpop: return un([&](const Word& x) { return popc(x, x.size()); });
    case Intrinsic::ctlz: return un([&](const Word& x) { return lzc(x); });
    case Intrinsic::cttz: return un([&](const Word& x) { return tzc(x); });
    case Intrinsic::bswap: return un([&](const Word& x) { Word r; for (int b = x.size() / 8; b-- > 0;) cat(r, sub(x, b * 8, 8)); return r; });
    case Intrinsic::bitreverse: return un([&](const Word& x) { Word r(x.rbegin(), x.rend()); return r; });
    case Intrinsic::abs: return un([&](const Word& x) { return absw(x); });
    case Intrinsic::umin: return bin([&](const Word& a, const Word& b) { return umin(a, b); });
    case Intrinsic::umax: return bin([&](const Word& a, const Word& b) { return umax(a, b); });
    case Intrinsic::smin: return bin([&](const Word& a, const Word& b) { return smin(a, b); });
    case Intrinsic::smax: return bin([&](const Word& a, const Word& b) { return smax(a, b); });
    case Intrinsic::uadd_sat: return bin([&](const Word& a, const Word& b) { return satAddU(a, b); });
    case Intrinsic::sadd_sat: return bin([&](const Word& a, const Word& b) { return satAddS(a, b); });
    case Intrinsic::usub_sat: return bin([&](const Word& a, const Word& b) { return satSubU(a, b); });
    case Intrinsic::ssub_sat: return bin([&](const Word& a, const Word& b) { return satSubS(a, b); });
    case Intrinsic::fabs: return un([&](const Word& x) { Word r = x; r.back() = kF; return r; });
    case Intrinsic::copysign: return bin([&](const Word& a, const Word& b) { Word r = a; r.back() = b.back(); return r; });
    case Intrinsic::fshl: case Intrinsic::fshr: {
      bool L = F->getIntrinsicID() == Intrinsic::fshl; Word a = arg(0), b = arg(1), s = arg(2);
      v.bits = lanes(t, [&](int i) { Word hi = el(a, i, w), lo = el(b, i, w), sh = el(s, i, w); Word cc = lo; cat(cc, hi); // 2w bits
        int lg = 0; while ((1u << lg) < w) lg++; Word r = cc; 
        if (L) { for (int k = 0; k < lg; k++) { Word x(2 * w, kF); for (unsigned j = (1u << k); j < 2 * w; j++) x[j] = r[j - (1u << k)]; r = ite(sh[k], x, r); } return sub(r, w, w); }
        for (int k = 0; k < lg; k++) { Word x(2 * w, kF); for (unsigned j = 0; j + (1u << k) < 2 * w; j++) x[j] = r[j + (1u << k)]; r = ite(sh[k], x, r); } return sub(r, 0, w); });
      return v; }
    case Intrinsic::fma: case Intrinsic::fmuladd: { Word a = arg(0), b = arg(1), d = arg(2); v.bits = lanes(t, [&](int i) { Word x = el(a, i, w), y = el(b, i, w), z = el(d, i, w);
        // sign of product normalised: fma(-a,b,c) and fma(a,-b,c) are the same value
        auto isNeg = [&](const Word& q) { Bit top = q.back(); return !D.isVar(top) && top > 1 && D.isVar(D.inv(top)); };
        bool nx = isNeg(x), ny = isNeg(y); if (nx) x = flipTop(x); if (ny) y = flipTop(y); if (y < x) std::swap(x, y); if (nx != ny) x = flipTop(x);
        return termWord("fma" + std::to_string(w), {x, y, z}, w); }); return v; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      Word a = arg(0), b = arg(1); unsigned q = a.size(); Val x, y; bool S = has(N, ".s"); Intrinsic::ID id = F->getIntrinsicID(); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow; (void)S;
      bool isM = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow, isS = id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow;
      unsigned e = isM ? 2 * q : q + 1; Word A2 = ext(a, e, sg), B2 = ext(b, e, sg); Word r = isM ? mul(A2, B2) : isS ? subw(A2, B2) : add(A2, B2); x.bits = sub(r, 0, q); Word back = ext(x.bits, e, sg); y.bits = {D.inv(eqw(back, r))}; v.el = {x, y}; return v; }
    case Intrinsic::vector_reduce_add: { Word a = arg(0); unsigned m = an(0), ww = aw(0); Word r = el(a, 0, ww); for (unsigned i = 1; i < m; i++) r = add(r, el(a, i, ww)); v.bits = r; return v; }
    case Intrinsic::vector_reduce_mul: { Word a = arg(0); unsigned m = an(0), ww = aw(0); Word r = el(a, 0, ww); for (unsigned i = 1; i < m; i++) r = mul(r, el(a, i, ww)); v.bits = r; return v; }
    case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: { Word a = arg(0); unsigned m = an(0), ww = aw(0); Word r = el(a, 0, ww); Intrinsic::ID id = F->getIntrinsicID(); for (unsigned i = 1; i < m; i++) for (unsigned k = 0; k < ww; k++) { Bit x = a[i * ww + k]; r[k] = id == Intrinsic::vector_reduce_and ? D.land(r[k], x) : id == Intrinsic::vector_reduce_or ? D.lor(r[k], x) : D.lxor(r[k], x); } v.bits = r; return v; }
    case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_smin: case Intrinsic::vector_reduce_smax: { Word a = arg(0); unsigned m = an(0), ww = aw(0); v.bits = termWord(F->getName().str(), {a}, ww); (void)m; return v; }
    case Intrinsic::vector_reduce_fadd: case Intrinsic::vector_reduce_fmul: { v.bits = termWord(N.str(), {arg(0), arg(1)}, w); return v; }
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      Word len = arg(2); if (!isConst(len)) { // byte-wise under the condition off < len; memmove reads everything first
        Ptr d = get(c->getArgOperand(0)).ptrs[0], sp = get(c->getArgOperand(1)).ptrs[0]; Bit pc0 = pc; std::vector<std::pair<Bit, Word>> bs;
        for (uint64_t k = 0;; k++) { Bit cc = D.land(pc0, ultw(cst(k, len.size()), len)); if (cc == kF) break; if (k > 4096) throw Unsupported("memcpy len"); pc = cc; bs.push_back({cc, load(addOff(sp, cst(k, 64)), 8, kT)}); }
        for (uint64_t k = 0; k < bs.size(); k++) { pc = bs[k].first; store(addOff(d, cst(k, 64)), bs[k].second, kT); } pc = pc0; return v; }
      uint64_t L = constVal(len); if (L > 8192) throw Unsupported("memcpy len"); if (!L) return v;
      Val d = get(c->getArgOperand(0)), s = get(c->getArgOperand(1)); Word x = load(s.ptrs[0], L * 8, kT); store(d.ptrs[0], x, kT); return v; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { Word len = arg(2); if (!isConst(len)) { Ptr d = get(c->getArgOperand(0)).ptrs[0]; Bit pc0 = pc; Word b = arg(1); for (uint64_t k = 0;; k++) { Bit cc = D.land(pc0, ultw(cst(k, len.size()), len)); if (cc == kF) break; if (k > 4096) throw Unsupported("memset len"); pc = cc; store(addOff(d, cst(k, 64)), b, kT); } pc = pc0; return v; }
      uint64_t L = constVal(len); if (L > 8192) throw Unsupported("memset len"); if (!L) return v; Word b = arg(1), x; for (uint64_t i = 0; i < L; i++) cat(x, b); store(get(c->getArgOperand(0)).ptrs[0], x, kT); return v; }
    case Intrinsic::masked_load: case Intrinsic::masked_expandload: {
      Ptr p = get(c->getArgOperand(0)).ptrs[0]; bool ex = F->getIntrinsicID() == Intrinsic::masked_expandload; Word m = W(c->getArgOperand(ex ? 1 : 2)), th = W(c->getArgOperand(ex ? 2 : 3)); unsigned B = w / 8;
      if (!ex) { for (unsigned i = 0; i < n; i++) { if (m[i] == kF) { cat(v.bits, el(th, i, w)); continue; } Word x = load(addOff(p, cst(i * B, 64)), w, m[i]); cat(v.bits, ite(m[i], x, el(th, i, w))); } return v; }
      Word cnt = cst(0, 8); for (unsigned i = 0; i < n; i++) { Word r = el(th, i, w); if (m[i] != kF) { Word x; bool first = true; for (unsigned j = 0; j <= i; j++) { Bit e = D.land(m[i], eqw(cnt, cst(j, 8))); if (e == kF) continue; Word y = load(addOff(p, cst(j * B, 64)), w, e); x = first ? y : ite(e, y, x); first = false; } r = ite(m[i], x, r); cnt = addBlast(cnt, Word{m[i], 0, 0, 0, 0, 0, 0, 0}, kF); } cat(v.bits, r); } return v; }
    case Intrinsic::masked_store: { Word x = arg(0); Ptr p = get(c->getArgOperand(1)).ptrs[0]; Word m = arg(3); unsigned ww = aw(0), nn = an(0); for (unsigned i = 0; i < nn; i++) if (m[i] != kF) store(addOff(p, cst(i * ww / 8, 64)), el(x, i, ww), m[i]); return v; }
    case Intrinsic::masked_compressstore: { Word x = arg(0); Ptr p = get(c->getArgOperand(1)).ptrs[0]; Word m = arg(2); unsigned ww = aw(0), nn = an(0); Word y = compressW(x, m, ww, nn, Word()); Word cnt = popc(m, 8); for (unsigned i = 0; i < nn; i++) { Bit on = ultw(cst(i, 8), cnt); if (on != kF) store(addOff(p, cst(i * ww / 8, 64)), el(y, i, ww), on); } return v; }
    case Intrinsic::masked_gather: { Val p = get(c->getArgOperand(0)); Word m = arg(2), th = arg(3); for (unsigned i = 0; i < n; i++) { if (m[i] == kF) { cat(v.bits, el(th, i, w)); continue; } cat(v.bits, ite(m[i], load(p.ptrs[i], w, m[i]), el(th, i, w))); } return v; }
    case Intrinsic::masked_scatter: { Word x = arg(0); Val p = get(c->getArgOperand(1)); Word m = arg(3); unsigned ww = aw(0), nn = an(0); for (unsigned i = 0; i < nn; i++) if (m[i] != kF) store(p.ptrs[i], el(x, i, ww), m[i]); return v; }
    case Intrinsic::sqrt: case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: case Intrinsic::round: { StringRef b = Intrinsic::getBaseName(F->getIntrinsicID()); std::string nm = b.str(); if (has(b, "rint") || has(b, "nearbyint") || has(b, "roundeven")) nm = "llvm.rint"; return lanewise(c, nm); }
    case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum: case Intrinsic::ldexp: case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: return lanewise(c, Intrinsic::getBaseName(F->getIntrinsicID()).str());
    case Intrinsic::is_fpclass: { Word a = arg(0); unsigned ww = aw(0); uint64_t k = constVal(arg(1)); int m = ww == 64 ? 52 : ww == 32 ? 23 : ww == 16 ? 10 : 0; if (!m) return lanewise(c, "is_fpclass" + std::to_string(k));
      for (unsigned i = 0; i < an(0); i++) { Word x = el(a, i, ww); Word f(x.begin(), x.begin() + m), e(x.begin() + m, x.end() - 1); Bit sg = x.back(), e1 = andAll(e), e0 = D.inv(orAll(e)), f0 = D.inv(orAll(f)); Bit nan = D.land(e1, D.inv(f0)), inf = D.land(e1, f0), zero = D.land(e0, f0), den = D.land(e0, D.inv(f0)), nrm = D.inv(D.lor(e1, e0)); Bit q = x[m - 1], r = kF, ns = D.inv(sg);
        auto on = [&](int b, Bit y) { if (k >> b & 1) r = D.lor(r, y); }; on(0, D.land(nan, D.inv(q))); on(1, D.land(nan, q)); on(2, D.land(sg, inf)); on(3, D.land(sg, nrm)); on(4, D.land(sg, den)); on(5, D.land(sg, zero)); on(6, D.land(ns, zero)); on(7, D.land(ns, den)); on(8, D.land(ns, nrm)); on(9, D.land(ns, inf)); v.bits.push_back(r); } return v; }
    default: break;
  }
  // --- x86
  if (N.consume_front("llvm.x86.")) return x86(c, N, arg, aw, an, t, w, n);
  notes.insert(N.str());
  if (N == "memcmp" || N == "bcmp") throw Unsupported("memcmp");
  if (c->doesNotReturn()) return v;
  bool ptrs = t->isVoidTy() || isPtr(t); for (auto& a : c->args()) ptrs |= isPtr(a->getType());
  if (ptrs || t->isStructTy()) throw Unsupported("call " + F->getName().str());
  if (n == 1 && c->arg_size() == 1 && t->isFloatingPointTy()) { // libm entry points with the same meaning as an intrinsic
    StringRef B = N; if (w == 32 && B.ends_with("f") && B != "f") B = B.drop_back();
    if (w == 32 && N == "f") B = N;
    for (const char* q : {"sqrt", "ceil", "floor", "trunc", "rint", "nearbyint", "round", "roundeven"}) if (B == q) return lanewise(c, "llvm." + std::string(B == "nearbyint" || B == "roundeven" ? "rint" : q));
  }
  std::vector<Word> as; for (auto& a : c->args()) if (!a->getType()->isMetadataTy()) as.push_back(W(a));
  if (n == 1) { v.bits = termWord(F->getName().str(), as, w, false); return v; }
  v.bits = termWord(F->getName().str(), as, w * n, true); return v;
}
Word compressW(const Word& x, const Word& m, unsigned ww, unsigned nn, const Word& thr) {
  // out[j] = x[i] where i is the j-th set mask bit; built as a shifting network from the last lane
  std::vector<Word> out(nn); for (unsigned j = 0; j < nn; j++) out[j] = thr.empty() ? Word(ww, kF) : Word(thr.begin() + j * ww, thr.begin() + (j + 1) * ww);
  // position of lane i = popcount(m[0..i-1])
  std::vector<std::vector<Bit>> pos(nn); std::vector<Bit> cur(nn + 1, kF); cur[0] = kT;
  for (unsigned i = 0; i < nn; i++) { for (unsigned j = 0; j <= i; j++) { Bit s = D.land(cur[j], m[i]); if (s == kF) continue; for (unsigned k = 0; k < ww; k++) out[j][k] = D.ite(s, x[i * ww + k], out[j][k]); } std::vector<Bit> nx(nn + 1, kF); for (unsigned j = 0; j <= i + 1; j++) { Bit stay = D.land(cur[j], D.inv(m[i])); Bit up = j ? D.land(cur[j - 1], m[i]) : kF; nx[j] = D.lor(stay, up); } cur = nx; }
  Word r; for (auto& o : out) cat(r, o); return r;
}
template <class FA, class FB, class FC>
Val x86(const CallInst* c, StringRef N, FA arg, FB aw, FC an, Type* t, unsigned w, unsigned n) {
  Val v; auto el = [&](const Word& x, unsigned i, unsigned ww) { return sub(x, i * ww, ww); };
  auto lw = [&]() { notes.insert("lanewise:" + N.str()); return lanewise(c, N.str()); };
  auto is = [&](std::initializer_list<const char*> l) { for (auto s : l) if (N == s) return true; return false; };
  // byte shuffles
  if (has(N, "pshuf.b") ) { Word a = arg(0), x = arg(1); for (unsigned i = 0; i < n; i++) { Word ix = el(x, i, 8); unsigned blk = i / 16 * 16; Word tb = sub(a, blk * 8, 128); Word r = muxw(tb, 8, 16, sub(ix, 0, 4)); cat(v.bits, ite(ix[7], Word(8, kF), r)); } return v; }
  if (N.starts_with("avx2.permd") || N.starts_with("avx2.permps") || N.starts_with("avx512.permvar.")) { Word a = arg(0), x = arg(1); int lg = 0; while ((1u << lg) < n) lg++; for (unsigned i = 0; i < n; i++) cat(v.bits, muxw(a, w, n, sub(el(x, i, w), 0, lg))); return v; }
  if (N.starts_with("avx512.vpermi2var.")) { Word a = arg(0), x = arg(1), b = arg(2); Word tb = a; cat(tb, b); int lg = 0; while ((1u << lg) < n) lg++; for (unsigned i = 0; i < n; i++) cat(v.bits, muxw(tb, w, 2 * n, sub(el(x, i, w), 0, lg + 1))); return v; }
  if (N.starts_with("avx.vpermilvar.ps") || N.starts_with("avx512.vpermilvar.ps")) { Word a = arg(0), x = arg(1); for (unsigned i = 0; i < n; i++) cat(v.bits, muxw(sub(a, i / 4 * 128, 128), 32, 4, sub(el(x, i, 32), 0, 2))); return v; }
  if (N.starts_with("avx.vpermilvar.pd") || N.starts_with("avx512.vpermilvar.pd")) { Word a = arg(0), x = arg(1); for (unsigned i = 0; i < n; i++) cat(v.bits, muxw(sub(a, i / 2 * 128, 128), 64, 2, Word{el(x, i, 64)[1]})); return v; }
  // movemask / tests
  if (has(N, "movmsk")) { Word a = arg(0); unsigned ww = aw(0), m = an(0); for (unsigned i = 0; i < m; i++) v.bits.push_back(a[i * ww + ww - 1]); v.bits.resize(w, kF); return v; }
  if (has(N, "ptestz") || has(N, "ptestc") || has(N, "ptestnzc")) { Word a = arg(0), b = arg(1); Bit z = kF, cc = kF; for (size_t i = 0; i < a.size(); i++) { z = D.lor(z, D.land(a[i], b[i])); cc = D.lor(cc, D.land(D.inv(a[i]), b[i])); } Bit r = has(N, "ptestz") ? D.inv(z) : has(N, "ptestnzc") ? D.land(z, cc) : D.inv(cc); v.bits = Word(w, kF); v.bits[0] = r; return v; }
  if (has(N, "vtestz.") || has(N, "vtestc.") || has(N, "vtestnzc.")) { Word a = arg(0), b = arg(1); unsigned ww = aw(0); Bit z = kF, cc = kF; for (size_t i = ww - 1; i < a.size(); i += ww) { z = D.lor(z, D.land(a[i], b[i])); cc = D.lor(cc, D.land(D.inv(a[i]), b[i])); } Bit r = has(N, "vtestz.") ? D.inv(z) : has(N, "vtestnzc.") ? D.land(z, cc) : D.inv(cc); v.bits = Word(w, kF); v.bits[0] = r; return v; }
  // blends
  if (has(N, "pblendvb") || has(N, "blendvp") || has(N, "blendv.p")) { Word a = arg(0), b = arg(1), m = arg(2); for (unsigned i = 0; i < n; i++) cat(v.bits, ite(m[i * w + w - 1], el(b, i, w), el(a, i, w))); return v; }
  // packs
  if (has(N, "packsswb") || has(N, "packssdw") || has(N, "packuswb") || has(N, "packusdw")) { Word a = arg(0), b = arg(1); unsigned ww = aw(0), per = 128 / ww; bool u = has(N, "packus"); for (unsigned blk = 0; blk < n * w / 128; blk++) { for (unsigned i = 0; i < per; i++) cat(v.bits, packS(el(a, blk * per + i, ww), w, u)); for (unsigned i = 0; i < per; i++) cat(v.bits, packS(el(b, blk * per + i, ww), w, u)); } return v; }
  // integer multiply families
  if (has(N, "pmulh.w") || has(N, "pmulhu.w")) { Word a = arg(0), b = arg(1); bool s = has(N, "pmulh.w"); for (unsigned i = 0; i < n; i++) cat(v.bits, sub(mul(ext(el(a, i, 16), 32, s), ext(el(b, i, 16), 32, s)), 16, 16)); return v; }
  if (has(N, "pmul.hr.sw")) { Word a = arg(0), b = arg(1); for (unsigned i = 0; i < n; i++) { Word p = mul(ext(el(a, i, 16), 32, true), ext(el(b, i, 16), 32, true)); Word q = add(p, cst(0x4000, 32)); cat(v.bits, sub(q, 15, 16)); } return v; }
  if (has(N, "pmadd.wd") || has(N, "pmaddw.d")) { Word a = arg(0), b = arg(1); for (unsigned i = 0; i < n; i++) cat(v.bits, add(mul(ext(el(a, 2 * i, 16), 32, true), ext(el(b, 2 * i, 16), 32, true)), mul(ext(el(a, 2 * i + 1, 16), 32, true), ext(el(b, 2 * i + 1, 16), 32, true)))); return v; }
  if (has(N, "pmadd.ub.sw") || has(N, "pmaddubs.w")) { Word a = arg(0), b = arg(1); for (unsigned i = 0; i < n; i++) { Word p = mul(ext(el(a, 2 * i, 8), 17, false), ext(el(b, 2 * i, 8), 17, true)), q = mul(ext(el(a, 2 * i + 1, 8), 17, false), ext(el(b, 2 * i + 1, 8), 17, true)); cat(v.bits, packS(add(p, q), 16, false)); } return v; }
  if (has(N, "psad.bw")) { Word a = arg(0), b = arg(1); for (unsigned i = 0; i < n; i++) { Word s = cst(0, 16); for (int k = 0; k < 8; k++) { Word x = el(a, i * 8 + k, 8), y = el(b, i * 8 + k, 8); Word d = isConst(y) && constVal(y) == 0 ? x : ite(ultw(x, y), subw(y, x), subw(x, y)); s = add(s, ext(d, 16, false)); } cat(v.bits, ext(s, 64, false)); } return v; }
  if (has(N, "pavg.b") || has(N, "pavg.w")) { Word a = arg(0), b = arg(1); for (unsigned i = 0; i < n; i++) { Word s = add(add(ext(el(a, i, w), w + 1, false), ext(el(b, i, w), w + 1, false)), cst(1, w + 1)); cat(v.bits, sub(s, 1, w)); } return v; }
  if (has(N, "psign.")) { Word a = arg(0), b = arg(1); for (unsigned i = 0; i < n; i++) { Word x = el(a, i, w), s = el(b, i, w); Word r = ite(s.back(), neg(x), x); r = ite(orAll(s), r, Word(w, kF)); cat(v.bits, r); } return v; }
  // shifts
  auto shfill = [&](const Word& x, const Word& amt, int kind) { return shvar(x, amt, kind, true); };
  if (has(N, "psllv") || has(N, "psrlv") || has(N, "psrav")) { Word a = arg(0), b = arg(1); int k = has(N, "psllv") ? 0 : has(N, "psrlv") ? 1 : 2; for (unsigned i = 0; i < n; i++) cat(v.bits, shfill(el(a, i, w), el(b, i, w), k)); return v; }
  if (has(N, "psll.") || has(N, "psrl.") || has(N, "psra.") || has(N, "pslli.") || has(N, "psrli.") || has(N, "psrai.")) { Word a = arg(0), b = arg(1); int k = has(N, "psll") ? 0 : has(N, "psrl") ? 1 : 2; bool im = an(1) == 1; Word amt = im ? b : sub(b, 0, 64); for (unsigned i = 0; i < n; i++) cat(v.bits, shfill(el(a, i, w), amt, k)); return v; }
  if (has(N, "pternlog")) { Word a = arg(0), b = arg(1), d = arg(2); uint64_t im = constVal(arg(3)); bool mz = N.consume_front("avx512.maskz"); (void)mz; for (size_t i = 0; i < a.size(); i++) { Bit r = kF; for (int k = 0; k < 8; k++) if (im >> k & 1) r = D.lor(r, D.land(D.land(k & 4 ? a[i] : D.inv(a[i]), k & 2 ? b[i] : D.inv(b[i])), k & 1 ? d[i] : D.inv(d[i]))); v.bits.push_back(r); } return v; }
  // compress / expand
  if (has(N, "mask.compress")) { Word a = arg(0), th = arg(1), m = arg(2); v.bits = compressW(a, m, w, n, th); return v; }
  if (has(N, "mask.expand")) { Word a = arg(0), th = arg(1), m = arg(2); std::vector<Bit> cur(n + 1, kF); cur[0] = kT; for (unsigned i = 0; i < n; i++) { Word r = el(th, i, w); for (unsigned j = 0; j <= i; j++) { Bit s = D.land(cur[j], m[i]); if (s != kF) r = ite(s, el(a, j, w), r); } cat(v.bits, r); std::vector<Bit> nx(n + 1, kF); for (unsigned j = 0; j <= i + 1; j++) nx[j] = D.lor(D.land(cur[j], D.inv(m[i])), j ? D.land(cur[j - 1], m[i]) : kF); cur = nx; } return v; }
  // AVX2 masked memory
  if (has(N, "maskload")) { Ptr p = get(c->getArgOperand(0)).ptrs[0]; Word m = arg(1); for (unsigned i = 0; i < n; i++) { Bit on = m[i * w + w - 1]; if (on == kF) { cat(v.bits, Word(w, kF)); continue; } Word x = load(addOff(p, cst(i * w / 8, 64)), w, on); cat(v.bits, ite(on, x, Word(w, kF))); } return v; }
  if (has(N, "maskstore")) { Ptr p = get(c->getArgOperand(0)).ptrs[0]; Word m = arg(1), x = arg(2); unsigned ww = aw(2), nn = an(2); for (unsigned i = 0; i < nn; i++) { Bit on = m[i * ww + ww - 1]; if (on != kF) store(addOff(p, cst(i * ww / 8, 64)), el(x, i, ww), on); } return v; }
  if (has(N, "maskmov.dqu")) { Word x = arg(0), m = arg(1); Ptr p = get(c->getArgOperand(2)).ptrs[0]; for (unsigned i = 0; i < 16; i++) if (m[i * 8 + 7] != kF) store(addOff(p, cst(i, 64)), el(x, i, 8), m[i * 8 + 7]); return v; }
  if (N.starts_with("avx2.gather")) { Word src = arg(0); Ptr p = get(c->getArgOperand(1)).ptrs[0]; Word ix = arg(2), m = arg(3); uint64_t sc = constVal(arg(4)); unsigned iw = aw(2), mw = aw(3); for (unsigned i = 0; i < n; i++) { Bit on = i < an(3) ? m[i * mw + mw - 1] : kF; if (i >= an(2) || on == kF) { cat(v.bits, i < an(2) ? el(src, i, w) : Word(w, kF)); continue; } Word off = mul(ext(el(ix, i, iw), 64, true), cst(sc, 64)); Word x = load(addOff(p, off), w, on); cat(v.bits, ite(on, x, el(src, i, w))); } return v; }
  if (has(N, "mask.gather")) { Word src = arg(0); Ptr p = get(c->getArgOperand(1)).ptrs[0]; Word ix = arg(2), m = arg(3); uint64_t sc = constVal(arg(4)); unsigned iw = aw(2); for (unsigned i = 0; i < n; i++) { Bit on = i < an(2) ? m[i] : kF; if (on == kF) { cat(v.bits, i < an(2) ? el(src, i, w) : Word(w, kF)); continue; } Word off = mul(ext(el(ix, i, iw), 64, true), cst(sc, 64)); Word x = load(addOff(p, off), w, on); cat(v.bits, ite(on, x, el(src, i, w))); } return v; }
  if (has(N, "mask.scatter")) { Ptr p = get(c->getArgOperand(0)).ptrs[0]; Word m = arg(1), ix = arg(2), x = arg(3); uint64_t sc = constVal(arg(4)); unsigned iw = aw(2), ww = aw(3); for (unsigned i = 0; i < std::min(an(2), an(3)); i++) { if (m[i] == kF) continue; Word off = mul(ext(el(ix, i, iw), 64, true), cst(sc, 64)); store(addOff(p, off), el(x, i, ww), m[i]); } return v; }
  // min/max with x86 semantics (second operand on ties/NaN)
  if (N == "sse.min.ps" || N == "sse2.min.pd" || N.starts_with("avx.min.p") || N.starts_with("avx512.min.p") || N.starts_with("avx512fp16.min.ph")) { Word a = arg(0), b = arg(1); for (unsigned i = 0; i < n; i++) cat(v.bits, ite(fcmpBit(CmpInst::FCMP_OLT, el(a, i, w), el(b, i, w)), el(a, i, w), el(b, i, w))); return v; }
  if (N == "sse.max.ps" || N == "sse2.max.pd" || N.starts_with("avx.max.p") || N.starts_with("avx512.max.p") || N.starts_with("avx512fp16.max.ph")) { Word a = arg(0), b = arg(1); for (unsigned i = 0; i < n; i++) cat(v.bits, ite(fcmpBit(CmpInst::FCMP_OLT, el(b, i, w), el(a, i, w)), el(a, i, w), el(b, i, w))); return v; }
  // compares producing vectors / masks
  if ((has(N, "cmp.ps") || has(N, "cmp.pd") || has(N, "cmp.ph")) && !has(N, "comi")) { Word a = arg(0), b = arg(1); uint64_t im = constVal(arg(2)) & 31; unsigned ww = aw(0); bool maskOut = N.starts_with("avx512") ; static const CmpInst::Predicate P[32] = {CmpInst::FCMP_OEQ, CmpInst::FCMP_OLT, CmpInst::FCMP_OLE, CmpInst::FCMP_UNO, CmpInst::FCMP_UNE, CmpInst::FCMP_UGE, CmpInst::FCMP_UGT, CmpInst::FCMP_ORD, CmpInst::FCMP_UEQ, CmpInst::FCMP_ULT, CmpInst::FCMP_ULE, CmpInst::FCMP_FALSE, CmpInst::FCMP_ONE, CmpInst::FCMP_OGE, CmpInst::FCMP_OGT, CmpInst::FCMP_TRUE, CmpInst::FCMP_OEQ, CmpInst::FCMP_OLT, CmpInst::FCMP_OLE, CmpInst::FCMP_UNO, CmpInst::FCMP_UNE, CmpInst::FCMP_UGE, CmpInst::FCMP_UGT, CmpInst::FCMP_ORD, CmpInst::FCMP_UEQ, CmpInst::FCMP_ULT, CmpInst::FCMP_ULE, CmpInst::FCMP_FALSE, CmpInst::FCMP_ONE, CmpInst::FCMP_OGE, CmpInst::FCMP_OGT, CmpInst::FCMP_TRUE};
    Word msk; if (maskOut && has(N, "mask.cmp") && an(3) > 1) msk = arg(3); for (unsigned i = 0; i < an(0); i++) { Bit r = fcmpBit(P[im], el(a, i, ww), el(b, i, ww)); if (!msk.empty()) r = D.land(r, msk[i]); if (maskOut) v.bits.push_back(r); else cat(v.bits, Word(ww, r)); } return v; }
  if (has(N, "fpclass.p")) { Word a = arg(0); uint64_t k = constVal(arg(1)); unsigned ww = aw(0); int m = ww == 64 ? 52 : ww == 32 ? 23 : 10; for (unsigned i = 0; i < an(0); i++) { Word x = el(a, i, ww); Word f(x.begin(), x.begin() + m), e(x.begin() + m, x.end() - 1); Bit sg = x.back(), e1 = andAll(e), e0 = D.inv(orAll(e)), f0 = D.inv(orAll(f)); Bit nan = D.land(e1, D.inv(f0)), inf = D.land(e1, f0), zero = D.land(e0, f0), den = D.land(e0, D.inv(f0)); Bit q = x[m - 1], r = kF; auto on = [&](int b, Bit y) { if (k >> b & 1) r = D.lor(r, y); }; on(0, D.land(nan, q)); on(1, D.land(zero, D.inv(sg))); on(2, D.land(zero, sg)); on(3, D.land(inf, D.inv(sg))); on(4, D.land(inf, sg)); on(5, den); on(6, D.land(sg, D.land(D.inv(e1), D.inv(zero)))); on(7, D.land(nan, D.inv(q))); v.bits.push_back(r); } return v; }
  if (has(N, "vpshufbitqmb")) { Word a = arg(0), b = arg(1); unsigned m = an(0); for (unsigned i = 0; i < m; i++) v.bits.push_back(muxw(sub(a, i / 8 * 64, 64), 1, 64, sub(el(b, i, 8), 0, 6))[0]); return v; }
  if (has(N, "pmultishift.qb")) { Word ctl = arg(0), dat = arg(1); unsigned m = an(0); for (unsigned i = 0; i < m; i++) { Word q = sub(dat, i / 8 * 64, 64), s = sub(el(ctl, i, 8), 0, 6); Word qq = q; cat(qq, q); for (int k = 0; k < 6; k++) { Word x(128, kF); for (unsigned j = 0; j + (1u << k) < 128; j++) x[j] = qq[j + (1u << k)]; qq = ite(s[k], x, qq); } cat(v.bits, sub(qq, 0, 8)); } return v; }
  if (has(N, "vgf2p8affineqb")) { Word x = arg(0), A2 = arg(1); uint64_t im = constVal(arg(2)); for (unsigned i = 0; i < n; i++) { Word b = el(x, i, 8), q = sub(A2, i / 8 * 64, 64); for (int k = 0; k < 8; k++) { Bit r = (im >> k) & 1; Word row = sub(q, (7 - k) * 8, 8); for (int j = 0; j < 8; j++) r = D.lxor(r, D.land(row[j], b[j])); v.bits.push_back(r); } } return v; }
  if (has(N, "vpshld") || has(N, "vpshrd")) return lw();
  if (has(N, "bmi.bzhi")) { Word a = arg(0), b = sub(arg(1), 0, 8); Word r; for (unsigned i = 0; i < w; i++) r.push_back(D.land(a[i], ultw(cst(i, 8), b))); v.bits = r; return v; }
  if (has(N, "bmi.pext") || has(N, "bmi.pdep") || has(N, "bmi.bextr")) {
    Word a = arg(0), m = arg(1);
    if (has(N, "pext")) { if (!isConst(m)) { v.bits = compressW(a, m, 1, w, Word(w, kF)); return v; } for (unsigned i = 0; i < w; i++) if (m[i]) v.bits.push_back(a[i]); v.bits.resize(w, kF); return v; }
    if (has(N, "pdep") && isConst(m)) { v.bits = Word(w, kF); unsigned k = 0; for (unsigned i = 0; i < w; i++) if (m[i]) v.bits[i] = a[k++]; return v; }
    if (has(N, "pdep")) { std::vector<Bit> cur(w + 1, kF); cur[0] = kT; for (unsigned i = 0; i < w; i++) { Bit r = kF; for (unsigned j = 0; j <= i; j++) r = D.lor(r, D.land(D.land(cur[j], m[i]), a[j])); v.bits.push_back(r); std::vector<Bit> nx(w + 1, kF); for (unsigned j = 0; j <= i + 1; j++) nx[j] = D.lor(D.land(cur[j], D.inv(m[i])), j ? D.land(cur[j - 1], m[i]) : kF); cur = nx; } return v; }
    std::vector<Word> as{a, m}; v.bits = termWord(N.str(), as, w); return v;
  }
  if (has(N, "pclmulqdq")) { Word a = arg(0), b = arg(1); uint64_t im = constVal(arg(2)); for (unsigned blk = 0; blk < n / 2; blk++) { Word x = el(a, 2 * blk + (im & 1), 64), y = el(b, 2 * blk + (im >> 4 & 1), 64); cat(v.bits, termWord("clmul", {x, y}, 128)); } return v; }
  if (has(N, "aesni") || has(N, "vaes") || has(N, "sha")) { std::vector<Word> as; unsigned tot = w * n; for (unsigned blk = 0; blk < tot / 128; blk++) { as.clear(); for (auto& a : c->args()) { Word x = W(a); if (x.size() == tot) as.push_back(sub(x, blk * 128, 128)); else as.push_back(x); } std::string nm = N.str(); for (auto s : {".128", ".256", ".512"}) { size_t p = nm.find(s); if (p != std::string::npos) nm = nm.substr(0, p); } cat(v.bits, termWord(nm, as, 128)); } return v; }
  if (has(N, "addsub.p")) { Word a = arg(0), b = arg(1); for (unsigned i = 0; i < n; i++) cat(v.bits, i & 1 ? fbin("fadd", el(a, i, w), el(b, i, w), true) : fbin("fsub", el(a, i, w), el(b, i, w), false)); return v; }
  if (has(N, "fmaddsub.p") || has(N, "vfmaddsub")) { Word a = arg(0), b = arg(1), d = arg(2); bool subadd = has(N, "fmsubadd"); for (unsigned i = 0; i < n; i++) { Word x = el(a, i, w), y = el(b, i, w), z = el(d, i, w); bool s = ((i & 1) == 0) != subadd; if (y < x) std::swap(x, y); cat(v.bits, termWord("fma" + std::to_string(w), {x, y, s ? flipTop(z) : z}, w)); } return v; }
  if (has(N, "phadd.") || has(N, "phsub.") || has(N, "hadd.p") || has(N, "hsub.p")) { Word a = arg(0), b = arg(1); bool sb = has(N, "sub"), fp = has(N, ".p") && has(N, "hadd.p") ; fp = N.ends_with("ps") || N.ends_with("pd") || has(N, ".ps") || has(N, ".pd"); unsigned per = 128 / w; auto f = [&](const Word& x, const Word& y) { return fp ? fbin(sb ? "fsub" : "fadd", x, y, !sb) : sb ? subw(x, y) : add(x, y); }; for (unsigned blk = 0; blk < n / per; blk++) for (int s = 0; s < 2; s++) for (unsigned i = 0; i < per / 2; i++) { const Word& q = s ? b : a; cat(v.bits, f(el(q, blk * per + 2 * i, w), el(q, blk * per + 2 * i + 1, w))); } return v; }
  // narrowing moves
  if (has(N, "mask.pmov")) { Word a = arg(0), th = arg(1), m = arg(2); unsigned ww = aw(0), nn = an(0); int kind = has(N, "pmovus.") ? 2 : has(N, "pmovs.") ? 1 : 0; for (unsigned i = 0; i < n; i++) { if (i >= nn) { cat(v.bits, Word(w, kF)); continue; } Word x = el(a, i, ww), r; if (kind == 0) r = sub(x, 0, w); else if (kind == 1) r = packS(x, w, false); else { Bit hi = kF; for (unsigned k = w; k < ww; k++) hi = D.lor(hi, x[k]); r = sub(x, 0, w); for (auto& q : r) q = D.lor(q, hi); } cat(v.bits, ite(m[i], r, el(th, i, w))); } return v; }
  if (N.starts_with("sse41.round.p") || N.starts_with("avx.round.p") || (N.starts_with("avx512.mask.rndscale.p") && !has(N, ".ss") && !has(N, ".sd"))) {
    bool ev = has(N, "rndscale"); Word a = arg(0); uint64_t im = constVal(arg(1)); static const char* R[] = {"llvm.rint", "llvm.floor", "llvm.ceil", "llvm.trunc"};
    if ((im >> 4) == 0 && (!ev || isConst(arg(3)))) { Word msk, th; if (ev) { th = arg(2); msk = arg(3); } for (unsigned i = 0; i < n; i++) { if (ev && msk[i] == kF) { cat(v.bits, el(th, i, w)); continue; } cat(v.bits, termWord(std::string((im & 4) ? "llvm.rint" : R[im & 3]) + ":" + std::to_string(w), {el(a, i, w)}, w)); } return v; } }
  // rounding / conversions / approximations: element-wise
  if (has(N, "cvt") && n > 1 && an(0) != n) { // lower lanes converted, rest zero or passthrough
    Word a = arg(0); unsigned ww = aw(0); std::vector<Word> rest; Word pass; for (unsigned k = 1; k < c->arg_size(); k++) { Type* at = c->getArgOperand(k)->getType(); Word x = W(c->getArgOperand(k)); if (numEl(at) == n && eltBits(at) == w) pass = x; else rest.push_back(x); }
    for (unsigned i = 0; i < n; i++) { if (i < an(0)) { std::vector<Word> as{el(a, i, ww)}; for (auto& r : rest) { if (isConst(r)) as.push_back(r); else if (i < r.size()) as.push_back(Word{r[i]}); } if (!pass.empty()) as.push_back(el(pass, i, w)); cat(v.bits, termWord(N.str(), as, w)); } else cat(v.bits, pass.empty() ? Word(w, kF) : Word(w, kF)); } return v; }
  if (has(N, "mpsadbw") || has(N, "dbpsadbw")) { notes.insert("model:" + N.str()); Word a = arg(0), b = arg(1); Word im = arg(2); unsigned tot = w * n; for (unsigned blk = 0; blk < tot / 128; blk++) cat(v.bits, termWord(N.str(), {sub(a, blk * 128, 128), sub(b, blk * 128, 128), im}, 128, true)); return v; }
  if (has(N, "vpdpb") || has(N, "vpdpw")) { Word s = arg(0), a = arg(1), b = arg(2); std::string nm = N.str(); for (auto q : {".128", ".256", ".512"}) { size_t p = nm.find(q); if (p != std::string::npos) nm = nm.substr(0, p); } unsigned tot = 32; for (unsigned i = 0; i < s.size() / 32; i++) cat(v.bits, termWord(nm, {sub(s, i * tot, tot), sub(a, i * tot, tot), sub(b, i * tot, tot)}, 32)); return v; }
  if (has(N, "dpbf16ps")) { Word s = arg(0), a = arg(1), b = arg(2); for (unsigned i = 0; i < n; i++) cat(v.bits, termWord("dpbf16", {el(s, i, 32), sub(a, i * 32, 32), sub(b, i * 32, 32)}, 32)); return v; }
  if (has(N, "cvtne2ps2bf16")) { Word a = arg(0), b = arg(1); for (unsigned i = 0; i < n; i++) { Word x = i < n / 2 ? el(b, i, 32) : el(a, i - n / 2, 32); cat(v.bits, termWord("cvtneps2bf16", {x}, 16)); } return v; }
  if (has(N, "pdist") ) { return lw(); }
  if (has(N, "conflict")) { Word a = arg(0); for (unsigned i = 0; i < n; i++) { Word r(w, kF); for (unsigned j = 0; j < i; j++) r[j] = eqw(el(a, i, w), el(a, j, w)); cat(v.bits, r); } return v; }
  if (has(N, "sse2.pause") || has(N, "fence") || has(N, "clflush") || has(N, "sse.stmxcsr")) return v;
  if (t->isVoidTy() || t->isStructTy() || isPtr(t)) throw Unsupported("x86 " + N.str());
  for (auto& a : c->args()) if (isPtr(a->getType())) throw Unsupported("x86 ptr " + N.str());
  if (has(N, ".ss") || has(N, ".sd") || has(N, ".sh")) { // scalar in lane 0, rest from first operand
    std::vector<Word> as; for (auto& a : c->args()) { Word x = W(a); unsigned k = eltBits(a->getType()); as.push_back(sub(x, 0, k)); } Word r = termWord(N.str(), as, w); if (n > 1) { Word a = arg(0); cat(r, sub(a, w, a.size() - w)); } notes.insert("scalar:" + N.str()); v.bits = r; return v; }
  if (has(N, "cvttsd2si") || has(N, "cvtsd2si") || has(N, "cvttss2si") || has(N, "cvtss2si") || has(N, "sd2usi") || has(N, "ss2usi") || has(N, "vcvtsd2") || has(N, "vcvtss2")) { v.bits = termWord(N.str(), {el(arg(0), 0, aw(0))}, w); return v; } // lane 0 only
  bool same = true; for (auto& a : c->args()) { unsigned k = numEl(a->getType()); same &= k == n || k == 1; } if (same) return lw();
  notes.insert("opaque:" + N.str());
  std::vector<Word> as; for (auto& a : c->args()) as.push_back(W(a)); v.bits = termWord(N.str(), as, w * n, true); return v;
}
