// Exact translation of bit-vector terms to linear integer arithmetic: every w-bit term is the integer in [0,2^w) it denotes,
// wrap-around is an explicit multiple of 2^w, constant shifts/masks/divisions are quotient and remainder.
// Complete for what it translates (equisatisfiable, no approximation); anything else is left to the bit-vector back end.
struct Lia {
  typedef unsigned __int128 u128;
  struct T { std::unique_ptr<z3::expr> e; u128 lo = 0, hi = 0; bool ok = false; };
  z3::context ctx;
  std::unique_ptr<z3::solver> s;
  std::unordered_map<u32, T> tr;
  std::unordered_map<u32, std::unique_ptr<z3::expr>> lit;
  std::unordered_map<u32, std::vector<u32>> sup;    // variables of a term
  std::unordered_map<u32, u8> ar;                   // contains 64-bit arithmetic
  struct No {};
  u64 fresh = 0;

  static std::string dec(u128 v) { std::string r; do { r.insert(r.begin(), '0' + (int)(v % 10)); v /= 10; } while (v); return r; }
  z3::expr num(u128 v) { return ctx.int_val(dec(v).c_str()); }
  static u128 P(unsigned w) { return (u128)1 << w; }
  std::unordered_map<u32, std::pair<u64, u64>> rng;  // what the path says about a term's range
  std::unordered_set<u64> le;                        // pairs (a,b) with a <= b on the path
  std::pair<u64, u64>& R(E* e) { return rng.emplace(e->id, std::make_pair((u64)0, maskw(e->w))).first->second; }
  // Starts a query: ranges and comparisons that hold on the path let most wrap-arounds be excluded up front.
  bool begin(const std::vector<E*>& pc, E* extra) {
    tr.clear(); memo.clear(); keep.clear(); rng.clear(); le.clear(); fresh = 0;
    s.reset();
    s = std::make_unique<z3::solver>(ctx, "QF_LIA");
    z3::params p(ctx);
    p.set("timeout", 20000u);
    s->set(p);
    std::vector<std::pair<E*, E*>> les;  // a <= b (strict: b-1)
    std::vector<char> st;
    std::function<void(E*)> take = [&](E* e) {
      if (e->w == 1 && e->op == AND) { take(e->a); take(e->b); return; }
      bool neg = e->op == NOT;
      E* x = neg ? e->a : e;
      if (x->op == ULT) { if (neg) { les.push_back({x->b, x->a}); st.push_back(0); } else { les.push_back({x->a, x->b}); st.push_back(1); } }
      else if (x->op == EQ && !neg && x->a->w > 1) { les.push_back({x->a, x->b}); st.push_back(0); les.push_back({x->b, x->a}); st.push_back(0); }
    };
    for (E* e : pc) take(e);
    if (extra) take(extra);
    for (auto& [a, b] : les) le.insert(((u64)a->id << 32) | b->id);
    for (int it = 0; it < 6; it++) {
      bool ch = false;
      for (size_t i = 0; i < les.size(); i++) {
        auto [a, b] = les[i];
        std::pair<u64, u64> ra = isC(a) ? std::make_pair(a->c, a->c) : R(a), rb = isC(b) ? std::make_pair(b->c, b->c) : R(b);
        if (st[i]) { if (rb.second == 0 || ra.first == maskw(a->w)) return false; rb.second--; ra.first++; }
        if (!isC(a) && rb.second < R(a).second) { R(a).second = rb.second; ch = true; }
        if (!isC(b) && ra.first > R(b).first) { R(b).first = ra.first; ch = true; }
        if (!isC(a) && R(a).first > R(a).second) return false;
        if (!isC(b) && R(b).first > R(b).second) return false;
      }
      if (!ch) break;
    }
    return true;
  }
  void reset() {}
  const T& bounded(T& t, const z3::expr& e, u128 lo, u128 hi) { t.e = std::make_unique<z3::expr>(e); t.lo = lo; t.hi = hi; t.ok = true; return t; }
  z3::expr aux(u128 lo, u128 hi) {
    z3::expr v = ctx.int_const(("k" + std::to_string(fresh++)).c_str());
    s->add(v >= num(lo)); s->add(v <= num(hi));
    return v;
  }
  // x = d*q + m, 0 <= m < d (one pair of unknowns per x and d)
  std::map<std::pair<unsigned, std::string>, std::pair<std::unique_ptr<z3::expr>, std::unique_ptr<z3::expr>>> memo;
  void split(const z3::expr& x, u128 lo, u128 hi, u128 d, std::unique_ptr<z3::expr>& q, std::unique_ptr<z3::expr>& m) {
    auto key = std::make_pair(x.id(), dec(d));
    auto it = memo.find(key);
    if (it == memo.end()) {
      split1(x, lo, hi, d, q, m);
      memo.emplace(key, std::make_pair(std::make_unique<z3::expr>(*q), std::make_unique<z3::expr>(*m)));
      keep.push_back(std::make_unique<z3::expr>(x));
      return;
    }
    q = std::make_unique<z3::expr>(*it->second.first);
    m = std::make_unique<z3::expr>(*it->second.second);
  }
  std::vector<std::unique_ptr<z3::expr>> keep;   // ids stay unique while the query lives
  void split1(const z3::expr& x, u128 lo, u128 hi, u128 d, std::unique_ptr<z3::expr>& q, std::unique_ptr<z3::expr>& m) {
    q = std::make_unique<z3::expr>(aux(lo / d, hi / d));
    m = std::make_unique<z3::expr>(aux(0, d - 1));
    s->add(x == *q * num(d) + *m);
  }
  const T& go(E* e) {
    auto it = tr.find(e->id);
    if (it != tr.end()) { if (!it->second.ok) throw No{}; return it->second; }
    T t;
    try { go1(e, t); } catch (No&) { tr.emplace(e->id, T{}); throw; }
    if (e->w > 1) if (auto ri = rng.find(e->id); ri != rng.end()) {
      u128 l = std::max<u128>(t.lo, ri->second.first), h = std::min<u128>(t.hi, ri->second.second);
      if (l <= h) { t.lo = l; t.hi = h; }
    }
    // name compound integer terms so that formulas stay small
    if (e->w > 1 && e->op != CONST && e->op != VAR && !t.e->is_const() && !t.e->is_numeral()) {
      z3::expr v = ctx.int_const(("t" + std::to_string(e->id)).c_str());
      s->add(v == *t.e); s->add(v >= num(t.lo)); s->add(v <= num(t.hi));
      t.e = std::make_unique<z3::expr>(v);
    }
    return tr.emplace(e->id, std::move(t)).first->second;
  }
  z3::expr B(E* e) { return *go(e).e; }              // i1 as Boolean
  void go1(E* e, T& t) {
    unsigned w = e->w;
    u128 M = P(w);
    auto isB = [](E* x) { return x->w == 1; };
    auto I = [&](E* x, u128& lo, u128& hi) -> z3::expr {
      const T& y = go(x);
      if (isB(x)) { lo = 0; hi = 1; return z3::ite(*y.e, ctx.int_val(1), ctx.int_val(0)); }
      lo = y.lo; hi = y.hi; return *y.e;
    };
    u128 al, ah, bl, bh;
    switch (e->op) {
      case CONST: if (w == 1) { bounded(t, ctx.bool_val(e->c != 0), 0, 1); return; } bounded(t, num(e->c), e->c, e->c); return;
      case VAR: {
        std::string n = "v" + std::to_string(e->c) + "_" + std::to_string(w);
        if (w == 1) { bounded(t, ctx.bool_const(n.c_str()), 0, 1); return; }
        z3::expr v = ctx.int_const(n.c_str());
        s->add(v >= 0); s->add(v <= num(M - 1));
        bounded(t, v, 0, M - 1); return;
      }
      case NOT: bounded(t, !B(e->a), 0, 1); return;
      case ITE: {
        z3::expr c = B(e->a);
        if (w == 1) { bounded(t, z3::ite(c, B(e->b), B(e->d)), 0, 1); return; }
        z3::expr x = I(e->b, al, ah), y = I(e->d, bl, bh);
        bounded(t, z3::ite(c, x, y), std::min(al, bl), std::max(ah, bh)); return;
      }
      case ZEXT: { z3::expr x = I(e->a, al, ah); bounded(t, x, al, ah); return; }
      case SEXT: {
        z3::expr x = I(e->a, al, ah);
        unsigned aw = e->a->w;
        if (ah < P(aw - 1)) { bounded(t, x, al, ah); return; }
        bounded(t, z3::ite(x >= num(P(aw - 1)), x + num(M - P(aw)), x), al >= P(aw - 1) ? al + (M - P(aw)) : std::min<u128>(al, 0), M - 1); return;
      }
      case EXTRACT: {
        z3::expr x = I(e->a, al, ah);
        std::unique_ptr<z3::expr> q, m, r, q2;
        z3::expr y = x; u128 yl = al, yh = ah;
        if (e->lo) { split(x, al, ah, P(e->lo), q, m); y = *q; yl = al / P(e->lo); yh = ah / P(e->lo); }
        if (yh >= M) { split(y, yl, yh, M, q2, r); y = *r; yl = 0; yh = M - 1; }
        if (w == 1) bounded(t, y == 1, 0, 1); else bounded(t, y, yl, yh);
        return;
      }
      case CONCAT: { z3::expr x = I(e->a, al, ah), y = I(e->b, bl, bh); u128 k = P(e->b->w); bounded(t, x * num(k) + y, al * k + bl, ah * k + bh); return; }
      case EQ: {
        if (isB(e->a)) { bounded(t, B(e->a) == B(e->b), 0, 1); return; }
        z3::expr x = I(e->a, al, ah), y = I(e->b, bl, bh); bounded(t, x == y, 0, 1); return;
      }
      case ULT: { z3::expr x = I(e->a, al, ah), y = I(e->b, bl, bh); bounded(t, x < y, 0, 1); return; }
      case SLT: {
        z3::expr x = I(e->a, al, ah), y = I(e->b, bl, bh);
        unsigned aw = e->a->w;
        u128 h = P(aw - 1);
        if (ah >= h) x = z3::ite(x >= num(h), x - num(P(aw)), x);
        if (bh >= h) y = z3::ite(y >= num(h), y - num(P(aw)), y);
        bounded(t, x < y, 0, 1); return;
      }
      case FLT: case FEQ: case FNAN: throw No{};
      default: break;
    }
    if (w == 1 && isB(e->a)) {
      switch (e->op) {
        case AND: bounded(t, B(e->a) && B(e->b), 0, 1); return;
        case OR: bounded(t, B(e->a) || B(e->b), 0, 1); return;
        case XOR: case ADD: case SUB: bounded(t, B(e->a) != B(e->b), 0, 1); return;
        default: throw No{};
      }
    }
    z3::expr x = I(e->a, al, ah), y = I(e->b, bl, bh);
    bool cb = isC(e->b), ca = isC(e->a);
    auto wrapTo = [&](const z3::expr& v, u128 lo, u128 hi) {   // v in [lo,hi] reduced modulo 2^w
      if (hi < M) { bounded(t, v, lo, hi); return; }
      if (lo >= M && hi < 2 * M) { bounded(t, v - num(M), lo - M, hi - M); return; }
      z3::expr k = aux(lo / M, hi / M);
      z3::expr r = aux(0, M - 1);
      s->add(v == r + k * num(M));
      bounded(t, r, 0, M - 1);
    };
    switch (e->op) {
      case ADD: {
        // x + (-c) is a subtraction
        if (cb && e->b->c >= (maskw(w) >> 1)) {
          u128 c = M - e->b->c;
          if (al >= c) { bounded(t, x - num(c), al - c, ah - c); return; }
        }
        wrapTo(x + y, al + bl, ah + bh); return;
      }
      case SUB: {
        if (al >= bh || le.count(((u64)e->b->id << 32) | e->a->id)) { bounded(t, x - y, al >= bh ? al - bh : 0, ah > bl ? ah - bl : 0); return; }
        // x - y + M in (0, 2M)
        wrapTo(x - y + num(M), al + M - bh, ah + M - bl); return;
      }
      case MUL: case SHL: {
        if (e->op == SHL) { if (!cb || e->b->c >= w) throw No{}; u128 c = P(e->b->c); wrapTo(x * num(c), al * c, ah * c); return; }
        if (!cb && !ca) throw No{};
        u128 c = cb ? e->b->c : e->a->c; u128 l = cb ? al : bl, h = cb ? ah : bh;
        wrapTo((cb ? x : y) * num(c), l * c, h * c); return;
      }
      case UMULO: {
        if (!cb && !ca) throw No{};
        u128 c = cb ? e->b->c : e->a->c; u128 h = cb ? ah : bh;
        u128 MM = P(e->a->w);
        if (h * c < MM) bounded(t, ctx.bool_val(false), 0, 1); else bounded(t, (cb ? x : y) * num(c) >= num(MM), 0, 1);
        return;
      }
      case LSHR: case UDIV: case UREM: {
        if (!cb) throw No{};
        u128 d = e->op == LSHR ? (e->b->c < w ? P(e->b->c) : 0) : e->b->c;
        if (d == 0) throw No{};
        if (d == 1) { if (e->op == UREM) bounded(t, ctx.int_val(0), 0, 0); else bounded(t, x, al, ah); return; }
        std::unique_ptr<z3::expr> q, m;
        split(x, al, ah, d, q, m);
        if (e->op == UREM) bounded(t, *m, 0, std::min<u128>(ah, d - 1)); else bounded(t, *q, al / d, ah / d);
        return;
      }
      case AND: {
        if (!cb && !ca) throw No{};
        u64 c = cb ? e->b->c : e->a->c;
        z3::expr v = cb ? x : y;
        u128 l = cb ? al : bl, h = cb ? ah : bh;
        if (c == 0) { bounded(t, ctx.int_val(0), 0, 0); return; }
        unsigned z = __builtin_ctzll(c);
        u64 cc = c >> z;
        if (cc & (cc + 1)) throw No{};                 // not a contiguous run of ones
        u128 top = (u128)c + P(z);                     // 2^(z+len)
        std::unique_ptr<z3::expr> q, m, q2, m2;
        u128 vl = l, vh = h;
        if (vh >= top) { split(v, vl, vh, top, q, m); v = *m; vl = 0; vh = top - 1; }
        if (z) { split(v, vl, vh, P(z), q2, m2); bounded(t, v - *m2, vl >= P(z) ? vl - (P(z) - 1) : 0, vh); }
        else bounded(t, v, vl, vh);
        return;
      }
      case XOR: {
        if (cb && e->b->c == maskw(w)) { bounded(t, num(M - 1) - x, M - 1 - ah, M - 1 - al); return; }
        if (cb && e->b->c == (1ull << (w - 1))) { wrapTo(x + num(M / 2), al + M / 2, ah + M / 2); return; }
        throw No{};
      }
      default: throw No{};
    }
  }
  z3::expr literal(E* e) {
    auto it = lit.find(e->id);
    if (it != lit.end()) return *it->second;
    z3::expr b = B(e);
    s->add(b);
    return b;
  }
  bool arith(E* e) {
    if (isC(e) || e->op == VAR) return false;
    auto it = ar.find(e->id);
    if (it != ar.end()) return it->second;
    bool r = ((e->op == ADD || e->op == SUB || e->op == MUL || e->op == UDIV || e->op == UREM || e->op == UMULO) && e->a->w >= 32);
    for (E* x : {e->a, e->b, e->d}) if (x && !r) r = arith(x);
    ar[e->id] = r;
    return r;
  }
  const std::vector<u32>& support(E* e) {
    auto it = sup.find(e->id);
    if (it != sup.end()) return it->second;
    std::vector<u32> r;
    if (e->op == VAR) r.push_back(e->c);
    else if (!isC(e)) for (E* x : {e->a, e->b, e->d}) if (x && !isC(x)) { const auto& y = support(x); r.insert(r.end(), y.begin(), y.end()); }
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return sup.emplace(e->id, std::move(r)).first->second;
  }
};
