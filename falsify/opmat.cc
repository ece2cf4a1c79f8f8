// Symbolic operator matrices: sorting, line analysis, products and compression against exact evaluation.
#include "symb.h"

// a coefficient with labels 0..nco-1; never the zero value (labels are distinct generic values)
static CoefRepr RandCoef(Rng &r, long nco, bool id_ok = true) {
  CoefRepr c(id_ok ? r.range(0, nco - 1) : r.range(1, nco));
  while (r.chance(1, 8)) c += CoefRepr(r.range(0, nco - 1));
  return c;
}
// operator with the common coefficient c (or own ones)
static OpRepr RandOp(Rng &r, long nops, const CoefRepr &c) {
  std::vector<long> ls{r.range(0, nops - 1)};
  while (r.chance(1, 5)) ls.push_back(r.range(0, nops - 1));
  std::sort(ls.begin(), ls.end());
  ls.erase(std::unique(ls.begin(), ls.end()), ls.end());
  return OpRepr(std::vector<CoefRepr>(ls.size(), c), ls);
}
static OpRepr MixedOp(Rng &r, long nops, long nco) {
  std::vector<long> ls{r.range(0, nops - 1)};
  while (r.chance(1, 2)) ls.push_back(r.range(0, nops - 1));
  std::sort(ls.begin(), ls.end());
  ls.erase(std::unique(ls.begin(), ls.end()), ls.end());
  std::vector<CoefRepr> cs;
  for (size_t i = 0; i < ls.size(); ++i) cs.push_back(RandCoef(r, nco));
  return OpRepr(cs, ls);
}
struct Shape { size_t rows, cols; int fill; };   // fill of 10
static Shape RandShape(Rng &r, size_t cap) {
  bool big = r.chance(1, 10);
  Shape s;
  s.rows = big ? fz::Size(r, 1, 5, cap) : r.range(1, 6);
  s.cols = big ? fz::Size(r, 1, 5, cap) : r.range(1, 6);
  s.fill = r.chance(1, 3) ? 9 : (int) r.range(1, 7);
  if (s.rows * s.cols > 400) s.fill = 1;
  return s;
}
// fills m in a random order, partly twice
static void Put(Rng &r, SparOpReprMat &m, const std::vector<OpRepr> &e) {
  std::vector<size_t> at;
  for (size_t i = 0; i < e.size(); ++i) at.push_back(i);
  for (size_t i = at.size(); i > 1; --i) if (r.chance(1, 2)) std::swap(at[i - 1], at[r.below(i)]);
  for (size_t i : at) {
    if (e[i] == kNullOpRepr) continue;
    if (r.chance(1, 10)) m.SetElem(i / m.cols, i % m.cols, OpRepr(1 + (long) r.below(3)));
    m.SetElem(i / m.cols, i % m.cols, e[i]);
  }
}
static SparOpReprMat Build(Rng &r, size_t rows, size_t cols, const std::vector<OpRepr> &e, const char *name) {
  SparOpReprMat m(rows, cols);
  if (r.chance(1, 8) && rows && cols) {     // through a larger matrix with a line taken out
    size_t k = r.below(rows + 1);
    std::vector<OpRepr> f(e);
    std::vector<OpRepr> x;
    for (size_t j = 0; j < cols; ++j) x.push_back(r.chance(1, 2) ? kNullOpRepr : OpRepr((long) r.below(4)));
    f.insert(f.begin() + k * cols, x.begin(), x.end());
    SparOpReprMat b(rows + 1, cols);
    Put(r, b, f);
    b.RemoveRow(k);
    m = b;
  } else Put(r, m, e);
  Mat got = Read(m);
  NOTE(name << " = " << S(got));
  return m;
}
static void Same(const Mat &a, const Mat &b, const char *what) {
  REQUIRE_P(a.rows == b.rows && a.cols == b.cols, what << ": shape " << a.rows << "x" << a.cols << " instead of " << b.rows << "x" << b.cols);
  for (size_t i = 0; i < a.rows; ++i) for (size_t j = 0; j < a.cols; ++j)
    REQUIRE_P(a.at(i, j) == b.at(i, j), what << ": element (" << i << "," << j << ") is " << S(a.at(i, j)) << " instead of " << S(b.at(i, j)));
}
static std::vector<OpRepr> RandElems(Rng &r, const Shape &s, long nops, long nco) {
  std::vector<OpRepr> e;
  for (size_t i = 0; i < s.rows * s.cols; ++i) e.push_back(r.chance(s.fill, 10) ? (r.chance(1, 3) ? MixedOp(r, nops, nco) : RandOp(r, nops, RandCoef(r, nco))) : kNullOpRepr);
  return e;
}

static void SortMode(Rng &r) {
  Shape s = RandShape(r, 40);
  auto e = RandElems(r, s, 4, 4);
  if (s.rows * s.cols > 200) e.assign(e.size(), kNullOpRepr);
  auto m = Build(r, s.rows, s.cols, e, "m");
  if (s.rows * s.cols > 200) for (int k = 0; k < 60; ++k) m.SetElem(r.below(s.rows), r.below(s.cols), OpRepr((long) r.below(50)));
  for (int rep = 0; rep < 2; ++rep) {
    bool row = r.chance(1, 2);
    Mat a = Read(m);
    auto p = row ? m.SortRows() : m.SortCols();
    NOTE((row ? "SortRows -> " : "SortCols -> ") << S(p));
    Mat b = Read(m);
    size_t n = row ? s.rows : s.cols;
    REQUIRE_P(p.size() == n, "length of the returned order " << p.size());
    std::vector<size_t> q = p;
    std::sort(q.begin(), q.end());
    for (size_t i = 0; i < n; ++i) REQUIRE_P(q[i] == i, "the returned order is not a permutation");
    Mat w = a;
    for (size_t i = 0; i < s.rows; ++i) for (size_t j = 0; j < s.cols; ++j) w.at(i, j) = row ? a.at(p[i], j) : a.at(i, p[j]);
    Same(b, w, "sorted matrix");
    size_t last = 0;
    for (size_t i = 0; i < n; ++i) {
      size_t c = 0;
      for (size_t j = 0; j < (row ? s.cols : s.rows); ++j) c += (row ? b.at(i, j) : b.at(j, i)) != kNullOpRepr;
      REQUIRE_P(c >= last, "line " << i << " has " << c << " elements, the one before " << last);
      last = c;
    }
  }
}

static void LineMode(Rng &r) {
  Shape s = RandShape(r, 30);
  long nops = r.range(1, 4), nco = r.range(1, 4);
  auto e = RandElems(r, s, nops, nco);
  bool row = r.chance(1, 2);
  size_t n = row ? s.rows : s.cols, k = row ? s.cols : s.rows;
  auto at = [&](size_t i, size_t j) -> OpRepr & { return row ? e[i * s.cols + j] : e[j * s.cols + i]; };
  for (size_t i = 0; i < n; ++i) {
    if (r.chance(1, 2)) { CoefRepr c = RandCoef(r, nco); for (size_t j = 0; j < k; ++j) if (at(i, j) != kNullOpRepr && !r.chance(1, 12)) at(i, j) = RandOp(r, nops, c); }
    if (r.chance(1, 8)) for (size_t j = 0; j < k; ++j) at(i, j) = kNullOpRepr;
  }
  auto m = Build(r, s.rows, s.cols, e, "m");
  Nums v = RandNums(r);
  Mat a = Read(m);
  auto A = [&](const Mat &x, size_t i, size_t j) -> const OpRepr & { return row ? x.at(i, j) : x.at(j, i); };
  for (size_t i = 0; i < n; ++i) {
    auto c = row ? m.TryCatchRowCommonDivisorCoef(i) : m.TryCatchColCommonDivisorCoef(i);
    NOTE((row ? "row " : "col ") << i << " common coefficient " << S(c));
    bool empty = true, all = true, share = true;
    CoefRepr first;
    bool have = false;
    for (size_t j = 0; j < k; ++j) {
      auto &x = A(a, i, j);
      if (x == kNullOpRepr) continue;
      empty = false;
      for (auto &y : x.GetCoefReprList()) {
        if (!have) { first = y; have = true; }
        if (!(y == first)) share = false;
        if (!(y == c)) all = false;
      }
    }
    if (empty) REQUIRE_P(c == kNullCoefRepr, "empty line has the common coefficient " << S(c));
    else {
      REQUIRE_P(c == kIdCoefRepr || all, "coefficient " << S(c) << " found for line " << i << " is not one of every element");
      REQUIRE_P(!share || c == first, "all elements of line " << i << " share " << S(first) << ", found " << S(c));
    }
    REQUIRE_P(true, "");
  }
  Same(Read(m), a, "matrix after looking for coefficients");
  for (int rep = 0; rep < 2; ++rep) {
    size_t i = r.below(n);
    Mat b = Read(m);
    if (row) m.RemoveRowCoef(i); else m.RemoveColCoef(i);
    NOTE((row ? "RemoveRowCoef " : "RemoveColCoef ") << i);
    Mat w = Read(m);
    for (size_t x = 0; x < s.rows; ++x) for (size_t y = 0; y < s.cols; ++y) {
      size_t li = row ? x : y;
      auto &o = b.at(x, y), &u = w.at(x, y);
      if (li != i) { REQUIRE_P(o == u, "removing coefficients of line " << i << " changed (" << x << "," << y << ")"); continue; }
      auto cs = o.GetCoefReprList();
      bool uni = true;
      for (auto &c : cs) if (!(c == cs[0])) uni = false;
      if (o == kNullOpRepr) { REQUIRE_P(u == kNullOpRepr, "null element became " << S(u)); continue; }
      if (!uni) { bool id = true; for (auto &c : u.GetCoefReprList()) if (!(c == kIdCoefRepr)) id = false; REQUIRE_P(u == o || id, "element " << S(o) << " became " << S(u)); if (!(u == o)) REQUIRE_P(false, "element without a common coefficient " << S(o) << " became " << S(u)); continue; }
      REQUIRE_P(Times(Val(cs[0], v), Val(u, v)) == Val(o, v), "coefficient " << S(cs[0]) << " times what is left " << S(u) << " is not " << S(o));
      for (auto &c : u.GetCoefReprList()) REQUIRE_P(c == kIdCoefRepr, "coefficient left in " << S(u));
    }
  }
  // combinations: any coefficients on lines with identity coefficients, zero or identity on others
  Mat b = Read(m);
  size_t len = r.range(1, (long) n);
  CoefReprVec cmb;
  for (size_t i = 0; i < len; ++i) {
    bool pure = true;
    for (size_t j = 0; j < k; ++j) for (auto &c : A(b, i, j).GetCoefReprList()) if (!(c == kIdCoefRepr)) pure = false;
    cmb.push_back(r.chance(1, 4) ? kNullCoefRepr : (pure ? RandCoef(r, nco) : kIdCoefRepr));
  }
  { std::ostringstream o; for (auto &c : cmb) o << S(c); NOTE("combination with " << o.str()); }
  auto res = row ? CalcSparOpReprMatRowLinCmb(m, cmb) : CalcSparOpReprMatColLinCmb(m, cmb);
  REQUIRE_P(res.size() == k, "length of the combination " << res.size());
  for (size_t j = 0; j < k; ++j) {
    Sum w;
    for (size_t i = 0; i < len; ++i) w = Plus(w, Times(Val(cmb[i], v), Val(A(b, i, j), v)));
    REQUIRE_P(Val(res[j], v) == w, "position " << j << " of the combination is " << S(res[j]));
  }
  Same(Read(m), b, "matrix after a combination");
  // expansion of a line in the ones before it
  size_t i = r.below(n);
  auto cc = row ? m.CalcRowLinCmb(i) : m.CalcColLinCmb(i);
  { std::ostringstream o; for (auto &c : cc) o << S(c); NOTE("line " << i << " expands with " << o.str()); }
  REQUIRE_P(cc.size() == i, "number of expansion coefficients " << cc.size());
  for (size_t x = 0; x < i; ++x) {
    if (cc[x] == kNullCoefRepr) continue;
    for (size_t j = 0; j < k; ++j) if (A(b, x, j) != kNullOpRepr)
      REQUIRE_P(Times(Val(cc[x], v), Val(A(b, x, j), v)) == Val(A(b, i, j), v), "coefficient " << S(cc[x]) << " of line " << x << " does not reproduce line " << i << " at " << j);
  }
  Same(Read(m), b, "matrix after an expansion");
}

// matrix product as sums of strings of two operators
static std::vector<Sum> Prod(const Mat &a, const Mat &b, const Nums &v) {
  std::vector<Sum> w(a.rows * b.cols);
  std::vector<Sum> va, vb;
  for (auto &x : a.e) va.push_back(Val(x, v));
  for (auto &x : b.e) vb.push_back(Val(x, v));
  for (size_t i = 0; i < a.rows; ++i) for (size_t k = 0; k < a.cols; ++k) if (!va[i * a.cols + k].empty()) for (size_t j = 0; j < b.cols; ++j)
    if (!vb[k * b.cols + j].empty()) w[i * b.cols + j] = Plus(w[i * b.cols + j], Tensor(va[i * a.cols + k], vb[k * b.cols + j]));
  return w;
}
static void MulMode(Rng &r) {
  Shape s = RandShape(r, 12), t = RandShape(r, 12);
  bool left = r.chance(1, 2);    // coefficient matrix on the left
  long nops = r.range(1, 4), nco = r.range(1, 4);
  t.rows = s.cols;
  // operators carry identity coefficients, or the coefficient matrix holds the identity only
  bool idc = r.chance(1, 4);
  Shape so = left ? t : s, sc = left ? s : t;
  std::vector<OpRepr> e;
  for (size_t i = 0; i < so.rows * so.cols; ++i) e.push_back(!r.chance(so.fill, 10) ? kNullOpRepr : (idc ? MixedOp(r, nops, nco) : RandOp(r, nops, kIdCoefRepr)));
  auto m = Build(r, so.rows, so.cols, e, "operators");
  SparCoefReprMat c(sc.rows, sc.cols);
  std::vector<CoefRepr> ce;
  for (size_t i = 0; i < sc.rows * sc.cols; ++i) {
    ce.push_back(!r.chance(sc.fill, 10) ? kNullCoefRepr : (idc ? kIdCoefRepr : RandCoef(r, nco)));
    if (!(ce[i] == kNullCoefRepr)) { c.SetElem(i / sc.cols, i % sc.cols, ce[i]); NOTE("coefficient (" << i / sc.cols << "," << i % sc.cols << ") = " << S(ce[i])); }
  }
  auto p = left ? SparCoefReprMatSparOpReprMatIncompleteMulti(c, m) : SparOpReprMatSparCoefReprMatIncompleteMulti(m, c);
  REQUIRE_P(p.rows == s.rows && p.cols == t.cols, "shape of the product " << p.rows << "x" << p.cols);
  Nums v = RandNums(r);
  Mat a = Read(m), g = Read(p);
  for (size_t i = 0; i < s.rows; ++i) for (size_t j = 0; j < t.cols; ++j) {
    Sum w;
    for (size_t k = 0; k < s.cols; ++k) w = Plus(w, left ? Times(Val(ce[i * s.cols + k], v), Val(a.at(k, j), v)) : Times(Val(ce[k * t.cols + j], v), Val(a.at(i, k), v)));
    REQUIRE_P(Val(g.at(i, j), v) == w, "element (" << i << "," << j << ") of the product is " << S(g.at(i, j)));
  }
}
template<bool kDelin> void ProductMode(Rng &r) {
  bool row = r.chance(1, 2);     // row: follower * target; column: target * follower
  Shape s = RandShape(r, 10), t = RandShape(r, 10);
  long nops = r.range(1, 3), nco = r.range(1, 4);
  (row ? t.cols : t.rows) = row ? s.rows : s.cols;
  size_t n = row ? s.rows : s.cols, k = row ? s.cols : s.rows;
  std::vector<OpRepr> e(s.rows * s.cols, kNullOpRepr), f;
  auto at = [&](size_t i, size_t j) -> OpRepr & { return row ? e[i * s.cols + j] : e[j * s.cols + i]; };
  // per bond channel: either the target's line or the follower's line carries no coefficients
  std::vector<bool> plain(n);
  int style = (int) r.below(4);
  bool few = r.chance(1, 3);     // mostly dependent lines
  for (size_t i = 0; i < n; ++i) plain[i] = style == 0 || (style == 1 && r.chance(1, 2)) || (style == 2 && r.chance(1, 5));
  auto scaled = [&](const OpRepr &o, const CoefRepr &c) { auto l = o.GetOpLabelList(); return o == kNullOpRepr ? o : OpRepr(std::vector<CoefRepr>(l.size(), c), l); };
  for (size_t i = 0; i < n; ++i) {
    CoefRepr c = plain[i] || r.chance(1, 4) ? kIdCoefRepr : RandCoef(r, nco);
    bool mixed = !plain[i] && r.chance(1, 6);
    for (size_t j = 0; j < k; ++j) if (r.chance(s.fill, 10)) at(i, j) = mixed ? MixedOp(r, nops, nco) : RandOp(r, nops, c);
    if (i && r.chance(few ? 4 : 1, few ? 5 : 3)) { size_t x = r.below(few ? std::min<size_t>(i, 2) : i); for (size_t j = 0; j < k; ++j) at(i, j) = scaled(at(x, j), c); }
    if (i > 1 && r.chance(1, 4)) {   // the sum of two lines before it
      size_t x = r.below(i), y = r.below(i);
      for (size_t j = 0; j < k; ++j) { OpRepr o = at(x, j); if (o == kNullOpRepr) o = at(y, j); at(i, j) = scaled(o, c); }
    }
    if (r.chance(1, 12)) for (size_t j = 0; j < k; ++j) at(i, j) = kNullOpRepr;
  }
  for (size_t i = 0; i < t.rows * t.cols; ++i) f.push_back(!r.chance(t.fill, 10) ? kNullOpRepr : (plain[row ? i % t.cols : i / t.cols] ? MixedOp(r, nops, nco) : RandOp(r, nops, kIdCoefRepr)));
  auto a = Build(r, s.rows, s.cols, e, "target");
  auto b = Build(r, t.rows, t.cols, f, "follower");
  Nums v = RandNums(r);
  auto P = [&]() { return row ? Prod(Read(b), Read(a), v) : Prod(Read(a), Read(b), v); };
  auto before = P();
  if (kDelin) { if (row) SparOpReprMatRowDelinearize(a, b); else SparOpReprMatColDelinearize(a, b); }
  else { if (row) SparOpReprMatRowCompresser(a, b); else SparOpReprMatColCompresser(a, b); }
  NOTE((row ? "row " : "col ") << (kDelin ? "delinearize" : "compress"));
  REQUIRE_P(row ? a.cols == s.cols && b.rows == t.rows : a.rows == s.rows && b.cols == t.cols, "outer dimensions changed: target " << a.rows << "x" << a.cols << " follower " << b.rows << "x" << b.cols);
  size_t nt = row ? a.rows : a.cols, nf = row ? b.cols : b.rows;
  REQUIRE_P(nt == nf, "bond dimensions differ: " << nt << " and " << nf);
  REQUIRE_P(nt <= n, "bond dimension grew from " << n << " to " << nt);
  auto after = P();
  for (size_t i = 0; i < before.size(); ++i) {
    ++fz::Checks();
    if (before[i] != after[i]) { NOTE("target now " << S(Read(a))); NOTE("follower now " << S(Read(b))); fz::Fail("entry " + std::to_string(i) + " of the product changed"); }
  }
}
int main(int argc, char **argv) {
  return fz::Main(argc, argv, {{"sort", SortMode}, {"lines", LineMode}, {"mul", MulMode}, {"delin", ProductMode<true>}, {"compress", ProductMode<false>}});
}
