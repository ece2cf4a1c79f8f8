#include "common.h"
#include <cassert>
#include <numeric>
#include "qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h"
using fz::Rng;
using Bag = std::multiset<long>;          // oracle: a coefficient is a multiset of labels
using Op = std::map<long, Bag>;           // oracle: an operator is label -> coefficient
// exact values: integers modulo a prime
struct Z {
  long v;
  Z(int x = 0) : v(((x % 1000003) + 1000003) % 1000003) {}
  Z &operator+=(const Z &r) { v = (v + r.v) % 1000003; return *this; }
  bool operator==(const Z &r) const { return v == r.v; }
};
struct T {   // "tensor": a vector over Z, default constructed = zero
  std::vector<Z> c;
  T() : c(3) {}
  T &operator+=(const T &r) { for (int i = 0; i < 3; ++i) c[i] += r.c[i]; return *this; }
  bool operator==(const T &r) const { return c == r.c; }
};
T operator*(const Z &a, const T &b) { T r; for (int i = 0; i < 3; ++i) r.c[i].v = a.v * b.c[i].v % 1000003; return r; }

std::string S(const std::vector<long> &v) { std::ostringstream o; o << "{"; for (auto x : v) o << x << " "; o << "}"; return o.str(); }
std::string S(const Bag &b) { return S(std::vector<long>(b.begin(), b.end())); }
std::string S(const Op &m) { std::ostringstream o; for (auto &kv : m) o << S(kv.second) << "*O" << kv.first << " + "; return o.str(); }
Bag BagOf(const CoefRepr &c) { auto v = c.GetCoefLabelList(); return Bag(v.begin(), v.end()); }
Op OpOf(const OpRepr &o) {
  auto l = o.GetOpLabelList();
  auto c = o.GetCoefReprList();
  REQUIRE_P(l.size() == c.size(), "label list and coefficient list differ in length");
  Op r;
  for (size_t i = 0; i < l.size(); ++i) {
    REQUIRE_P(!r.count(l[i]), "label " << l[i] << " listed twice");
    REQUIRE_P(i == 0 || l[i - 1] < l[i], "labels are not listed in order");
    r[l[i]] = BagOf(c[i]);
  }
  return r;
}
std::vector<long> Labels(Rng &r, long lo, long hi, size_t cap = 6) {
  size_t n = r.below(5) < 4 ? r.below(4) : fz::Size(r, 0, cap, 40);
  std::vector<long> v;
  for (size_t i = 0; i < n; ++i) v.push_back(r.chance(1, 5) && !v.empty() ? v[r.below(v.size())] : fz::Value(r, lo, r.chance(1, 4) ? hi : std::min(hi, lo + 3)));
  return v;
}
const long kCL = 64, kOL = 64;
CoefRepr MakeCoef(Rng &r) {
  auto v = Labels(r, 0, kCL - 1);
  switch (r.below(4)) {
    case 0: { CoefRepr c; for (long x : v) c += CoefRepr(x); return c; }
    case 1: { CoefRepr c; for (long x : v) c = c + CoefRepr(x); return c; }
    default: return CoefRepr(v);
  }
}
OpRepr MakeOp(Rng &r, bool idonly = false) {
  auto l = Labels(r, 0, kOL - 1);
  if (idonly) { std::set<long> s(l.begin(), l.end()); return OpRepr(std::vector<long>(s.begin(), s.end())); }
  std::vector<CoefRepr> cs;
  CoefRepr same = MakeCoef(r);
  bool uni = r.chance(1, 3);
  if (uni) { std::set<long> s(l.begin(), l.end()); l.assign(s.begin(), s.end()); }
  for (size_t i = 0; i < l.size(); ++i) {
    if (!uni) cs.push_back(MakeCoef(r));
    else {   // the same coefficient, written in another order
      auto v = same.GetCoefLabelList();
      for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[r.below(k)]);
      cs.push_back(CoefRepr(v));
    }
  }
  if (uni && l.size() > 1 && r.chance(1, 3)) { auto v = cs.back().GetCoefLabelList(); if (!v.empty()) { v[r.below(v.size())] = r.range(0, 5); cs.back() = CoefRepr(v); } }
  return OpRepr(cs, l);
}
Op Add(Op a, const Op &b) { for (auto &kv : b) a[kv.first].insert(kv.second.begin(), kv.second.end()); return a; }
std::vector<Z> Nums(Rng &r) { std::vector<Z> v; for (long i = 0; i < kCL; ++i) v.push_back(Z((int) r.range(-500, 500))); v[0] = Z(1); return v; }
std::vector<T> Tens(Rng &r) { std::vector<T> v(kOL); for (auto &t : v) for (auto &x : t.c) x = Z((int) r.range(-500, 500)); return v; }
Z Val(const Bag &b, const std::vector<Z> &n) { Z s(0); for (long x : b) s += n[x]; return s; }
T Val(const Op &o, const std::vector<Z> &n, const std::vector<T> &t) { T s; for (auto &kv : o) s += Val(kv.second, n) * t[kv.first]; return s; }

void Coef(Rng &r) {
  auto va = Labels(r, 0, kCL - 1), vb = Labels(r, 0, kCL - 1);
  if (r.chance(1, 3)) { vb = va; for (size_t k = vb.size(); k > 1; --k) std::swap(vb[k - 1], vb[r.below(k)]); if (!vb.empty() && r.chance(1, 2)) vb[r.below(vb.size())] = r.range(0, 4); }
  NOTE("a = " << S(va) << "  b = " << S(vb));
  CoefRepr a(va), b(vb), z;
  Bag A(va.begin(), va.end()), B(vb.begin(), vb.end());
  REQUIRE_P(BagOf(a) == A && BagOf(b) == B, "the labels of a coefficient are not those it was made of");
  REQUIRE_P(a.GetCoefLabelList() == va, "label list differs from the one given");
  REQUIRE_P(BagOf(z).empty(), "a default coefficient is not zero");
  long one = r.range(0, kCL - 1);
  REQUIRE_P(BagOf(CoefRepr(one)) == Bag{one}, "single-label coefficient");
  REQUIRE_P((a == b) == (A == B) && (b == a) == (A == B), "equality of two coefficients is not equality of the multisets of their labels");
  REQUIRE_P((a != b) == (A != B), "inequality");
  REQUIRE_P(a == a && !(a != a), "not equal to itself");
  Bag AB(A); AB.insert(B.begin(), B.end());
  CoefRepr s = a + b;
  REQUIRE_P(BagOf(s) == AB, "a+b is " << S(BagOf(s)));
  REQUIRE_P(BagOf(b + a) == AB && (s == b + a), "b+a differs from a+b");
  REQUIRE_P(BagOf(a) == A && BagOf(b) == B, "adding changed a summand");
  CoefRepr c(a);
  c += b;
  REQUIRE_P(BagOf(c) == AB, "a+=b gives " << S(BagOf(c)));
  REQUIRE_P(BagOf(a) == A && BagOf(b) == B, "+= changed another object");
  CoefRepr d(a);
  d += d;
  Bag AA(A); AA.insert(A.begin(), A.end());
  REQUIRE_P(BagOf(d) == AA, "a+=a gives " << S(BagOf(d)));
  REQUIRE_P(BagOf(a + a) == AA, "a+a");
  CoefRepr e;
  e = a;
  e = *&e;
  REQUIRE_P(BagOf(e) == A, "assignment");
  CoefRepr m(std::move(e));
  REQUIRE_P(BagOf(m) == A, "move construction");
  CoefRepr mm(b);
  mm = std::move(m);
  REQUIRE_P(BagOf(mm) == A, "move assignment");
  REQUIRE_P(BagOf(a + z) == A && BagOf(z + a) == A, "adding zero");
  auto n = Nums(r);
  REQUIRE_P(a.Realize(n) == Val(A, n) && s.Realize(n) == Val(AB, n), "value of a coefficient is not the sum of the values of its labels");
  REQUIRE_P(z.Realize(n) == Z(0), "value of zero");
}
void Ops(Rng &r) {
  OpRepr a = MakeOp(r), b = r.chance(1, 4) ? MakeOp(r, true) : MakeOp(r), z;
  Op A = OpOf(a), B = OpOf(b);
  NOTE("a = " << S(A) << "  b = " << S(B));
  REQUIRE_P(OpOf(z).empty(), "a default operator is not zero");
  // construction from lists: the same label may come several times
  auto l = Labels(r, 0, kOL - 1);
  std::vector<CoefRepr> cs;
  Op E;
  for (long x : l) { cs.push_back(MakeCoef(r)); Bag k = BagOf(cs.back()); E[x].insert(k.begin(), k.end()); }
  OpRepr e(cs, l);
  REQUIRE_P(OpOf(e) == E, "operator made of lists is " << S(OpOf(e)) << " expected " << S(E));
  long one = r.range(0, kOL - 1);
  REQUIRE_P(OpOf(OpRepr(one)) == (Op{{one, Bag{0}}}), "single-operator expression");
  CoefRepr k1 = MakeCoef(r);
  REQUIRE_P(OpOf(OpRepr(k1, one)) == (Op{{one, BagOf(k1)}}), "coefficient times operator");
  Op L;
  for (long x : l) L[x].insert(0);
  REQUIRE_P(OpOf(OpRepr(l)) == L, "sum of operators");
  REQUIRE_P((a == b) == (A == B) && (b == a) == (A == B) && (a != b) == (A != B), "equality of two operators is not equality of their terms");
  REQUIRE_P(a == a && !(a != a), "not equal to itself");
  // equality looks through the order of terms
  std::vector<long> la = a.GetOpLabelList();
  std::vector<CoefRepr> ca = a.GetCoefReprList();
  for (size_t i = la.size(); i > 1; --i) { size_t q = r.below(i); std::swap(la[i - 1], la[q]); std::swap(ca[i - 1], ca[q]); }
  for (auto &c : ca) { auto v = c.GetCoefLabelList(); for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); c = CoefRepr(v); }
  OpRepr sh(ca, la);
  REQUIRE_P(OpOf(sh) == A && sh == a && a == sh, "the same expression written in another order compares different");
  Op AB = Add(A, B);
  OpRepr s = a + b;
  REQUIRE_P(OpOf(s) == AB, "a+b is " << S(OpOf(s)) << " expected " << S(AB));
  REQUIRE_P(OpOf(b + a) == AB, "b+a is " << S(OpOf(b + a)));
  REQUIRE_P(OpOf(a) == A && OpOf(b) == B, "adding changed a summand");
  OpRepr c(a);
  c += b;
  REQUIRE_P(OpOf(c) == AB && OpOf(a) == A && OpOf(b) == B, "a+=b");
  OpRepr d(a);
  d += d;
  REQUIRE_P(OpOf(d) == Add(A, A), "a+=a is " << S(OpOf(d)));
  OpRepr f;
  f = a;
  f = *&f;
  REQUIRE_P(OpOf(f) == A, "assignment");
  REQUIRE_P(OpOf(a + z) == A && OpOf(z + a) == A, "adding zero");
  auto n = Nums(r);
  auto t = Tens(r);
  REQUIRE_P(a.Realize(n, t) == Val(A, n, t), "the tensor of an operator is not the linear combination of its terms");
  REQUIRE_P(s.Realize(n, t) == Val(AB, n, t), "the tensor of a sum is not the sum of the tensors");
  REQUIRE_P(z.Realize(n, t) == T(), "the zero operator's tensor");
}
void Sep(Rng &r) {
  OpRepr a = MakeOp(r, r.chance(1, 6));
  Op A = OpOf(a);
  NOTE("a = " << S(A));
  auto cb = SeparateCoefAndBase(a);
  Bag K = BagOf(cb.first);
  Op Bs = OpOf(cb.second);
  auto n = Nums(r);
  auto t = Tens(r);
  REQUIRE_P(Val(K, n) * Val(Bs, n, t) == Val(A, n, t), "coefficient " << S(K) << " times base " << S(Bs) << " is not the operator");
  bool idbase = true;
  for (auto &kv : Bs) if (kv.second != Bag{0}) idbase = false;
  REQUIRE_P(idbase || (K == Bag{0} && Bs == A), "base keeps coefficients although coefficient " << S(K) << " was split off: " << S(Bs));
  REQUIRE_P(BagOf(GetOpReprCoef(a)) == K, "coefficient alone differs from the one of the split");
  if (A.empty()) REQUIRE_P(K.empty() && Bs.empty(), "zero operator is not split into zero times zero");
  REQUIRE_P(OpOf(a) == A, "splitting changed the operator");
  CoefRepr k = r.chance(1, 5) ? kIdCoefRepr : MakeCoef(r);
  OpRepr b = BagOf(k) == Bag{0} ? MakeOp(r) : MakeOp(r, true);
  Op B = OpOf(b);
  NOTE("k = " << S(BagOf(k)) << "  b = " << S(B));
  OpRepr p = CoefReprOpReprIncompleteMulti(k, b);
  Op P = OpOf(p);
  REQUIRE_P(Val(P, n, t) == Val(BagOf(k), n) * Val(B, n, t), "k*b is " << S(P));
  for (auto &kv : P) REQUIRE_P(B.count(kv.first), "k*b has a term that b has not");
  REQUIRE_P(P.size() == B.size(), "k*b lost a term: " << S(P));
  REQUIRE_P(OpOf(b) == B, "multiplying changed the operand");
}
// what the printed form has to say: the sum of the symbols
std::string CoefText(const std::vector<long> &v) {
  auto sym = [](long x) { return x == 0 ? std::string("1") : std::string(1, (char) ('a' + x - 1)); };
  if (v.empty()) return "0";
  if (v.size() == 1) return sym(v[0]);
  std::string s = "(";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "+" : "") + sym(v[i]);
  return s + ")";
}
std::string OpText(const OpRepr &o) {
  auto l = o.GetOpLabelList();
  auto c = o.GetCoefReprList();
  if (l.empty()) return "0";
  std::string s;
  for (size_t i = 0; i < l.size(); ++i) {
    s += (i ? "+" : "") + CoefText(c[i].GetCoefLabelList());
    if (l[i] == 0) s += "Id";
    else if (l[i] <= 26) s += std::string(1, (char) ('A' + l[i] - 1));
    else s += std::string(1, (char) ('A' + (l[i] - 1) % 26)) + std::to_string((l[i] - 1) / 26);
  }
  return s;
}
void Text(Rng &r) {
  std::vector<long> v = Labels(r, 0, 26);
  for (auto &x : v) x %= 27;
  NOTE("coefficient " << S(v));
  REQUIRE_P(CoefRepr(v).ToString() == CoefText(v), "coefficient printed as " << CoefRepr(v).ToString());
  auto l = Labels(r, 0, 100);
  std::vector<CoefRepr> cs;
  for (size_t i = 0; i < l.size(); ++i) { auto w = Labels(r, 0, 26); for (auto &x : w) x %= 27; cs.push_back(CoefRepr(w)); }
  OpRepr o(cs, l);
  NOTE("operator " << S(OpOf(o)));
  REQUIRE_P(o.ToString() == OpText(o), "operator printed as " << o.ToString() << ", expected " << OpText(o));
}
int main(int argc, char **argv) { return fz::Main(argc, argv, {{"coef", Coef}, {"op", Ops}, {"sep", Sep}, {"text", Text}}); }
