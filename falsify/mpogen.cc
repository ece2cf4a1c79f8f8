// Hamiltonian terms through the MPO generator, on dense matrices (falsify/inc/qlten replaces the tensor library).
#include "common.h"
#include <cassert>
#include <complex>
#include <numeric>
#include <fstream>
#include "qlten/qlten.h"
struct QN {
  long n = 0;
  QN() {}
  explicit QN(long x) : n(x) {}
  QN operator+(const QN &o) const { return QN(n + o.n); }
  QN operator-(const QN &o) const { return QN(n - o.n); }
  QN operator-() const { return QN(-n); }
  QN &operator+=(const QN &o) { n += o.n; return *this; }
  bool operator==(const QN &o) const { return n == o.n; }
  bool operator!=(const QN &o) const { return n != o.n; }
  bool operator<(const QN &o) const { return n < o.n; }
  size_t Hash() const { return (size_t) n; }
};
#define private public
#define protected public
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
#undef private
#undef protected
using fz::Rng;
using namespace qlten;
using namespace qlmps;

template<typename T> T Num(Rng &r);
template<> double Num<double>(Rng &r) { const double v[] = {1, 1, 1, -1, -1, 2, -2, 0.5, -3, 1.5}; return v[r.below(10)]; }
template<> QLTEN_Complex Num<QLTEN_Complex>(Rng &r) { return r.chance(1, 2) ? QLTEN_Complex(Num<double>(r), 0) : QLTEN_Complex(r.range(-1, 1), r.chance(1, 2) ? 1 : -2); }

template<typename T> struct Sys {
  using Ten = QLTensor<T, QN>;
  using Gen = MPOGenerator<T, QN>;
  size_t N;
  IndexVec<QN> sites;
  bool charged;
  struct Term { T coef; std::vector<Ten> ops; std::vector<size_t> at; };
  std::vector<Term> terms;

  Sys(Rng &r, size_t maxn) : N(r.range(2, maxn)), charged(r.chance(1, 2)) {
    bool uniform = r.chance(2, 3);
    size_t d = r.range(2, 3);
    for (size_t i = 0; i < N; ++i) {
      if (!uniform) d = r.range(1, 3);
      std::vector<QNSector<QN>> s;
      if (charged) for (size_t k = 0; k < d; ++k) s.push_back(QNSector<QN>(QN((long) k), 1));
      else s.push_back(QNSector<QN>(QN(0), d));
      sites.push_back(Index<QN>(s, OUT));
    }
    NOTE("chain of " << N << " sites, " << (charged ? "charged" : "no charge") << ", dimension " << sites[0].dim());
  }
  size_t D(size_t s) const { return sites[s].dim(); }
  // a random nonzero operator moving the charge by q
  Ten Op(Rng &r, size_t s, long q) {
    Ten o(IndexVec<QN>{InverseIndex(sites[s]), sites[s]});
    bool some = false;
    for (size_t a = 0; a < D(s); ++a)
      for (size_t b = 0; b < D(s); ++b) {
        if (charged && (long) b - (long) a != q) continue;
        if (r.chance(2, 3)) { o(a, b) = Num<T>(r); some = some || o(a, b) != T(0); }
      }
    if (!some) for (size_t a = 0; a < D(s); ++a) { long b = charged ? (long) a + q : (long) a; if (b >= 0 && b < (long) D(s)) { o(a, (size_t) b) = T(1); break; } }
    return o;
  }
  bool Zero(const Ten &o, size_t s) const { for (size_t a = 0; a < D(s); ++a) for (size_t b = 0; b < D(s); ++b) if (o.GetElem({a, b}) != T(0)) return false; return true; }
  static std::string S(const Ten &o) {
    std::ostringstream x;
    x << "[";
    for (size_t a = 0; a < o.GetShape()[0]; ++a) { for (size_t b = 0; b < o.GetShape()[1]; ++b) x << o.GetElem({a, b}) << " "; x << (a + 1 < o.GetShape()[0] ? "; " : ""); }
    x << "]";
    return x.str();
  }
  // entry <b| term |a>
  T Entry(const Term &t, const std::vector<size_t> &a, const std::vector<size_t> &b) const {
    T v = t.coef;
    for (size_t s = 0; s < N; ++s) {
      auto it = std::find(t.at.begin(), t.at.end(), s);
      if (it == t.at.end()) { if (a[s] != b[s]) return T(0); }
      else v *= t.ops[it - t.at.begin()].GetElem({a[s], b[s]});
    }
    return v;
  }
  static bool Near(T x, T y) { return std::abs(x - y) <= 1e-9 * (1 + std::abs(x) + std::abs(y)); }
  // configurations to compare on: all of them for small systems, otherwise random ones aimed at nonzero entries of t
  template<typename F> void Configs(Rng &r, const Term *t, F f) {
    size_t n = 1;
    for (size_t s = 0; s < N && n <= 2000; ++s) n *= D(s) * D(s);
    std::vector<size_t> a(N), b(N);
    if (n <= 300) {
      for (size_t k = 0; k < n; ++k) { size_t x = k; for (size_t s = 0; s < N; ++s) { a[s] = x % D(s); x /= D(s); b[s] = x % D(s); x /= D(s); } f(a, b); }
      return;
    }
    for (int k = 0; k < 60; ++k) {
      for (size_t s = 0; s < N; ++s) {
        a[s] = r.below(D(s));
        b[s] = r.chance(5, 6) ? a[s] : r.below(D(s));
        if (t) {
          auto it = std::find(t->at.begin(), t->at.end(), s);
          if (it != t->at.end())
            for (int q = 0; q < 12; ++q) { a[s] = r.below(D(s)); b[s] = r.below(D(s)); if (t->ops[it - t->at.begin()].GetElem({a[s], b[s]}) != T(0)) break; }
        }
      }
      f(a, b);
    }
  }
  std::vector<size_t> Sites(Rng &r, size_t n, bool ascending) {
    std::vector<size_t> v(N);
    std::iota(v.begin(), v.end(), 0);
    for (size_t i = N; i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
    v.resize(n);
    if (ascending) std::sort(v.begin(), v.end());
    return v;
  }
  static std::string L(const std::vector<size_t> &v) { std::ostringstream o; for (auto x : v) o << x << " "; return o.str(); }
  // charges adding up to zero
  std::vector<long> Charges(Rng &r, size_t n) {
    std::vector<long> q(n, 0);
    if (charged) for (size_t i = 0; i + 1 < n; i += 2) if (r.chance(1, 2)) { q[i] = r.chance(1, 2) ? 1 : -1; q[i + 1] = -q[i]; }
    return q;
  }
  T Coef(Rng &r) { return r.chance(1, 8) ? T(0) : r.chance(1, 12) ? T(1e-16) : r.chance(1, 3) ? T(1) : Num<T>(r); }
  bool Dull(T c) { return std::abs(c) < 1e-15; }
  // one random call; the term it stands for is recorded unless the coefficient is negligible
  void Add(Rng &r, Gen &g) {
    Term t;
    t.coef = Coef(r);
    int kind = (int) r.below(7);
    bool bad = false;
    auto op = [&](size_t s, long q) { Ten o = terms.size() && r.chance(1, 4) ? Again(r, s, q) : Op(r, s, q); if (Zero(o, s)) bad = true; return o; };
    auto done = [&](const char *what, const std::function<void()> &call) {
      std::ostringstream o;
      o << what << " coef " << t.coef;
      for (size_t i = 0; i < t.ops.size(); ++i) o << " | " << S(t.ops[i]) << " on " << t.at[i];
      NOTE(o.str());
      call();
      if (!Dull(t.coef)) terms.push_back(t);
    };
    if (kind <= 2) {                      // any operators on any sites, any order
      size_t n = r.range(1, std::min<size_t>(N, 5));
      t.at = Sites(r, n, r.chance(1, 2));
      auto q = Charges(r, n);
      for (size_t i = 0; i < n; ++i) t.ops.push_back(op(t.at[i], q[i]));
      if (bad) return;
      done("AddTerm(ops)", [&] { g.AddTerm(t.coef, t.ops, t.at); });
    } else if (kind <= 4) {               // strings
      if (N < 2) return;
      size_t n = r.range(2, std::min<size_t>(N, 4));
      bool fill = r.chance(1, 2), tail = r.chance(1, 2);
      auto sites = Sites(r, N, false);
      std::vector<size_t> ph(sites.begin(), sites.begin() + n), rest(sites.begin() + n, sites.end());
      if (fill || r.chance(1, 2)) std::sort(ph.begin(), ph.end());
      if (r.chance(1, 2)) std::sort(rest.begin(), rest.end());
      bool same = true;
      for (size_t s = 1; s < N; ++s) same = same && sites[s] < N && D(s) == D(0);
      if (!same) return;
      auto q = Charges(r, n);
      std::vector<Ten> phys, inst;
      for (size_t i = 0; i < n; ++i) phys.push_back(op(ph[i], q[i]));
      for (size_t i = 0; i < n - (tail ? 0 : 1); ++i) inst.push_back(op(0, 0));
      if (bad) return;
      std::vector<std::vector<size_t>> at;
      size_t used = 0;
      for (size_t i = 0; i < n; ++i) {
        t.ops.push_back(phys[i]);
        t.at.push_back(ph[i]);
        if (i + 1 == n && !tail) break;
        std::vector<size_t> here;
        if (fill) { size_t e = i + 1 < n ? ph[i + 1] : N; for (size_t s = ph[i] + 1; s < e; ++s) here.push_back(s); }
        else while (used < rest.size() && r.chance(1, 2)) here.push_back(rest[used++]);
        for (auto s : here) { t.ops.push_back(inst[i]); t.at.push_back(s); }
        at.push_back(here);
      }
      if (fill) done(tail ? "AddTerm(filled strings, tail)" : "AddTerm(filled strings)", [&] { g.AddTerm(t.coef, phys, ph, inst); });
      else done(tail ? "AddTerm(listed strings, tail)" : "AddTerm(listed strings)", [&] { g.AddTerm(t.coef, phys, ph, inst, at); });
    } else if (kind == 5) {
      size_t s = r.below(N);
      t.ops = {op(s, 0)};
      t.at = {s};
      if (bad) return;
      done("AddTerm(one operator)", [&] { g.AddTerm(t.coef, t.ops[0], s); });
    } else {
      if (N < 2) return;
      auto st = Sites(r, 2, r.chance(1, 2));
      if (st[1] == 0) std::swap(st[0], st[1]);
      auto q = Charges(r, 2);
      Ten a = op(st[0], q[0]), b = op(st[1], q[1]);
      if (bad) return;
      int how = (int) r.below(3);
      for (size_t s = 1; s < N; ++s) if (D(s) != D(0)) how = 0;
      if (how == 1 && st[0] > st[1]) how = 0;
      if (how == 0) { t.ops = {a, b}; t.at = st; done("AddTerm(two operators)", [&] { g.AddTerm(t.coef, a, st[0], b, st[1]); }); return; }
      Ten i = op(0, 0);
      if (bad) return;
      t.ops = {a};
      t.at = {st[0]};
      if (how == 1) {
        for (size_t s = st[0] + 1; s < st[1]; ++s) { t.ops.push_back(i); t.at.push_back(s); }
        t.ops.push_back(b);
        t.at.push_back(st[1]);
        done("AddTerm(two operators, string between)", [&] { g.AddTerm(t.coef, a, st[0], b, st[1], i); });
      } else {
        std::vector<size_t> at;
        for (size_t s : Sites(r, N, r.chance(1, 2))) if (s != st[0] && s != st[1] && r.chance(1, 2)) at.push_back(s);
        if (at.empty()) return;
        for (size_t s : at) { t.ops.push_back(i); t.at.push_back(s); }
        t.ops.push_back(b);
        t.at.push_back(st[1]);
        done("AddTerm(two operators, listed string)", [&] { g.AddTerm(t.coef, a, st[0], b, st[1], i, at); });
      }
    }
  }
  Ten Again(Rng &r, size_t s, long q) {
    auto &t = terms[r.below(terms.size())];
    for (size_t i = 0; i < t.ops.size(); ++i) {
      Ten o = t.ops[i];
      if (o.GetIndex(1) == sites[s] && (!charged || Div(o).n == q || Div(o).n == -q)) { if (charged && Div(o).n != q) return Op(r, s, q); if (r.chance(1, 2)) o *= Num<T>(r); return o; }
    }
    return Op(r, s, q);
  }
};

template<typename T> void TermsOf(Rng &r) {
  Sys<T> y(r, r.chance(2, 3) ? 4 : 9);
  SiteVec<T, QN> sv(y.sites);
  typename Sys<T>::Gen g = r.chance(1, 2) ? typename Sys<T>::Gen(sv) : typename Sys<T>::Gen(sv, QN(0));
  size_t n = fz::Size(r, 0, 5, 30);
  for (size_t k = 0; k < n; ++k) {
    y.Add(r, g);
    if (k + 1 < n && !r.chance(1, 4)) continue;
    auto paths = g.GetFSM().GetFSMPaths();
    REQUIRE_P(paths.size() == y.terms.size(), paths.size() << " paths for " << y.terms.size() << " terms");
    auto coefs = g.coef_label_convertor_.GetLabelObjMapping();
    auto ops = g.op_label_convertor_.GetLabelObjMapping();
    for (size_t p = 0; p < paths.size(); ++p) {
      std::vector<std::vector<std::pair<T, typename Sys<T>::Ten>>> sum(y.N);
      for (size_t s = 0; s < y.N; ++s) {
        auto o = paths[p].Opr(s);
        auto cl = o.GetCoefReprList();
        auto ol = o.GetOpLabelList();
        REQUIRE_P(ol.size() >= 1, "term " << p << " has no operator on site " << s);
        for (size_t i = 0; i < ol.size(); ++i) {
          T c(0);
          for (auto l : cl[i].GetCoefLabelList()) { REQUIRE_P(l >= 0 && l < (long) coefs.size(), "coefficient label " << l); c += coefs[l]; }
          REQUIRE_P(ol[i] >= 0 && ol[i] < (long) ops.size(), "operator label " << ol[i]);
          sum[s].push_back({c, ops[ol[i]]});
          REQUIRE_P(ops[ol[i]].GetIndex(1) == y.sites[s], "term " << p << " has the operator of another local space on site " << s);
        }
      }
      y.Configs(r, &y.terms[p], [&](const std::vector<size_t> &a, const std::vector<size_t> &b) {
        T v(1);
        for (size_t s = 0; s < y.N; ++s) { T x(0); for (auto &co : sum[s]) x += co.first * co.second.GetElem({a[s], b[s]}); v *= x; }
        T w = y.Entry(y.terms[p], a, b);
        REQUIRE_P(y.Near(v, w), "term " << p << ": matrix element (" << y.L(a) << "|" << y.L(b) << ") is " << v << " instead of " << w);
      });
    }
  }
}
void Terms(Rng &r) { if (r.chance(1, 2)) TermsOf<double>(r); else TermsOf<QLTEN_Complex>(r); }

// the generated matrix product operator (or operator-valued matrices), multiplied out
template<typename T> void MpoOf(Rng &r, bool mat) {
  Sys<T> y(r, 5);
  if (y.N < 2) return;
  SiteVec<T, QN> sv(y.sites);
  typename Sys<T>::Gen g(sv);
  size_t n = fz::Size(r, 1, 6, 20);
  for (size_t k = 0; k < n; ++k) y.Add(r, g);
  if (y.terms.empty()) return;
  auto check = [&](const std::string &what, const std::function<T(const std::vector<size_t> &, const std::vector<size_t> &)> &get) {
    y.Configs(r, &y.terms[r.below(y.terms.size())], [&](const std::vector<size_t> &a, const std::vector<size_t> &b) {
      T w(0);
      for (auto &t : y.terms) w += y.Entry(t, a, b);
      T v = get(a, b);
      REQUIRE_P(y.Near(v, w), what << ": matrix element (" << y.L(a) << "|" << y.L(b) << ") is " << v << " instead of " << w);
    });
  };
  if (mat) {
    NOTE("GenMatReprMPO");
    auto m = g.GenMatReprMPO();
    REQUIRE_P(m.size() == y.N, "number of matrices");
    check("GenMatReprMPO", [&](const std::vector<size_t> &a, const std::vector<size_t> &b) {
      std::vector<T> v{T(1)};
      for (size_t s = 0; s < y.N; ++s) {
        REQUIRE_P(m[s].rows == v.size(), "rows of matrix " << s << " are " << m[s].rows << " for " << v.size());
        std::vector<T> w(m[s].cols, T(0));
        for (size_t x = 0; x < m[s].rows; ++x) for (size_t z = 0; z < m[s].cols; ++z) if (!m[s].IsNull(x, z)) w[z] += v[x] * m[s](x, z).GetElem({a[s], b[s]});
        v = w;
      }
      REQUIRE_P(v.size() == 1, "last matrix has one column");
      return v[0];
    });
    return;
  }
  bool comp = r.chance(1, 2);
  NOTE("Gen, " << (comp ? "compressed" : "not compressed"));
  auto mpo = g.Gen(comp);
  REQUIRE_P(mpo.size() == y.N, "number of tensors");
  for (size_t s = 0; s < y.N; ++s) {
    auto &t = mpo[s];
    REQUIRE_P(t.Rank() == 4, "rank");
    REQUIRE_P(t.GetIndex(1) == InverseIndex(y.sites[s]) && t.GetIndex(2) == y.sites[s], "physical indexes of tensor " << s);
    REQUIRE_P(t.GetIndex(0).GetDir() == IN && t.GetIndex(3).GetDir() == OUT, "bond directions of tensor " << s);
    if (s) REQUIRE_P(t.GetIndex(0) == InverseIndex(mpo[s - 1].GetIndex(3)), "bond between " << s - 1 << " and " << s);
    for (size_t x = 0; x < t.GetShape()[0]; ++x)
      for (size_t a = 0; a < t.GetShape()[1]; ++a)
        for (size_t b = 0; b < t.GetShape()[2]; ++b)
          for (size_t z = 0; z < t.GetShape()[3]; ++z)
            if (t.GetElem({x, a, b, z}) != T(0)) {
              long q = t.GetIndex(3).GetQNSctFromActualCoor(z).GetQn().n + t.GetIndex(2).GetQNSctFromActualCoor(b).GetQn().n - t.GetIndex(1).GetQNSctFromActualCoor(a).GetQn().n - t.GetIndex(0).GetQNSctFromActualCoor(x).GetQn().n;
              REQUIRE_P(q == 0, "element (" << x << "," << a << "," << b << "," << z << ") of tensor " << s << " carries charge " << q);
            }
  }
  check("Gen", [&](const std::vector<size_t> &a, const std::vector<size_t> &b) {
    std::vector<T> v{T(1)};
    for (size_t s = 0; s < y.N; ++s) {
      auto &t = mpo[s];
      REQUIRE_P(t.GetShape()[0] == v.size(), "left bond of tensor " << s);
      std::vector<T> w(t.GetShape()[3], T(0));
      for (size_t x = 0; x < t.GetShape()[0]; ++x) for (size_t z = 0; z < t.GetShape()[3]; ++z) w[z] += v[x] * t.GetElem({x, a[s], b[s], z});
      v = w;
    }
    REQUIRE_P(v.size() == 1, "last bond");
    return v[0];
  });
}
template<bool M> void Mpo(Rng &r) { if (r.chance(1, 2)) MpoOf<double>(r, M); else MpoOf<QLTEN_Complex>(r, M); }

int main(int argc, char **argv) { return fz::Main(argc, argv, {{"terms", Terms}, {"mpo", Mpo<false>}, {"matmpo", Mpo<true>}}); }
