// A small dense tensor library with the interface the MPO generator uses: it replaces the tensor library in the
// falsifier, the code under test is the one in /repo.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <map>
#include <numeric>
#include <stdexcept>
#include <string>
#include <vector>
namespace qlten {
const std::string kQLTenFileSuffix = "qlten";
struct IndentPrinter { IndentPrinter(size_t) {} };
inline std::ostream &operator<<(std::ostream &o, const IndentPrinter &) { return o; }
class Timer { public: Timer() {} Timer(const std::string &) {} double PrintElapsed(int = 5) { return 0; } double Elapsed() { return 0; } void Restart() {} void Suspend() {} };
using QLTEN_Double = double;
using QLTEN_Complex = std::complex<double>;
using ShapeT = std::vector<size_t>;
using CoorsT = std::vector<size_t>;
const double kDoubleEpsilon = 1.0E-15;
enum TenIndexDirType { IN = -1, NDIR = 0, OUT = 1 };
template<typename QNT> class QNSector {
 public:
  QNSector() : n_(0) {}
  QNSector(const QNT &q, const size_t n) : q_(q), n_(n) {}
  QNT GetQn() const { return q_; }
  size_t GetDegeneracy() const { return n_; }
  size_t dim() const { return n_; }
  bool operator==(const QNSector &o) const { return q_ == o.q_ && n_ == o.n_; }
  bool operator!=(const QNSector &o) const { return !(*this == o); }
 private:
  QNT q_;
  size_t n_;
};
template<typename QNT> class Index {
 public:
  Index() : d_(NDIR) {}
  Index(const std::vector<QNSector<QNT>> &s, const TenIndexDirType d) : s_(s), d_(d) {}
  TenIndexDirType GetDir() const { return d_; }
  size_t dim() const { size_t n = 0; for (auto &x : s_) n += x.dim(); return n; }
  size_t GetQNSctNum() const { return s_.size(); }
  const QNSector<QNT> &GetQNSct(const size_t i) const { return s_.at(i); }
  const QNSector<QNT> &GetQNSctFromActualCoor(size_t k) const { for (auto &x : s_) { if (k < x.dim()) return x; k -= x.dim(); } throw std::out_of_range("actual coordinate of an index"); }
  bool operator==(const Index &o) const { return s_ == o.s_ && d_ == o.d_; }
  bool operator!=(const Index &o) const { return !(*this == o); }
  const std::vector<QNSector<QNT>> &Scts() const { return s_; }
 private:
  std::vector<QNSector<QNT>> s_;
  TenIndexDirType d_;
};
template<typename QNT> using IndexVec = std::vector<Index<QNT>>;
template<typename QNT> using QNSectorVec = std::vector<QNSector<QNT>>;
template<typename QNT> Index<QNT> InverseIndex(const Index<QNT> &i) { return Index<QNT>(i.Scts(), i.GetDir() == IN ? OUT : i.GetDir() == OUT ? IN : NDIR); }
inline double Real(double x) { return x; }
inline double Real(const std::complex<double> &x) { return x.real(); }
inline double abs(double x) { return std::fabs(x); }
inline double abs(const std::complex<double> &x) { return std::abs(x); }
template<typename ElemT, typename QNT> class QLTensor {
 public:
  QLTensor() : def_(true) {}
  QLTensor(const IndexVec<QNT> &ix) : ix_(ix), def_(false) { Make(); }
  QLTensor(const std::initializer_list<Index<QNT>> &ix) : ix_(ix), def_(false) { Make(); }
  template<typename... A> ElemT &operator()(const size_t a, const A &... as) { return At({a, (size_t) as...}); }
  ElemT &operator()(const std::vector<size_t> &c) { return At(c); }
  ElemT GetElem(const std::vector<size_t> &c) const { return const_cast<QLTensor *>(this)->At(c); }
  void SetElem(const std::vector<size_t> &c, const ElemT v) { At(c) = v; }
  ElemT GetFirstNonZeroElement() const { for (auto &x : data_) if (abs(x) > kDoubleEpsilon) return x; return ElemT(0); }
  const IndexVec<QNT> &GetIndexes() const { return ix_; }
  const Index<QNT> &GetIndex(const size_t i) const { return ix_.at(i); }
  const ShapeT &GetShape() const { return shape_; }
  size_t Rank() const { return ix_.size(); }
  bool operator==(const QLTensor &o) const { return def_ == o.def_ && ix_ == o.ix_ && data_ == o.data_; }
  bool operator!=(const QLTensor &o) const { return !(*this == o); }
  QLTensor operator-() const { QLTensor r(*this); for (auto &x : r.data_) x = -x; return r; }
  QLTensor operator+(const QLTensor &o) const { QLTensor r(*this); r += o; return r; }
  QLTensor &operator+=(const QLTensor &o) {
    if (def_ || o.def_ || ix_ != o.ix_) throw std::invalid_argument("sum of tensors with different indexes");
    for (size_t i = 0; i < data_.size(); ++i) data_[i] += o.data_[i];
    return *this;
  }
  QLTensor operator*(const ElemT x) const { QLTensor r(*this); r *= x; return r; }
  QLTensor &operator*=(const ElemT x) { for (auto &e : data_) e *= x; return *this; }
  void Transpose(const std::vector<size_t> &);
  double Normalize();
  double Get2Norm() const;
  void Dag();
  bool IsDefault() const { return def_; }
  void Random(const QNT &);
 private:
  void Make() { size_t n = 1; for (auto &i : ix_) { shape_.push_back(i.dim()); n *= i.dim(); } data_.assign(n, ElemT(0)); }
  ElemT &At(const std::vector<size_t> &c) {
    if (c.size() != shape_.size()) throw std::out_of_range("rank of coordinates");
    size_t k = 0;
    for (size_t i = 0; i < c.size(); ++i) { if (c[i] >= shape_[i]) throw std::out_of_range("coordinate of a tensor"); k = k * shape_[i] + c[i]; }
    return data_[k];
  }
  IndexVec<QNT> ix_;
  ShapeT shape_;
  std::vector<ElemT> data_;
  bool def_;
};
template<typename ElemT, typename QNT> QLTensor<ElemT, QNT> operator*(const ElemT &x, const QLTensor<ElemT, QNT> &t) { return t * x; }
// divergence of an operator {in, out}: flux of its first nonzero element
template<typename ElemT, typename QNT> QNT Div(const QLTensor<ElemT, QNT> &t) {
  std::vector<size_t> c(t.Rank(), 0);
  while (true) {
    if (abs(t.GetElem(c)) > kDoubleEpsilon) {
      QNT q = t.GetIndex(0).GetQNSctFromActualCoor(c[0]).GetQn();
      q = q - q;
      for (size_t i = 0; i < t.Rank(); ++i) { QNT x = t.GetIndex(i).GetQNSctFromActualCoor(c[i]).GetQn(); q = t.GetIndex(i).GetDir() == OUT ? q + x : q - x; }
      return q;
    }
    size_t k = t.Rank();
    while (k > 0) { if (++c[k - 1] < t.GetShape()[k - 1]) break; c[k - 1] = 0; --k; }
    if (k == 0) return QNT();
  }
}
template<typename ElemT, typename QNT> QLTensor<ElemT, QNT> Dag(const QLTensor<ElemT, QNT> &);
inline double Conj(double x) { return x; }
inline std::complex<double> Conj(const std::complex<double> &x) { return std::conj(x); }
// all coordinates of a shape in row order
inline std::vector<std::vector<size_t>> AllCoors(const ShapeT &sh) {
  std::vector<std::vector<size_t>> out(1);
  for (size_t d : sh) { std::vector<std::vector<size_t>> n; for (auto &c : out) for (size_t k = 0; k < d; ++k) { n.push_back(c); n.back().push_back(k); } out.swap(n); }
  return out;
}
template<typename ElemT, typename QNT> void QLTensor<ElemT, QNT>::Transpose(const std::vector<size_t> &ax) {
  if (def_ || ax.size() != ix_.size()) throw std::invalid_argument("transposing a tensor of another rank");
  IndexVec<QNT> ix;
  for (size_t a : ax) ix.push_back(ix_.at(a));
  QLTensor r(ix);
  for (auto &c : AllCoors(shape_)) { std::vector<size_t> d; for (size_t a : ax) d.push_back(c[a]); r.At(d) = At(c); }
  *this = r;
}
template<typename ElemT, typename QNT> double QLTensor<ElemT, QNT>::Get2Norm() const { double s = 0; for (auto &x : data_) s += abs(x) * abs(x); return std::sqrt(s); }
template<typename ElemT, typename QNT> double QLTensor<ElemT, QNT>::Normalize() { double n = Get2Norm(); for (auto &x : data_) x /= n; return n; }
// output must not be one of the inputs, as in the tensor library
template<typename A, typename B, typename C, typename QNT>
void Contract(const QLTensor<A, QNT> *a, const QLTensor<B, QNT> *b, const std::vector<std::vector<size_t>> &axes, QLTensor<C, QNT> *c) {
  if (a->IsDefault() || b->IsDefault() || axes.size() != 2 || axes[0].size() != axes[1].size()) throw std::invalid_argument("contraction");
  IndexVec<QNT> ix;
  std::vector<size_t> fa, fb;
  auto in = [](const std::vector<size_t> &v, size_t k) { return std::find(v.begin(), v.end(), k) != v.end(); };
  for (size_t k = 0; k < a->Rank(); ++k) if (!in(axes[0], k)) { ix.push_back(a->GetIndex(k)); fa.push_back(k); }
  for (size_t k = 0; k < b->Rank(); ++k) if (!in(axes[1], k)) { ix.push_back(b->GetIndex(k)); fb.push_back(k); }
  ShapeT inner;
  for (size_t k = 0; k < axes[0].size(); ++k) {
    if (a->GetIndex(axes[0][k]).dim() != b->GetIndex(axes[1][k]).dim()) throw std::invalid_argument("contraction of legs of different dimensions");
    inner.push_back(a->GetIndex(axes[0][k]).dim());
  }
  QLTensor<C, QNT> r(ix);
  auto sums = AllCoors(inner);
  for (auto &o : AllCoors(r.GetShape())) {
    C v(0);
    std::vector<size_t> ca(a->Rank()), cb(b->Rank());
    for (size_t k = 0; k < fa.size(); ++k) ca[fa[k]] = o[k];
    for (size_t k = 0; k < fb.size(); ++k) cb[fb[k]] = o[fa.size() + k];
    for (auto &s : sums) {
      for (size_t k = 0; k < s.size(); ++k) { ca[axes[0][k]] = s[k]; cb[axes[1][k]] = s[k]; }
      v += a->GetElem(ca) * b->GetElem(cb);
    }
    r.SetElem(o, v);
  }
  *c = r;
}
// the matrix of a tensor whose first ldims legs are the row
template<typename ElemT, typename QNT>
std::vector<std::vector<ElemT>> MatrixOf(const QLTensor<ElemT, QNT> *t, size_t ldims, IndexVec<QNT> &l, IndexVec<QNT> &r) {
  if (t->IsDefault() || ldims == 0 || ldims >= t->Rank()) throw std::invalid_argument("decomposition");
  size_t m = 1, n = 1;
  for (size_t k = 0; k < t->Rank(); ++k) { (k < ldims ? l : r).push_back(t->GetIndex(k)); (k < ldims ? m : n) *= t->GetIndex(k).dim(); }
  std::vector<std::vector<ElemT>> M(m, std::vector<ElemT>(n));
  size_t k = 0;
  for (auto &c : AllCoors(t->GetShape())) { M[k / n][k % n] = t->GetElem(c); ++k; }
  return M;
}
template<typename ElemT, typename QNT>
void FillTensor(QLTensor<ElemT, QNT> *t, const IndexVec<QNT> &ix, const std::vector<std::vector<ElemT>> &M) {
  *t = QLTensor<ElemT, QNT>(ix);
  size_t n = M.empty() ? 1 : M[0].size(), k = 0;
  for (auto &c : AllCoors(t->GetShape())) { t->SetElem(c, M[k / n][k % n]); ++k; }
}
// orthonormal columns Q (m by d, d <= min(m, n)) with M = Q R
template<typename ElemT>
void GramSchmidt(const std::vector<std::vector<ElemT>> &M, std::vector<std::vector<ElemT>> &Q, std::vector<std::vector<ElemT>> &R) {
  size_t m = M.size(), n = M[0].size();
  std::vector<std::vector<ElemT>> cols;
  double scale = 0;
  for (auto &row : M) for (auto &x : row) scale = std::max(scale, abs(x));
  auto ortho = [&](std::vector<ElemT> v) {
    for (int twice = 0; twice < 2; ++twice) for (auto &q : cols) { ElemT d(0); for (size_t i = 0; i < m; ++i) d += Conj(q[i]) * v[i]; for (size_t i = 0; i < m; ++i) v[i] -= d * q[i]; }
    return v;
  };
  auto norm = [&](const std::vector<ElemT> &v) { double s = 0; for (auto &x : v) s += abs(x) * abs(x); return std::sqrt(s); };
  for (size_t j = 0; j < n && cols.size() < m; ++j) {
    std::vector<ElemT> v(m);
    for (size_t i = 0; i < m; ++i) v[i] = M[i][j];
    v = ortho(v);
    double s = norm(v);
    if (s > 1e-12 * scale) { for (auto &x : v) x /= s; cols.push_back(v); }
  }
  if (cols.empty()) { std::vector<ElemT> v(m, ElemT(0)); v[0] = 1; cols.push_back(v); }
  size_t d = cols.size();
  Q.assign(m, std::vector<ElemT>(d));
  R.assign(d, std::vector<ElemT>(n));
  for (size_t i = 0; i < m; ++i) for (size_t k = 0; k < d; ++k) Q[i][k] = cols[k][i];
  for (size_t k = 0; k < d; ++k) for (size_t j = 0; j < n; ++j) { ElemT x(0); for (size_t i = 0; i < m; ++i) x += Conj(cols[k][i]) * M[i][j]; R[k][j] = x; }
}
template<typename QNT> Index<QNT> BondIndex(size_t d, TenIndexDirType dir) { return Index<QNT>({QNSector<QNT>(QNT(), d)}, dir); }
template<typename ElemT, typename QNT>
void QR(const QLTensor<ElemT, QNT> *t, const size_t ldims, const QNT &, QLTensor<ElemT, QNT> *q, QLTensor<ElemT, QNT> *r) {
  IndexVec<QNT> l, rr;
  auto M = MatrixOf(t, ldims, l, rr);
  std::vector<std::vector<ElemT>> Q, R;
  GramSchmidt(M, Q, R);
  l.push_back(BondIndex<QNT>(R.size(), OUT));
  rr.insert(rr.begin(), BondIndex<QNT>(R.size(), IN));
  FillTensor(q, l, Q);
  FillTensor(r, rr, R);
}
// M = U S V with one-sided Jacobi rotations of the factor R of M = Q R; keeps at most Dmax values
template<typename ElemT, typename QNT>
void SVD(const QLTensor<ElemT, QNT> *t, const size_t ldims, const QNT &, const double, const size_t, const size_t Dmax, QLTensor<ElemT, QNT> *u, QLTensor<QLTEN_Double, QNT> *s, QLTensor<ElemT, QNT> *vt, double *err, size_t *dim) {
  IndexVec<QNT> l, rr;
  auto M = MatrixOf(t, ldims, l, rr);
  std::vector<std::vector<ElemT>> Q, R;
  GramSchmidt(M, Q, R);
  size_t d = R.size(), n = R[0].size();
  // rotate rows of R pairwise until orthogonal: W R = S V, so M = (Q W^dagger) S V
  for (int sweep = 0; sweep < 100; ++sweep) {
    double off = 0;
    for (size_t p = 0; p < d; ++p) for (size_t q = p + 1; q < d; ++q) {
      double a = 0, b = 0;
      ElemT g(0);
      for (size_t j = 0; j < n; ++j) { a += abs(R[p][j]) * abs(R[p][j]); b += abs(R[q][j]) * abs(R[q][j]); g += R[p][j] * Conj(R[q][j]); }
      double ag = abs(g);
      if (ag <= 1e-15 * std::sqrt(a * b) || ag == 0) continue;
      off = std::max(off, ag / std::sqrt(a * b));
      ElemT ph = g / ag;
      double z = (b - a) / (2 * ag), tt = (z >= 0 ? 1.0 : -1.0) / (std::fabs(z) + std::sqrt(1 + z * z)), c = 1 / std::sqrt(1 + tt * tt), sn = c * tt;
      for (size_t j = 0; j < n; ++j) { ElemT x = R[p][j], y = ph * R[q][j]; R[p][j] = c * x - sn * y; R[q][j] = sn * x + c * y; }
      for (auto &row : Q) { ElemT x = row[p], y = Conj(ph) * row[q]; row[p] = c * x - sn * y; row[q] = sn * x + c * y; }
    }
    if (off < 1e-14) break;
  }
  std::vector<double> sv(d);
  std::vector<size_t> ord(d);
  for (size_t k = 0; k < d; ++k) { ord[k] = k; double x = 0; for (auto &e : R[k]) x += abs(e) * abs(e); sv[k] = std::sqrt(x); }
  std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return sv[a] > sv[b]; });
  size_t keep = std::max<size_t>(1, std::min(d, Dmax));
  std::vector<std::vector<ElemT>> U(Q.size(), std::vector<ElemT>(keep)), V(keep, std::vector<ElemT>(n));
  std::vector<std::vector<double>> S(keep, std::vector<double>(keep, 0.0));
  double cut = 0, all = 0;
  for (size_t k = 0; k < d; ++k) { all += sv[k] * sv[k]; if (k >= keep) cut += sv[ord[k]] * sv[ord[k]]; }
  for (size_t k = 0; k < keep; ++k) {
    size_t o = ord[k];
    S[k][k] = sv[o];
    for (size_t i = 0; i < Q.size(); ++i) U[i][k] = Q[i][o];
    for (size_t j = 0; j < n; ++j) V[k][j] = sv[o] > 0 ? R[o][j] / sv[o] : ElemT(j == k);
  }
  l.push_back(BondIndex<QNT>(keep, OUT));
  rr.insert(rr.begin(), BondIndex<QNT>(keep, IN));
  FillTensor(u, l, U);
  FillTensor(vt, rr, V);
  IndexVec<QNT> si{BondIndex<QNT>(keep, IN), BondIndex<QNT>(keep, OUT)};
  FillTensor(s, si, S);
  *err = all > 0 ? cut / all : 0;
  *dim = keep;
}
template<typename ElemT, typename QNT>
void Expand(const QLTensor<ElemT, QNT> *, const QLTensor<ElemT, QNT> *, const std::vector<size_t> &, QLTensor<ElemT, QNT> *);
template<typename ElemT, typename QNT>
void LinearCombine(const std::vector<ElemT> &, const std::vector<QLTensor<ElemT, QNT> *> &, const ElemT, QLTensor<ElemT, QNT> *);
// files: rank, legs and elements; quantum numbers are written by QNT's own operators
template<typename ElemT, typename QNT> std::ostream &operator<<(std::ostream &o, const QLTensor<ElemT, QNT> &t) {
  o.precision(17);
  o << "T " << t.IsDefault() << ' ' << t.Rank() << '\n';
  for (auto &i : t.GetIndexes()) { o << (int) i.GetDir() << ' ' << i.GetQNSctNum(); for (auto &x : i.Scts()) o << ' ' << x.GetQn() << ' ' << x.dim(); o << '\n'; }
  if (!t.IsDefault()) for (auto &c : AllCoors(t.GetShape())) o << t.GetElem(c) << ' ';
  return o << ".";
}
template<typename ElemT, typename QNT> std::istream &operator>>(std::istream &f, QLTensor<ElemT, QNT> &t) {
  std::string w;
  bool def = false;
  size_t rank = 0;
  f >> w >> def >> rank;
  if (!f || w != "T" || rank > 20) { f.setstate(std::ios::failbit); return f; }
  IndexVec<QNT> ix;
  for (size_t k = 0; k < rank && f; ++k) {
    int dir = 0;
    size_t n = 0;
    f >> dir >> n;
    if (!f || dir < -1 || dir > 1) { f.setstate(std::ios::failbit); return f; }
    std::vector<QNSector<QNT>> v;
    for (size_t i = 0; i < n && f; ++i) { QNT q; size_t d = 0; f >> q >> d; v.push_back(QNSector<QNT>(q, d)); }
    ix.push_back(Index<QNT>(v, (TenIndexDirType) dir));
  }
  if (!f) return f;
  if (def) { t = QLTensor<ElemT, QNT>(); } else {
    t = QLTensor<ElemT, QNT>(ix);
    for (auto &c : AllCoors(t.GetShape())) { ElemT x; f >> x; t.SetElem(c, x); }
  }
  f >> w;
  if (!f || w != ".") f.setstate(std::ios::failbit);
  return f;
}
namespace hp_numeric {}
}
