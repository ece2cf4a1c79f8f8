// Oracle pieces for symbolic operator matrices: exact values of coefficients (integers mod a prime)
// and of matrix products as maps "operator string -> value".
#pragma once
#include "common.h"
#include <cassert>
#include <numeric>
#include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"
using fz::Rng;
const long kMod = 1000003;
const long kNC = 64;
using Nums = std::vector<long>;
using OpStr = std::vector<long>;
using Sum = std::map<OpStr, long>;
inline Nums RandNums(Rng &r) { Nums v; for (long i = 0; i < kNC; ++i) v.push_back(r.range(1, kMod - 1)); v[0] = 1; return v; }
inline long Val(const CoefRepr &c, const Nums &n) { long s = 0; for (long l : c.GetCoefLabelList()) s = (s + n[l]) % kMod; return s; }
inline void AddTo(Sum &a, const OpStr &k, long v) { long &x = a[k]; x = (x + v) % kMod; if (!x) a.erase(k); }
inline Sum Val(const OpRepr &o, const Nums &n) {
  Sum s;
  auto c = o.GetCoefReprList();
  auto l = o.GetOpLabelList();
  for (size_t i = 0; i < l.size(); ++i) AddTo(s, {l[i]}, Val(c[i], n));
  return s;
}
inline Sum Plus(Sum a, const Sum &b) { for (auto &kv : b) AddTo(a, kv.first, kv.second); return a; }
inline Sum Times(long v, const Sum &a) { Sum r; for (auto &kv : a) AddTo(r, kv.first, v * kv.second % kMod); return r; }
inline Sum Tensor(const Sum &a, const Sum &b) {
  Sum r;
  for (auto &x : a) for (auto &y : b) { OpStr s = x.first; s.insert(s.end(), y.first.begin(), y.first.end()); AddTo(r, s, x.second * y.second % kMod); }
  return r;
}
inline std::string S(const std::vector<long> &v) { std::ostringstream o; o << "{"; for (auto x : v) o << x << " "; o << "}"; return o.str(); }
inline std::string S(const std::vector<size_t> &v) { std::ostringstream o; o << "{"; for (auto x : v) o << x << " "; o << "}"; return o.str(); }
inline std::string S(const CoefRepr &c) { auto v = c.GetCoefLabelList(); std::ostringstream o; o << "("; for (auto x : v) o << x << " "; o << ")"; return o.str(); }
inline std::string S(const OpRepr &op) {
  auto c = op.GetCoefReprList();
  auto l = op.GetOpLabelList();
  std::ostringstream o;
  if (l.empty()) o << "0";
  for (size_t i = 0; i < l.size(); ++i) o << (i ? "+" : "") << S(c[i]) << "*O" << l[i];
  return o.str();
}
// a plain matrix read out of the real one
struct Mat {
  size_t rows = 0, cols = 0;
  std::vector<OpRepr> e;
  OpRepr &at(size_t i, size_t j) { return e[i * cols + j]; }
  const OpRepr &at(size_t i, size_t j) const { return e[i * cols + j]; }
};
inline Mat Read(const SparOpReprMat &m) {
  Mat r;
  r.rows = m.rows;
  r.cols = m.cols;
  for (size_t i = 0; i < m.rows; ++i) for (size_t j = 0; j < m.cols; ++j) r.e.push_back(m(i, j));
  return r;
}
inline std::string S(const Mat &m) {
  std::ostringstream o;
  o << m.rows << "x" << m.cols << " [";
  for (size_t i = 0; i < m.rows; ++i) { for (size_t j = 0; j < m.cols; ++j) o << " " << S(m.at(i, j)); o << " ;"; }
  o << "]";
  return o.str();
}
inline Sum Product(const std::vector<SparOpReprMat> &ms, const Nums &n, size_t row, size_t col) {
  std::vector<Sum> v;
  for (size_t k = 0; k < ms.size(); ++k) {
    std::vector<Sum> w(ms[k].cols);
    for (size_t c = 0; c < ms[k].cols; ++c) {
      if (k == 0) w[c] = Val(ms[k](row, c), n);
      else for (size_t r = 0; r < ms[k].rows && r < v.size(); ++r) w[c] = Plus(w[c], Tensor(v[r], Val(ms[k](r, c), n)));
    }
    v = w;
  }
  return col < v.size() ? v[col] : Sum();
}
