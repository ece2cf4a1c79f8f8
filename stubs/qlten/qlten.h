// Declarations of the tensor library as the verified headers use them; no bodies: every function here is
// an assumed contract (contracts/qlten_*.py), the verified code is /repo's.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <map>
#include <numeric>
#include <string>
#include <vector>
#include "qlten/utility/timer.h"
namespace qlten {
const std::string kQLTenFileSuffix = "qlten";
struct IndentPrinter { IndentPrinter(size_t); };
inline std::ostream &operator<<(std::ostream &o, const IndentPrinter &) { return o; }
using QLTEN_Double = double;
using QLTEN_Complex = std::complex<double>;
using ShapeT = std::vector<size_t>;
using CoorsT = std::vector<size_t>;
const double kDoubleEpsilon = 1.0E-15;
enum TenIndexDirType { IN = -1, NDIR = 0, OUT = 1 };
template<typename QNT> class QNSector { public: QNSector(); QNSector(const QNT &, const size_t); QNT GetQn() const; size_t GetDegeneracy() const; size_t dim() const; };
template<typename QNT> class Index {
 public:
  Index();
  Index(const std::vector<QNSector<QNT>> &, const TenIndexDirType);
  TenIndexDirType GetDir() const;
  size_t dim() const;
  size_t GetQNSctNum() const;
  const QNSector<QNT> &GetQNSct(const size_t) const;
  const QNSector<QNT> &GetQNSctFromActualCoor(const size_t) const;
  bool operator==(const Index &) const;
  bool operator!=(const Index &) const;
};
template<typename QNT> using IndexVec = std::vector<Index<QNT>>;
template<typename QNT> using QNSectorVec = std::vector<QNSector<QNT>>;
template<typename QNT> Index<QNT> InverseIndex(const Index<QNT> &);
template<typename ElemT, typename QNT> class QLTensor {
 public:
  QLTensor();
  QLTensor(const IndexVec<QNT> &);
  QLTensor(const QLTensor &);
  QLTensor &operator=(const QLTensor &);
  ElemT &operator()(const std::vector<size_t> &);
  template<typename... A> ElemT &operator()(const size_t, const A &...);
  ElemT GetElem(const std::vector<size_t> &) const;
  void SetElem(const std::vector<size_t> &, const ElemT);
  ElemT GetFirstNonZeroElement() const;
  const IndexVec<QNT> &GetIndexes() const;
  const Index<QNT> &GetIndex(const size_t) const;
  const ShapeT &GetShape() const;
  size_t Rank() const;
  bool operator==(const QLTensor &) const;
  bool operator!=(const QLTensor &) const;
  QLTensor operator-() const;
  QLTensor operator+(const QLTensor &) const;
  QLTensor &operator+=(const QLTensor &);
  QLTensor operator*(const ElemT) const;
  QLTensor &operator*=(const ElemT);
  void Transpose(const std::vector<size_t> &);
  double Normalize();
  double Get2Norm() const;
  void Dag();
  bool IsDefault() const;
  void Random(const QNT &);
};
template<typename ElemT, typename QNT> QLTensor<ElemT, QNT> operator*(const ElemT &, const QLTensor<ElemT, QNT> &);
template<typename ElemT, typename QNT> QNT Div(const QLTensor<ElemT, QNT> &);
template<typename ElemT, typename QNT> QLTensor<ElemT, QNT> Dag(const QLTensor<ElemT, QNT> &);
template<typename A, typename B, typename C, typename QNT>
void Contract(const QLTensor<A, QNT> *, const QLTensor<B, QNT> *, const std::vector<std::vector<size_t>> &, QLTensor<C, QNT> *);
template<typename ElemT, typename QNT>
void QR(const QLTensor<ElemT, QNT> *, const size_t, const QNT &, QLTensor<ElemT, QNT> *, QLTensor<ElemT, QNT> *);
template<typename ElemT, typename QNT>
void SVD(const QLTensor<ElemT, QNT> *, const size_t, const QNT &, const double, const size_t, const size_t, QLTensor<ElemT, QNT> *, QLTensor<QLTEN_Double, QNT> *, QLTensor<ElemT, QNT> *, double *, size_t *);
template<typename ElemT, typename QNT>
void Expand(const QLTensor<ElemT, QNT> *, const QLTensor<ElemT, QNT> *, const std::vector<size_t> &, QLTensor<ElemT, QNT> *);
template<typename ElemT, typename QNT>
void LinearCombine(const std::vector<ElemT> &, const std::vector<QLTensor<ElemT, QNT> *> &, const ElemT, QLTensor<ElemT, QNT> *);
template<typename ElemT, typename QNT> std::ostream &operator<<(std::ostream &, const QLTensor<ElemT, QNT> &);
template<typename ElemT, typename QNT> std::istream &operator>>(std::istream &, QLTensor<ElemT, QNT> &);
template<typename T> double abs(const T &);
namespace hp_numeric {}
}
