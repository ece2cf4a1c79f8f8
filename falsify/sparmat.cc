#include "common.h"
#include <cassert>
#include <iostream>
#include <numeric>
#include "qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h"
using fz::Rng;
// element with a default (null) value, a non-trivial copy and an equality that ignores `tag`
struct El {
  int v;
  std::string s;
  El(void) : v(0), s("null") {}
  explicit El(int x) : v(x), s(x ? "e" + std::to_string(x) : "null") {}
  bool operator==(const El &r) const { return v == r.v; }
  bool operator!=(const El &r) const { return !(*this == r); }
  bool Same(const El &r) const { return v == r.v && s == r.s; }
};
std::ostream &operator<<(std::ostream &o, const El &e) { return o << e.v; }
using M = SparMat<El>;
using D = std::vector<std::vector<El>>;

D Snap(const M &m) {
  D d(m.rows, std::vector<El>(m.cols));
  for (size_t x = 0; x < m.rows; ++x) for (size_t y = 0; y < m.cols; ++y) d[x][y] = m(x, y);
  return d;
}
std::string Str(const D &d) {
  std::ostringstream o;
  o << "[";
  for (auto &r : d) { o << "["; for (auto &e : r) o << e.v << " "; o << "]"; }
  o << "]";
  return o.str();
}
void Same(const M &m, const D &d, size_t rows, size_t cols, const char *what) {
  REQUIRE_P(m.rows == rows && m.cols == cols, what << ": dimensions are " << m.rows << "x" << m.cols << ", expected " << rows << "x" << cols);
  for (size_t x = 0; x < rows; ++x) for (size_t y = 0; y < cols; ++y) {
    REQUIRE_P(m(x, y).Same(d[x][y]), what << ": element (" << x << "," << y << ") is " << m(x, y).v << ", expected " << d[x][y].v);
    REQUIRE_P(m.IsNull(x, y) == (d[x][y] == El()), what << ": IsNull(" << x << "," << y << ") is wrong");
  }
}
M Build(Rng &r, size_t rows, size_t cols) {
  M m(rows, cols);
  int dens = (int) r.below(5);
  for (size_t k = 0, n = rows * cols * (dens + 1) / 2; k < n && rows * cols; ++k) {
    size_t x = r.below(rows), y = r.below(cols);
    m.SetElem(x, y, El((int) r.range(-3, 9)));
  }
  return m;
}
void PickDims(Rng &r, size_t &a, size_t &b) { a = fz::Size(r, 1, 5, 14); b = fz::Size(r, 1, 5, 14); }

void SetGet(Rng &r) {
  size_t rows, cols;
  PickDims(r, rows, cols);
  NOTE("matrix " << rows << "x" << cols);
  M m(rows, cols);
  D d(rows, std::vector<El>(cols));
  Same(m, d, rows, cols, "fresh matrix");
  M e;
  REQUIRE_P(e.rows == 0 && e.cols == 0, "default matrix is not empty");
  size_t n = r.below(3 * rows * cols + 1);
  for (size_t k = 0; k < n; ++k) {
    size_t x = r.below(rows), y = r.below(cols);
    int v = r.chance(1, 6) ? 0 : (int) fz::Value(r, -4, 60);
    El el(v);
    if (r.chance(1, 5)) m.Reserve(r.below(8));
    NOTE("set(" << x << "," << y << ") = " << v);
    m.SetElem(x, y, el);
    if (v != 0) d[x][y] = el;
    Same(m, d, rows, cols, "after set");
    if (r.chance(1, 12)) { M c(m); Same(c, d, rows, cols, "copy"); m = c; Same(m, d, rows, cols, "assigned back"); }
  }
}
void Remove(Rng &r) {
  size_t rows, cols;
  PickDims(r, rows, cols);
  M m = Build(r, rows, cols);
  while (m.rows > 0) {
    D d = Snap(m);
    NOTE("matrix " << m.rows << "x" << m.cols << " " << Str(d));
    size_t R = m.rows, C = m.cols;
    if (r.chance(1, 2)) {
      size_t k = r.below(R);
      NOTE("remove row " << k);
      m.RemoveRow(k);
      if (R == 1) { REQUIRE_P(m.rows == 0 && m.cols == 0, "removing the only row leaves a non-empty matrix"); return; }
      d.erase(d.begin() + k);
      Same(m, d, R - 1, C, "after row removal");
    } else {
      size_t k = r.below(C);
      NOTE("remove column " << k);
      m.RemoveCol(k);
      if (C == 1) { REQUIRE_P(m.rows == 0 && m.cols == 0, "removing the only column leaves a non-empty matrix"); return; }
      for (auto &row : d) row.erase(row.begin() + k);
      Same(m, d, R, C - 1, "after column removal");
    }
    if (r.chance(1, 3)) {   // the matrix stays usable
      size_t x = r.below(m.rows), y = r.below(m.cols);
      int v = (int) r.range(1, 9);
      NOTE("set(" << x << "," << y << ") = " << v);
      d = Snap(m);
      m.SetElem(x, y, El(v));
      d[x][y] = El(v);
      Same(m, d, m.rows, m.cols, "set after removal");
    }
  }
}
std::vector<size_t> Perm(Rng &r, size_t n) {
  std::vector<size_t> p(n);
  std::iota(p.begin(), p.end(), 0);
  for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
  return p;
}
template <class V> std::string VS(const V &v) { std::ostringstream o; for (auto x : v) o << x << " "; return o.str(); }
void Permute(Rng &r) {
  size_t rows, cols;
  PickDims(r, rows, cols);
  M m = Build(r, rows, cols);
  size_t n = 1 + r.below(6);
  for (size_t k = 0; k < n; ++k) {
    D d = Snap(m), e = d;
    NOTE("matrix " << rows << "x" << cols << " " << Str(d));
    switch (r.below(4)) {
      case 0: {
        size_t a = r.below(rows), b = r.below(rows);
        NOTE("swap rows " << a << " " << b);
        m.SwapTwoRows(a, b);
        std::swap(e[a], e[b]);
        break;
      }
      case 1: {
        size_t a = r.below(cols), b = r.below(cols);
        NOTE("swap columns " << a << " " << b);
        m.SwapTwoCols(a, b);
        if (a != b) for (auto &row : e) std::swap(row[a], row[b]);
        break;
      }
      case 2: {
        auto p = Perm(r, rows);
        NOTE("transpose rows " << VS(p));
        m.TransposeRows(p);
        for (size_t x = 0; x < rows; ++x) e[x] = d[p[x]];
        break;
      }
      default: {
        auto p = Perm(r, cols);
        NOTE("transpose columns " << VS(p));
        m.TransposeCols(p);
        for (size_t x = 0; x < rows; ++x) for (size_t y = 0; y < cols; ++y) e[x][y] = d[x][p[y]];
      }
    }
    Same(m, e, rows, cols, "after permutation");
  }
}
void Lines(Rng &r) {
  size_t rows, cols;
  PickDims(r, rows, cols);
  M m = Build(r, rows, cols);
  D d = Snap(m);
  NOTE("matrix " << rows << "x" << cols << " " << Str(d));
  for (size_t x = 0; x < rows; ++x) {
    auto v = m.GetRow(x);
    REQUIRE_P(v.size() == cols, "row " << x << " has " << v.size() << " elements");
    for (size_t y = 0; y < cols; ++y) REQUIRE_P(v[y].Same(d[x][y]), "row " << x << " position " << y << " is " << v[y].v);
  }
  for (size_t y = 0; y < cols; ++y) {
    auto v = m.GetCol(y);
    REQUIRE_P(v.size() == rows, "column " << y << " has " << v.size() << " elements");
    for (size_t x = 0; x < rows; ++x) REQUIRE_P(v[x].Same(d[x][y]), "column " << y << " position " << x << " is " << v[x].v);
  }
  // equality: against a copy, a rebuilt one in another storage order, and a near miss
  M c(m);
  Same(c, d, rows, cols, "copy");
  REQUIRE_P(m == c && c == m && m == m, "a copy compares different");
  M a(2, 3);
  a.SetElem(0, 0, El(7));
  a = m;
  Same(a, d, rows, cols, "assigned");
  a = *&a;
  Same(a, d, rows, cols, "self-assigned");
  auto o = Perm(r, rows * cols);
  M b(rows, cols);
  for (size_t k : o) {
    if (r.chance(1, 3)) b.SetElem(k / cols, k % cols, El(5 + (int) r.below(3)));
  }
  for (size_t k : o) if (d[k / cols][k % cols].v == 0 && !b.IsNull(k / cols, k % cols)) { b = M(rows, cols); break; }
  for (size_t k : o) b.SetElem(k / cols, k % cols, d[k / cols][k % cols]);
  bool same = true;
  for (size_t x = 0; x < rows; ++x) for (size_t y = 0; y < cols; ++y) if (!(b(x, y) == d[x][y])) same = false;
  REQUIRE_P((m == b) == same && (b == m) == same, "equality of a matrix rebuilt in another order is wrong; other is " << Str(Snap(b)));
  size_t x = r.below(rows), y = r.below(cols);
  M f(m);
  f.SetElem(x, y, El(d[x][y].v + 1 == 0 ? 17 : d[x][y].v + 1));
  NOTE("other differs in (" << x << "," << y << ")");
  REQUIRE_P(!(m == f) && !(f == m), "matrices differing in one element compare equal");
  Same(m, d, rows, cols, "original after its copy was changed");
  M g(rows + 1, cols), h(rows, cols + 1), z(cols, rows);
  REQUIRE_P(!(m == g) && !(m == h) && (rows == cols || !(M(rows, cols) == z)), "matrices of different shape compare equal");
}
int main(int argc, char **argv) {
  return fz::Main(argc, argv, {{"setget", SetGet}, {"remove", Remove}, {"permute", Permute}, {"lines", Lines}});
}
