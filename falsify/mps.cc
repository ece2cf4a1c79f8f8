// Matrix product states: tensor files (P23) against a record of which file holds which tensor, in a scratch directory
// of its own; canonical form records (P22) against isometry of the tensors and the full state vector.
#include "common.h"
#include "qlten/qlten.h"
struct QN { int n = 0; QN() {} explicit QN(int k) : n(k) {} QN operator-(const QN &o) const { return QN(n - o.n); } QN operator+(const QN &o) const { return QN(n + o.n); } QN operator-() const { return QN(-n); } bool operator==(const QN &o) const { return n == o.n; } bool operator!=(const QN &o) const { return n != o.n; } };
inline std::ostream &operator<<(std::ostream &o, const QN &q) { return o << q.n; }
inline std::istream &operator>>(std::istream &i, QN &q) { return i >> q.n; }
#include "qlmps/one_dim_tn/mps/finite_mps/finite_mps.h"
#include <dirent.h>
#include <memory>
#include <sys/stat.h>
using fz::Rng;
using Ten = qlten::QLTensor<double, QN>;
using CTen = qlten::QLTensor<std::complex<double>, QN>;
using Idx = qlten::Index<QN>;
static Idx Ix(size_t d, qlten::TenIndexDirType dir) { return Idx({qlten::QNSector<QN>(QN(0), d)}, dir); }
template<typename E> E Rand(Rng &r);
template<> double Rand<double>(Rng &r) { return (double) r.range(-1000000, 1000000) / 700001.0; }
template<> std::complex<double> Rand<std::complex<double>>(Rng &r) { double a = Rand<double>(r); return {a, Rand<double>(r)}; }
template<typename E> qlten::QLTensor<E, QN> Random(Rng &r, size_t a, size_t d, size_t b) {
  qlten::QLTensor<E, QN> t({Ix(a, qlten::IN), Ix(d, qlten::OUT), Ix(b, qlten::OUT)});
  for (auto &c : qlten::AllCoors(t.GetShape())) t.SetElem(c, Rand<E>(r));
  return t;
}
// ---- files
static const std::string &Scratch() {
  static std::string &d = *new std::string;       // still there when the process ends
  if (d.empty()) {
    const char *base = getenv("TMPDIR");
    std::string b = std::string(base ? base : "/tmp") + "/vp_mps_XXXXXX";
    std::vector<char> v(b.begin(), b.end());
    v.push_back(0);
    if (!mkdtemp(v.data())) { std::perror("mkdtemp"); std::_Exit(3); }
    d = v.data();
  }
  return d;
}
static void Wipe(const std::string &dir) {       // only plain files and links directly inside our own directories
  if (DIR *h = opendir(dir.c_str())) {
    while (dirent *e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") { std::string p = dir + "/" + n; if (unlink(p.c_str()) != 0) rmdir(p.c_str()); } }
    closedir(h);
  }
  rmdir(dir.c_str());
}
static void Cleanup() { for (auto n : {"/a", "/b", "/c"}) Wipe(Scratch() + n); rmdir(Scratch().c_str()); }
enum Kind { ABSENT, HOLDS, DAMAGED, FULL, DIRECTORY };
struct File { Kind k = ABSENT; Ten t; };
static bool Same(const Ten &a, const Ten &b) { return a == b; }
static bool FileHolds(const std::string &p, const Ten &t) { std::ifstream f(p); Ten x; f >> x; return (bool) f && Same(x, t); }
struct Files {
  std::map<std::string, File> m;
  std::set<std::string> dirs;
  bool CanWrite(const std::string &dir, const std::string &p) { auto k = m[p].k; return dirs.count(dir) && k != FULL && k != DIRECTORY; }
  bool Openable(const std::string &dir, const std::string &p) { return dirs.count(dir) && m[p].k != DIRECTORY; }
};
static std::string Name(const std::string &dir, size_t i) { return dir + "/mps_ten" + std::to_string(i) + ".qlten"; }
static void FileHistory(Rng &r) {
  static bool once = (std::atexit(Cleanup), fz::AtEnd() = Cleanup, true);
  (void) once;
  const std::string base = Scratch();
  std::vector<std::string> dirs = {base + "/a", base + "/b", base + "/c"};
  for (auto &d : dirs) Wipe(d);
  Files fs;
  size_t n = r.chance(1, 12) ? r.range(9, 13) : r.range(1, 5), phys = r.range(1, 3);
  if (r.chance(1, 10)) n = r.chance(1, 2) ? fz::Size(r, 1, 6, 60) + r.below(4) : r.range(14, 40);
  NOTE("state of " << n << " sites");
  using MPST = qlmps::FiniteMPS<double, QN>;
  qlmps::SiteVec<double, QN> sv(n, Ix(phys, qlten::OUT));
  MPST mps(sv);
  std::vector<std::unique_ptr<Ten>> mem(n);
  auto put = [&](size_t i) { Ten t = Random<double>(r, r.range(1, 3), phys, r.chance(1, 30) ? 40 : r.range(1, 3)); mps[i] = t; mem[i].reset(new Ten(t)); NOTE("site " << i << " set"); };
  for (size_t i = 0; i < n; ++i) put(i);
  auto dname = [&](const std::string &d) { return d.substr(base.size()); };
  auto check = [&](const char *what) {
    const MPST &c = mps;
    for (size_t i = 0; i < n; ++i) {
      REQUIRE_P((c(i) != nullptr) == (bool) mem[i], what << ": the tensor of site " << i << (mem[i] ? " is no longer in memory" : " is still in memory"));
      if (mem[i]) REQUIRE_P(Same(c[i], *mem[i]), what << ": the tensor of site " << i << " changed");
    }
    for (auto &f : fs.m) if (f.second.k == HOLDS) REQUIRE_P(FileHolds(f.first, f.second.t), what << ": file " << dname(f.first) << " does not hold the tensor written to it");
  };
  for (auto &d : dirs) if (r.chance(1, 2)) { NOTE("mkdir " << dname(d)); mkdir(d.c_str(), 0755); fs.dirs.insert(d); }
  size_t ops = r.chance(1, 8) ? 60 : r.range(2, 18), dir = 0;
  int plan = r.chance(1, 4) ? 3 : 0;          // dump all, spoil one file, load all
  for (size_t q = 0; q < ops; ++q) {
    size_t i = r.chance(1, 5) ? n - 1 : r.below(n);
    if (!plan) dir = r.below(dirs.size());
    const std::string &d = dirs[dir];
    std::string p = Name(d, i);
    std::string other = d + "/file" + std::to_string(r.below(3));
    int op = (int) r.below(15);
    if (plan) { op = plan == 3 ? 8 : plan == 2 ? 14 : 11; --plan; }
    else if (r.chance(1, 12)) plan = 3;
    bool rel = r.chance(1, 2), plain = r.chance(1, 3);
    switch (op) {
      case 0: put(i); break;
      case 1: if (r.chance(1, 2)) { NOTE("mkdir " << dname(d)); mkdir(d.c_str(), 0755); fs.dirs.insert(d); } break;
      case 2: case 3: case 4: {           // one tensor
        if (!mem[i]) break;
        bool bypath = op == 4;
        std::string f = plain && !bypath ? other : p;
        if (bypath) rel = false;
        NOTE("dump site " << i << " to " << dname(f) << (rel ? ", release" : ""));
        bool ok = fs.CanWrite(d, f), threw = false;
        try {
          if (bypath) mps.DumpTen(d, i);
          else if (op == 3 && !rel) { const MPST &c = mps; c.DumpTen(i, f); }
          else mps.DumpTen(i, f, rel);
        } catch (const std::runtime_error &) { threw = true; }
        REQUIRE_P(threw == !ok, "dumping to " << dname(f) << (ok ? " failed" : " was not reported as failed"));
        if (ok) { fs.m[f].k = HOLDS; fs.m[f].t = *mem[i]; if (rel) mem[i].reset(); }
        check("after dump"); break;
      }
      case 5: case 6: case 7: {
        std::string f = plain && op != 7 ? other : p;
        if (fs.dirs.count(d) && fs.m[f].k == FULL) break;       // never ends
        NOTE("load site " << i << " from " << dname(f));
        bool ok = fs.dirs.count(d) && fs.m[f].k == HOLDS, threw = false;
        try { if (op == 7) mps.LoadTen(d, i); else mps.LoadTen(i, f); } catch (const std::runtime_error &) { threw = true; }
        REQUIRE_P(threw == !ok, "loading " << dname(f) << (ok ? " failed" : " was not reported as failed"));
        if (ok) mem[i].reset(new Ten(fs.m[f].t)); else put(i);
        check("after load"); break;
      }
      case 8: case 9: case 10: {
        bool have = true;
        for (auto &x : mem) have &= (bool) x;
        if (!have) break;
        bool konst = op == 9;
        if (konst) rel = false;
        NOTE("dump all to " << dname(d) << (rel ? ", release" : ""));
        size_t bad = n;
        fs.dirs.insert(d);
        for (size_t k = 0; k < n && bad == n; ++k) if (!fs.CanWrite(d, Name(d, k))) bad = k;
        bool threw = false;
        try { if (konst) { const MPST &c = mps; c.Dump(d); } else mps.Dump(d, rel); } catch (const std::runtime_error &) { threw = true; }
        REQUIRE_P(threw == (bad != n), "dumping all tensors to " << dname(d) << (bad == n ? " failed" : " was not reported as failed"));
        for (size_t k = 0; k < n; ++k) {
          if (bad == n) { fs.m[Name(d, k)].k = HOLDS; fs.m[Name(d, k)].t = *mem[k]; if (rel) mem[k].reset(); continue; }
          bool file = fs.m[Name(d, k)].k != FULL && fs.m[Name(d, k)].k != DIRECTORY && FileHolds(Name(d, k), *mem[k]);
          const MPST &c = mps;
          REQUIRE_P(file || c(k), "the tensor of site " << k << " is neither in memory nor in its file after a failed dump");
          if (c(k)) REQUIRE_P(Same(c[k], *mem[k]), "site " << k << " changed by a failed dump");
          if (fs.m[Name(d, k)].k != FULL && fs.m[Name(d, k)].k != DIRECTORY) { if (file) { fs.m[Name(d, k)].k = HOLDS; fs.m[Name(d, k)].t = *mem[k]; } }
          if (!c(k)) mem[k].reset();
        }
        check("after dumping all"); break;
      }
      case 11: case 12: {
        bool full = false;
        for (size_t k = 0; k < n; ++k) full |= fs.m[Name(d, k)].k == FULL;
        if (full) break;
        NOTE("load all from " << dname(d));
        bool ok = fs.dirs.count(d), threw = false;
        for (size_t k = 0; k < n; ++k) ok = ok && fs.m[Name(d, k)].k == HOLDS;
        try { mps.Load(d); } catch (const std::runtime_error &) { threw = true; }
        REQUIRE_P(threw == !ok, "loading all tensors from " << dname(d) << (ok ? " failed" : " was not reported as failed"));
        for (size_t k = 0; k < n; ++k) if (ok) mem[k].reset(new Ten(fs.m[Name(d, k)].t)); else put(k);
        check("after loading all"); break;
      }
      case 13: {                          // a fresh state reads what this one wrote
        bool ok = fs.dirs.count(d);
        for (size_t k = 0; k < n; ++k) ok = ok && fs.m[Name(d, k)].k == HOLDS;
        if (!ok) break;
        NOTE("another state of as many sites loads from " << dname(d));
        MPST m2(sv);
        m2.Load(d);
        const MPST &c = m2;
        for (size_t k = 0; k < n; ++k) REQUIRE_P(c(k) && Same(c[k], fs.m[Name(d, k)].t), "site " << k << " of the loaded state differs from the tensor in its file");
        break;
      }
      default: {                          // trouble
        if (!fs.dirs.count(d) || fs.m[p].k == FULL || fs.m[p].k == DIRECTORY) break;
        int w = (int) r.below(4);
        if (w == 0) { NOTE("delete " << dname(p)); unlink(p.c_str()); fs.m[p].k = ABSENT; }
        else if (w == 1 && fs.m[p].k == HOLDS) { NOTE("cut " << dname(p)); struct stat s; if (stat(p.c_str(), &s) == 0 && truncate(p.c_str(), r.below(s.st_size)) == 0) fs.m[p].k = DAMAGED; }
        else if (w == 2) { NOTE("full disk under " << dname(p)); unlink(p.c_str()); if (symlink("/dev/full", p.c_str()) == 0) fs.m[p].k = FULL; }
        else if (w == 3) { NOTE("directory in the way at " << dname(p)); unlink(p.c_str()); if (mkdir(p.c_str(), 0755) == 0) fs.m[p].k = DIRECTORY; }
        break;
      }
    }
  }
  for (auto &d : dirs) Wipe(d);
}
// ---- canonical form records
template<typename E> using TenE = qlten::QLTensor<E, QN>;
template<typename E> double Far(const std::vector<E> &a, const std::vector<E> &b) {
  if (a.size() != b.size()) return 1e300;
  double d = 0, m = 1e-300;
  for (size_t i = 0; i < a.size(); ++i) { d = std::max(d, (double) std::abs(a[i] - b[i])); m = std::max(m, (double) std::abs(a[i])); }
  return d / m;
}
// amplitudes of all configurations, the two end legs included
template<typename E> std::vector<E> Amplitudes(const qlmps::FiniteMPS<E, QN> &s) {
  std::vector<std::vector<E>> rows;       // configuration (with left end leg) by bond
  for (size_t i = 0; i < s.size(); ++i) {
    const TenE<E> &t = s[i];
    auto sh = t.GetShape();
    if (i == 0) { rows.assign(sh[0], std::vector<E>(sh[0], E(0))); for (size_t k = 0; k < sh[0]; ++k) rows[k][k] = 1; }
    std::vector<std::vector<E>> next;
    for (auto &r : rows) for (size_t d = 0; d < sh[1]; ++d) {
      REQUIRE_P(r.size() == sh[0], "site " << i << " does not fit its left neighbour: " << sh[0] << " against " << r.size());
      std::vector<E> v(sh[2], E(0));
      for (size_t a = 0; a < sh[0]; ++a) for (size_t b = 0; b < sh[2]; ++b) v[b] += r[a] * t.GetElem({a, d, b});
      next.push_back(v);
    }
    rows.swap(next);
  }
  std::vector<E> out;
  for (auto &r : rows) for (auto &x : r) out.push_back(x);
  return out;
}
template<typename E> double NotIsometric(const TenE<E> &t, bool left) {
  auto sh = t.GetShape();
  size_t n = left ? sh[2] : sh[0];
  double worst = 0;
  for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < n; ++b) {
    E v(0);
    for (size_t x = 0; x < (left ? sh[0] : sh[2]); ++x) for (size_t d = 0; d < sh[1]; ++d)
      v += left ? qlten::Conj(t.GetElem({x, d, a})) * t.GetElem({x, d, b}) : t.GetElem({a, d, x}) * qlten::Conj(t.GetElem({b, d, x}));
    worst = std::max(worst, (double) std::abs(v - E(a == b ? 1 : 0)));
  }
  return worst;
}
template<typename E> void CanonHistory(Rng &r) {
  using MPST = qlmps::FiniteMPS<E, QN>;
  using qlmps::MPSTenCanoType;
  size_t n = r.chance(1, 12) ? 1 : r.range(2, r.chance(1, 8) ? 8 : 5);
  if (r.chance(1, 20)) n = r.chance(1, 2) ? fz::Size(r, 1, 6, 40) : r.range(6, 24);
  std::vector<size_t> phys(n, 1);
  for (size_t k = 0, left = n > 5 ? r.range(0, 5) : n; k < 3 * n && left; ++k) { size_t i = r.below(n); if (phys[i] == 1 && r.chance(1, 2)) { phys[i] = 2; --left; } }
  if (n > 5 && r.chance(1, 2)) phys[r.chance(1, 2) ? n - 1 : 0] = 2;
  std::string dims;
  qlten::IndexVec<QN> idx;
  for (auto d : phys) { idx.push_back(Ix(d, qlten::OUT)); dims += " " + std::to_string(d); }
  NOTE("state of " << n << " sites, local dimensions" << dims);
  qlmps::SiteVec<E, QN> sv(idx);
  std::unique_ptr<MPST> mps(new MPST(sv));
  {
    const MPST &c = *mps;
    REQUIRE_P(c.GetCenter() == qlmps::kUncentralizedCenterIdx, "a new state has a center");
    for (size_t i = 0; i < n; ++i) REQUIRE_P(c.GetTenCanoType(i) == MPSTenCanoType::NONE && !c(i), "a new state has a labelled or filled site");
  }
  std::vector<size_t> bond(n + 1, 1);
  for (size_t k = 0; k <= n; ++k) bond[k] = (k == 0 || k == n) ? (r.chance(1, 6) ? 2 : 1) : r.range(1, 3);
  auto put = [&](size_t i) { auto sh0 = i < n ? bond[i] : 1; (*mps)[i] = Random<E>(r, sh0, phys[i], bond[i + 1]); };
  for (size_t i = 0; i < n; ++i) put(i);
  std::vector<E> amp = Amplitudes<E>(*mps);
  auto check = [&](const char *what) {
    const MPST &c = *mps;
    auto labels = c.GetTensCanoType();
    REQUIRE_P(labels.size() == n, what << ": " << labels.size() << " labels");
    int center = c.GetCenter();
    REQUIRE_P(center >= -1 && center < (int) n, what << ": center " << center);
    for (size_t i = 0; i < n; ++i) {
      REQUIRE_P(c(i), what << ": site " << i << " has no tensor");
      REQUIRE_P(labels[i] == c.GetTenCanoType(i), what << ": two answers for the label of site " << i);
      if (labels[i] == MPSTenCanoType::LEFT) REQUIRE_P(NotIsometric<E>(c[i], true) < 1e-8, what << ": site " << i << " is labelled left-canonical and is not");
      if (labels[i] == MPSTenCanoType::RIGHT) REQUIRE_P(NotIsometric<E>(c[i], false) < 1e-8, what << ": site " << i << " is labelled right-canonical and is not");
      if (center >= 0 && (int) i < center) REQUIRE_P(labels[i] == MPSTenCanoType::LEFT, what << ": site " << i << " left of the center " << center << " is not left-canonical");
      if (center >= 0 && (int) i > center) REQUIRE_P(labels[i] == MPSTenCanoType::RIGHT, what << ": site " << i << " right of the center " << center << " is not right-canonical");
    }
  };
  auto same = [&](const char *what) { double d = Far<E>(amp, Amplitudes<E>(*mps)); REQUIRE_P(d < 1e-7, what << ": the state changed (" << d << ")"); };
  check("new state");
  size_t ops = r.chance(1, 8) ? 40 : r.range(1, 12);
  for (size_t q = 0; q < ops; ++q) {
    size_t i = r.below(n);
    const MPST &c = *mps;
    auto lab = c.GetTensCanoType();
    switch ((int) r.below(13)) {
      case 0: case 1: case 2: {
        NOTE("centralize " << i);
        mps->Centralize((int) i);
        check("centralize");
        REQUIRE_P(c.GetCenter() == (int) i, "center " << c.GetCenter() << " after centralizing to " << i);
        same("centralize"); break;
      }
      case 3: case 4: if (i + 1 < n) {
        NOTE("left-canonicalize up to " << i);
        mps->LeftCanonicalize(i);
        check("left-canonicalize");
        for (size_t k = 0; k <= i; ++k) REQUIRE_P(c.GetTenCanoType(k) == MPSTenCanoType::LEFT, "site " << k << " not left-canonical after left-canonicalizing up to " << i);
        for (size_t k = i + 2; k < n; ++k) REQUIRE_P(c.GetTenCanoType(k) == lab[k], "label of site " << k << " changed");
        same("left-canonicalize"); } break;
      case 5: case 6: if (i > 0) {
        NOTE("right-canonicalize down to " << i);
        mps->RightCanonicalize(i);
        check("right-canonicalize");
        for (size_t k = i; k < n; ++k) REQUIRE_P(c.GetTenCanoType(k) == MPSTenCanoType::RIGHT, "site " << k << " not right-canonical after right-canonicalizing down to " << i);
        for (size_t k = 0; k + 1 < i; ++k) REQUIRE_P(c.GetTenCanoType(k) == lab[k], "label of site " << k << " changed");
        same("right-canonicalize"); } break;
      case 7: if (i + 1 < n) { NOTE("left-canonicalize site " << i); mps->LeftCanonicalizeTen(i); check("left step"); REQUIRE_P(c.GetTenCanoType(i) == MPSTenCanoType::LEFT && c.GetTenCanoType(i + 1) == MPSTenCanoType::NONE, "labels after a left step at " << i); same("left step"); } break;
      case 8: if (i > 0) { bool svd = r.chance(1, 2); NOTE("right-canonicalize site " << i << (svd ? " by SVD" : "")); mps->RightCanonicalizeTen(i, svd); check("right step"); REQUIRE_P(c.GetTenCanoType(i) == MPSTenCanoType::RIGHT && c.GetTenCanoType(i - 1) == MPSTenCanoType::NONE, "labels after a right step at " << i); same("right step"); } break;
      case 9: NOTE("site " << i << " written"); { auto sh = c[i].GetShape(); (*mps)[i] = Random<E>(r, sh[0], sh[1], sh[2]); } check("write"); REQUIRE_P(c.GetCenter() == -1 && c.GetTenCanoType(i) == MPSTenCanoType::NONE, "a written site keeps its label or the center"); amp = Amplitudes<E>(*mps); break;
      case 10: NOTE("tensor pointer of site " << i << " replaced"); { auto sh = c[i].GetShape(); auto *t = new TenE<E>(Random<E>(r, sh[0], sh[1], sh[2])); delete (*mps)(i); (*mps)(i) = t; } check("replace"); amp = Amplitudes<E>(*mps); break;
      case 11: NOTE("reverse"); {
        std::vector<TenE<E>> old;
        for (size_t k = 0; k < n; ++k) old.push_back(c[k]);
        mps->Reverse();
        for (size_t k = 0; k < n; ++k) { TenE<E> t = old[n - 1 - k]; t.Transpose({2, 1, 0}); REQUIRE_P(c(k) && c[k] == t, "site " << k << " after reversing"); }
        check("reverse");
        amp = Amplitudes<E>(*mps); } break;
      case 12: NOTE("copied"); { std::unique_ptr<MPST> m2(new MPST(*mps)); if (r.chance(1, 2)) { mps->Centralize((int) i); check("centralize"); } mps = std::move(m2); } check("copy"); same("copy"); break;
    }
  }
}
int main(int argc, char **argv) {
  return fz::Main(argc, argv, {{"files", FileHistory}, {"canon", [](Rng &r) { if (r.chance(1, 3)) CanonHistory<std::complex<double>>(r); else CanonHistory<double>(r); }}});
}
