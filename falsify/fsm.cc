#include "symb.h"

void Nodes(Rng &r) {
  auto site = [&]() { return (size_t) fz::Value(r, 0, r.chance(1, 2) ? 3 : 70000); };
  auto stat = [&]() { return r.chance(1, 4) ? -1L : fz::Value(r, -1, r.chance(1, 2) ? 3 : 70000); };
  std::vector<FSMNode> v;
  std::vector<std::pair<size_t, long>> o;
  size_t n = r.range(1, 5);
  for (size_t i = 0; i < n; ++i) {
    size_t s = site();
    long t = stat();
    if (i && r.chance(1, 3)) s = o[i - 1].first;
    v.push_back(FSMNode(s, t));
    o.push_back({s, t});
    NOTE("node " << s << "," << t);
  }
  for (int k = 0; k < 4; ++k) {
    size_t i = r.below(n), j = r.below(n);
    switch (r.below(4)) {
      case 0: { size_t s = site(); v[i].SetSite(s); o[i].first = s; NOTE("node " << i << " SetSite " << s); break; }
      case 1: { long t = stat(); v[i].SetStat(t); o[i].second = t; NOTE("node " << i << " SetStat " << t); break; }
      case 2: v[i] = v[j]; o[i] = o[j]; NOTE("node " << i << " = node " << j); break;
      default: { FSMNode c(v[j]); v[i] = c; o[i] = o[j]; NOTE("node " << i << " = copy of node " << j); }
    }
    for (size_t q = 0; q < n; ++q) {
      REQUIRE_P(v[q].Site() == o[q].first, "site of node " << q << " is " << v[q].Site() << " instead of " << o[q].first);
      REQUIRE_P(v[q].Stat() == o[q].second, "state of node " << q << " is " << v[q].Stat() << " instead of " << o[q].second);
      for (size_t p = 0; p < n; ++p) {
        REQUIRE_P((v[p] < v[q]) == (o[p] < o[q]), "less: (" << o[p].first << "," << o[p].second << ") (" << o[q].first << "," << o[q].second << ")");
        REQUIRE_P((v[p] > v[q]) == (o[p] > o[q]), "greater: (" << o[p].first << "," << o[p].second << ") (" << o[q].first << "," << o[q].second << ")");
        REQUIRE_P((v[p] == v[q]) == (o[p] == o[q]), "equal: (" << o[p].first << "," << o[p].second << ") (" << o[q].first << "," << o[q].second << ")");
      }
    }
  }
  // paths
  size_t len = fz::Size(r, 0, 5, 80);
  FSMPath p(len);
  std::map<size_t, std::pair<size_t, long>> pn;
  std::map<size_t, long> po;
  NOTE("path of " << len << " sites");
  for (int k = 0; k < 12; ++k) {
    size_t i = r.below(len + 1);
    if (r.chance(1, 2)) { size_t s = site(); long t = stat(); p.AddNode(i, FSMNode(s, t)); pn[i] = {s, t}; NOTE("AddNode " << i << " " << s << "," << t); }
    else if (i < len) { long l = r.range(1, 60); p.SetOpr(i, OpRepr(l)); po[i] = l; NOTE("SetOpr " << i << " O" << l); }
    for (auto &kv : pn) REQUIRE_P(p.Node(kv.first).Site() == kv.second.first && p.Node(kv.first).Stat() == kv.second.second, "path node " << kv.first << " is not the one stored");
    for (size_t q = 0; q < len; ++q) REQUIRE_P(p.Opr(q) == (po.count(q) ? OpRepr(po[q]) : OpRepr()), "path operator " << q << " is not the one stored");
  }
  bool threw = false;
  try { p.Opr(len); } catch (const std::out_of_range &) { threw = true; }
  REQUIRE_P(threw, "operator behind the end of a path");
  threw = false;
  try { p.Node(len + 1); } catch (const std::out_of_range &) { threw = true; }
  REQUIRE_P(threw, "node behind the end of a path");
}

struct Term { size_t h, t; std::vector<OpRepr> ops; };
OpRepr RandOp(Rng &r, long nops, long ncoef, bool coef) {
  int terms = r.chance(1, 6) ? 2 : 1;
  std::vector<CoefRepr> cs;
  std::vector<long> ls;
  CoefRepr c(coef ? r.range(0, ncoef - 1) : 0);
  if (coef && r.chance(1, 8)) c += CoefRepr(r.range(0, ncoef - 1));
  for (int i = 0; i < terms; ++i) { cs.push_back(c); ls.push_back(r.range(0, nops - 1)); }
  std::sort(ls.begin(), ls.end());
  ls.erase(std::unique(ls.begin(), ls.end()), ls.end());
  cs.resize(ls.size());
  return OpRepr(cs, ls);
}
std::vector<OpRepr> Ids(Rng &r, size_t n, bool given) {
  std::vector<OpRepr> v;
  for (size_t i = 0; i < n; ++i) v.push_back(OpRepr(given ? (r.chance(1, 3) ? 40 + (long) i % 10 : 0L) : 0L));
  return v;
}
std::string S(const Term &t) { std::ostringstream o; o << "sites " << t.h << ".." << t.t << ":"; for (auto &x : t.ops) o << " " << S(x); return o.str(); }

void AddPathMode(Rng &r) {
  size_t n = fz::Size(r, 1, 8, 70);
  bool given = r.chance(1, 2);
  auto ids = Ids(r, n, given);
  FSM f = given ? FSM(n, ids) : FSM(n);
  NOTE("FSM of " << n << " sites" << (given ? ", own identities" : ""));
  REQUIRE_P(f.phys_size() == n && f.fsm_size() == n + 1, "sizes of the machine");
  REQUIRE_P(f.GetFSMPaths().empty(), "a new machine has paths");
  std::vector<Term> ts;
  std::vector<std::vector<std::pair<size_t, long>>> nodes;   // as first recorded
  size_t np = fz::Size(r, 1, 6, 90);
  for (size_t k = 0; k < np; ++k) {
    Term t;
    t.h = r.below(n);
    t.t = r.chance(1, 3) ? t.h : t.h + r.below(n - t.h);
    if (r.chance(1, 5)) t.t = n - 1;
    for (size_t i = t.h; i <= t.t; ++i) t.ops.push_back(RandOp(r, 5, 5, true));
    NOTE("AddPath " << S(t));
    f.AddPath(t.h, t.t, t.ops);
    ts.push_back(t);
    auto ps = f.GetFSMPaths();
    REQUIRE_P(ps.size() == ts.size(), "number of recorded paths");
    std::vector<std::set<long>> mids(n + 1);
    for (size_t q = 0; q < ps.size(); ++q) {
      if (np > 20 && q + 3 < ps.size() && q > 2 && !r.chance(1, 8)) { for (size_t i = 0; i <= n; ++i) if (ps[q].fsm_nodes[i].fsm_stat_idx >= 1) mids[i].insert(ps[q].fsm_nodes[i].fsm_stat_idx); continue; }
      auto &u = ts[q];
      REQUIRE_P(ps[q].fsm_nodes.size() == n + 1 && ps[q].op_reprs.size() == n, "length of path " << q);
      std::vector<std::pair<size_t, long>> now;
      for (size_t i = 0; i < n; ++i) {
        OpRepr want = (i < u.h || i > u.t) ? ids[i] : u.ops[i - u.h];
        REQUIRE_P(ps[q].op_reprs[i] == want && ps[q].Opr(i) == want, "path " << q << " site " << i << ": operator " << S(ps[q].op_reprs[i]) << " instead of " << S(want));
      }
      for (size_t i = 0; i <= n; ++i) {
        auto nd = ps[q].fsm_nodes[i];
        REQUIRE_P(nd.fsm_site_idx == i, "path " << q << ": node " << i << " says site " << nd.fsm_site_idx);
        long s = nd.fsm_stat_idx;
        if (i <= u.h) REQUIRE_P(s == kFSMReadyStatIdx, "path " << q << " node " << i << " before the range has state " << s);
        else if (i > u.t) REQUIRE_P(s == kFSMFinalStatIdx, "path " << q << " node " << i << " behind the range has state " << s);
        else { REQUIRE_P(s != kFSMReadyStatIdx && s != kFSMFinalStatIdx, "path " << q << " node " << i << " inside the range has state " << s); REQUIRE_P(mids[i].insert(s).second, "state " << s << " at node " << i << " is used by two paths"); }
        now.push_back({nd.fsm_site_idx, s});
      }
      if (q < nodes.size()) REQUIRE_P(nodes[q] == now, "path " << q << " changed when another path was added"); else nodes.push_back(now);
    }
    while (nodes.size() < ps.size()) { std::vector<std::pair<size_t, long>> now; for (auto &nd : ps[nodes.size()].fsm_nodes) now.push_back({nd.fsm_site_idx, nd.fsm_stat_idx}); nodes.push_back(now); }
  }
}

template<bool kComp> void MatRepr(Rng &r) {
  bool big = r.chance(1, 12);
  bool wide = !big && r.chance(1, 6);   // a short chain with many different operators: bonds of many states
  size_t n = big ? fz::Size(r, 1, 12, 40) : wide ? r.range(2, 4) : r.range(1, 6);
  bool given = r.chance(1, 3);
  auto ids = Ids(r, n, given);
  FSM f = given ? FSM(n, ids) : FSM(n);
  NOTE("FSM of " << n << " sites" << (given ? ", own identities" : ""));
  if (given) { std::ostringstream o; for (auto &x : ids) o << S(x) << " "; NOTE("identities " << o.str()); }
  size_t np = r.chance(1, 20) ? 0 : (big || wide ? fz::Size(r, 1, big ? 10 : 18, 40) : r.range(1, 7));
  long nops = wide ? r.range(5, 40) : r.range(1, 4), nco = r.range(1, 4);
  std::vector<Term> ts;
  for (size_t k = 0; k < np; ++k) {
    Term t;
    t.h = r.below(n);
    size_t maxl = big ? std::min<size_t>(n - t.h, 6) : n - t.h;
    t.t = r.chance(1, 3) ? t.h : t.h + r.below(maxl);
    for (size_t i = t.h; i <= t.t; ++i) t.ops.push_back(RandOp(r, nops + 1, nco, (i == t.h && !(wide && r.chance(1, 2))) || (!kComp && r.chance(1, 3))));
    if (!ts.empty() && r.chance(1, 4)) { t = ts[r.below(ts.size())]; if (r.chance(1, 2)) { size_t m = r.below(t.ops.size()); t.ops[m] = RandOp(r, nops + 1, nco, m == 0); } }
    if (r.chance(1, 5)) {   // a string of site identities inside a term
      for (size_t m = 1; m + 1 < t.ops.size(); ++m) if (r.chance(2, 3)) t.ops[m] = ids[t.h + m];
    }
    NOTE("AddPath " << S(t));
    f.AddPath(t.h, t.t, t.ops);
    ts.push_back(t);
  }
  auto un = f.GenMatRepr();
  auto ms = kComp ? f.GenCompressedMatRepr() : un;
  REQUIRE_P(ms.size() == n, "number of matrices");
  if (np) REQUIRE_P(ms[0].rows == 1 && ms[n - 1].cols == 1, "outer dimensions are " << ms[0].rows << " and " << ms[n - 1].cols);
  for (size_t i = 0; i + 1 < n; ++i) REQUIRE_P(ms[i].cols == ms[i + 1].rows, "bond dimensions do not match at bond " << i);
  if (kComp) for (size_t i = 0; i < n; ++i) REQUIRE_P(ms[i].cols <= un[i].cols && ms[i].rows <= un[i].rows, "bond dimension grew at site " << i);
  if (!np) return;
  for (int k = 0; k < 2; ++k) {
    Nums v = RandNums(r);
    Sum want;
    for (auto &t : ts) {
      Sum e;
      e[{}] = 1;
      for (size_t i = 0; i < n; ++i) e = Tensor(e, Val(i < t.h || i > t.t ? ids[i] : t.ops[i - t.h], v));
      want = Plus(want, e);
    }
    Sum got = Product(ms, v, 0, 0);
    ++fz::Checks();
    if (got != want) {
      std::ostringstream o;
      o << "the product of the matrices is not the sum of the terms:";
      for (auto &kv : want) if (!got.count(kv.first) || got[kv.first] != kv.second) { o << " string " << S(kv.first) << " has " << (got.count(kv.first) ? got[kv.first] : 0) << " instead of " << kv.second; break; }
      for (auto &kv : got) if (!want.count(kv.first)) { o << " string " << S(kv.first) << " appears with " << kv.second; break; }
      for (size_t i = 0; i < n; ++i) NOTE("matrix " << i << " " << S(Read(ms[i])));
      fz::Fail(o.str());
    }
  }
}

struct Obj {
  long v;
  bool operator==(const Obj &o) const { return v == o.v; }
  Obj operator-() const { return Obj{-v}; }
};
std::ostream &operator<<(std::ostream &os, const Obj &o) { return os << o.v; }
void Labels(Rng &r) {
  LabelConvertor<Obj> c(Obj{1000});
  std::vector<long> o{1000};
  long span = r.chance(1, 2) ? 4 : 100;
  size_t n = fz::Size(r, 1, 12, 300);
  for (size_t k = 0; k < n; ++k) {
    long v = r.chance(1, 10) ? 1000 : r.range(-span, span);
    size_t l = c.Convert(Obj{v});
    size_t w = std::find(o.begin(), o.end(), v) - o.begin();
    NOTE("Convert " << v << " -> " << l);
    REQUIRE_P(l == w, "object " << v << " got label " << l << " instead of " << w);
    if (w == o.size()) o.push_back(v);
    if (n < 40 || r.chance(1, 10) || k + 1 == n) {
      auto m = c.GetLabelObjMapping();
      REQUIRE_P(m.size() == o.size(), "size of the label table " << m.size() << " instead of " << o.size());
      for (size_t i = 0; i < o.size(); ++i) REQUIRE_P(m[i].v == o[i], "label " << i << " maps to " << m[i].v << " instead of " << o[i]);
    }
    if (r.chance(1, 15)) {
      LabelConvertor<Obj> d(Obj{7});
      d.Convert(Obj{8});
      NOTE("copy assignment to another table and on");
      d = c;
      c.Convert(Obj{5000000});
      LabelConvertor<Obj> e(Obj{1});
      c = e;
      c = d;
    }
  }
}
int main(int argc, char **argv) {
  return fz::Main(argc, argv, {{"nodes", Nodes}, {"addpath", AddPathMode}, {"matrepr", MatRepr<false>}, {"compressed", MatRepr<true>}, {"labels", Labels}});
}
