// Element container: ownership (P01) and slot contents (P02) against a plain model.
#include "common.h"
#include <memory>
#include "qlmps/one_dim_tn/framework/duovector.h"
using fz::Rng;
using qlmps::DuoVector;

static std::set<const void *> &Live() { static std::set<const void *> s; return s; }
static long created = 0, released = 0;
struct Elem {
  long v;
  long *heap;                       // something to leak or to release twice
  Elem() : v(0), heap(new long(0)) { Born(); }
  Elem(long x) : v(x), heap(new long(x)) { Born(); }
  Elem(const Elem &o) : v(o.Get()), heap(new long(o.v)) { Born(); }
  Elem &operator=(const Elem &o) { v = o.Get(); *heap = v; return *this; }
  ~Elem() { if (!Live().erase(this)) fz::Fail("an element is released that is not live (released twice?)"); ++released; delete heap; heap = nullptr; }
  long Get() const { if (!Live().count(this)) fz::Fail("an element is used after its release"); if (*heap != v) fz::Fail("corrupt element"); return v; }
 private:
  void Born() { Live().insert(this); ++created; }
};
using DV = DuoVector<Elem>;
struct Derived : public DV {      // as the library uses it
  long tag = 0;
  explicit Derived(size_t n) : DV(n) {}
  Derived(const Derived &) = default;
  Derived(Derived &&o) noexcept : DV(std::move(o)), tag(o.tag) {}
  Derived &operator=(const Derived &r) { DV::operator=(r); tag = r.tag; return *this; }
  Derived &operator=(Derived &&r) noexcept { DV::operator=(std::move(r)); tag = r.tag; return *this; }
};
using Model = std::vector<std::unique_ptr<long>>;
static Model Copy(const Model &m) { Model r; for (auto &p : m) r.push_back(p ? std::unique_ptr<long>(new long(*p)) : nullptr); return r; }

static void Compare(const Derived &d, const Model &m, const char *what, bool full) {
  const DV &c = d;
  REQUIRE_P(c.size() == m.size(), what << ": size " << c.size() << " instead of " << m.size());
  bool any = false;
  for (size_t i = 0; i < m.size(); ++i) any |= (bool) m[i];
  REQUIRE_P(c.empty() == !any, what << ": emptiness reported " << c.empty());
  auto raw = c.cdata();
  REQUIRE_P(raw.size() == m.size(), what << ": raw view has " << raw.size() << " slots");
  for (size_t i = 0; i < m.size(); ++i) {
    const Elem *p = c(i);
    REQUIRE_P(raw[i] == p, what << ": raw view differs at " << i);
    REQUIRE_P((p != nullptr) == (bool) m[i], what << ": slot " << i << (p ? " is allocated" : " is empty"));
    if (p) {
      REQUIRE_P(Live().count(p), what << ": slot " << i << " refers to a released element");
      REQUIRE_P(p->Get() == *m[i], what << ": slot " << i << " holds " << p->Get() << " instead of " << *m[i]);
      REQUIRE_P(&c[i] == p, what << ": element " << i << " is not where its pointer says");
    }
  }
  if (m.size()) {
    if (m[0]) REQUIRE_P(&c.front() == c(0), what << ": first element");
    if (m.back()) REQUIRE_P(&c.back() == c(m.size() - 1), what << ": last element");
  }
}
static void CheckAll(const std::vector<std::unique_ptr<Derived>> &ds, const std::vector<Model> &ms) {
  std::set<const void *> owned;
  for (size_t k = 0; k < ds.size(); ++k) {
    if (!ds[k]) continue;
    Compare(*ds[k], ms[k], ("container " + std::to_string(k)).c_str(), true);
    const DV &c = *ds[k];
    for (size_t i = 0; i < c.size(); ++i) if (c(i)) REQUIRE_P(owned.insert(c(i)).second, "element " << i << " of container " << k << " is shared with another slot");
  }
  REQUIRE_P(owned.size() == Live().size(), Live().size() - owned.size() << " element(s) live that no container owns (leak)");
}
static size_t Slot(Rng &r, size_t n) { return r.chance(1, 6) ? 0 : (r.chance(1, 6) ? n - 1 : r.below(n)); }

template<bool kOwn> void History(Rng &r) {
  Live().clear();
  {
    std::vector<std::unique_ptr<Derived>> ds;
    std::vector<Model> ms;
    size_t nd = kOwn ? r.range(1, 4) : 1;
    for (size_t k = 0; k < nd; ++k) {
      size_t n = r.chance(1, 15) ? 0 : fz::Size(r, 1, 7, 200);
      ds.emplace_back(new Derived(n));
      ms.emplace_back(n);
      NOTE("container " << k << " of " << n << " slots");
    }
    CheckAll(ds, ms);
    size_t ops = r.chance(1, 10) ? 120 : r.range(1, 25);
    for (size_t q = 0; q < ops; ++q) {
      size_t k = r.below(ds.size());
      DV &d = *ds[k];
      Model &m = ms[k];
      size_t n = m.size();
      int op = (int) r.below(kOwn ? 16 : 9);
      if (op < 9 && n == 0) { if (op == 5) { NOTE("clear " << k); d.clear(); } continue; }
      size_t i = n ? Slot(r, n) : 0;
      long v = fz::Value(r, 1, 1000);
      switch (op) {
        case 0: case 1: NOTE("container " << k << " [" << i << "] = " << v); d[i] = Elem(v); m[i].reset(new long(v)); break;
        case 2: NOTE("container " << k << " read [" << i << "]"); { long g = d[i].Get(); if (!m[i]) m[i].reset(new long(0)); REQUIRE_P(g == *m[i], "slot " << i << " reads " << g << " instead of " << *m[i]); } break;
        case 3: NOTE("container " << k << " alloc " << i); d.alloc(i); m[i].reset(new long(0)); break;
        case 4: NOTE("container " << k << " dealloc " << i); d.dealloc(i); m[i].reset(); break;
        case 5: if (r.chance(1, 3)) { NOTE("container " << k << " clear"); d.clear(); for (auto &x : m) x.reset(); } break;
        case 6: if (!d(i)) { NOTE("container " << k << " (" << i << ") = new " << v); d(i) = new Elem(v); m[i].reset(new long(v)); } else { NOTE("container " << k << " take (" << i << ")"); delete d(i); d(i) = nullptr; m[i].reset(); } break;
        case 7: if (m[0]) { NOTE("container " << k << " front = " << v); d.front() = Elem(v); *m[0] = v; } break;
        case 8: if (m.back()) { NOTE("container " << k << " back = " << v); d.back() = Elem(v); *m.back() = v; } break;
        case 9: if (ds.size() < 7) { NOTE("new container copied from " << k); ds.emplace_back(new Derived(*ds[k])); ms.push_back(Copy(ms[k])); } break;
        case 10: if (ds.size() < 7) { NOTE("new container moved from " << k); ds.emplace_back(new Derived(std::move(*ds[k]))); ms.push_back(std::move(ms[k])); NOTE("moved-from container " << k << " dropped"); ds.erase(ds.begin() + k); ms.erase(ms.begin() + k); } break;
        case 11: case 12: { size_t t = r.below(ds.size()); NOTE("container " << t << " = container " << k); *ds[t] = *ds[k]; if (t != k) ms[t] = Copy(ms[k]); } break;
        case 13: { size_t t = r.below(ds.size()); if (t == k) { NOTE("container " << k << " moved onto itself"); Derived &self = *ds[k]; self = std::move(*ds[k]); } else { NOTE("container " << t << " = moved container " << k << ", which is dropped"); *ds[t] = std::move(*ds[k]); ms[t] = std::move(ms[k]); REQUIRE_P(ds[k]->empty(), "container " << k << " still owns elements after it was moved from"); ds.erase(ds.begin() + k); ms.erase(ms.begin() + k); } } break;
        case 14: { size_t t = r.below(ds.size()); NOTE("container " << k << " = container " << k << "; and " << t << " swapped with " << k); Derived &self = *ds[k]; self = *ds[k]; std::swap(*ds[t], *ds[k]); std::swap(ms[t], ms[k]); } break;
        case 15: if (ds.size() > 1) { NOTE("container " << k << " destroyed"); if (r.chance(1, 2)) { DV *b = ds[k].release(); delete b; } ds.erase(ds.begin() + k); ms.erase(ms.begin() + k); } break;
      }
      CheckAll(ds, ms);
    }
  }
  REQUIRE_P(Live().empty(), Live().size() << " element(s) never released");
}
int main(int argc, char **argv) {
  return fz::Main(argc, argv, {{"own", History<true>}, {"slots", History<false>}});
}
