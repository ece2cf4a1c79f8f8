// Parameter files against an oracle that knows the generated document (not the JSON library).
#include "common.h"
#include <csetjmp>
#include <cmath>
#include <fstream>
#include <limits>
#include "qlmps/case_params_parser.h"
using fz::Rng;
using qlmps::CaseParamsParserBasic;

static std::jmp_buf jb;
static bool armed = false;
extern "C" void exit(int c) __THROW;
void exit(int c) noexcept {
  if (armed) { armed = false; std::longjmp(jb, c == 0 ? 1000 : 1); }
  std::fflush(nullptr);
  fz::OnExit();
  _exit(c);
}

enum K { NUL, BOO, INTG, REAL, STRG, ARR, OBJ };
struct Val { K k = NUL; bool b = false; bool neg = false; unsigned long long mag = 0; double d = 0; std::string s; std::vector<Val> a; std::vector<std::pair<std::string, Val>> o; };

static std::string Quote(const std::string &s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else r += c;
  }
  return r + "\"";
}
static std::string Text(const Val &v) {
  std::ostringstream o;
  switch (v.k) {
    case NUL: return "null";
    case BOO: return v.b ? "true" : "false";
    case INTG: o << (v.neg ? "-" : "") << v.mag; return o.str();
    case REAL: { char b[64]; std::snprintf(b, 64, "%.17g", v.d); std::string s = b; if (s.find_first_of(".en") == std::string::npos) s += ".0"; return s; }
    case STRG: return Quote(v.s);
    case ARR: { std::string s = "["; for (size_t i = 0; i < v.a.size(); ++i) s += (i ? "," : "") + Text(v.a[i]); return s + "]"; }
    case OBJ: { std::string s = "{"; for (size_t i = 0; i < v.o.size(); ++i) s += (i ? "," : "") + Quote(v.o[i].first) + ":" + Text(v.o[i].second); return s + "}"; }
  }
  return "";
}
static Val Num(Rng &r) {
  Val v;
  if (r.chance(2, 3)) {
    v.k = INTG;
    static const unsigned long long B[] = {0, 1, 2147483646ull, 2147483647ull, 2147483648ull, 2147483649ull, 4294967295ull, 4294967296ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull, 127, 128, 255, 256};
    v.mag = r.chance(1, 3) ? B[r.below(15)] : (unsigned long long) fz::Value(r, 0, 60);
    v.neg = r.chance(1, 3) && v.mag && v.mag <= 9223372036854775808ull;
    if (r.chance(1, 12)) v.mag ^= r.below(3);
    if (v.neg && (v.mag > 9223372036854775808ull || !v.mag)) v.neg = false;
  } else {
    v.k = REAL;
    static const double B[] = {0.0, 1.0, 2.5, -0.5, 1e300, 1e-300, 3.0, -7.0, 0.1, 1e20};
    v.d = r.chance(1, 2) ? B[r.below(10)] : (double) r.range(-1000, 1000) / 8.0;
  }
  return v;
}
static std::string Word(Rng &r) {
  static const char *W[] = {"", "a", "L", "Lx", "Sweeps", "model", "true", "1", "ab\"c", "x\\y", "CaseParams", "two\nlines", "D", "0"};
  if (r.chance(5, 6)) return W[r.below(14)];
  std::string s;
  size_t n = fz::Size(r, 1, 20, 3000);
  bool any = r.chance(1, 3);
  for (size_t i = 0; i < n; ++i) {
    if (any && r.chance(1, 8)) s += r.chance(1, 2) ? "\xc3\xa9" : "\t";
    else s += (char) (any ? r.range(32, 126) : r.range('a', 'z'));
  }
  return s;
}
static Val Gen(Rng &r, int depth) {
  Val v;
  switch (r.below(depth > 0 ? 9 : 6)) {
    case 0: return v;
    case 1: v.k = BOO; v.b = r.chance(1, 2); return v;
    case 2: case 3: return Num(r);
    case 4: case 5: v.k = STRG; v.s = Word(r); return v;
    case 8: v.k = OBJ; if (r.chance(1, 2)) v.o.push_back({"k", Gen(r, 0)}); return v;
    default: {
      v.k = ARR;
      size_t n = depth > 1 && r.chance(1, 10) ? fz::Size(r, 0, 8, 400) : r.below(5);
      int kind = (int) r.below(4);
      for (size_t i = 0; i < n; ++i) {
        if (kind == 0) v.a.push_back(Gen(r, depth - 1));
        else if (kind == 1) { Val x; x.k = INTG; x.mag = r.below(100); x.neg = x.mag && r.chance(1, 5); v.a.push_back(x); }
        else v.a.push_back(Num(r));
      }
      if (n && kind && r.chance(1, 4)) v.a[r.below(n)] = Gen(r, 0);
      return v;
    }
  }
}
// ---- the oracle: does the value hold the type, and which C++ value is it
static bool Is(const Val &v, int &o) {
  if (v.k != INTG) return false;
  if (v.neg ? v.mag > 2147483648ull : v.mag > 2147483647ull) return false;
  o = (int) (v.neg ? -(long long) v.mag : (long long) v.mag);
  return true;
}
static bool Is(const Val &v, size_t &o) { if (v.k != INTG || v.neg) return false; o = v.mag; return true; }
static bool Is(const Val &v, double &o) {
  if (v.k == INTG) { o = v.neg ? -(double) v.mag : (double) v.mag; return true; }
  if (v.k == REAL) { o = v.d; return true; }
  return false;
}
static bool Is(const Val &v, bool &o) { o = v.b; return v.k == BOO; }
static bool Is(const Val &v, std::string &o) { o = v.s; return v.k == STRG; }
static bool Is(const Val &v, char &o) { o = v.s.empty() ? '\0' : v.s[0]; return v.k == STRG; }
template <class T> static bool Is(const Val &v, std::vector<T> &o) {
  o.clear();
  if (v.k != ARR) return false;
  for (auto &x : v.a) { T t; if (!Is(x, t)) return false; o.push_back(t); }
  return true;
}
template <class T> static std::string Show(const T &v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
static std::string Show(char v) { return std::to_string((int) v); }
template <class T> static std::string Show(const std::vector<T> &v) { std::string s = "["; for (auto x : v) s += Show((T) x) + " "; return s + "]"; }

// outcome of a read: 0 value, 1 process ended with an error, 2 exception
template <class F> static int Try(F f) {
  armed = true;
  int j = setjmp(jb);
  if (j == 0) {
    try { f(); } catch (const std::exception &) { armed = false; return 2; }
    armed = false;
    return 0;
  }
  if (j == 1000) fz::Fail("the process is ended with a success status");
  return 1;
}
static void Write(const std::string &t) { FILE *f = std::fopen("params.json", "w"); std::fwrite(t.data(), 1, t.size(), f); std::fclose(f); }

struct Section { std::vector<std::pair<std::string, Val>> m; const Val *Find(const std::string &k) const { for (auto &p : m) if (p.first == k) return &p.second; return nullptr; } };

static std::string keys[6] = {"L", "Sweeps", "", "CaseParams", "model", "D_max"};

template <class T> static void Strict(CaseParamsParserBasic &p, const Section &s, const std::string &key, T (CaseParamsParserBasic::*f)(const std::string &), const char *nm) {
  const Val *v = s.Find(key);
  T want{};
  bool ok = v && Is(*v, want);
  static T got;
  got = T{};
  NOTE("Parse" << nm << "(\"" << key << "\")");
  int oc = Try([&] { got = (p.*f)(key); });
  REQUIRE_P(oc != 2, "Parse" << nm << " lets an exception out");
  if (ok) {
    REQUIRE_P(oc == 0, "Parse" << nm << " ends the program though the value is there");
    REQUIRE_P(got == want, "Parse" << nm << " returns " << Show(got) << " instead of " << Show(want));
  } else REQUIRE_P(oc == 1, "Parse" << nm << " returns " << Show(got) << " though the " << (v ? "value is of another kind" : "name is missing"));
}
template <class T, class D> static void Or(Rng &r, CaseParamsParserBasic &p, const Section &s, const std::string &key, T (CaseParamsParserBasic::*f)(const std::string &, D), const char *nm, T def) {
  const Val *v = s.Find(key);
  T want = def;
  bool ok = !v || Is(*v, want);
  static T got;
  got = T{};
  NOTE("Parse" << nm << "Or(\"" << key << "\", " << Show(def) << ")");
  int oc = Try([&] { got = (p.*f)(key, def); });
  REQUIRE_P(oc != 2, "Parse" << nm << "Or lets an exception out");
  if (ok) {
    REQUIRE_P(oc == 0, "Parse" << nm << "Or ends the program");
    REQUIRE_P(got == want, "Parse" << nm << "Or returns " << Show(got) << " instead of " << Show(want));
  } else REQUIRE_P(oc == 1, "Parse" << nm << "Or returns " << Show(got) << " though the value is of another kind");
}
template <class T> static void Tent(CaseParamsParserBasic &p, const Section &s, const std::string &key, bool (CaseParamsParserBasic::*f)(const std::string &, T &) const, const char *nm, T def) {
  const Val *v = s.Find(key);
  T want{};
  bool ok = v && Is(*v, want);
  static T got;
  got = def;
  bool res = false;
  NOTE("TryParse" << nm << "(\"" << key << "\")");
  int oc = Try([&] { res = (p.*f)(key, got); });
  REQUIRE_P(oc == 0, "TryParse" << nm << (oc == 1 ? " ends the program" : " lets an exception out"));
  REQUIRE_P(res == ok, "TryParse" << nm << " reports " << res << " for a " << (v ? "present" : "missing") << " name");
  if (ok) REQUIRE_P(got == want, "TryParse" << nm << " delivers " << Show(got) << " instead of " << Show(want));
  else REQUIRE_P(got == def, "TryParse" << nm << " changes its target on failure to " << Show(got));
}

static void Run(Rng &r, bool optional) {
  Section s;
  for (auto &k : keys) if (r.chance(3, 5)) s.m.push_back({k, Gen(r, 2)});
  Val sec;
  sec.k = OBJ;
  sec.o = s.m;
  Val doc;
  doc.k = OBJ;
  int shape = (int) r.below(20);
  if (r.chance(1, 2)) doc.o.push_back({"L", Gen(r, 1)});
  if (shape != 0) doc.o.push_back({"CaseParams", shape == 1 ? Gen(r, 1) : sec});
  if (r.chance(1, 2)) { Val x; x.k = OBJ; x.o.push_back({"L", Gen(r, 1)}); doc.o.push_back({"Other", x}); }
  if (shape == 2) doc = Gen(r, 1);
  std::string text = Text(doc);
  bool bad = shape == 3;
  if (bad) text = text.substr(0, r.below(text.size()));
  if (r.chance(1, 3)) { std::string t; for (char c : text) t += c; text = " \n" + t + "\n"; }
  bool nofile = shape == 4;
  if (nofile) std::remove("params.json"); else Write(text);
  NOTE("file: " << (nofile ? "(none)" : text));
  const Val *found = nullptr;
  if (doc.k == OBJ) for (auto &p : doc.o) if (p.first == "CaseParams") found = &p.second;
  static CaseParamsParserBasic *p;
  p = nullptr;
  int oc = Try([&] { p = new CaseParamsParserBasic("params.json"); });
  if (nofile) { REQUIRE_P(oc == 1, "a missing file is not reported"); return; }
  if (bad) {
    // a truncated object or array never closes
    if (text.empty() || text.find_first_of("{[") == text.find_first_not_of(" \n")) REQUIRE_P(oc != 0, "a truncated file is accepted");
    delete p;
    return;
  }
  if (!found) { REQUIRE_P(oc == 1, "a file without parameter section is accepted (outcome " << oc << ")"); return; }
  REQUIRE_P(oc == 0, "a good file is refused");
  s.m.clear();
  if (found->k == OBJ) s.m = found->o;
  int n = (int) r.range(1, 12);
  for (int i = 0; i < n; ++i) {
    std::string key = r.chance(1, 12) ? Word(r) : keys[r.below(6)];
    int t = (int) r.below(8);
    if (!optional) {
      using P = CaseParamsParserBasic;
      switch (t) {
        case 0: Strict<int>(*p, s, key, &P::ParseInt, "Int"); break;
        case 1: Strict<double>(*p, s, key, &P::ParseDouble, "Double"); break;
        case 2: Strict<char>(*p, s, key, &P::ParseChar, "Char"); break;
        case 3: Strict<std::string>(*p, s, key, &P::ParseStr, "Str"); break;
        case 4: Strict<bool>(*p, s, key, &P::ParseBool, "Bool"); break;
        case 5: Strict<std::vector<int>>(*p, s, key, &P::ParseIntVec, "IntVec"); break;
        case 6: Strict<std::vector<size_t>>(*p, s, key, &P::ParseSizeTVec, "SizeTVec"); break;
        case 7: Strict<std::vector<double>>(*p, s, key, &P::ParseDoubleVec, "DoubleVec"); break;
      }
      continue;
    }
    using P = CaseParamsParserBasic;
    NOTE("Has(\"" << key << "\")");
    REQUIRE_P(p->Has(key) == (s.Find(key) != nullptr), "presence of \"" << key << "\" misreported");
    bool tent = r.chance(1, 2);
    int di = (int) r.range(-5, 5);
    std::vector<int> dv(r.below(3), di);
    std::vector<size_t> ds(r.below(3), 7);
    std::vector<double> dd(r.below(3), 0.25);
    switch (t) {
      case 0: tent ? Tent<int>(*p, s, key, &P::TryParseInt, "Int", di) : Or<int, int>(r, *p, s, key, &P::ParseIntOr, "Int", di); break;
      case 1: tent ? Tent<double>(*p, s, key, &P::TryParseDouble, "Double", 0.5) : Or<double, double>(r, *p, s, key, &P::ParseDoubleOr, "Double", -0.5); break;
      case 2: tent ? Tent<char>(*p, s, key, &P::TryParseChar, "Char", 'q') : Or<char, char>(r, *p, s, key, &P::ParseCharOr, "Char", 'z'); break;
      case 3: tent ? Tent<std::string>(*p, s, key, &P::TryParseStr, "Str", "dflt") : Or<std::string, const std::string &>(r, *p, s, key, &P::ParseStrOr, "Str", "dflt"); break;
      case 4: tent ? Tent<bool>(*p, s, key, &P::TryParseBool, "Bool", di > 0) : Or<bool, bool>(r, *p, s, key, &P::ParseBoolOr, "Bool", di > 0); break;
      case 5: tent ? Tent<std::vector<int>>(*p, s, key, &P::TryParseIntVec, "IntVec", dv) : Or<std::vector<int>, const std::vector<int> &>(r, *p, s, key, &P::ParseIntVecOr, "IntVec", dv); break;
      case 6: tent ? Tent<std::vector<size_t>>(*p, s, key, &P::TryParseSizeTVec, "SizeTVec", ds) : Or<std::vector<size_t>, const std::vector<size_t> &>(r, *p, s, key, &P::ParseSizeTVecOr, "SizeTVec", ds); break;
      case 7: tent ? Tent<std::vector<double>>(*p, s, key, &P::TryParseDoubleVec, "DoubleVec", dd) : Or<std::vector<double>, const std::vector<double> &>(r, *p, s, key, &P::ParseDoubleVecOr, "DoubleVec", dd); break;
    }
  }
  delete p;
}
static void Required(Rng &r) { Run(r, false); }
static void Optional(Rng &r) { Run(r, true); }
int main(int argc, char **argv) {
  std::cerr.rdbuf(nullptr);
  return fz::Main(argc, argv, {{"strict", Required}, {"optional", Optional}});
}
