// Cost expressions: random trees, their text as tokens, their value under several bindings.
#include "drv.h"
#include "libspu/core/cexpr.h"
using namespace drv;
using namespace spu::ce;
static const std::vector<std::string> kNames = {"K", "N", "n", "a", "m_1", "logn"};
struct T { CExpr e; std::string js; bool is_const = false; u64 c = 0; int depth = 0; };
static u64 Cst() { return Coin(70) ? R(20) : Coin() ? 1ULL << R(40) : rng() >> R(64); }
static T Leaf() {
  T t;
  if (Coin(40)) { t.c = Cst(); t.is_const = true; t.e = Const(t.c); t.js = "{\"o\":\"c\",\"w\":" + W(t.c, 8) + "}"; return t; }
  auto n = Pick(kNames);
  t.e = n == "K" && Coin() ? K() : n == "N" && Coin() ? N() : Variable(n, "d");
  t.js = "{\"o\":\"v\",\"n\":\"" + n + "\"}";
  return t;
}
static T Tree(int d) {
  if (d == 0 || Coin(10)) return Leaf();
  if (Coin(18)) { T a = Tree(d - 1), t; t.e = a.is_const && Coin() ? Log(static_cast<spu::ce::Value>(a.c)) : Log(a.e); t.js = "{\"o\":\"log\",\"l\":" + a.js + "}"; return t; }
  T a = Tree(Coin() ? d - 1 : static_cast<int>(R(d))), b = Tree(d - 1), t;
  int v = b.is_const && Coin() ? 1 : a.is_const && Coin() ? 2 : 0;
  const char* o;
  spu::ce::Value ac = a.c, bc = b.c;
  switch (R(3)) {
    case 0: o = "+"; t.e = v == 1 ? a.e + bc : v == 2 ? ac + b.e : a.e + b.e; break;
    case 1: o = "-"; t.e = v == 1 ? a.e - bc : v == 2 ? ac - b.e : a.e - b.e; break;
    default: o = "*"; t.e = v == 1 ? a.e * bc : v == 2 ? ac * b.e : a.e * b.e; break;
  }
  t.js = std::string("{\"o\":\"") + o + "\",\"l\":" + a.js + ",\"r\":" + b.js + "}";
  return t;
}
static std::string Tokens(const std::string& s) {
  std::string r = "[";
  size_t i = 0;
  auto add = [&](const std::string& x) { if (r.size() > 1) r += ','; r += x; };
  while (i < s.size()) {
    if (s[i] == ' ') { ++i; continue; }
    if (isdigit(static_cast<unsigned char>(s[i]))) { u64 v = 0; while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) v = v * 10 + (s[i++] - '0'); add("{\"k\":\"num\",\"w\":" + W(v, 8) + "}"); continue; }
    if (isalpha(static_cast<unsigned char>(s[i])) || s[i] == '_') { std::string n; while (i < s.size() && (isalnum(static_cast<unsigned char>(s[i])) || s[i] == '_')) n += s[i++]; add("{\"k\":\"name\",\"n\":\"" + n + "\"}"); continue; }
    add("{\"k\":" + J::esc(std::string(1, s[i++])) + "}");
  }
  return r + "]";
}
int main(int argc, char** argv) {
  Open(argc, argv);
  int n = argc > 3 ? atoi(argv[3]) : 400;
  for (int it = 0; it < n; ++it) {
    T t = Tree(static_cast<int>(R(6)));
    std::string evs = "[";
    for (int b = 0; b < 4; ++b) {
      Params p; std::string env = "[";
      for (auto& nm : kNames) {
        if (b == 3 && Coin(40)) continue;
        u64 v = b == 0 ? (nm == "K" ? 64 : nm == "N" ? 3 : R(10) + 1) : Cst();
        p[nm] = v;
        env += (env.size() > 1 ? "," : "") + std::string("{\"n\":\"") + nm + "\",\"w\":" + W(v, 8) + "}";
      }
      u64 v = 0; bool threw = false;
      try { v = t.e->eval(p); } catch (const std::exception&) { threw = true; }
      evs += (b ? "," : "") + std::string("{\"env\":") + env + "],\"threw\":" + (threw ? "true" : "false") + ",\"v\":" + W(v, 8) + "}";
    }
    auto text = t.e->expr();
    NewCase();
    J("cexpr").raw("tree", t.js).str("s", text).raw("text", Tokens(text)).raw("evals", evs + "]");
  }
  Close();
}
