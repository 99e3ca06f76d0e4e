// Cached multilinear geometries (C08): replays histories and records every answer.
#include <config.h>
#include <utility>
#include <dune/geometry/multilineargeometry.hh>
#include "geo.hh"

using namespace geo;
using Steps = std::vector<std::vector<int>>;

template<class ct, int m, int c>
struct Replay
{
  using G = Dune::CachedMultiLinearGeometry<ct, m, c>;
  unsigned id[4];
  Points corners[4];      // geometries 1,2 affine, 3 not
  Points pts[4];          // two points per geometry
  static constexpr int den = 4;

  Replay(unsigned bent, unsigned seed)
  {
    Rng rng(seed * 31 + m * 7 + c);
    for (int g = 1; g <= 3; ++g) {
      id[g] = g == 3 ? bent : g == 2 ? 0 : (1u << m) - 1;
      Ints org(c);
      for (auto& v : org) v = rng.in(-9, 9);
      auto ref = refCorners<m>(id[g]);
      // 3 shall not be affine
      corners[g] = image<m, c>(ref, frame<m, c>(rng, g == 3 ? 12 : 5, 1), org, 0, rng);
      if (g == 3) { corners[g].back()[0] += 1; corners[g].back()[c - 1] -= 1; corners[g][1][0] += 1; }
      for (auto& p : points<m>(id[g], den, 40, rng, false))
        if (pts[g].size() < 2) { bool corner = true; for (int v : p) if (v % den) corner = false; if (!corner) pts[g].push_back(p); }
      while (pts[g].size() < 2) pts[g].push_back(Ints(m, 0));
    }
  }

  G make(int g, int how) const
  {
    std::vector<Dune::FieldVector<ct, c>> v;
    for (auto& x : corners[g]) v.push_back(point<c, ct>(x, 1));
    if (how) return G(GeometryType(id[g], m), v);
    return G(Dune::ReferenceElements<ct, m>::general(GeometryType(id[g], m)), v);
  }

  static std::string ask(const G& g, int q, const Dune::FieldVector<ct, m>& x)
  {
    switch (q) {
    case 0: return rec::nums(g.global(x), c);
    // the preimage of the image, taken from a geometry without any cache
    case 1: return rec::nums(g.local(static_cast<const Dune::MultiLinearGeometry<ct, m, c>&>(g).global(x)), m);
    case 2: return "[" + rec::num(g.integrationElement(x)) + "]";
    case 3: return dense(g.jacobianTransposed(x), m, c);
    case 4: { auto j = g.jacobianInverseTransposed(x); return "[" + dense(j, c, m) + "," + rec::num(j.detInv()) + "]"; }
    case 5: return "[" + rec::num(g.volume()) + "]";
    case 6: return rec::nums(g.center(), c);
    case 7: return "[" + rec::boolean(g.affine()) + "]";
    case 8: return dense(g.jacobian(x), c, m);
    case 9: return dense(g.jacobianInverse(x), m, c);
    }
    return "[]";
  }

  void run(Trace& tr, const std::vector<int>& start, const Steps& steps, int no) const
  {
    std::vector<G> reg;
    std::vector<int> which;
    for (int g : start) { reg.push_back(make(g, no % 2)); which.push_back(g); }
    std::vector<std::string> log;
    auto query = [&](int q, int r, int p) {
      const auto x = point<m, ct>(pts[which[r]][p], den);
      log.push_back("{\"s\":[" + std::to_string(q) + "," + std::to_string(r + 1) + "],\"p\":" + std::to_string(p + 1) + ",\"a\":" + ask(reg[r], q, x) + "}");
    };
    int p = no;
    for (auto& s : steps) {
      const int r = s[1] - 1;
      if (s[0] < 10) { query(s[0], r, ++p % 2); continue; }
      std::string t = "{\"s\":" + rec::ints(s) + ",\"p\":0,\"a\":[]}";
      if (s[0] == 14) { reg[r] = make(s[2], no % 2); which[r] = s[2]; }
      else {
        const int o = s[2] - 1;
        if (s[0] == 12) { std::swap(reg[r], reg[o]); std::swap(which[r], which[o]); }
        else if (s[0] == 11) { reg[r] = reg[o]; which[r] = which[o]; }
        else if (s[0] == 10) {
          G copy(reg[o]);
          std::vector<G> n;
          for (int k = 0; k < int(reg.size()); ++k) n.push_back(k == r ? copy : reg[k]);
          reg.swap(n);
          which[r] = which[o];
        }
        else { G copy(reg[o]); reg[r] = std::move(copy); which[r] = which[o]; }
      }
      log.push_back(t);
    }
    // ask everything, in an order that depends on the history
    for (int r = 0; r < 2; ++r)
      for (int k = 0; k < 10; ++k) query((k * 3 + no) % 10, r, ++p % 2);
    std::vector<std::string> gs;
    for (int g = 1; g <= 3; ++g)
      gs.push_back("{\"id\":" + std::to_string(id[g]) + ",\"corners\":" + intsOf(corners[g]) + ",\"pts\":" + intsOf(pts[g]) + "}");
    Event e("cached");
    e.str("ct", ctName<ct>()).i("m", m).i("c", c).i("den", den).raw("geos", rec::list(gs)).ints("start", start).raw("log", rec::list(log));
    tr.put(e);
  }
};

int main(int argc, char** argv)
{
  rec::Options o = rec::options(argc, argv);
  Trace tr(o.out + "/trace.ndjson");
  std::ifstream in(o.out + "/histories.txt");
  if (!in) return 3;
  const Replay<double, 2, 2> r22(3, o.seed);
  const Replay<double, 2, 3> r23(3, o.seed + 1);
  const Replay<double, 3, 3> r33(5, o.seed + 2);
  const Replay<double, 3, 3> p33(3, o.seed + 3);
  const Replay<float, 2, 2> f22(3, o.seed + 4);
  const Replay<double, 1, 1> r11(1, o.seed + 5);
  const Replay<double, 1, 3> r13(1, o.seed + 6);
  const Replay<double, 3, 3> h33(7, o.seed + 7);
  const Replay<double, 3, 4> r34(7, o.seed + 8);
  std::vector<Steps> before;
  std::string line;
  int no = 0;
  while (std::getline(in, line)) {
    // [[start],[[..],[..]]]
    std::vector<std::vector<int>> rows;
    std::vector<int> cur;
    std::string num;
    auto flush = [&] { if (!num.empty()) { cur.push_back(std::atoi(num.c_str())); num.clear(); } };
    for (char ch : line) {
      if (ch == '[') flush();
      else if (ch == ']') { flush(); if (!cur.empty()) { rows.push_back(cur); cur.clear(); } }
      else if (ch == ',') flush();
      else if (ch != ' ') num += ch;
    }
    if (rows.empty()) return 3;
    Steps steps(rows.begin() + 1, rows.end());
    // some histories are continued by a few of the earlier ones
    const unsigned mix = unsigned((no + o.seed) * 2654435761u) >> 8;
    const Steps own = steps;
    if (mix % 8 == 0)
      for (auto& more : before) steps.insert(steps.end(), more.begin(), more.end());
    switch (mix / 8 % 9) {
    case 0: r22.run(tr, rows[0], steps, no); break;
    case 1: r23.run(tr, rows[0], steps, no); break;
    case 2: r33.run(tr, rows[0], steps, no); break;
    case 3: p33.run(tr, rows[0], steps, no); break;
    case 4: f22.run(tr, rows[0], steps, no); break;
    case 5: r11.run(tr, rows[0], steps, no); break;
    case 6: r13.run(tr, rows[0], steps, no); break;
    case 7: h33.run(tr, rows[0], steps, no); break;
    case 8: r34.run(tr, rows[0], steps, no); break;
    }
    if (before.size() < 5) before.push_back(own);
    else before[mix / 72 % 5] = own;
    ++no;
  }
  return 0;
}
