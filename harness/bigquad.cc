// Quadrature rules in a number type of many digits (C29): nodes, weights and sums of monomials.
#define HAVE_GMP 1
#include <config.h>
#include <dune/common/gmpfield.hh>
#include <dune/geometry/quadraturerules.hh>
#include "rec.hh"

using namespace rec;
using Dune::GeometryType;
namespace QT = Dune::QuadratureType;
using F = Dune::GMPField<420>;

// the eighty digits behind the point (and what is before it), four at a time, lowest first
static std::string digits(const mpf_class& v)
{
  static const mpf_class scale("1e80", 600);
  mpf_class s(v, 900);
  s *= scale;
  s += 0.5;
  s = floor(s);
  mpz_class z(s);
  if (z < 0) return "[-1]";
  std::vector<int> limbs;
  while (z > 0) { mpz_class r = z % 10000; limbs.push_back(int(r.get_si())); z /= 10000; }
  return ints(limbs);
}

template<int m>
void rules(Trace& tr, Rng& rng, unsigned id, QT::Enum qt, int top, int step)
{
  const GeometryType gt(id, m);
  const int max = int(Dune::QuadratureRules<F, m>::maxOrder(gt, qt));
  for (int p = -1; p <= max + 2; p += (p < 4 || p >= top ? 1 : step)) {
    // beyond the top only what is refused or not is of interest, and that only at the end of the range
    if (p > top && p < max - 1) continue;
    Event e("bigrule");
    e.i("m", m).i("id", id).i("qt", int(qt)).i("p", p).i("max", max);
    try {
      const auto& rule = Dune::QuadratureRules<F, m>::rule(gt, p, qt);
      e.str("out", "rule").i("order", rule.order()).i("size", rule.size());
      std::vector<std::string> walks;
      if (p <= top) for (int w = 0; w < (m == 1 ? 1 : 3); ++w) {
        std::vector<int> dirs;
        std::vector<std::string> sums;
        std::vector<mpf_class> v;
        for (auto& q : rule) v.push_back(mpf_class(q.weight(), 600));
        for (int k = 0; k <= rule.order(); ++k) {
          mpf_class s(0, 600);
          for (auto& x : v) s += x;
          sums.push_back(digits(s));
          if (k == rule.order()) break;
          const int d = w < m && w < 1 ? (k % m) : int(rng.next() % m);
          dirs.push_back(d + 1);
          for (std::size_t i = 0; i < v.size(); ++i) v[i] *= rule[i].position()[d];
        }
        walks.push_back("[" + ints(dirs) + "," + list(sums) + "]");
      }
      e.raw("walks", list(walks));
    } catch (const Dune::Exception&) { e.str("out", "refused"); }
    tr.put(e);
  }
}

static std::string points(const Dune::QuadratureRule<F, 1>& rule)
{
  std::vector<std::string> r;
  for (auto& q : rule) r.push_back("[" + digits(q.position()[0]) + "," + digits(q.weight()) + "]");
  return list(r);
}

static void lines(Trace& tr)
{
  for (int q : {0, 1, 2, 4, 5, 6}) {
    const QT::Enum qt = QT::Enum(q), other = q == 5 ? QT::Enum(6) : q == 6 ? QT::Enum(5) : qt;
    const GeometryType gt = Dune::GeometryTypes::line;
    const int max = int(Dune::QuadratureRules<F, 1>::maxOrder(gt, qt));
    for (int p = 0; p <= max; ++p) {
      const auto& rule = Dune::QuadratureRules<F, 1>::rule(gt, p, qt);
      const auto& mirror = Dune::QuadratureRules<F, 1>::rule(gt, p, other);
      tr.put(Event("bigline").i("qt", q).i("p", p).i("order", rule.order()).raw("pts", points(rule)).raw("mirror", points(mirror)));
    }
  }
}

int main(int argc, char** argv)
{
  Options o = options(argc, argv);
  Trace tr(o.out + "/trace.ndjson");
  Rng rng(o.seed * 17 + 3);
  lines(tr);
  for (int q = 0; q < 7; ++q) rules<1>(tr, rng, 1, QT::Enum(q), 200, 1);
  for (int q : {0, 4, 5, 6}) {
    rules<2>(tr, rng, 3, QT::Enum(q), o.thorough ? 61 : 30, o.thorough ? 1 : 3);
    rules<3>(tr, rng, 7, QT::Enum(q), o.thorough ? 24 : 12, o.thorough ? 1 : 2);
  }
  // a cone over a cube
  rules<3>(tr, rng, 3, QT::GaussLegendre, o.thorough ? 24 : 12, o.thorough ? 1 : 2);
  // only what is on offer
  for (unsigned id : {0u, 3u}) rules<2>(tr, rng, id, QT::GaussJacobi_n_0, -2, 6);
  for (unsigned id : {0u, 3u, 5u, 7u}) rules<3>(tr, rng, id, QT::GaussJacobi_n_0, -2, 6);
  return 0;
}
