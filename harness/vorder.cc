// Vertex orders: reduction of sequences, order on every sub-entity of every element (C21).
#include <config.h>
#include <algorithm>
#include <forward_list>
#include <list>
#include <numeric>
#include <dune/geometry/generalvertexorder.hh>
#include <dune/geometry/type.hh>
#include "rec.hh"
using namespace rec;
using Dune::GeometryType;

// what stands for the numbers 0, 1, 2, ... in a call; keeps the order
template<class T>
T stand(int v, int how)
{
  switch (how) {
  case 0: return T(v);
  case 1: return T(3 * v + 5);
  case 2: return T(std::numeric_limits<T>::max() - T(100) + T(v));
  case 3: return T(std::numeric_limits<T>::min() + T(7 * v));
  default: {                              // far apart, the low digits falling
    using U = std::make_unsigned_t<T>;
    return T(U(U(std::numeric_limits<T>::min()) + U(v) * U(std::numeric_limits<U>::max() / 16) + U(15 - v)));
  }
  }
}

template<class T, class C, class Out>
void reduce(Trace& tr, const std::vector<int>& ids, int how)
{
  C in;
  for (auto it = ids.rbegin(); it != ids.rend(); ++it) in.insert(in.begin(), stand<T>(*it, how));
  std::vector<Out> out(ids.size() + 1, Out(77));
  const C& cin = in;
  Dune::reduceOrder(cin.begin(), cin.end(), out.begin());
  Event e("reduce");
  e.ints("ids", ids).ints("out", std::vector<Out>(out.begin(), out.end() - 1));
  tr.put(e);
}

template<class T>
struct FrontList : std::forward_list<T>
{
  template<class I> void insert(I, T v) { this->push_front(v); }
};

void sequences(Trace& tr, int top)
{
  int count = 0;
  for (int n = 0; n <= top; ++n) {
    std::vector<int> s(n, 0);
    for (;;) {
      const int how = (count / 5) % 5;
      switch (count++ % 5) {
      case 0: reduce<int, std::vector<int>, int>(tr, s, how); break;
      case 1: reduce<std::size_t, std::list<std::size_t>, std::size_t>(tr, s, how); break;
      case 2: reduce<long, FrontList<long>, int>(tr, s, how); break;
      case 3: reduce<unsigned, std::vector<unsigned>, unsigned char>(tr, s, how); break;
      default: reduce<short, std::list<short>, long>(tr, s, how); break;
      }
      int k = n - 1;
      while (k >= 0 && s[k] == 4) s[k--] = 0;
      if (k < 0) break;
      ++s[k];
    }
  }
}

template<std::size_t d, class Index, class T>
void order(Trace& tr, unsigned id, const std::vector<int>& ids, int how)
{
  const GeometryType gt(id, d);
  const auto ref = Dune::ReferenceElements<double, d>::general(gt);
  std::vector<T> in;
  for (int v : ids) in.push_back(stand<T>(v, how));
  using O = Dune::GeneralVertexOrder<d, Index>;
  O first(gt, in.begin(), in.end());
  std::fill(in.begin(), in.end(), T());          // the order keeps its own numbers
  const O o = first;
  Event e("order");
  e.i("m", d).i("id", id).ints("ids", ids).i("dimension", O::dimension).i("tdim", o.type().dim()).i("tid", o.type().id());
  std::vector<std::string> subs;
  std::vector<Index> red(3, Index(9));
  for (std::size_t c = 0; c <= d; ++c)
    for (int i = 0; i < ref.size(c); ++i) {
      std::vector<long> forward, at, backward, jump;
      const auto end = o.end(c, i);
      const std::size_t limit = 100;
      for (auto it = o.begin(c, i); it != end && forward.size() < limit; ++it) forward.push_back(long(*it));
      const long n = forward.size();
      auto b = o.begin(c, i);
      for (long k = 0; k < n; ++k) at.push_back(long(b[k]));
      // the same from every other place, and how the places compare
      std::vector<std::string> from;
      for (long k = 0; k <= n; ++k) {
        std::vector<long> seen, gap, less;
        const auto a = o.begin(c, i) + k;
        for (long l = 0; l < n; ++l) seen.push_back(long(a[l - k]));
        for (long l = 0; l <= n; ++l) { const auto other = o.begin(c, i) + l; gap.push_back(other - a); less.push_back((a < other) + 2 * (a == other) + 4 * (a > other)); }
        from.push_back("[" + rec::ints(seen) + "," + rec::ints(gap) + "," + rec::ints(less) + "]");
      }
      auto z = o.end(c, i);
      for (long k = 0; k < n; ++k) { --z; backward.insert(backward.begin(), long(*z)); }
      for (long k = 0; k < n; ++k) { auto j = o.begin(c, i); j += n; j -= n - k; jump.push_back(long(*(j + 0))); }
      o.getReduced(c, i, red);
      subs.push_back("[" + integer(c) + "," + integer(i) + "," + rec::ints(forward) + "," + rec::ints(at) + "," + rec::ints(backward) + ","
                     + rec::ints(jump) + "," + integer(end - o.begin(c, i)) + "," + rec::ints(red) + "," + list(from) + "]");
    }
  e.raw("subs", list(subs));
  tr.put(e);
}

template<std::size_t d>
void orders(Trace& tr, const Options& o, int all, int sampled)
{
  Rng rng(o.seed * 1299709 + d);
  int count = 0;
  auto one = [&](unsigned id, const std::vector<int>& ids) {
    const int how = (count / 4) % 5;
    switch (count++ % 4) {
    case 0: order<d, std::size_t, std::size_t>(tr, id, ids, how); break;
    case 1: order<d, int, long>(tr, id, ids, how); break;
    case 2: order<d, unsigned char, unsigned>(tr, id, ids, how); break;
    default: order<d, unsigned, int>(tr, id, ids, how); break;
    }
  };
  for (unsigned id = 0; id < (1u << d); ++id) {
    const int n = Dune::ReferenceElements<double, d>::general(GeometryType(id, d)).size(d);
    std::vector<int> p(n);
    std::iota(p.begin(), p.end(), 0);
    if (n <= all) do one(id, p); while (std::next_permutation(p.begin(), p.end()));
    else
      for (int k = 0; k < sampled; ++k) {
        for (int i = n - 1; i > 0; --i) std::swap(p[i], p[rng.in(0, i)]);
        one(id, p);
      }
    // with gaps between the numbers and with repeated ones
    for (int k = 0; k < sampled / 2; ++k) {
      std::vector<int> q(n);
      for (auto& x : q) x = rng.in(0, k % 2 ? 3 : 13);
      one(id, q);
    }
  }
}

int main(int argc, char** argv)
{
  Options o = options(argc, argv);
  Trace tr(o.out + "/trace.ndjson");
  sequences(tr, o.thorough ? 6 : 5);
  orders<0>(tr, o, 5, 4);
  orders<1>(tr, o, 5, 20);
  orders<2>(tr, o, 5, 100);
  orders<3>(tr, o, o.thorough ? 6 : 5, o.thorough ? 500 : 150);
  orders<4>(tr, o, 5, o.thorough ? 60 : 12);
  return 0;
}
