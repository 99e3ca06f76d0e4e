// Records lookups of reference elements (C06): concurrent first use, all lookup paths, handle histories.
#include <config.h>
#include <atomic>
#include <map>
#include <mutex>
#include <thread>
#include <sys/wait.h>
#include <unistd.h>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include "rec.hh"

using namespace rec;
using Dune::GeometryType;

struct Numbers
{
  std::map<const void*, int> no;
  int operator()(const void* p) { return no.emplace(p, int(no.size()) + 1).first->second; }
};

template<class ct, int dim>
struct Lookup
{
  using REs = Dune::ReferenceElements<ct, dim>;
  using RE = typename REs::ReferenceElement;
  struct Map
  {
    Dune::FieldVector<ct, dim> operator()(const Dune::FieldVector<ct, dim>& x) const { return x; }
    friend auto derivative(const Map&) { return [](const Dune::FieldVector<ct, dim>&) { Dune::FieldMatrix<ct, dim, dim> m(0); for (int i = 0; i < dim; ++i) m[i][i] = 1; return m; }; }
  };
  static std::vector<Dune::FieldVector<ct, dim>> corners(const GeometryType& t)
  {
    std::vector<Dune::FieldVector<ct, dim>> c;
    const auto& r = REs::general(t);
    for (int i = 0; i < r.size(dim); ++i) c.push_back(r.position(i, dim));
    return c;
  }
  static Dune::FieldMatrix<ct, dim, dim> unit()
  {
    Dune::FieldMatrix<ct, dim, dim> m(0);
    for (int i = 0; i < dim; ++i) m[i][i] = 1;
    return m;
  }
  // which paths exist for an id
  static const char* pathName(int p)
  {
    static const char* n[] = {"general", "free", "tagged", "range", "named", "affine", "multilinear", "cached", "box", "mapped"};
    return n[p];
  }
  static constexpr int paths = 10;
  static bool has(unsigned id, int p)
  {
    GeometryType t(id, dim);
    if (p == 4) return id == Dune::GeometryTypes::simplex(dim).id() || id == Dune::GeometryTypes::cube(dim).id();
    if (p == 8) return id == Dune::GeometryTypes::cube(dim).id();
    return true;
  }
  static RE get(unsigned id, int p)
  {
    GeometryType t(id, dim);
    using Dune::referenceElement;
    switch (p) {
    case 1: return Dune::referenceElement<ct, dim>(t);
    case 2: return referenceElement(ct(), t, Dune::Dim<dim>());
    case 3: return *(REs::begin() + id);
    case 4: return id == Dune::GeometryTypes::simplex(dim).id() ? REs::simplex() : REs::cube();
    case 5: { Dune::AffineGeometry<ct, dim, dim> g(t, Dune::FieldVector<ct, dim>(0), unit()); return referenceElement(g); }
    case 6: { Dune::MultiLinearGeometry<ct, dim, dim> g(t, corners(t)); return referenceElement(g); }
    case 7: { Dune::CachedMultiLinearGeometry<ct, dim, dim> g(t, corners(t)); return referenceElement(g); }
    case 8: { Dune::AxisAlignedCubeGeometry<ct, dim, dim> g(Dune::FieldVector<ct, dim>(0), Dune::FieldVector<ct, dim>(1)); return referenceElement(g); }
    case 9: { Dune::AffineGeometry<ct, dim, dim> g(t, Dune::FieldVector<ct, dim>(0), unit()); Dune::MappedGeometry<Map, Dune::AffineGeometry<ct, dim, dim>> m(Map{}, g); return referenceElement(m); }
    default: return REs::general(t);
    }
  }
  struct Seen { unsigned id; int path; RE re; int dim_, tid; std::vector<int> sizes; ct vol; };
  static Seen look(unsigned id, int p)
  {
    RE r = get(id, p);
    Seen s{id, p, r, int(r.type().dim()), int(r.type().id()), {}, r.volume()};
    for (int c = 0; c <= dim; ++c) s.sizes.push_back(r.size(c));
    return s;
  }

  // concurrent first use in this process, then all paths once more
  static void race(Trace& tr, Rng& rng, int nthreads)
  {
    std::vector<std::vector<Seen>> seen(nthreads + 1);
    std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for (int k = 0; k < nthreads; ++k) {
      unsigned start = rng.next() % (1u << dim);
      th.emplace_back([&, k, start] {
        ++ready;
        while (ready.load() < nthreads) {}
        for (unsigned j = 0; j < (1u << dim); ++j) {
          unsigned id = (start + j) % (1u << dim);
          seen[k].push_back(look(id, j == 0 ? k % 4 % 3 : 0));
        }
      });
    }
    for (auto& t : th) t.join();
    for (unsigned id = 0; id < (1u << dim); ++id)
      for (int p = 0; p < paths; ++p)
        if (has(id, p)) seen[nthreads].push_back(look(id, p));
    Numbers obj;
    std::vector<std::string> ev;
    for (int k = 0; k <= nthreads; ++k)
      for (auto& s : seen[k])
        ev.push_back(Event("l").i("thread", k).i("id", s.id).str("path", pathName(s.path)).i("obj", obj(&s.re.impl()))
                     .i("tdim", s.dim_).i("tid", s.tid).ints("sizes", s.sizes).x("vol", s.vol)
                     .i("tid2", s.re.type().id()).x("vol2", s.re.volume()).b("same", s.re == REs::general(GeometryType(s.id, dim)))
                     .done());
    tr.put(Event("race").i("dim", dim).i("threads", nthreads).raw("seen", list(ev)));
  }

  // a history of handle operations: ["look",h,id,path] ["copy",h,g] ["clear",h] ["move",h,g] ["swap",h,g]
  static void history(Trace& tr, const std::vector<std::vector<int>>& steps, int nh)
  {
    std::vector<RE> reg(nh);
    Numbers obj;
    std::vector<std::string> obs;
    auto observe = [&] {
      std::vector<std::string> eq, ne, hs, ty;
      Numbers hash;
      for (auto& a : reg) {
        std::vector<std::string> r1, r2, r3;
        for (auto& b : reg) { r1.push_back(boolean(a == b)); r2.push_back(boolean(a != b)); r3.push_back(boolean(hash_value(a) == hash_value(b))); }
        eq.push_back(list(r1)); ne.push_back(list(r2)); hs.push_back(list(r3));
        ty.push_back(a == RE() ? "-1" : integer(a.type().id()));
      }
      obs.push_back(Event("o").raw("eq", list(eq)).raw("ne", list(ne)).raw("hash", list(hs)).raw("ids", list(ty)).done());
    };
    observe();
    std::vector<std::string> st;
    for (auto& s : steps) {
      st.push_back(ints(s));
      switch (s[0]) {
      case 0: reg[s[1]] = get(s[2], has(s[2], s[3]) ? s[3] : 0); break;
      case 1: reg[s[1]] = reg[s[2]]; break;
      case 2: reg[s[1]] = RE(); break;
      case 3: { RE copy(reg[s[2]]); reg[s[1]] = std::move(copy); } break;
      case 4: std::swap(reg[s[1]], reg[s[2]]); break;
      }
      observe();
    }
    tr.put(Event("handles").i("dim", dim).i("n", nh).raw("steps", list(st)).raw("obs", list(obs)));
  }
};

int main(int argc, char** argv)
{
  Options o = options(argc, argv);
  Rng rng(o.seed);
  // concurrent first use, each in a process of its own
  const int rounds = o.thorough ? 200 : 25;
  std::vector<std::string> parts;
  for (int k = 0; k < rounds; ++k) {
    rng.next();
    std::string part = o.out + "/race" + std::to_string(k) + ".part";
    parts.push_back(part);
    pid_t pid = fork();
    if (pid < 0) return 3;
    if (pid == 0) {
      {
        Trace tr(part);
        Lookup<double, 3>::race(tr, rng, 8);
        Lookup<double, 2>::race(tr, rng, 8);
        Lookup<double, 4>::race(tr, rng, 6);
        Lookup<float, 3>::race(tr, rng, 8);
        Lookup<double, 1>::race(tr, rng, 4);
      }
      _exit(0);
    }
    int st = 0;
    if (waitpid(pid, &st, 0) != pid) return 3;
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { std::fprintf(stderr, "terminate called in a process using reference elements concurrently\n"); return 70; }
  }
  std::FILE* f = std::fopen((o.out + "/race.ndjson").c_str(), "w");
  if (!f) return 3;
  for (auto& p : parts) {
    std::ifstream in(p);
    std::string line;
    while (std::getline(in, line)) { line += "\n"; std::fwrite(line.data(), 1, line.size(), f); }
    in.close();
    std::remove(p.c_str());
  }
  std::fclose(f);

  // handle histories from the specification
  Trace tr(o.out + "/handles.ndjson");
  std::ifstream in(o.out + "/histories.txt");
  if (!in) return 3;
  std::string line;
  while (std::getline(in, line)) {
    // [dim, nh, [[..],[..]]]
    std::vector<std::vector<int>> steps;
    std::vector<int> flat;
    int depth = 0, dim = 0, nh = 0, idx = 0;
    std::string cur;
    auto flush = [&] { if (!cur.empty()) { int v = std::atoi(cur.c_str()); cur.clear(); if (depth == 1) { (idx == 0 ? dim : nh) = v; ++idx; } else flat.push_back(v); } };
    for (char c : line) {
      if (c == '[') { flush(); ++depth; }
      else if (c == ']') { flush(); if (depth == 3) { steps.push_back(flat); flat.clear(); } --depth; }
      else if (c == ',') flush();
      else cur += c;
    }
    if (dim == 2) Lookup<double, 2>::history(tr, steps, nh);
    else if (dim == 3) Lookup<double, 3>::history(tr, steps, nh);
    else return 3;
  }
  return 0;
}
