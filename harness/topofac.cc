// Topology factories (C22): request histories, one process each, so that what is released at the end of the program is seen too.
#include <config.h>
#include <sys/wait.h>
#include <unistd.h>
#include <stdexcept>
#include <dune/geometry/topologyfactory.hh>
#include <dune/geometry/type.hh>
#include "rec.hh"
using namespace rec;
using Dune::GeometryType;

struct Log
{
  std::vector<std::string> made;       // [identifier, key] of the objects in the order of their making
  std::vector<int> released;
  std::vector<std::pair<unsigned, int>> failed;
};
static Log& theLog() { static Log* l = new Log; return *l; }        // outlives everything

template<int d>
struct Thing
{
  int number, dim, key;
  unsigned id;
  Thing(unsigned i, int m, int k) : dim(m), key(k), id(i)
  {
    theLog().made.push_back("[" + integer(id) + "," + integer(dim) + "," + integer(key) + "]");
    number = int(theLog().made.size());
  }
  ~Thing() { theLog().released.push_back(number); number = -7; }
};

template<unsigned i, int d>
struct Topo
{
  static constexpr unsigned id = i;
  static constexpr int dimension = d;
};

template<int d> struct Singletons;

template<int d>
struct Maker
{
  static const Thing<d>* make(unsigned id, int m, int key)
  {
    if (key == 2) {
      const std::pair<unsigned, int> what(id >> 1, key);
      auto& f = theLog().failed;
      bool known = false;
      for (auto& x : f) if (x == what) known = true;
      if (!known) { f.push_back(what); throw std::runtime_error("cannot make it yet"); }
    }
    if (key == 3) Singletons<d>::type::create(GeometryType(id, m), 0);
    return new Thing<d>(id, m, key);
  }
  template<GeometryType::Id geometryId>
  static const Thing<d>* createObject(const int& key)
  {
    constexpr GeometryType gt = geometryId;
    return make(gt.id(), gt.dim(), key);
  }
  template<class Topology>
  static const Thing<d>* createObject(const int& key) { return make(Topology::id, Topology::dimension, key); }
};

template<int d>
struct Traits
{
  static const unsigned int dimension = d;
  using Key = int;
  using Object = const Thing<d>;
  using Factory = Maker<d>;
};
template<int d> using Plain = Dune::TopologyFactory<Traits<d>>;
template<int d> struct Singletons { using type = Dune::TopologySingletonFactory<Plain<d>>; };

template<class F, int d>
auto ask(int face, unsigned id, int key) -> decltype(F::create(GeometryType(), key))
{
  if (face == 0) return F::create(GeometryType(id, d), key);
  decltype(F::create(GeometryType(), key)) r = nullptr;
  forEachStatic(std::make_index_sequence<(1 << d)>{}, [&](auto i) {
    constexpr unsigned v = unsigned(decltype(i)::value);
    if (v != id) return;
    constexpr GeometryType::Id gid = GeometryType(v, d).toId();
    if (face == 1) r = F::template create<gid>(key);
    else r = F::template create<Topo<v, d>>(key);
  });
  return r;
}

static std::FILE* outFile = nullptr;
static std::string soFar;
static void finish()
{
  std::string s = soFar + ",\"made\":" + list(theLog().made) + ",\"released\":" + ints(theLog().released) + "}\n";
  std::fwrite(s.data(), 1, s.size(), outFile);
  std::fflush(outFile);
}

template<int d>
void keeping(const std::vector<int>& steps)
{
  using F = typename Singletons<d>::type;
  std::vector<std::string> out;
  std::vector<const Thing<d>*> got;
  for (std::size_t i = 0; i + 2 < steps.size(); i += 3) {
    const int face = steps[i], key = steps[i + 2];
    const unsigned id = steps[i + 1];
    if (face == 3) {
      const Thing<d>* last = nullptr;
      for (auto g : got) if (g) last = g;
      if (last) F::release(last);
      out.push_back("[0,0,0,0]");
      got.push_back(nullptr);
      continue;
    }
    const Thing<d>* t = nullptr;
    bool failed = false;
    try { t = ask<F, d>(face, id, key); }
    catch (const std::runtime_error&) { failed = true; }
    got.push_back(t);
    out.push_back(failed ? "[-1,0,0,0]" : !t ? "[-2,0,0,0]" : "[" + integer(t->number) + "," + integer(t->id) + "," + integer(t->dim) + "," + integer(t->key) + "]");
  }
  // everything is still there at the end
  std::vector<std::string> later;
  for (auto t : got) later.push_back(!t ? "[0,0,0,0]" : "[" + integer(t->number) + "," + integer(t->id) + "," + integer(t->dim) + "," + integer(t->key) + "]");
  Event e("keep");
  e.i("dim", d).ints("steps", steps).raw("out", list(out)).raw("later", list(later)).i("releasedBefore", theLog().released.size());
  soFar = e.done();
  soFar.pop_back();
}

template<int d>
void plain(const std::vector<int>& steps)
{
  using F = Plain<d>;
  std::vector<std::string> out;
  std::vector<const Thing<d>*> got;
  for (std::size_t i = 0; i + 2 < steps.size(); i += 3) {
    const int face = steps[i], key = steps[i + 2];
    const unsigned id = steps[i + 1];
    if (face == 3) continue;
    const Thing<d>* t = nullptr;
    bool failed = false;
    try { t = ask<F, d>(face, id, key); }
    catch (const std::runtime_error&) { failed = true; }
    if (t) got.push_back(t);
    out.push_back(failed ? "[-1,0,0,0]" : !t ? "[-2,0,0,0]" : "[" + integer(t->number) + "," + integer(t->id) + "," + integer(t->dim) + "," + integer(t->key) + "]");
  }
  std::vector<int> numbers;
  for (auto t : got) numbers.push_back(t->number);
  const int before = theLog().released.size();
  for (auto t : got) F::release(t);
  Event e("plain");
  e.i("dim", d).ints("steps", steps).raw("out", list(out)).ints("numbers", numbers).i("releasedBefore", before).ints("releasedThen", theLog().released);
  soFar = e.done();
  soFar.pop_back();
}

int main(int argc, char** argv)
{
  Options o = options(argc, argv);
  const std::string path = o.out + "/trace.ndjson";
  outFile = std::fopen(path.c_str(), "w");
  if (!outFile) { std::perror(path.c_str()); return 3; }
  for (int f = 4; f < argc; ++f) {
    std::ifstream in(o.out + "/" + argv[f]);
    if (!in) { std::perror(argv[f]); return 3; }
    int count = 0;
    for (std::string line; std::getline(in, line); ++count) {
      std::vector<int> n;
      for (std::size_t i = 0; i < line.size(); )
        if (std::isdigit((unsigned char) line[i])) { std::size_t e; n.push_back(std::stoi(line.substr(i), &e)); i += e; }
        else ++i;
      const int d = n[0];
      const std::vector<int> steps(n.begin() + 1, n.end());
      std::fflush(outFile);
      const pid_t p = fork();
      if (p < 0) { std::perror("fork"); return 3; }
      if (p == 0) {
        alarm(20);
        theLog();
        std::atexit(finish);            // runs after the factories are gone
        const bool asPlain = count % 8 == 7;
        switch (d) {
        case 1: asPlain ? plain<1>(steps) : keeping<1>(steps); break;
        case 2: asPlain ? plain<2>(steps) : keeping<2>(steps); break;
        default: asPlain ? plain<3>(steps) : keeping<3>(steps); break;
        }
        std::exit(0);
      }
      int status = 0;
      while (waitpid(p, &status, 0) < 0) {}
      if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
        Event e("crash");
        e.i("dim", d).ints("steps", steps).i("status", status);
        const std::string s = e.done() + "\n";
        std::fwrite(s.data(), 1, s.size(), outFile);
      }
    }
  }
  std::fflush(outFile);
  _exit(0);
}
