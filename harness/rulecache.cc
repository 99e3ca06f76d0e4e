// The cache of quadrature rules under concurrent use (C16).
//   schedules FILE...: threads follow given schedules; making a rule is slow and can fail because the
//                      number type says so.  One process per schedule, so that every cache is new.
//   free:              many threads ask for new rules at the same time
#include <config.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <map>
#include <mutex>
#include <thread>
#include <sys/wait.h>
#include <unistd.h>
#include <dune/common/exceptions.hh>
#include <dune/geometry/quadraturerules.hh>
#include "rec.hh"
using namespace rec;
using Dune::GeometryType;
namespace QT = Dune::QuadratureType;

struct Injected {};

// ---------------------------------------------------------------- threads that can be stopped

struct Director
{
  std::mutex m;
  std::condition_variable cv;
  struct Actor
  {
    int wanted = -1;          // request to begin
    bool busy = false, atGate = false;
    int token = 0;            // 0 none, 1 go on, 2 fail
  };
  std::vector<Actor> actors;
  bool openAll = false, quit = false;
  std::vector<std::string> acts;
  void say(const std::string& s) { acts.push_back(s); }
};
Director* director = nullptr;
thread_local int me = -1;
thread_local int stage = 0;   // how far the current request has come: 1 some number was made, 2 some were multiplied

void gate(int at)
{
  if (me < 0 || stage >= at) return;
  stage = at;
  Director& d = *director;
  std::unique_lock<std::mutex> l(d.m);
  auto& a = d.actors[me];
  a.atGate = true;
  d.cv.notify_all();
  d.cv.wait(l, [&] { return d.openAll || a.token; });
  const int token = d.openAll && !a.token ? 1 : a.token;
  a.token = 0;
  a.atGate = false;
  if (token == 2) {
    d.say("[\"fail\"," + std::to_string(me) + "]");
    throw Injected();
  }
}

// a number that is a stopping point
struct Num
{
  double v = 0;
  Num() = default;
  Num(double x) : v(x) { gate(1); }
  Num(int x) : v(x) { gate(1); }
  Num(unsigned x) : v(x) { gate(1); }
  Num(const char* s) : v(std::strtod(s, nullptr)) { gate(1); }
  explicit operator double() const { return v; }
  explicit operator long double() const { return v; }
  struct Plain {};
  Num(Plain, double x) : v(x) {}
  Num& operator+=(const Num& o) { v += o.v; return *this; }
  Num& operator-=(const Num& o) { v -= o.v; return *this; }
  Num& operator*=(const Num& o) { gate(2); v *= o.v; return *this; }
  Num& operator/=(const Num& o) { gate(2); v /= o.v; return *this; }
  friend Num operator+(Num a, const Num& b) { return a += b; }
  friend Num operator-(Num a, const Num& b) { return a -= b; }
  friend Num operator*(Num a, const Num& b) { return a *= b; }
  friend Num operator/(Num a, const Num& b) { return a /= b; }
  friend Num operator-(const Num& a) { return Num(Plain(), -a.v); }
  friend bool operator==(const Num& a, const Num& b) { return a.v == b.v; }
  friend bool operator!=(const Num& a, const Num& b) { return a.v != b.v; }
  friend bool operator<(const Num& a, const Num& b) { return a.v < b.v; }
  friend bool operator>(const Num& a, const Num& b) { return a.v > b.v; }
  friend bool operator<=(const Num& a, const Num& b) { return a.v <= b.v; }
  friend bool operator>=(const Num& a, const Num& b) { return a.v >= b.v; }
  friend std::ostream& operator<<(std::ostream& s, const Num& a) { return s << a.v; }
};

// ---------------------------------------------------------------- requests

struct Key { int dim, id, qt, p; };
// 1 a line rule, 2 another order, 3 another family, 4 a product that needs 1, 5 a rule that relabels 1,
// 6 beyond the orders on offer, 7 an order that cannot be computed in this number type
const std::vector<Key> keys{{}, {1, 1, QT::GaussLegendre, 3}, {1, 1, QT::GaussLegendre, 5}, {1, 1, QT::GaussLobatto, 3}, {2, 3, QT::GaussLegendre, 3},
                            {1, 1, QT::GaussJacobi_n_0, 3}, {1, 1, QT::GaussLegendre, 500}, {1, 1, QT::GaussJacobi_n_0, 90}};

struct Seen { const void* addr; std::string text; };      // text: order, size, type and all numbers

template<class Rule>
std::string describe(const Rule& r)
{
  constexpr int d = Rule::d;
  std::vector<std::string> ps;
  for (const auto& q : r) {
    std::vector<double> x;
    for (int k = 0; k < d; ++k) x.push_back(double(q.position()[k]));
    x.push_back(double(q.weight()));
    ps.push_back(nums(x));
  }
  return "[" + std::to_string(r.type().dim()) + "," + std::to_string(r.type().isNone() ? -1 : int(r.type().id() | 1u)) + "," + std::to_string(r.order()) + ","
         + std::to_string(r.size()) + "," + list(ps) + "]";
}

template<class ct>
Seen ask(const Key& k)
{
  const GeometryType gt(k.id, k.dim);
  const auto qt = QT::Enum(k.qt);
  if (k.dim == 1) { auto& r = Dune::QuadratureRules<ct, 1>::rule(gt, k.p, qt); return {&r, describe(r)}; }
  if (k.dim == 2) { auto& r = Dune::QuadratureRules<ct, 2>::rule(gt, k.p, qt); return {&r, describe(r)}; }
  auto& r = Dune::QuadratureRules<ct, 3>::rule(gt, k.p, qt);
  return {&r, describe(r)};
}
template<class ct>
std::string describeAgain(const Key& k, const void* a)
{
  if (k.dim == 1) return describe(*static_cast<const Dune::QuadratureRule<ct, 1>*>(a));
  if (k.dim == 2) return describe(*static_cast<const Dune::QuadratureRule<ct, 2>*>(a));
  return describe(*static_cast<const Dune::QuadratureRule<ct, 3>*>(a));
}

// objects and contents get numbers in the order of their appearance
struct Book
{
  std::map<const void*, int> objects;
  std::map<std::string, int> contents;
  std::vector<std::string> texts;
  int object(const void* p) { return objects.emplace(p, int(objects.size()) + 1).first->second; }
  int content(const std::string& s)
  {
    auto r = contents.emplace(s, int(contents.size()) + 1);
    if (r.second) texts.push_back(s);
    return r.first->second;
  }
};
std::string keyText(const Key& k) { return "[" + std::to_string(k.dim) + "," + std::to_string(k.id) + "," + std::to_string(k.qt) + "," + std::to_string(k.p) + "]"; }

// ---------------------------------------------------------------- following a schedule

std::string replay(const std::vector<std::array<int, 3>>& steps)
{
  Director d;
  director = &d;
  d.actors.resize(3);
  Book book;
  struct Held { int key; const void* addr; };
  std::vector<Held> held;
  std::vector<std::thread> threads;
  for (int t = 0; t < 3; ++t)
    threads.emplace_back([&, t] {
      for (;;) {
        int k;
        {
          std::unique_lock<std::mutex> l(d.m);
          d.cv.wait(l, [&] { return d.quit || d.actors[t].wanted >= 0; });
          if (d.actors[t].wanted < 0) return;
          k = d.actors[t].wanted;
          d.actors[t].wanted = -1;
          d.actors[t].busy = true;
          d.say("[\"begin\"," + std::to_string(t) + "," + std::to_string(k) + "]");
        }
        std::string out;
        Seen s{nullptr, ""};
        stage = 0;
        me = t;
        try { s = ask<Num>(keys[k]); out = "rule"; }
        catch (const Injected&) { out = "injected"; }
        catch (const Dune::Exception&) { out = "refused"; }
        me = -1;
        std::unique_lock<std::mutex> l(d.m);
        if (out == "rule") {
          held.push_back({k, s.addr});
          d.say("[\"rule\"," + std::to_string(t) + "," + std::to_string(book.object(s.addr)) + "," + std::to_string(book.content(s.text)) + "]");
        }
        else
          d.say("[\"" + out + "\"," + std::to_string(t) + "]");
        d.actors[t].busy = false;
        d.actors[t].token = 0;
        d.cv.notify_all();
      }
    });
  auto settle = [&](int t) {
    std::unique_lock<std::mutex> l(d.m);
    d.cv.wait_for(l, std::chrono::milliseconds(2), [&] {
      return d.actors[t].wanted < 0 && (!d.actors[t].busy || (d.actors[t].atGate && !d.actors[t].token)); });
  };
  for (auto& s : steps) {
    {
      std::unique_lock<std::mutex> l(d.m);
      auto& a = d.actors[s[1]];
      if (s[0] == 0) {
        // the thread may still be on its way: let it go on then
        if (a.busy && !a.token) { a.token = 1; d.cv.notify_all(); }
        if (a.wanted < 0) a.wanted = s[2];
      }
      else if (a.busy || a.wanted >= 0)
        a.token = s[0];
      d.cv.notify_all();
    }
    settle(s[1]);
  }
  bool hang = false;
  {
    std::unique_lock<std::mutex> l(d.m);
    d.openAll = true;
    d.cv.notify_all();
    hang = !d.cv.wait_for(l, std::chrono::seconds(20), [&] {
      return std::all_of(d.actors.begin(), d.actors.end(), [](auto& a) { return !a.busy && a.wanted < 0; }); });
    d.quit = true;
    d.cv.notify_all();
  }
  Event e("schedule");
  e.b("hang", hang);
  std::vector<std::string> ks, fin;
  for (auto& k : keys) ks.push_back(keyText(k));
  e.raw("keys", list(ks));
  if (hang) {
    e.raw("acts", "[]").raw("final", "[]").raw("contents", "[]");
    return e.done();
  }
  for (auto& t : threads) t.join();
  // what became of the rules handed out, and of later requests
  for (auto& h : held)
    fin.push_back("[" + std::to_string(h.key) + "," + std::to_string(book.object(h.addr)) + "," + std::to_string(book.content(describeAgain<Num>(keys[h.key], h.addr))) + "]");
  for (int k = 1; k <= 5; ++k) {
    std::string r = "[" + std::to_string(k) + ",";
    try { Seen s = ask<Num>(keys[k]); r += std::to_string(book.object(s.addr)) + "," + std::to_string(book.content(s.text)); }
    catch (...) { r += "0,0"; }
    fin.push_back(r + "]");
  }
  e.raw("acts", list(d.acts)).raw("final", list(fin)).raw("contents", list(book.texts));
  return e.done();
}

std::vector<std::array<int, 3>> parse(const std::string& line)
{
  std::vector<int> n;
  for (std::size_t i = 0; i < line.size(); )
    if (std::isdigit((unsigned char) line[i])) { std::size_t e; n.push_back(std::stoi(line.substr(i), &e)); i += e; }
    else ++i;
  std::vector<std::array<int, 3>> r;
  for (std::size_t i = 0; i + 2 < n.size(); i += 3) r.push_back({n[i], n[i + 1], n[i + 2]});
  return r;
}

// each schedule in a process of its own
void schedules(const Options& o, const std::vector<std::string>& files)
{
  std::vector<std::string> lines;
  for (auto& f : files) {
    std::ifstream in(o.out + "/" + f);
    if (!in) { std::perror(f.c_str()); std::exit(3); }
    for (std::string l; std::getline(in, l); ) lines.push_back(l);
  }
  const int workers = 8;
  std::vector<pid_t> ws;
  for (int w = 0; w < workers; ++w) {
    const pid_t p = fork();
    if (p < 0) { std::perror("fork"); std::exit(3); }
    if (p) { ws.push_back(p); continue; }
    std::FILE* out = std::fopen((o.out + "/part" + std::to_string(w)).c_str(), "w");
    if (!out) _exit(3);
    for (std::size_t i = w; i < lines.size(); i += workers) {
      int fd[2];
      if (pipe(fd)) _exit(3);
      const pid_t c = fork();
      if (c < 0) _exit(3);
      if (!c) {
        close(fd[0]);
        std::string s = replay(parse(lines[i])) + "\n";
        for (std::size_t at = 0; at < s.size(); ) { auto n = write(fd[1], s.data() + at, s.size() - at); if (n <= 0) _exit(3); at += n; }
        _exit(0);
      }
      close(fd[1]);
      std::string got;
      char buf[4096];
      for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0; ) got.append(buf, n);
      close(fd[0]);
      int st = 0;
      waitpid(c, &st, 0);
      if (st != 0 || got.empty()) got = Event("crash").raw("schedule", lines[i]).i("status", st).done() + "\n";
      std::fwrite(got.data(), 1, got.size(), out);
    }
    std::fclose(out);
    _exit(0);
  }
  for (auto p : ws) { int st = 0; waitpid(p, &st, 0); if (st) std::exit(3); }
  std::ofstream all(o.out + "/schedules.ndjson");
  for (int w = 0; w < workers; ++w) {
    const std::string part = o.out + "/part" + std::to_string(w);
    { std::ifstream in(part); if (in.peek() != EOF) all << in.rdbuf(); }
    std::remove(part.c_str());
  }
}

// ---------------------------------------------------------------- all at once

template<class ct>
void together(Trace& tr, const std::vector<Key>& ks, int nThreads)
{
  struct Got { int key; bool ok; Seen s; };
  std::vector<std::vector<Got>> got(nThreads);
  std::atomic<int> ready{0};
  std::vector<std::thread> threads;
  for (int t = 0; t < nThreads; ++t)
    threads.emplace_back([&, t] {
      ++ready;
      while (ready < nThreads) {}
      for (std::size_t i = 0; i < ks.size(); ++i) {
        // everybody starts with the first one; afterwards half of the threads run the other way round
        const int k = t % 2 && i ? int(ks.size() - i) : int(i);
        try { got[t].push_back({k, true, ask<ct>(ks[k])}); }
        catch (const Dune::Exception&) { got[t].push_back({k, false, {nullptr, ""}}); }
      }
    });
  for (auto& t : threads) t.join();
  Book book;
  Event e("together");
  std::vector<std::string> kt, gt, fin;
  for (auto& k : ks) kt.push_back(keyText(k));
  for (auto& g : got)
    for (auto& x : g) {
      gt.push_back("[" + std::to_string(x.key) + "," + std::to_string(x.ok ? book.object(x.s.addr) : 0) + "," + std::to_string(x.ok ? book.content(x.s.text) : 0) + "]");
      if (x.ok) gt.push_back("[" + std::to_string(x.key) + "," + std::to_string(book.object(x.s.addr)) + "," + std::to_string(book.content(describeAgain<ct>(ks[x.key], x.s.addr))) + "]");
    }
  e.raw("keys", list(kt)).raw("got", list(gt)).raw("contents", list(book.texts));
  tr.put(e);
}

template<class ct>
void rounds(Trace& tr, const Options& o, int n)
{
  Rng rng(o.seed * 275604541 + sizeof(ct));
  const std::vector<int> fam{QT::GaussLegendre, QT::GaussJacobi_1_0, QT::GaussJacobi_2_0, QT::GaussJacobi_n_0, QT::GaussLobatto, QT::GaussRadauLeft, QT::GaussRadauRight};
  std::map<std::array<int, 4>, bool> used;
  for (int r = 0; r < n; ++r) {
    std::vector<Key> ks;
    for (int tries = 0; int(ks.size()) < 5 && tries < 200; ++tries) {
      Key k;
      k.dim = rng.in(1, 10) > 4 ? rng.in(2, 3) : 1;
      k.id = k.dim == 1 ? 1 : 2 * rng.in(0, (1 << (k.dim - 1)) - 1) + 1;
      k.qt = fam[rng.in(0, 6)];
      if (k.dim > 1 && (k.qt == QT::GaussJacobi_1_0 || k.qt == QT::GaussJacobi_2_0)) continue;
      k.p = rng.in(0, k.dim == 1 ? 30 : k.dim == 2 ? 14 : 6);
      if (rng.in(0, 9) == 0) k.p = rng.in(0, 1) ? -1 : 400;
      if (!used.emplace(std::array<int, 4>{k.dim, k.id, k.qt, k.p}, true).second && k.p >= 0 && k.p < 400) continue;
      ks.push_back(k);
    }
    together<ct>(tr, ks, 8);
  }
}

int main(int argc, char** argv)
{
  Options o = options(argc, argv);
  const std::string what = argv[4];
  if (what == "schedules") {
    std::vector<std::string> files;
    for (int i = 5; i < argc; ++i) files.push_back(argv[i]);
    schedules(o, files);
    // and the caches of the built-in types, new in every process
    std::ofstream all(o.out + "/together.ndjson");
    for (int r = 0; r < (o.thorough ? 60 : 16); ++r) {
      const std::string part = o.out + "/part";
      const pid_t p = fork();
      if (p < 0) return 3;
      if (!p) {
        Options q = o;
        q.seed = o.seed * 1000 + r;
        { Trace tr(part); if (r % 2) rounds<double>(tr, q, 4); else rounds<float>(tr, q, 4); }
        _exit(0);
      }
      int st = 0;
      waitpid(p, &st, 0);
      if (st) all << Event("crash").raw("schedule", "[]").i("status", st).done() << "\n";
      else { std::ifstream in(part); all << in.rdbuf(); }
      std::remove(part.c_str());
    }
    return 0;
  }
  Trace tr(o.out + "/race.ndjson");
  rounds<double>(tr, o, o.thorough ? 150 : 40);
  rounds<float>(tr, o, o.thorough ? 150 : 40);
  return 0;
}
