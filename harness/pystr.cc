// Records the conversions between geometry types and the strings used from Python (C25).
// Replays the token sequences generated from the specification (file strings.txt, one JSON array per line).
#include <config.h>
#include <algorithm>
#include <dune/python/geometry/type.hh>
#include "rec.hh"

using Dune::GeometryType;
namespace GT = Dune::GeometryTypes;
using namespace rec;

static std::string raw(const GeometryType& t)
{
  return "[" + integer(t.dim()) + "," + integer(t.id()) + "," + boolean(t.isNone()) + "]";
}

static void parse(Event& e, const std::string& s)
{
  try {
    GeometryType t = Dune::geometryTypeFromString(s);
    e.str("outcome", "type").raw("got", raw(t));
  } catch (const std::exception&) { e.str("outcome", "refused"); }
  catch (const Dune::Exception&) { e.str("outcome", "refused"); }
}

static void roundtrip(Trace& tr, const GeometryType& t)
{
  std::string s = Dune::to_string(t);
  Event e("py");
  e.raw("t", raw(t)).str("text", s);
  parse(e, s);
  tr.put(e);
}

int main(int argc, char** argv)
{
  Options o = options(argc, argv);
  Trace tr(o.out + "/trace.ndjson");
  for (int d = 0; d <= 7; ++d) {
    for (unsigned id = 0; id < (1u << d); ++id) roundtrip(tr, GeometryType(id, d));
    roundtrip(tr, GT::none(d));
    if (d > 0) { roundtrip(tr, GT::conicalExtension(GT::none(d - 1))); roundtrip(tr, GT::prismaticExtension(GT::none(d - 1))); }
  }
  // numbers of several digits
  Rng rng(o.seed * 104729 + 3);
  for (int d = 8; d <= 30; ++d) {
    const unsigned all = (1u << d) - 1;
    for (unsigned id : {0u, 1u, 2u, 3u, all, all - 1, all / 2, all / 2 + 1}) roundtrip(tr, GeometryType(id, d));
    for (int k = 0; k < 12; ++k) roundtrip(tr, GeometryType(rng.next() & all, d));
  }
  for (int d : {8, 9, 10, 11, 19, 20, 30}) roundtrip(tr, GT::none(d));
  roundtrip(tr, GeometryType());
  std::ifstream in(o.out + "/strings.txt");
  if (!in) return 3;
  std::string line;
  while (std::getline(in, line)) {
    // ["a","b",...] without escapes
    std::string s, tok;
    bool inside = false;
    for (char c : line) {
      if (c == '"') inside = !inside;
      else if (inside) s += c;
    }
    Event e("str");
    e.raw("tokens", line);
    parse(e, s);
    tr.put(e);
  }
  return 0;
}
