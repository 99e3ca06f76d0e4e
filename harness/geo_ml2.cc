#include "geo_ml.hh"
namespace geo {
void mlPart2(Trace& tr, const rec::Options& o)
{
  multilinear<Dune::MultiLinearGeometryTraits<double>, double, 3, 3>(tr, o, 12);
  multilinear<Dune::MultiLinearGeometryTraits<float>, float, 3, 3>(tr, o, 3);
}
}
