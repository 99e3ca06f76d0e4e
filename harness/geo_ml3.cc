#include "geo_ml.hh"
namespace geo {
void mlPart3(Trace& tr, const rec::Options& o)
{
  using D = Dune::MultiLinearGeometryTraits<double>;
  multilinear<D, double, 4, 4>(tr, o, 4);
  multilinear<D, double, 2, 4>(tr, o, 4);
  multilinear<D, double, 4, 5>(tr, o, 2);
}
}
