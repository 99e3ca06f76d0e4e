#include "geo_ml.hh"
namespace geo {
void mlPart4(Trace& tr, const rec::Options& o)
{
  using D = Dune::MultiLinearGeometryTraits<double>;
  multilinear<D, double, 3, 4>(tr, o, 6);
  multilinear<D, double, 3, 5>(tr, o, 3);
  multilinear<ArrayTraits<double>, double, 2, 3, true>(tr, o, 3);
  multilinear<SingleTraits<double, 3>, double, 2, 2>(tr, o, 5, {3});
  multilinear<SingleTraits<double, 0>, double, 2, 2>(tr, o, 5, {0});
  multilinear<SingleTraits<double, 7>, double, 3, 3>(tr, o, 4, {7});
  multilinear<SingleTraits<double, 5>, double, 3, 3>(tr, o, 4, {5});
  multilinear<SingleTraits<double, 3>, double, 3, 3>(tr, o, 4, {3});
}
}
