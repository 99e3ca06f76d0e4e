#include "geo_ml.hh"
namespace geo {
void mlPart1(Trace& tr, const rec::Options& o)
{
  using D = Dune::MultiLinearGeometryTraits<double>;
  using F = Dune::MultiLinearGeometryTraits<float>;
  multilinear<D, double, 0, 1>(tr, o, 4);
  multilinear<D, double, 0, 3>(tr, o, 4);
  multilinear<D, double, 1, 1>(tr, o, 8);
  multilinear<D, double, 1, 2>(tr, o, 8);
  multilinear<D, double, 1, 3>(tr, o, 8);
  multilinear<D, double, 2, 2>(tr, o, 10);
  multilinear<D, double, 2, 3>(tr, o, 10);
  multilinear<D, double, 0, 2>(tr, o, 4);
  multilinear<D, double, 1, 4>(tr, o, 4);
  multilinear<D, double, 1, 5>(tr, o, 4);
  multilinear<D, double, 2, 5>(tr, o, 3);
  multilinear<F, float, 1, 2>(tr, o, 4);
  multilinear<F, float, 2, 2>(tr, o, 5);
  multilinear<RefTraits<double>, double, 2, 2>(tr, o, 3);
}
}
int main(int argc, char** argv)
{
  rec::Options o = rec::options(argc, argv);
  rec::Trace tr(o.out + "/trace.ndjson");
  geo::mlPart1(tr, o);
  geo::mlPart2(tr, o);
  geo::mlPart3(tr, o);
  geo::mlPart4(tr, o);
  return 0;
}
