// A Python module made of multilinear geometries, as a user of the binding header would make it.
#include <config.h>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/python/common/fvecmatregistry.hh>
#include <dune/python/geometry/multilineargeometry.hh>
#include <dune/python/pybind11/pybind11.h>
#include <dune/python/pybind11/stl.h>

template<int m, int c>
void put(pybind11::module module, pybind11::list made)
{
  Dune::Python::registerFieldVecMat<Dune::FieldVector<double, m>>::apply();
  Dune::Python::registerFieldVecMat<Dune::FieldVector<double, c>>::apply();
  Dune::Python::registerFieldVecMat<Dune::FieldMatrix<double, m, c>>::apply();
  Dune::Python::registerFieldVecMat<Dune::FieldMatrix<double, c, m>>::apply();
  Dune::Python::registerMultiLinearGeometryType<double, m, c>(module);
  made.append(pybind11::make_tuple(m, c));
}

PYBIND11_MODULE(pygeo, module)
{
  pybind11::list made;
  put<1, 1>(module, made);
  put<1, 2>(module, made);
  put<1, 3>(module, made);
  put<2, 2>(module, made);
  put<2, 3>(module, made);
  put<3, 3>(module, made);
  // asking a second time is allowed and changes nothing
  Dune::Python::registerMultiLinearGeometryType<double, 2, 2>(module);
  module.attr("made") = made;
}
