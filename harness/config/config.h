// Configuration of the recorders: what the CMake build of the module would define
// that matters here (see /repo/_build/config.h after a normal build).
#ifndef VERIF_CONFIG_H
#define VERIF_CONFIG_H
#define HAVE_DUNE_COMMON 1
#define DUNE_COMMON_VERSION_MAJOR 2
#define DUNE_COMMON_VERSION_MINOR 12
#define DUNE_COMMON_VERSION_REVISION 0
#define HAVE_DUNE_GEOMETRY 1
#define DUNE_GEOMETRY_VERSION_MAJOR 2
#define DUNE_GEOMETRY_VERSION_MINOR 12
#define DUNE_GEOMETRY_VERSION_REVISION 0
#define DUNE_MINIMAL_DEBUG_LEVEL 4
#define HAVE_BLAS 1
#define HAVE_LAPACK 1
#define LAPACK_NEEDS_UNDERLINE
#if __has_include(<dune-common-config.hh>)
#include <dune-common-config.hh>
#endif
#endif
