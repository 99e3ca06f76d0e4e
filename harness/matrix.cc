// Dense matrix kernels (C23): integer matrices of every shape.
#include <config.h>
#include <array>
#include <cmath>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/geometry/utility/defaultmatrixhelper.hh>
#include "rec.hh"
using namespace rec;

template<class ct> const char* ctName() { return std::is_same<ct, float>::value ? "float" : "double"; }
template<class ct, int m, int n> using Mat = Dune::FieldMatrix<ct, m, n>;
template<class ct, int n> using Vec = Dune::FieldVector<ct, n>;

template<class ct, int m, int n>
Mat<ct, m, n> any(Rng& r, int k)
{
  Mat<ct, m, n> A(0);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A[i][j] = r.in(-k, k);
  return A;
}
template<class ct, int n>
Vec<ct, n> anyVec(Rng& r, int k)
{
  Vec<ct, n> v(0);
  for (int i = 0; i < n; ++i) v[i] = r.in(-k, k);
  return v;
}
template<class ct, int m, int n> std::string whole(const Mat<ct, m, n>& A)
{
  std::string s = "[";
  for (int i = 0; i < m; ++i) {
    s += i ? ",[" : "[";
    for (int j = 0; j < n; ++j) { if (j) s += ","; s += integer((long long) A[i][j]); }
    s += "]";
  }
  return s + "]";
}
template<class ct, int n> std::string whole(const Vec<ct, n>& v)
{
  std::string s = "[";
  for (int j = 0; j < n; ++j) { if (j) s += ","; s += integer((long long) v[j]); }
  return s + "]";
}

// full rank and far from singular: large entries on distinct columns (rows if there are more of them)
template<class ct, int m, int n>
Mat<ct, m, n> wellShaped(Rng& r)
{
  Mat<ct, m, n> A = any<ct, m, n>(r, 1);
  constexpr int big = m > n ? m : n, small = m > n ? n : m;
  std::array<int, big> p;
  for (int i = 0; i < big; ++i) p[i] = i;
  for (int i = big - 1; i > 0; --i) std::swap(p[i], p[r.in(0, i)]);
  for (int k = 0; k < small; ++k) {
    const int v = r.in(6, 9) * (r.in(0, 1) ? 1 : -1);
    if (m > n) A[p[k]][k] += v; else A[k][p[k]] += v;
  }
  return A;
}

template<class ct, int m, int n, int p>
void products(Trace& tr, Rng& r)
{
  using H = Dune::Impl::FieldMatrixHelper<ct>;
  const auto A = any<ct, m, n>(r, 9);
  const auto B = any<ct, p, m>(r, 9);
  Mat<ct, n, p> atbt(7);
  H::ATBT(A, B, atbt);
  const auto C = any<ct, n, p>(r, 9);
  Mat<ct, m, p> ab(7);
  H::AB(A, C, ab);
  tr.put(Event("mat").str("f", "AB").str("ct", ctName<ct>()).raw("A", whole(A)).raw("B", whole(C)).mat("ret", ab, m, p));
  tr.put(Event("mat").str("f", "ATBT").str("ct", ctName<ct>()).raw("A", whole(A)).raw("B", whole(B)).mat("ret", atbt, n, p));
}

template<class ct, int m, int n>
void shape(Trace& tr, Rng& r, int reps)
{
  using H = Dune::Impl::FieldMatrixHelper<ct>;
  auto ev = [&](const char* f, const auto& A) {
    Event e("mat");
    e.str("f", f).str("ct", ctName<ct>()).raw("A", whole(A));
    return e;
  };
  for (int k = 0; k < reps; ++k) {
    products<ct, m, n, 1>(tr, r);
    products<ct, m, n, 2>(tr, r);
    products<ct, m, n, 3>(tr, r);
    const auto A = any<ct, m, n>(r, 9);
    Mat<ct, n, n> ata(7);
    H::ATA_L(A, ata);
    tr.put(ev("ATA_L", A).mat("ret", ata, n, n));
    ata = 7;
    H::ATA(A, ata);
    tr.put(ev("ATA", A).mat("ret", ata, n, n));
    const auto xn = anyVec<ct, n>(r, 9);
    Vec<ct, m> ax(7);
    H::Ax(A, xn, ax);
    tr.put(ev("Ax", A).raw("x", whole(xn)).nums("ret", ax, m));
    const auto xm = anyVec<ct, m>(r, 9);
    Vec<ct, n> atx(7);
    H::ATx(A, xm, atx);
    tr.put(ev("ATx", A).raw("x", whole(xm)).nums("ret", atx, n));
    Mat<ct, m, m> aat(7);
    H::AAT_L(A, aat);
    tr.put(ev("AAT_L", A).mat("ret", aat, m, m));
    Mat<ct, m, m> full(7);
    H::AAT(A, full);
    tr.put(ev("AAT", A).mat("ret", full, m, m));

    const auto W = wellShaped<ct, m, n>(r);
    // the same matrix in another unit of length: a power of two, so that the answers can be put back exactly
    const int unit = k % 3 == 0 ? 0 : (k % 3 == 1 ? -1 : 1) * (std::is_same<ct, float>::value ? 5 : k % 2 ? 20 : 40);
    const ct u = std::ldexp(ct(1), unit);
    auto V = W;
    V *= u;
    auto back = [&](ct v, int power) { return std::ldexp(v, -unit * power); };
    tr.put(ev("detATA", W).x("det", back(H::detATA(V), n)));
    tr.put(ev("sqrtDetAAT", W).x("det", back(H::sqrtDetAAT(V), m)));
    // the shapes with a formula of their own also take singular matrices
    if constexpr ((m == 2 && n == 2) || (m == 3 && n == 3) || (m == 2 && n == 3)) {
      const auto S = any<ct, m, n>(r, 3);
      tr.put(ev("sqrtDetAAT", S).x("det", H::sqrtDetAAT(S)));
    }
    if constexpr (m >= n) {
      Mat<ct, n, m> inv(7);
      const ct d = H::leftInvA(V, inv);
      inv *= u;
      tr.put(ev("leftInvA", W).x("det", back(d, n)).mat("ret", inv, n, m));
      const auto x = anyVec<ct, m>(r, 9);
      Vec<ct, n> y(7);
      const bool ok = H::leftInvAx(V, x, y);
      y *= u;
      tr.put(ev("leftInvAx", W).raw("x", whole(x)).b("ok", ok).nums("ret", y, n));
      auto Z = A;
      const int z = r.in(0, n - 1);
      for (int i = 0; i < m; ++i) Z[i][z] = 0;
      Vec<ct, n> q(7);
      const bool zok = H::leftInvAx(Z, x, q);
      tr.put(ev("leftInvAx", Z).raw("x", whole(x)).b("ok", zok).nums("ret", q, n));
    }
    if constexpr (n >= m) {
      Mat<ct, n, m> inv(7);
      const ct d = H::rightInvA(V, inv);
      inv *= u;
      tr.put(ev("rightInvA", W).x("det", back(d, m)).mat("ret", inv, n, m));
      const auto x = anyVec<ct, n>(r, 9);
      Vec<ct, m> y(7);
      const bool ok = H::xTRightInvA(V, x, y);
      y *= u;
      tr.put(ev("xTRightInvA", W).raw("x", whole(x)).b("ok", ok).nums("ret", y, m));
      auto Z = A;
      const int z = r.in(0, m - 1);
      for (int j = 0; j < n; ++j) Z[z][j] = 0;
      Vec<ct, m> q(7);
      const bool zok = H::xTRightInvA(Z, x, q);
      tr.put(ev("xTRightInvA", Z).raw("x", whole(x)).b("ok", zok).nums("ret", q, m));
    }
  }
}

template<class ct, int n>
void triangular(Trace& tr, Rng& r, int reps)
{
  using H = Dune::Impl::FieldMatrixHelper<ct>;
  for (int k = 0; k < reps; ++k) {
    Mat<ct, n, n> L(0);
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < i; ++j) L[i][j] = r.in(-3, 3);
      L[i][i] = r.in(2, 6);
    }
    auto ev = [&](const char* f) {
      Event e("mat");
      e.str("f", f).str("ct", ctName<ct>()).raw("A", whole(L));
      return e;
    };
    const int unit = k % 3 == 0 ? 0 : (k % 3 == 1 ? -1 : 1) * (std::is_same<ct, float>::value ? 5 : k % 2 ? 20 : 40);
    const ct u = std::ldexp(ct(1), unit);
    const auto x = anyVec<ct, n>(r, 9);
    Vec<ct, n> y(7);
    H::Lx(L, x, y);
    tr.put(ev("Lx").raw("x", whole(x)).nums("ret", y, n));
    y = 7;
    H::LTx(L, x, y);
    tr.put(ev("LTx").raw("x", whole(x)).nums("ret", y, n));
    Mat<ct, n, n> R(7);
    H::LTL(L, R);
    tr.put(ev("LTL").mat("ret", R, n, n));
    R = 7;
    H::LLT(L, R);
    tr.put(ev("LLT").mat("ret", R, n, n));
    const Mat<ct, n, n> A = R;
    tr.put(ev("detL").x("det", H::detL(L)));
    R = L;
    const ct d = H::invL(R);
    tr.put(ev("invL").x("det", d).mat("ret", R, n, n));
    Mat<ct, n, n> LL = L;
    y = x;
    H::invLx(LL, y);
    tr.put(ev("invLx").raw("x", whole(x)).nums("ret", y, n));
    y = x;
    H::invLTx(LL, y);
    tr.put(ev("invLTx").raw("x", whole(x)).nums("ret", y, n));
    // the symmetric positive definite matrix L L^T
    for (int check = 0; check < 2; ++check) {
      R = 0;
      auto S = A;
      S *= u * u;
      const bool ok = H::cholesky_L(S, R, check == 1);
      R /= u;
      tr.put(ev("cholesky_L").b("ok", ok).mat("ret", R, n, n));
    }
    auto T = A;
    T *= u * u;
    tr.put(ev("spdDetA").x("det", std::ldexp(H::spdDetA(T), -unit * n)));
    R = T;
    const ct det = std::ldexp(H::spdInvA(R), -unit * n);
    R *= u * u;
    tr.put(ev("spdInvA").x("det", det).mat("ret", R, n, n));
    for (int check = 0; check < 2; ++check) {
      R = T;
      y = x;
      const bool ok = H::spdInvAx(R, y, check == 1);
      y *= u * u;
      tr.put(ev("spdInvAx").raw("x", whole(x)).b("ok", ok).nums("ret", y, n));
    }
  }
}

template<class ct>
void all(Trace& tr, const Options& o, int reps)
{
  Rng r(o.seed * 15485863 + sizeof(ct));
  if (o.thorough) reps *= 8;
  forEachStatic(std::make_index_sequence<4>{}, [&](auto i) {
    forEachStatic(std::make_index_sequence<4>{}, [&](auto j) { shape<ct, int(i) + 1, int(j) + 1>(tr, r, reps); });
    triangular<ct, int(i) + 1>(tr, r, reps);
  });
  forEachStatic(std::make_index_sequence<4>{}, [&](auto i) {
    shape<ct, int(i) + 1, 5>(tr, r, reps);
    shape<ct, 5, int(i) + 1>(tr, r, reps);
  });
  shape<ct, 5, 5>(tr, r, reps);
  triangular<ct, 5>(tr, r, reps);
}

int main(int argc, char** argv)
{
  Options o = options(argc, argv);
  Trace tr(o.out + "/trace.ndjson");
  all<double>(tr, o, 8);
  all<float>(tr, o, 2);
  return 0;
}
