// Stub of the external abscab-cpp library (absent offline): plain Biot-Savart
// for straight segments and a 256-gon approximation of circular loops.
#ifndef VERIF_SHIM_ABSCAB_H_
#define VERIF_SHIM_ABSCAB_H_
#include <cmath>
#include <vector>
namespace abscab {
constexpr double MU_0 = 1.25663706212e-6;
inline void Segment(const double* a, const double* b, double current, int n,
                    const double* pos, double* B, double* A) {
  const double e[3] = {b[0] - a[0], b[1] - a[1], b[2] - a[2]};
  const double L = std::sqrt(e[0] * e[0] + e[1] * e[1] + e[2] * e[2]);
  if (L == 0.0) return;
  for (int i = 0; i < n; ++i) {
    const double* p = pos + 3 * i;
    double ri[3], rf[3];
    for (int k = 0; k < 3; ++k) {
      ri[k] = p[k] - a[k];
      rf[k] = p[k] - b[k];
    }
    const double Ri = std::sqrt(ri[0] * ri[0] + ri[1] * ri[1] + ri[2] * ri[2]);
    const double Rf = std::sqrt(rf[0] * rf[0] + rf[1] * rf[1] + rf[2] * rf[2]);
    const double eps = L / (Ri + Rf);
    if (B) {
      const double f = MU_0 * current / (4.0 * M_PI) * 2.0 * eps /
                       (1.0 - eps * eps) * (Ri + Rf) / (Ri * Rf * (Ri + Rf)) / L;
      // Hanson & Hirshman compact form
      const double c[3] = {e[1] * ri[2] - e[2] * ri[1],
                           e[2] * ri[0] - e[0] * ri[2],
                           e[0] * ri[1] - e[1] * ri[0]};
      for (int k = 0; k < 3; ++k) B[3 * i + k] += f * c[k];
    }
    if (A) {
      const double f = MU_0 * current / (4.0 * M_PI) *
                       std::log((1.0 + eps) / (1.0 - eps)) / L;
      for (int k = 0; k < 3; ++k) A[3 * i + k] += f * e[k];
    }
  }
}
inline std::vector<double> Circle(const double* c, const double* nrm, double r) {
  const int N = 256;
  double n[3] = {nrm[0], nrm[1], nrm[2]};
  double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
  for (double& x : n) x /= l;
  double t[3] = {0, 0, 0};
  t[std::fabs(n[0]) < 0.9 ? 0 : 1] = 1.0;
  double u[3] = {t[1] * n[2] - t[2] * n[1], t[2] * n[0] - t[0] * n[2],
                 t[0] * n[1] - t[1] * n[0]};
  l = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]);
  for (double& x : u) x /= l;
  double v[3] = {n[1] * u[2] - n[2] * u[1], n[2] * u[0] - n[0] * u[2],
                 n[0] * u[1] - n[1] * u[0]};
  std::vector<double> out;
  for (int i = 0; i <= N; ++i) {
    const double ph = 2.0 * M_PI * (i % N) / N;
    for (int k = 0; k < 3; ++k)
      out.push_back(c[k] + r * (std::cos(ph) * u[k] + std::sin(ph) * v[k]));
  }
  return out;
}
inline void Poly(int nv, const double* v, double I, int n, const double* p,
                 double* B, double* A) {
  for (int i = 0; i + 1 < nv; ++i) Segment(v + 3 * i, v + 3 * i + 3, I, n, p, B, A);
}
inline void magneticFieldPolygonFilament(int nv, const double* v, double I, int n,
                                         const double* p, double* B, int = 1) {
  Poly(nv, v, I, n, p, B, nullptr);
}
inline void vectorPotentialPolygonFilament(int nv, const double* v, double I,
                                           int n, const double* p, double* A, int = 1) {
  Poly(nv, v, I, n, p, nullptr, A);
}
inline void magneticFieldCircularFilament(const double* c, const double* nrm,
                                          double r, double I, int n,
                                          const double* p, double* B, int = 1) {
  auto v = Circle(c, nrm, r);
  Poly(static_cast<int>(v.size() / 3), v.data(), I, n, p, B, nullptr);
}
inline void vectorPotentialCircularFilament(const double* c, const double* nrm,
                                            double r, double I, int n,
                                            const double* p, double* A, int = 1) {
  auto v = Circle(c, nrm, r);
  Poly(static_cast<int>(v.size() / 3), v.data(), I, n, p, nullptr, A);
}
}  // namespace abscab
#endif
