// C31 convergence to exact solutions
#include "hydro.h"
#include "hydro/HydroUpdate.h"
using namespace dyablo;
using namespace hy;

namespace {
// exact solution of the Riemann problem of an ideal gas (no vacuum) at speed xi = x/t
struct Riemann
{
  double g, rl, ul, pl, rr, ur, pr, ps, us;
  double side(double p, double r, double pk, double* d) const
  {
    double a = std::sqrt(g * pk / r);
    if (p > pk)
    {
      double A = 2 / ((g + 1) * r), B = (g - 1) / (g + 1) * pk, q = std::sqrt(A / (p + B));
      *d = q * (1 - 0.5 * (p - pk) / (p + B));
      return (p - pk) * q;
    }
    double e = (g - 1) / (2 * g);
    *d = std::pow(p / pk, -(g + 1) / (2 * g)) / (r * a);
    return 2 * a / (g - 1) * (std::pow(p / pk, e) - 1);
  }
  Riemann(double g, double rl, double ul, double pl, double rr, double ur, double pr) : g(g), rl(rl), ul(ul), pl(pl), rr(rr), ur(ur), pr(pr)
  {
    double p = 0.5 * (pl + pr);
    for (int i = 0; i < 200; i++)
    {
      double d1, d2, f = side(p, rl, pl, &d1) + side(p, rr, pr, &d2) + ur - ul;
      double n = std::max(1e-9 * std::min(pl, pr), p - f / (d1 + d2));
      if (std::fabs(n - p) < 1e-14 * p) break;
      p = n;
    }
    double d;
    ps = p;
    us = 0.5 * (ul + ur) + 0.5 * (side(p, rr, pr, &d) - side(p, rl, pl, &d));
  }
  // density, velocity, pressure
  void at(double xi, double* q) const
  {
    bool L = xi < us;
    double s = L ? 1 : -1, r = L ? rl : rr, u = (L ? ul : ur) * s, p = L ? pl : pr, U = us * s, x = xi * s;
    double a = std::sqrt(g * p / r);
    if (ps > p)
    {
      double z = ps / p, S = u - a * std::sqrt((g + 1) / (2 * g) * z + (g - 1) / (2 * g));
      if (x > S) { r *= (z + (g - 1) / (g + 1)) / ((g - 1) / (g + 1) * z + 1); u = U; p = ps; }
    }
    else
    {
      double as = a * std::pow(ps / p, (g - 1) / (2 * g));
      if (x > U - as) { r *= std::pow(ps / p, 1 / g); u = U; p = ps; }
      else if (x > u - a)
      {
        double k = 2 / (g + 1) + (g - 1) / ((g + 1) * a) * (u - x);
        r *= std::pow(k, 2 / (g - 1));
        p *= std::pow(k, 2 * g / (g - 1));
        u = 2 / (g + 1) * (a + (g - 1) / 2 * u + x);
      }
    }
    q[0] = r;
    q[1] = u * s;
    q[2] = p;
  }
  double fastest() const
  {
    double al = std::sqrt(g * pl / rl), ar = std::sqrt(g * pr / rr);
    double sl = ps > pl ? ul - al * std::sqrt((g + 1) / (2 * g) * ps / pl + (g - 1) / (2 * g)) : ul - al;
    double sr = ps > pr ? ur + ar * std::sqrt((g + 1) / (2 * g) * ps / pr + (g - 1) / (2 * g)) : ur + ar;
    return std::max({std::fabs(sl), std::fabs(sr), std::fabs(ul), std::fabs(ur)});
  }
};
const char* wave_name[] = {"advected density", "sound", "Alfven", "Riemann problem"};
} // namespace

void C31(Case& c)
{
  enum { ENTROPY, SOUND, ALFVEN, RIEMANN };
  Problem P;
  auto all = schemes();
  P.s = c.pick(all);
  int w = P.s.kind == HYDRO ? c.pick<int>({ENTROPY, SOUND, RIEMANN}) : c.pick<int>({ENTROPY, ALFVEN, RIEMANN, SOUND});
  int dim = P.g.p.dim = c.pick<int>({2, 3, 2});
  int axis = (int)c.draw(0, dim - 1);
  bool patchy = P.s.id != "HydroUpdate_legacy" && c.coin(1, 3) && (dim == 2 || P.s.one()); // half of the domain one level finer
  uint32_t across = patchy && !P.s.one() ? 4 : 2;
  P.gamma = c.pick<double>({1.4, 5. / 3., 1.2, 2});
  static const double lo[4] = {0, -1, 0.3, 100}, hi[4] = {1, 1, 1.7, 103};
  int box = (int)c.draw(0, 3);
  double len = hi[box] - lo[box];
  double rho = c.real(0.2, 3, 6), p = c.real(0.3, 3, 6), dirn = c.coin() ? 1 : -1;
  double vel[3], B[3], ph = c.real(0, 1, 6);
  for (int a = 0; a < 3; a++)
  {
    vel[a] = c.real(-1.5, 1.5, 6);
    B[a] = P.s.kind == HYDRO ? 0 : c.real(-1.5, 1.5, 6);
  }
  if (w == ALFVEN && std::fabs(B[axis]) < 0.3) B[axis] = 0.6;
  if (w == ALFVEN || w == SOUND) for (int a = 0; a < 3; a++) if (a != axis) B[a] = 0;
  if (w == RIEMANN) for (int a = 0; a < 3; a++) B[a] = 0;
  if (dim == 2) vel[2] = 0;
  double amp = w == ENTROPY ? c.pick<double>({0.3, 0.05, 0.6}) : w == SOUND ? 1e-5 : dim == 3 ? c.pick<double>({P.s.id.find("euler") != std::string::npos ? 0.1 : 0.3, 0.1}) * std::fabs(B[axis]) : 1e-5 * std::fabs(B[axis]);
  double cs = std::sqrt(P.gamma * p / rho), speed = vel[axis];
  if (w == SOUND) speed += dirn * cs;
  if (w == ALFVEN) speed += dirn * std::fabs(B[axis]) / std::sqrt(rho);
  if (w == ENTROPY && std::fabs(speed) < 0.2) { speed = vel[axis] = 0.7 * dirn; }
  if (w == RIEMANN) vel[axis] *= cs / 1.5; // at most Mach 1 : shells of fast flows are thinner than the cells
  Riemann ex(P.gamma, rho, vel[axis], p, rho * std::exp(c.real(-1, 1, 6)), vel[axis] + c.real(-0.6, 0.3, 6), p * std::exp(c.real(-1.2, 1.2, 6)));
  double T;
  if (w == RIEMANN) T = 0.45 * len / ex.fastest();
  else
  {
    double cf = std::sqrt((P.gamma * p + B[0] * B[0] + B[1] * B[1] + B[2] * B[2]) / rho) + std::fabs(vel[axis]);
    T = std::min(0.25 * len / std::max(std::fabs(speed), 1e-3), 0.3 * len / cf);
  }
  int o1 = (axis + 1) % 3, o2 = (axis + 2) % 3; // transverse axes
  auto exact = [=](double x, double t) {
    Q q{rho, p, vel[0], vel[1], vel[2], B[0], B[1], B[2], 0};
    double y = (x - lo[box]) / len;
    if (w == RIEMANN)
    {
      double r[3];
      ex.at(t > 0 ? (y - 0.5) * len / t : (y < 0.5 ? -1e30 : 1e30), r);
      q[0] = r[0];
      q[2 + axis] = r[1];
      q[1] = r[2];
      return q;
    }
    double k = 2 * M_PI * (y - speed * t / len + ph), s = std::sin(k), co = std::cos(k);
    if (w == ENTROPY) q[0] = rho * (1 + amp * s);
    else if (w == SOUND)
    {
      q[0] = rho * (1 + amp * s);
      q[1] = p * (1 + P.gamma * amp * s);
      q[2 + axis] += dirn * cs * amp * s;
    }
    else
    {
      // velocity and field fluctuate against each other for waves along the field
      double sg = (B[axis] > 0 ? 1 : -1) * dirn, d = amp / std::sqrt(rho);
      if (dim == 3)
      {
        q[5 + o1] = amp * s;
        q[5 + o2] = amp * co;
        q[2 + o1] -= sg * d * s;
        q[2 + o2] -= sg * d * co;
      }
      else
      {
        int o = 1 - axis;
        q[5 + o] = amp * s;
        q[2 + o] -= sg * d * s;
      }
    }
    return q;
  };
  int n0 = c.pick<int>({32, 24, w == RIEMANN ? 32 : 40});
  double err[2] = {0, 0}, err2[2] = {0, 0}; // err2 : all but the density
  double cfl = c.pick<double>({0.6, 0.4});
  std::ostringstream info;
  uint32_t bl = (uint32_t)c.pick<int>({4, 8});
  for (int pass = 0; pass < 2; pass++)
  {
    Problem R = P;
    uint32_t n = (uint32_t)n0 << (w == RIEMANN ? 2 * pass : pass);
    R.g.lo[axis] = lo[box];
    R.g.hi[axis] = hi[box];
    for (int a = 0; a < 3; a++)
    {
      R.g.p.coarse[a] = 1;
      R.g.b[a] = a < dim ? across : 1;
      R.g.p.per[a] = a < dim;
      if (a != axis) R.g.lo[a] = -0.2 * len, R.g.hi[a] = R.g.lo[a] + len * across / n;
    }
    R.g.b[axis] = bl;
    R.g.p.coarse[axis] = n / bl;
    R.g.p.lmin = 0;
    while ((1u << R.g.p.lmin) < R.g.p.coarse[axis]) R.g.p.lmin++;
    R.g.p.lmax = R.g.p.lmin + (patchy ? 1 : 0);
    if (w == RIEMANN) R.g.p.per[axis] = false;
    for (int a = 0; a < 3; a++)
      for (int s = 0; s < 2; s++) R.bc[a][s] = R.g.p.per[a] ? "periodic" : "absorbing";
    mg::Model M;
    M.init(R.g.p);
    if (patchy)
    {
      std::vector<int> mk;
      for (auto& o : M.octs) mk.push_back(o.c[axis] >= R.g.p.coarse[axis] / 4 && o.c[axis] < R.g.p.coarse[axis] * 3 / 4);
      M.apply(M.close_markers(mk));
    }
    R.leaves = M.octs;
    hc::Grid g = R.g;
    R.prim = [=](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) { return exact(hc::cell_center(g, o, i, j, k)[axis], 0); };
    R.extra["hydro"]["smallr"] = "1e-10", R.extra["hydro"]["smallp"] = "1e-22"; // the floor of the sound speed is sqrt(gamma smallp / smallr)
    double dt = cfl * stable_dt(R);
    int steps = (int)std::ceil(T / dt);
    R.dt = T / steps;
    auto S = make_sim(c, R, false);
    auto up = HydroUpdateFactory::make_instance(R.s.id, *S->cfg, *S->fc, S->timers);
    for (int q = 0; q < steps; q++) step(*S, R, *up, R.dt);
    auto snap = hc::snapshot(g, *S->m, *S->U, S->names);
    double e[9] = {0}, vol = 0;
    for (size_t o = 0; o < snap.octs.size(); o++)
    {
      double v = hc::cell_volume(g, snap.octs[o]);
      hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
        Q u{};
        size_t q = i + g.b[0] * (j + (size_t)g.b[1] * k);
        for (int f = 0; f < R.nf(); f++) u[f] = snap.at(o, f, q);
        Q x = to_prim(u, R.gamma, dim, R.s.kind);
        // mean of the exact solution over the cell
        double h = hc::cell_size(g, snap.octs[o])[axis], x0 = hc::cell_center(g, snap.octs[o], i, j, k)[axis];
        Q y{};
        const int m = w == RIEMANN ? 16 : 1;
        for (int z = 0; z < m; z++)
        {
          Q t = exact(x0 + ((z + 0.5) / m - 0.5) * h, T);
          for (int f = 0; f < 9; f++) y[f] += t[f] / m;
        }
        for (int f = 0; f < 9; f++) e[f] += std::fabs(x[f] - y[f]) * v;
        vol += v;
      });
    }
    double am = amp;
    double unit[9] = {rho * am, p, cs, cs, cs, 1, 1, 1, 1};
    if (w == SOUND) unit[1] = p * am, unit[2] = unit[3] = unit[4] = cs * am;
    if (w == ALFVEN)
    {
      unit[0] = rho * am, unit[1] = p * am;
      for (int f = 2; f < 5; f++) unit[f] = am / std::sqrt(rho);
      for (int f = 5; f < 8; f++) unit[f] = am;
    }
    if (w == RIEMANN) unit[0] = std::max(ex.rl, ex.rr), unit[1] = std::max(ex.pl, ex.pr), unit[2] = unit[3] = unit[4] = std::sqrt(P.gamma * unit[1] / std::min(ex.rl, ex.rr));
    for (int f = 0; f < 8; f++) { err[pass] = std::max(err[pass], e[f] / vol / unit[f]); if (f) err2[pass] = std::max(err2[pass], e[f] / vol / unit[f]); }
    info << (pass ? " / " : " errors ") << err[pass] << " (" << n << " cells " << steps << " steps)";
    if (getenv("C31_DETAIL")) { info << " ["; for (int f = 0; f < 9; f++) info << e[f] / vol / unit[f] << " "; info << "]"; }
  }
  c.desc << P.s.id << "/" << P.s.riemann << " " << wave_name[w] << " along " << "xyz"[axis] << " in " << dim << "D" << (patchy ? " two levels" : "") << " rho " << rho << " p " << p << " v " << vel[axis] << " B " << B[axis] << " gamma " << P.gamma
         << " amplitude " << amp << " speed " << speed << " T " << T << info.str();
  c.label(std::string(wave_name[w]) + " " + P.s.id);
  if (getenv("C31_LOG")) fprintf(stderr, "LOG;%s/%s;%s;%d;%d;%g;%g;%g;%g;%g\n", P.s.id.c_str(), P.s.riemann.c_str(), wave_name[w], dim, patchy, err[0], err[1], err[1] / err[0], err2[1], err2[1] / err2[0]);
  bool euler = P.s.id.find("euler") != std::string::npos; // first order in time
  // single level, second order : 1/4 expected. Two levels : first order at the interface.
  double most = w == RIEMANN ? 0.15 : euler ? 0.09 : 0.05, ratio = w == RIEMANN ? 1.1 : patchy ? 1.15 : euler ? (w == ALFVEN ? 0.75 : 0.65) : 0.42;
  double small = w == RIEMANN ? 0.01 : w == SOUND || (w == ALFVEN && dim == 2) ? 1e-3 : 1e-8; // linear waves : neglected terms
  PBT_CHECK(c, std::isfinite(err[0]) && std::isfinite(err[1]), "the error is not a number");
  PBT_CHECK(c, err[1] <= most, "the error is " << err[1] << " on the fine mesh, at most " << most << " expected");
  if (err[0] > small) PBT_CHECK(c, err[1] <= ratio * err[0], "the error goes from " << err[0] << " to " << err[1] << (w == RIEMANN ? " on cells four times" : " on cells twice") << " smaller, less than " << ratio * err[0] << " expected");
  if (w == RIEMANN && err2[0] > 0.02)
  {
    PBT_CHECK(c, err2[1] <= 0.07, "the error of pressure and velocity is " << err2[1] << " on the fine mesh");
    PBT_CHECK(c, err2[1] <= 0.9 * err2[0], "the error of pressure and velocity goes from " << err2[0] << " to " << err2[1] << " on cells four times smaller");
  }
  c.nontrivial = err[0] > std::min(small, 1e-3);
}
