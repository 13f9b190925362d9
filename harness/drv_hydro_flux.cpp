// C13 state conversions and Riemann fluxes; C14 time steps
#include "hydro.h"
#include "RiemannSolvers.h"
#include "utils_hydro.h"
#include "compute_dt/Compute_dt.h"
#include "Cosmo.h"
using namespace dyablo;
using namespace hy;

namespace {

// ---- C13 ---------------------------------------------------------------------
double logu(Case& c, double lo, double hi) { return std::exp(c.real(std::log(lo), std::log(hi), 2000)); }
struct Pick
{
  double gamma;
  int dim;
};
Q gen_prim(Case& c, Kind k, int dim)
{
  Q q{};
  double rs = c.pick<double>({1, 1, 1e-3, 1e3});
  q[0] = logu(c, 0.2, 5) * rs;
  q[1] = logu(c, 0.2, 5) * c.pick<double>({1, 1, 1e-3, 1e3});
  double cs = std::sqrt(q[1] / q[0]);
  double mach = c.pick<double>({1, 0, 0.1, 5, 30});
  for (int a = 0; a < dim; a++) q[2 + a] = mach * cs * c.real(-1, 1);
  if (k != HYDRO)
  {
    double beta = c.pick<double>({1, 0, 0.1, 10});
    for (int a = 0; a < 3; a++) q[5 + a] = beta * std::sqrt(q[1]) * c.real(-1, 1);
    int z = (int)c.draw(0, 5);
    if (z == 1) q[6] = q[7] = 0;
    if (z == 2) q[5] = 0;
    if (z == 3) { q[6] = q[7] = 0; q[5] = std::sqrt(1.4 * q[1]); }
  }
  if (k == GLM) q[8] = c.real(-1, 1);
  return q;
}
template <class S> struct Cv;
template <> struct Cv<HydroState>
{
  static constexpr Kind kind = HYDRO;
  static PrimHydroState p(const Q& q) { return {q[0], q[1], q[2], q[3], q[4]}; }
  static ConsHydroState u(const Q& q) { return {q[0], q[1], q[2], q[3], q[4]}; }
  static Q q(const PrimHydroState& s) { return {s.rho, s.p, s.u, s.v, s.w, 0, 0, 0, 0}; }
  static Q q(const ConsHydroState& s) { return {s.rho, s.e_tot, s.rho_u, s.rho_v, s.rho_w, 0, 0, 0, 0}; }
};
template <> struct Cv<MHDState>
{
  static constexpr Kind kind = MHD;
  static PrimMHDState p(const Q& q) { return {q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]}; }
  static ConsMHDState u(const Q& q) { return {q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]}; }
  static Q q(const PrimMHDState& s) { return {s.rho, s.p, s.u, s.v, s.w, s.Bx, s.By, s.Bz, 0}; }
  static Q q(const ConsMHDState& s) { return {s.rho, s.e_tot, s.rho_u, s.rho_v, s.rho_w, s.Bx, s.By, s.Bz, 0}; }
};
template <> struct Cv<GLMMHDState>
{
  static constexpr Kind kind = GLM;
  static PrimGLMMHDState p(const Q& q) { return {q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8]}; }
  static ConsGLMMHDState u(const Q& q) { return {q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8]}; }
  static Q q(const PrimGLMMHDState& s) { return {s.rho, s.p, s.u, s.v, s.w, s.Bx, s.By, s.Bz, s.psi}; }
  static Q q(const ConsGLMMHDState& s) { return {s.rho, s.e_tot, s.rho_u, s.rho_v, s.rho_w, s.Bx, s.By, s.Bz, s.psi}; }
};
std::string str(const Q& q)
{
  std::ostringstream s;
  s.precision(17);
  s << "(";
  for (int i = 0; i < 9; i++) s << (i ? " " : "") << q[i];
  s << ")";
  return s.str();
}
// energy-like magnitude used for tolerances of every component
Q mag(const Q& q, double gamma)
{
  double v2 = q[2] * q[2] + q[3] * q[3] + q[4] * q[4], b2 = q[5] * q[5] + q[6] * q[6] + q[7] * q[7];
  double E = q[1] / (gamma - 1) + 0.5 * q[0] * v2 + 0.5 * b2;
  return {q[0], E, q[0] * std::sqrt(v2), 0, 0, std::sqrt(b2), 0, 0, 0};
}

template <class S, int dim> void conversions(Case& c, const Q& q, double gamma)
{
  Kind k = Cv<S>::kind;
  Q u = Cv<S>::q(primToCons<dim>(Cv<S>::p(q), gamma));
  Q e = to_cons(q, gamma, dim, k);
  for (int i = 0; i < 9; i++) PBT_CHECK(c, std::fabs(u[i] - e[i]) <= 1e-14 * (std::fabs(e[i]) + (i == 1 ? e[1] : 0)), "primToCons<" << dim << "> component " << i << " of " << str(q) << " is " << u[i] << ", expected " << e[i]);
  Q b = Cv<S>::q(consToPrim<dim>(Cv<S>::u(u), gamma));
  for (int i = 0; i < 9; i++)
  {
    double tol = i == 1 ? 1e-14 * (gamma - 1) * u[1] + 1e-14 * q[1] : 1e-14 * std::fabs(q[i]);
    PBT_CHECK(c, std::fabs(b[i] - q[i]) <= tol, "consToPrim<" << dim << ">(primToCons(q)) component " << i << " is " << b[i] << " for " << str(q));
  }
  Q u2 = Cv<S>::q(primToCons<dim>(Cv<S>::p(b), gamma));
  for (int i = 0; i < 9; i++) PBT_CHECK(c, std::fabs(u2[i] - u[i]) <= 4e-14 * (std::fabs(u[i]) + (i == 1 ? u[1] : 0)), "primToCons(consToPrim(u)) component " << i << " differs");
  // swapping an axis with x : an involution that only moves components
  for (int d = 0; d < dim; d++)
  {
    Q s = Cv<S>::q(swapComponents(Cv<S>::p(q), (ComponentIndex3D)d)), t = Cv<S>::q(swapComponents(Cv<S>::u(u), (ComponentIndex3D)d));
    Q es = q, et = u;
    std::swap(es[2], es[2 + d]);
    std::swap(et[2], et[2 + d]);
    if (k != HYDRO) { std::swap(es[5], es[5 + d]); std::swap(et[5], et[5 + d]); }
    PBT_CHECK(c, s == es && t == et, "swapComponents axis " << d << " of " << str(q) << " gives " << str(s));
  }
  // arithmetic is component-wise
  auto A = Cv<S>::p(q), B = Cv<S>::p(b);
  double f = 1.75;
  Q r1 = Cv<S>::q(A + B), r2 = Cv<S>::q(A - B), r3 = Cv<S>::q(f * A), r4 = Cv<S>::q(A / f), r5 = Cv<S>::q(A * f);
  for (int i = 0; i < 9; i++)
    PBT_CHECK(c, r1[i] == q[i] + b[i] && r2[i] == q[i] - b[i] && r3[i] == f * q[i] && r5[i] == f * q[i] && std::fabs(r4[i] - q[i] / f) <= 4e-16 * std::fabs(q[i]), "state arithmetic is not component-wise");
}

// exact flux along x
Q mhd_flux(const Q& q, double gamma)
{
  Q f{};
  double b2 = q[5] * q[5] + q[6] * q[6] + q[7] * q[7], v2 = q[2] * q[2] + q[3] * q[3] + q[4] * q[4];
  double E = q[1] / (gamma - 1) + 0.5 * q[0] * v2 + 0.5 * b2, pt = q[1] + 0.5 * b2;
  double vb = q[2] * q[5] + q[3] * q[6] + q[4] * q[7];
  f[0] = q[0] * q[2];
  f[2] = q[0] * q[2] * q[2] + pt - q[5] * q[5];
  f[3] = q[0] * q[2] * q[3] - q[5] * q[6];
  f[4] = q[0] * q[2] * q[4] - q[5] * q[7];
  f[1] = (E + pt) * q[2] - q[5] * vb;
  f[5] = 0;
  f[6] = q[6] * q[2] - q[5] * q[3];
  f[7] = q[7] * q[2] - q[5] * q[4];
  return f;
}
// magnitude of each component of the flux
Q flux_mag(const Q& q, double gamma)
{
  double b2 = q[5] * q[5] + q[6] * q[6] + q[7] * q[7], v = std::sqrt(q[2] * q[2] + q[3] * q[3] + q[4] * q[4]);
  double cf = std::sqrt((gamma * q[1] + b2) / q[0]), s = v + cf;
  double m = q[0] * s * s;
  return {q[0] * s, m * s / (gamma - 1), m, m, m, s * std::sqrt(b2) + 1e-30, s * std::sqrt(b2) + 1e-30, s * std::sqrt(b2) + 1e-30, 0};
}
bool finite(const Q& q)
{
  for (double x : q) if (!std::isfinite(x)) return false;
  return true;
}
Q mir(const Q& q)
{
  Q r = q;
  r[2] = -q[2];
  r[5] = -q[5];
  return r;
}
} // namespace

void C13(Case& c)
{
  double gamma = c.pick<double>({1.4, 5. / 3., 1.1, 2.0, 1.01});
  int kk = (int)c.draw(0, 2);
  int dim = (int)c.draw(2, 3);
  Kind k = kk == 0 ? HYDRO : kk == 1 ? MHD : GLM;
  {
    Q q = gen_prim(c, k, dim);
    if (k == HYDRO) { if (dim == 2) conversions<HydroState, 2>(c, q, gamma); else conversions<HydroState, 3>(c, q, gamma); }
    if (k == MHD) { if (dim == 2) conversions<MHDState, 2>(c, q, gamma); else conversions<MHDState, 3>(c, q, gamma); }
    if (k == GLM) { if (dim == 2) conversions<GLMMHDState, 2>(c, q, gamma); else conversions<GLMMHDState, 3>(c, q, gamma); }
  }
  std::string solver = k == HYDRO ? "hllc" : c.coin() ? "five_waves" : "hlld";
  bool glm = k == GLM;
  hc::Ini ini;
  ini["hydro"]["riemann"] = solver;
  ini["hydro"]["gamma0"] = hc::num(gamma);
  // floors far below the states (the sound speed floor is sqrt(gamma smallp / smallr))
  ini["hydro"]["smallr"] = "1e-10";
  ini["hydro"]["smallp"] = "1e-22";
  bool three = k != HYDRO && solver == "five_waves" && c.coin(1, 4);
  if (three) ini["hydro"]["three_waves"] = "yes";
  ini["hydro"]["update"] = glm ? "GLMMHDUpdate_euler" : k == MHD ? "MHDUpdate_euler" : "HydroUpdate_euler";
  ini["amr"]["bx"] = ini["amr"]["by"] = ini["amr"]["bz"] = "4";
  ini["amr"]["level_max"] = "5";
  ConfigMap cfg(hc::to_text(ini));
  RiemannParams par(cfg);
  c.label(std::string(glm ? "GLM " : "") + solver + (three ? " three waves" : ""));
  Q l = gen_prim(c, k, dim), r;
  int rel = (int)c.draw(0, 4);
  static const char* rn[] = {"independent", "equal", "small jump", "supersonic", "contact"};
  c.label(rn[rel]);
  if (rel == 0 || rel == 3) r = gen_prim(c, k, dim);
  else r = l;
  uint64_t salt = c.salt();
  double eps = c.pick<double>({1e-5, 1e-4});
  if (rel == 2)
    for (int i = 0; i < 8; i++) r[i] = l[i] + eps * (i < 2 ? l[i] : i < 5 ? std::sqrt(l[1] / l[0]) : 0.3 * std::sqrt(l[1])) * (k == HYDRO && i >= 5 ? 0 : 2 * pbt::u01(pbt::hash_combine(salt, i)) - 1);
  if (dim == 2) r[4] = 0;
  if (rel == 4)
  {
    r[0] = l[0] * (1 + pbt::u01(salt));
    l[2] = r[2] = 0;
    if (k == HYDRO) { r[3] = l[3] * 0.5 + 0.1; }
  }
  double dt = 1e-3;
  if (glm) par.ch = dt * c.pick<double>({1, 0.1, 10});
  double ch = glm ? par.ch / dt : 0;
  if (rel == 3)
  {
    // same direction, faster than any signal of either state
    double s = 0;
    for (auto* q : {&l, &r}) s = std::max(s, std::sqrt((gamma * (*q)[1] + (*q)[5] * (*q)[5] + (*q)[6] * (*q)[6] + (*q)[7] * (*q)[7]) / (*q)[0]));
    double sg = c.coin() ? 1 : -1;
    if (k != HYDRO) r[5] = l[5];
    s = 0;
    for (auto* q : {&l, &r}) s = std::max(s, std::sqrt((gamma * (*q)[1] + (*q)[5] * (*q)[5] + (*q)[6] * (*q)[6] + (*q)[7] * (*q)[7]) / (*q)[0]));
    l[2] = sg * s * (1.01 + pbt::u01(salt + 1));
    r[2] = sg * s * (1.01 + pbt::u01(salt + 2));
    if (glm) r[8] = l[8];
  }
  if (rel == 1 && glm) { l[8] = r[8] = c.coin() ? 0 : l[8]; }
  double p_out = 0;
  auto solve = [&](const Q& a, const Q& b) -> Q {
    if (k == HYDRO) return Cv<HydroState>::q(riemann_hydro(Cv<HydroState>::p(a), Cv<HydroState>::p(b), par, p_out, dt));
    if (k == GLM) return Cv<GLMMHDState>::q(riemann_hydro(Cv<GLMMHDState>::p(a), Cv<GLMMHDState>::p(b), par, p_out, dt));
    if (solver == "hlld")
    {
      ConsMHDState f{};
      riemann_hlld(Cv<MHDState>::p(a), Cv<MHDState>::p(b), f, p_out, par, 0.5 * (a[5] + b[5]));
      return Cv<MHDState>::q(f);
    }
    return Cv<MHDState>::q(riemann_hydro(Cv<MHDState>::p(a), Cv<MHDState>::p(b), par, p_out, dt));
  };
  if (k == MHD && solver == "hlld") r[5] = l[5]; // the solver takes one normal field
  c.desc << (glm ? "GLM " : "") << solver << " gamma " << gamma << " " << rn[rel] << " L" << str(l) << " R" << str(r);
  Q F = solve(l, r);
  PBT_CHECK(c, finite(F), "flux is not finite: " << str(F));
  Q ml = flux_mag(l, gamma), mr = flux_mag(r, gamma), m;
  double pmax = 0;
  for (int i = 0; i < 9; i++) m[i] = std::max(ml[i], mr[i]), pmax = std::max(pmax, m[i]);
  if (!finite(F)) return;
  if (k != GLM || solver != "hlld") PBT_CHECK(c, std::isfinite(p_out), "interface pressure not finite");
  // mirror
  {
    Q G = solve(mir(r), mir(l));
    Q e = F;
    for (double& x : e) x = -x;
    e[2] = F[2];
    e[5] = F[5];
    // the upwind side is decided by the sign of the interface speed : skip states where it is zero
    bool at_rest = k != HYDRO && (rel == 4 || std::fabs(F[0]) < 1e-10 * m[0]);
    double mm[9];
    double cc = std::max(std::sqrt((gamma * l[1]) / l[0]), std::sqrt((gamma * r[1]) / r[0]));
    for (int i = 0; i < 9; i++) mm[i] = m[i];
    // the waves of the stiffer side carry the density of the other one
    double rr = std::max(l[0], r[0]), vv = std::max(std::max(ml[0] / l[0], mr[0] / r[0]), cc);
    mm[0] = rr * vv;
    mm[1] = rr * vv * vv * vv / (gamma - 1);
    mm[2] = mm[3] = mm[4] = rr * vv * vv;
    for (int i = 5; i < 8; i++) mm[i] = std::max(m[i], vv * std::max(std::fabs(l[i]), std::fabs(r[i]))) + std::sqrt(rr) * vv * vv;
    mm[8] = std::fabs(F[8]) + 1e-30;
    if (glm) mm[5] += std::fabs(l[8]) + std::fabs(r[8]) + ch * (std::fabs(l[5]) + std::fabs(r[5])), mm[8] += ch * ch * (std::fabs(l[5]) + std::fabs(r[5])) + ch * (std::fabs(l[8]) + std::fabs(r[8]));
    // close to a singularity of the intermediate states the last digit of the input decides
    bool ill = false;
    for (int t = 0; t < 4 && k != HYDRO && solver == "hlld"; t++)
    {
      Q a = l, b = r;
      for (int i = 0; i < 8; i++)
      {
        a[i] *= 1 + 4e-16 * (((t * 5 + i) % 3) - 1);
        b[i] *= 1 + 4e-16 * (((t * 7 + i * 2) % 3) - 1);
      }
      b[5] = a[5] * (l[5] != 0 ? r[5] / l[5] : 1);
      if (l[5] == 0) b[5] = r[5];
      Q H = solve(a, b);
      for (int i = 0; i < 8; i++) ill = ill || !(std::fabs(H[i] - F[i]) <= 1e-11 * mm[i]);
    }
    if (ill) c.label("ill-conditioned (mirror skipped)");
    if (!at_rest && !ill)
      for (int i = 0; i < (glm ? 9 : k == MHD ? 8 : 5); i++)
        PBT_CHECK(c, std::fabs(G[i] - e[i]) <= 1e-10 * mm[i], "mirrored states give flux " << str(G) << " instead of " << str(e) << " (component " << i << ")");
  }
  // y <-> z and rotation of both transverse axes by half a turn
  if (dim == 3)
  {
    auto sw = [](Q q) { std::swap(q[3], q[4]); std::swap(q[6], q[7]); return q; };
    Q G = solve(sw(l), sw(r)), e = sw(F);
    for (int i = 0; i < 8; i++) PBT_CHECK(c, std::fabs(G[i] - e[i]) <= 1e-10 * std::max(m[i], std::fabs(e[i])), "exchanging y and z gives flux " << str(G) << " instead of " << str(e));
  }
  Q fl = mhd_flux(l, gamma);
  auto same = [&](const Q& want, double tol, const char* what) {
    for (int i = 0; i < (k == HYDRO ? 5 : 8); i++)
    {
      if (i == 5 && glm) continue;
      PBT_CHECK(c, std::fabs(F[i] - want[i]) <= tol * m[i], what << " component " << i << " is " << F[i] << ", expected " << want[i]);
    }
  };
  if (rel == 1)
  {
    same(fl, 1e-11, "flux of two equal states");
    if (glm)
    {
      double d = std::exp(-0.5 * dt * ch / par.cr);
      PBT_CHECK(c, std::fabs(F[5] - l[8] * d) <= 1e-12 * (std::fabs(l[8]) + 1), "GLM flux of Bx for equal states is " << F[5] << ", expected the damped psi " << l[8] * d);
      PBT_CHECK(c, std::fabs(F[8] - ch * ch * l[5]) <= 1e-12 * ch * ch * (std::fabs(l[5]) + 1e-3), "GLM flux of psi for equal states is " << F[8] << ", expected ch^2 Bx " << ch * ch * l[5]);
    }
  }
  if (rel == 3 && solver != "five_waves") same(l[2] > 0 ? fl : mhd_flux(r, gamma), 1e-11, "supersonic flux");
  if (rel == 4 && k == HYDRO)
  {
    // two gases at rest with equal pressure : nothing flows
    PBT_CHECK(c, std::fabs(F[0]) <= 1e-12 * m[0] && std::fabs(F[1]) <= 1e-12 * m[1] && std::fabs(F[2] - l[1]) <= 1e-12 * m[2], "flux through a contact at rest is " << str(F));
  }
  if (rel == 2 && k == HYDRO)
  {
    // a weak jump : the flux is that of the exactly linearised equations
    double rho = 0.5 * (l[0] + r[0]), p = 0.5 * (l[1] + r[1]), u = 0.5 * (l[2] + r[2]), cs = std::sqrt(gamma * p / rho);
    double du = r[2] - l[2], dp = r[1] - l[1];
    if (std::fabs(std::fabs(u) - cs) > 20 * eps * cs && std::fabs(u) > 20 * eps * cs)
    {
      double am = (dp - rho * cs * du) / 2, ap = (dp + rho * cs * du) / 2;
      // state on x/t = 0
      Q s{};
      double ps = l[1], us = l[2], rs = l[0], vs = l[3], ws = l[4];
      if (u - cs < 0) { ps += am; us += -am / (rho * cs); rs += am / (cs * cs); }
      if (u < 0) { rs += (r[0] - l[0]) - dp / (cs * cs); vs = r[3]; ws = r[4]; }
      if (u + cs < 0) { ps += ap; us += ap / (rho * cs); rs += ap / (cs * cs); }
      s = {rs, ps, us, vs, ws, 0, 0, 0, 0};
      Q e = mhd_flux(s, gamma);
      double M = (std::fabs(u) + cs) / cs;
      for (int i = 0; i < 5; i++)
        PBT_CHECK(c, std::fabs(F[i] - e[i]) <= 60 * eps * eps * M * m[i] / (gamma - 1) + 1e-12 * m[i], "flux across a weak jump, component " << i << ": " << F[i] << ", linearised solution " << e[i]);
      c.label("linearised");
    }
  }
  c.nontrivial = rel != 1;
}

// default floors : a supersonic flow whose sound speed is below sqrt(gamma smallp/smallr)
void C13_floor(Case& c)
{
  ConfigMap cfg(std::string("[hydro]\ngamma0=1.4\n"));
  RiemannParams par(cfg);
  double p_out;
  PrimHydroState l{1, 1e-2, 0.9, 0, 0}, r{1, 2e-2, 0.9, 0, 0};
  ConsHydroState F = riemann_hydro(l, r, par, p_out, 1.0);
  c.desc << "hllc, default floors, rho 1, u 0.9, p 0.01 | 0.02";
  PBT_CHECK(c, std::fabs(F.rho - 0.9) < 1e-12, "mass flux " << F.rho << " of a supersonic flow, expected 0.9");
}

// ---- C14 ---------------------------------------------------------------------
void C14(Case& c)
{
  int which = (int)c.pick<int>({0, 1, 2, 3, 0, 1, 4});
  static const char* nm[] = {"hydro", "parabolic", "particles", "cosmology", "legacy"};
  Problem P;
  auto all = schemes();
  P.s = which == 0 ? c.pick(all) : all[0];
  gen_problem_mesh(c, P, false, 80, false);
  std::string st = gen_state(c, P);
  double cfl = c.pick<double>({0.5, 0.1, 0.8, 0.33});
  bool setcfl = c.coin(3, 4);
  if (!setcfl) cfl = 0.5;
  c.label(nm[which]);
  int dim = P.g.p.dim;
  double kappa = c.real(0.01, 3), mu = c.real(0.01, 3);
  bool tc = c.coin(), vi = c.coin();
  if (which == 1 && !tc && !vi) tc = true;
  if (which == 0 && setcfl) P.extra["dt"][c.coin(1, 4) ? "hydro_cfl" : "hydro_cfl"] = hc::num(cfl);
  if (which == 4 && setcfl) P.extra["hydro"]["cfl"] = hc::num(cfl);
  if (which == 1)
  {
    if (setcfl) P.extra["dt"]["parabolic_cfl"] = hc::num(cfl);
    if (tc) P.extra["thermal_conduction"]["update"] = "ParabolicUpdate_explicit";
    if (vi) P.extra["viscosity"]["update"] = "ParabolicUpdate_explicit";
    P.extra["thermal_conduction"]["kappa"] = hc::num(kappa);
    P.extra["viscosity"]["mu"] = hc::num(mu);
  }
  if (which == 2 && setcfl) P.extra["dt"]["particle_cfl"] = hc::num(cfl);
  double aexp = c.real(0.02, 0.95), om = c.pick<double>({0.3, 1.0, 0.25}), ov = c.pick<double>({0.7, 0.0, 0.75});
  if (which == 3)
  {
    P.extra["cosmology"]["active"] = "yes";
    P.extra["cosmology"]["omega_m"] = hc::num(om);
    P.extra["cosmology"]["omega_v"] = hc::num(ov);
    P.extra["cosmology"]["aStart"] = "0.01";
    P.extra["cosmology"]["aEnd"] = "1";
  }
  P.dt = 0;

  c.desc << nm[which] << " " << P.s.id << " " << P.g.str() << " " << P.leaves.size() << " blocks, " << st << " state, gamma " << P.gamma << " cfl " << cfl << (setcfl ? "" : " (default)");
  auto S = make_sim(c, P);
  double best = 0; // largest inverse step
  int npart = 0;
  uint64_t salt = c.salt();
  if (which == 0 || which == 4)
  {
    for (auto& o : P.leaves)
    {
      auto h = hc::cell_size(P.g, o);
      hc::each_cell(P.g, [&](uint32_t i, uint32_t j, uint32_t k) {
        Q q = P.prim(o, i, j, k);
        double cs = std::sqrt(P.gamma * q[1] / q[0]), s = 0;
        for (int a = 0; a < dim; a++) s += (cs + std::fabs(q[2 + a])) / h[a];
        best = std::max(best, s);
        if (P.s.kind == HYDRO) return;
        double b2 = q[5] * q[5] + q[6] * q[6] + q[7] * q[7], gp = P.gamma * q[1];
        for (int a = 0; a < dim; a++)
        {
          double bn = q[5 + a];
          double disc = (gp + b2) * (gp + b2) - 4 * gp * bn * bn;
          double cf = std::sqrt(0.5 * (gp + b2 + std::sqrt(std::max(0., disc))) / q[0]);
          best = std::max(best, (cf + std::fabs(q[2 + a])) / h[a]);
        }
      });
    }
  }
  else if (which == 1)
  {
    for (auto& o : P.leaves)
    {
      auto h = hc::cell_size(P.g, o);
      for (int a = 0; a < dim; a++)
      {
        if (tc) best = std::max(best, kappa / (h[a] * h[a]));
        if (vi) best = std::max(best, mu / (h[a] * h[a]));
      }
    }
  }
  else if (which == 2)
  {
    // particles anywhere, perhaps all in one corner (some processes have none)
    npart = (int)c.draw(1, 30);
    bool corner = c.coin(1, 2);
    double vmag = c.pick<double>({1, 1e-3, 50});
    mg::Model M;
    M.p = P.g.p;
    M.octs = P.leaves;
    M.index();
    std::vector<std::array<double, 6>> loc;
    for (int q = 0; q < npart; q++)
    {
      std::array<double, 3> u{};
      std::array<double, 6> x{};
      for (int a = 0; a < dim; a++)
      {
        u[a] = 0.001 + 0.998 * pbt::u01(pbt::hash_combine(salt, q * 8 + a)) * (corner ? 0.1 : 1);
        x[a] = P.g.lo[a] + u[a] * P.g.L(a);
        x[3 + a] = vmag * (2 * pbt::u01(pbt::hash_combine(salt, q * 8 + 4 + a)) - 1);
      }
      if (dim == 2) x[2] = P.g.lo[2], x[5] = 7; // ignored in 2D
      int o = M.locate(u);
      auto h = hc::cell_size(P.g, P.leaves[o]);
      double hm = h[0], v2 = 0;
      for (int a = 0; a < dim; a++) hm = std::min(hm, h[a]), v2 += x[3 + a] * x[3 + a];
      best = std::max(best, std::sqrt(v2) / hm);
      std::array<real_t, 3> pos = {x[0], x[1], x[2]};
      (void)pos;
      int owner = -1;
      // owner : the process whose local block contains the particle
      for (uint32_t w = 0; w < S->m->getNumOctants(); w++) if (mg::local_oct(P.g.p, *S->m, w) == P.leaves[o]) owner = pbt::mpi_rank();
      if (owner == pbt::mpi_rank()) loc.push_back(x);
    }
    S->U->new_ParticleArray("particles", (uint32_t)loc.size());
    for (auto n : {"vx", "vy", "vz"}) S->U->new_ParticleAttribute("particles", n);
    auto pa = S->U->getParticleArray("particles");
    auto pd = S->U->getParticleAccessor("particles", {{"vx", 0}, {"vy", 1}, {"vz", 2}});
    for (uint32_t q = 0; q < loc.size(); q++)
      for (int a = 0; a < 3; a++)
      {
        pa.pos(q, (ComponentIndex3D)a) = loc[q][a];
        pd.at_ivar(q, a) = loc[q][3 + a];
      }
    if (loc.empty()) c.label("a process without particles");
  }
  static const char* id[] = {"Compute_dt_hydro", "Compute_dt_parabolic", "Compute_dt_particle_velocity", "Compute_dt_cosmology", "Compute_dt_legacy"};
  auto k = Compute_dtFactory::make_instance(id[which], *S->cfg, *S->fc, S->timers);
  S->sd.set<real_t>("aexp", aexp);
  S->sd.set<real_t>("dt", -1);
  double got = -1;
  std::string err;
  try
  {
    k->compute_dt(*S->U, S->sd);
    got = S->sd.get<real_t>("dt");
  }
  catch (const std::exception& e) { err = e.what(); }
  PBT_CHECK(c, err.empty(), id[which] << " threw: " << err);
  c.sync();
  PBT_CHECK(c, got > 0, id[which] << " returned " << got);
  double mn, mx;
  MPI_Allreduce(&got, &mn, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
  MPI_Allreduce(&got, &mx, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
  PBT_CHECK(c, mn == mx, id[which] << " returned different steps on different processes: " << mn << " and " << mx);
  if (which != 3)
  {
    double want = cfl / best;
    double tol = which == 2 ? 4e-10 * want / std::max(1e-3, std::fabs(1.0)) + 1e-6 * want : 1e-12 * want;
    PBT_CHECK(c, std::fabs(got - want) <= tol, id[which] << " returned " << got << ", the bound of the cells is " << want);
  }
  else
  {
    // expansion limited : within the step the scale factor grows by the fraction asked for (checked with the clock itself in C25)
    CosmoManager cm(*S->cfg);
    PBT_CHECK(c, got == cm.compute_cosmo_dt(aexp), "cosmological step differs from the clock's");
  }
  c.nontrivial = P.leaves.size() > 1 && st != "uniform";
  if (pbt::mpi_size() > 1) c.label("several processes");
}
