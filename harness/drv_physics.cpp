// C30 units and ignorable directions
#include "hydro.h"
#include "hydro/HydroUpdate.h"
#include "compute_dt/Compute_dt.h"
#include "parabolic/ParabolicUpdate.h"
#include "gravity/GravitySolver.h"
#include "main.h"
using namespace dyablo;
using namespace hy;
void C31(Case& c);

namespace {

// powers of two by which the units of length, velocity and (square root of) density change
struct Units
{
  int a = 0, v = 0, b = 0;
  double L() const { return std::ldexp(1, a); }
  double V() const { return std::ldexp(1, v); }
  double R() const { return std::ldexp(1, 2 * b); }
  double B() const { return std::ldexp(1, b + v); }
  double T() const { return L() / V(); }
  double G() const { return V() * V() / L(); }
  Q prim(Q q) const
  {
    q[0] *= R();
    q[1] *= R() * V() * V();
    for (int i = 2; i < 5; i++) q[i] *= V();
    for (int i = 5; i < 8; i++) q[i] *= B();
    q[8] *= B() * V();
    return q;
  }
  double cons(int f) const { return f == 0 ? R() : f == 1 ? R() * V() * V() : f < 5 ? R() * V() : f < 8 ? B() : B() * V(); }
};
// the solver limits p by smallp and by rho*smallp : one of them has the wrong unit, a tiny smallp makes both negligible
void small_values(Problem& P, const Units& u)
{
  auto& h = P.extra["hydro"];
  h["smallr"] = hc::num(1e-10 * u.R());
  h["smallp"] = hc::num(1e-22 * u.R() * u.V() * u.V());
  h["smallc"] = hc::num(1e-10 * u.V());
  h["cr"] = hc::num(0.1 * u.L());
}
Problem rescale(const Problem& P, const Units& u)
{
  Problem R = P;
  for (int a = 0; a < 3; a++) R.g.lo[a] = P.g.lo[a] * u.L(), R.g.hi[a] = P.g.hi[a] * u.L();
  R.dt = P.dt * u.T();
  PrimFn f = P.prim;
  R.prim = [f, u](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) { return u.prim(f(o, i, j, k)); };
  if (P.grav)
  {
    auto gf = P.grav;
    R.grav = [gf, u](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) {
      auto g = gf(o, i, j, k);
      for (auto& x : g) x *= u.G();
      return g;
    };
  }
  small_values(R, u);
  return R;
}
// the same problem with a third direction along which nothing changes
Problem extrude(Case& c, const Problem& P)
{
  Problem R = P;
  R.g.p.dim = 3;
  R.g.p.coarse[2] = (uint32_t)c.draw(1, std::min<uint32_t>(2, 1u << P.g.p.lmin));
  // no level_min larger than the coarse grid needs
  uint32_t half = (1u << P.g.p.lmin) / 2;
  if (std::max(P.g.p.coarse[0], P.g.p.coarse[1]) <= half) R.g.p.coarse[2] = half + 1;
  R.g.p.per[2] = true;
  R.bc[2][0] = R.bc[2][1] = "periodic";
  R.leaves.clear();
  bool jump = false;
  for (auto& o : P.leaves)
  {
    jump = jump || o.level != P.leaves[0].level;
    for (uint32_t z = 0; z < R.g.p.count(2, o.level); z++) R.leaves.push_back(mg::Oct{o.level, {{o.c[0], o.c[1], z}}, 0});
  }
  R.g.b[2] = (uint32_t)(jump ? c.pick<int>({4, P.s.one() ? 2 : 4, P.s.one() ? 4 : 6}) : (int)c.draw(P.s.one() ? 1 : 2, 4));
  PrimFn f = P.prim;
  R.prim = [f](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t) { return f(mg::Oct{o.level, {{o.c[0], o.c[1], 0}}, 0}, i, j, 0); };
  if (P.grav)
  {
    auto gf = P.grav;
    R.grav = [gf](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t) { return gf(mg::Oct{o.level, {{o.c[0], o.c[1], 0}}, 0}, i, j, 0); };
  }
  return R;
}
const char* fname[] = {"rho", "e_tot", "rho_vx", "rho_vy", "rho_vz", "Bx", "By", "Bz", "psi"};

struct Out
{
  std::vector<mg::Oct> octs;
  std::unordered_map<std::array<uint32_t, 4>, size_t, mg::KeyHash> idx;
  hc::Snapshot s;
  double dt = 0;
};
void finish(Out& r, const hc::Grid& g, Sim& S, const std::vector<std::string>& names)
{
  r.s = hc::snapshot(g, *S.m, *S.U, names);
  r.octs = r.s.octs;
  for (size_t o = 0; o < r.octs.size(); o++) r.idx[mg::key(r.octs[o].level, r.octs[o].c)] = o;
}
// time step, hydro steps with gravity
Out run_hydro(Case& c, const Problem& P, int steps)
{
  Out r;
  auto S = make_sim(c, P);
  S->sd.set<real_t>("dt", 0);
  Compute_dtFactory::make_instance(P.s.id == "HydroUpdate_legacy" ? "Compute_dt_legacy" : "Compute_dt_hydro", *S->cfg, *S->fc, S->timers)->compute_dt(*S->U, S->sd);
  r.dt = S->sd.get<real_t>("dt");
  auto up = HydroUpdateFactory::make_instance(P.s.id, *S->cfg, *S->fc, S->timers);
  for (int q = 0; q < steps; q++) step(*S, P, *up, P.dt);
  finish(r, P.g, *S, S->names);
  return r;
}
Out run_diffusion(Case& c, const Problem& P, bool visc)
{
  Out r;
  auto S = make_sim(c, P);
  GhostCommunicator gc(*S->m, S->U->getShape(), S->ghosts);
  gc.exchange_ghosts(hc::accessor(*S->U, S->names));
  S->sd.set<real_t>("dt", 0);
  Compute_dtFactory::make_instance("Compute_dt_parabolic", *S->cfg, *S->fc, S->timers)->compute_dt(*S->U, S->sd);
  r.dt = S->sd.get<real_t>("dt");
  S->sd.set<real_t>("dt", P.dt);
  std::vector<std::string> nx;
  for (auto& n : S->names) nx.push_back(n + "_next");
  for (auto& n : nx) hc::fill(P.g, *S->m, *S->U, n, [](const mg::Oct&, uint32_t, uint32_t, uint32_t) { return 0.; });
  ParabolicUpdateFactory::make_instance("ParabolicUpdate_explicit", *S->cfg, *S->fc, S->timers, visc ? PARABOLIC_VISCOSITY : PARABOLIC_THERMAL_CONDUCTION)->update(*S->U, S->sd);
  finish(r, P.g, *S, nx);
  return r;
}
Out run_gravity(Case& c, const Problem& P)
{
  Out r;
  auto S = make_sim(c, P, false);
  S->U->new_fields({"gphi", "gx", "gy", "gz"});
  for (auto* n : {"gphi", "gx", "gy", "gz"}) hc::fill(P.g, *S->m, *S->U, n, [](const mg::Oct&, uint32_t, uint32_t, uint32_t) { return 0.; });
  GhostCommunicator gc(*S->m, S->U->getShape(), 1);
  gc.exchange_ghosts(hc::accessor(*S->U, {"rho", "gphi"}));
  S->sd.set<real_t>("dt", 0);
  S->sd.set<real_t>("time", 0);
  S->sd.set<int>("iter", 0);
  S->sd.set<real_t>("aexp", 1);
  GravitySolverFactory::make_instance("GravitySolver_cg", *S->cfg, *S->fc, S->timers)->update_gravity_field(*S->U, S->sd);
  finish(r, P.g, *S, {"gphi", "gx", "gy", "gz"});
  return r;
}
} // namespace

void C30(Case& c)
{
  enum { HY, DIFF, GRAV };
  int what = (int)c.pick<int>({HY, HY, DIFF, HY, GRAV, HY, DIFF, HY});
  bool ext = what != GRAV && c.coin();
  Problem P;
  auto all = schemes();
  P.s = what == HY ? c.pick(all) : all[0];
  if (ext && P.s.kind == GLM) ext = false; // the cleaning variable is damped once per direction : see C11_glm
  hc::Grid g0;
  gen_problem_mesh(c, P, false, ext ? 25 : 50, false);
  if (what == GRAV)
  {
    // blocks of two or more cells, three dimensions
    mg::GenOpt o;
    o.dim = 3;
    o.max_octs = 40;
    o.max_coarse3 = 2;
    P.g.p = mg::gen_params(c, o);
    mg::Model M;
    M.init(P.g.p);
    P.leaves = M.octs;
    for (int a = 0; a < 3; a++)
    {
      P.g.b[a] = (uint32_t)c.pick<int>({2, 4});
      for (int s = 0; s < 2; s++) P.bc[a][s] = P.g.p.per[a] ? "periodic" : "absorbing";
    }
  }
  if (ext && P.g.p.dim == 3)
  {
    // keep the columns of the lowest layer of blocks that are of one level : the coarse grid only
    mg::Params p = P.g.p;
    p.dim = 2;
    p.coarse[2] = 1;
    p.per[2] = false;
    if (c.coin())
    {
      mg::Model M;
      M.init(p);
      int rounds = P.s.id == "HydroUpdate_legacy" ? 0 : (int)c.draw(0, 2);
      for (int q = 0; q < rounds; q++)
      {
        mg::MarkRule r = mg::gen_rule(c);
        std::vector<int> mk;
        for (auto& oc : M.octs) mk.push_back(mg::mark(r, p, oc, M.octs.size() < 20 && r.kind != 4));
        M.apply(M.close_markers(mk));
      }
      P.leaves = M.octs;
      if (M.levels() > 1)
        for (int a = 0; a < 2; a++) P.g.b[a] = P.s.one() ? 2 * (uint32_t)c.draw(1, 2) : 4;
    }
    else
    {
      mg::Model M;
      M.init(p);
      P.leaves = M.octs;
    }
    P.g.p = p;
    P.g.b[2] = 1;
    P.bc[2][0] = P.bc[2][1] = "absorbing";
  }
  std::string st = gen_state(c, P);
  if (ext)
  {
    PrimFn f = P.prim;
    P.prim = [f](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) { Q q = f(o, i, j, k); q[4] = 0; q[7] = 0; return q; };
  }
  int dim = P.g.p.dim;
  P.dt = gen_cfl(c) * stable_dt(P);
  if (P.s.kind == MHD && c.coin(1, 4)) P.extra["hydro"]["three_waves"] = "yes";
  if (P.s.kind == HYDRO && what != GRAV)
    for (int a = 0; a < dim; a++)
      if (!P.g.p.per[a])
        for (int s = 0; s < 2; s++) P.bc[a][s] = c.pick<std::string>({"absorbing", "reflecting"});
  small_values(P, Units());
  int steps = what == HY ? (int)c.draw(1, 3) : 1;
  Units u;
  Problem R;
  if (ext) R = extrude(c, P);
  else
  {
    u.a = (int)c.draw(0, 20) - 10;
    u.v = (int)c.draw(0, 12) - 6;
    u.b = (int)c.draw(0, 12) - 6;
    // five_waves adds 1e-16 to a mass flux : keep Alfven waves well above it
    if (P.s.kind != HYDRO) u.v = std::max(-2 * u.b, u.v);
    R = rescale(P, u);
  }
  auto both = [&](const std::string& sec, const std::string& key, double v, double scale) {
    P.extra[sec][key] = hc::num(v);
    R.extra[sec][key] = hc::num(v * scale);
  };
  auto text = [&](const std::string& sec, const std::string& key, const std::string& v) { P.extra[sec][key] = R.extra[sec][key] = v; };
  static const char* wn[] = {"hydro", "diffusion", "self-gravity"};
  c.desc << wn[what] << (ext ? " extruded " : " in other units ") << P.s.id << "/" << P.s.riemann << " " << P.g.str() << " " << P.leaves.size() << " blocks, " << st << " state";
  c.label(std::string(wn[what]) + (ext ? " extruded " : " units ") + (what == HY ? P.s.id : ""));
  if (ext) c.desc << "; z blocks " << R.g.p.coarse[2] << "x" << R.g.b[2];
  else c.desc << "; length 2^" << u.a << " velocity 2^" << u.v << " density 4^" << u.b;
  bool visc = false;
  if (what == HY && P.s.id != "HydroUpdate_legacy" && c.coin(1, 3))
  {
    bool field = c.coin();
    double acc[3];
    for (int a = 0; a < 3; a++) acc[a] = (a == 2 && (dim == 2 || ext)) ? 0 : c.real(-1, 1, 6);
    if (field)
    {
      text("gravity", "gravity_type", "field");
      std::array<double, 3> q = {acc[0], acc[1], acc[2]};
      P.grav = [q](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) {
        auto r = q;
        uint64_t h = hc::cell_hash("g", o, i, j, k);
        for (int a = 0; a < 3; a++) r[a] *= 1 + 0.5 * pbt::u01(pbt::hash_combine(h, a));
        return r;
      };
      Problem T = ext ? R : rescale(P, u);
      if (ext)
      {
        auto gf = P.grav;
        R.grav = [gf](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t) { return gf(mg::Oct{o.level, {{o.c[0], o.c[1], 0}}, 0}, i, j, 0); };
      }
      else R.grav = T.grav;
    }
    else
    {
      text("gravity", "gravity_type", "constant_scalar");
      for (int a = 0; a < 3; a++) both("gravity", std::string("g") + "xyz"[a], acc[a], u.G());
    }
    c.label("with gravity");
  }
  if (what == DIFF)
  {
    visc = c.coin();
    double k = c.pick<double>({1, 0.01, 20});
    double s = u.R() * u.V() * u.L();
    text(visc ? "viscosity" : "thermal_conduction", "update", "ParabolicUpdate_explicit");
    both(visc ? "viscosity" : "thermal_conduction", visc ? "mu" : "kappa", k, s);
    if (visc)
    {
      // see C24 : defined by periodic sides only
      bool per = true;
      for (int a = 0; a < dim; a++) per = per && P.g.p.per[a];
      if (!per) visc = false;
    }
  }
  if (what == GRAV)
  {
    text("gravity", "gravity_type", "field");
    text("gravity", "CG_eps", "1e-6");
    both("gravity", "4_Pi_G", c.pick<double>({1, 0.01, 12.566}), u.V() * u.V() / (u.L() * u.L() * u.R()));
  }
  if (what == DIFF && !visc && P.extra.count("viscosity"))
  {
    for (auto* Z : {&P, &R}) { Z->extra["thermal_conduction"] = {{"update", "ParabolicUpdate_explicit"}, {"kappa", Z->extra["viscosity"]["mu"]}}; Z->extra.erase("viscosity"); }
  }
  Out A = what == HY ? run_hydro(c, P, steps) : what == DIFF ? run_diffusion(c, P, visc) : run_gravity(c, P);
  Out B = what == HY ? run_hydro(c, R, steps) : what == DIFF ? run_diffusion(c, R, visc) : run_gravity(c, R);
  c.sync();
  // the step of diffusion ignores the density : see C30_dt
  double ut = what == DIFF ? u.T() / u.R() : u.T();
  if (!ext) PBT_CHECK(c, what == GRAV || std::fabs(B.dt - A.dt * ut) <= 1e-13 * B.dt, "the time step " << A.dt << " became " << B.dt << " instead of " << A.dt * ut);
  double tol = what == GRAV ? 1e-9 : 1e-12 + (ext ? 2e-11 : 0);
  // magnitudes : per kind of quantity
  auto kind = [&](int f) { return what == GRAV ? (f == 0 ? 0 : 1) : f == 0 ? 0 : f == 1 ? 1 : f < 5 ? 2 : f < 8 ? 3 : 4; };
  auto scale = [&](int f) {
    if (what == GRAV) return f == 0 ? u.V() * u.V() : u.G();
    return u.cons(f);
  };
  int nf = (int)A.s.names.size();
  double big[5] = {0, 0, 0, 0, 0}, mx = 0;
  for (size_t o = 0; o < A.octs.size(); o++)
    for (int f = 0; f < nf; f++)
      for (size_t q = 0; q < A.s.cells; q++) big[kind(f)] = std::max(big[kind(f)], std::fabs(A.s.at(o, f, q)));
  for (int f = 0; f < nf; f++) mx = std::max(mx, big[kind(f)]);
  if (what == DIFF)
  {
    // increments may cancel : compare to the largest exchange of one cell
    double h = 1e300, st = 0;
    for (auto& o : P.leaves)
    {
      auto s = hc::cell_size(P.g, o);
      for (int a = 0; a < dim; a++) h = std::min(h, (double)s[a]);
      hc::each_cell(P.g, [&](uint32_t i, uint32_t j, uint32_t k) {
        Q q = P.prim(o, i, j, k);
        for (double v : {q[1] / q[0], q[2], q[3], q[4], q[2] * q[2], q[3] * q[3], q[4] * q[4]}) st = std::max(st, std::fabs(v));
      });
    }
    mx += P.dt * std::stod(P.extra[visc ? "viscosity" : "thermal_conduction"][visc ? "mu" : "kappa"]) / (h * h) * st;
  }
  if (what != GRAV) for (auto& b : big) b = mx;
  bool moved = false;
  for (size_t o = 0; o < B.octs.size(); o++)
  {
    mg::Oct so = B.octs[o];
    if (ext) so.c[2] = 0;
    auto it = A.idx.find(mg::key(so.level, so.c));
    PBT_CHECK(c, it != A.idx.end(), "block " << mg::str(B.octs[o]) << " has no image");
    if (it == A.idx.end()) return;
    hc::each_cell(R.g, [&](uint32_t i, uint32_t j, uint32_t k) {
      size_t qa = i + P.g.b[0] * (j + (size_t)P.g.b[1] * (ext ? 0 : k)), qb = i + R.g.b[0] * (j + (size_t)R.g.b[1] * k);
      for (int f = 0; f < nf; f++)
      {
        double a = A.s.at(it->second, f, qa), b = B.s.at(o, f, qb) / scale(f);
        if (ext && f == 4) a = 0;
        moved = moved || a != 0;
        PBT_CHECK(c, std::fabs(a - b) <= tol * big[kind(f)] || (std::isnan(a) && std::isnan(b)),
                  A.s.names[f] << " of cell (" << i << "," << j << "," << k << ") of " << mg::str(B.octs[o]) << " is " << a << (ext ? " in two dimensions and " : " and in the other units ") << b);
      }
    });
  }
  c.nontrivial = moved && st != "uniform";
}

// known finding : the time step of diffusion depends on the unit of density
void C30_dt(Case& c)
{
  Problem P;
  P.s = schemes()[0];
  P.g.p.dim = 2;
  P.g.p.coarse = {{2, 2, 1}};
  P.g.p.lmin = P.g.p.lmax = 1;
  P.g.p.per[0] = P.g.p.per[1] = true;
  P.g.b[0] = P.g.b[1] = 4;
  P.g.b[2] = 1;
  mg::Model M;
  M.init(P.g.p);
  P.leaves = M.octs;
  P.prim = [](const mg::Oct&, uint32_t, uint32_t, uint32_t) { return Q{1, 1, 0.1, 0.2, 0, 0, 0, 0, 0}; };
  P.dt = 1e-3;
  Units u;
  u.b = -3;
  Problem R = rescale(P, u);
  small_values(P, Units());
  for (auto* Z : {&P, &R}) Z->extra["viscosity"] = {{"update", "ParabolicUpdate_explicit"}, {"mu", hc::num(0.1 * (Z == &R ? u.R() : 1))}};
  c.desc << "uniform flow 2D 8x8 cells, viscosity 0.1, all densities and the viscosity multiplied by 4^-3";
  Out A = run_diffusion(c, P, true), B = run_diffusion(c, R, true);
  PBT_CHECK(c, std::fabs(A.dt - B.dt) <= 1e-12 * A.dt, "the time step of viscosity went from " << A.dt << " to " << B.dt << " when only the unit of mass changed");
  c.nontrivial = true;
}

int main(int argc, char** argv)
{
  return pbt_main(argc, argv, {{"C30", C30}, {"C30_dt", C30_dt}, {"C31", C31}});
}
