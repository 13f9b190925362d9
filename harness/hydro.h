// Hydrodynamic problems described independently of mesh distribution, and the code that runs one update on them
#pragma once
#include "common.h"
#include "hydro/HydroUpdate_base.h"
#include "mpi/GhostCommunicator.h"
#include "ScalarSimulationData.h"
#include <array>

namespace hy {
using namespace dyablo;
using pbt::Case;
typedef std::array<double, 9> Q; // rho p u v w Bx By Bz psi (primitive)  |  rho E mx my mz Bx By Bz psi (conservative)
typedef std::function<Q(const mg::Oct&, uint32_t, uint32_t, uint32_t)> PrimFn;

enum Kind { HYDRO, MHD, GLM };
struct Scheme
{
  std::string id;
  Kind kind;
  bool patch;       // needs a patch with two ghost cells
  bool hancock;     // second order, single-level conservation only
  std::string riemann = "hllc";
  bool one() const { return id.find("oneneighbor") != std::string::npos; }
};
inline std::vector<Scheme> schemes()
{
  return {{"HydroUpdate_euler", HYDRO, true, false},
          {"HydroUpdate_hancock", HYDRO, true, true},
          {"HydroUpdate_RK2", HYDRO, true, false},
          {"HydroUpdate_hancock_oneneighbor", HYDRO, false, false},
          {"MHDUpdate_euler", MHD, true, false, "five_waves"},
          {"MHDUpdate_hancock", MHD, true, true, "five_waves"},
          {"MHDUpdate_RK2", MHD, true, false, "five_waves"},
          {"MHDUpdate_hancock_oneneighbor", MHD, false, false, "five_waves"},
          {"GLMMHDUpdate_euler", GLM, true, false, "five_waves"}, // 8 : C11_glm
          {"GLMMHDUpdate_euler", GLM, true, false, "hlld"},
          {"GLMMHDUpdate_RK2", GLM, true, false, "hlld"},
          {"HydroUpdate_legacy", HYDRO, true, true}};
}

// a mesh with a given (balanced) set of leaves : refine the coarse grid level by level
inline std::shared_ptr<AMRmesh> build_mesh(Case& c, const mg::Params& p, const std::vector<mg::Oct>& leaves, bool shuffle_load)
{
  std::set<std::array<uint32_t, 4>> inner;
  uint32_t top = p.lmin;
  for (auto& o : leaves)
  {
    mg::C3 q = o.c;
    top = std::max(top, o.level);
    for (uint32_t l = o.level; l > p.lmin;)
    {
      l--;
      for (auto& v : q) v >>= 1;
      if (!inner.insert(mg::key(l, q)).second) break;
    }
  }
  auto m = mg::make_mesh(p);
  for (uint32_t l = p.lmin; l < top; l++)
  {
    std::vector<int> mk(m->getNumOctants(), 0);
    for (uint32_t i = 0; i < mk.size(); i++)
    {
      mg::Oct o = mg::local_oct(p, *m, i);
      if (o.level == l && inner.count(mg::key(l, o.c))) mk[i] = 1;
    }
    mg::set_marks(*m, mk, true);
    m->adapt();
  }
  mg::lb(*m, shuffle_load ? (uint8_t)c.draw(0, 2) : 0);
  return m;
}

struct Problem
{
  hc::Grid g;
  std::vector<mg::Oct> leaves;
  Scheme s;
  std::string bc[3][2] = {{"periodic", "periodic"}, {"periodic", "periodic"}, {"periodic", "periodic"}};
  double gamma = 1.4, dt = 0;
  hc::Ini extra;
  PrimFn prim;
  std::function<std::array<double, 3>(const mg::Oct&, uint32_t, uint32_t, uint32_t)> grav; // acceleration stored in the fields gx gy gz
  int nf() const { return s.kind == HYDRO ? 5 : s.kind == MHD ? 8 : 9; }
};
inline std::vector<std::string> field_names(Kind k)
{
  std::vector<std::string> n = {"rho", "e_tot", "rho_vx", "rho_vy", "rho_vz"};
  if (k != HYDRO) for (auto s : {"Bx", "By", "Bz"}) n.push_back(s);
  if (k == GLM) n.push_back("psi");
  return n;
}
inline Q to_cons(const Q& q, double gamma, int dim, Kind k)
{
  Q u{};
  double w = dim == 3 ? q[4] : 0;
  u[0] = q[0];
  u[2] = q[0] * q[2];
  u[3] = q[0] * q[3];
  u[4] = q[0] * w;
  u[1] = q[1] / (gamma - 1) + 0.5 * q[0] * (q[2] * q[2] + q[3] * q[3] + w * w);
  if (k != HYDRO)
  {
    for (int i = 5; i < 8; i++) u[i] = q[i];
    u[1] += 0.5 * (q[5] * q[5] + q[6] * q[6] + q[7] * q[7]);
  }
  if (k == GLM) u[8] = q[8];
  return u;
}
inline Q to_prim(const Q& u, double gamma, int dim, Kind k)
{
  Q q{};
  double w = dim == 3 ? u[4] / u[0] : 0;
  q[0] = u[0];
  q[2] = u[2] / u[0];
  q[3] = u[3] / u[0];
  q[4] = w;
  double e = u[1] - 0.5 * u[0] * (q[2] * q[2] + q[3] * q[3] + w * w);
  if (k != HYDRO)
  {
    for (int i = 5; i < 8; i++) q[i] = u[i];
    e -= 0.5 * (q[5] * q[5] + q[6] * q[6] + q[7] * q[7]);
  }
  q[1] = e * (gamma - 1);
  q[8] = u[8];
  return q;
}
// largest stable step (first order, all axes together)
inline double stable_dt(const Problem& P)
{
  double inv = 1e-30;
  for (auto& o : P.leaves)
  {
    auto s = hc::cell_size(P.g, o);
    hc::each_cell(P.g, [&](uint32_t i, uint32_t j, uint32_t k) {
      Q q = P.prim(o, i, j, k);
      double b2 = P.s.kind == HYDRO ? 0 : q[5] * q[5] + q[6] * q[6] + q[7] * q[7];
      double cf = std::sqrt((P.gamma * q[1] + b2) / q[0]);
      double x = 0;
      for (int a = 0; a < P.g.p.dim; a++) x += (cf + std::fabs(q[2 + a])) / s[a];
      inv = std::max(inv, x);
    });
  }
  return 1 / inv;
}

struct Result
{
  mg::Params p;
  std::vector<mg::Oct> octs;
  std::unordered_map<std::array<uint32_t, 4>, size_t, mg::KeyHash> idx;
  int nf = 0;
  size_t cells = 0;
  uint32_t b[3];
  std::vector<double> before, v; // [oct][field][cell]
  bool floored = false, level_jump = false;
  double at(size_t o, int f, size_t cell) const { return v[(o * nf + f) * cells + cell]; }
  double at0(size_t o, int f, size_t cell) const { return before[(o * nf + f) * cells + cell]; }
  size_t cell(uint32_t i, uint32_t j, uint32_t k) const { return i + b[0] * (j + (size_t)b[1] * k); }
  long find(uint32_t l, const mg::C3& c) const
  {
    auto it = idx.find(mg::key(l, c));
    return it == idx.end() ? -1 : (long)it->second;
  }
  double scale(int f) const
  {
    double s = 0;
    for (size_t o = 0; o < octs.size(); o++)
      for (size_t q = 0; q < cells; q++) s = std::max(s, std::max(std::fabs(at0(o, f, q)), std::fabs(at(o, f, q))));
    return s;
  }
};
inline hc::Ini make_ini(const Problem& P)
{
  hc::Ini ini = hc::base_ini(P.g);
  const char* ax = "xyz";
  for (int a = 0; a < 3; a++)
  {
    ini["mesh"]["boundary_type_" + std::string(1, ax[a]) + "min"] = P.bc[a][0];
    ini["mesh"]["boundary_type_" + std::string(1, ax[a]) + "max"] = P.bc[a][1];
  }
  ini["hydro"]["update"] = P.s.id;
  ini["hydro"]["riemann"] = P.s.riemann;
  ini["hydro"]["gamma0"] = hc::num(P.gamma);
  for (auto& s : P.extra)
    for (auto& kv : s.second) ini[s.first][kv.first] = kv.second;
  return ini;
}
// fields of the time step : U and its ghosts ready for an update
struct Sim
{
  std::shared_ptr<AMRmesh> m;
  std::unique_ptr<ConfigMap> cfg;
  std::unique_ptr<ForeachCell> fc;
  std::unique_ptr<UserData> U;
  Timers timers;
  ScalarSimulationData sd;
  std::vector<std::string> names, gnames;
  int ghosts = 2;
};
inline std::unique_ptr<Sim> make_sim(Case& c, const Problem& P, bool shuffle_load = true)
{
  auto S = std::make_unique<Sim>();
  S->m = build_mesh(c, P.g.p, P.leaves, shuffle_load);
  S->cfg.reset(new ConfigMap(hc::to_text(make_ini(P))));
  S->fc.reset(new ForeachCell(*S->m, *S->cfg));
  S->U.reset(new UserData(*S->cfg, *S->fc));
  S->names = field_names(P.s.kind);
  std::set<std::string> all(S->names.begin(), S->names.end());
  for (auto& n : S->names) all.insert(n + "_next");
  S->U->new_fields(all);
  auto acc = hc::accessor(*S->U, S->names);
  for (uint32_t o = 0; o < S->m->getNumOctants(); o++)
  {
    mg::Oct oc = mg::local_oct(P.g.p, *S->m, o);
    hc::each_cell(P.g, [&](uint32_t i, uint32_t j, uint32_t k) {
      Q u = to_cons(P.prim(oc, i, j, k), P.gamma, P.g.p.dim, P.s.kind);
      for (int f = 0; f < P.nf(); f++) acc.at_ivar(hc::make_cell(P.g, o, false, i, j, k), f) = u[f];
    });
  }
  if (P.grav)
  {
    S->gnames = {"gx", "gy", "gz"};
    S->U->new_fields({"gx", "gy", "gz"});
    auto ga = hc::accessor(*S->U, S->gnames);
    for (uint32_t o = 0; o < S->m->getNumOctants(); o++)
    {
      mg::Oct oc = mg::local_oct(P.g.p, *S->m, o);
      hc::each_cell(P.g, [&](uint32_t i, uint32_t j, uint32_t k) {
        auto g = P.grav(oc, i, j, k);
        for (int f = 0; f < 3; f++) ga.at_ivar(hc::make_cell(P.g, o, false, i, j, k), f) = g[f];
      });
    }
  }
  // as the time loop does
  S->ghosts = P.s.one() ? 2 : P.s.id.find("hancock") != std::string::npos ? 4 : 2;
  S->ghosts = std::min({(int)P.g.b[0], (int)P.g.b[1], S->ghosts});
  if (P.g.p.dim == 3) S->ghosts = std::min(S->ghosts, (int)P.g.b[2]);
  return S;
}
inline void step(Sim& S, const Problem& P, HydroUpdate& up, double dt)
{
  GhostCommunicator gc(*S.m, S.U->getShape(), S.ghosts);
  gc.exchange_ghosts(hc::accessor(*S.U, S.names));
  if (!S.gnames.empty()) gc.exchange_ghosts(hc::accessor(*S.U, S.gnames));
  S.sd.set<real_t>("dt", dt);
  up.update(*S.U, S.sd);
  for (auto& n : S.names) S.U->move_field(n, n + "_next");
  std::set<std::string> nx;
  for (auto& n : S.names) nx.insert(n + "_next");
  S.U->new_fields(nx);
}
inline Result run(Case& c, const Problem& P, int steps = 1, bool shuffle_load = true)
{
  auto S = make_sim(c, P, shuffle_load);
  Result R;
  R.p = P.g.p;
  R.nf = P.nf();
  for (int a = 0; a < 3; a++) R.b[a] = P.g.b[a];
  auto s0 = hc::snapshot(P.g, *S->m, *S->U, S->names);
  R.octs = s0.octs;
  R.cells = s0.cells;
  R.before = s0.v;
  auto up = HydroUpdateFactory::make_instance(P.s.id, *S->cfg, *S->fc, S->timers);
  // values rescued by the positivity floor : conservation and symmetry are not claimed then
  auto look = [&](const std::vector<double>& v) {
    for (size_t o = 0; o < R.octs.size(); o++)
      for (size_t q = 0; q < R.cells; q++)
      {
        Q u{};
        for (int f = 0; f < R.nf; f++) u[f] = v[(o * R.nf + f) * R.cells + q];
        Q pr = to_prim(u, P.gamma, P.g.p.dim, P.s.kind);
        if (!(pr[0] > 1e-8) || !(pr[1] > 1e-8)) R.floored = true;
      }
  };
  size_t rk = P.s.id.find("_RK2");
  std::unique_ptr<HydroUpdate> stage;
  if (rk != std::string::npos) stage = HydroUpdateFactory::make_instance(P.s.id.substr(0, rk) + "_euler", *S->cfg, *S->fc, S->timers);
  for (int q = 0; q < steps; q++)
  {
    if (stage)
    {
      // the intermediate state of RK2 is the result of a first-order step
      GhostCommunicator gc(*S->m, S->U->getShape(), S->ghosts);
      gc.exchange_ghosts(hc::accessor(*S->U, S->names));
      S->sd.set<real_t>("dt", P.dt);
      stage->update(*S->U, S->sd);
      std::vector<std::string> nx;
      for (auto& n : S->names) nx.push_back(n + "_next");
      look(hc::snapshot(P.g, *S->m, *S->U, nx).v);
    }
    std::vector<double> old = hc::snapshot(P.g, *S->m, *S->U, S->names).v;
    step(*S, P, *up, P.dt);
    R.v = hc::snapshot(P.g, *S->m, *S->U, S->names).v;
    look(R.v);
    if (stage)
    {
      // second stage : the result is the mean of it and the initial state
      for (size_t i = 0; i < old.size(); i++) old[i] = 2 * R.v[i] - old[i];
      look(old);
    }
  }
  std::set<uint32_t> lv;
  for (size_t o = 0; o < R.octs.size(); o++)
  {
    R.idx[mg::key(R.octs[o].level, R.octs[o].c)] = o;
    lv.insert(R.octs[o].level);
  }
  R.level_jump = lv.size() > 1;
  PBT_CHECK(c, R.octs.size() == P.leaves.size(), "mesh building: " << R.octs.size() << " blocks instead of " << P.leaves.size());
  return R;
}

// ---- generators -------------------------------------------------------------
inline void gen_problem_mesh(Case& c, Problem& P, bool single_level, size_t max_octs, bool periodic_only)
{
  if (P.s.id == "HydroUpdate_legacy") single_level = true;
  if (P.s.id == "HydroUpdate_legacy" && c.coin(1, 3)) { P.extra["hydro"]["slope_type"] = c.pick<std::string>({"2", "0"}); c.label("legacy slope_type " + P.extra["hydro"]["slope_type"]); }
  mg::GenOpt o;
  o.max_octs = max_octs;
  o.max_coarse3 = 2;
  o.max_coarse2 = 4;
  o.max_extra_levels = single_level ? 0 : 2;
  o.allow_periodic = true;
  P.g = hc::Grid();
  P.g.p = mg::gen_params(c, o);
  if (periodic_only) for (int a = 0; a < P.g.p.dim; a++) P.g.p.per[a] = true;
  mg::Model M;
  M.init(P.g.p);
  int steps = single_level ? 0 : (int)c.draw(0, 3);
  for (int s = 0; s < steps; s++)
  {
    mg::MarkRule r = mg::gen_rule(c);
    bool room = M.octs.size() <= o.max_octs;
    std::vector<int> mk;
    for (auto& oc : M.octs) mk.push_back(mg::mark(r, P.g.p, oc, room && r.kind != 4));
    M.apply(M.close_markers(mk));
  }
  P.leaves = M.octs;
  bool jump = M.levels() > 1;
  for (int a = 0; a < 3; a++)
  {
    if (a == 2 && P.g.p.dim == 2) { P.g.b[2] = 1; continue; }
    if (P.s.one()) P.g.b[a] = jump ? c.pick<int>({2, 4, 1, 6, 1, 3}) : (int)c.draw(1, 5);
    else P.g.b[a] = jump ? c.pick<int>({4, 4, 6}) : (int)c.draw(2, 5); // two ghost cells next to smaller blocks need four of their cells
  }
  P.g.group = (uint32_t)c.pick<int>({64, 1, 2, 3, 7});
  for (int a = 0; a < 3; a++)
  {
    int k = (int)c.draw(0, 4);
    static const double lo[5] = {0, -1, 0.3, -7.25, 100}, hi[5] = {1, 1, 1.7, -3.1, 103};
    P.g.lo[a] = lo[k];
    P.g.hi[a] = hi[k];
  }
  for (int a = 0; a < 3; a++)
    for (int s = 0; s < 2; s++) P.bc[a][s] = P.g.p.per[a] ? "periodic" : "absorbing";
}
// how cells get their state
inline std::string gen_state(Case& c, Problem& P, int force = -1)
{
  P.gamma = c.pick<double>({1.4, 5. / 3., 1.1, 2.0});
  int kind = force >= 0 ? force : (int)c.pick<int>({1, 0, 2, 3, 1, 2});
  uint64_t salt = c.salt();
  double amp = c.pick<double>({0.3, 0.05, 0.8, 1e-3});
  int vel = (int)c.pick<int>({1, 0, 2});
  double vmag = vel == 0 ? 0 : vel == 1 ? 1 : 3;
  double bmag = P.s.kind == HYDRO ? 0 : c.pick<double>({0.5, 0.1, 1.5});
  Q base, k1, k2;
  for (int i = 0; i < 9; i++)
  {
    base[i] = pbt::u01(pbt::hash_combine(salt, i)) * 2 - 1;
    k1[i] = pbt::u01(pbt::hash_combine(salt, 100 + i)) * 2 - 1;
    k2[i] = pbt::u01(pbt::hash_combine(salt, 200 + i)) * 2 - 1;
  }
  static const char* nm[] = {"uniform", "random", "smooth", "jump"};
  hc::Grid g = P.g;
  double dir[3];
  for (int a = 0; a < 3; a++) dir[a] = std::floor(pbt::u01(pbt::hash_combine(salt, 300 + a)) * 5) - 2;
  bool glm = P.s.kind == GLM;
  P.prim = [=](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) {
    auto x = hc::cell_center(g, o, i, j, k);
    double t[3];
    for (int a = 0; a < 3; a++) t[a] = (x[a] - g.lo[a]) / g.L(a);
    if (g.p.dim == 2) t[2] = 0;
    Q q;
    uint64_t h = pbt::hash_combine(salt, hc::cell_hash("q", o, i, j, k));
    double ph = 2 * M_PI * (dir[0] * t[0] + dir[1] * t[1] + dir[2] * t[2]);
    double r2 = 0;
    for (int a = 0; a < g.p.dim; a++) r2 += (t[a] - 0.45 - 0.1 * base[a]) * (t[a] - 0.45 - 0.1 * base[a]);
    bool in = r2 < 0.09;
    for (int f = 0; f < 9; f++)
    {
      double d = kind == 0 ? 0 : kind == 1 ? pbt::u01(pbt::hash_combine(h, f)) * 2 - 1 : kind == 2 ? std::sin(ph + 6 * k2[f]) : (in ? k1[f] : k2[f]);
      if (f < 2) q[f] = (1 + 0.5 * base[f]) * std::exp(amp * d);
      else if (f < 5) q[f] = vmag * (base[f] + amp * d);
      else if (f < 8) q[f] = bmag * (base[f] + amp * d);
      else q[f] = glm ? 0.3 * amp * d : 0;
    }
    if (g.p.dim == 2) q[4] = 0;
    return q;
  };
  return nm[kind];
}
inline double gen_cfl(Case& c) { return c.pick<double>({0.3, 0.1, 0.45, 0.01}); }

} // namespace hy
