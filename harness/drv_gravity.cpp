// C16 gravity solvers
#include "cellmap.h"
#include "utils/monitoring/Timers.h"
#include "ScalarSimulationData.h"
#include "gravity/GravitySolver.h"
#include "mpi/GhostCommunicator.h"
#include "main.h"
using namespace dyablo;
using pbt::Case;
using hc::CK;

void C16(Case& c)
{
  int kind = (int)c.pick<int>({0, 0, 0, 1}); // 0 self gravity, 1 point mass
  mg::GenOpt o;
  o.dim = kind == 0 ? 3 : 0;
  o.max_octs = kind == 0 ? 40 : 100;
  o.max_coarse3 = 2;
  o.max_coarse2 = 4;
  o.max_extra_levels = 2;
  hc::Grid g;
  auto m = mg::gen_mesh(c, g.p, o, 3);
  hc::gen_geometry(c, g, kind == 0, false, 4);
  auto ini = hc::base_ini(g);
  ini["gravity"]["gravity_type"] = kind == 0 ? "field" : "constant_field";
  // sides : absorbing (no gradient) or reflecting (potential 0 outside)
  bool closed[3];
  const char* ax = "xyz";
  for (int a = 0; a < 3; a++)
  {
    closed[a] = false;
    if (kind == 0 && !g.p.per[a] && c.coin(1, 3))
    {
      closed[a] = true;
      for (auto* q : {"min", "max"}) ini["mesh"][std::string("boundary_type_") + ax[a] + q] = "reflecting";
    }
  }
  double eps = c.pick<double>({1e-3, 1e-6, 1e-8, 0.1});
  double G4 = c.pick<double>({1.0, 12.566370614359172, 0.01});
  bool cosmo = kind == 0 && c.coin(1, 4);
  double aexp = cosmo ? c.real(0.05, 1.2, 50) : 1;
  double px[3], gm = c.pick<double>({1, -2.5, 100}), soft = c.pick<double>({0.005, 0, 0.3});
  for (int a = 0; a < 3; a++) px[a] = g.lo[a] + c.real(-0.3, 1.3, 37) * g.L(a);
  if (kind == 0)
  {
    ini["gravity"]["CG_eps"] = hc::num(eps);
    if (cosmo) ini["cosmology"]["active"] = "true";
    else ini["gravity"]["4_Pi_G"] = hc::num(G4);
  }
  else
  {
    for (int a = 0; a < 3; a++) ini["gravity"][std::string("point_mass_") + ax[a]] = hc::num(px[a]);
    ini["gravity"]["point_mass_Gmass"] = hc::num(gm);
    ini["gravity"]["softening"] = hc::num(soft);
  }
  ConfigMap cfg(hc::to_text(ini));
  ForeachCell fc(*m, cfg);
  Timers timers;
  UserData U(cfg, fc);
  ScalarSimulationData sd;
  sd.set<real_t>("time", 0);
  sd.set<int>("iter", 0);
  sd.set<real_t>("dt", 0);
  sd.set<real_t>("aexp", aexp);
  int rho_kind = (int)c.draw(0, 4);  // random, blob, smooth, huge contrast, uniform
  int phi_kind = (int)c.draw(0, 3);  // zero, random, large random, constant
  uint64_t salt = c.salt();
  c.desc << g.str() << (kind ? " point mass" : cosmo ? " cosmo" : " self") << " eps " << eps << " rho " << rho_kind << " phi0 " << phi_kind << " closed " << closed[0] << closed[1] << closed[2];
  if (kind == 0) U.new_fields({"rho", "gphi", "gx", "gy", "gz", "other"});
  else U.new_fields({"gx", "gy", "gz", "other"});
  hc::fill(g, *m, U, "other", [&](const mg::Oct& oc, uint32_t i, uint32_t j, uint32_t k) { return hc::cell_value("other", oc, i, j, k); });
  for (auto* n : {"gx", "gy", "gz"}) hc::fill(g, *m, U, n, [&](const mg::Oct& oc, uint32_t i, uint32_t j, uint32_t k) { return hc::cell_value("g0", oc, i, j, k); });
  if (kind == 0)
  {
    hc::fill(g, *m, U, "rho", [&](const mg::Oct& oc, uint32_t i, uint32_t j, uint32_t k) {
      double u = pbt::u01(pbt::hash_combine(salt, hc::cell_hash("rho", oc, i, j, k)));
      auto x = hc::cell_center(g, oc, i, j, k);
      double s = 0;
      for (int a = 0; a < 3; a++) s += std::pow((x[a] - g.lo[a]) / g.L(a) - 0.4, 2);
      switch (rho_kind)
      {
        case 0: return 0.1 + u;
        case 1: return s < 0.06 ? 10.0 : 0.5;
        case 2: return 1 + 0.3 * std::sin(6.283185307179586 * (x[0] - g.lo[0]) / g.L(0)) + 0.2 * s;
        case 3: return std::pow(10, -4 + 8 * u);
        default: return 0.1 + (salt % 1000) * 0.003;
      }
    });
    hc::fill(g, *m, U, "gphi", [&](const mg::Oct& oc, uint32_t i, uint32_t j, uint32_t k) {
      double u = 2 * pbt::u01(pbt::hash_combine(salt + 1, hc::cell_hash("phi", oc, i, j, k))) - 1;
      return phi_kind == 0 ? 0.0 : phi_kind == 1 ? u : phi_kind == 2 ? 300 * u : -4.5;
    });
    GhostCommunicator gc(*m, U.getShape(), 1);
    auto ac = hc::accessor(U, {"rho", "gphi"});
    gc.exchange_ghosts(ac);
  }
  std::vector<std::string> names = kind == 0 ? std::vector<std::string>{"rho", "gphi", "gx", "gy", "gz", "other"} : std::vector<std::string>{"gx", "gy", "gz", "other"};
  auto before = hc::snapshot(g, *m, U, names);
  auto solver = GravitySolverFactory::make_instance(kind == 0 ? "GravitySolver_cg" : "GravitySolver_point_mass", cfg, fc, timers);
  solver->update_gravity_field(U, sd);
  auto after = hc::snapshot(g, *m, U, names);
  size_t no = names.size() - 1;
  hc::Cells cells(g, *m);
  for (size_t q = 0; q < after.octs.size(); q++)
    for (size_t cell = 0; cell < after.cells; cell++)
    {
      PBT_CHECK(c, after.at(q, no, cell) == before.at(q, no, cell), "an unrelated field changed");
      if (kind == 0) PBT_CHECK(c, after.at(q, 0, cell) == before.at(q, 0, cell), "the density changed");
    }
  c.sync();
  if (kind == 1)
  {
    for (size_t q = 0; q < after.octs.size(); q++)
    {
      size_t cell = 0;
      hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
        auto x = hc::cell_center(g, after.octs[q], i, j, k);
        double r[3], r2 = soft * soft;
        for (int a = 0; a < 3; a++) { r[a] = x[a] - px[a]; r2 += r[a] * r[a]; }
        double f = -gm / (r2 * std::sqrt(r2));
        if (r2 > 1e-6)
          for (int a = 0; a < 3; a++)
          {
            double e = (a == 2 && g.p.dim == 2) ? before.at(q, a, cell) : f * r[a];
            PBT_CHECK(c, std::fabs(after.at(q, a, cell) - e) <= 1e-9 * (std::fabs(gm) / r2), "g" << ax[a] << " of " << mg::str(after.octs[q]) << "(" << i << "," << j << "," << k << ") is " << after.at(q, a, cell) << " expected " << e);
          }
        cell++;
      });
    }
    c.sync();
    c.nontrivial = true;
    return;
  }
  // ---- discrete Poisson equation
  std::unordered_map<CK, std::array<double, 6>, hc::CKHash> val; // rho, potential, force, initial potential
  double mass = 0, vol = 0;
  for (size_t q = 0; q < after.octs.size(); q++)
  {
    size_t cell = 0;
    hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
      std::array<double, 6> v;
      for (int n = 0; n < 5; n++) v[n] = after.at(q, n, cell);
      v[5] = before.at(q, 1, cell);
      val[hc::cell_key(g, after.octs[q], i, j, k)] = v;
      double V = cells.volume(after.octs[q].level);
      mass += v[0] * V;
      vol += V;
      cell++;
    });
  }
  double mean = mass / vol;
  bool dirichlet = false;
  for (int a = 0; a < 3; a++) dirichlet = dirichlet || closed[a];
  double R[2] = {0, 0}, B[2] = {0, 0}, size2 = 0, force = 0;
  bool jump = false;
  std::vector<CK> nb;
  for (auto& kv : val)
  {
    const CK& k = kv.first;
    double V = cells.volume(k[0]), lap = 0, mag = 0;
    for (int a = 0; a < 3; a++)
    {
      double grad[2];
      for (int s = 0; s < 2; s++)
      {
        hc::face_cells(cells, k, a, s ? 1 : -1, nb);
        double h = cells.size(a, k[0]), p = 0;
        bool zero = false;
        if (nb.empty()) { zero = !closed[a]; }
        else
        {
          for (auto& n : nb)
          {
            if (!val.count(n)) { PBT_CHECK(c, false, "harness: neighbour not found"); continue; }
            p += val[n][1] / nb.size();
          }
          if (nb[0][0] > k[0]) h *= 0.75, jump = true;
          if (nb[0][0] < k[0]) h *= 1.5, jump = true;
        }
        grad[s] = zero ? 0 : (s ? p - kv.second[1] : kv.second[1] - p) / h; // d phi / d axis at that face
        lap += (s ? 1 : -1) * grad[s] * V / cells.size(a, k[0]);
        mag += (std::fabs(kv.second[1]) + std::fabs(kv.second[5])) / h * V / cells.size(a, k[0]);
      }
      double e = -0.5 * (grad[0] + grad[1]), t = 1e-10 * (std::fabs(grad[0]) + std::fabs(grad[1]) + std::fabs(kv.second[1]) / cells.size(a, k[0])) + 1e-300;
      PBT_CHECK(c, std::fabs(kv.second[2 + a] - e) <= t, "the force along " << ax[a] << " of the cell " << k[0] << " (" << k[1] << "," << k[2] << "," << k[3] << ") is " << kv.second[2 + a] << ", minus the gradient of the potential is " << e);
      force = std::max(force, std::fabs(kv.second[2 + a]));
    }
    for (int w = 0; w < 2; w++)
    {
      double mm = w ? 0 : mean;
      double rhs = cosmo ? 6 * aexp * (kv.second[0] / mean - (w ? 0 : 1)) * V : G4 * (kv.second[0] - mm) * V;
      R[w] += (lap - rhs) * (lap - rhs);
      B[w] += rhs * rhs;
    }
    size2 += mag * mag;
  }
  double lim = eps * (1 + 1e-6), slack = 1e-11 * std::sqrt(size2) + 2e-12 * std::sqrt(B[1]);
  auto ok = [&](int w) { return std::sqrt(R[w]) <= lim * std::sqrt(B[w]) + slack; };
  PBT_CHECK(c, ok(0) || (dirichlet && ok(1)), "residual " << std::sqrt(R[0]) << " of the discrete Poisson equation exceeds " << eps << " times the source norm " << std::sqrt(B[0]));
  c.sync();
  if (jump) c.label("level jump");
  if (dirichlet) c.label("closed side");
  if (cosmo) c.label("cosmology");
  c.nontrivial = force > 0;
}

int main(int argc, char** argv) { return pbt_main(argc, argv, {{"C16", C16}}); }
