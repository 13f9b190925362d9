// C24 conduction, viscosity, cooling
#include "cellmap.h"
#include "utils/monitoring/Timers.h"
#include "ScalarSimulationData.h"
#include "parabolic/ParabolicUpdate.h"
#include "cooling/CoolingUpdate.h"
#include "mpi/GhostCommunicator.h"
#include "main.h"
using namespace dyablo;
using pbt::Case;
using hc::CK;
typedef std::array<double, 5> S5; // rho, e_tot, momenta
static const double GAMMA = 1.4;

void C24(Case& c)
{
  enum { COND, VISC, COOL };
  static const char* kname[] = {"conduction", "viscosity", "cooling"};
  int kind = (int)c.pick<int>({COND, VISC, COND, VISC, COOL});
  mg::GenOpt o;
  o.max_octs = 80;
  o.max_coarse3 = 2;
  hc::Grid g;
  // viscosity : the operator is defined by periodic sides only
  auto m = mg::gen_mesh(c, g.p, o, 3);
  if (kind == VISC)
  {
    bool all = true;
    for (int a = 0; a < g.p.dim; a++) all = all && g.p.per[a];
    if (!all)
    {
      auto p = g.p;
      for (int a = 0; a < p.dim; a++) p.per[a] = true;
      g.p = p;
      m = mg::make_mesh(p);
      int steps = (int)c.draw(0, 3);
      for (int s = 0; s < steps; s++)
      {
        auto r = mg::gen_rule(c);
        mg::set_marks(*m, mg::local_marks(r, p, *m, mg::room(m->getGlobalNumOctants(), o) && (r.kind != 4 || mg::may_refine(p, m->getGlobalNumOctants(), o))), true);
        m->adapt();
      }
      mg::lb(*m, 0);
    }
  }
  hc::gen_geometry(c, g, true, false, 4);
  hc::Cells cells(g, *m);
  bool single = cells.mod.levels() == 1;
  if (kind != COOL)
    for (int a = 0; a < g.p.dim; a++)
      if (!single) g.b[a] = 4;
  auto ini = hc::base_ini(g);
  for (int a = 0; a < g.p.dim; a++)
    if (!g.p.per[a])
      for (auto* q : {"min", "max"})
        if (c.coin()) ini["mesh"][std::string("boundary_type_") + "xyz"[a] + q] = "reflecting";
  ini["hydro"]["gamma0"] = hc::num(GAMMA);
  double coef = c.pick<double>({1, 0.01, 30}), dt = c.pick<double>({1e-3, 0.7, 1e-6});
  int up = g.p.dim - 1; // direction of stratification
  bool layer = kind == COND && c.coin();
  double K1 = c.pick<double>({1, 0.2, 7}), K2 = c.pick<double>({3, 1, 0.5}), th = c.pick<double>({0.1, 0.5}), z1 = g.lo[up] + c.real(0, 0.6, 6) * g.L(up), z2 = g.lo[up] + c.real(0.4, 1, 6) * g.L(up);
  bool one = !c.coin(1, 5);
  if (kind == COND)
  {
    ini["thermal_conduction"]["kappa"] = hc::num(coef);
    ini["thermal_conduction"]["update"] = "ParabolicUpdate_explicit";
    if (layer)
    {
      ini["thermal_conduction"]["diffusivity_mode"] = "analytical";
      ini["thermal_conduction"]["kappa_mode"] = "tri_layer";
      auto& t = ini["tri_layer"];
      t["transition_thickness"] = hc::num(th);
      t["z1"] = hc::num(z1);
      t["z2"] = hc::num(z2);
      t["K1"] = hc::num(K1);
      t["K2"] = hc::num(K2);
    }
  }
  else if (kind == VISC) ini["viscosity"]["mu"] = hc::num(coef);
  else
  {
    ini["cooling"]["FF_fluxes"] = hc::num(coef);
    if (!one) ini["cooling"]["FF_layer"] = "layer";
  }
  int fk = (int)c.draw(0, 3); // random, smooth, uniform velocity and temperature, uniform with one hot cell
  uint64_t salt = c.salt();
  c.desc << kname[kind] << (layer ? " layers" : "") << " " << g.str() << " fields " << fk << " coefficient " << coef << " dt " << dt;
  auto state = [&](const mg::Oct& oc, uint32_t i, uint32_t j, uint32_t k) {
    auto x = hc::cell_center(g, oc, i, j, k);
    uint64_t h = pbt::hash_combine(salt, hc::cell_hash("s", oc, i, j, k));
    double r[5], s = 0;
    for (int a = 0; a < g.p.dim; a++) s += (x[a] - g.lo[a]) / g.L(a) * (a + 1);
    for (int n = 0; n < 5; n++)
    {
      double w = 2 * pbt::u01(pbt::hash_combine(h, n)) - 1;
      if (fk == 1) w = std::sin(6.283185307179586 * s + n);
      if (fk == 2 && n > 0) w = 2 * pbt::u01(pbt::hash_combine(salt, n)) - 1;
      if (fk == 3) w = (h % 31 == 0) ? w : 0;
      r[n] = w;
    }
    S5 u;
    u[0] = 1 + 0.7 * r[0];
    u[4] = 0;
    double v2 = 0;
    for (int a = 0; a < g.p.dim; a++) { u[2 + a] = u[0] * 2 * r[1 + a]; v2 += 4 * r[1 + a] * r[1 + a]; }
    double T = 1 + 0.8 * r[4];
    u[1] = u[0] * T / (GAMMA - 1) + 0.5 * u[0] * v2;
    return u;
  };
  ConfigMap cfg(hc::to_text(ini));
  ForeachCell fc(*m, cfg);
  Timers timers;
  UserData U(cfg, fc);
  ScalarSimulationData sd;
  sd.set<real_t>("time", 0);
  sd.set<int>("iter", 0);
  sd.set<real_t>("dt", dt);
  sd.set<real_t>("aexp", 1);
  const std::vector<std::string> names = {"rho", "e_tot", "rho_vx", "rho_vy", "rho_vz"};
  std::vector<std::string> next, all = names;
  for (auto& n : names) next.push_back(n + "_next");
  for (auto& n : next) all.push_back(n);
  all.push_back("other");
  for (auto& n : all) U.new_fields({n});
  for (size_t f = 0; f < all.size(); f++)
    hc::fill(g, *m, U, all[f], [&](const mg::Oct& oc, uint32_t i, uint32_t j, uint32_t k) {
      if (f < 5) return state(oc, i, j, k)[f];
      if (f == 9 && g.p.dim == 2) return 0.0;
      return hc::cell_value(all[f], oc, i, j, k);
    });
  {
    GhostCommunicator gc(*m, U.getShape(), 2);
    auto ac = hc::accessor(U, names);
    gc.exchange_ghosts(ac);
  }
  auto before = hc::snapshot(g, *m, U, all);
  if (kind == COOL) CoolingUpdateFactory::make_instance("CoolingUpdate_FF", cfg, fc, timers)->update(U, sd);
  else ParabolicUpdateFactory::make_instance("ParabolicUpdate_explicit", cfg, fc, timers, kind == COND ? PARABOLIC_THERMAL_CONDUCTION : PARABOLIC_VISCOSITY)->update(U, sd);
  auto after = hc::snapshot(g, *m, U, all);

  std::unordered_map<CK, S5, hc::CKHash> val, inc, nxt;
  for (size_t q = 0; q < after.octs.size(); q++)
  {
    size_t cell = 0;
    hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
      auto key = hc::cell_key(g, after.octs[q], i, j, k);
      for (size_t f = 0; f < all.size(); f++)
      {
        double b = before.at(q, f, cell), a = after.at(q, f, cell);
        bool may = f == 6 || (kind == VISC && f >= 7 && f <= 9);
        if (!may) PBT_CHECK(c, a == b, kname[kind] << " changed " << all[f] << " of " << mg::str(after.octs[q]) << "(" << i << "," << j << "," << k << ") from " << b << " to " << a);
        if (f < 5) val[key][f] = b;
        else if (f < 10) { inc[key][f - 5] = a - b; nxt[key][f - 5] = std::fabs(a) + std::fabs(b); }
      }
      cell++;
    });
  }
  c.sync();
  auto prim = [&](const S5& u, double* q) { // rho, T, v
    q[0] = u[0];
    double v2 = 0;
    for (int a = 0; a < 3; a++) { q[2 + a] = u[2 + a] / u[0]; v2 += q[2 + a] * q[2 + a]; }
    q[1] = (GAMMA - 1) * (u[1] - 0.5 * u[0] * v2) / u[0];
  };
  auto kappa = [&](const CK& k) {
    if (!layer) return coef;
    double d = g.lo[up] + (k[up + 1] + 0.5) * cells.size(up, k[0]);
    double t = 0.25 * (std::tanh((d - z1) / th) + 1) * (std::tanh((z2 - d) / th) + 1);
    return coef * (K2 * (1 - t) + K1 * t);
  };
  bool jump = false;
  double big = 0, total[4] = {0, 0, 0, 0}, mag[4] = {0, 0, 0, 0};
  std::vector<CK> nb;
  // mean state of the region of the size of a cell
  auto region = [&](const CK& k, const std::array<int, 3>& off) {
    CK n = k;
    for (int a = 0; a < 3; a++) n[a + 1] = (n[a + 1] + off[a] + cells.n(a, k[0])) % cells.n(a, k[0]);
    CK upk{n[0] - 1, n[1] / 2, n[2] / 2, g.p.dim == 3 ? n[3] / 2 : 0};
    if (cells.leaf(n)) return val[n];
    jump = true;
    if (cells.leaf(upk)) return val[upk];
    S5 w{{0, 0, 0, 0, 0}};
    int cnt = g.p.dim == 3 ? 8 : 4;
    for (int z = 0; z < cnt; z++)
    {
      CK q{n[0] + 1, 2 * n[1] + (z & 1), 2 * n[2] + (z >> 1 & 1), g.p.dim == 3 ? 2 * n[3] + (z >> 2 & 1) : 0};
      for (int f = 0; f < 5; f++) w[f] += val[q][f] / cnt;
    }
    return w;
  };
  for (auto& kv : val)
  {
    const CK& k = kv.first;
    double V = cells.volume(k[0]), e[5] = {0, 0, 0, 0, 0}, t[5] = {0, 0, 0, 0, 0};
    if (kind == COOL)
    {
      double h = cells.size(up, k[0]);
      if (one && k[up + 1] == 0) e[1] = -coef / h;
      else if (one && k[up + 1] == cells.n(up, k[0]) - 1) e[1] = coef / h;
      t[1] = std::fabs(e[1]);
    }
    else if (kind == COND)
    {
      double qc[5], qn[5];
      prim(kv.second, qc);
      for (int a = 0; a < g.p.dim; a++)
        for (int s = -1; s <= 1; s += 2)
        {
          hc::face_cells(cells, k, a, s, nb);
          double h = cells.size(a, k[0]);
          for (auto& n : nb)
          {
            prim(val[n], qn);
            double d = h;
            if (n[0] > k[0]) d = 0.75 * h, jump = true;
            if (n[0] < k[0]) d = 1.5 * h, jump = true;
            double f = 0.5 * (kappa(k) + kappa(n)) / d / h / nb.size();
            e[1] += f * (qn[1] - qc[1]);
            t[1] += f * (std::fabs(qn[1]) + std::fabs(qc[1])) * 10;
          }
        }
    }
    else
    {
      // velocities around
      double v[3][3][3][3];
      for (int z = (g.p.dim == 3 ? -1 : 0); z <= (g.p.dim == 3 ? 1 : 0); z++)
        for (int y = -1; y <= 1; y++)
          for (int x = -1; x <= 1; x++)
          {
            double q[5];
            prim(region(k, {x, y, z}), q);
            for (int n = 0; n < 3; n++) v[x + 1][y + 1][z + 1][n] = q[2 + n];
          }
      int D = g.p.dim;
      auto at = [&](std::array<int, 3> p, int n) { return v[p[0] + 1][p[1] + 1][p[2] + 1][n]; };
      for (int a = 0; a < D; a++)
        for (int s = 0; s < 2; s++)
        {
          double G[3][3] = {{0}}, vi[3] = {0, 0, 0}, gm[3][3] = {{0}}; // G[n][b] = d v_n / d x_b at the face
          std::array<int, 3> R{{0, 0, 0}}, L{{0, 0, 0}};
          R[a] = s;
          L[a] = s - 1;
          for (int n = 0; n < D; n++)
          {
            vi[n] = 0.5 * (at(R, n) + at(L, n));
            for (int b = 0; b < D; b++)
            {
              double h = cells.size(b, k[0]);
              if (b == a)
              {
                G[n][b] = (at(R, n) - at(L, n)) / h;
                gm[n][b] = (std::fabs(at(R, n)) + std::fabs(at(L, n))) / h;
              }
              else
                for (auto* P : {&R, &L})
                {
                  auto p = *P, q = *P;
                  p[b] += 1;
                  q[b] -= 1;
                  G[n][b] += (at(p, n) - at(q, n)) / (4 * h);
                  gm[n][b] += (std::fabs(at(p, n)) + std::fabs(at(q, n))) / (4 * h);
                }
            }
          }
          double div = 0, dm = 0;
          for (int b = 0; b < D; b++) div += G[b][b], dm += gm[b][b];
          double f = (s ? 1 : -1) * coef / cells.size(a, k[0]);
          for (int n = 0; n < D; n++)
          {
            double tau = G[n][a] + G[a][n] - (n == a ? 2.0 / 3.0 * div : 0);
            double tm = gm[n][a] + gm[a][n] + dm;
            e[2 + n] += f * tau;
            t[2 + n] += std::fabs(f) * tm;
            e[1] += f * vi[n] * tau;
            t[1] += std::fabs(f * vi[n]) * tm;
          }
        }
    }
    for (int f = 1; f < 5; f++)
    {
      double tol = 1e-11 * dt * t[f] + 1e-15 * nxt[k][f];
      PBT_CHECK(c, std::fabs(inc[k][f] - dt * e[f]) <= tol, kname[kind] << " changed " << names[f] << " of the cell " << k[0] << " (" << k[1] << "," << k[2] << "," << k[3] << ") by " << inc[k][f] << " expected " << dt * e[f] << " +- " << tol);
      big = std::max(big, std::fabs(e[f]));
      total[f - 1] += inc[k][f] * V;
      mag[f - 1] += (1e-11 * dt * t[f] + 1e-15 * nxt[k][f]) * V;
    }
  }
  if (kind == COND || kind == COOL || single)
  {
    for (int f = 0; f < 4; f++)
        PBT_CHECK(c, std::fabs(total[f]) <= mag[f], kname[kind] << " changed the total of " << names[f + 1] << " by " << total[f] << " +- " << mag[f]);
  }
  if (kind == VISC && fk == 2)
    for (auto& kv : inc)
      for (int f = 1; f < 5; f++)
      {
        double h = 1e300;
        for (int a = 0; a < g.p.dim; a++) h = std::min(h, cells.size(a, kv.first[0]));
        PBT_CHECK(c, std::fabs(kv.second[f]) <= 1e-12 * dt * coef / (h * h) * 20 + 1e-15 * nxt[kv.first][f], "viscosity acts on a uniform velocity : " << names[f] << " changed by " << kv.second[f]);
      }
  c.sync();
  c.label(kname[kind]);
  if (jump) c.label("level jump");
  if (layer) c.label("layers");
  c.nontrivial = big > 0;
}

int main(int argc, char** argv) { return pbt_main(argc, argv, {{"C24", C24}}); }
