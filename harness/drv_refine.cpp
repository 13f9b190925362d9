// C19 refinement criteria
#include "cellmap.h"
#include "utils/monitoring/Timers.h"
#include "ScalarSimulationData.h"
#include "refine_condition/RefineCondition.h"
#include "mpi/GhostCommunicator.h"
#include "main.h"
using namespace dyablo;
using pbt::Case;
using hc::CK;

static const double GAMMA = 1.4;
typedef std::array<double, 5> S5; // rho, e_tot, momenta
static double pressure(const S5& u) { return (GAMMA - 1) * (u[1] - 0.5 * (u[2] * u[2] + u[3] * u[3] + u[4] * u[4]) / u[0]); }

void C19(Case& c)
{
  enum { GRAD, MASS, DOWN, SECOND, LEGACY, NK };
  static const char* kname[] = {"pseudo_gradient", "mass", "downflows", "second_derivative_error", "legacy"};
  int kind = (int)c.draw(0, NK - 1);
  mg::GenOpt o;
  o.allow_deep = true;
  o.max_octs = 150;
  o.max_coarse3 = 2;
  hc::Grid g;
  auto m = mg::gen_mesh(c, g.p, o, 4);
  bool same = kind == SECOND || kind == LEGACY;
  hc::gen_geometry(c, g, true, false, 4);
  if (same)
    for (int a = 0; a < g.p.dim; a++) g.b[a] = 4;
  auto ini = hc::base_ini(g);
  for (int a = 0; a < g.p.dim; a++)
    if (!g.p.per[a])
      for (auto* q : {"min", "max"})
        if (c.coin()) ini["mesh"][std::string("boundary_type_") + "xyz"[a] + q] = "reflecting";
  ini["hydro"]["gamma0"] = hc::num(GAMMA);
  // fields
  int fk = (int)c.draw(0, 4); // smooth, spikes, noise, steps by region, uniform
  bool exact = (kind == MASS || kind == DOWN) && c.coin(1, 4); // few values of which all results are exact : thresholds may be equal to some
  if (exact)
    for (int a = 0; a < g.p.dim; a++)
    {
      int e;
      double q = g.L(a) / (double)(g.p.coarse[a] * g.b[a]);
      exact = exact && (kind == DOWN || (std::frexp(q, &e) == 0.5 && (g.p.coarse[a] & (g.p.coarse[a] - 1)) == 0 && std::floor(g.lo[a]) == g.lo[a]));
    }
  bool parts = kind == MASS && c.coin(1, 3); // the mass of particles counts
  double amp = c.pick<double>({0.3, 0.01, 0.8, 1e-4});
  int freq = (int)c.draw(1, 4);
  uint64_t salt = c.salt();
  bool wide = c.coin(1, 4); // density over several decades
  double sign = c.pick<double>({1, -1, 2.5});
  auto state = [&](const mg::Oct& oc, uint32_t i, uint32_t j, uint32_t k) {
    auto x = hc::cell_center(g, oc, i, j, k);
    double r[7], s = 0;
    for (int a = 0; a < 3; a++)
    {
      double u = (x[a] - g.lo[a]) / g.L(a);
      if (a < g.p.dim) s += u * (a + 1) * freq;
    }
    uint64_t h = pbt::hash_combine(salt, hc::cell_hash("s", oc, i, j, k));
    uint64_t hb = pbt::hash_combine(salt, mg::KeyHash()(mg::key(oc.level, mg::C3{{oc.c[0] / 2, oc.c[1] / 2, oc.c[2] / 2}})));
    for (int n = 0; n < 7; n++)
    {
      double w = 2 * pbt::u01(pbt::hash_combine(h, n)) - 1;
      switch (fk)
      {
        case 0: r[n] = std::sin(6.283185307179586 * s + n); break;
        case 1: r[n] = (h % 23 == 0) ? w : 0.01 * w; break;
        case 2: r[n] = w; break;
        case 3: r[n] = (2 * pbt::u01(pbt::hash_combine(hb, n)) - 1) + 1e-3 * w; break;
        default: r[n] = 0;
      }
      r[n] *= amp;
    }
    if (exact) for (int n = 0; n < 7; n++) r[n] = 0.25 * (double)(int)(pbt::mix64(h + n) % 5 - 2);
    S5 u;
    u[0] = exact ? std::ldexp(1, (int)(h % 3) - 1) : wide ? std::pow(10, 4 * r[0]) : 1 + r[0];
    double v2 = 0;
    u[4] = 0;
    for (int a = 0; a < g.p.dim; a++) { u[2 + a] = u[0] * r[1 + a]; v2 += r[1 + a] * r[1 + a]; }
    u[1] = (1 + r[5]) / (GAMMA - 1) + 0.5 * u[0] * v2;
    return u;
  };
  const std::vector<std::string> names = {"rho", "e_tot", "rho_vx", "rho_vy", "rho_vz"};
  // indicators from the definition
  hc::Cells cells(g, *m);
  std::unordered_map<CK, S5, hc::CKHash> val;
  for (auto& oc : cells.mod.octs)
    hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) { val[hc::cell_key(g, oc, i, j, k)] = state(oc, i, j, k); });
  // particles in the middle of some cells
  std::unordered_map<CK, double, hc::CKHash> added;
  auto particle = [&](const CK& k, int n) { // mass of the n-th particle of a cell
    uint64_t h = pbt::hash_combine(pbt::hash_combine(salt + 77, hc::CKHash()(k)), n);
    if (h % (n ? 2 : 5)) return 0.;
    return cells.volume(k[0]) * (exact ? std::ldexp(1, (int)(h / 16 % 4)) : 3 * pbt::u01(h));
  };
  if (parts)
    for (auto& oc : cells.mod.octs)
      hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
        CK key = hc::cell_key(g, oc, i, j, k);
        for (int n = 0; n < 3; n++) { double q = particle(key, n); if (q == 0) break; added[key] += q; }
      });
  auto rel = [](double a, double b) { double mx = std::max(std::fabs(a), std::fabs(b)); return mx < 0.001 ? 0 : std::min(1.0, std::fabs(a - b) / mx); };
  auto indicator = [&](const CK& k) {
    const S5& u = val[k];
    if (kind == MASS) return u[0] * cells.volume(k[0]) + added[k];
    if (kind == DOWN) return sign * u[g.p.dim == 2 ? 3 : 4] / u[0];
    double r = 0;
    std::vector<CK> nb;
    for (int a = 0; a < g.p.dim; a++)
    {
      double q[2][2];
      for (int s = 0; s < 2; s++)
      {
        hc::face_cells(cells, k, a, s ? 1 : -1, nb);
        if (kind == GRAD)
          for (auto& n : nb) r = std::max(r, rel(u[0], val[n][0]));
        else
        {
          S5 w = u;
          if (nb.size() == 1) w = val[nb[0]];
          else if (nb.size() > 1)
          {
            // the region of the size of the cell : mean of all the cells inside
            CK b = nb[0];
            w = S5{{0, 0, 0, 0, 0}};
            int cnt = g.p.dim == 3 ? 8 : 4;
            for (int z = 0; z < cnt; z++)
            {
              CK n{b[0], (b[1] & ~1ll) + (z & 1), (b[2] & ~1ll) + (z >> 1 & 1), g.p.dim == 3 ? (b[3] & ~1ll) + (z >> 2 & 1) : b[3]};
              for (int f = 0; f < 5; f++) w[f] += val[n][f] / cnt;
            }
          }
          q[s][0] = w[0];
          q[s][1] = pressure(w);
        }
      }
      if (kind >= SECOND)
        for (int f = 0; f < 2; f++)
        {
          double qc = f ? pressure(u) : u[0], fr = q[1][f] - qc, fl = q[0][f] - qc;
          double den = std::fabs(fr) + std::fabs(fl) + 0.01 * (std::fabs(q[1][f]) + std::fabs(q[0][f]) + 2 * std::fabs(qc)) + 2.2e-16;
          r = std::max(r, std::fabs(fr + fl) / den);
        }
    }
    return r;
  };
  std::vector<double> bmax;
  for (auto& oc : cells.mod.octs)
  {
    double mx = -1e300;
    hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) { mx = std::max(mx, indicator(hc::cell_key(g, oc, i, j, k))); });
    bmax.push_back(mx);
  }
  // thresholds between two values that occur
  auto sorted = bmax;
  std::sort(sorted.begin(), sorted.end());
  auto threshold = [&](int permille, double& t) {
    size_t n = sorted.size(), at = n * permille / 1000;
    while (at > 0 && at < n && sorted[at] - sorted[at - 1] < 1e-7 * (std::fabs(sorted[at]) + std::fabs(sorted[at - 1])) + 1e-10) at++;
    double low = at == 0 ? sorted[0] - 0.5 * std::fabs(sorted[0]) - 1e-3 : sorted[at - 1], high = at >= n ? sorted[n - 1] + 0.5 * std::fabs(sorted[n - 1]) + 1e-3 : sorted[at];
    t = 0.5 * (low + high);
    if (exact && c.coin()) { t = sorted[std::min(n - 1, at)]; c.label("threshold equal to a value"); }
  };
  double refine, coarsen;
  int pr = (int)c.draw(0, 1000), pc = (int)c.draw(0, 1000);
  if (pc > pr && !(kind == GRAD && c.coin(1, 4))) std::swap(pr, pc); // the default thresholds of the gradient criterion overlap
  threshold(pr, refine);
  threshold(pc, coarsen);
  auto amb = [&](double x, double t) { return std::fabs(x - t) < 1e-9 * (std::fabs(x) + std::fabs(t)) + 1e-11; };
  std::vector<int> want(bmax.size());
  for (size_t q = 0; q < bmax.size(); q++)
  {
    want[q] = bmax[q] > refine ? 1 : bmax[q] <= coarsen ? -1 : 0;
    if (!exact && (amb(bmax[q], refine) || amb(bmax[q], coarsen))) { c.label("tie"); return; }
    if (want[q] > 0 && cells.mod.octs[q].level >= g.p.lmax) want[q] = 0, c.label("clipped at the maximum level");
    if (want[q] < 0 && cells.mod.octs[q].level <= g.p.lmin) want[q] = 0;
  }
  static const char* kr[] = {"epsilon_refine", "mass_refine", "velocity_refine", "error_max", "error_max"};
  static const char* kc[] = {"epsilon_coarsen", "mass_coarsen", "velocity_coarsen", "error_min", "error_min"};
  ini["amr"][kr[kind]] = hc::num(refine);
  ini["amr"][kc[kind]] = hc::num(coarsen);
  if (kind == DOWN) ini["amr"]["downflow_sign"] = hc::num(sign);
  c.desc << kname[kind] << " " << g.str() << " field " << fk << " amplitude " << amp << " refine > " << refine << " coarsen <= " << coarsen << " " << bmax.size() << " blocks";
  if (parts) ini["particles"]["update_density"] = "ParticleUpdate_NGP_density";
  ConfigMap cfg(hc::to_text(ini));
  ForeachCell fc(*m, cfg);
  Timers timers;
  UserData U(cfg, fc);
  ScalarSimulationData sd;
  sd.set<real_t>("time", 0);
  sd.set<int>("iter", 0);
  sd.set<real_t>("dt", 0);
  sd.set<real_t>("aexp", 1);
  U.new_fields({"rho", "e_tot", "rho_vx", "rho_vy", "rho_vz"});
  for (size_t f = 0; f < 5; f++) hc::fill(g, *m, U, names[f], [&](const mg::Oct& oc, uint32_t i, uint32_t j, uint32_t k) { return state(oc, i, j, k)[f]; });
  {
    GhostCommunicator gc(*m, U.getShape(), 2);
    auto ac = hc::accessor(U, names);
    gc.exchange_ghosts(ac);
  }
  if (parts)
  {
    std::vector<std::array<double, 4>> mine;
    for (uint32_t o = 0; o < m->getNumOctants(); o++)
    {
      mg::Oct oc = mg::local_oct(g.p, *m, o);
      hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
        auto x = hc::cell_center(g, oc, i, j, k);
        if (g.p.dim == 2) x[2] = g.lo[2];
        CK key = hc::cell_key(g, oc, i, j, k);
        for (int n = 0; n < 3; n++) { double q = particle(key, n); if (q == 0) break; mine.push_back({{x[0], x[1], x[2], q}}); }
      });
    }
    U.new_ParticleArray("particles", (uint32_t)mine.size());
    auto arr = U.getParticleArray("particles");
    U.new_ParticleAttribute("particles", "mass");
    auto acc = U.getParticleAccessor("particles", {{"mass", 0}});
    for (size_t q = 0; q < mine.size(); q++)
    {
      for (int a = 0; a < 3; a++) arr.pos(q, (ComponentIndex3D)a) = mine[q][a];
      acc.at(q, 0) = mine[q][3];
    }
    c.label("mass of particles");
  }
  auto before = hc::snapshot(g, *m, U, names);
  auto rc = RefineConditionFactory::make_instance(std::string("RefineCondition_") + kname[kind], cfg, fc, timers);
  rc->mark_cells(U, sd);
  auto after = hc::snapshot(g, *m, U, names);
  PBT_CHECK(c, before.v == after.v, "the criterion changed the fields");
  m->adapt();
  auto got = mg::gather(g.p, *m);
  auto model = cells.mod;
  auto mk = model.close_markers(want);
  model.apply(mk);
  // the marks are seen through the adapted mesh
  mg::Model gm;
  gm.p = g.p;
  gm.octs = got;
  gm.index();
  for (auto& oc : model.octs)
    if (gm.find(oc.level, oc.c) < 0)
    {
      std::ostringstream s;
      for (size_t q = 0; q < bmax.size(); q++)
      {
        auto& b = cells.mod.octs[q];
        bool in = true;
        uint32_t l = std::min(b.level, oc.level);
        for (int a = 0; a < 3; a++) in = in && (b.c[a] >> (a == 2 && g.p.dim == 2 ? 0 : b.level - l)) == (oc.c[a] >> (a == 2 && g.p.dim == 2 ? 0 : oc.level - l));
        if (in) s << " " << mg::str(b) << " indicator " << bmax[q] << " mark " << want[q] << " closed " << mk[q];
      }
      PBT_CHECK(c, false, kname[kind] << " : block " << mg::str(oc) << " is missing after adapting;" << s.str());
    }
  PBT_CHECK(c, got.size() == model.octs.size(), kname[kind] << " : " << got.size() << " blocks after adapting, expected " << model.octs.size());
  c.sync();
  bool up = false, down = false;
  for (int v : mk) { up = up || v > 0; down = down || v < 0; }
  c.label(kname[kind]);
  if (up) c.label(std::string("refined by ") + kname[kind]);
  if (down) c.label(std::string("coarsened by ") + kname[kind]);
  c.nontrivial = up || down;
}

int main(int argc, char** argv) { return pbt_main(argc, argv, {{"C19", C19}}); }
