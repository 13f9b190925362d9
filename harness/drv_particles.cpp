// C18 deposition of particles on the mesh and motion of particles
#include "cellmap.h"
#include "utils/monitoring/Timers.h"
#include "ScalarSimulationData.h"
#include "particles/ParticleUpdate.h"
#include "mpi/GhostCommunicator.h"
#include "main.h"
using namespace dyablo;
using pbt::Case;

namespace {
using hc::P3; using hc::CK; using hc::CKHash; using hc::Cells;
} // namespace

void C18(Case& c)
{
  int op = (int)c.draw(0, 4); // 0 NGP density 1 CIC density 2 NGP move 3 CIC move 4 tracers
  static const char* nm[] = {"ParticleUpdate_NGP_density", "ParticleUpdate_CIC_density", "ParticleUpdate_NGP_move", "ParticleUpdate_CIC_move", "ParticleUpdate_tracers_move"};
  bool cic = op == 1 || op == 3, move = op >= 2;
  mg::GenOpt o;
  o.allow_deep = true;
  o.max_octs = 120;
  o.max_coarse3 = 2;
  o.max_coarse2 = 4;
  hc::Grid g;
  auto m = mg::gen_mesh(c, g.p, o, 3);
  hc::gen_geometry(c, g, cic, false, 4);
  if (cic || move)
  {
    bool same = g.p.per[0] && g.p.per[1] && (g.p.dim == 2 || g.p.per[2]);
    if (!same)
    {
      // these updates treat the domain as periodic
      auto lo = g.p;
      for (int a = 0; a < g.p.dim; a++) lo.per[a] = true;
      g.p = lo;
      m = mg::make_mesh(g.p);
      int st = (int)c.draw(0, 3);
      for (int s = 0; s < st; s++)
      {
        mg::MarkRule r = mg::gen_rule(c);
        bool ar = mg::room(m->getGlobalNumOctants(), o) && (r.kind != 4 || mg::may_refine(g.p, m->getGlobalNumOctants(), o));
        mg::set_marks(*m, mg::local_marks(r, g.p, *m, ar), true);
        m->adapt();
      }
      mg::lb(*m, 0);
    }
  }
  int np = pbt::mpi_size(), me = pbt::mpi_rank();
  ConfigMap cfg(hc::to_text(hc::base_ini(g)));
  ForeachCell fc(*m, cfg);
  Timers timers;
  UserData U(cfg, fc);
  ScalarSimulationData sd;
  Cells cells(g, *m);
  int64_t npart = c.pick<int>({20, 1, 3, 60, 150, 0});
  int place = (int)c.draw(0, 3); // 0 anywhere, 1 close to cell walls, 2 cell centres, 3 exactly at walls
  if (move && place == 3) place = 1;
  int conc = (int)c.draw(0, 2); // 2 : clustered in one corner region
  uint64_t salt = c.salt();
  c.desc << g.str() << " " << nm[op] << " particles " << npart << " place " << place << " cluster " << conc;
  std::vector<P3> pos(npart), vel(npart);
  std::vector<double> mass(npart);
  for (int64_t i = 0; i < npart; i++)
  {
    uint64_t h = pbt::hash_combine(salt, i);
    P3 p;
    for (int a = 0; a < 3; a++)
    {
      double u = pbt::u01(h + a);
      if (conc == 2) u = 0.15 * u + 0.85 * (pbt::mix64(h + 90 + a) & 1);
      if (u < 1e-7) u = 1e-7;
      p[a] = a == 2 && g.p.dim == 2 ? g.lo[a] : g.lo[a] + u * g.L(a);
    }
    CK k = cells.home(p);
    if (k[0] < 0) { PBT_CHECK(c, false, "no cell of the mesh holds (" << p[0] << "," << p[1] << "," << p[2] << ")"); continue; }
    for (int a = 0; a < g.p.dim; a++)
    {
      double s = cells.size(a, k[0]), q = (p[a] - g.lo[a]) / s - k[a + 1];
      if (place == 0 || (place == 1 && (pbt::mix64(h + 31 + a) & 1))) q = std::min(1 - 1e-5, std::max(1e-5, q));
      else if (place == 1) q = (pbt::mix64(h + 40 + a) & 1) ? 1e-5 : 1 - 1e-5;
      else if (place == 2) q = 0.5;
      else if (pbt::mix64(h + 31 + a) & 1) q = k[a + 1] == 0 ? 1e-5 : 0;
      else q = std::min(1 - 1e-5, std::max(1e-5, q));
      p[a] = g.lo[a] + (k[a + 1] + q) * s;
    }
    pos[i] = p;
    mass[i] = 0.01 + pbt::u01(h + 7);
    for (int a = 0; a < 3; a++) vel[i][a] = 2 * pbt::u01(h + 11 + a) - 1;
  }
  c.sync();
  // particles are created on the process that owns them
  auto arrive = [&]() {
    std::vector<int64_t> mine;
    for (int64_t i = 0; i < npart; i++) if (i % np == me) mine.push_back(i);
    U.new_ParticleArray("particles", (uint32_t)mine.size());
    auto arr = U.getParticleArray("particles");
    for (auto* s : {"id", "mass", "vx", "vy", "vz"}) U.new_ParticleAttribute("particles", s);
    auto acc = U.getParticleAccessor("particles", {{"id", 0}, {"mass", 1}, {"vx", 2}, {"vy", 3}, {"vz", 4}});
    for (size_t q = 0; q < mine.size(); q++)
    {
      for (int a = 0; a < 3; a++) { arr.pos(q, (ComponentIndex3D)a) = pos[mine[q]][a]; acc.at(q, 2 + a) = vel[mine[q]][a]; }
      acc.at(q, 0) = (double)mine[q];
      acc.at(q, 1) = mass[mine[q]];
    }
    U.distributeParticles("particles");
  };
  arrive();
  auto upd = ParticleUpdateFactory::make_instance(nm[op], cfg, fc, timers);
  sd.set<real_t>("time", 0);
  sd.set<int>("iter", 0);
  bool mixed = false;
  for (int64_t i = 0; i < npart; i++)
  {
    std::vector<Cells::Share> sh;
    CK h = cells.home(pos[i]);
    cells.cloud(pos[i], h, sh);
    for (auto& s : sh) if (s.cells.size() > 1 || s.cells[0][0] != h[0]) mixed = true;
  }
  if (mixed) c.label("cloud over a level jump");
  if (!move)
  {
    U.new_fields({"rho", "rho_g"});
    int zero = (int)c.draw(0, 2);
    hc::fill(g, *m, U, "rho", [&](const mg::Oct& oc, uint32_t i, uint32_t j, uint32_t k) { return zero == 2 ? 0 : 1 + 0.5 * hc::cell_value("rho", oc, i, j, k); });
    GhostCommunicator gc(*m, U.getShape(), 1);
    auto ra = hc::accessor(U, {"rho"});
    gc.exchange_ghosts(ra);
    upd->update(U, sd);
    auto s = hc::snapshot(g, *m, U, {"rho", "rho_g"});
    std::unordered_map<CK, double, CKHash> sure, got; // masses
    std::unordered_map<CK, double, CKHash> group, extra; // virtual cell -> mass spread over its sub-cells ; cell -> most it may add
    double total = 0, found = 0, scale = 0;
    for (int64_t i = 0; i < npart; i++)
    {
      total += mass[i];
      CK h = cells.home(pos[i]);
      if (!cic) { sure[h] += mass[i]; continue; }
      std::vector<Cells::Share> sh;
      cells.cloud(pos[i], h, sh);
      for (auto& x : sh)
        if (x.cells.size() == 1) sure[x.cells[0]] += mass[i] * x.w;
        else
        {
          for (auto& k : x.cells) extra[k] += mass[i] * x.w;
          CK v = x.cells[0];
          group[CK{v[0] - 1, v[1] / 2, v[2] / 2, v[3] / 2}] += mass[i] * x.w;
        }
    }
    for (size_t q = 0; q < s.octs.size(); q++)
    {
      size_t cell = 0;
      hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
        const mg::Oct& oc = s.octs[q];
        CK key{oc.level, (int64_t)oc.c[0] * g.b[0] + i, (int64_t)oc.c[1] * g.b[1] + j, (int64_t)oc.c[2] * g.b[2] + k};
        double V = cells.volume(oc.level), r = s.at(q, 0, cell) * V, d = (s.at(q, 1, cell) - s.at(q, 0, cell)) * V;
        found += d;
        scale += r;
        got[key] = d;
        if (place != 3)
        {
          double lo = sure.count(key) ? sure[key] : 0, hi = lo + (extra.count(key) ? extra[key] : 0), tol = 1e-12 * (r + hi + V + 1);
          PBT_CHECK(c, d >= lo - tol && d <= hi + tol, "the cell " << mg::str(oc) << "(" << i << "," << j << "," << k << ") received mass " << d << " expected " << lo << (hi > lo ? " to " : "") << (hi > lo ? hc::num(hi) : ""));
        }
        cell++;
      });
    }
    if (place != 3)
      for (auto& gr : group)
      {
        const CK& v = gr.first;
        double d = 0, e = gr.second;
        for (int q = 0; q < (g.p.dim == 3 ? 8 : 4); q++)
        {
          CK k{v[0] + 1, 2 * v[1] + (q & 1), 2 * v[2] + (q >> 1 & 1), 2 * v[3] + (q >> 2 & 1)};
          d += got[k];
          if (sure.count(k)) e += sure[k];
        }
        // smaller cells of the region may also share clouds of other sizes : only exact when no other region covers them
        PBT_CHECK(c, std::fabs(d - e) <= 1e-11 * (1 + e + cells.volume(v[0])), "the region of level " << v[0] << " cell (" << v[1] << "," << v[2] << "," << v[3] << ") received mass " << d << " expected " << e);
      }
    PBT_CHECK(c, std::fabs(found - total) <= 1e-11 * (1 + total + scale), "deposited mass " << found << ", the particles weigh " << total);
    // the particles themselves are left alone
    auto arr = U.getParticleArray("particles");
    auto acc = U.getParticleAccessor("particles", {{"id", 0}, {"mass", 1}});
    for (uint32_t i = 0; i < arr.getNumParticles(); i++)
    {
      int64_t id = (int64_t)acc.at(i, 0);
      PBT_CHECK(c, id >= 0 && id < npart && acc.at(i, 1) == mass[id] && arr.pos(i, IX) == pos[id][0], "a particle changed during the deposition");
    }
    c.sync();
    c.nontrivial = npart > 0 && (!cic || mixed || np > 1);
    return;
  }
  // ---- motion
  bool tr = op == 4;
  std::vector<std::string> fn = tr ? std::vector<std::string>{"rho_vx", "rho_vy", "rho_vz", "rho"} : std::vector<std::string>{"gx", "gy", "gz"};
  U.new_fields(std::set<std::string>(fn.begin(), fn.end()));
  bool uni = c.coin(1, 2);
  double big = c.pick<double>({0.2, 0.9, 3.0, 0.01}); // displacement in units of the box : 3 leaves it several times
  if (big == 3.0) big = 0.45;
  double dt = c.pick<double>({0.01, 0.5, 1e-3});
  double amp = c.pick<double>({0.5, 0.0, 3.0});
  bool graze = uni && c.coin(1, 4);
  c.desc << (graze ? " grazing" : "") << (uni ? " uniform" : " random") << " big " << big << " dt " << dt << " amp " << amp;
  double Lm = std::min(g.L(0), std::min(g.L(1), g.L(2)));
  // |displacement| <= dt*(|v| + dt*|g|) < big*L
  double gmax = amp * big * Lm / (dt * dt) / 4, vmax = big * Lm / dt - dt * gmax;
  auto fval = [&](int a, const CK& k) {
    if (a == 3) return uni ? 2.0 : 0.5 + pbt::u01(pbt::hash_combine(salt + 5, CKHash()(k)));
    double u = 2 * pbt::u01(pbt::hash_combine(salt + 50 + a, uni ? 1 : CKHash()(k))) - 1;
    if (tr)
    {
      double rho = uni ? 2.0 : 0.5 + pbt::u01(pbt::hash_combine(salt + 5, CKHash()(k)));
      return (g.p.dim == 2 && a == 2) ? 0.0 : u * vmax * rho;
    }
    return (g.p.dim == 2 && a == 2) ? 0.0 : u * gmax;
  };
  for (size_t a = 0; a < fn.size(); a++)
    hc::fill(g, *m, U, fn[a], [&](const mg::Oct& oc, uint32_t i, uint32_t j, uint32_t k) {
      return fval(fn[a] == "rho" ? 3 : (int)a, CK{oc.level, (int64_t)oc.c[0] * g.b[0] + i, (int64_t)oc.c[1] * g.b[1] + j, (int64_t)oc.c[2] * g.b[2] + k});
    });
  {
    GhostCommunicator gc(*m, U.getShape(), 1);
    auto a = hc::accessor(U, fn);
    gc.exchange_ghosts(a);
  }
  auto acc = U.getParticleAccessor("particles", {{"id", 0}, {"mass", 1}, {"vx", 2}, {"vy", 3}, {"vz", 4}});
  auto arr = U.getParticleArray("particles");
  for (uint32_t i = 0; i < arr.getNumParticles(); i++)
  {
    int64_t id = (int64_t)acc.at(i, 0);
    for (int a = 0; a < 3; a++)
    {
      vel[id][a] = (g.p.dim == 2 && a == 2) ? 0 : vel[id][a] * vmax;
      if (graze && !tr && a < g.p.dim && pos[id][a] - g.lo[a] < 0.9 * big * g.L(a))
      {
        // ends a few roundings from the lower wall
        double target = g.lo[a], stp = std::nextafter(g.lo[a], g.lo[a] - 1) - g.lo[a];
        target += stp * (double)((int)(pbt::mix64(salt + 70 + 3 * id + a) % 7) - 2);
        vel[id][a] = (target - pos[id][a]) / dt - dt * fval(a, CK{0, 0, 0, 0});
      }
      acc.at(i, 2 + a) = vel[id][a];
    }
  }
  sd.set<real_t>("dt", dt);
  upd->update(U, sd);
  bool left = false;
  auto acc2 = U.getParticleAccessor("particles", {{"id", 0}, {"mass", 1}, {"vx", 2}, {"vy", 3}, {"vz", 4}});
  auto arr2 = U.getParticleArray("particles");
  std::vector<double> cnt = {(double)arr2.getNumParticles()};
  for (uint32_t i = 0; i < arr2.getNumParticles(); i++)
  {
    int64_t id = (int64_t)acc2.at(i, 0);
    if (id < 0 || id >= npart) { PBT_CHECK(c, false, "unknown particle " << id); continue; }
    CK h = cells.home(pos[id]);
    std::vector<Cells::Share> sh;
    cells.cloud(pos[id], h, sh);
    PBT_CHECK(c, acc2.at(i, 1) == mass[id], "the mass of a particle changed");
    for (int a = 0; a < 3; a++)
    {
      double lo = 0, hi = 0; // field seen by the particle
      if (tr) { lo = hi = fval(a, h) / fval(3, h); }
      else if (!cic) { lo = hi = fval(a, h); }
      else
        for (auto& x : sh)
        {
          double mn = 1e300, mx = -1e300;
          for (auto& k : x.cells) { double v = fval(a, k); mn = std::min(mn, v); mx = std::max(mx, v); }
          lo += x.w * mn;
          hi += x.w * mx;
        }
      double v = tr ? 0 : acc2.at(i, 2 + a), tol = 1e-10 * (vmax + dt * gmax);
      if (!tr) PBT_CHECK(c, v >= vel[id][a] + dt * lo - tol && v <= vel[id][a] + dt * hi + tol, "particle " << id << " at (" << pos[id][0] << "," << pos[id][1] << "," << pos[id][2] << ") has velocity " << v << " along " << "xyz"[a] << " expected " << vel[id][a] + dt * lo << " to " << vel[id][a] + dt * hi);
      else PBT_CHECK(c, acc2.at(i, 2 + a) == vel[id][a], "the velocity attribute of a tracer changed");
      double x = arr2.pos(i, (ComponentIndex3D)a), xe = pos[id][a] + dt * (tr ? lo : v);
      if (a == 2 && g.p.dim == 2) { PBT_CHECK(c, std::fabs(x - pos[id][a]) < 1e-9 * g.L(a), "particle moved along z in 2D"); continue; }
      if (xe < g.lo[a] || xe >= g.hi[a]) left = true;
      double d = (x - xe) / g.L(a);
      d -= std::round(d);
      PBT_CHECK(c, std::fabs(d) < 1e-10, "particle " << id << " moved from " << pos[id][a] << " to " << x << " along " << "xyz"[a] << ", expected " << xe << " up to a multiple of the box");
      PBT_CHECK(c, x >= g.lo[a] && x < g.hi[a], "particle " << id << " moved from " << pos[id][a] << " to " << x << " along " << "xyz"[a] << ", outside of the periodic box " << g.lo[a] << " to " << g.hi[a]);
    }
  }
  auto all = hc::gatherv(cnt);
  double t = 0;
  for (double x : all) t += x;
  PBT_CHECK(c, t == (double)npart, t << " particles after the motion, " << npart << " before");
  c.sync();
  U.distributeParticles("particles");
  int any = left;
  MPI_Allreduce(MPI_IN_PLACE, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  if (any) c.label("left the periodic box");
  c.nontrivial = npart > 0 && (any || mixed);
}

int main(int argc, char** argv) { return pbt_main(argc, argv, {{"C18", C18}}); }
