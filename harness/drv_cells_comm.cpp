// C08 ghost exchange / reduction; C09 remap after adaptation
#include "common.h"
#include "mpi/GhostCommunicator.h"
#include "mpi/ViewCommunicator.h"
#include "amr/MapUserData.h"
using namespace dyablo;
using pbt::Case;

namespace {
typedef ForeachCell::CellIndex CI;
} // namespace

void C08(Case& c)
{
  mg::GenOpt o;
  o.allow_deep = true;
  o.max_octs = 250;
  hc::Grid g;
  auto m = mg::gen_mesh(c, g.p, o, 4);
  hc::gen_geometry(c, g, c.coin(), true, 4);
  int dim = g.p.dim, rank = pbt::mpi_rank(), np = pbt::mpi_size();
  int wmax = 4;
  for (int a = 0; a < dim; a++) wmax = std::min(wmax, (int)g.b[a]);
  int w = (int)c.draw(1, wmax);
  bool full = c.coin(1, 4);
  c.desc << g.str() << " width " << w << (full ? " full blocks" : "");
  ConfigMap cfg(hc::to_text(hc::base_ini(g)));
  ForeachCell fc(*m, cfg);
  UserData U(cfg, fc);
  std::vector<std::string> names = {"f0", "f1", "f2", "f3", "f4"};
  names.resize((size_t)c.draw(1, 5));
  U.new_fields(std::set<std::string>(names.begin(), names.end()));
  if (names.size() > 2 && c.coin(1, 3)) { U.delete_field("f1"); names.erase(names.begin() + 1); c.label("hole"); }
  // exchanged subset, in drawn order
  std::vector<std::string> ex, rest = names;
  while (!rest.empty() && (ex.empty() || c.coin(2, 3)))
  {
    size_t k = (size_t)c.draw(0, (int)rest.size() - 1);
    ex.push_back(rest[k]);
    rest.erase(rest.begin() + k);
  }
  for (auto& n : names) hc::fill(g, *m, U, n, [&](const mg::Oct& oc, uint32_t i, uint32_t j, uint32_t k) { return hc::cell_value(n, oc, i, j, k); });
  auto all = hc::accessor(U, names);
  uint32_t ng = m->getNumGhosts(), n = m->getNumOctants();
  std::vector<mg::Oct> loc, gho;
  for (uint32_t i = 0; i < n; i++) loc.push_back(mg::local_oct(g.p, *m, i));
  for (uint32_t i = 0; i < ng; i++) gho.push_back(mg::ghost_oct(g.p, *m, i));
  auto sentinel = [](size_t v, uint32_t o, uint32_t i, uint32_t j, uint32_t k) { return 1000. + v * 0.125 + o * 64 + i + 4 * j + 16 * k; };
  for (uint32_t q = 0; q < ng; q++)
    for (size_t v = 0; v < names.size(); v++)
      hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) { all.at_ivar(hc::make_cell(g, q, true, i, j, k), (int)v) = sentinel(v, q, i, j, k); });
  // which ghost cells are within w cells (of their size) of an owned block
  std::vector<std::vector<char>> need(ng, std::vector<char>(g.b[0] * g.b[1] * g.b[2], 0));
  {
    // local blocks by key for neighbour search
    mg::Model lm;
    lm.p = g.p;
    lm.octs = loc;
    lm.index();
    std::vector<int> nb;
    int L = g.p.lmax;
    for (uint32_t q = 0; q < ng; q++)
    {
      const mg::Oct& G = gho[q];
      int64_t gs = (int64_t)1 << (L - G.level); // ghost cell edge in finest cells
      for (uint32_t l = 0; l < n; l++)
      {
        const mg::Oct& B = loc[l];
        int dl = (int)B.level - (int)G.level;
        if (dl > 1 || dl < -1) continue;
        int64_t bs = (int64_t)1 << (L - B.level);
        // periodic images
        for (int sz = (dim == 3 && g.p.per[2]) ? -1 : 0; sz <= ((dim == 3 && g.p.per[2]) ? 1 : 0); sz++)
          for (int sy = g.p.per[1] ? -1 : 0; sy <= (g.p.per[1] ? 1 : 0); sy++)
            for (int sx = g.p.per[0] ? -1 : 0; sx <= (g.p.per[0] ? 1 : 0); sx++)
            {
              int sh[3] = {sx, sy, sz};
              bool touch = true;
              int64_t blo[3], bhi[3];
              for (int a = 0; a < dim; a++)
              {
                int64_t N = (int64_t)g.p.count(a, L) * g.b[a];
                blo[a] = (int64_t)B.c[a] * g.b[a] * bs + sh[a] * N;
                bhi[a] = blo[a] + (int64_t)g.b[a] * bs;
                int64_t glo = (int64_t)G.c[a] * g.b[a] * gs, ghi = glo + (int64_t)g.b[a] * gs;
                if (blo[a] > ghi || glo > bhi[a]) touch = false;
              }
              if (!touch) continue;
              hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
                uint32_t ix[3] = {i, j, k};
                bool ok = true;
                for (int a = 0; a < dim; a++)
                {
                  int64_t lo = ((int64_t)G.c[a] * g.b[a] + ix[a]) * gs, hi = lo + gs;
                  int64_t gap = std::max<int64_t>(0, std::max(blo[a] - hi, lo - bhi[a]));
                  if (gap > (int64_t)(w - 1) * gs) ok = false;
                }
                if (ok) need[q][i + g.b[0] * (j + g.b[1] * k)] = 1;
              });
            }
      }
    }
  }
  std::unique_ptr<GhostCommunicator> pc;
  std::unique_ptr<GhostCommunicator_full_blocks> fcm;
  if (full) fcm.reset(new GhostCommunicator_full_blocks(*m, U.getShape(), w));
  else pc.reset(new GhostCommunicator(*m, U.getShape(), w));
  uint32_t ngc = full ? fcm->getNumGhosts() : pc->getNumGhosts();
  PBT_CHECK(c, ngc == ng, "communicator knows " << ngc << " ghost blocks, the mesh has " << ng);
  c.sync();
  {
    auto exacc = hc::accessor(U, ex);
    int reps = (int)c.draw(1, 2);
    for (int r = 0; r < reps; r++)
    {
      if (full) fcm->exchange_ghosts(exacc);
      else pc->exchange_ghosts(exacc);
    }
  }
  std::set<std::string> exs(ex.begin(), ex.end());
  bool level_jump = false;
  for (size_t v = 0; v < names.size(); v++)
  {
    bool is_ex = exs.count(names[v]);
    for (uint32_t q = 0; q < ng; q++)
      hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
        double got = all.at_ivar(hc::make_cell(g, q, true, i, j, k), (int)v);
        double own = hc::cell_value(names[v], gho[q], i, j, k), sen = sentinel(v, q, i, j, k);
        if (!is_ex) PBT_CHECK(c, got == sen, "ghost value of field " << names[v] << ", not exchanged, changed");
        else if (full || need[q][i + g.b[0] * (j + g.b[1] * k)])
          PBT_CHECK(c, got == own, "after exchange, cell (" << i << "," << j << "," << k << ") of ghost " << mg::str(gho[q]) << " holds " << got << " for " << names[v] << ", its owner has " << own << (got == sen ? " (not received)" : ""));
        else PBT_CHECK(c, got == own || got == sen, "far ghost cell holds a foreign value");
      });
    for (uint32_t q = 0; q < n; q++)
      hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
        double got = all.at_ivar(hc::make_cell(g, q, false, i, j, k), (int)v), own = hc::cell_value(names[v], loc[q], i, j, k);
        PBT_CHECK(c, got == own, "exchange changed owned cell of " << mg::str(loc[q]) << " field " << names[v]);
      });
  }
  c.sync();
  // reduction : contributions in the cells a stencil reaches, zero elsewhere
  for (uint32_t q = 0; q < ng; q++)
  {
    for (size_t v = 0; v < names.size(); v++)
      hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
        double val = 0;
        if (full || need[q][i + g.b[0] * (j + g.b[1] * k)])
          val = (double)(pbt::hash_combine(hc::cell_hash(names[v], gho[q], i, j, k), rank + 1) % 1000);
        all.at_ivar(hc::make_cell(g, q, true, i, j, k), (int)v) = val;
      });
  }
  for (uint32_t q = 0; q < n; q++)
    for (size_t v = 0; v < names.size(); v++)
      hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) { all.at_ivar(hc::make_cell(g, q, false, i, j, k), (int)v) = (double)(hc::cell_hash(names[v], loc[q], i, j, k) % 5000); });
  // expected additions : gather which ranks contribute (block key, cell mask)
  std::vector<double> mine;
  for (uint32_t q = 0; q < ng; q++)
    hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
      if (full || need[q][i + g.b[0] * (j + g.b[1] * k)])
        for (double d : {(double)gho[q].level, (double)gho[q].c[0], (double)gho[q].c[1], (double)gho[q].c[2], (double)(i + g.b[0] * (j + g.b[1] * k)), (double)rank}) mine.push_back(d);
    });
  std::vector<double> contrib = hc::gatherv(mine);
  {
    auto racc = hc::accessor(U, ex);
    if (full) fcm->reduce_ghosts(racc);
    else pc->reduce_ghosts(racc);
  }
  std::map<std::array<double, 5>, std::vector<int>> who;
  for (size_t i = 0; i + 5 < contrib.size(); i += 6) who[{contrib[i], contrib[i + 1], contrib[i + 2], contrib[i + 3], contrib[i + 4]}].push_back((int)contrib[i + 5]);
  for (uint32_t q = 0; q < n; q++)
    hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
      auto it = who.find({(double)loc[q].level, (double)loc[q].c[0], (double)loc[q].c[1], (double)loc[q].c[2], (double)(i + g.b[0] * (j + g.b[1] * k))});
      for (size_t v = 0; v < names.size(); v++)
      {
        double e = (double)(hc::cell_hash(names[v], loc[q], i, j, k) % 5000);
        int nc = 0;
        if (exs.count(names[v]) && it != who.end())
          for (int r : it->second) { e += (double)(pbt::hash_combine(hc::cell_hash(names[v], loc[q], i, j, k), r + 1) % 1000); nc++; }
        double got = all.at_ivar(hc::make_cell(g, q, false, i, j, k), (int)v);
        PBT_CHECK(c, got == e, "after reduction cell (" << i << "," << j << "," << k << ") of " << mg::str(loc[q]) << " field " << names[v] << " holds " << got << ", expected " << e << " with the contributions of " << nc << " processes");
        if (nc > 1) c.label("several contributions");
      }
    });
  for (uint32_t q = 0; q < ng; q++)
    for (uint32_t l = 0; l < n; l++) level_jump = level_jump || gho[q].level != loc[l].level;
  int any = ng > 0;
  MPI_Allreduce(MPI_IN_PLACE, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  if (np > 1 ? any : n > 1) c.nontrivial = true;
  if (level_jump) c.label("levels differ");
  c.sync();
  // generic view exchange with a component axis
  {
    auto vc = ViewCommunicator::from_mesh(*m);
    uint32_t K = (uint32_t)c.draw(1, 3);
    Kokkos::View<double**, Kokkos::LayoutLeft> A("A", n, K), Ag("Ag", ng, K);
    Kokkos::View<int**, Kokkos::LayoutLeft> B("B", K, n), Bg("Bg", K, ng);
    auto val = [&](const mg::Oct& q, uint32_t k) { return (int)(hc::cell_hash("view", q, k, 0, 0) % 100000); };
    for (uint32_t q = 0; q < n; q++) for (uint32_t k = 0; k < K; k++) { A(q, k) = val(loc[q], k); B(k, q) = -val(loc[q], k); }
    vc.exchange_ghosts<0>(A, Ag);
    vc.exchange_ghosts<1>(B, Bg);
    for (uint32_t q = 0; q < ng; q++)
      for (uint32_t k = 0; k < K; k++)
        PBT_CHECK(c, Ag(q, k) == val(gho[q], k) && Bg(k, q) == -val(gho[q], k), "view exchange: ghost " << mg::str(gho[q]) << " component " << k << " holds " << Ag(q, k) << " / " << Bg(k, q) << " expected " << val(gho[q], k));
    c.sync();
  }
}

void C09(Case& c)
{
  mg::GenOpt o;
  o.allow_deep = true;
  o.max_octs = 200;
  hc::Grid g;
  g.p = mg::gen_params(c, o);
  hc::gen_geometry(c, g, false, true, 4);
  c.desc << g.str() << ";";
  ConfigMap cfg(hc::to_text(hc::base_ini(g)));
  auto m = mg::make_mesh(g.p);
  mg::deepen(c, *m, g.p);
  int np = pbt::mpi_size();
  mg::lb(*m, (uint8_t)c.draw(0, 2));
  ForeachCell fc(*m, cfg);
  Timers timers;
  UserData U(cfg, fc);
  std::vector<std::string> names = {"a", "k", "zb"};
  names.resize((size_t)c.draw(1, 3));
  U.new_fields(std::set<std::string>(names.begin(), names.end()));
  std::string kind = c.pick<std::string>({"random", "linear", "spike"});
  auto val = [&](const std::string& n, const mg::Oct& oc, uint32_t i, uint32_t j, uint32_t k) {
    if (n == "k") return 3.7;
    if (kind == "linear") { auto x = hc::cell_center(g, oc, i, j, k); return 1 + x[0] - 2 * x[1] + 0.5 * x[2]; }
    if (kind == "spike") return hc::cell_hash(n, oc, i, j, k) % 17 == 0 ? 1e12 : 1e-3;
    return hc::cell_value(n, oc, i, j, k);
  };
  for (auto& n : names) hc::fill(g, *m, U, n, [&](const mg::Oct& oc, uint32_t i, uint32_t j, uint32_t k) { return val(n, oc, i, j, k); });
  std::string id = "MapUserData_mean";
  auto map = MapUserDataFactory::make_instance(id, cfg, fc, timers);
  int steps = (int)c.draw(1, 5);
  for (int s = 0; s < steps; s++)
  {
    mg::MarkRule r = mg::gen_rule(c);
    uint64_t tot = m->getGlobalNumOctants();
    bool ar = mg::room(tot, o) && (r.kind != 4 || mg::may_refine(g.p, tot, o));
    hc::Snapshot before = hc::snapshot(g, *m, U, names);
    mg::set_marks(*m, mg::local_marks(r, g.p, *m, ar), true);
    map->save_old_mesh();
    m->adapt();
    map->remap(U);
    hc::Snapshot after = hc::snapshot(g, *m, U, names);
    c.desc << " " << r.str();
    mg::Model old;
    old.p = g.p;
    old.octs = before.octs;
    old.index();
    std::string w = "step " + std::to_string(s) + ": ";
    bool crossed = false;
    std::vector<long double> I0(names.size(), 0), I1(names.size(), 0), A0(names.size(), 0);
    for (size_t q = 0; q < before.octs.size(); q++)
      for (size_t v = 0; v < names.size(); v++)
        for (size_t e = 0; e < before.cells; e++)
        {
          I0[v] += (long double)before.at(q, v, e) * hc::cell_volume(g, before.octs[q]);
          A0[v] += std::fabs((long double)before.at(q, v, e)) * hc::cell_volume(g, before.octs[q]);
        }
    for (size_t q = 0; q < after.octs.size(); q++)
    {
      const mg::Oct& N = after.octs[q];
      int same = old.find(N.level, N.c);
      mg::C3 pcell{{N.c[0] / 2, N.c[1] / 2, g.p.dim == 3 ? N.c[2] / 2 : 0}};
      int parent = same < 0 && N.level > g.p.lmin ? old.find(N.level - 1, pcell) : -1;
      for (size_t v = 0; v < names.size(); v++)
        hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
          size_t e = i + g.b[0] * (j + (size_t)g.b[1] * k);
          double got = after.at(q, v, e);
          I1[v] += (long double)got * hc::cell_volume(g, N);
          uint32_t ix[3] = {i, j, k};
          if (same >= 0)
          {
            double x = before.at(same, v, e);
            PBT_CHECK(c, got == x, w << "cell (" << i << "," << j << "," << k << ") of unchanged block " << mg::str(N) << " field " << names[v] << " changed from " << x << " to " << got);
          }
          else if (parent >= 0)
          {
            uint32_t pi[3];
            for (int a = 0; a < 3; a++) pi[a] = a >= g.p.dim ? ix[a] : (uint32_t)((((uint64_t)N.c[a] * g.b[a] + ix[a]) / 2) - (uint64_t)pcell[a] * g.b[a]);
            double x = before.at(parent, v, pi[0] + g.b[0] * (pi[1] + (size_t)g.b[1] * pi[2]));
            PBT_CHECK(c, got == x, w << "cell (" << i << "," << j << "," << k << ") of new block " << mg::str(N) << " field " << names[v] << " is " << got << ", the cell it subdivides had " << x);
            c.label("refined");
            c.nontrivial = true;
          }
          else
          {
            // mean of the sub-cells
            long double sum = 0, sa = 0;
            int cntc = 0;
            for (uint32_t dz = 0; dz < (g.p.dim == 3 ? 2u : 1u); dz++)
              for (uint32_t dy = 0; dy < 2; dy++)
                for (uint32_t dx = 0; dx < 2; dx++)
                {
                  uint32_t d[3] = {dx, dy, dz};
                  mg::C3 oc;
                  uint32_t ci[3];
                  for (int a = 0; a < 3; a++)
                  {
                    uint64_t X = a >= g.p.dim ? ix[a] : ((uint64_t)N.c[a] * g.b[a] + ix[a]) * 2 + d[a];
                    oc[a] = (uint32_t)(X / g.b[a]);
                    ci[a] = (uint32_t)(X % g.b[a]);
                  }
                  int ch = old.find(N.level + 1, oc);
                  if (ch < 0) continue;
                  if (before.octs[ch].rank != N.rank) crossed = true;
                  double x = before.at(ch, v, ci[0] + g.b[0] * (ci[1] + (size_t)g.b[1] * ci[2]));
                  sum += x;
                  sa += std::fabs(x);
                  cntc++;
                }
            PBT_CHECK(c, cntc == (g.p.dim == 3 ? 8 : 4), w << "block " << mg::str(N) << " comes from nowhere");
            double x = (double)(sum / std::max(cntc, 1));
            PBT_CHECK(c, std::fabs(got - x) <= 1e-14 * (double)sa + 1e-300, w << "cell (" << i << "," << j << "," << k << ") of merged block " << mg::str(N) << " field " << names[v] << " is " << got << ", the mean of its cells is " << x);
            c.label("merged");
            c.nontrivial = true;
          }
        });
    }
    if (crossed) c.label("family split over processes");
    for (size_t v = 0; v < names.size(); v++)
      PBT_CHECK(c, std::fabs((double)(I1[v] - I0[v])) <= 1e-13 * (double)A0[v], w << "integral of " << names[v] << " changed from " << (double)I0[v] << " to " << (double)I1[v]);
    c.sync();
    if (m->getGlobalNumOctants() >= (uint64_t)np && c.coin(2, 3)) { int lv = (int)c.draw(0, 3); m->loadBalance_userdata(lv, U); c.desc << " lb" << lv; }
  }
}
