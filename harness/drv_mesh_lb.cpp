// C04 load balancing : block set, evenness, compactness, data and particles follow
#include "common.h"
using namespace dyablo;
using pbt::Case;

namespace {

std::set<std::string> gen_names(Case& c, const char* pre, int n)
{
  static const std::vector<std::string> pool = {"rho", "e_tot", "a", "zz", "vx", "gphi", "B", "m0", "k9", "_t", "Q"};
  std::set<std::string> s;
  for (int i = 0; i < n; i++) s.insert(pre + pool[(size_t)c.draw(0, (int)pool.size() - 1)]);
  return s;
}

struct Part { double id, x[3], w; };

} // namespace

void C04(Case& c)
{
  mg::GenOpt o;
  o.max_octs = 400;
  hc::Grid g;
  g.p = mg::gen_params(c, o);
  hc::gen_geometry(c, g, false, false, 3);
  c.desc << g.str() << ";";
  ConfigMap cfg(hc::to_text(hc::base_ini(g)));
  auto m = mg::make_mesh(g.p);
  int steps = (int)c.draw(1, 4);
  int np = pbt::mpi_size(), rank = pbt::mpi_rank();
  // mesh history (blocks end unevenly distributed)
  for (int s = 0; s < steps; s++)
  {
    mg::MarkRule r = mg::gen_rule(c);
    uint64_t tot = m->getGlobalNumOctants();
    bool ar = mg::room(tot, o) && (r.kind != 4 || mg::may_refine(g.p, tot, o));
    mg::set_marks(*m, mg::local_marks(r, g.p, *m, ar), true);
    m->adapt();
    if (s + 1 < steps && c.coin(1, 3)) mg::lb(*m, (uint8_t)c.draw(0, 2));
  }
  ForeachCell fc(*m, cfg);
  UserData U(cfg, fc);
  // fields created, renamed and deleted in a random order
  std::map<std::string, std::string> live; // name -> tag of its content
  auto put = [&](const std::string& n) {
    live[n] = n + std::to_string(live.size());
    std::string tag = live[n];
    hc::fill(g, *m, U, n, [&](const mg::Oct& oc, uint32_t i, uint32_t j, uint32_t k) { return hc::cell_value(tag, oc, i, j, k); });
  };
  int waves = (int)c.draw(1, 3);
  for (int w = 0; w < waves; w++)
  {
    std::set<std::string> names = gen_names(c, "", (int)c.draw(1, 4)), fresh;
    for (auto& n : names)
      if (!live.count(n)) fresh.insert(n);
    U.new_fields(fresh);
    for (auto& n : fresh) put(n);
    if (live.size() > 1 && c.coin())
    {
      auto it = live.begin();
      std::advance(it, c.draw(0, (int)live.size() - 1));
      U.delete_field(it->first);
      live.erase(it);
      c.label("field deleted");
    }
    if (c.coin(1, 3))
    {
      auto it = live.begin();
      std::advance(it, c.draw(0, (int)live.size() - 1));
      std::string src = it->first, dst = *gen_names(c, "", 1).begin(), tag = it->second;
      if (src != dst)
      {
        U.move_field(dst, src);
        live.erase(src);
        live[dst] = tag;
        c.label("field moved");
      }
    }
  }
  // particles
  std::vector<mg::Oct> before = mg::gather(g.p, *m);
  int nper = (int)c.draw(0, 40);
  uint64_t psalt = c.salt();
  std::vector<Part> mine;
  {
    mg::Model mod;
    mod.p = g.p;
    mod.octs = before;
    mod.index();
    for (int i = 0; i < nper * np; i++)
    {
      Part q;
      q.id = i;
      std::array<double, 3> u{{0, 0, 0}};
      for (int a = 0; a < g.p.dim; a++) u[a] = 0.0005 + 0.999 * pbt::u01(pbt::hash_combine(psalt, i * 3 + a));
      for (int a = 0; a < 3; a++) q.x[a] = g.lo[a] + u[a] * g.L(a);
      q.w = pbt::u01(pbt::hash_combine(psalt + 5, i));
      // initially stored anywhere
      if ((int)(pbt::hash_combine(psalt + 9, i) % np) == rank) mine.push_back(q);
    }
  }
  U.new_ParticleArray("p", (uint32_t)mine.size());
  U.new_ParticleAttribute("p", "w");
  U.new_ParticleAttribute("p", "id");
  {
    auto pa = U.getParticleArray("p");
    auto at = U.getParticleAccessor("p", {{"id", 0}, {"w", 1}});
    for (size_t i = 0; i < mine.size(); i++)
    {
      for (int a = 0; a < 3; a++) pa.pos((uint32_t)i, (ComponentIndex3D)a) = mine[i].x[a];
      at.at((uint32_t)i, 0) = mine[i].id;
      at.at((uint32_t)i, 1) = mine[i].w;
    }
  }
  int nlb = (int)c.draw(1, 3);
  for (int b = 0; b < nlb; b++)
  {
    std::vector<int> cnt0(np, 0);
    for (auto& q : before) cnt0[q.rank]++;
    int lev = (int)c.draw(0, 3);
    if (before.size() < (size_t)np) break;
    m->loadBalance_userdata(lev, U);
    U.distributeAllParticles();
    std::string w = "loadBalance_userdata(" + std::to_string(lev) + ") #" + std::to_string(b) + ": ";
    c.desc << " lb" << lev;
    std::vector<mg::Oct> after = mg::gather(g.p, *m);
    PBT_CHECK(c, after.size() == before.size(), w << "number of blocks changed from " << before.size() << " to " << after.size());
    bool moved = false;
    for (size_t i = 0; i < std::min(after.size(), before.size()); i++)
    {
      PBT_CHECK(c, after[i] == before[i], w << "global block " << i << " changed from " << mg::str(before[i]) << " to " << mg::str(after[i]));
      moved = moved || after[i].rank != before[i].rank;
    }
    if (moved) { c.label("blocks moved"); c.nontrivial = true; }
    c.sync();
    // evenness / compactness
    size_t N = after.size();
    std::vector<size_t> cnt(np, 0), cut(np + 1, 0);
    for (auto& q : after) cnt[q.rank]++;
    for (int r = 0; r < np; r++) { cut[r + 1] = cut[r] + cnt[r]; PBT_CHECK(c, cnt[r] > 0, w << "process " << r << " owns nothing"); }
    if (lev == 0)
    {
      size_t mn = *std::min_element(cnt.begin(), cnt.end()), mx = *std::max_element(cnt.begin(), cnt.end());
      PBT_CHECK(c, mx - mn <= 1, w << "uneven: " << mn << " to " << mx << " blocks per process");
    }
    else
    {
      // sub-tree (edge 2^lev finest blocks) holding each block, and the range of global indices it spans
      auto sub = [&](size_t i) { return mg::morton(g.p, after[i]) >> (g.p.dim * lev); };
      auto range = [&](size_t i) {
        size_t a = i, e = i + 1;
        while (a > 0 && sub(a - 1) == sub(i)) a--;
        while (e < N && sub(e) == sub(i)) e++;
        return std::make_pair(a, e);
      };
      std::vector<size_t> ideal(np);
      for (int r = 0; r < np; r++) ideal[r] = N * r / np;
      for (int r = 1; r < np; r++)
      {
        auto rg = range(ideal[r]);
        size_t d = cut[r] > ideal[r] ? cut[r] - ideal[r] : ideal[r] - cut[r];
        PBT_CHECK(c, d < std::max<size_t>(1, rg.second - rg.first), w << "first block of process " << r << " is " << cut[r] << ", an even split puts it at " << ideal[r] << " inside a sub-tree of " << rg.second - rg.first << " blocks");
        // is a split of the sub-tree around this cut unavoidable? (another process needs it too)
        if (cut[r] < N && cut[r] > 0 && sub(cut[r]) == sub(cut[r] - 1))
        {
          auto sr = range(cut[r]);
          bool shared = sr.first == 0;
          for (int q = 1; q < np; q++)
            if (q != r && ideal[q] >= sr.first && ideal[q] < sr.second) shared = true;
          PBT_CHECK(c, shared, w << "sub-tree of depth " << lev << " split between processes " << r - 1 << " and " << r << " at block " << mg::str(after[cut[r]]));
          c.label("compactness relaxed");
        }
      }
      c.label("compact");
    }
    // fields
    std::set<std::string> en = U.getEnabledFields();
    std::set<std::string> want;
    for (auto& l : live) want.insert(l.first);
    PBT_CHECK(c, en == want, w << "set of fields changed");
    for (auto& l : live)
    {
      auto acc = hc::accessor(U, {l.first});
      for (uint32_t i = 0; i < m->getNumOctants() && !c.failed_local; i++)
      {
        mg::Oct oc = mg::local_oct(g.p, *m, i);
        hc::each_cell(g, [&](uint32_t ci, uint32_t cj, uint32_t ck) {
          double e = hc::cell_value(l.second, oc, ci, cj, ck), got = acc.at_ivar(hc::make_cell(g, i, false, ci, cj, ck), 0);
          PBT_CHECK(c, e == got, w << "field '" << l.first << "' of block " << mg::str(oc) << " cell (" << ci << "," << cj << "," << ck << ") is " << got << " expected " << e);
        });
      }
    }
    // particles : all ids exactly once, attributes, owner
    {
      auto pa = U.getParticleArray("p");
      auto at = U.getParticleAccessor("p", {{"id", 0}, {"w", 1}});
      mg::Model mod;
      mod.p = g.p;
      mod.octs = after;
      mod.index();
      std::vector<double> ids;
      for (uint32_t i = 0; i < pa.getNumParticles(); i++)
      {
        double id = at.at(i, 0);
        ids.push_back(id);
        std::array<double, 3> u;
        bool same = id >= 0 && id < nper * np && id == std::floor(id);
        PBT_CHECK(c, same, w << "unknown particle id " << id);
        for (int a = 0; a < 3; a++)
        {
          double x = pa.pos(i, (ComponentIndex3D)a);
          u[a] = (x - g.lo[a]) / g.L(a);
          double e = a < g.p.dim ? g.lo[a] + (0.0005 + 0.999 * pbt::u01(pbt::hash_combine(psalt, (uint64_t)id * 3 + a))) * g.L(a) : g.lo[a];
          PBT_CHECK(c, x == e, w << "position of particle " << id << " changed");
        }
        PBT_CHECK(c, at.at(i, 1) == pbt::u01(pbt::hash_combine(psalt + 5, (uint64_t)id)), w << "attribute of particle " << id << " does not belong to it");
        int j = mod.locate(u);
        PBT_CHECK(c, j >= 0 && after[j].rank == rank, w << "particle " << id << " is stored on process " << rank << " but its block belongs to " << (j < 0 ? -1 : after[j].rank));
      }
      std::vector<double> all = hc::gatherv(ids);
      std::sort(all.begin(), all.end());
      bool ok = all.size() == (size_t)(nper * np);
      for (size_t i = 0; ok && i < all.size(); i++) ok = all[i] == (double)i;
      PBT_CHECK(c, ok, w << "particles lost or duplicated: " << all.size() << " instead of " << nper * np);
      if (nper) c.label("particles");
    }
    before = after;
    c.sync();
  }
}
