// C01 tiling/order, C02 adaptation, C03 neighbours/ghosts, C04 load balancing
#include "meshgen.h"
#include "main.h"
#include "foreach_cell/ForeachCell.h"
#include "UserData.h"

using namespace dyablo;
using pbt::Case;
using mg::Model;
using mg::Oct;
using mg::Params;

namespace {

#ifdef VP_OLD_MESH
typedef AMRmesh_impl<AMRmesh_hashmap> Mesh; // the second implementation, square domains only
#else
typedef AMRmesh Mesh;
#endif
void limit(mg::GenOpt& o)
{
#ifdef VP_OLD_MESH
  o.allow_nonsquare = o.allow_tiny = false;
#endif
}
// the second implementation has to be distributed before anything else and refuses the global refinement afterwards
bool distribute(Mesh& m)
{
#ifdef VP_OLD_MESH
  m.loadBalance(0);
  return true;
#else
  (void)m;
  return false;
#endif
}

std::string where(int step, const std::string& what) { return "step " + std::to_string(step) + " " + what + ": "; }

bool close(double a, double b) { return std::fabs(a - b) <= 1e-12; }

// ---- C01 -------------------------------------------------------------------------
void check_tiling(Case& c, Mesh& m, const Params& p, const std::string& w, std::vector<Oct>& all)
{
  all = mg::gather(p, m);
  int rank = pbt::mpi_rank();
  // Geometry first : everything else is derived from it
  uint32_t n = m.getNumOctants();
  const LightOctree& lm = m.getLightOctree();
  for (uint32_t i = 0; i < n; i++)
  {
    uint32_t lev = m.getLevel(i);
    PBT_CHECK(c, lev >= p.lmin && lev <= p.lmax, w << "level " << lev << " outside [" << p.lmin << "," << p.lmax << "]");
    if (c.failed_local) break;
    Oct o = mg::local_oct(p, m, i);
    auto cor = m.getCoordinates(i), cen = m.getCenter(i), siz = m.getSize(i);
    for (int a = 0; a < p.dim; a++)
    {
      double s = 1.0 / p.count(a, lev);
      PBT_CHECK(c, o.c[a] < p.count(a, lev), w << "block " << mg::str(o) << " outside of the domain, axis " << a);
      PBT_CHECK(c, close(siz[a], s), w << "size of " << mg::str(o) << " axis " << a << " is " << siz[a] << " expected " << s);
      PBT_CHECK(c, close(cor[a], o.c[a] * s), w << "corner of " << mg::str(o) << " axis " << a << " is " << cor[a] << " not on the grid of its level");
      PBT_CHECK(c, close(cen[a], (o.c[a] + 0.5) * s), w << "centre of " << mg::str(o) << " axis " << a << " is " << cen[a] << " expected " << (o.c[a] + 0.5) * s);
    }
    auto lcor = lm.getCorner({i, false});
    auto lcen = lm.getCenter({i, false});
    auto lsiz = lm.getSize({i, false});
    PBT_CHECK(c, lm.getLevel({i, false}) == lev, w << "light octree level of " << mg::str(o) << " is " << (int)lm.getLevel({i, false}));
    for (int a = 0; a < p.dim; a++)
      PBT_CHECK(c, close(lcor[a], cor[a]) && close(lcen[a], cen[a]) && close(lsiz[a], siz[a]), w << "light octree geometry of " << mg::str(o) << " differs, axis " << a);
    // boundary flags
    bool touch_closed = false, touch_any = false;
    for (int z = (p.dim == 3 ? -1 : 0); z <= (p.dim == 3 ? 1 : 0); z++)
      for (int y = -1; y <= 1; y++)
        for (int x = -1; x <= 1; x++)
        {
          if (!x && !y && !z) continue;
          int off[3] = {x, y, z};
          bool out = false;
          for (int a = 0; a < p.dim; a++)
          {
            bool o1 = (off[a] < 0 && o.c[a] == 0) || (off[a] > 0 && o.c[a] == p.count(a, lev) - 1);
            if (o1) touch_any = true;
            if (o1 && !p.per[a]) out = true;
          }
          touch_closed = touch_closed || out;
          bool got = lm.isBoundary({i, false}, {(int8_t)x, (int8_t)y, (int8_t)z});
          PBT_CHECK(c, got == out, w << "isBoundary(" << mg::str(o) << ",{" << x << "," << y << "," << z << "}) = " << got);
        }
    // getBound : must be set for a block at a closed side, must not be set away from every side
    // (weaker reading: its value at periodic sides, and in 2D away from sides, is left open)
    bool gb = m.getBound(i);
    if (touch_closed) PBT_CHECK(c, gb, w << "getBound(" << mg::str(o) << ") is false at a closed side of the domain");
    if (!touch_any && p.dim == 3) PBT_CHECK(c, !gb, w << "getBound(" << mg::str(o) << ") is true for an interior block");
  }
  // counts and numbering
  PBT_CHECK(c, m.getGlobalNumOctants() == all.size(), w << "global block count " << m.getGlobalNumOctants() << " but the processes own " << all.size());
  uint64_t first = 0;
  for (auto& o : all) first += o.rank < rank;
  for (uint32_t i = 0; i < n; i++) PBT_CHECK(c, m.getGlobalIdx(i) == first + i, w << "global index of local block " << i << " is " << m.getGlobalIdx(i) << " expected " << first + i);
  PBT_CHECK(c, lm.getNumOctants() == n, w << "light octree block count");
  // order and tiling
  uint64_t prev_end = 0;
  bool firsto = true;
  double vol = 0;
  std::set<std::array<uint32_t, 4>> seen;
  for (auto& o : all) seen.insert(mg::key(o.level, o.c));
  PBT_CHECK(c, seen.size() == all.size(), w << "a block is owned twice");
  for (auto& o : all)
  {
    if (o.level < p.lmin || o.level > p.lmax) { c.fail(w + "bad level"); break; }
    uint64_t mo = mg::morton(p, o), len = 1ull << (p.dim * (p.lmax - o.level));
    PBT_CHECK(c, firsto || mo >= prev_end, w << "block " << mg::str(o) << " of rank " << o.rank << " overlaps or precedes its predecessor in Morton order");
    prev_end = mo + len;
    firsto = false;
    double v = 1;
    for (int a = 0; a < p.dim; a++) v /= p.count(a, o.level);
    vol += v;
    Oct q = o;
    while (q.level > p.lmin)
    {
      q.level--;
      for (auto& x : q.c) x >>= 1;
      PBT_CHECK(c, !seen.count(mg::key(q.level, q.c)), w << "block " << mg::str(o) << " overlaps its ancestor " << mg::str(q));
    }
  }
  PBT_CHECK(c, std::fabs(vol - 1) < 1e-9, w << "blocks cover " << vol << " of the domain");
}

// one random mesh operation; returns its name
struct Op
{
  int kind; // 0 adapt 1 balance 2 global refine
  mg::MarkRule rule;
  int level;
};

void history(Case& c, const mg::GenOpt& o, int max_ops, const std::function<void(Mesh&, const Params&, int, const std::string&)>& after,
             const std::function<void(Mesh&, const Params&, int, const std::string&)>& before_balance,
             const std::function<void(Mesh&, const Params&, int, const std::string&, int)>& after_balance)
{
  Params p = mg::gen_params(c, o);
  c.desc << p.str() << ";";
  auto m = mg::make_mesh<Mesh>(p);
  bool no_global = distribute(*m);
  after(*m, p, 0, "initial");
  c.sync();
  int nops = (int)c.draw(1, max_ops);
  if (p.deep)
  {
    mg::MarkRule r = mg::deep_rule(c);
    c.label("deep");
    for (uint32_t l = p.lmin; l < p.lmax; l++)
    {
      mg::set_marks(*m, mg::local_marks(r, p, *m, true), true);
      m->adapt();
    }
    after(*m, p, 0, "deep refinement");
    c.sync();
  }
  for (int s = 1; s <= nops; s++)
  {
    int k = (int)c.draw(0, 9);
    uint64_t tot = m->getGlobalNumOctants();
    if (k == 9 && !no_global && mg::may_refine(p, tot, o))
    {
      std::vector<Oct> all = mg::gather(p, *m);
      bool ok = true;
      for (auto& q : all) ok = ok && q.level < p.lmax;
      if (ok)
      {
        m->adaptGlobalRefine();
        c.desc << " refine-all";
        c.label("op:global-refine");
        after(*m, p, s, "adaptGlobalRefine");
        c.sync();
        continue;
      }
    }
    if (k >= 7 && tot >= (uint64_t)pbt::mpi_size())
    {
      int lev = (int)c.draw(0, 3);
      before_balance(*m, p, s, "loadBalance");
      m->loadBalance((uint8_t)lev);
      c.desc << " lb" << lev;
      c.label("op:balance");
      after_balance(*m, p, s, "loadBalance(" + std::to_string(lev) + ")", lev);
      after(*m, p, s, "loadBalance(" + std::to_string(lev) + ")");
    }
    else
    {
      mg::MarkRule r = mg::gen_rule(c);
      bool ar = mg::room(tot, o) && (r.kind != 4 || mg::may_refine(p, tot, o));
      std::vector<int> v = mg::local_marks(r, p, *m, ar);
      mg::set_marks(*m, v, c.coin());
      m->adapt(true);
      c.desc << " adapt-" << r.str();
      c.label("op:adapt-" + r.str());
      after(*m, p, s, "adapt " + r.str());
    }
    c.sync();
  }
}

void mesh_labels(Case& c, const Params& p, const std::vector<Oct>& all)
{
  std::set<uint32_t> l;
  std::set<int> rk;
  for (auto& o : all) { l.insert(o.level); rk.insert(o.rank); }
  if ((int)rk.size() < pbt::mpi_size()) c.label("empty-process");
  if (l.size() >= 2) c.label("multi-level");
  if (l.size() >= 3) c.label("3+ levels");
  c.label(p.dim == 3 ? "3D" : "2D");
  if (p.coarse[0] != p.coarse[1] || (p.dim == 3 && p.coarse[2] != p.coarse[0])) c.label("non-square");
  if (p.per[0] || p.per[1] || p.per[2]) c.label("periodic");
  if (l.size() >= 2) c.nontrivial = true;
}

void C01_mesh(Case& c)
{
  mg::GenOpt o;
  limit(o);
  o.allow_deep = true;
  history(c, o, 6,
          [&](Mesh& m, const Params& p, int s, const std::string& w) {
            std::vector<Oct> all;
            check_tiling(c, m, p, where(s, w), all);
            mesh_labels(c, p, all);
          },
          [](Mesh&, const Params&, int, const std::string&) {}, [](Mesh&, const Params&, int, const std::string&, int) {});
}

// ---- C02 -------------------------------------------------------------------------
void C02_mesh(Case& c)
{
  mg::GenOpt o;
  limit(o);
  o.allow_deep = true;
  o.max_octs = 500;
  Params p = mg::gen_params(c, o);
  c.desc << p.str() << ";";
  auto m = mg::make_mesh<Mesh>(p);
  bool no_global = distribute(*m);
  Model mod;
  mod.init(p);
  int nops = (int)c.draw(1, 6);
  int chain = 0;
  mg::MarkRule dr;
  if (p.deep)
  {
    dr = mg::deep_rule(c);
    chain = (int)(p.lmax - p.lmin);
    c.label("deep");
  }
  for (int s = 1 - chain; s <= nops; s++)
  {
    if (s > 0 && c.draw(0, 2) == 2 && mod.octs.size() >= (size_t)pbt::mpi_size()) { m->loadBalance((uint8_t)c.draw(0, 2)); c.desc << " lb"; }
    bool global = s > 0 && !no_global && c.draw(0, 11) == 11;
    if (global)
      for (auto& q : mod.octs) global = global && q.level < p.lmax;
    global = global && mg::may_refine(p, mod.octs.size(), o);
    std::vector<int> want(mod.octs.size());
    std::string w;
    if (global)
    {
      std::fill(want.begin(), want.end(), 1);
      m->adaptGlobalRefine();
      w = "adaptGlobalRefine";
    }
    else
    {
      mg::MarkRule r = s > 0 ? mg::gen_rule(c) : dr;
      bool ar = s <= 0 || (mg::room(mod.octs.size(), o) && (r.kind != 4 || mg::may_refine(p, mod.octs.size(), o)));
      for (size_t i = 0; i < want.size(); i++) want[i] = mg::mark(r, p, mod.octs[i], ar);
      mg::set_marks(*m, mg::local_marks(r, p, *m, ar), c.coin());
      m->adapt(c.coin());
      w = "adapt " + r.str();
    }
    w = where(s, w);
    c.desc << " " << w;
    Model old = mod;
    std::vector<int> closed = mod.close_markers(want);
    mod.apply(closed);
    std::vector<Oct> all = mg::gather(p, *m);
    Model got;
    got.p = p;
    got.octs = all;
    got.index();
    // requested refinements
    for (size_t i = 0; i < want.size(); i++)
    {
      if (want[i] == 1) PBT_CHECK(c, got.find(old.octs[i].level, old.octs[i].c) < 0, w << "block " << mg::str(old.octs[i]) << " was marked for refinement but was not split");
      if (want[i] != closed[i]) { c.label(closed[i] == 1 ? "forced-split" : "refused-merge"); c.nontrivial = true; }
      if (closed[i] == -1) c.label("merge");
    }
    // balance
    std::vector<int> nb;
    for (size_t i = 0; i < all.size(); i++)
      for (int z = (p.dim == 3 ? -1 : 0); z <= (p.dim == 3 ? 1 : 0); z++)
        for (int y = -1; y <= 1; y++)
          for (int x = -1; x <= 1; x++)
            if (x || y || z)
            {
              got.touching(all[i], {x, y, z}, nb);
              for (int j : nb)
                PBT_CHECK(c, std::abs((int)all[j].level - (int)all[i].level) <= 1, w << "neighbours " << mg::str(all[i]) << " and " << mg::str(all[j]) << " differ by more than one level");
            }
    // exactly the closure
    for (auto& q : mod.octs)
      PBT_CHECK(c, got.find(q.level, q.c) >= 0, w << "expected block " << mg::str(q) << " is missing (np=" << pbt::mpi_size() << ")");
    for (auto& q : all)
      PBT_CHECK(c, mod.find(q.level, q.c) >= 0, w << "block " << mg::str(q) << " should not exist: neither asked for nor needed for balance");
    PBT_CHECK(c, all.size() == mod.octs.size(), w << all.size() << " blocks, expected " << mod.octs.size());
    mesh_labels(c, p, all);
    c.sync();
  }
}

// ---- C03 -------------------------------------------------------------------------
void check_neighbors(Case& c, Mesh& m, const Params& p, const std::string& w)
{
  Model mod;
  mod.p = p;
  mod.octs = mg::gather(p, m);
  mod.index();
  mesh_labels(c, p, mod.octs);
  int rank = pbt::mpi_rank();
  const LightOctree& lm = m.getLightOctree();
  uint32_t n = m.getNumOctants(), ng = m.getNumGhosts();
  PBT_CHECK(c, lm.getNumGhosts() == ng, w << "light octree ghost count");
  // ghost layer content
  std::vector<Oct> gh(ng);
  std::set<std::array<uint32_t, 4>> gset;
  for (uint32_t i = 0; i < ng; i++)
  {
    gh[i] = mg::ghost_oct(p, m, i);
    int j = (gh[i].level >= p.lmin && gh[i].level <= p.lmax) ? mod.find(gh[i].level, gh[i].c) : -1;
    PBT_CHECK(c, j >= 0, w << "ghost " << i << " " << mg::str(gh[i]) << " is not a block of the mesh");
    if (j >= 0) PBT_CHECK(c, mod.octs[j].rank != rank, w << "ghost " << mg::str(gh[i]) << " is an owned block");
    PBT_CHECK(c, gset.insert(mg::key(gh[i].level, gh[i].c)).second, w << "ghost " << mg::str(gh[i]) << " is present twice");
    if (j < 0) return;
    auto cor = m.getCoordinatesGhost(i), cen = m.getCenterGhost(i), siz = m.getSizeGhost(i);
    auto es = mod.size(gh[i]);
    auto lcor = lm.getCorner({i, true});
    auto lsiz = lm.getSize({i, true});
    auto lcen = lm.getCenter({i, true});
    PBT_CHECK(c, lm.getLevel({i, true}) == gh[i].level, w << "ghost level in light octree");
    for (int a = 0; a < p.dim; a++)
    {
      PBT_CHECK(c, close(siz[a], es[a]) && close(cor[a], gh[i].c[a] * es[a]) && close(cen[a], (gh[i].c[a] + 0.5) * es[a]), w << "geometry of ghost " << mg::str(gh[i]) << " axis " << a);
      PBT_CHECK(c, close(lcor[a], cor[a]) && close(lsiz[a], siz[a]) && close(lcen[a], cen[a]), w << "light octree geometry of ghost " << mg::str(gh[i]));
    }
  }
  if (ng) c.label("ghosts");
  if (pbt::mpi_size() == 1 && mod.levels() > 1) c.nontrivial = true;
  std::vector<int> nb;
  for (uint32_t i = 0; i < n; i++)
  {
    Oct o = mg::local_oct(p, m, i);
    for (int z = (p.dim == 3 ? -1 : 0); z <= (p.dim == 3 ? 1 : 0); z++)
      for (int y = -1; y <= 1; y++)
        for (int x = -1; x <= 1; x++)
        {
          auto ns = lm.findNeighbors({i, false}, {(int8_t)x, (int8_t)y, (int8_t)z});
          std::vector<Oct> got;
          if (!x && !y && !z)
          {
            PBT_CHECK(c, ns.size() == 1 && ns[0].iOct == i && !ns[0].isGhost, w << "neighbour {0,0,0} of " << mg::str(o) << " is not the block itself");
            continue;
          }
          for (int k = 0; k < ns.size(); k++)
          {
            auto q = ns[k];
            if (q.isGhost ? q.iOct >= ng : q.iOct >= n) { PBT_CHECK(c, false, w << "neighbour index out of range for " << mg::str(o)); return; }
            got.push_back(q.isGhost ? gh[q.iOct] : mg::local_oct(p, m, q.iOct));
          }
          mod.touching(o, {x, y, z}, nb);
          bool ok = nb.size() == got.size();
          for (int j : nb)
          {
            bool f = false;
            for (auto& g : got) f = f || (g == mod.octs[j]);
            ok = ok && f;
            if (mod.octs[j].level != o.level) c.label(mod.octs[j].level > o.level ? "finer-neighbour" : "coarser-neighbour");
            if (mod.octs[j].rank != rank) { c.label("remote-neighbour"); c.nontrivial = true; }
          }
          if (!ok)
          {
            std::ostringstream s;
            s << w << "neighbours of " << mg::str(o) << " towards {" << x << "," << y << "," << z << "}: got";
            for (auto& g : got) s << " " << mg::str(g);
            s << " expected";
            for (int j : nb) s << " " << mg::str(mod.octs[j]) << "@" << mod.octs[j].rank;
            PBT_CHECK(c, false, s.str());
            return;
          }
        }
  }
  // the variant that tabulates the neighbours of local blocks
  if (mod.octs.size() % 3 == 0)
  {
    c.label("tabulated neighbours");
    LightOctree_hashmap_precompute pre(&m.getMesh(), (uint8_t)p.lmin, (uint8_t)p.lmax);
    for (uint32_t i = 0; i < n + ng; i++)
      for (int z = (p.dim == 3 ? -1 : 0); z <= (p.dim == 3 ? 1 : 0); z++)
        for (int y = -1; y <= 1; y++)
          for (int x = -1; x <= 1; x++)
          {
            if (i >= n && (x || y || z)) continue;
            LightOctree::OctantIndex q = i < n ? LightOctree::OctantIndex{i, false} : LightOctree::OctantIndex{i - n, true};
            if (i >= n) { PBT_CHECK(c, pre.getLevel(q) == lm.getLevel(q), w << "level of a ghost in the tabulated octree"); continue; }
            auto a = lm.findNeighbors(q, {(int8_t)x, (int8_t)y, (int8_t)z});
            auto b = pre.findNeighbors(q, {(int8_t)x, (int8_t)y, (int8_t)z});
            bool same = a.size() == b.size();
            for (int k = 0; same && k < a.size(); k++) same = a[k].iOct == b[k].iOct && a[k].isGhost == b[k].isGhost;
            PBT_CHECK(c, same, w << "tabulated neighbours of " << mg::str(mg::local_oct(p, m, i)) << " towards {" << x << "," << y << "," << z << "} differ");
          }
  }
  // position lookup. Positions strictly inside blocks (borders belong to either side)
  uint64_t salt = pbt::hash_combine(mod.octs.size(), (uint64_t)c.rec.size());
  for (size_t k = 0; k < mod.octs.size(); k++)
  {
    const Oct& o = mod.octs[k];
    auto co = mod.corner(o), si = mod.size(o);
    LightOctree::pos_t pos;
    for (int a = 0; a < 3; a++)
    {
      double u = pbt::u01(pbt::hash_combine(salt, k * 3 + a));
      if (k % 4 == 0) u = 0.02;
      if (k % 4 == 1) u = 0.98;
      pos[a] = a < p.dim ? co[a] + si[a] * u : 0;
    }
    int dom = lm.getDomainFromPos(pos);
    PBT_CHECK(c, dom == o.rank, w << "getDomainFromPos(" << pos[0] << "," << pos[1] << "," << pos[2] << ") = " << dom << " but block " << mg::str(o) << " belongs to " << o.rank);
    if (o.rank == rank || gset.count(mg::key(o.level, o.c)))
    {
      auto q = lm.getiOctFromPos(pos);
      bool inr = q.isGhost ? q.iOct < ng : q.iOct < n;
      Oct g = inr ? (q.isGhost ? gh[q.iOct] : mg::local_oct(p, m, q.iOct)) : Oct{0, {{0, 0, 0}}, 0};
      PBT_CHECK(c, inr && g == o && q.isGhost == (o.rank != rank), w << "getiOctFromPos(" << pos[0] << "," << pos[1] << "," << pos[2] << ") gives " << mg::str(g) << " expected " << mg::str(o));
      auto q2 = lm.getiOctFromCoordinates(o.c[0], o.c[1], o.c[2], o.level);
      PBT_CHECK(c, q2.iOct == q.iOct && q2.isGhost == q.isGhost, w << "getiOctFromCoordinates differs for " << mg::str(o));
    }
  }
}

void C03_mesh(Case& c)
{
  mg::GenOpt o;
  limit(o);
  o.allow_deep = true;
  o.max_octs = 500;
  history(c, o, 5, [&](Mesh& m, const Params& p, int s, const std::string& w) { check_neighbors(c, m, p, where(s, w)); },
          [](Mesh&, const Params&, int, const std::string&) {}, [](Mesh&, const Params&, int, const std::string&, int) {});
}

} // namespace

#ifdef VP_OLD_MESH
void C01_old(Case& c) { C01_mesh(c); }
void C02_old(Case& c) { C02_mesh(c); }
void C03_old(Case& c) { C03_mesh(c); }
#else
void C01_old(Case& c);
void C02_old(Case& c);
void C03_old(Case& c);
void C04(Case& c);
static bool old(Case& c)
{
  bool r = c.coin(1, 8) && pbt::real_size() == 1; // it does not merge blocks of different processes
  if (r) { c.desc << "AMRmesh_hashmap "; c.label("second implementation"); }
  return r;
}
void C01(Case& c) { old(c) ? C01_old(c) : C01_mesh(c); }
void C02(Case& c) { old(c) ? C02_old(c) : C02_mesh(c); }
void C03(Case& c) { old(c) ? C03_old(c) : C03_mesh(c); }

int main(int argc, char** argv) { return pbt_main(argc, argv, {{"C01", C01}, {"C02", C02}, {"C03", C03}, {"C04", C04}}); }
#endif
