// C05 cell loops and geometry; C06 neighbour lookup of cells
#include "common.h"
#include "foreach_cell/ForeachCell_utils.h"
#include "mpi/GhostCommunicator.h"
#include "main.h"
using namespace dyablo;
using pbt::Case;
void C08(Case&);
void C09(Case&);

namespace {
typedef ForeachCell::CellIndex CI;

// geometry of a reported cell : block (level, coords) + index
struct GCell
{
  uint32_t level;
  std::array<int64_t, 3> X; // global cell coordinates at its level
  bool operator==(const GCell& o) const { return level == o.level && X == o.X; }
  bool operator<(const GCell& o) const { return level != o.level ? level < o.level : X < o.X; }
};
std::string str(const GCell& g)
{
  std::ostringstream s;
  s << "L" << g.level << "[" << g.X[0] << "," << g.X[1] << "," << g.X[2] << "]";
  return s.str();
}
const char* st(CI::Status s)
{
  static const char* n[] = {"LOCAL_TO_BLOCK", "SAME_SIZE", "SMALLER", "BIGGER", "BOUNDARY", "INVALID"};
  return n[(int)s];
}
struct Ctx
{
  hc::Grid g;
  std::shared_ptr<AMRmesh> m;
  mg::Model mod;
  std::vector<mg::Oct> loc, gho;
  GCell geom(const CI& c) const
  {
    const mg::Oct& o = c.iOct.isGhost ? gho.at(c.iOct.iOct) : loc.at(c.iOct.iOct);
    uint32_t ix[3] = {c.i, c.j, c.k};
    GCell r;
    r.level = o.level;
    for (int a = 0; a < 3; a++) r.X[a] = (int64_t)o.c[a] * g.b[a] + ix[a];
    return r;
  }
  void read()
  {
    mod.p = g.p;
    mod.octs = mg::gather(g.p, *m);
    mod.index();
    loc.clear();
    gho.clear();
    for (uint32_t i = 0; i < m->getNumOctants(); i++) loc.push_back(mg::local_oct(g.p, *m, i));
    for (uint32_t i = 0; i < m->getNumGhosts(); i++) gho.push_back(mg::ghost_oct(g.p, *m, i));
  }
};

} // namespace

void C05(Case& c)
{
  mg::GenOpt o;
  o.allow_deep = true;
  o.max_octs = 300;
  Ctx x;
  x.m = mg::gen_mesh(c, x.g.p, o, 3);
  hc::gen_geometry(c, x.g, false, false, 5);
  hc::Grid& g = x.g;
  c.desc << g.str() << " group " << g.group << " box " << g.lo[0] << ".." << g.hi[0];
  x.read();
  if (x.mod.levels() > 1) c.label("several levels");
  ConfigMap cfg(hc::to_text(hc::base_ini(g)));
  ForeachCell fc(*x.m, cfg);
  UserData U(cfg, fc);
  U.new_fields({"q"});
  uint32_t n = x.m->getNumOctants(), ng = x.m->getNumGhosts(), nc = g.b[0] * g.b[1] * g.b[2];
  if (n > g.group && n % g.group) { c.label("partial last group"); }
  if (n && n % g.group == 0) c.label("exact groups");
  c.nontrivial = n >= 2 && nc >= 2;
  PBT_CHECK(c, fc.getNumCells() == n * nc, "getNumCells is " << fc.getNumCells() << " for " << n << " blocks of " << nc);
  PBT_CHECK(c, fc.getNumCells_global() == (uint64_t)x.mod.octs.size() * nc, "getNumCells_global is " << fc.getNumCells_global());
  PBT_CHECK(c, fc.getDim() == g.p.dim, "getDim");
  auto bs = fc.blockSize();
  PBT_CHECK(c, bs[0] == g.b[0] && bs[1] == g.b[1] && bs[2] == g.b[2], "blockSize");
  // plain loops
  Kokkos::View<int*> cnt("cnt", (size_t)n * nc + 1), gcnt("gcnt", (size_t)ng * nc + 1);
  Kokkos::View<int*> bad("bad", 4);
  uint32_t b0 = g.b[0], b1 = g.b[1], b2 = g.b[2];
  auto U_ = hc::accessor(U, {"q"});
  auto pos = KOKKOS_LAMBDA(const CI& i) { return (size_t)i.iOct.iOct * nc + i.i + b0 * (i.j + b1 * i.k); };
  fc.foreach_cell("t", U_.getShape(), KOKKOS_LAMBDA(const CI& i) {
    bool ok = !i.iOct.isGhost && i.iOct.iOct < n && i.i < b0 && i.j < b1 && i.k < b2 && i.bx == b0 && i.by == b1 && i.bz == b2 && i.is_local();
    if (ok) Kokkos::atomic_inc(&cnt(pos(i)));
    else Kokkos::atomic_inc(&bad(0));
  });
  fc.foreach_ghost_cell("t", U_.getShape(), KOKKOS_LAMBDA(const CI& i) {
    bool ok = i.iOct.isGhost && i.iOct.iOct < ng && i.i < b0 && i.j < b1 && i.k < b2 && i.bx == b0 && i.by == b1 && i.bz == b2;
    if (ok) Kokkos::atomic_inc(&gcnt(pos(i)));
    else Kokkos::atomic_inc(&bad(1));
  });
  PBT_CHECK(c, bad(0) == 0 && bad(1) == 0, "loop passed an invalid cell index");
  for (size_t i = 0; i < (size_t)n * nc; i++) PBT_CHECK(c, cnt(i) == 1, "foreach_cell visited cell " << i % nc << " of block " << i / nc << " " << cnt(i) << " times");
  for (size_t i = 0; i < (size_t)ng * nc; i++) PBT_CHECK(c, gcnt(i) == 1, "foreach_ghost_cell visited cell " << i % nc << " of ghost " << i / nc << " " << gcnt(i) << " times");
  // reductions
  {
    uint64_t salt = c.salt();
    auto w = KOKKOS_LAMBDA(const CI& i) { return (int64_t)(pbt::mix64(salt + pos(i)) % 100000); };
    int64_t s = 0, es = 0;
    fc.reduce_cell("s", U_.getShape(), KOKKOS_LAMBDA(const CI& i, int64_t& u) { u += w(i); }, s);
    int64_t mx = 0, emx = -1, s2 = 0;
    fc.reduce_cell("m", U_.getShape(), KOKKOS_LAMBDA(const CI& i, int64_t& u, int64_t& v) { if (w(i) > u) u = w(i); v += 2 * w(i) + 1; }, Kokkos::Max<int64_t>(mx), Kokkos::Sum<int64_t>(s2));
    for (size_t i = 0; i < (size_t)n * nc; i++)
    {
      int64_t e = (int64_t)(pbt::mix64(salt + i) % 100000);
      es += e;
      if (e > emx) emx = e;
    }
    PBT_CHECK(c, s == es, "reduce_cell sum " << s << " expected " << es);
    PBT_CHECK(c, s2 == 2 * es + (int64_t)n * nc, "second reducer " << s2 << " expected " << 2 * es + (int64_t)n * nc);
    if (n) PBT_CHECK(c, mx == emx, "reduce_cell max " << mx << " expected " << emx);
  }
  // patches : every cell of every block once, temporaries private to the block
  {
    int gz = (int)c.draw(0, 2);
    int gh[3] = {gz, (int)c.draw(0, 2), g.p.dim == 3 ? (int)c.draw(0, 2) : 0};
    for (int a = 0; a < 3; a++) while (2 * gh[a] - 1 > (int)g.b[a]) gh[a]--;
    FieldManager fm(2);
    auto tmp = fc.reserve_patch_tmp("tmp", gh[0], gh[1], gh[2], fm.get_id2index(), 2);
    uint32_t t0 = b0 + 2 * gh[0], t1 = b1 + 2 * gh[1], t2 = b2 + 2 * gh[2], tc = t0 * t1 * t2;
    Kokkos::View<int*> pcnt("p", (size_t)n * nc + 1), tcnt("t", (size_t)n * tc + 1), pb("pb", 4), res("r", (size_t)n * nc + 1);
    int patches = 0;
    uint32_t group = g.group;
    int g0 = gh[0], g1 = gh[1], g2 = gh[2];
    Kokkos::View<int*> in_patch("ip", 1);
    fc.foreach_patch("patch", PATCH_LAMBDA(const ForeachCell::Patch& patch) {
      patches++;
      auto T = patch.allocate_tmp(tmp);
      in_patch(0) = 0;
      patch.foreach_cell(T, CELL_LAMBDA(const CI& i) {
        bool ok = !i.iOct.isGhost && i.iOct.iOct < n && i.i < t0 && i.j < t1 && i.k < t2 && i.bx == t0 && i.by == t1 && i.bz == t2;
        if (!ok) { Kokkos::atomic_inc(&pb(0)); return; }
        Kokkos::atomic_inc(&tcnt((size_t)i.iOct.iOct * tc + i.i + t0 * (i.j + t1 * i.k)));
        Kokkos::atomic_inc(&in_patch(0));
        T.at_ivar(i, 0) = i.iOct.iOct * 4096. + i.i + 16 * (i.j + 16 * i.k);
        T.at_ivar(i, 1) = -(i.iOct.iOct * 4096. + i.i + 16 * (i.j + 16 * i.k));
      });
      if (in_patch(0) > (int)(group * tc)) pb(2)++;
      patch.foreach_cell(U_.getShape(), CELL_LAMBDA(const CI& i) {
        bool ok = !i.iOct.isGhost && i.iOct.iOct < n && i.i < b0 && i.j < b1 && i.k < b2 && i.bx == b0 && i.by == b1 && i.bz == b2;
        if (!ok) { Kokkos::atomic_inc(&pb(1)); return; }
        Kokkos::atomic_inc(&pcnt(pos(i)));
        CI t = T.convert_index(i);
        double e = i.iOct.iOct * 4096. + (i.i + g0) + 16 * ((i.j + g1) + 16 * (i.k + g2));
        res(pos(i)) = T.at_ivar(t, 0) == e && T.at_ivar(t, 1) == -e;
      });
    });
    PBT_CHECK(c, pb(0) == 0 && pb(1) == 0, "patch loop passed an invalid cell index");
    PBT_CHECK(c, pb(2) == 0, "a patch holds more blocks than blocks-per-group");
    for (size_t i = 0; i < (size_t)n * tc; i++) PBT_CHECK(c, tcnt(i) == 1, "patch loop with ghosts visited cell " << i % tc << " of block " << i / tc << " " << tcnt(i) << " times (" << patches << " patches)");
    for (size_t i = 0; i < (size_t)n * nc; i++)
    {
      PBT_CHECK(c, pcnt(i) == 1, "patch loop visited cell " << i % nc << " of block " << i / nc << " " << pcnt(i) << " times (" << patches << " patches)");
      PBT_CHECK(c, res(i) == 1, "temporary array of block " << i / nc << " does not hold the values of its own cell " << i % nc);
    }
    if (patches > 2) c.label("several patches");
  }
  c.sync();
  // geometry
  auto meta = fc.getCellMetaData();
  double vol = 0;
  for (uint32_t io = 0; io < n + ng; io++)
  {
    bool gh = io >= n;
    const mg::Oct& oc = gh ? x.gho[io - n] : x.loc[io];
    auto sz = hc::cell_size(g, oc);
    hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
      CI ci = hc::make_cell(g, gh ? io - n : io, gh, i, j, k);
      auto s = meta.getCellSize(ci);
      auto p = meta.getCellCenter(ci);
      auto e = hc::cell_center(g, oc, i, j, k);
      for (int a = 0; a < g.p.dim; a++)
      {
        PBT_CHECK(c, std::fabs(s[a] - sz[a]) <= 1e-12 * sz[a], "size of cell (" << i << "," << j << "," << k << ") of " << (gh ? "ghost " : "") << mg::str(oc) << " along " << a << " is " << s[a] << " expected " << sz[a]);
        double tol = 1e-9 * sz[a] + 1e-14 * (std::fabs(g.lo[a]) + std::fabs(g.hi[a]));
        PBT_CHECK(c, std::fabs(p[a] - e[a]) <= tol, "centre of cell (" << i << "," << j << "," << k << ") of " << (gh ? "ghost " : "") << mg::str(oc) << " along " << a << " is " << p[a] << " expected " << e[a]);
      }
      if (!gh)
      {
        double v = 1;
        for (int a = 0; a < g.p.dim; a++) v *= s[a];
        vol += v;
      }
    });
  }
  double tot = 0, dom = 1;
  MPI_Allreduce(&vol, &tot, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
  for (int a = 0; a < g.p.dim; a++) dom *= g.L(a);
  PBT_CHECK(c, std::fabs(tot - dom) <= 1e-10 * dom, "cell volumes add up to " << tot << ", the domain is " << dom);
  // positions : inside cells, and hugging the cell walls from inside
  uint64_t ps = c.salt();
  int np = (int)c.draw(1, 60);
  for (int q = 0; q < np && n; q++)
  {
    uint64_t h = pbt::hash_combine(ps, q);
    uint32_t io = (uint32_t)(h % n);
    uint32_t ix[3];
    for (int a = 0; a < 3; a++) ix[a] = (uint32_t)((pbt::mix64(h + 11 * a) >> 5) % g.b[a]);
    const mg::Oct& oc = x.loc[io];
    auto sz = hc::cell_size(g, oc);
    auto ce = hc::cell_center(g, oc, ix[0], ix[1], ix[2]);
    Kokkos::Array<real_t, 3> p;
    bool near = false;
    for (int a = 0; a < 3; a++)
    {
      if (a == 2 && g.p.dim == 2) { p[a] = g.lo[a]; continue; }
      double u = pbt::u01(h + 100 + a);
      int kind = (int)(pbt::mix64(h + 200 + a) % 4);
      if (kind == 0) p[a] = ce[a];
      else if (kind == 1) p[a] = ce[a] + (u - 0.5) * 0.999 * sz[a];
      else
      {
        // last representable positions before the wall of the block above
        double wall = g.lo[a] + (double)(oc.c[a] + 1) * (g.L(a) / g.p.count(a, oc.level));
        int ulps = (int)(pbt::mix64(h + 300 + a) % 4) + 1;
        for (int s = 0; s < ulps; s++) wall = std::nextafter(wall, -1e300);
        p[a] = wall;
        near = true;
      }
    }
    // must be strictly inside the domain
    bool in = true;
    for (int a = 0; a < g.p.dim; a++) in = in && (p[a] - g.lo[a]) / g.L(a) > 0 && (p[a] - g.lo[a]) / g.L(a) < 1;
    if (!in) continue;
    if (near)
    {
      // rounding may put the position on either side of the wall: every block around must be ours
      bool ours = true;
      for (int m = 0; m < 8; m++)
      {
        std::array<double, 3> u{{0, 0, 0}};
        for (int a = 0; a < g.p.dim; a++)
        {
          u[a] = (p[a] - g.lo[a]) / g.L(a) + ((m >> a & 1) ? 1e-9 : -1e-9);
          if (u[a] >= 1) u[a] = 1 - 1e-9;
          if (u[a] <= 0) u[a] = 1e-9;
        }
        int j = x.mod.locate(u);
        if (j < 0 || x.mod.octs[j].rank != pbt::mpi_rank()) ours = false;
      }
      if (!ours) continue;
      c.label("position at block wall");
    }
    CI r = meta.getCellFromPos(p);
    bool valid = !r.iOct.isGhost && r.iOct.iOct < n && r.i < b0 && r.j < b1 && r.k < b2;
    PBT_CHECK(c, valid, "getCellFromPos(" << p[0] << "," << p[1] << "," << p[2] << ") gives cell (" << r.i << "," << r.j << "," << r.k << ") of block " << r.iOct.iOct << ", block size " << b0 << "x" << b1 << "x" << b2);
    if (!valid) continue;
    const mg::Oct& ro = x.loc[r.iOct.iOct];
    auto rs = hc::cell_size(g, ro);
    auto rc = hc::cell_center(g, ro, r.i, r.j, r.k);
    for (int a = 0; a < g.p.dim; a++)
    {
      double tol = 1e-12 * (std::fabs(g.lo[a]) + std::fabs(g.hi[a])) + 1e-12 * rs[a];
      PBT_CHECK(c, std::fabs(p[a] - rc[a]) <= 0.5 * rs[a] + tol, "getCellFromPos: position " << p[a] << " along " << a << " is outside of the returned cell [" << rc[a] - rs[a] / 2 << "," << rc[a] + rs[a] / 2 << "]");
    }
  }
  c.sync();
}

void C06(Case& c)
{
  mg::GenOpt o;
  o.allow_deep = true;
  o.max_octs = 120;
  Ctx x;
  hc::Grid& g = x.g;
  x.m = mg::gen_mesh(c, g.p, o, 4);
  hc::gen_geometry(c, g, c.coin(3, 4), true, 5);
  int w[3];
  for (int a = 0; a < 3; a++) w[a] = a >= g.p.dim ? 0 : std::min<int>(c.coin(1, 3) ? 2 : 1, ((int)g.b[a] + 1) / 2);
  c.desc << g.str() << " width " << w[0] << w[1] << w[2];
  x.read();
  const uint32_t* b = g.b;
  ConfigMap cfg(hc::to_text(hc::base_ini(g)));
  ForeachCell fc(*x.m, cfg);
  UserData U(cfg, fc);
  U.new_fields({"q", "unused"});
  hc::fill(g, *x.m, U, "q", [&](const mg::Oct& oc, uint32_t i, uint32_t j, uint32_t k) { return hc::cell_value("q", oc, i, j, k); });
  auto acc = hc::accessor(U, {"q"});
  int gc = std::max(w[0], std::max(w[1], w[2])); // offset 2 reaches the 4th smaller cell
  if (gc > 1) gc *= 2;
  {
    int ok = 1;
    for (int a = 0; a < g.p.dim; a++) if ((int)b[a] < gc) ok = 0;
    if (ok)
    {
      GhostCommunicator comm(*x.m, U.getShape(), gc);
      comm.exchange_ghosts(acc);
    }
    else
    {
      GhostCommunicator_full_blocks comm(*x.m, U.getShape(), gc);
      comm.exchange_ghosts(acc);
    }
  }
  auto shape = acc.getShape();
  bool even = b[0] % 2 == 0 && b[1] % 2 == 0 && (g.p.dim == 2 || b[2] % 2 == 0);
  // target region of a cell + offset : 0 outside, else leaf index
  for (uint32_t io = 0; io < x.loc.size() && !c.failed_local; io++)
  {
    const mg::Oct& oc = x.loc[io];
    for (uint32_t k = 0; k < b[2]; k++)
    for (uint32_t j = 0; j < b[1]; j++)
    for (uint32_t i = 0; i < b[0]; i++)
    for (int oz = -w[2]; oz <= w[2]; oz++)
    for (int oy = -w[1]; oy <= w[1]; oy++)
    for (int ox = -w[0]; ox <= w[0]; ox++)
    {
      CI cell = hc::make_cell(g, io, false, i, j, k);
      int off[3] = {ox, oy, oz};
      int64_t idx[3] = {i, j, k};
      CI r = cell.getNeighbor_ghost({(int16_t)ox, (int16_t)oy, (int16_t)oz}, shape);
      auto where = [&]() {
        std::ostringstream s;
        s << "neighbour of cell (" << i << "," << j << "," << k << ") of " << mg::str(oc) << " offset (" << ox << "," << oy << "," << oz << "): ";
        return s.str();
      };
      // target in same-size cells
      std::array<int64_t, 3> X;
      mg::C3 tb;
      bool inblock = true, outside = false, outax[3];
      for (int a = 0; a < 3; a++)
      {
        int64_t N = (int64_t)(a == 2 && g.p.dim == 2 ? 1 : g.p.count(a, oc.level)) * b[a];
        int64_t loc = idx[a] + off[a];
        outax[a] = loc < 0 || loc >= (int64_t)b[a];
        if (outax[a]) inblock = false;
        X[a] = (int64_t)oc.c[a] * b[a] + loc;
        if (X[a] < 0 || X[a] >= N)
        {
          if (!g.p.per[a]) outside = true;
          X[a] = (X[a] + N) % N;
        }
        tb[a] = (uint32_t)(X[a] / b[a]);
      }
      if (outside)
      {
        PBT_CHECK(c, r.is_boundary() && !r.is_valid(), where() << "is outside of the domain but reported " << st(r.status));
        if (r.is_boundary())
        {
          CI in;
          CI::offset_t bo;
          r.getBoundaryPosAndOffset(in, bo);
          bool same = in.iOct.iOct == io && !in.iOct.isGhost && in.i < b[0] && in.j < b[1] && in.k < b[2];
          PBT_CHECK(c, same && (int64_t)in.i + bo[0] == idx[0] + off[0] && (int64_t)in.j + bo[1] == idx[1] + off[1] && (int64_t)in.k + bo[2] == idx[2] + off[2],
                    where() << "getBoundaryPosAndOffset gives cell (" << in.i << "," << in.j << "," << in.k << ") offset (" << bo[0] << "," << bo[1] << "," << bo[2] << ")");
        }
        c.label("boundary");
        continue;
      }
      PBT_CHECK(c, r.is_valid() && !r.is_boundary(), where() << "is inside the domain but reported " << st(r.status));
      if (!r.is_valid()) continue;
      bool ok = r.iOct.isGhost ? r.iOct.iOct < x.gho.size() : r.iOct.iOct < x.loc.size();
      ok = ok && r.i < b[0] && r.j < b[1] && r.k < b[2] && r.bx == b[0] && r.by == b[1] && r.bz == b[2];
      PBT_CHECK(c, ok, where() << "index out of range");
      if (!ok) continue;
      GCell got = x.geom(r);
      int leaf = x.mod.find_cover(oc.level, tb);
      GCell want;
      if (inblock)
      {
        want.level = oc.level;
        want.X = X;
        PBT_CHECK(c, r.status == CI::LOCAL_TO_BLOCK && r.is_local() && got == want && !r.iOct.isGhost && r.iOct.iOct == io, where() << "in the same block, reported " << st(r.status) << " " << str(got) << " expected " << str(want));
      }
      else if (leaf >= 0 && x.mod.octs[leaf].level == oc.level)
      {
        want.level = oc.level;
        want.X = X;
        PBT_CHECK(c, r.status == CI::SAME_SIZE && r.level_diff() == 0 && got == want, where() << "has the same size, reported " << st(r.status) << " " << str(got) << " expected " << str(want));
        c.label("same size");
      }
      else if (leaf >= 0)
      {
        want.level = oc.level - 1;
        for (int a = 0; a < 3; a++) want.X[a] = (a == 2 && g.p.dim == 2) ? X[a] : X[a] / 2;
        PBT_CHECK(c, r.status == CI::BIGGER && r.level_diff() == 1 && got == want, where() << "is larger, reported " << st(r.status) << " " << str(got) << " expected " << str(want));
        c.label("larger");
        c.nontrivial = true;
      }
      else
      {
        c.label("smaller");
        c.nontrivial = true;
        PBT_CHECK(c, r.status == CI::SMALLER && r.level_diff() == -1, where() << "is refined, reported " << st(r.status));
        ok = got.level == oc.level + 1;
        bool exact = true;
        for (int a = 0; a < g.p.dim; a++)
        {
          int64_t lo = 2 * X[a], e;
          if (outax[a]) e = off[a] < 0 ? lo + 1 : lo; // nearest layer
          else if (off[a] == 0) e = lo;               // lower-left of the adjacent cells
          else { e = -1; exact = false; }
          if (e >= 0 && std::abs(off[a]) <= 1) ok = ok && got.X[a] == e;
          else ok = ok && got.X[a] >= lo && got.X[a] <= lo + 1;
          if (std::abs(off[a]) > 1) exact = false;
        }
        PBT_CHECK(c, ok, where() << "is refined, designated sub-cell " << str(got) << " of region " << X[0] << "," << X[1] << "," << X[2]);
        // enumeration of the adjacent smaller cells
        bool sib = true; // needs all siblings in reach
        for (int a = 0; a < g.p.dim; a++) if (b[a] == 1 && false) sib = false;
        if (ok && exact && sib)
        {
          std::set<GCell> exp, seen;
          int d[3];
          for (int a = 0; a < 3; a++) d[a] = (a < g.p.dim && off[a] == 0) ? 2 : 1;
          for (int dz = 0; dz < d[2]; dz++)
            for (int dy = 0; dy < d[1]; dy++)
              for (int dx = 0; dx < d[0]; dx++)
              {
                GCell e = got;
                e.X[0] += dx;
                e.X[1] += dy;
                e.X[2] += dz;
                exp.insert(e);
              }
          int cntn = 0;
          double sum = 0;
          auto f = [&](const CI& s) {
            cntn++;
            bool v = s.is_valid() && (s.iOct.isGhost ? s.iOct.iOct < x.gho.size() : s.iOct.iOct < x.loc.size()) && s.i < b[0] && s.j < b[1] && s.k < b[2];
            PBT_CHECK(c, v, where() << "invalid sub-cell");
            if (v) seen.insert(x.geom(s));
            (void)sum;
          };
          CI::offset_t of{(int16_t)ox, (int16_t)oy, (int16_t)oz};
          int ret = g.p.dim == 2 ? foreach_smaller_neighbor<2>(r, of, shape, f) : foreach_smaller_neighbor<3>(r, of, shape, f);
          PBT_CHECK(c, ret == (int)exp.size() && cntn == ret && seen == exp, where() << "the " << exp.size() << " smaller adjacent cells are not the " << seen.size() << " enumerated (returned " << ret << ")");
          if (even)
          {
            seen.clear();
            cntn = 0;
            ret = g.p.dim == 2 ? foreach_smaller_neighbor<2, false>(r, of, shape, f) : foreach_smaller_neighbor<3, false>(r, of, shape, f);
            PBT_CHECK(c, ret == (int)exp.size() && cntn == ret && seen == exp, where() << "in-block enumeration of smaller cells differs");
          }
        }
      }
      // the value read through the lookup is the value of that physical cell
      {
        mg::Oct ro = r.iOct.isGhost ? x.gho[r.iOct.iOct] : x.loc[r.iOct.iOct];
        double v = acc.at_ivar(r, 0), e = hc::cell_value("q", ro, r.i, r.j, r.k);
        PBT_CHECK(c, v == e, where() << "value read " << v << " is not that of the cell " << str(got) << " (" << e << ")" << (r.iOct.isGhost ? " [ghost]" : ""));
        if (r.iOct.isGhost) c.label("remote");
      }
    }
  }
  c.sync();
  // ghosted patch arrays : index conversion
  if (even)
  {
    int gx[3];
    for (int a = 0; a < 3; a++) gx[a] = a >= g.p.dim ? 0 : std::min<int>(w[a], (int)b[a] / 2);
    uint32_t t[3];
    for (int a = 0; a < 3; a++) t[a] = b[a] + 2 * gx[a];
    for (uint32_t io = 0; io < x.loc.size() && !c.failed_local; io++)
    {
      const mg::Oct& oc = x.loc[io];
      for (uint32_t k = 0; k < t[2]; k++)
      for (uint32_t j = 0; j < t[1]; j++)
      for (uint32_t i = 0; i < t[0]; i++)
      {
        CI pc{{io, false}, i, j, k, t[0], t[1], t[2], CI::LOCAL_TO_BLOCK};
        CI r = acc.getShape().convert_index_ghost(pc);
        int64_t idx[3] = {(int64_t)i - gx[0], (int64_t)j - gx[1], (int64_t)k - gx[2]};
        std::array<int64_t, 3> X;
        mg::C3 tb;
        bool outside = false;
        for (int a = 0; a < 3; a++)
        {
          int64_t N = (int64_t)(a == 2 && g.p.dim == 2 ? 1 : g.p.count(a, oc.level)) * b[a];
          X[a] = (int64_t)oc.c[a] * b[a] + idx[a];
          if (X[a] < 0 || X[a] >= N)
          {
            if (!g.p.per[a]) outside = true;
            X[a] = (X[a] + N) % N;
          }
          tb[a] = (uint32_t)(X[a] / b[a]);
        }
        auto where = [&]() {
          std::ostringstream s;
          s << "conversion of patch cell (" << idx[0] << "," << idx[1] << "," << idx[2] << ") of " << mg::str(oc) << ": ";
          return s.str();
        };
        if (outside) { PBT_CHECK(c, !r.is_valid() && r.is_boundary(), where() << "outside of the domain, reported " << st(r.status)); continue; }
        PBT_CHECK(c, r.is_valid(), where() << "reported " << st(r.status));
        if (!r.is_valid()) continue;
        GCell got = x.geom(r), want;
        int leaf = x.mod.find_cover(oc.level, tb);
        int d = leaf < 0 ? -1 : (int)oc.level - (int)x.mod.octs[leaf].level;
        want.level = oc.level - d;
        for (int a = 0; a < 3; a++) want.X[a] = (a >= g.p.dim) ? X[a] : d == 1 ? X[a] / 2 : d == -1 ? 2 * X[a] : X[a];
        PBT_CHECK(c, got == want && r.level_diff() == d, where() << "gives " << str(got) << " (" << st(r.status) << "), expected " << str(want) << " level difference " << d);
        // all sub-cells are in the same block
        if (d == -1)
        {
          CI last = r.getNeighbor({1, 1, (int16_t)(g.p.dim == 3 ? 1 : 0)});
          GCell gl = x.geom(last);
          bool okl = last.i < b[0] && last.j < b[1] && last.k < b[2];
          for (int a = 0; a < g.p.dim; a++) okl = okl && gl.X[a] == want.X[a] + 1;
          PBT_CHECK(c, okl, where() << "the sub-cells are not in one block");
        }
        c.label("patch conversion");
      }
    }
  }
  c.sync();
}

int main(int argc, char** argv) { return pbt_main(argc, argv, {{"C05", C05}, {"C06", C06}, {"C08", C08}, {"C09", C09}}); }
