// C10 conservation; C11 uniform states and symmetries; C15 boundary conditions
#include "hydro.h"
#include "hydro/HydroUpdate.h"
#include "main.h"
using namespace dyablo;
using namespace hy;

namespace {

void describe(Case& c, const Problem& P, const std::string& st)
{
  c.desc << P.s.id << "/" << P.s.riemann << " " << P.g.str() << " " << P.leaves.size() << " blocks, " << st << " state, gamma " << P.gamma << " dt " << P.dt;
  c.label(P.s.id + "/" + P.s.riemann);
  c.label(st);
}

// ---- transformations of a problem ---------------------------------------------
struct Tr
{
  int perm[3] = {0, 1, 2}; // axis a of the original becomes axis perm[a]
  bool flip[3] = {false, false, false};
  uint32_t shift[3] = {0, 0, 0}; // in blocks of level_min
  mg::C3 oct(const mg::Params& p, const mg::Oct& o) const
  {
    mg::C3 r;
    for (int a = 0; a < 3; a++)
    {
      uint32_t n = p.count(a, o.level);
      uint32_t v = (o.c[a] + (shift[a] << (a == 2 && p.dim == 2 ? 0 : o.level - p.lmin))) % n;
      r[perm[a]] = flip[a] ? n - 1 - v : v;
    }
    return r;
  }
  void cell(const uint32_t b[3], const uint32_t in[3], uint32_t out[3]) const
  {
    for (int a = 0; a < 3; a++) out[perm[a]] = flip[a] ? b[a] - 1 - in[a] : in[a];
  }
  Q vec(const Q& q) const
  {
    Q r = q;
    for (int a = 0; a < 3; a++)
    {
      r[2 + perm[a]] = flip[a] ? -q[2 + a] : q[2 + a];
      r[5 + perm[a]] = flip[a] ? -q[5 + a] : q[5 + a];
    }
    return r;
  }
  Problem apply(const Problem& P) const
  {
    Problem R = P;
    for (int a = 0; a < 3; a++)
    {
      int n = perm[a];
      R.g.p.coarse[n] = P.g.p.coarse[a];
      R.g.p.per[n] = P.g.p.per[a];
      R.g.b[n] = P.g.b[a];
      R.g.lo[n] = flip[a] ? -P.g.hi[a] : P.g.lo[a];
      R.g.hi[n] = flip[a] ? -P.g.lo[a] : P.g.hi[a];
      for (int s = 0; s < 2; s++) R.bc[n][flip[a] ? 1 - s : s] = P.bc[a][s];
    }
    for (auto& o : R.leaves) o.c = oct(P.g.p, o);
    // inverse look-up
    auto inv = std::make_shared<std::unordered_map<std::array<uint32_t, 4>, mg::Oct, mg::KeyHash>>();
    for (auto& o : P.leaves) (*inv)[mg::key(o.level, oct(P.g.p, o))] = o;
    Tr T = *this;
    PrimFn f = P.prim;
    std::array<uint32_t, 3> b = {P.g.b[0], P.g.b[1], P.g.b[2]};
    R.prim = [inv, T, f, b](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) {
      auto it = inv->find(mg::key(o.level, o.c));
      if (it == inv->end()) return Q{1, 1, 0, 0, 0, 0, 0, 0, 0};
      uint32_t out[3] = {i, j, k}, in[3];
      for (int a = 0; a < 3; a++) in[a] = T.flip[a] ? b[a] - 1 - out[T.perm[a]] : out[T.perm[a]];
      return T.vec(f(it->second, in[0], in[1], in[2]));
    };
    return R;
  }
};

void compare(Case& c, const Problem& P, const Result& A, const Result& B, const Tr& T, const std::string& what)
{
  static const char* fn[] = {"rho", "e_tot", "rho_vx", "rho_vy", "rho_vz", "Bx", "By", "Bz", "psi"};
  double big = 0;
  for (int f = 0; f < A.nf; f++) big = std::max(big, A.scale(f));
  for (size_t o = 0; o < A.octs.size(); o++)
  {
    long t = B.find(A.octs[o].level, T.oct(P.g.p, A.octs[o]));
    PBT_CHECK(c, t >= 0, what << ": block " << mg::str(A.octs[o]) << " has no image");
    if (t < 0) return;
    hc::each_cell(P.g, [&](uint32_t i, uint32_t j, uint32_t k) {
      uint32_t in[3] = {i, j, k}, out[3];
      T.cell(P.g.b, in, out);
      Q a{}, b{};
      for (int f = 0; f < A.nf; f++) a[f] = A.at(o, f, A.cell(i, j, k)), b[f] = B.at(t, f, B.cell(out[0], out[1], out[2]));
      a = T.vec(a);
      for (int f = 0; f < A.nf; f++)
        PBT_CHECK(c, std::fabs(a[f] - b[f]) <= 2e-11 * big,
                  what << ": " << fn[f] << " of the image of cell (" << i << "," << j << "," << k << ") of " << mg::str(A.octs[o]) << " is " << b[f] << ", the image of the result is " << a[f]);
    });
  }
}

} // namespace

void C10(Case& c)
{
  Problem P;
  auto all = schemes();
  P.s = c.pick(all);
  gen_problem_mesh(c, P, P.s.hancock, 60, true);
  std::string st = gen_state(c, P);
  P.dt = gen_cfl(c) * stable_dt(P);
  int steps = (int)c.draw(1, 2);
  if (P.s.kind == HYDRO && c.coin(1, 4)) P.extra["hydro"]["smallp"] = "1e-14";
  if (P.s.kind == MHD && c.coin(1, 4)) P.extra["hydro"]["three_waves"] = "yes";
  describe(c, P, st);
  Result R = run(c, P, steps);
  if (R.floored) { c.label("floored (skipped)"); return; }
  static const char* fn[] = {"mass", "total energy", "momentum x", "momentum y", "momentum z", "Bx", "By", "Bz"};
  for (int f = 0; f < std::min(R.nf, 8); f++)
  {
    long double i0 = 0, i1 = 0, sa = 0;
    for (size_t o = 0; o < R.octs.size(); o++)
    {
      double v = hc::cell_volume(P.g, R.octs[o]);
      for (size_t q = 0; q < R.cells; q++)
      {
        i0 += (long double)R.at0(o, f, q) * v;
        i1 += (long double)R.at(o, f, q) * v;
        sa += std::fabs((long double)R.at0(o, f, q)) * v;
      }
    }
    // fluxes scale with the energy density
    long double e = 0;
    for (size_t o = 0; o < R.octs.size(); o++)
      for (size_t q = 0; q < R.cells; q++) e += std::fabs((long double)R.at0(o, 1, q)) * hc::cell_volume(P.g, R.octs[o]);
    PBT_CHECK(c, std::fabs((double)(i1 - i0)) <= 1e-12 * (double)(sa + e), P.s.id << " changed the total of " << fn[f] << " from " << (double)i0 << " to " << (double)i1);
  }
  bool changed = false;
  for (size_t q = 0; q < R.v.size(); q++) changed = changed || R.v[q] != R.before[q];
  bool varies = false;
  for (size_t o = 0; o < R.octs.size(); o++)
    for (int f = 0; f < R.nf; f++)
      for (size_t q = 0; q < R.cells; q++) varies = varies || std::fabs(R.at0(o, f, q) - R.at0(0, f, 0)) > 1e-6;
  if (varies) PBT_CHECK(c, changed, "the update changed nothing");
  c.nontrivial = varies;
  if (R.level_jump) c.label("level jumps");
}

void C11(Case& c)
{
  Problem P;
  auto all = schemes();
  P.s = c.pick(all);
  bool uniform = c.coin(1, 4);
  // a patch scheme of second order is only consistent for single-level symmetry
  gen_problem_mesh(c, P, false, 50, false);
  std::string st = gen_state(c, P, uniform ? 0 : (int)c.draw(1, 3));
  P.dt = gen_cfl(c) * stable_dt(P);
  if (P.s.kind == MHD && c.coin(1, 4)) P.extra["hydro"]["three_waves"] = "yes";
  int steps = (int)c.draw(1, 2);
  int dim = P.g.p.dim;
  if (uniform)
  {
    describe(c, P, st);
    if (P.s.kind == GLM)
    {
      PrimFn f = P.prim;
      P.prim = [f](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) { Q q = f(o, i, j, k); q[8] = 0; return q; };
    }
    Result R = run(c, P, steps);
    double big = 0;
    for (int f = 0; f < R.nf; f++) big = std::max(big, R.scale(f));
    for (size_t q = 0; q < R.v.size(); q++)
      PBT_CHECK(c, std::fabs(R.v[q] - R.before[q]) <= 1e-12 * big, P.s.id << " changed a uniform state: " << R.before[q] << " became " << R.v[q] << " (field " << (q / R.cells) % R.nf << ")");
    c.nontrivial = true;
    if (R.level_jump) c.label("uniform with level jumps");
    return;
  }
  // symmetric boundary conditions may differ per side for hydro
  for (int a = 0; a < dim; a++)
    if (!P.g.p.per[a] && P.s.kind == HYDRO)
      for (int s = 0; s < 2; s++) P.bc[a][s] = c.pick<std::string>({"absorbing", "reflecting"});
  Tr T;
  if (dim == 2) { if (c.coin()) std::swap(T.perm[0], T.perm[1]); }
  else
  {
    static const int pm[6][3] = {{0, 1, 2}, {1, 0, 2}, {2, 1, 0}, {0, 2, 1}, {1, 2, 0}, {2, 0, 1}};
    int k = (int)c.draw(0, 5);
    for (int a = 0; a < 3; a++) T.perm[a] = pm[k][a];
  }
  // the cleaning variable of the GLM schemes is damped between the axis sweeps : see C11_glm
  if (P.s.kind == GLM) for (int a = 0; a < 3; a++) T.perm[a] = a;
  for (int a = 0; a < dim; a++)
  {
    T.flip[a] = c.coin();
    if (P.g.p.per[a]) T.shift[a] = (uint32_t)c.draw(0, P.g.p.count(a, P.g.p.lmin) - 1);
  }
  describe(c, P, st);
  std::ostringstream w;
  w << "axes " << T.perm[0] << T.perm[1] << T.perm[2] << " flip " << T.flip[0] << T.flip[1] << T.flip[2] << " shift " << T.shift[0] << T.shift[1] << T.shift[2];
  c.desc << "; " << w.str();
  Result A = run(c, P, steps);
  Problem PT = T.apply(P);
  PT.dt = P.dt;
  Result B = run(c, PT, steps);
  c.sync();
  if (A.floored || B.floored) { c.label("floored (skipped)"); return; }
  compare(c, P, A, B, T, P.s.id + " under " + w.str());
  c.nontrivial = true;
  if (A.level_jump) c.label("symmetry with level jumps");
}

// known finding : exchanging two axes changes the result of the GLM schemes
void C11_glm(Case& c)
{
  Problem P;
  P.s = schemes()[8];
  P.g.p.dim = 2;
  P.g.p.coarse = {{2, 2, 1}};
  P.g.p.lmin = P.g.p.lmax = 1;
  P.g.p.per[0] = P.g.p.per[1] = true;
  P.g.b[0] = P.g.b[1] = 4;
  P.g.b[2] = 1;
  mg::Model M;
  M.init(P.g.p);
  P.leaves = M.octs;
  P.gamma = 1.4;
  hc::Grid g = P.g;
  P.prim = [g](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) {
    auto x = hc::cell_center(g, o, i, j, k);
    double s = std::sin(2 * M_PI * x[0]) * std::cos(2 * M_PI * x[1]);
    return Q{1 + 0.1 * s, 1, 0.1 * s, 0.2, 0, 0.5 + 0.2 * s, 0.3 - 0.1 * s, 0.1, 0.05 * s};
  };
  P.dt = 0.3 * stable_dt(P);
  c.desc << "GLMMHDUpdate_euler 2D 8x8 cells periodic, axes exchanged";
  Tr T;
  std::swap(T.perm[0], T.perm[1]);
  Result A = run(c, P, 1, false);
  Problem PT = T.apply(P);
  PT.dt = P.dt;
  Result B = run(c, PT, 1, false);
  c.sync();
  compare(c, P, A, B, T, "GLMMHDUpdate_euler under an exchange of x and y");
  c.nontrivial = true;
}

namespace {
// physical flux of a conservative state through axis a
Q phys_flux(const Q& q, int a, double gamma)
{
  Q f{};
  double E = q[1] / (gamma - 1) + 0.5 * q[0] * (q[2] * q[2] + q[3] * q[3] + q[4] * q[4]);
  double u = q[2 + a];
  f[0] = q[0] * u;
  for (int d = 0; d < 3; d++) f[2 + d] = q[0] * u * q[2 + d];
  f[2 + a] += q[1];
  f[1] = (E + q[1]) * u;
  return f;
}
// does the cell touch a wall and, sideways, another block?
bool wall_and_interface(const Problem& P, const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k)
{
  uint32_t ix[3] = {i, j, k};
  for (int a = 0; a < P.g.p.dim; a++)
    for (int s = 0; s < 2; s++)
    {
      if (P.g.p.per[a] || ix[a] != (s ? P.g.b[a] - 1 : 0) || o.c[a] != (s ? P.g.p.count(a, o.level) - 1 : 0)) continue;
      for (int d = 0; d < P.g.p.dim; d++)
        for (int t = 0; t < 2; t++)
          if (d != a && ix[d] == (t ? P.g.b[d] - 1 : 0) && (P.g.p.per[d] || o.c[d] != (t ? P.g.p.count(d, o.level) - 1 : 0))) return true;
    }
  return false;
}
} // namespace

// known finding : a closed box leaks with the hancock scheme where a block interface meets a wall
void C15_corner(Case& c)
{
  Problem P;
  P.s = schemes()[1];
  P.g.p.dim = 2;
  P.g.p.coarse = {{2, 2, 1}};
  P.g.p.lmin = P.g.p.lmax = 1;
  P.g.b[0] = P.g.b[1] = 4;
  P.g.b[2] = 1;
  mg::Model M;
  M.init(P.g.p);
  P.leaves = M.octs;
  P.gamma = 1.4;
  hc::Grid g = P.g;
  P.prim = [g](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) {
    auto x = hc::cell_center(g, o, i, j, k);
    double s = x[1] + 0.5 * x[0];
    return Q{1 + 0.5 * s, 1 + s, 0.5 + 0.3 * s, 0.4 * s, 0, 0, 0, 0, 0};
  };
  P.dt = 0.3 * stable_dt(P);
  for (int a = 0; a < 2; a++) P.bc[a][0] = P.bc[a][1] = "reflecting";
  c.desc << "HydroUpdate_hancock 2D 2x2 blocks of 4x4, reflecting sides";
  Result R = run(c, P, 1, false);
  long double i0 = 0, i1 = 0;
  for (size_t o = 0; o < R.octs.size(); o++)
    for (size_t q = 0; q < R.cells; q++) i0 += R.at0(o, 0, q), i1 += R.at(o, 0, q);
  PBT_CHECK(c, std::fabs((double)(i1 - i0)) <= 1e-12 * (double)i0, "mass of a closed box went from " << (double)i0 << " to " << (double)i1);
  c.nontrivial = true;
}

void C15(Case& c)
{
  Problem P;
  auto all = schemes();
  P.s = all[(size_t)c.pick<int>({0, 1, 2, 3, 0, 1, 2, 3, 4, 5, 7, 8})];
  int mode = (int)c.draw(0, 2); // 0 budget, 1 mirror box, 2 repeated cells
  if (mode == 1 && (P.s.one() || P.s.kind != HYDRO)) mode = 0;
  if (mode == 2 && (P.s.one() || P.s.id.find("RK2") != std::string::npos)) mode = 0;
  if (P.s.hancock && mode == 0 && (pbt::mpi_size() > 1 || P.s.kind != HYDRO)) mode = P.s.kind == HYDRO ? 1 : 2;
  bool single = P.s.hancock && mode == 0;
  gen_problem_mesh(c, P, single, 50, false);
  std::string st = gen_state(c, P);
  int dim = P.g.p.dim;
  if (P.g.p.per[0] && P.g.p.per[1] && (dim == 2 || P.g.p.per[2])) P.g.p.per[(size_t)c.draw(0, dim - 1)] = false;
  {
    // the leaves have to be balanced for the new periodicity : removing periodicity keeps a balanced set balanced
  }
  if (P.s.hancock && mode == 0)
  {
    // a single block : no block interface meets a wall sideways (see C15_corner)
    for (int a = 0; a < 3; a++) P.g.p.coarse[a] = 1, P.g.p.per[a] = false;
    P.g.p.lmin = P.g.p.lmax = 0;
    mg::Model M;
    M.init(P.g.p);
    P.leaves = M.octs;
    st = gen_state(c, P);
  }
  P.dt = gen_cfl(c) * stable_dt(P);
  for (int a = 0; a < dim; a++)
    for (int s = 0; s < 2; s++) P.bc[a][s] = P.g.p.per[a] ? "periodic" : c.pick<std::string>({"reflecting", "absorbing"});
  if (mode == 0)
  {
    bool mhd = P.s.kind != HYDRO;
    bool euler = P.s.id == "HydroUpdate_euler" || P.s.one();
    // all closed : conservation. otherwise : the budget of the open sides is the flux of the cells next to them
    if (!(P.s.kind == HYDRO && euler))
      for (int a = 0; a < dim; a++)
        for (int s = 0; s < 2; s++)
          if (!P.g.p.per[a]) P.bc[a][s] = "reflecting";
    describe(c, P, st);
    c.desc << "; sides";
    for (int a = 0; a < dim; a++) c.desc << " " << P.bc[a][0] << "/" << P.bc[a][1];
    Result R = run(c, P, 1);
    if (R.floored) { c.label("floored (skipped)"); return; }
    for (int f : {0, 1})
    {
      if (mhd && f == 1) continue; // field lines through a wall carry energy
      long double i0 = 0, i1 = 0, sa = 0, in = 0, e = 0;
      bool open = false;
      for (size_t o = 0; o < R.octs.size(); o++)
      {
        double v = hc::cell_volume(P.g, R.octs[o]);
        auto h = hc::cell_size(P.g, R.octs[o]);
        hc::each_cell(P.g, [&](uint32_t i, uint32_t j, uint32_t k) {
          size_t q = R.cell(i, j, k);
          i0 += (long double)R.at0(o, f, q) * v;
          i1 += (long double)R.at(o, f, q) * v;
          sa += std::fabs((long double)R.at0(o, f, q)) * v;
          e += std::fabs((long double)R.at0(o, 1, q)) * v;
          uint32_t ix[3] = {i, j, k};
          for (int a = 0; a < dim; a++)
            for (int s = 0; s < 2; s++)
            {
              if (P.bc[a][s] != "absorbing") continue;
              uint32_t edge = s == 0 ? 0 : P.g.p.count(a, R.octs[o].level) - 1, ce = s == 0 ? 0 : P.g.b[a] - 1;
              if (R.octs[o].c[a] != edge || ix[a] != ce) continue;
              open = true;
              Q u{};
              for (int n = 0; n < 5; n++) u[n] = R.at0(o, n, q);
              Q fl = phys_flux(to_prim(u, P.gamma, dim, P.s.kind), a, P.gamma);
              in += (s == 0 ? 1 : -1) * fl[f] * P.dt * v / h[a];
            }
        });
      }
      PBT_CHECK(c, std::fabs((double)(i1 - i0 - in)) <= 2e-12 * (double)(sa + e), P.s.id << ": total " << (f ? "energy" : "mass") << " went from " << (double)i0 << " to " << (double)i1 << ", the sides let " << (double)in << " in");
      if (open) c.label("open sides");
    }
    c.label("budget");
    c.nontrivial = st != "uniform";
    return;
  }
  // choose a closed axis
  std::vector<int> ax;
  for (int a = 0; a < dim; a++) if (!P.g.p.per[a]) ax.push_back(a);
  int a = c.pick(ax);
  // extended problem : the domain followed (or preceded) by a second copy of its size
  Problem E = P;
  auto relevel = [&](uint32_t mult) {
    E.g.p.coarse[a] = P.g.p.coarse[a] * mult;
    uint32_t mx = 1;
    for (int d = 0; d < dim; d++) mx = std::max(mx, E.g.p.coarse[d]);
    uint32_t l = 0;
    while ((1u << l) < mx) l++;
    l = std::max(1u, l);
    E.g.p.lmin = l;
    E.g.p.lmax = l + (P.g.p.lmax - P.g.p.lmin);
  };
  uint32_t off;
  std::string what;
  if (mode == 1)
  {
    P.bc[a][0] = P.bc[a][1] = "reflecting";
    E.bc[a][0] = E.bc[a][1] = "periodic";
    relevel(2);
    E.g.p.per[a] = true;
    what = "mirror box";
  }
  else
  {
    P.bc[a][0] = P.bc[a][1] = "absorbing";
    E.bc[a][0] = E.bc[a][1] = "absorbing";
    relevel(3);
    what = "repeated cells";
  }
  uint32_t dl = E.g.p.lmin - P.g.p.lmin; // may wrap : levels are shifted
  E.leaves.clear();
  auto src = std::make_shared<std::unordered_map<std::array<uint32_t, 4>, std::array<int64_t, 5>, mg::KeyHash>>(); // image -> (level, c, part)
  double L = P.g.L(a);
  if (mode == 1)
  {
    E.g.hi[a] = P.g.hi[a] + L;
    for (auto& o : P.leaves)
      for (int part = 0; part < 2; part++)
      {
        mg::Oct n = o;
        uint32_t cnt = P.g.p.count(a, o.level);
        n.level = o.level + dl;
        n.c[a] = part == 0 ? o.c[a] : 2 * cnt - 1 - o.c[a];
        E.leaves.push_back(n);
        (*src)[mg::key(n.level, n.c)] = {o.level, o.c[0], o.c[1], o.c[2], part};
      }
    off = 0;
  }
  else
  {
    // mirrored mesh on both sides (same levels at the wall), filled with the value of the cell at the wall
    E.g.lo[a] = P.g.lo[a] - L;
    E.g.hi[a] = P.g.hi[a] + L;
    for (auto& o : P.leaves)
      for (int part = 0; part < 3; part++)
      {
        mg::Oct n = o;
        uint32_t cnt = P.g.p.count(a, o.level);
        n.level = o.level + dl;
        n.c[a] = part == 0 ? o.c[a] + cnt : part == 1 ? cnt - 1 - o.c[a] : 3 * cnt - 1 - o.c[a];
        E.leaves.push_back(n);
        (*src)[mg::key(n.level, n.c)] = {o.level, o.c[0], o.c[1], o.c[2], part};
      }
    off = 1;
  }
  PrimFn f = P.prim;
  hc::Grid g0 = P.g;
  auto leaf = std::make_shared<mg::Model>();
  leaf->p = P.g.p;
  leaf->octs = P.leaves;
  leaf->index();
  E.prim = [src, f, a, mode, g0, leaf](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) {
    auto it = src->find(mg::key(o.level, o.c));
    if (it == src->end()) return Q{1, 1, 0, 0, 0, 0, 0, 0, 0};
    auto& s = it->second;
    mg::Oct oo{(uint32_t)s[0], {{(uint32_t)s[1], (uint32_t)s[2], (uint32_t)s[3]}}, 0};
    uint32_t ix[3] = {i, j, k};
    int part = (int)s[4];
    if (part == 0) return f(oo, i, j, k);
    ix[a] = g0.b[a] - 1 - ix[a];
    if (mode == 1)
    {
      Q q = f(oo, ix[0], ix[1], ix[2]);
      q[2 + a] = -q[2 + a];
      return q;
    }
    // the cell at the wall, same transverse position : only blocks at the wall are exact, others take any value
    uint32_t cnt = g0.p.count(a, oo.level);
    oo.c[a] = part == 1 ? 0 : cnt - 1;
    if (leaf->find(oo.level, oo.c) < 0) return Q{1, 1, 0, 0, 0, 0.1, 0.1, 0.1, 0};
    ix[a] = part == 1 ? 0 : g0.b[a] - 1;
    return f(oo, ix[0], ix[1], ix[2]);
  };
  // GLM reads the finest cell size from level_max : keep physical values equal
  describe(c, P, st);
  c.desc << "; " << what << " along axis " << a;
  if (P.s.kind == GLM) { c.label("skipped GLM"); return; }
  P.dt = std::min(P.dt, 0.45 * stable_dt(E));
  E.dt = P.dt;
  int steps = mode == 1 && !P.s.hancock ? (int)c.draw(1, 2) : 1;
  Result A = run(c, P, steps);
  Result B = run(c, E, steps);
  c.sync();
  if (A.floored) { c.label("floored (skipped)"); return; }
  static const char* fn[] = {"rho", "e_tot", "rho_vx", "rho_vy", "rho_vz", "Bx", "By", "Bz", "psi"};
  double big = 0;
  for (int n = 0; n < A.nf; n++) big = std::max(big, A.scale(n));
  for (size_t o = 0; o < A.octs.size(); o++)
  {
    mg::C3 t = A.octs[o].c;
    t[a] += off * P.g.p.count(a, A.octs[o].level);
    long q = B.find(A.octs[o].level + dl, t);
    PBT_CHECK(c, q >= 0, "extended mesh misses " << mg::str(A.octs[o]));
    if (q < 0) break;
    for (int n = 0; n < A.nf; n++)
      hc::each_cell(P.g, [&](uint32_t i, uint32_t j, uint32_t k) {
        // second order in all axes together : the ghost cell beyond a wall and beside the block is a known finding (C15_corner)
        if (P.s.hancock && (wall_and_interface(P, A.octs[o], i, j, k) || wall_and_interface(E, B.octs[q], i, j, k))) return;
        double x = A.at(o, n, A.cell(i, j, k)), y = B.at(q, n, B.cell(i, j, k));
        PBT_CHECK(c, std::fabs(x - y) <= 2e-11 * big, P.s.id << " " << what << " along axis " << a << ": " << fn[n] << " of cell (" << i << "," << j << "," << k << ") of " << mg::str(A.octs[o]) << " is " << x << ", in the extended domain it is " << y);
      });
  }
  c.label(what);
  c.nontrivial = true;
  if (A.level_jump) c.label(what + " with level jumps");
}

namespace {
struct Totals { long double v[9] = {}, a[9] = {}; };
Totals totals(const Problem& P, const Result& R, bool before)
{
  Totals T;
  for (size_t o = 0; o < R.octs.size(); o++)
  {
    double w = hc::cell_volume(P.g, R.octs[o]);
    for (int f = 0; f < R.nf; f++)
      for (size_t q = 0; q < R.cells; q++)
      {
        double x = before ? R.at0(o, f, q) : R.at(o, f, q);
        T.v[f] += (long double)x * w;
        T.a[f] += std::fabs((long double)x) * w;
      }
  }
  return T;
}
double kinetic(const Result& R, size_t o, size_t q)
{
  double s = 0;
  for (int f = 2; f < 5; f++) s += R.at(o, f, q) * R.at(o, f, q);
  return 0.5 * s / R.at(o, 0, q);
}
} // namespace

// C27 gravity acting on the gas
void C27(Case& c)
{
  static const char* fn[] = {"rho", "e_tot", "rho_vx", "rho_vy", "rho_vz", "Bx", "By", "Bz", "psi"};
  static const char* mn[] = {"momentum budget", "source of one step", "free fall", "hydrostatic balance", "closed box"};
  Problem P;
  auto all = schemes();
  int mode = (int)c.draw(0, 4);
  if (mode >= 3) P.s = all[(size_t)c.pick<int>({0, 2})];
  else P.s = c.pick(all);
  bool legacy = P.s.id == "HydroUpdate_legacy", rk = P.s.id.find("RK2") != std::string::npos, euler = P.s.id.find("_euler") != std::string::npos;
  bool wb = mode == 3 || (mode == 4 && c.coin(2, 3));
  gen_problem_mesh(c, P, P.s.hancock || mode == 3 || (mode == 4 && c.coin()), mode == 4 ? 60 : 40, mode < 3);
  int dim = P.g.p.dim;
  std::string st = gen_state(c, P, mode == 2 ? 0 : -1);
  // the acceleration
  bool field = mode < 3 && c.coin();
  std::array<double, 3> g;
  for (int a = 0; a < 3; a++) g[a] = c.coin(1, 4) ? 0. : c.real(-2, 2, 40);
  bool vary = mode == 1 && field && c.coin(2, 3);
  uint64_t gs = c.salt();
  auto gfun = [g, vary, gs](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) {
    std::array<double, 3> r = g;
    if (vary) for (int a = 0; a < 3; a++) r[a] += pbt::u01(pbt::hash_combine(gs + a, hc::cell_hash("g", o, i, j, k))) * 2 - 1;
    return r;
  };
  P.extra["gravity"]["gravity_type"] = field ? c.pick<std::string>({"field", "constant_field"}) : "constant_scalar";
  const char* ax = "xyz";
  for (int a = 0; a < 3; a++) P.extra["gravity"][std::string("g") + ax[a]] = hc::num(field ? 7.5 : g[a]);
  if (wb) P.extra["hydro"]["well_balanced"] = "yes";
  if (field) P.grav = gfun;
  P.dt = gen_cfl(c) * stable_dt(P);
  if (mode == 1 && (rk || legacy || (euler && !field))) P.dt *= 1e-5;
  int steps = mode == 1 ? 1 : (int)c.draw(1, 3);
  auto closed = [&](int a) {
    P.g.p.per[a] = false;
    for (int s = 0; s < 2; s++) P.bc[a][s] = wb ? c.pick<std::string>({"reflecting", "absorbing"}) : "reflecting";
  };
  if (mode >= 3)
  {
    // gravity needs a floor : sides are closed along every axis with an acceleration
    for (int a = 0; a < dim; a++)
    {
      if (g[a] != 0 || !P.g.p.per[a]) closed(a);
    }
    P.s.riemann = "hllc";
  }
  if (mode == 3)
  {
    int one = (int)c.draw(0, dim);
    bool layered = one < dim;
    if (one < dim) for (int a = 0; a < 3; a++) if (a != one) { g[a] = 0; P.extra["gravity"][std::string("g") + ax[a]] = "0"; }
    hc::Grid G = P.g;
    double rho0 = c.real(0.2, 3, 30), p0 = c.real(0.5, 5, 30), L = 0;
    for (int a = 0; a < dim; a++) L += std::fabs(g[a]) * G.L(a);
    uint64_t salt = c.salt();
    uint32_t n = layered ? P.g.p.count(one, P.g.p.lmin) * P.g.b[one] : 0;
    std::vector<double> rho(n), pr(n);
    if (layered)
    {
      double h = G.L(one) / n;
      for (uint32_t i = 0; i < n; i++) rho[i] = rho0 * (0.5 + pbt::u01(pbt::hash_combine(salt, i)));
      for (uint32_t i = 1; i < n; i++) pr[i] = pr[i - 1] + 0.5 * h * g[one] * (rho[i - 1] + rho[i]);
      double lo = 1e300;
      for (double x : pr) lo = std::min(lo, x);
      for (double& x : pr) x += p0 - lo;
    }
    P.prim = [=](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) {
      Q q{};
      uint32_t ix[3] = {i, j, k};
      if (layered)
      {
        uint32_t z = o.c[one] * G.b[one] + ix[one];
        q[0] = rho[z];
        q[1] = pr[z];
        return q;
      }
      auto x = hc::cell_center(G, o, i, j, k);
      q[0] = rho0;
      q[1] = p0 + rho0 * L;
      for (int a = 0; a < dim; a++) q[1] += rho0 * g[a] * (x[a] - 0.5 * (G.lo[a] + G.hi[a]));
      return q;
    };
    st = layered ? "layered" : "hydrostatic";
    P.dt = gen_cfl(c) * stable_dt(P);
    steps = (int)c.draw(1, 5);
  }
  describe(c, P, st);
  c.desc << " gravity " << P.extra["gravity"]["gravity_type"] << " " << g[0] << "," << g[1] << "," << g[2] << (vary ? " varying " : " ") << mn[mode] << (wb ? " well balanced" : "");
  c.label(mn[mode]);
  bool any = false;
  for (int a = 0; a < dim; a++) any = any || g[a] != 0;
  Result R = run(c, P, steps);
  if (R.floored) { c.label("floored (skipped)"); return; }
  c.nontrivial = any || vary;
  if (R.level_jump) c.label("level jumps");
  Totals T0 = totals(P, R, true), T1 = totals(P, R, false);
  long double e = T0.a[1] + T1.a[1];
  if (mode != 3 || wb)
  {
    PBT_CHECK(c, std::fabs((double)(T1.v[0] - T0.v[0])) <= 1e-12 * (double)(T0.v[0] + e), P.s.id << ": mass went from " << (double)T0.v[0] << " to " << (double)T1.v[0] << " under gravity");
  }
  if (mode == 0)
  {
    for (int a = 0; a < dim; a++)
    {
      long double want = (long double)steps * P.dt * g[a] * T0.v[0], tol = 1e-12 * (e + T0.a[2 + a] + std::fabs(want));
      PBT_CHECK(c, std::fabs((double)(T1.v[2 + a] - T0.v[2 + a] - want)) <= (double)tol,
                P.s.id << ": total momentum along " << ax[a] << " changed by " << (double)(T1.v[2 + a] - T0.v[2 + a]) << ", mass times acceleration times time is " << (double)want);
    }
  }
  if (mode == 1)
  {
    Problem N = P;
    N.extra.erase("gravity");
    N.grav = nullptr;
    Result Z = run(c, N, 1);
    c.sync();
    bool exact = !(rk || legacy || (euler && !field));
    double big = 0;
    for (int f = 0; f < R.nf; f++) big = std::max(big, R.scale(f));
    for (size_t o = 0; o < R.octs.size(); o++)
    {
      long z = Z.find(R.octs[o].level, R.octs[o].c);
      if (z < 0) { PBT_CHECK(c, false, "block missing"); return; }
      hc::each_cell(P.g, [&](uint32_t i, uint32_t j, uint32_t k) {
        size_t q = R.cell(i, j, k);
        auto gg = gfun(R.octs[o], i, j, k);
        double r0 = R.at0(o, 0, q), r1 = R.at(o, 0, q), gn = std::fabs(gg[0]) + std::fabs(gg[1]) + std::fabs(gg[2]) + 1;
        double eps = exact ? 1e-12 * big : 1e-12 * big + 1e-3 * P.dt * big * gn;
        for (int f = 0; f < R.nf; f++)
        {
          double d = R.at(o, f, q) - Z.at(z, f, q), want = 0;
          if (f == 1)
          {
            // the internal energy of a cell is not changed by gravity
            if (!exact && !(st == "uniform") && !(field && !rk && !legacy)) continue;
            want = exact ? kinetic(R, o, q) - kinetic(Z, z, q) : 0;
            if (!exact) for (int a = 0; a < dim; a++) want += P.dt * gg[a] * R.at0(o, 2 + a, q);
          }
          if (f >= 2 && f < 2 + dim) want = P.dt * gg[f - 2] * (exact ? 0.5 * (r0 + r1) : r0);
          PBT_CHECK(c, std::fabs(d - want) <= eps, P.s.id << ": gravity changed " << fn[f] << " of cell (" << i << "," << j << "," << k << ") of " << mg::str(R.octs[o]) << " by " << d << ", expected " << want << " (dt " << P.dt << ", acceleration " << gg[0] << "," << gg[1] << "," << gg[2] << ", density " << r0 << " to " << r1 << ")");
        }
      });
    }
  }
  if (mode == 2)
  {
    double big = 0, g2 = 0;
    for (int f = 0; f < R.nf; f++) big = std::max(big, R.scale(f));
    for (int a = 0; a < dim; a++) g2 += g[a] * g[a];
    for (size_t o = 0; o < R.octs.size(); o++)
      for (size_t q = 0; q < R.cells; q++)
      {
        double r = R.at0(o, 0, q);
        PBT_CHECK(c, std::fabs(R.at(o, 0, q) - r) <= 1e-12 * big, P.s.id << ": density of freely falling gas went from " << r << " to " << R.at(o, 0, q));
        double k0 = 0, k1 = 0;
        for (int a = 0; a < dim; a++)
        {
          double want = R.at0(o, 2 + a, q) + steps * P.dt * g[a] * r;
          PBT_CHECK(c, std::fabs(R.at(o, 2 + a, q) - want) <= 1e-11 * (big + std::fabs(want)), P.s.id << ": momentum along " << ax[a] << " of freely falling gas is " << R.at(o, 2 + a, q) << ", expected " << want);
          k0 += 0.5 * R.at0(o, 2 + a, q) * R.at0(o, 2 + a, q) / r;
          k1 += 0.5 * want * want / r;
        }
        double d = (R.at(o, 1, q) - k1) - (R.at0(o, 1, q) - k0), lim = (euler && !field) || (rk && field) ? 0.5 * steps * P.dt * P.dt * r * g2 * (1 + 1e-9) : 0;
        PBT_CHECK(c, std::fabs(d) <= lim + 1e-11 * (big + k1), P.s.id << ": the internal energy of freely falling gas changed by " << d << ", allowed " << lim);
      }
  }
  if (mode == 3)
  {
    double big = 0, cs = 0;
    for (int f = 0; f < R.nf; f++) big = std::max(big, R.scale(f));
    (void)cs;
    for (size_t o = 0; o < R.octs.size(); o++)
      for (int f = 0; f < R.nf; f++)
        for (size_t q = 0; q < R.cells; q++)
          PBT_CHECK(c, std::fabs(R.at(o, f, q) - R.at0(o, f, q)) <= 1e-11 * big, P.s.id << ": hydrostatic balance broken: " << fn[f] << " of cell " << q << " of " << mg::str(R.octs[o]) << " went from " << R.at0(o, f, q) << " to " << R.at(o, f, q));
  }
  if (mode == 4 && !R.level_jump)
  {
    // gas energy (where levels change, mass also moves sideways between cell centres, which no scheme here counts) and energy in the gravity field
    long double w0 = T0.v[1], w1 = T1.v[1], sc = e;
    for (size_t o = 0; o < R.octs.size(); o++)
      hc::each_cell(P.g, [&](uint32_t i, uint32_t j, uint32_t k) {
        auto x = hc::cell_center(P.g, R.octs[o], i, j, k);
        size_t q = R.cell(i, j, k);
        double phi = 0, v = hc::cell_volume(P.g, R.octs[o]);
        for (int a = 0; a < dim; a++) phi -= g[a] * (x[a] - P.g.lo[a]);
        w0 += (long double)R.at0(o, 0, q) * phi * v;
        w1 += (long double)R.at(o, 0, q) * phi * v;
        sc += std::fabs((long double)R.at(o, 0, q) * phi * v);
      });
    PBT_CHECK(c, std::fabs((double)(w1 - w0)) <= 1e-11 * (double)sc, P.s.id << ": energy of the gas plus its energy in the gravity field went from " << (double)w0 << " to " << (double)w1 << " in a closed box");
  }
}

void C13(Case& c);
void C14(Case& c);
void C13_floor(Case& c);
int main(int argc, char** argv)
{
  return pbt_main(argc, argv, {{"C10", C10}, {"C11", C11}, {"C13", C13}, {"C14", C14}, {"C15", C15}, {"C13_floor", C13_floor}, {"C27", C27}, {"C11_glm", C11_glm}, {"C15_corner", C15_corner}});
}
