// C26 initial conditions
#include "common.h"
#include "subcomm.h"
#include "utils/monitoring/Timers.h"
#include "init/InitialConditions.h"
#include "main.h"
#include <filesystem>
using namespace dyablo;
using pbt::Case;
namespace fs = std::filesystem;

namespace {
typedef std::array<double, 3> P3;
struct Val
{
  double rho = 0, p = 0, u = 0, v = 0, w = 0, B[3] = {0, 0, 0};
};
struct Problem
{
  std::string id;
  int dim;
  double gamma, err_max;
  bool mhd = false, glm = false;
  std::function<Val(const P3&)> f;                             // primitive values at a point
  std::function<bool(const P3&, const P3&)> geom;              // own geometric criterion (centre, size)
  std::function<double(const P3&)> p_amp, v_amp; // largest relative change of the pressure / vertical velocity drawn at random
  std::function<bool(const P3&)> tie = [](const P3&) { return false; }; // value ambiguous within rounding
};
bool near(double a, double b) { return std::fabs(a - b) < 1e-10 * (1 + std::fabs(a) + std::fabs(b)); }
double energy(const Problem& q, const Val& s)
{
  return s.p / (q.gamma - 1) + 0.5 * s.rho * (s.u * s.u + s.v * s.v + s.w * s.w) + 0.5 * (s.B[0] * s.B[0] + s.B[1] * s.B[1] + s.B[2] * s.B[2]);
}
// 1 refine, 0 keep, -1 cannot be decided within rounding
int criterion(const Problem& q, const P3& x, const P3& s)
{
  if (q.geom) return q.geom(x, s);
  double err = 0;
  if (q.tie(x)) return -1;
  Val c = q.f(x);
  for (int d = 0; d < 3; d++)
  {
    P3 l = x, r = x;
    l[d] -= s[d];
    r[d] += s[d];
    if (q.tie(l) || q.tie(r)) return -1;
    Val vl = q.f(l), vr = q.f(r);
    auto e = [](double a, double b, double cc) {
      double fr = cc - b, fl = a - b;
      return std::fabs(fr + fl) / (std::fabs(fr) + std::fabs(fl) + 0.01 * (std::fabs(cc) + std::fabs(a) + 2 * std::fabs(b)) + 2.220446049250313e-16);
    };
    err = std::max({err, e(vl.rho, c.rho, vr.rho), e(vl.p, c.p, vr.p)});
  }
  if (std::fabs(err - q.err_max) < 1e-8) return -1;
  return err > q.err_max;
}
double odd(Case& c, double lo, double hi) { return c.real(lo, hi, 200) + 0.000123457; }

Problem gen_problem(Case& c, const hc::Grid& g, hc::Ini& ini)
{
  Problem q;
  int dim = g.p.dim;
  q.dim = dim;
  q.gamma = c.pick<double>({1.4, 1.6666666666666667, 1.1});
  ini["hydro"]["gamma0"] = hc::num(q.gamma);
  q.err_max = c.pick<double>({0.8, 0.5, 0.31, 0.1});
  ini["amr"]["error_max"] = hc::num(q.err_max);
  ini["amr"]["epsilon_coarsen"] = hc::num(q.err_max);
  std::vector<std::string> ids = {"blast", "sod", "MHD_blast", "MHD_blast_glm", "rayleigh_taylor", "riemann2d", "C91", "tri_layer"};
  if (dim == 2) for (auto s : {"implode", "kelvin_helmholtz", "orszag_tang", "orszag_tang_glm", "MHD_rotor", "MHD_rotor_glm", "riemann2d"}) ids.push_back(s);
  q.id = c.pick(ids);
  auto set = [&](const std::string& sec, const std::string& k, double dflt, double lo, double hi) {
    if (c.coin(1, 3)) return dflt;
    double v = odd(c, lo, hi);
    ini[sec][k] = hc::num(v);
    return v;
  };
  auto at = [&](int a, double f) { return g.lo[a] + f * g.L(a); };
  if (q.id.find("_glm") != std::string::npos) q.glm = true;
  q.mhd = q.glm || q.id.find("MHD") == 0 || q.id == "orszag_tang";
  if (q.id == "blast" || q.id.find("MHD_blast") == 0)
  {
    double R = set("blast", "radius", 0.1, 0.05, 0.45);
    double cen[3] = {set("blast", "center_x", 0.5, 0.3, 0.7), set("blast", "center_y", 0.5, 0.3, 0.7), set("blast", "center_z", 0.5, 0.3, 0.7)};
    double di = set("blast", "density_in", 1.0, 0.1, 3), dout = set("blast", "density_out", q.mhd ? 1.0 : 1.2, 0.1, 3);
    double pi = set("blast", "pressure_in", 10, 0.1, 20), po = set("blast", "pressure_out", 0.1, 0.1, 2);
    int n[3] = {1, 1, 1};
    for (int a = 0; a < dim; a++)
      if (c.coin(1, 3)) { n[a] = (int)c.draw(1, 3); ini["blast"][std::string("blast_n") + "xyz"[a]] = std::to_string(n[a]); }
    double B = 3.54491, al = 0.785398;
    if (q.mhd) { B = set("blast", "blast_B", B, 0, 5); al = set("blast", "blast_alpha", al, -3, 3); }
    double qs = 1. / std::max({n[0], n[1], n[2]});
    double rad = R * qs;
    std::array<double, 3> cc = {cen[0], cen[1], cen[2]};
    std::array<int, 3> nn = {n[0], n[1], n[2]};
    auto r2 = [=](const P3& x) {
      double r = 0;
      for (int a = 0; a < dim; a++)
      {
        double d = x[a] - (std::trunc(x[a] * nn[a]) + cc[a]) / nn[a];
        r += d * d;
      }
      return r;
    };
    // a point on the border between two quadrants is ambiguous
    q.tie = [=](const P3& x) {
      for (int a = 0; a < dim; a++) if (nn[a] > 1 || x[a] > 0.9)
        if (near(x[a] * nn[a], std::round(x[a] * nn[a]))) return true;
      return near(r2(x), rad * rad);
    };
    bool mhd = q.mhd;
    q.f = [=](const P3& x) {
      Val s;
      bool in = r2(x) < rad * rad;
      s.rho = in ? di : dout;
      s.p = in ? pi : po;
      if (mhd) { s.B[0] = B * std::cos(al); s.B[1] = B * std::sin(al); }
      return s;
    };
  }
  else if (q.id == "sod")
  {
    double x0 = set("sod", "x0", 0.5, at(0, 0.1), at(0, 0.9)), pL = set("sod", "pL", 1, 0.1, 3), pR = set("sod", "pR", 0.1, 0.1, 3), rL = set("sod", "rhoL", 1, 0.1, 3), rR = set("sod", "rhoR", 0.125, 0.1, 3);
    q.tie = [=](const P3& x) { return near(x[0], x0); };
    q.f = [=](const P3& x) { Val s; s.rho = x[0] < x0 ? rL : rR; s.p = x[0] < x0 ? pL : pR; return s; };
    q.geom = [=](const P3& x, const P3& s) { return std::fabs(x[0] - x0) < 1.1 * s[0]; };
  }
  else if (q.id == "rayleigh_taylor")
  {
    int va = dim - 1;
    double z0 = set("RT", "z0", 0, at(va, 0.2), at(va, 0.8)), rt = set("RT", "rho_top", 2, 1, 4), rb = set("RT", "rho_bot", 1, 0.3, 2), P0 = 2.5, A = set("RT", "amplitude", 0.01, 0.01, 0.3);
    double gz = -0.1;
    if (c.coin()) { gz = -odd(c, 0.01, 0.2); ini["gravity"][dim == 2 ? "gy" : "gz"] = hc::num(gz); }
    P0 = 2.5 + 100 * 4 * 0.3; // keeps the pressure positive in every box
    ini["RT"]["P0"] = hc::num(P0);
    bool multi = c.coin(1, 4);
    if (multi)
    {
      ini["RT"]["multi_mode"] = "true";
      ini["RT"]["seed"] = std::to_string(c.draw(1, 1000));
      q.v_amp = [=](const P3& x) { return A * (1 + std::cos(2 * M_PI * x[va])) / 4; };
    }
    q.tie = [=](const P3& x) { return near(x[va], z0); };
    q.f = [=](const P3& x) {
      Val s;
      double z = x[va];
      s.rho = z > z0 ? rt : rb;
      s.p = P0 + s.rho * gz * z;
      double vz = A * (1 + std::cos(4 * M_PI * x[0])) * (1 + std::cos(2 * M_PI * z)) / 4;
      if (dim == 3) vz *= 1 + std::cos(4 * M_PI * x[1]);
      (dim == 2 ? s.v : s.w) = vz;
      return s;
    };
  }
  else if (q.id == "C91" || q.id == "tri_layer")
  {
    // layers of constant polytropic index and temperature gradient, hydrostatic ; depth is the last coordinate
    int va = dim - 1;
    double r0 = set(q.id, "rho0", 10, 1, 20), T0 = set(q.id, "T0", 10, 5, 20);
    bool tri = q.id == "tri_layer";
    double z1 = 0, z2 = 1e9, th1, th2 = 0, m1, m2 = 1, amp = 1e-3;
    if (tri)
    {
      z1 = set(q.id, "z1", 1, at(va, 0.1), at(va, 0.5)), z2 = set(q.id, "z2", 1, at(va, 0.5) + 0.01, at(va, 0.9));
      if (z1 > z2) { z1 = 0.3; z2 = 0.7; ini[q.id]["z1"] = "0.3"; ini[q.id]["z2"] = "0.7"; }
      th1 = set(q.id, "theta1", 1, 0, 8), th2 = set(q.id, "theta2", 1, 0, 3), m1 = set(q.id, "m1", 1, 0.5, 4), m2 = set(q.id, "m2", 1, 0.5, 4);
    }
    else th1 = set(q.id, "theta", 10, 0, 15), m1 = set(q.id, "mpoly", 1, 0.5, 4);
    // refinement of neighbouring cells outside of the box must keep a positive temperature
    if (T0 < 2 * std::max(th1, th2) * g.L(va)) { T0 = 2 * std::max(th1, th2) * g.L(va) + 1.3; ini[q.id]["T0"] = hc::num(T0); }
    int pk = (int)c.draw(0, 2);
    if (pk == 0) amp = 0;
    if (pk == 1) amp = odd(c, 0.001, 0.1);
    if (pk < 2) ini[q.id][tri ? "perturbation" : "pert_amplitude"] = hc::num(amp);
    if (c.coin()) ini[q.id]["seed"] = std::to_string(c.draw(1, 1000));
    q.f = [=](const P3& x) {
      Val s;
      double d = x[va];
      auto layer = [](double& r, double& p, double& T, double dz, double th, double m) {
        double Tn = T + th * dz;
        r *= std::pow(Tn / T, m);
        p *= std::pow(Tn / T, m + 1);
        T = Tn;
      };
      double r = r0, T = T0, p = r0 * T0;
      if (!tri) layer(r, p, T, d, th1, m1);
      else
      {
        layer(r, p, T, std::min(d, z1), th2, m2);
        if (d > z1) layer(r, p, T, std::min(d, z2) - z1, th1, m1);
        if (d > z2) layer(r, p, T, d - z2, th2, m2);
      }
      s.rho = r;
      s.p = p;
      return s;
    };
    q.tie = [=](const P3& x) { return amp > 0 && (tri ? near(x[va], z1) || near(x[va], z2) : near(x[va], 0.1) || near(x[va], 0.9)); };
    if (amp > 0) q.p_amp = [=](const P3& x) { return tri ? (x[va] > z1 && x[va] < z2 ? amp / 2 : 0) : (x[va] < 0.1 || x[va] > 0.9 ? 0 : amp); };
  }
  else if (q.id == "implode")
  {
    double x0 = set("implode", "x0", 0.25, -0.3, 0.5), pi = set("implode", "p_in", 0.14, 0.1, 2), po = set("implode", "p_out", 1, 0.1, 2), ri = set("implode", "rho_in", 0.125, 0.1, 2), ro = set("implode", "rho_out", 1, 0.1, 2);
    q.tie = [=](const P3& x) { return near(x[1], x[0] - x0); };
    q.f = [=](const P3& x) { Val s; bool in = x[1] < x[0] - x0; s.rho = in ? ri : ro; s.p = in ? pi : po; return s; };
  }
  else if (q.id == "kelvin_helmholtz")
  {
    double rf = set("KH", "rho_fac", 0, -0.5, 3), z1 = set("KH", "z1", 0.5, 0.1, 0.7), z2 = set("KH", "z2", 1.5, 0.8, 1.8), a = odd(c, 0.02, 0.3), A = a, sg = set("KH", "sigma", 0.2, 0.05, 0.5),
           P0 = set("KH", "P0", 1, 0.3, 4), uf = set("KH", "uflow", 1, -2, 2);
    // keys do not depend on case, so A and a can not differ (known finding C26_kh)
    ini["KH"]["a"] = ini["KH"]["A"] = hc::num(a);
    q.f = [=](const P3& x) {
      Val s;
      double t1 = std::tanh((x[1] - z1) / a), t2 = std::tanh((x[1] - z2) / a);
      s.rho = 1 + 0.5 * rf * (t1 - t2);
      s.u = uf * (t1 - t2 - 1);
      auto gs = [&](double z) { return std::exp(-(x[1] - z) * (x[1] - z) / (sg * sg)); };
      s.v = A * std::sin(2 * M_PI * x[0]) * (gs(z1) + gs(z2));
      s.p = P0;
      return s;
    };
  }
  else if (q.id.find("orszag_tang") == 0)
  {
    q.f = [=](const P3& x) {
      Val s;
      s.rho = 25 / (36 * M_PI);
      s.p = 5 / (12 * M_PI);
      s.u = -std::sin(2 * M_PI * x[1]);
      s.v = std::sin(2 * M_PI * x[0]);
      s.B[0] = -std::sin(2 * M_PI * x[1]) / std::sqrt(4 * M_PI);
      s.B[1] = std::sin(4 * M_PI * x[0]) / std::sqrt(4 * M_PI);
      return s;
    };
  }
  else if (q.id.find("MHD_rotor") == 0)
  {
    double mx = at(0, 0.5), my = at(1, 0.5);
    q.f = [=](const P3& x) {
      Val s;
      double dx = x[0] - mx, dy = x[1] - my, r = std::sqrt(dx * dx + dy * dy);
      double f = r < 0.1 ? 1 : r > 0.115 ? 0 : (0.115 - r) / (0.115 - 0.1);
      s.rho = 1 + 9 * f;
      s.p = 1;
      // rigid rotation of speed u0 = 2 at r0 = 0.1
      s.u = f * 20 * dy;
      s.v = -f * 20 * dx;
      s.B[0] = 5 / std::sqrt(4 * M_PI);
      return s;
    };
  }
  else // riemann2d
  {
    // Lax & Liu 1998 ; order of the states : lower left, lower right, upper left, upper right ; rho p u v
    static const double T[19][4][4] = {
      {{.1072, .0439, -.7259, -1.4045}, {.2579, .15, 0, -1.4045}, {.5197, .4, -.7259, 0}, {1, 1, 0, 0}},
      {{1, 1, -.7259, -.7259}, {.5197, .4, 0, -.7259}, {.5197, .4, -.7259, 0}, {1, 1, 0, 0}},
      {{.138, .029, 1.206, 1.206}, {.5323, .3, 0, 1.206}, {.5323, .3, 1.206, 0}, {1.5, 1.5, 0, 0}},
      {{1.1, 1.1, .8939, .8939}, {.5065, .35, 0, .8939}, {.5065, .35, .8939, 0}, {1.1, 1.1, 0, 0}},
      {{1, 1, .75, .5}, {3, 1, .75, -.5}, {2, 1, -.75, .5}, {1, 1, -.75, -.5}},
      {{1, 1, -.75, .5}, {3, 1, -.75, -.5}, {2, 1, .75, .5}, {1, 1, .75, -.5}},
      {{.8, .4, .1, .1}, {.5197, .4, .1, -.6259}, {.5197, .4, -.6259, .1}, {1, 1, .1, .1}},
      {{.8, 1, .1, .1}, {1, 1, .1, -.6259}, {1, 1, -.6259, .1}, {.5197, .4, .1, .1}},
      {{1.039, .4, 0, -.8133}, {.5197, .4, 0, -.4259}, {2, 1, 0, -.3}, {1, 1, 0, .3}},
      {{.2281, .3333, 0, -.6076}, {.4562, .3333, 0, -.4297}, {.5, 1, 0, .6076}, {1, 1, 0, .4297}},
      {{.8, .4, .1, 0}, {.5313, .4, .1, .7276}, {.5313, .4, .8276, 0}, {1, 1, .1, 0}},
      {{.8, 1, 0, 0}, {1, 1, 0, .7276}, {1, 1, .7276, 0}, {.5313, .4, 0, 0}},
      {{1.0625, .4, 0, .8145}, {.5313, .4, 0, .4276}, {2, 1, 0, .3}, {1, 1, 0, -.3}},
      {{.4736, 2.6667, 0, 1.2172}, {.9474, 2.6667, 0, 1.1606}, {1, 8, 0, -1.2172}, {2, 8, 0, -.5606}},
      {{.8, .4, .1, -.3}, {.5313, .4, .1, .4276}, {.5197, .4, -.6259, -.3}, {1, 1, .1, -.3}},
      {{.8, 1, .1, .1}, {1, 1, .1, .8276}, {1.0222, 1, -.6179, .1}, {.5313, .4, .1, .1}},
      {{1.0625, .4, 0, .2145}, {.5197, .4, 0, -1.1259}, {2, 1, 0, -.3}, {1, 1, 0, -.4}},
      {{1.0625, .4, 0, .2145}, {.5197, .4, 0, .2741}, {2, 1, 0, -.3}, {1, 1, 0, 1}},
      {{1.0625, .4, 0, .2145}, {.5197, .4, 0, -.4259}, {2, 1, 0, -.3}, {1, 1, 0, .3}}};
    int t = (int)c.draw(1, 19);
    if (t != 1 || c.coin()) ini["riemann2d"]["test_case"] = std::to_string(t);
    double x0 = set("riemann2d", "x0", 0.5, at(0, 0.1), at(0, 0.9)), y0 = set("riemann2d", "y0", 0.5, at(1, 0.1), at(1, 0.9));
    q.tie = [=](const P3& x) { return near(x[0], x0) || near(x[1], y0); };
    q.f = [=](const P3& x) {
      const double* r = T[t - 1][(x[0] >= x0) + 2 * (x[1] >= y0)];
      Val s;
      s.rho = r[0];
      s.p = r[1];
      s.u = r[2];
      s.v = r[3];
      return s;
    };
  }
  if (q.p_amp)
  {
    // the criterion would follow the random pressure : no refinement
    q.err_max = 2;
    ini["amr"]["error_max"] = "2";
    ini["amr"]["epsilon_coarsen"] = "2";
  }
  return q;
}
void gen_box(Case& c, hc::Grid& g)
{
  for (int a = 0; a < 3; a++)
  {
    int k = (int)c.draw(0, 3);
    static const double lo[4] = {0, 0, 0.3, 0.03125}, hi[4] = {1, 2, 1.7, 0.96875};
    g.lo[a] = lo[k];
    g.hi[a] = hi[k];
  }
}
struct Sim
{
  std::shared_ptr<AMRmesh> m;
  std::unique_ptr<ConfigMap> cfg;
  std::unique_ptr<ForeachCell> fc;
  std::unique_ptr<UserData> U;
  Timers timers;
  Sim(const hc::Grid& g, const hc::Ini& ini)
  {
    m = mg::make_mesh(g.p);
    cfg.reset(new ConfigMap(hc::to_text(ini)));
    fc.reset(new ForeachCell(*m, *cfg));
    U.reset(new UserData(*cfg, *fc));
  }
  void init(const std::string& id) { InitialConditionsFactory::make_instance(id, *cfg, *fc, timers)->init(*U); }
};
void analytical(Case& c)
{
  hc::Grid g;
  mg::GenOpt o;
  o.allow_tiny = pbt::mpi_size() == 1; // the initial conditions balance the load
  o.max_coarse2 = 4;
  o.max_coarse3 = 2;
  o.dim = c.coin(1, 3) ? 3 : 2;
  o.max_extra_levels = o.dim == 3 ? 2 : 3;
  g.p = mg::gen_params(c, o);
  hc::gen_geometry(c, g, false, true, 4);
  gen_box(c, g);
  hc::Ini ini = hc::base_ini(g);
  Problem q = gen_problem(c, g, ini);
  c.desc << q.id << " " << g.str() << " error_max " << q.err_max;
  c.label(q.id);
  mg::Model M;
  M.init(g.p);
  bool undecided = false;
  // level by level, blocks with a cell that asks for it are split (and the neighbours that balance requires)
  for (uint32_t l = g.p.lmin; l < g.p.lmax && !undecided; l++)
  {
    std::vector<int> mk(M.octs.size(), 0);
    for (size_t k = 0; k < M.octs.size() && !undecided; k++)
    {
      auto s = hc::cell_size(g, M.octs[k]);
      bool any = false, und = false;
      hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t kk) {
        int r = criterion(q, hc::cell_center(g, M.octs[k], i, j, kk), s);
        if (r > 0) any = true;
        if (r < 0) und = true;
      });
      if (und && !any) undecided = true;
      mk[k] = any;
    }
    if (!undecided) M.apply(M.close_markers(mk));
  }
  if (undecided) { c.label("undecided within rounding"); return; }
  Sim S(g, ini);
  S.init(q.id);
  std::vector<std::string> names = {"rho", "e_tot", "rho_vx", "rho_vy"};
  if (q.dim == 3) names.push_back("rho_vz");
  if (q.mhd) for (auto s : {"Bx", "By", "Bz"}) names.push_back(s);
  if (q.glm) names.push_back("psi");
  bool have = true;
  for (auto& n : names) have = have && S.U->has_field(n);
  PBT_CHECK(c, have, "a field of the problem was not created");
  c.sync();
  auto snap = hc::snapshot(g, *S.m, *S.U, names);
  c.nontrivial = M.levels() > 1 || q.p_amp || q.v_amp;
  long moved = 0, movable = 0;
  if (M.levels() > 1) c.label("several levels");
  PBT_CHECK(c, snap.octs.size() == M.octs.size(), "mesh has " << snap.octs.size() << " blocks, criterion asks for " << M.octs.size());
  if (snap.octs.size() != M.octs.size()) return;
  for (size_t k = 0; k < snap.octs.size(); k++)
  {
    PBT_CHECK(c, snap.octs[k] == M.octs[k], "block " << mg::str(snap.octs[k]) << " where the criterion gives " << mg::str(M.octs[k]));
    if (!(snap.octs[k] == M.octs[k])) return;
    size_t cell = 0, k0 = k;
    hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t kk) {
      P3 x = hc::cell_center(g, snap.octs[k], i, j, kk);
      size_t ce = cell++;
      if (q.tie(x)) return;
      Val s = q.f(x);
      if (q.v_amp && q.v_amp(x) > 1e-9)
      {
        int k = q.dim == 2 ? 3 : 4;
        double a = q.v_amp(x), v = snap.at(k0, (size_t)k, ce) / s.rho;
        PBT_CHECK(c, std::fabs(v) <= a * (1 + 1e-12), "random velocity " << v << " at " << x[0] << "," << x[1] << "," << x[2] << ", largest " << a);
        movable++;
        moved += std::fabs(v) > 1e-6 * a;
        (q.dim == 2 ? s.v : s.w) = v;
      }
      if (q.p_amp && q.p_amp(x) > 0)
      {
        double a = q.p_amp(x), pr = snap.at(k0, 1, ce) * (q.gamma - 1) / s.p - 1;
        PBT_CHECK(c, std::fabs(pr) <= a * (1 + 1e-9), "random pressure change " << pr << " at " << x[0] << "," << x[1] << "," << x[2] << ", largest " << a);
        movable++;
        moved += std::fabs(pr) > 1e-6 * a;
        s.p *= 1 + pr;
      }
      std::vector<double> e = {s.rho, energy(q, s), s.rho * s.u, s.rho * s.v};
      if (q.dim == 3) e.push_back(s.rho * s.w);
      if (q.mhd) for (double b : s.B) e.push_back(b);
      if (q.glm) e.push_back(0);
      for (size_t n = 0; n < names.size(); n++)
        PBT_CHECK(c, std::fabs(snap.at(k, n, ce) - e[n]) <= 1e-11 * (1 + std::fabs(e[n])), names[n] << " is " << snap.at(k, n, ce) << " at " << x[0] << "," << x[1] << "," << x[2] << ", formula gives " << e[n]);
    });
  }
  if (movable) c.label("random problem");
  PBT_CHECK(c, movable < 4 || moved > 0, "none of " << movable << " cells is perturbed");
}
std::vector<std::vector<double>> particles(const UserData& U, const std::string& name)
{
  std::vector<double> loc;
  auto arr = U.getParticleArray(name);
  auto acc = U.getParticleAccessor(name, {{"vx", 0}, {"vy", 1}, {"vz", 2}, {"mass", 3}});
  for (uint32_t i = 0; i < arr.getNumParticles(); i++)
  {
    for (int a = 0; a < 3; a++) loc.push_back(arr.pos(i, (ComponentIndex3D)a));
    for (int a = 0; a < 4; a++) loc.push_back(acc.at(i, a));
  }
  auto all = hc::gatherv(loc);
  std::vector<std::vector<double>> r;
  for (size_t k = 0; k < all.size(); k += 7) r.emplace_back(all.begin() + k, all.begin() + k + 7);
  return r;
}
void owners(Case& c, const hc::Grid& g, Sim& S, const std::string& name)
{
  // every particle lies in a block of the process that holds it
  auto arr = S.U->getParticleArray(name);
  for (uint32_t i = 0; i < arr.getNumParticles(); i++)
  {
    bool in = false;
    for (uint32_t o = 0; o < S.m->getNumOctants() && !in; o++)
    {
      mg::Oct q = mg::local_oct(g.p, *S.m, o);
      in = true;
      for (int a = 0; a < g.p.dim; a++)
      {
        double u = (arr.pos(i, (ComponentIndex3D)a) - g.lo[a]) / g.L(a) * g.p.count(a, q.level);
        if (u < q.c[a] - 1e-9 || u > q.c[a] + 1 + 1e-9) in = false;
      }
    }
    PBT_CHECK(c, in, "particle at " << arr.pos(i, IX) << "," << arr.pos(i, IY) << "," << arr.pos(i, IZ) << " is on a process that does not own its place");
  }
}
void simple_particles(Case& c)
{
  hc::Grid g;
  mg::GenOpt o;
  o.allow_tiny = pbt::mpi_size() == 1; // the initial conditions balance the load
  o.max_coarse2 = 4;
  o.max_coarse3 = 2;
  o.max_extra_levels = 1;
  g.p = mg::gen_params(c, o);
  hc::gen_geometry(c, g, false, false, 3);
  hc::Ini ini = hc::base_ini(g);
  int n = (int)c.pick<int>({1, 3, 7, 20, 2});
  bool say_n = n != 1 || c.coin();
  if (say_n) ini["simple_particles"]["npart"] = std::to_string(n);
  std::vector<std::vector<double>> want(n, std::vector<double>(7, 0.0));
  const char* keys[7] = {"px", "py", "pz", "vx", "vy", "vz", "mass"};
  uint64_t salt = c.salt();
  bool short_list = false;
  for (int k = 0; k < 7; k++)
  {
    // lists may be longer than the number of particles, or, for the attributes, shorter or absent
    int len = n + (int)c.pick<int>({0, 0, 0, 2, 5});
    if (k >= 3 && c.coin(1, 4)) { len = (int)c.draw(0, n); short_list = short_list || len < n; }
    if (len == 0) continue;
    std::string s;
    for (int i = 0; i < len; i++)
    {
      double u = pbt::u01(salt + 100 * k + i);
      double v = k < 3 ? (k == 2 && g.p.dim == 2 ? g.lo[2] : g.lo[k] + (0.001 + 0.998 * u) * g.L(k)) : 4 * u - 2;
      s += (i ? "," : "") + hc::num(v);
      if (i < n) want[i][k] = v;
    }
    ini["simple_particles"][keys[k]] = s;
  }
  c.desc << "simple_particles " << n << " " << g.str();
  c.label("simple_particles");
  if (short_list) c.label("list shorter than the number of particles");
  c.nontrivial = true;
  Sim S(g, ini);
  S.init(c.coin() ? "blast" : "sod");
  S.init("simple_particles");
  auto have = particles(*S.U, "particles");
  std::sort(have.begin(), have.end());
  std::sort(want.begin(), want.end());
  PBT_CHECK(c, have.size() == want.size(), have.size() << " particles, " << want.size() << " configured");
  for (size_t i = 0; i < have.size() && i < want.size(); i++)
    for (int k = 0; k < 7; k++) PBT_CHECK(c, have[i][k] == want[i][k], keys[k] << " of a particle is " << have[i][k] << ", configured " << want[i][k]);
  owners(c, g, S, "particles");
}
void particle_grid(Case& c)
{
  hc::Grid g;
  mg::GenOpt o;
  o.allow_tiny = pbt::mpi_size() == 1; // the initial conditions balance the load
  o.max_coarse2 = 4;
  o.max_coarse3 = 2;
  o.max_extra_levels = 2;
  g.p = mg::gen_params(c, o);
  for (int a = 0; a < g.p.dim; a++) g.p.per[a] = true;
  hc::gen_geometry(c, g, false, true, 3);
  gen_box(c, g);
  hc::Ini ini = hc::base_ini(g);
  uint32_t n[3];
  for (int a = 0; a < 3; a++)
  {
    n[a] = g.b[a] * g.p.coarse[a];
    if (a == 2 && g.p.dim == 2) n[a] = 1;
    if (c.coin()) { n[a] = a == 2 && g.p.dim == 2 ? 1 : (uint32_t)c.draw(1, 9); ini["particle_grid"][std::string("n") + "xyz"[a]] = std::to_string(n[a]); }
  }
  double mass = 1, dt = 0;
  std::string name = "particles";
  if (c.coin()) { mass = odd(c, 0.1, 5); ini["particle_grid"]["total_mass"] = hc::num(mass); }
  if (c.coin(2, 3)) { dt = odd(c, -0.3, 0.3); ini["particle_grid"]["dt_perturb"] = hc::num(dt); }
  if (c.coin(1, 3)) { name = "dm"; ini["particle_grid"]["particle_array_name"] = name; }
  bool cosmo = c.coin(1, 3);
  if (cosmo)
  {
    double a = odd(c, 0.01, 0.2), om = odd(c, 0.2, 0.4), ob = odd(c, 0.02, 0.08), ov = 1 - om;
    bool eds = c.coin(1, 3);
    if (eds) { om = 1; ov = 0; }
    ini["cosmology"] = {{"astart", hc::num(a)}, {"omegam", hc::num(om)}, {"omegab", hc::num(ob)}, {"omegav", hc::num(ov)}};
    if (!ini["particle_grid"].count("total_mass")) mass = 1 - ob / om;
    if (!ini["particle_grid"].count("dt_perturb"))
    {
      // linear growth : displacement = velocity / (2 f dlna/dt / sqrt(om)) , f = dlnD/dlna
      double eta2 = om / a + ov * a * a + 1 - om - ov, f = 1;
      if (!eds)
      {
        double sum = 0;
        int N = 1000;
        auto dd = [&](double x) { return x <= 0 ? 0. : 2.5 / std::pow(om / x + ov * x * x + 1 - om - ov, 1.5); };
        for (int i = 0; i < N; i++) sum += 0.5 * (dd(i * a / N) + dd((i + 1) * a / N)) * a / N;
        double D = std::sqrt(eta2) / a * sum;
        f = (2.5 / D - 1.5 * om / a - (1 - om - ov)) / eta2;
      }
      dt = 1 / (2 * f * a * std::sqrt(eta2) / std::sqrt(om));
    }
  }
  c.desc << "particle_grid " << n[0] << "x" << n[1] << "x" << n[2] << " dt " << dt << " " << g.str();
  c.label("particle_grid");
  Sim S(g, ini);
  // a problem gives the mesh, the velocities are then replaced
  S.init("sod");
  uint64_t salt = c.salt();
  double umax = dt != 0 ? std::min(2.0, 0.9 * std::min({g.L(0), g.L(1), g.p.dim == 3 ? g.L(2) : 1e9}) / std::fabs(dt)) : 2.0;
  bool still = c.coin(1, 6);
  std::vector<std::string> nm = {"rho", "rho_vx", "rho_vy", "rho_vz"};
  auto rho = [&](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) { return 0.2 + pbt::u01(pbt::hash_combine(salt, hc::cell_hash("rho", o, i, j, k))); };
  auto vel = [&](int a, const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) {
    return still || (a == 2 && g.p.dim == 2) ? 0.0 : umax * (2 * pbt::u01(pbt::hash_combine(salt + a + 1, hc::cell_hash("v", o, i, j, k))) - 1);
  };
  for (auto& s : nm) if (!S.U->has_field(s)) S.U->new_fields({s});
  hc::fill(g, *S.m, *S.U, "rho", rho);
  for (int a = 0; a < 3; a++) hc::fill(g, *S.m, *S.U, nm[a + 1], [&](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) { return rho(o, i, j, k) * vel(a, o, i, j, k); });
  S.init("particle_grid");
  auto have = particles(*S.U, name);
  size_t N = (size_t)n[0] * n[1] * n[2];
  c.nontrivial = N > 1 && dt != 0 && !still;
  PBT_CHECK(c, have.size() == N, have.size() << " particles, " << N << " configured");
  c.sync();
  mg::Model M;
  M.p = g.p;
  M.octs = mg::gather(g.p, *S.m);
  M.index();
  auto period = [&](int a, double d) { d = std::fabs(d); return std::min(d, std::fabs(g.L(a) - d)); };
  // every configured particle must be there once
  std::vector<char> used(N, 0);
  for (size_t q = 0; q < N; q++)
  {
    double x[3];
    uint32_t ix[3] = {(uint32_t)(q % n[0]), (uint32_t)(q / n[0] % n[1]), (uint32_t)(q / n[0] / n[1])};
    for (int a = 0; a < 3; a++) x[a] = g.lo[a] + (ix[a] + 0.5) * g.L(a) / n[a];
    // candidate cells (the place may be on a face)
    std::vector<std::array<double, 3>> cand;
    for (int sx = -1; sx <= 1; sx += 2)
      for (int sy = -1; sy <= 1; sy += 2)
        for (int sz = -1; sz <= 1; sz += 2)
        {
          int sg[3] = {sx, sy, sz};
          std::array<double, 3> u;
          for (int a = 0; a < 3; a++) u[a] = (x[a] - g.lo[a]) / g.L(a) + 1e-10 * sg[a];
          if (g.p.dim == 2) u[2] = 0;
          int k = M.locate(u);
          if (k < 0) continue;
          uint32_t ci[3];
          for (int a = 0; a < 3; a++) ci[a] = a == 2 && g.p.dim == 2 ? 0 : (uint32_t)std::min<double>(g.b[a] - 1, std::max(0.0, std::floor((u[a] * g.p.count(a, M.octs[k].level) - M.octs[k].c[a]) * g.b[a])));
          cand.push_back({vel(0, M.octs[k], ci[0], ci[1], ci[2]), vel(1, M.octs[k], ci[0], ci[1], ci[2]), vel(2, M.octs[k], ci[0], ci[1], ci[2])});
        }
    bool found = false;
    for (size_t h = 0; h < have.size() && !found; h++)
    {
      if (used[h]) continue;
      for (auto& v : cand)
      {
        bool ok = std::fabs(have[h][6] - mass / N) <= 1e-12 * mass;
        for (int a = 0; a < 3 && ok; a++)
        {
          ok = std::fabs(have[h][3 + a] - v[a]) <= 1e-12 * (1 + std::fabs(v[a]));
          double d = have[h][a] - (x[a] + v[a] * dt);
          ok = ok && period(a, std::fmod(d, g.L(a))) <= 1e-11 * (1 + g.L(a));
        }
        if (ok) { found = true; used[h] = 1; break; }
      }
    }
    PBT_CHECK(c, found, "no particle for grid place " << ix[0] << "," << ix[1] << "," << ix[2] << " at " << x[0] << "," << x[1] << "," << x[2] << " (moved by " << dt << ")");
  }
  for (auto& h : have)
    for (int a = 0; a < g.p.dim; a++) PBT_CHECK(c, h[a] >= g.lo[a] - 1e-12 && h[a] <= g.hi[a] + 1e-12, "particle outside of the box at " << h[a]);
  owners(c, g, S, name);
}
template <class T> void put(std::string& s, T v, bool swap)
{
  char b[sizeof(T)];
  memcpy(b, &v, sizeof(T));
  if (swap) std::reverse(b, b + sizeof(T));
  s.append(b, sizeof(T));
}
void grafic(Case& c)
{
  hc::Grid g;
  mg::GenOpt o;
  o.allow_tiny = pbt::mpi_size() == 1; // the initial conditions balance the load
  o.dim = 3;
  o.max_coarse3 = 2;
  o.max_extra_levels = 1;
  g.p = mg::gen_params(c, o);
  hc::gen_geometry(c, g, false, true, 3);
  int32_t n[3];
  for (int a = 0; a < 3; a++) n[a] = (int32_t)(g.p.coarse[a] * g.b[a]);
  float xo[3], dx = (float)odd(c, 0.1, 3), as = (float)odd(c, 0.01, 0.1), om = (float)odd(c, 0.2, 0.4), ov = 1 - om, H0 = (float)odd(c, 50, 80);
  for (int a = 0; a < 3; a++) { xo[a] = c.coin() ? 0.f : (float)c.pick<double>({0.25, -1, 3}); g.lo[a] = xo[a]; g.hi[a] = xo[a] + 1; }
  bool swap = c.coin(1, 3);
  uint64_t salt = c.salt();
  static int serial = 0;
  std::string dir = "grafic" + std::to_string(serial++);
  const char* files[4] = {"ic_deltab", "ic_velbx", "ic_velby", "ic_velbz"};
  auto val = [&](int f, int i, int j, int k) { return (float)((2 * pbt::u01(pbt::hash_combine(salt + f, ((uint64_t)i * 1000 + j) * 1000 + k)) - 1) * (f ? 300 : 0.9)); };
  if (pbt::mpi_rank() == 0)
  {
    fs::create_directory(dir);
    for (int f = 0; f < 4; f++)
    {
      std::string s;
      put<int32_t>(s, 44, swap);
      for (int a = 0; a < 3; a++) put<int32_t>(s, n[a], swap);
      put<float>(s, dx, swap);
      for (int a = 0; a < 3; a++) put<float>(s, xo[a], swap);
      for (float v : {as, om, ov, H0}) put<float>(s, v, swap);
      put<int32_t>(s, 44, swap);
      for (int k = 0; k < n[2]; k++)
      {
        put<int32_t>(s, 4 * n[0] * n[1], swap);
        for (int j = 0; j < n[1]; j++)
          for (int i = 0; i < n[0]; i++) put<float>(s, val(f, i, j, k), swap);
        put<int32_t>(s, 4 * n[0] * n[1], swap);
      }
      std::ofstream(dir + "/" + files[f], std::ios::binary) << s;
    }
  }
  MPI_Barrier(MPI_COMM_WORLD);
  hc::Ini ini = hc::base_ini(g);
  double gamma = c.pick<double>({1.4, 1.6666666666666667});
  ini["hydro"]["gamma0"] = hc::num(gamma);
  ini["grafic"]["inputDir"] = dir;
  double ob = 0.049;
  if (c.coin()) { ob = odd(c, 0.02, 0.08); ini["cosmology"]["omegab"] = hc::num(ob); }
  double mcf = 0.1, mrf = 1;
  if (c.coin()) { mcf = odd(c, 0.01, 0.5); mrf = odd(c, 0.6, 9); ini["cosmology"]["mass_coarsen_factor"] = hc::num(mcf); ini["cosmology"]["mass_refine_factor"] = hc::num(mrf); }
  c.desc << "grafic " << n[0] << "x" << n[1] << "x" << n[2] << (swap ? " swapped " : " ") << g.str();
  c.label("grafic_fields");
  if (swap) c.label("other byte order");
  c.nontrivial = true;
  Sim S(g, ini);
  S.init("grafic_fields");
  double N = (double)n[0] * n[1] * n[2];
  auto close = [](double a, double b, double t) { return std::fabs(a - b) <= t * (std::fabs(a) + std::fabs(b)) + 1e-300; };
  auto get = [&](const char* s, const char* k) { return S.cfg->getValue<real_t>(s, k, -12345); };
  PBT_CHECK(c, close(get("amr", "mass_refine"), mrf / N, 1e-6), "mass_refine " << get("amr", "mass_refine") << " wanted " << mrf / N);
  PBT_CHECK(c, close(get("amr", "mass_coarsen"), mcf / N, 1e-6), "mass_coarsen " << get("amr", "mass_coarsen") << " wanted " << mcf / N);
  PBT_CHECK(c, close(get("cosmology", "astart"), as, 1e-6) && close(get("cosmology", "omegam"), om, 1e-6) && close(get("cosmology", "omegav"), ov, 1e-6), "cosmology parameters do not come from the file");
  const double Mpc = 3.085677e22, G = 6.67384e-11, kB = 1.3806e-23, mp = 1.67262158e-27;
  double H = H0 * 1e3 / Mpc;
  PBT_CHECK(c, close(get("cosmology", "H0"), H, 1e-6), "H0 " << get("cosmology", "H0") << " wanted " << H);
  PBT_CHECK(c, close(get("cosmology", "dx"), dx * Mpc, 1e-6), "dx " << get("cosmology", "dx") << " wanted " << dx * Mpc);
  double rhoc = 3 * H * H / (8 * M_PI * G), L = n[0] * (double)dx * Mpc, T = 2 / H / std::sqrt((double)om), V = L / T, P = rhoc * om * V * V;
  double Y = 0.24, yHe = Y / (1 - Y) / 4.002, temp = 317.5 * std::pow((1. / as - 1) / 151., 2), smallp = 1e-20 / gamma;
  std::vector<std::string> nm = {"rho", "e_tot", "rho_vx", "rho_vy", "rho_vz"};
  for (uint32_t q = 0; q < S.m->getNumOctants(); q++)
  {
    mg::Oct o = mg::local_oct(g.p, *S.m, q);
    auto acc = hc::accessor(*S.U, nm);
    hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
      int I = o.c[0] * g.b[0] + i, J = o.c[1] * g.b[1] + j, K = o.c[2] * g.b[2] + k;
      double rho = (1 + (double)val(0, I, J, K)) * ob / om, e[5] = {rho, 0, 0, 0, 0}, k2 = 0;
      for (int a = 0; a < 3; a++) { double u = val(a + 1, I, J, K) * 1e3 * as / V; e[2 + a] = rho * u; k2 += u * u; }
      double pb = (gamma - 1) * 1.5 * ((1 + (double)val(0, I, J, K)) * ob * rhoc / std::pow(as, 3) * (1 - Y) / mp * (1 + yHe)) * kB * temp;
      e[1] = 0.5 * rho * k2 + std::max(pb / P * std::pow(as, 5), smallp) / (gamma - 1);
      for (int f = 0; f < 5; f++)
      {
        double v = acc.at_ivar(hc::make_cell(g, q, false, i, j, k), f);
        PBT_CHECK(c, std::fabs(v - e[f]) <= 2e-6 * std::fabs(e[f]), nm[f] << " is " << v << " in cell " << I << "," << J << "," << K << ", file gives " << e[f]);
      }
    });
  }
  c.sync();
  MPI_Barrier(MPI_COMM_WORLD);
  if (pbt::mpi_rank() == 0) fs::remove_all(dir);
}
} // namespace

void C26(Case& c)
{
  int k = (int)c.draw(0, 9);
  if (k <= 4) analytical(c);
  else if (k <= 6) particle_grid(c);
  else if (k <= 8) simple_particles(c);
  else grafic(c);
}

// known finding : KH/a (width) and KH/A (amplitude) are the same key
void C26_kh(Case& c)
{
  hc::Grid g;
  g.p.lmin = 2;
  g.p.lmax = 2;
  g.p.coarse = {{4, 4, 1}};
  hc::Ini ini = hc::base_ini(g);
  ini["KH"]["a"] = "0.05";
  ini["KH"]["A"] = "0.01";
  Sim S(g, ini);
  S.init("kelvin_helmholtz");
  auto acc = hc::accessor(*S.U, {"rho", "rho_vy"});
  for (uint32_t o = 0; o < S.m->getNumOctants(); o++)
    hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
      auto x = hc::cell_center(g, mg::local_oct(g.p, *S.m, o), i, j, k);
      auto ce = hc::make_cell(g, o, false, i, j, k);
      double v = acc.at_ivar(ce, 1) / acc.at_ivar(ce, 0);
      double e = 0.01 * std::sin(2 * M_PI * x[0]) * (std::exp(-(x[1] - 0.5) * (x[1] - 0.5) / 0.04) + std::exp(-(x[1] - 1.5) * (x[1] - 1.5) / 0.04));
      PBT_CHECK(c, std::fabs(v - e) < 1e-12, "kelvin_helmholtz with KH/a=0.05 and KH/A=0.01 : vertical velocity " << v << ", formula " << e);
    });
  c.nontrivial = true;
}

int main(int argc, char** argv) { return pbt_main(argc, argv, {{"C26", C26}, {"C26_kh", C26_kh}}); }
