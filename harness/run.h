#pragma once
// whole runs of the time loop: launching, final state, generated parameter files
#include "common.h"
#include "subcomm.h"
#include "h5file.h"
#include "DyabloSession.hpp"
#include <filesystem>
#include <regex>
#include <spawn.h>
#include <sys/prctl.h>
using namespace dyablo;
using pbt::Case;
namespace fs = std::filesystem;
void run_here(const std::string& text); // run of the time loop with this parameter file

namespace {
int serial = 0; // names of directories (same on every process)
std::string new_dir()
{
  std::string d = "r" + std::to_string(serial++);
  if (pbt::real_rank() == 0) { std::error_code ec; fs::remove_all(d, ec); fs::create_directory(d); }
  MPI_Barrier(vp_real_world);
  return d;
}
void drop_dir(const std::string& d)
{
  MPI_Barrier(vp_real_world);
  if (pbt::real_rank() == 0) { std::error_code ec; fs::remove_all(d, ec); }
}
// ---------------------------------------------------------------- serial reference process
// a child of rank 0 with one process and one thread
struct Server
{
  int to = -1, from = -1;
  pid_t pid = -1;
  void start()
  {
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) throw std::runtime_error("pipe");
    std::vector<std::string> env;
    for (char** e = environ; *e; e++)
    {
      std::string s = *e;
      if (s.rfind("OMPI_", 0) == 0 || s.rfind("PMIX_", 0) == 0 || s.rfind("PMI_", 0) == 0 || s.rfind("ORTE_", 0) == 0 || s.rfind("OPAL_", 0) == 0 || s.rfind("OMP_NUM_THREADS", 0) == 0) continue;
      env.push_back(s);
    }
    for (auto* s : {"OMP_NUM_THREADS=1", "OMPI_MCA_ess_singleton_isolated=1", "OMPI_MCA_btl=self,vader", "OMPI_MCA_pml=ob1", "OMPI_MCA_plm=isolated", "OMPI_MCA_btl_vader_single_copy_mechanism=none",
                    "OMPI_ALLOW_RUN_AS_ROOT=1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1", "OMPI_MCA_hwloc_base_binding_policy=none"})
      env.push_back(s);
    std::vector<char*> ep;
    for (auto& s : env) ep.push_back((char*)s.c_str());
    ep.push_back(nullptr);
    char exe[4096];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (n <= 0) throw std::runtime_error("exe");
    exe[n] = 0;
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, a[0], 0);
    posix_spawn_file_actions_adddup2(&fa, b[1], 1);
    char serve[] = "--serve";
    char* av[] = {exe, serve, nullptr};
    if (posix_spawn(&pid, exe, &fa, nullptr, av, ep.data())) throw std::runtime_error("spawn");
    close(a[0]);
    close(b[1]);
    to = a[1];
    from = b[0];
  }
  static bool put(int fd, const void* p, size_t n)
  {
    const char* q = (const char*)p;
    while (n) { ssize_t w = write(fd, q, n); if (w <= 0) return false; q += w; n -= w; }
    return true;
  }
  static bool get(int fd, void* p, size_t n)
  {
    char* q = (char*)p;
    while (n) { ssize_t w = read(fd, q, n); if (w <= 0) return false; q += w; n -= w; }
    return true;
  }
  // "" or what went wrong
  std::string run(const std::string& text)
  {
    if (pid < 0) start();
    uint64_t n = text.size();
    if (!put(to, &n, 8) || !put(to, text.data(), n)) return "reference process is gone";
    if (!get(from, &n, 8)) return "reference process died";
    std::string r(n, ' ');
    if (n && !get(from, &r[0], n)) return "reference process died";
    return r;
  }
};
Server& server() { static Server s; return s; }
int serve(int argc, char** argv)
{
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int out = dup(1);
  if (!freopen("/dev/null", "w", stdout)) return 3;
  DyabloSession session(argc, argv);
  uint64_t n;
  while (Server::get(0, &n, 8))
  {
    std::string t(n, ' '), r;
    if (!Server::get(0, &t[0], n)) break;
    try { run_here(t); }
    catch (const std::exception& e) { r = std::string("exception: ") + e.what(); }
    n = r.size();
    if (!Server::put(out, &n, 8) || !Server::put(out, r.data(), n)) break;
  }
  return 0;
}

// ---------------------------------------------------------------- state in a checkpoint
struct State
{
  bool ok = false;
  int iter = -1;
  double time = 0;
  std::map<std::string, double> scal;
  std::vector<int64_t> octs;
  std::map<std::string, std::vector<double>> fields;
  std::map<std::string, std::vector<std::string>> attrs;
  std::map<std::string, std::vector<std::vector<double>>> parts; // rows (attributes..., x, y, z), sorted
};
State load(const std::string& file)
{
  State s;
  hc::H5File f(file);
  if (!f.open()) return s;
  for (auto& a : f.attributes("scalar_data"))
  {
    double v = a.second.is_float ? a.second.d[0] : (double)a.second.i[0];
    s.scal[a.first] = v;
  }
  s.iter = (int)s.scal["iter"];
  s.time = s.scal["time"];
  auto o = f.read("Octree");
  if (!o.ok) return s;
  s.octs = o.i;
  for (auto& n : f.list("fields"))
  {
    auto d = f.read("fields/" + n);
    if (!d.ok) return s;
    s.fields[n] = d.d;
  }
  for (auto& p : f.list("particles"))
  {
    std::vector<std::vector<double>> col;
    for (auto& a : f.list("particles/" + p + "/attributes"))
    {
      s.attrs[p].push_back(a);
      col.push_back(f.read("particles/" + p + "/attributes/" + a).d);
    }
    for (auto* a : {"x", "y", "z"}) col.push_back(f.read("particles/" + p + "/pos/" + a).d);
    auto& rows = s.parts[p];
    size_t n = col.back().size();
    for (auto& c : col) if (c.size() != n) return s;
    for (size_t i = 0; i < n; i++)
    {
      std::vector<double> r;
      for (auto& c : col) r.push_back(c[i]);
      rows.push_back(r);
    }
    std::sort(rows.begin(), rows.end());
  }
  s.ok = true;
  return s;
}
bool close_to(double a, double b, double scale, double tol) { return a == b || std::fabs(a - b) <= tol * scale || (std::isnan(a) && std::isnan(b)); }
// "" when both states agree. skip: fields that are not part of the result
std::string differ(const State& a, const State& b, double tol, double tol_t)
{
  std::ostringstream o;
  o.precision(17);
  if (!a.ok || !b.ok) { o << "checkpoint cannot be read (" << a.ok << b.ok << ")"; return o.str(); }
  if (a.iter != b.iter) { o << "iteration " << b.iter << " instead of " << a.iter; return o.str(); }
  for (auto* n : {"time", "dt", "aexp", "z"})
  {
    bool h = a.scal.count(n), k = b.scal.count(n);
    if (h != k) { o << "scalar " << n << " in one checkpoint only"; return o.str(); }
    if (h && !close_to(a.scal.at(n), b.scal.at(n), std::max(std::fabs(a.scal.at(n)), std::fabs(b.scal.at(n))), tol_t)) { o << n << " is " << b.scal.at(n) << " instead of " << a.scal.at(n); return o.str(); }
  }
  if (a.octs != b.octs) { o << "mesh differs (" << b.octs.size() << " numbers instead of " << a.octs.size() << ")"; return o.str(); }
  for (auto& f : a.fields)
  {
    auto it = b.fields.find(f.first);
    if (it == b.fields.end()) { o << "field " << f.first << " is missing"; return o.str(); }
    if (it->second.size() != f.second.size()) { o << "field " << f.first << " has another size"; return o.str(); }
    double sc = 0;
    for (double v : f.second) if (std::isfinite(v)) sc = std::max(sc, std::fabs(v));
    // velocities that are zero by symmetry are compared on the scale of the others
    if (f.first.rfind("rho_v", 0) == 0 || f.first[0] == 'B')
      for (auto* q : {"rho_vx", "rho_vy", "rho_vz"})
        if (f.first[0] == 'r' && a.fields.count(q)) for (double v : a.fields.at(q)) if (std::isfinite(v)) sc = std::max(sc, std::fabs(v));
    if (f.first == "gx" || f.first == "gy" || f.first == "gz")
      for (auto* q : {"gx", "gy", "gz"}) for (double v : a.fields.at(q)) if (std::isfinite(v)) sc = std::max(sc, std::fabs(v));
    for (size_t i = 0; i < f.second.size(); i++)
      if (!close_to(f.second[i], it->second[i], sc, tol)) { o << "field " << f.first << " value " << i << " of " << f.second.size() << " is " << it->second[i] << " instead of " << f.second[i]; return o.str(); }
  }
  for (auto& f : b.fields) if (!a.fields.count(f.first)) { o << "field " << f.first << " appeared"; return o.str(); }
  if (a.attrs != b.attrs || a.parts.size() != b.parts.size()) { o << "particle arrays or attributes differ"; return o.str(); }
  for (auto& p : a.parts)
  {
    auto it = b.parts.find(p.first);
    if (it == b.parts.end() || it->second.size() != p.second.size()) { o << "number of particles of " << p.first << " differs"; return o.str(); }
    std::vector<char> used(p.second.size(), 0);
    size_t w = p.second.empty() ? 0 : p.second[0].size();
    std::vector<double> sc(w, 0);
    for (auto& r : p.second) for (size_t k = 0; k < w; k++) sc[k] = std::max(sc[k], std::fabs(r[k]));
    // components of one vector share their scale
    double vs = 0, xs = 0;
    for (size_t k = 0; k < w; k++) if (k >= w - 3) xs = std::max(xs, sc[k]);
    auto& at = a.attrs.at(p.first);
    for (size_t k = 0; k < at.size(); k++) if (at[k][0] == 'v') vs = std::max(vs, sc[k]);
    for (size_t k = 0; k < w; k++) { if (k >= w - 3) sc[k] = xs; else if (at[k][0] == 'v') sc[k] = vs; }
    for (auto& r : p.second)
    {
      bool hit = false;
      for (size_t j = 0; j < used.size() && !hit; j++)
      {
        if (used[j]) continue;
        bool eq = true;
        for (size_t k = 0; k < w && eq; k++) eq = close_to(r[k], it->second[j][k], sc[k], tol);
        if (eq) { used[j] = 1; hit = true; }
      }
      if (!hit)
      {
        o << "a particle of " << p.first << " has no counterpart:";
        for (double v : r) o << " " << v;
        o << " ; candidates";
        for (size_t j = 0; j < used.size() && j < 4; j++) if (!used[j]) { o << " |"; for (double v : it->second[j]) o << " " << v; }
        return o.str();
      }
    }
  }
  return "";
}
std::vector<int> checkpoints(const std::string& dir)
{
  std::vector<int> r;
  std::error_code ec;
  static const std::regex re("restart_run_(-?\\d+)\\.h5");
  for (auto& e : fs::directory_iterator(dir, ec))
  {
    std::smatch m;
    std::string n = e.path().filename().string();
    if (std::regex_match(n, m, re)) r.push_back(std::stoi(m[1]));
  }
  std::sort(r.begin(), r.end());
  return r;
}

// ---------------------------------------------------------------- problems
struct Spec
{
  hc::Ini ini;
  bool exact = true;     // no sum over cells or particles enters the state
  bool particles = false, cosmo = false, grav = false, small_blocks = false;
  double dt_est = 0;     // rough size of a time step
  std::string what;
  double tol() const { return exact ? 1e-12 : 3e-7; }
};
struct Want
{
  bool small = false;     // tiny meshes, simple physics (C23)
  bool cosmo = false;
};
Spec gen_spec(Case& c, const Want& want)
{
  Spec s;
  hc::Ini& i = s.ini;
  // kinds of runs
  // 0 hydro, 1 hydro + gravity constant / point mass, 2 hydro + self gravity, 3 mhd, 4 particles passive, 5 self gravity with particles, 6 diffusion
  int kind = want.small ? (int)c.pick<int>({0, 3, 4}) : (int)c.pick<int>({0, 1, 3, 4, 6, 0, 2, 5});
  if (want.cosmo) kind = 0;
  int dim = (kind == 2 || kind == 5) ? 3 : (c.coin(1, 3) ? 3 : 2);
  if (want.small) dim = c.coin(1, 8) ? 3 : 2;
  hc::Grid g;
  g.p.dim = dim;
  if (dim == 2) g.p.coarse = c.pick<mg::C3>({{{2, 2, 1}}, {{4, 4, 1}}, {{4, 2, 1}}, {{3, 2, 1}}, {{2, 4, 1}}, {{1, 2, 1}}});
  else g.p.coarse = c.pick<mg::C3>({{{2, 2, 2}}, {{2, 1, 2}}, {{2, 2, 1}}, {{1, 1, 1}}});
  if (want.small && dim == 2) g.p.coarse = c.pick<mg::C3>({{{2, 2, 1}}, {{2, 1, 1}}});
  // load balance needs a block for every process
  for (int a = 0; g.p.coarse[0] * g.p.coarse[1] * g.p.coarse[2] < (uint32_t)pbt::real_size(); a = (a + 1) % dim) g.p.coarse[a] *= 2;
  uint32_t w = std::max({g.p.coarse[0], g.p.coarse[1], g.p.coarse[2]});
  g.p.lmin = 0;
  while ((1u << g.p.lmin) < w) g.p.lmin++;
  g.p.lmax = g.p.lmin + (uint32_t)(dim == 2 ? c.pick<int>({1, 2, 0, 2}) : c.pick<int>({1, 0, 1, 2}));
  if (want.small) g.p.lmax = g.p.lmin + (uint32_t)c.draw(0, 1);
  // physics
  bool mhd = kind == 3;
  std::string upd;
  if (mhd) upd = c.pick<std::string>({"MHDUpdate_euler", "MHDUpdate_RK2", "GLMMHDUpdate_euler", "GLMMHDUpdate_RK2", "MHDUpdate_hancock", "MHDUpdate_hancock_oneneighbor"});
  else upd = c.pick<std::string>({"HydroUpdate_euler", "HydroUpdate_hancock", "HydroUpdate_RK2", "HydroUpdate_hancock_oneneighbor"});
  bool glm = upd.find("GLM") == 0;
  for (int a = 0; a < dim; a++) g.b[a] = (uint32_t)(dim == 2 && !want.small ? c.pick<int>({4, 4, 6, 8}) : 4);
  if (dim == 2) g.b[2] = 1;
  bool per_all = kind == 5 || kind == 6 || c.coin();
  // the code has no rule for particles that leave the domain: without periodicity the domain is large compared to the steps
  if (kind == 4) for (int a = 0; a < dim; a++) if (g.b[a] * g.p.coarse[a] < 16) per_all = true;
  for (int a = 0; a < 3; a++) g.p.per[a] = a < dim && (per_all || c.coin(1, 3));
  // the scheme for blocks of one cell; diffusion needs larger blocks, and particles would leave the domain within the longer steps
  bool fine = upd.find("oneneighbor") != std::string::npos && kind != 6 && (kind != 4 || per_all) && c.coin();
  s.small_blocks = fine;
  if (fine)
  {
    bool one = c.coin();
    for (int a = 0; a < dim; a++) { g.b[a] = one ? 1 : (uint32_t)c.pick<int>({1, 2, 3, 2}); g.p.coarse[a] *= 2; }
    w *= 2;
    g.p.lmin++;
    g.p.lmax++;
    if (!want.small && dim == 2 && c.coin()) g.p.lmax++;
  }
  for (int a = 0; a < 3; a++) { g.lo[a] = 0; g.hi[a] = 1; }
  int box = (int)c.draw(0, 3);
  if (box == 2) for (int a = 0; a < 3; a++) g.hi[a] = (double)g.p.coarse[a] / w;
  if (box == 3) for (int a = 0; a < 3; a++) g.hi[a] = a == 1 ? 2 : 1;
  g.group = (uint32_t)c.pick<int>({64, 5, 2, 1});
  i = hc::base_ini(g);
  for (int a = 0; a < dim; a++)
    if (!g.p.per[a])
      for (auto* e : {"min", "max"}) i["mesh"][std::string("boundary_type_") + "xyz"[a] + e] = c.coin() ? "reflecting" : "absorbing";
  std::string prob;
  if (mhd) prob = (dim == 3 ? std::string("MHD_blast") : c.pick<std::string>({"orszag_tang", "MHD_blast", "MHD_rotor"})) + (glm ? "_glm" : "");
  else
  {
    std::vector<std::string> p = {"blast", "sod"};
    if (dim == 2) for (auto* q : {"kelvin_helmholtz", "riemann2d", "implode"}) p.push_back(q);
    prob = c.pick<std::string>(p);
  }
  if (prob == "blast" && c.coin()) for (int a = 0; a < dim; a++) i["blast"][std::string("center_") + "xyz"[a]] = hc::num(c.real(0.15, 0.85, 31));
  if (prob == "riemann2d") i["riemann2d"]["test_case"] = std::to_string(c.pick<int>({1, 3, 4, 6, 12, 17}));
  if (prob == "kelvin_helmholtz") { i["KH"]["a"] = i["KH"]["A"] = "0.05"; i["KH"]["P0"] = "5"; i["KH"]["z1"] = "0.3"; i["KH"]["z2"] = "0.7"; }
  i["hydro"]["update"] = upd;
  i["hydro"]["gamma0"] = c.pick<std::string>({"1.4", "1.6666666666666667"});
  i["hydro"]["riemann"] = mhd ? c.pick<std::string>({"hlld", "five_waves"}) : "hllc";
  if (!want.small && !mhd && upd.find("hancock") == std::string::npos && c.coin(1, 4)) i["hydro"]["well_balanced"] = "true";
  i["dt"]["hydro_cfl"] = hc::num(c.pick<double>({0.4, 0.2, 0.6}));
  std::string dtk = "Compute_dt_hydro";
  // refinement
  std::string rc = c.pick<std::string>({"RefineCondition_pseudo_gradient", "RefineCondition_second_derivative_error", "RefineCondition_mass", "RefineCondition_downflows"});
  if (fine && rc == "RefineCondition_second_derivative_error") rc = "RefineCondition_pseudo_gradient"; // two ghost cells
  if (rc == "RefineCondition_mass") { i["amr"]["mass_coarsen"] = hc::num(c.pick<double>({1e-4, 1e-3})); i["amr"]["mass_refine"] = hc::num(c.pick<double>({2e-3, 1e-2, 3e-4 * 8})); }
  i["amr"]["markers_kernel"] = rc;
  i["amr"]["epsilon_refine"] = hc::num(c.pick<double>({0.05, 0.01, 0.2}));
  i["amr"]["epsilon_coarsen"] = hc::num(c.pick<double>({0.02, 0.005, 0.05}) * (prob == "kelvin_helmholtz" ? 1 : 1));
  i["amr"]["error_max"] = hc::num(c.pick<double>({0.4, 0.6}));
  i["amr"]["error_min"] = hc::num(c.pick<double>({0.1, 0.2}));
  i["amr"]["cycle_frequency"] = std::to_string(c.pick<int>({1, 2, 1, 3}));
  i["amr"]["load_balancing_frequency"] = std::to_string(c.pick<int>({1, 2, 1000, 3}));
  i["amr"]["loadbalance_coherent_levels"] = std::to_string(c.draw(0, 3));
  // gravity
  if (kind == 1)
  {
    int q = (int)c.draw(0, 2);
    if (q == 0) { i["gravity"] = {{"solver", "GravitySolver_constant"}, {"gravity_type", "constant_scalar"}, {"gx", "0.1"}, {"gy", "-0.7"}, {"gz", "0.3"}}; }
    else if (q == 1) { i["gravity"] = {{"solver", "GravitySolver_point_mass"}, {"gravity_type", "constant_field"}, {"point_mass_Gmass", "0.05"}, {"softening", "0.1"}, {"point_mass_x", "0.43"}}; s.grav = true; }
    else i["gravity"] = {{"gravity_type", "constant_scalar"}, {"gx", "0.2"}, {"gy", "0.5"}};
  }
  if (kind == 2 || kind == 5)
  {
    i["gravity"] = {{"solver", "GravitySolver_cg"}, {"gravity_type", "field"}, {"4_Pi_G", hc::num(c.pick<double>({1., 5.}))}, {"CG_eps", "1e-6"}};
    s.exact = false;
    s.grav = true;
  }
  // particles
  if (kind == 4 || kind == 5)
  {
    s.particles = true;
    bool grid = per_all && c.coin(1, 3);
    int np = (int)c.pick<int>({6, 1, 20, 11});
    uint64_t ps = c.salt();
    if (grid)
    {
      prob += ",particle_grid";
      for (int a = 0; a < 3; a++) i["particle_grid"][std::string("n") + "xyz"[a]] = std::to_string(a < dim ? 3 : 1);
      i["particle_grid"]["dt_perturb"] = "0.05";
      i["particle_grid"]["total_mass"] = "0.3";
    }
    else
    {
      prob += ",simple_particles";
      i["simple_particles"]["npart"] = std::to_string(np);
      for (int k = 0; k < 7; k++)
      {
        std::string t;
        for (int q = 0; q < np; q++)
        {
          double u = pbt::u01(ps + 1000 * k + q);
          double v = k < 3 ? (k >= dim ? g.lo[k] : g.lo[k] + (per_all ? 0.02 + 0.96 * u : 0.3 + 0.4 * u) * g.L(k)) : k < 6 ? (k - 3 >= dim ? 0 : 2 * u - 1) : 0.01 + 0.02 * u;
          t += (q ? "," : "") + hc::num(v);
        }
        static const char* kn[] = {"px", "py", "pz", "vx", "vy", "vz", "mass"};
        i["simple_particles"][kn[k]] = t;
      }
    }
    if (kind == 4) i["particles"]["update_position"] = "ParticleUpdate_tracers_move";
    else
    {
      i["particles"]["update_position"] = c.pick<std::string>({"ParticleUpdate_CIC_move", "ParticleUpdate_NGP_move"});
      i["particles"]["update_density"] = c.pick<std::string>({"ParticleUpdate_CIC_density", "ParticleUpdate_NGP_density"});
      dtk += ",Compute_dt_particle_velocity";
    }
  }
  if (kind == 6)
  {
    int q = (int)c.draw(1, 3);
    if (q & 1) { i["viscosity"] = {{"update", "ParabolicUpdate_explicit"}, {"mu", "0.003"}}; }
    if (q & 2) { i["thermal_conduction"] = {{"update", "ParabolicUpdate_explicit"}, {"kappa", "0.002"}}; }
    dtk += ",Compute_dt_parabolic";
    if (c.coin(1, 3)) i["cooling"] = {{"update", "CoolingUpdate_FF"}, {"FF_fluxes", "0.01"}};
    i["dt"]["parabolic_cfl"] = "0.3";
  }
  if (want.cosmo)
  {
    s.cosmo = true;
    i["cosmology"] = {{"active", "true"}, {"aStart", hc::num(c.pick<double>({0.1, 0.02, 0.35}))}, {"omegam", hc::num(c.pick<double>({0.3, 1.0, 0.25}))}, {"aEnd", "1.0"}, {"da", hc::num(c.pick<double>({1.1, 1.02, 1.3}))}};
    i["cosmology"]["omegav"] = hc::num(1 - std::stod(i["cosmology"]["omegam"]));
    dtk = c.coin() ? "Compute_dt_cosmology" : "Compute_dt_hydro,Compute_dt_cosmology";
  }
  i["dt"]["dt_kernel"] = dtk;
  i["run"]["initial_conditions"] = prob;
  i["run"]["nlog"] = "1000000";
  i["output"]["outputPrefix"] = "run";
  i["output"]["write_variables"] = "rho,e_tot,level";
  double cell = g.L(0) / g.p.count(0, g.p.lmax) / g.b[0];
  s.dt_est = 0.1 * cell;
  static const char* kn[] = {"hydro", "external gravity", "self gravity", "mhd", "tracers", "self gravity with particles", "diffusion"};
  c.label(want.cosmo ? "cosmology" : kn[kind]);
  c.label(upd);
  if (fine) c.label("small blocks");
  c.label(rc);
  std::ostringstream o;
  o << prob << " " << upd << " " << g.str() << " " << rc << " " << kn[kind];
  s.what = o.str();
  return s;
}
void with_dir(hc::Ini& i, const std::string& d) { i["output"]["outputDir"] = d; }
// run on the first n processes (n = 0: the serial reference process)
void launch(Case& c, const hc::Ini& ini, int n)
{
  std::string text = hc::to_text(ini);
  if (getenv("PBT_TRACE") && pbt::real_rank() == 0) fprintf(stderr, "---- run on %d\n%s\n", n, text.c_str());
  if (n == 0)
  {
    if (pbt::real_rank() == 0) { std::string r = server().run(text); PBT_CHECK(c, r.empty(), "reference run: " << r); }
    c.sync();
    return;
  }
  hc::on_procs(c, n, [&]() { run_here(text); });
}
int threads()
{
  const char* t = getenv("OMP_NUM_THREADS");
  return t ? atoi(t) : 1;
}
} // namespace

