// C34 times reported by a run, C35 configurations that cannot be honoured are refused
#include "run.h"
#include <csignal>
#include <sys/wait.h>
#include <fcntl.h>

namespace {
long ticks = 0;
double tick_size = 1;
} // namespace
// clock of the timers in this program: every look at it is one tick, of another size on every process
extern "C" double omp_get_wtime() noexcept { return tick_size * (double)ticks++; }

void C34_run(Case& c)
{
  Want w;
  w.small = c.coin();
  Spec s = gen_spec(c, w);
  int np = pbt::real_size(), n = c.coin(1, 4) ? (int)c.draw(1, np) : np, me = pbt::real_rank();
  auto& run = s.ini["run"];
  run["nstepmax"] = std::to_string(c.draw(1, 4));
  if (c.coin()) run["enable_output"] = "false";
  if (c.coin()) run["checkpoint_frequency"] = "1";
  std::string d = new_dir();
  with_dir(s.ini, d);
  c.desc << s.what << " on " << n << " steps " << run["nstepmax"];
  if (me == 0) { std::error_code ec; fs::remove("timers.txt", ec); }
  MPI_Barrier(vp_real_world);
  ticks = (long)c.draw(0, 1000);
  tick_size = 1 + 1000.0 * me;
  long t0 = ticks;
  launch(c, s.ini, n);
  long used = ticks - t0;
  tick_size = 1;
  std::vector<long> all(np);
  MPI_Gather(&used, 1, MPI_LONG, all.data(), 1, MPI_LONG, 0, vp_real_world);
  if (me == 0 && !c.failed_local)
  {
    std::ifstream f("timers.txt");
    PBT_CHECK(c, f.good(), "the run left no timers.txt");
    auto split = [](const std::string& l) {
      std::vector<std::string> r;
      size_t p = 0;
      for (;;)
      {
        size_t q = l.find(" ; ", p);
        r.push_back(l.substr(p, q == std::string::npos ? q : q - p));
        if (q == std::string::npos) return r;
        p = q + 3;
      }
    };
    std::string line;
    std::vector<std::string> names;
    if (std::getline(f, line)) names = split(line);
    PBT_CHECK(c, names.size() > 3, "timers.txt lists " << names.size() << " columns");
    std::map<std::string, size_t> col;
    for (size_t i = 1; i < names.size(); i++)
    {
      PBT_CHECK(c, !col.count(names[i]), "column '" << names[i] << "' twice in timers.txt");
      col[names[i]] = i;
      size_t q = names[i].rfind('/');
      // names may hold slashes themselves: some prefix must be a column
      bool parent = i == 1;
      for (; q != std::string::npos && !parent; q = q ? names[i].rfind('/', q - 1) : std::string::npos) parent = col.count(names[i].substr(0, q));
      PBT_CHECK(c, parent, "column '" << names[i] << "' of timers.txt belongs to no section");
    }
    int rows = 0;
    while (std::getline(f, line) && !c.failed_local)
    {
      auto v = split(line);
      PBT_CHECK(c, v.size() == names.size(), "row " << rows << " of timers.txt has " << v.size() << " columns, its header " << names.size());
      if (v.size() != names.size()) break;
      PBT_CHECK(c, v[0] == std::to_string(rows), "row " << rows << " of timers.txt is labelled " << v[0]);
      if (rows >= n) { rows++; break; }
      std::vector<double> x(v.size(), 0), kids(v.size(), 0);
      double unit = 1 + 1000.0 * rows;
      for (size_t i = 1; i < v.size(); i++)
      {
        x[i] = std::stod(v[i]) / unit;
        PBT_CHECK(c, x[i] >= 0 && std::fabs(x[i] - std::round(x[i])) <= 0.02 + 2e-6 * x[i], "process " << rows << ": '" << names[i] << "' took " << v[i] << ", no number of its ticks");
      }
      if (ticks > t0 || used)
      {
        PBT_CHECK(c, x[1] <= all[rows] * (1 + 1e-5) && x[1] >= all[rows] - 10 - 1e-5 * all[rows], "process " << rows << " reports " << x[1] << " ticks in total, it had " << all[rows]);
        for (size_t i = 2; i < v.size(); i++)
        {
          size_t p = 1, best = 0;
          for (size_t q = names[i].rfind('/'); q != std::string::npos && q > 0; q = names[i].rfind('/', q - 1))
          {
            auto it = col.find(names[i].substr(0, q));
            if (it != col.end() && q > best) { p = it->second; best = q; }
          }
          kids[p] += x[i];
        }
        for (size_t i = 1; i < v.size(); i++)
          PBT_CHECK(c, kids[i] <= x[i] * (1 + 1e-5) + 0.1, "process " << rows << ": the parts of '" << names[i] << "' took " << kids[i] << ", all of it " << x[i]);
      }
      rows++;
    }
    PBT_CHECK(c, c.failed_local || rows == n, "timers.txt has " << rows << " rows for " << n << " processes");
  }
  c.sync();
  drop_dir(d);
  c.nontrivial = used > 30;
}

namespace {
// run one parameter file in a process of its own; the status of waitpid
int run_child(const std::vector<std::string>& args)
{
  std::vector<std::string> env;
  for (char** e = environ; *e; e++)
  {
    std::string s = *e;
    if (s.rfind("OMPI_", 0) == 0 || s.rfind("PMIX_", 0) == 0 || s.rfind("PMI_", 0) == 0 || s.rfind("ORTE_", 0) == 0 || s.rfind("OPAL_", 0) == 0 || s.rfind("OMP_NUM_THREADS", 0) == 0) continue;
    env.push_back(s);
  }
  for (auto* s : {"OMP_NUM_THREADS=1", "OMPI_MCA_ess_singleton_isolated=1", "OMPI_MCA_btl=self,vader", "OMPI_MCA_pml=ob1", "OMPI_MCA_plm=isolated", "OMPI_MCA_btl_vader_single_copy_mechanism=none",
                  "OMPI_ALLOW_RUN_AS_ROOT=1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1", "OMPI_MCA_hwloc_base_binding_policy=none"})
    env.push_back(s);
  std::vector<char*> ep;
  for (auto& s : env) ep.push_back((char*)s.c_str());
  ep.push_back(nullptr);
  char exe[4096];
  ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (k <= 0) throw std::runtime_error("exe");
  exe[k] = 0;
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, "/dev/null", O_WRONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 2, "child.err", O_WRONLY | O_CREAT | O_TRUNC, 0600);
  std::vector<std::string> a = {exe, "--program"};
  a.insert(a.end(), args.begin(), args.end());
  std::vector<char*> av;
  for (auto& x : a) av.push_back(&x[0]);
  av.push_back(nullptr);
  pid_t pid;
  if (posix_spawn(&pid, exe, &fa, nullptr, av.data(), ep.data())) throw std::runtime_error("spawn");
  posix_spawn_file_actions_destroy(&fa);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return st;
}
std::string status(int st)
{
  if (WIFEXITED(st)) return "exit " + std::to_string(WEXITSTATUS(st));
  return std::string("signal ") + strsignal(WTERMSIG(st));
}
bool snapshots(const std::string& d)
{
  std::error_code ec;
  for (auto& e : fs::directory_iterator(d, ec)) { auto x = e.path().extension(); if (x == ".h5" || x == ".xmf") return true; }
  return false;
}
} // namespace

void C35(Case& c)
{
  Want w;
  w.small = c.coin();
  Spec s = gen_spec(c, w);
  hc::Ini ok = s.ini, bad = s.ini;
  ok["run"]["nstepmax"] = bad["run"]["nstepmax"] = "1";
  bad["run"]["output_frequency"] = "1";
  std::string what, junk;
  std::vector<std::string> args = {"bad.ini"};
  auto spoil = [&](const std::string& v) { // a name that nothing has
    switch (c.draw(0, 6))
    {
      case 0: return v + c.pick<std::string>({"x", "_", "2", "s"});
      case 1: return v.substr(0, v.size() - 1);
      case 2: return "x" + v;
      case 3: { std::string r = v; for (char& q : r) q = isupper(q) ? (char)tolower(q) : (char)toupper(q); return r; }
      case 4: return v + "_" + v;
      case 5: return v.substr(1);
      default: return c.pick<std::string>({"default", "unknown", "NONE", "default0", "auto", "HydroUpdate", "IOManager"});
    }
  };
  int kind = (int)c.draw(0, 3);
  int dim = std::stoi(ok["mesh"]["ndim"]);
  std::string upd = ok["hydro"]["update"];
  bool mhd = upd.find("MHD") != std::string::npos;
  if (kind < 2)
  {
    struct K { const char *s, *k, *v; bool list; };
    std::vector<K> keys = {{"run", "initial_conditions", "blast", true}, {"gravity", "solver", "GravitySolver_constant", false}, {"hydro", "update", "HydroUpdate_hancock", false},
      {"particles", "update_position", "ParticleUpdate_tracers_move", false}, {"particles", "update_density", "ParticleUpdate_CIC_density", false}, {"amr", "remap", "MapUserData_mean", false},
      {"output", "backend", "IOManager_hdf5", false}, {"output", "checkpoint", "IOManager_checkpoint", false}, {"dt", "dt_kernel", "Compute_dt_hydro", true}, {"amr", "markers_kernel", "RefineCondition_mass", false},
      {"viscosity", "update", "ParabolicUpdate_explicit", false}, {"thermal_conduction", "update", "ParabolicUpdate_explicit", false}, {"cooling", "update", "CoolingUpdate_FF", false},
      {"mesh", "boundary_type_xmin", "absorbing", false}, {"mesh", "boundary_type_ymax", "reflecting", false}, {"mesh", "boundary_type_zmin", "absorbing", false}, {"mesh", "boundary_type_zmax", "periodic", false},
      {"hydro", "riemann", "hllc", false}};
    auto k = c.pick<K>(keys);
    std::string v = k.v;
    bool has = ok.count(k.s) && ok[k.s].count(k.k);
    if (has && ok[k.s][k.k] != "none") v = ok[k.s][k.k];
    if (k.list)
    {
      std::vector<std::string> l;
      std::istringstream is(v);
      std::string e;
      while (std::getline(is, e, ',')) l.push_back(e);
      size_t p = (size_t)c.draw(0, (int64_t)l.size());
      if (p == l.size()) l.push_back(spoil(l[0]));
      else l[p] = spoil(l[p]);
      v.clear();
      for (auto& e2 : l) v += (v.empty() ? "" : ",") + e2;
    }
    else v = spoil(v);
    bad[k.s][k.k] = v;
    what = std::string(k.s) + "/" + k.k + "=" + v;
    c.label(std::string(k.s) + "/" + k.k);
  }
  else
  {
    bool done = false;
    while (!done)
    {
      done = true;
      switch (c.draw(0, 17))
      {
        case 0: bad["gravity"] = {{"solver", "GravitySolver_constant"}, {"gravity_type", c.pick<std::string>({"constant_field", "field", "none"})}, {"gx", "0.1"}, {"gy", "0.1"}, {"gz", "0.1"}}; what = "solver of constant gravity with another type"; break;
        case 1: bad["gravity"] = {{"solver", "GravitySolver_point_mass"}, {"gravity_type", c.pick<std::string>({"constant_scalar", "field", "none"})}, {"gx", "0.1"}, {"gy", "0.1"}, {"gz", "0.1"}}; what = "point mass with another type of gravity"; break;
        case 2: bad["gravity"] = {{"solver", "GravitySolver_cg"}, {"gravity_type", dim == 2 ? "field" : c.pick<std::string>({"constant_scalar", "constant_field", "none"})}, {"4_Pi_G", "1"}, {"gx", "0"}, {"gy", "0"}, {"gz", "0"}}; what = dim == 2 ? "self gravity in 2D" : "self gravity with another type"; break;
        case 3: if (dim == 2) { done = false; break; } bad["run"]["initial_conditions"] = c.pick<std::string>({"implode", "kelvin_helmholtz", "orszag_tang", "MHD_rotor"}); if (!mhd && bad["run"]["initial_conditions"][0] != 'i' && bad["run"]["initial_conditions"][0] != 'k') bad["hydro"]["update"] = "MHDUpdate_euler", bad["hydro"]["riemann"] = "hlld"; what = "two-dimensional problem in 3D"; break;
        case 4: { std::string v = c.pick<std::string>({"viscosity", "thermal_conduction", "cooling"}); bad["hydro"]["update"] = "none"; bad[v]["update"] = v == "cooling" ? "CoolingUpdate_FF" : "ParabolicUpdate_explicit"; bad["viscosity"]["mu"] = "0.01"; bad["thermal_conduction"]["kappa"] = "0.01"; what = v + " without hydrodynamics"; break; }
        case 5: bad["amr"]["coarse_oct_resolution_" + std::string(1, "xyz"[c.draw(0, dim - 1)])] = std::to_string((1 << 3) + c.draw(1, 9)); bad["amr"]["level_min"] = "3"; bad["amr"]["level_max"] = "3"; what = "coarse grid larger than level_min allows"; break;
        case 6: bad["run"]["restart_enabled"] = "true"; what = "restart_enabled without the restart problem"; break;
        case 7: if (bad["amr"]["level_min"] == "0") { done = false; break; } bad["amr"]["level_max"] = std::to_string(std::stoi(bad["amr"]["level_min"]) - 1); what = "level_max below level_min"; break;
        case 8:
        {
          if (dim == 2) { done = false; break; }
          int l = (int)c.draw(1, 3);
          for (int a = 0; a < 3; a++) bad["amr"][std::string("coarse_oct_resolution_") + "xyz"[a]] = std::to_string(c.draw(1, 1 << (l - 1)));
          bad["amr"]["level_min"] = bad["amr"]["level_max"] = std::to_string(l);
          what = "level_min that leaves the coarse grid unused in 3D";
          break;
        }
        case 9: if (dim == 3) { done = false; break; } bad["amr"]["bz"] = std::to_string(c.draw(2, 8)); what = "block with a depth in 2D"; break;
        case 10: bad["run"]["initial_conditions"] = c.pick<std::string>({"restart", "tiled_restart"}); bad["run"]["restart_enabled"] = "true"; if (bad["run"]["initial_conditions"][0] == 't') bad["run"].erase("restart_enabled"); bad["restart"]["filename"] = "nowhere_restart.dat"; what = bad["run"]["initial_conditions"] + " from a file that does not exist"; break;
        case 11: if (dim == 3) { done = false; break; } bad["hydro"]["update"] = "HydroUpdate_euler"; bad["run"]["initial_conditions"] = "riemann2d"; bad["riemann2d"]["test_case"] = std::to_string(c.pick<int>({0, -1, 20, 21, 1000, -19})); what = "riemann2d problem that does not exist"; break;
        case 12: bad["hydro"]["update"] = "HydroUpdate_euler"; bad["hydro"]["riemann"] = "hllc"; bad["run"]["initial_conditions"] = "blast"; bad["cooling"] = {{"update", "CoolingUpdate_FF"}, {"FF_layer", spoil(c.coin() ? "layer" : "one_cell")}}; what = "cooling layer that does not exist"; break;
        case 13: if (c.coin(1, 3)) args.clear(), what = "no parameter file"; else args = {c.coin() ? "nowhere.ini" : "bad.in"}, what = "parameter file that does not exist"; break;
        case 14: junk = c.pick<std::string>({"this is no setting", "[mesh", "42", "gamma0 1.4", "hydro]", "level_max", "; fine\nnot fine", "..."}); what = "parameter file with a line that is no setting"; break;
        case 15:
        case 16:
        {
          struct N { const char *s, *k; int t; };
          auto k = c.pick<N>({{"mesh", "ndim", 0}, {"amr", "level_min", 0}, {"amr", "level_max", 0}, {"amr", "bx", 1}, {"amr", "by", 1}, {"amr", "coarse_oct_resolution_x", 1}, {"mesh", "xmax", 2}, {"mesh", "ymin", 2}, {"hydro", "gamma0", 2},
            {"dt", "hydro_cfl", 2}, {"run", "nstepmax", 0}, {"run", "tend", 2}, {"run", "enable_output", 3}, {"amr", "cycle_frequency", 0}, {"amr", "load_balancing_frequency", 0}, {"run", "output_frequency", 0}});
          std::vector<std::string> l = {"abc", "x1", "2x", "--3", "yes and no", "0.4.2"};
          if (k.t < 2) for (auto* q : {"2.5", "1e", "4,4"}) l.push_back(q);
          if (k.t == 1) for (auto* q : {"-4", "-1", "- 2"}) l.push_back(q);
          if (k.t == 2) for (auto* q : {"1e", "0,5", "."}) l.push_back(q);
          if (k.t == 3) for (auto* q : {"maybe", "ture", "2.5"}) l.push_back(q);
          bad[k.s][k.k] = c.pick<std::string>(l);
          if (std::string(k.k) == "hydro_cfl") bad["dt"]["dt_kernel"] = "Compute_dt_hydro";
          what = std::string(k.s) + "/" + k.k + " that is no value: " + bad[k.s][k.k];
          c.label("value that cannot be read");
          break;
        }
        default: bad["hydro"]["update"] = c.coin() ? "MHDUpdate_RK2" : "MHDUpdate_euler"; bad["hydro"]["well_balanced"] = "true"; bad["hydro"]["riemann"] = "hlld"; bad["run"]["initial_conditions"] = "MHD_blast"; what = "well-balanced scheme for MHD";
      }
    }
    if (what.find(" that is no value") == std::string::npos) c.label(what);
  }
  c.desc << what << " in " << s.what;
  auto write = [&](const std::string& f, const hc::Ini& i) { std::ofstream(f) << hc::to_text(i); };
  if (c.coin(1, 4))
  {
    std::string d = new_dir();
    with_dir(ok, d);
    write("ok.ini", ok);
    int st = run_child(c.coin() ? std::vector<std::string>{"ok.ini"} : std::vector<std::string>{"--kokkos-num-threads=1", "ok.ini"});
    PBT_CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "a valid configuration ended with " << status(st) << " [" << s.what << "]");
    PBT_CHECK(c, snapshots(d), "a valid configuration wrote no file [" << s.what << "]");
    c.label("valid configuration run too");
    drop_dir(d);
  }
  std::string d = new_dir();
  with_dir(bad, d);
  write("bad.ini", bad);
  if (!junk.empty())
  {
    std::string t = hc::to_text(bad);
    std::vector<size_t> ends;
    for (size_t p = 0; p < t.size(); p++) if (t[p] == '\n') ends.push_back(p + 1);
    if (!c.coin(1, 4)) t.insert(c.pick<size_t>(ends), junk + "\n");
    else t += junk;
    std::ofstream("bad.ini") << t;
  }
  int st = run_child(args);
  PBT_CHECK(c, !(WIFEXITED(st) && WEXITSTATUS(st) == 0), what << ": the run went through");
  if (WIFSIGNALED(st)) PBT_CHECK(c, WTERMSIG(st) == SIGABRT, what << ": the run ended with " << status(st) << " instead of an error");
  PBT_CHECK(c, !snapshots(d), what << ": the run wrote snapshots before it was refused");
  drop_dir(d);
  c.sync();
  c.nontrivial = true;
}
