// C12 results independent of the split, C20 continuation after a restart, C23 stop and output triggers:
// whole runs of the time loop, observed through the files they write
#include "run.h"
#include "DyabloTimeLoop.h"
#define main dyablo_program // the real program, run as a process of its own by C35
#include "dyablo_main.cpp"
#undef main
#include "main.h"

// an exception that leaves the time loop ends the process (a destructor of Timers throws as well):
// put the message on stderr at the moment it is thrown
#include <dlfcn.h>
extern "C" void __cxa_throw(void* e, void* ti, void (*d)(void*))
{
  static auto real = (void (*)(void*, void*, void (*)(void*)))dlsym(RTLD_NEXT, "__cxa_throw");
  if (*(std::type_info*)ti == typeid(std::runtime_error) && !strstr(((std::runtime_error*)e)->what(), "Parse error")) fprintf(stderr, "thrown: %s\n", ((std::runtime_error*)e)->what());
  real(e, ti, d);
  __builtin_unreachable();
}

void run_here(const std::string& text)
{
  std::unique_ptr<ConfigMap> cfg(new ConfigMap(text));
  DyabloTimeLoop loop(*cfg);
  loop.run();
}

void C12(Case& c)
{
  Spec s = gen_spec(c, Want());
  int np = pbt::real_size();
  int steps = (int)c.draw(1, 5);
  s.ini["run"]["nstepmax"] = std::to_string(steps);
  s.ini["run"]["enable_output"] = "false";
  std::string d0 = new_dir();
  hc::Ini ref = s.ini;
  with_dir(ref, d0);
  bool threaded = threads() > 1;
  launch(c, ref, threaded ? 0 : 1);
  int nv = np == 1 ? 2 : (int)c.draw(1, 2);
  c.desc << s.what << " steps " << steps;
  State a;
  if (pbt::real_rank() == 0)
  {
    a = load(d0 + "/restart_run_" + std::to_string(steps) + ".h5");
    PBT_CHECK(c, a.ok, "no final checkpoint of iteration " << steps);
    for (auto& f : a.fields)
      for (double v : f.second) if (!std::isfinite(v)) c.label("non-finite values in the reference");
    if (a.octs.size() > 4) c.nontrivial = true;
  }
  c.sync();
  for (int v = 0; v < nv; v++)
  {
    hc::Ini q = s.ini;
    int n = v == 0 ? np : (int)c.draw(1, np);
    q["amr"]["nbOctsPerGroup"] = std::to_string(c.pick<int>({64, 1, 3, 7, 1024, 2}));
    q["amr"]["load_balancing_frequency"] = std::to_string(c.pick<int>({1, 2, 3, 1000}));
    q["amr"]["loadbalance_coherent_levels"] = std::to_string(c.draw(0, 4));
    bool outs = c.coin(1, 4);
    if (outs) { q["run"]["enable_output"] = "true"; q["run"]["output_frequency"] = "1"; q["run"]["checkpoint_frequency"] = "2"; c.label("writes output"); }
    std::string d = new_dir();
    with_dir(q, d);
    launch(c, q, n);
    c.desc << " | np " << n << " group " << q["amr"]["nbOctsPerGroup"] << " balance " << q["amr"]["load_balancing_frequency"] << "/" << q["amr"]["loadbalance_coherent_levels"];
    if (pbt::real_rank() == 0)
    {
      State b = load(d + "/restart_run_" + std::to_string(steps) + ".h5");
      std::string m = differ(a, b, s.tol(), s.exact ? 1e-13 : 1e-8);
      PBT_CHECK(c, m.empty(), "run on " << n << " process(es), group " << q["amr"]["nbOctsPerGroup"] << ", load balance every " << q["amr"]["load_balancing_frequency"] << " levels " << q["amr"]["loadbalance_coherent_levels"] << ", "
                                        << threads() << " thread(s) against one process and one thread: " << m << " [" << s.what << "]");
      for (auto& f : a.fields) c.checks += (long)f.second.size();
    }
    drop_dir(d);
    c.sync();
  }
  drop_dir(d0);
}

// ---------------------------------------------------------------- restart and continue
namespace {
hc::Ini read_ini(const std::string& f)
{
  hc::Ini r;
  std::ifstream in(f);
  std::string l, sec;
  auto trim = [](std::string s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t\r"); return a == std::string::npos ? std::string() : s.substr(a, b - a + 1); };
  while (std::getline(in, l))
  {
    auto k = l.find(" ;");
    if (k != std::string::npos) l = l.substr(0, k);
    l = trim(l);
    if (l.empty()) continue;
    if (l[0] == '[') { sec = l.substr(1, l.find(']') - 1); continue; }
    auto e = l.find('=');
    if (e == std::string::npos) continue;
    r[sec][trim(l.substr(0, e))] = trim(l.substr(e + 1));
  }
  return r;
}
hc::Ini bcast(const hc::Ini& i)
{
  std::string t = hc::to_text(i);
  int n = (int)t.size();
  MPI_Bcast(&n, 1, MPI_INT, 0, vp_real_world);
  t.resize(n);
  MPI_Bcast(&t[0], n, MPI_CHAR, 0, vp_real_world);
  hc::Ini r;
  std::istringstream is(t);
  std::string l, sec;
  while (std::getline(is, l))
  {
    if (l.empty()) continue;
    if (l[0] == '[') sec = l.substr(1, l.size() - 2);
    else r[sec][l.substr(0, l.find('='))] = l.substr(l.find('=') + 1);
  }
  return r;
}
} // namespace
void C20_run(Case& c)
{
  Want w;
  w.cosmo = c.coin(1, 8);
  Spec s = gen_spec(c, w);
  int np = pbt::real_size();
  int steps = (int)c.draw(2, 6), n1 = (int)c.draw(1, np), n2 = np;
  if (c.coin()) std::swap(n1, n2);
  s.ini["run"]["enable_output"] = c.coin(1, 5) ? "true" : "false";
  int how = (int)c.draw(0, 1);
  std::string d0 = new_dir(), d1 = new_dir(), d2;
  hc::Ini full = s.ini;
  full["run"]["nstepmax"] = std::to_string(steps);
  with_dir(full, d0);
  if (how == 0) full["run"]["checkpoint_frequency"] = std::to_string(c.draw(1, 3));
  launch(c, full, n1);
  std::string from = d0;
  if (how == 1)
  {
    // a run that was stopped earlier
    d2 = new_dir();
    hc::Ini part = full;
    part["run"]["nstepmax"] = std::to_string(c.draw(1, steps - 1));
    with_dir(part, d2);
    launch(c, part, n1);
    from = d2;
    c.label("stopped run continued");
  }
  else c.label("restart from an intermediate checkpoint");
  std::vector<int> cp = checkpoints(from);
  if (how == 0) cp.erase(std::remove(cp.begin(), cp.end(), steps), cp.end());
  int ncp = (int)cp.size();
  MPI_Bcast(&ncp, 1, MPI_INT, 0, vp_real_world);
  c.desc << s.what << " steps " << steps << " np " << n1 << " -> " << n2;
  if (ncp == 0)
  {
    PBT_CHECK(c, how == 0, "a finished run left no checkpoint");
    c.sync();
    drop_dir(d0);
    drop_dir(d1);
    return;
  }
  int pick = (int)c.draw(0, ncp - 1), k = pbt::real_rank() == 0 ? cp[pick] : 0;
  MPI_Bcast(&k, 1, MPI_INT, 0, vp_real_world);
  hc::Ini again;
  if (pbt::real_rank() == 0) again = read_ini(from + "/restart_run_" + std::to_string(k) + ".ini");
  again = bcast(again);
  for (auto& sec : again)
    for (auto& kv : sec.second)
    {
      std::string n = kv.first;
      for (auto& ch : n) ch = (char)tolower(ch);
      if (sec.first == "output" && n == "outputdir") kv.second = d1;
      if (sec.first == "run" && n == "nstepmax") kv.second = std::to_string(steps);
    }
  c.desc << " from iteration " << k;
  c.nontrivial = true;
  if (n1 != n2) c.label("other process count");
  launch(c, again, n2);
  if (pbt::real_rank() == 0)
  {
    State a = load(d0 + "/restart_run_" + std::to_string(steps) + ".h5"), b = load(d1 + "/restart_run_" + std::to_string(steps) + ".h5");
    std::string m = differ(a, b, s.tol(), s.exact ? 1e-13 : 1e-8);
    PBT_CHECK(c, m.empty(), "restart on " << n2 << " process(es) from iteration " << k << " of a run on " << n1 << ", at iteration " << steps << ": " << m << " [" << s.what << "]");
    for (auto& f : a.fields) c.checks += (long)f.second.size();
  }
  c.sync();
  drop_dir(d0);
  drop_dir(d1);
  if (!d2.empty()) drop_dir(d2);
}

// ---------------------------------------------------------------- when it stops and writes
namespace {
std::vector<int> outputs(const std::string& dir)
{
  std::vector<int> r;
  std::error_code ec;
  static const std::regex re("run_iter(-?\\d+)\\.h5");
  for (auto& e : fs::directory_iterator(dir, ec))
  {
    std::smatch m;
    std::string n = e.path().filename().string();
    if (std::regex_match(n, m, re)) r.push_back(std::stoi(m[1]));
  }
  std::sort(r.begin(), r.end());
  return r;
}
std::string list(const std::vector<int>& v)
{
  std::string s;
  for (int x : v) s += (s.empty() ? "" : ",") + std::to_string(x);
  return "{" + s + "}";
}
} // namespace
void C23(Case& c)
{
  Want w;
  w.small = true;
  w.cosmo = c.coin(1, 4);
  Spec s = gen_spec(c, w);
  int np = pbt::real_size();
  auto& run = s.ini["run"];
  int nst = (int)c.draw(1, 8), start = 0;
  if (c.coin(1, 4)) { start = (int)c.draw(1, 12); run["iter_start"] = std::to_string(start); }
  double t0 = 0;
  bool has_t0 = !s.cosmo && c.coin(1, 4);
  if (has_t0) { t0 = c.pick<double>({0.5, 0.1, 3.25}); run["tStart"] = hc::num(t0); }
  run["nstepmax"] = std::to_string(start + nst);
  // times of an unrestricted run
  std::string dp = new_dir();
  hc::Ini probe = s.ini;
  with_dir(probe, dp);
  probe["run"]["enable_output"] = "false";
  probe["run"]["checkpoint_frequency"] = "1";
  launch(c, probe, 1);
  std::vector<double> T, A, DT;
  auto read_times = [&](const std::string& d, int first, int last) {
    T.clear();
    A.clear();
    DT.clear();
    for (int k = first; k <= last; k++)
    {
      double v[4] = {0, 0, 0, 0};
      if (pbt::real_rank() == 0)
      {
        hc::H5File f(d + "/restart_run_" + std::to_string(k) + ".h5");
        if (f.open())
        {
          auto at = f.attributes("scalar_data");
          v[0] = at.count("time") ? 1 : 0;
          if (at.count("time")) v[1] = at["time"].d[0];
          if (at.count("aexp")) v[2] = at["aexp"].d[0];
          if (at.count("dt")) v[3] = at["dt"].d[0];
        }
      }
      MPI_Bcast(v, 4, MPI_DOUBLE, 0, vp_real_world);
      PBT_CHECK(c, v[0] == 1 || k == first, "no checkpoint of iteration " << k << " although checkpoint_frequency=1");
      T.push_back(v[1]);
      A.push_back(v[2]);
      DT.push_back(v[3]);
    }
  };
  read_times(dp, start, start + nst);
  drop_dir(dp);
  c.sync();
  CosmoManager* cm = nullptr;
  std::unique_ptr<ConfigMap> ccfg;
  std::unique_ptr<CosmoManager> cmu;
  if (s.cosmo) { ccfg.reset(new ConfigMap(hc::to_text(s.ini))); cmu.reset(new CosmoManager(*ccfg)); cm = cmu.get(); t0 = cm->expansionToTime(cm->a_start); }
  T[0] = t0;
  double tl = T.back(), span = tl - t0;
  // stop criterion
  bool by_a = s.cosmo && c.coin();
  int stop = (int)c.draw(0, 2); // 0 iterations only, 1 end time inside, 2 end time never reached
  double tend = 0;
  bool have_tend = stop > 0;
  if (have_tend)
  {
    double f = c.pick<double>({0.5, 0.93, 0.21, 1e-3, 0.77});
    tend = stop == 1 ? t0 + f * span : t0 + 3 * span;
    if (stop == 1 && c.coin(1, 6) && nst > 1) { tend = T[c.draw(1, nst)]; c.label("end time equal to a step's time"); }
    if (s.cosmo) tend = std::min(tend, -1e-6);
    double a1_all = s.cosmo ? cm->timeToExpansion(std::min(tl, -1e-9)) : 0;
    if (by_a) { double a0 = cm->a_start, a1 = a1_all; tend = stop == 1 ? a0 + f * (a1 - a0) : a1 + 0.3 * (1 - a1); }
    if (stop == 2 && s.cosmo && (by_a ? a1_all > 0.98 : tl > -0.02)) stop = 0;
  }
  have_tend = stop > 0;
  if (have_tend)
  {
    if (by_a) run["t_end_var"] = "aexp";
    run["tEnd"] = hc::num(tend);
    if (tend <= 0) run["use_tEnd"] = "true";
    if (stop == 1) c.label(by_a ? "stops at an expansion factor" : "stops at a time");
    if (stop == 1 && c.coin(1, 3)) run["nstepmax"] = c.pick<std::string>({"-1", "0", "100000"});
  }
  else if (c.coin(1, 3)) { run["tEnd"] = hc::num(t0 + 0.01 * span); run["use_tEnd"] = "false"; c.label("end time switched off"); }
  // companion run with the same stop criterion
  std::string dq = new_dir();
  hc::Ini comp = s.ini;
  with_dir(comp, dq);
  comp["run"]["enable_output"] = "false";
  comp["run"]["checkpoint_frequency"] = "1";
  launch(c, comp, 1);
  auto cq = checkpoints(dq);
  int last = cq.empty() ? -1 : cq.back();
  MPI_Bcast(&last, 1, MPI_INT, 0, vp_real_world);
  PBT_CHECK(c, last > start - 1 && last < start + 100, "companion run ended at iteration " << last);
  c.sync();
  read_times(dq, start, last);
  drop_dir(dq);
  T[0] = t0;
  if (s.cosmo) A[0] = cm->a_start;
  c.desc << s.what << " start " << start << " t0 " << t0 << " nstepmax " << run["nstepmax"] << " tEnd " << (have_tend ? tend : 0) << (by_a ? " (aexp)" : "") << " last " << last;
  std::ostringstream pr;
  pr.precision(17);
  for (double t : T) pr << " " << t;
  for (size_t k = 1; k < T.size(); k++)
  {
    PBT_CHECK(c, T[k] > T[k - 1], "time does not increase from iteration " << start + (int)k - 1 << " (" << T[k - 1] << ") to the next (" << T[k] << ") [" << s.what << "] times" << pr.str());
    PBT_CHECK(c, std::fabs(T[k] - T[k - 1] - DT[k]) <= 4e-16 * (std::fabs(T[k]) + std::fabs(T[k - 1])), "iteration " << start + (int)k << ": time went from " << T[k - 1] << " to " << T[k] << " but dt is " << DT[k]);
    if (s.cosmo)
    {
      double e = cm->timeToExpansion(T[k]);
      PBT_CHECK(c, std::fabs(A[k] - e) <= 1e-12 * e, "iteration " << start + (int)k << ": expansion factor is " << A[k] << " but at time " << T[k] << " it is " << e);
    }
  }
  double end = T.back();
  if (stop == 1 && !by_a) PBT_CHECK(c, std::fabs(end - tend) <= 4.5e-16 * std::max(std::fabs(tend), std::fabs(t0)), "run ended at " << end << " instead of tEnd=" << tend << " times" << pr.str());
  if (stop == 1 && by_a)
  {
    double a = cm->timeToExpansion(end);
    // the table of expansion factors is interpolated linearly
    double h = (1.1 * cm->a_end - cm->a_start) / (double)(cm->lookup_size - 1), tol = 3e-6 + h * h / tend;
    PBT_CHECK(c, a <= tend + tol && a >= tend - tol, "run ended at expansion factor " << a << " instead of " << tend);
    PBT_CHECK(c, T.size() < 3 || cm->timeToExpansion(T[T.size() - 2]) < tend - 2e-8, "run went on after the expansion factor was reached");
  }
  if (stop != 1) PBT_CHECK(c, last == start + nst, "run ended at iteration " << last << " instead of " << start + nst);
  c.sync();
  // the run proper
  bool en_o = !c.coin(1, 8), en_c = !c.coin(1, 8);
  if (!en_o || c.coin()) run["enable_output"] = en_o ? "true" : "false";
  if (!en_c || c.coin()) run["enable_checkpoint"] = en_c ? "true" : "false";
  int of = (int)c.pick<int>({-1, 1, 2, 3, 5, 0, 100}), cf = (int)c.pick<int>({-1, 2, 1, 4, 0, 3});
  if (of != -1 || c.coin()) run["output_frequency"] = std::to_string(of);
  if (cf != -1 || c.coin()) run["checkpoint_frequency"] = std::to_string(cf);
  bool slice_a = s.cosmo && c.coin();
  double rng = slice_a ? cm->timeToExpansion(end) - cm->a_start : end - t0;
  auto interval = [&]() { return rng * c.pick<double>({0.31, 0.07, 1.7, 0.503, 0.013}); };
  double od = c.coin() ? interval() : -1, cd = c.coin() ? interval() : -1;
  bool old_names = slice_a && c.coin(); // output_expslice of older parameter files
  if (slice_a && !old_names) run["output_slice_var"] = "aexp";
  if (od > 0) run[old_names ? "output_expslice" : "output_timeslice"] = hc::num(od);
  if (cd > 0) run[old_names ? "checkpoint_expslice" : "checkpoint_timeslice"] = hc::num(cd);
  if (old_names) run["output_slice_var"] = "aexp";
  if (od > 0 || cd > 0) c.label(slice_a ? "intervals of the expansion factor" : "intervals of time");
  std::string d = new_dir();
  with_dir(s.ini, d);
  int n = (int)c.draw(1, np);
  launch(c, s.ini, n);
  c.desc << " out " << of << "/" << od << " check " << cf << "/" << cd;
  c.nontrivial = of > 0 || cf > 0 || od > 0 || cd > 0 || stop == 1;
  if (pbt::real_rank() == 0)
  {
    auto V = [&](size_t k) { return slice_a ? (k == 0 ? cm->a_start : cm->timeToExpansion(T[k])) : T[k]; };
    // 1 must, 0 must not, -1 undecided within rounding
    auto expect = [&](int freq, double dv, bool first) {
      std::vector<int> e(T.size(), 0);
      double lastk = dv > 0 ? std::floor(V(0) / dv) : 0;
      bool unsure = dv > 0 && std::fabs(V(0) / dv - std::round(V(0) / dv)) < 1e-9;
      for (size_t k = 0; k + 1 < T.size(); k++)
      {
        if (k == 0 && first) { e[k] = 1; continue; }
        if (k == 0) continue;
        if (freq > 0 && (start + (int)k) % freq == 0) e[k] = 1;
        if (dv > 0)
        {
          double q = V(k) / dv;
          bool tie = std::fabs(q - std::round(q)) < 1e-9 * std::max(1., std::fabs(q));
          if ((tie || unsure) && !e[k]) e[k] = -1;
          else if (std::floor(q) > lastk) e[k] = 1;
          unsure = tie;
          lastk = std::floor(q);
        }
      }
      e.back() = 1;
      return e;
    };
    auto match = [&](const char* what, const std::vector<int>& got, const std::vector<int>& e) {
      std::vector<int> must;
      for (size_t k = 0; k < e.size(); k++) if (e[k] == 1) must.push_back(start + (int)k);
      bool ok = true;
      std::set<int> g(got.begin(), got.end());
      for (size_t k = 0; k < e.size(); k++) { bool h = g.count(start + (int)k); if ((e[k] == 1 && !h) || (e[k] == 0 && h)) ok = false; g.erase(start + (int)k); }
      PBT_CHECK(c, ok && g.empty(), what << " written at iterations " << list(got) << ", expected " << list(must) << " [" << c.desc.str() << "] times" << pr.str());
    };
    auto go = outputs(d), gc = checkpoints(d);
    if (en_o) match("snapshots", go, expect(of, od, true));
    else PBT_CHECK(c, go.empty(), "snapshots written although run/enable_output=false");
    if (en_c) match("checkpoints", gc, expect(cf, cd, false));
    else PBT_CHECK(c, gc.empty(), "checkpoints written although run/enable_checkpoint=false");
    for (bool o : {true, false})
      for (int k : o ? go : gc)
      {
        char nm[64];
        snprintf(nm, 64, o ? "/run_iter%07d.h5" : "/restart_run_%d.h5", k);
        hc::H5File f(d + nm);
        auto at = f.attributes("scalar_data");
        PBT_CHECK(c, at.count("iter") && at["iter"].i[0] == k, "iteration recorded in " << nm << " differs");
        if (k - start >= 0 && k - start < (int)T.size())
        {
          PBT_CHECK(c, at.count("time") && at["time"].d[0] == T[k - start], "time in " << nm << " is " << at["time"].d[0] << ", the run was at " << T[k - start]);
          if (s.cosmo) PBT_CHECK(c, at.count("aexp") && std::fabs(at["aexp"].d[0] - cm->timeToExpansion(T[k - start])) <= 1e-12, "expansion factor in " << nm << " is " << (at.count("aexp") ? at["aexp"].d[0] : -1) << ", at that time it is " << cm->timeToExpansion(T[k - start]));
        }
      }
    c.checks += (long)T.size();
  }
  c.sync();
  drop_dir(d);
}

// ---------------------------------------------------------------- interruption
// flag of the time loop: stays set in this process once a signal was received (absent: only one interrupted run per process)
extern "C" unsigned char vp_interrupted __asm__("_ZN6dyablo14DyabloTimeLoop11interruptedE") __attribute__((weak));
#include <csignal>
namespace {
struct Plan
{
  bool armed = false;
  int at = 0;       // step to interrupt
  int calls = 0;    // number of MPI calls after the time step was computed
  int seen = 0;     // steps begun
  int left = -1;
  int raised = -1;  // step in which the signal was sent
  void send()
  {
    left = -1;
    struct sigaction sa;
    sigaction(SIGINT, nullptr, &sa);
    if (sa.sa_handler == SIG_DFL || sa.sa_handler == SIG_IGN) return; // the loop has ended
    armed = false;
    raised = seen;
    raise(SIGINT);
  }
  void tick()
  {
    seen++;
    if (!armed) return;
    if (seen == at) { left = calls; if (left == 0) send(); }
    else if (seen > at + 1) armed = false;
  }
  void call()
  {
    if (armed && left > 0 && --left == 0) send();
  }
};
Plan plan;
} // namespace
namespace dyablo {
// counts the steps; leaves the time step of the other kernels as it is
class VP_tick : public Compute_dt
{
public:
  VP_tick(ConfigMap&, ForeachCell&, Timers&) {}
  void compute_dt(const UserData&, ScalarSimulationData&) { plan.tick(); }
};
} // namespace dyablo
FACTORY_REGISTER(dyablo::Compute_dtFactory, dyablo::VP_tick, "VP_tick");
extern "C" {
#define VP_MPI(name, par, arg) int MPI_##name par { int r = PMPI_##name arg; plan.call(); return r; }
VP_MPI(Allreduce, (const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c), (a, b, n, t, o, c))
VP_MPI(Allgather, (const void* a, int n, MPI_Datatype t, void* b, int m, MPI_Datatype u, MPI_Comm c), (a, n, t, b, m, u, c))
VP_MPI(Alltoall, (const void* a, int n, MPI_Datatype t, void* b, int m, MPI_Datatype u, MPI_Comm c), (a, n, t, b, m, u, c))
VP_MPI(Waitall, (int n, MPI_Request* r_, MPI_Status* s), (n, r_, s))
VP_MPI(Isend, (const void* a, int n, MPI_Datatype t, int d, int g, MPI_Comm c, MPI_Request* q), (a, n, t, d, g, c, q))
VP_MPI(Bcast, (void* a, int n, MPI_Datatype t, int d, MPI_Comm c), (a, n, t, d, c))
VP_MPI(Scan, (const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c), (a, b, n, t, o, c))
}

// C28 a run that receives SIGINT ends after the step, on all processes, with a checkpoint to continue from
void C28(Case& c)
{
  Want w;
  w.small = c.coin(1, 3);
  w.cosmo = c.coin(1, 10);
  Spec s = gen_spec(c, w);
  s.ini["dt"]["dt_kernel"] += ",VP_tick";
  int np = pbt::real_size(), n = (int)c.draw(1, np);
  if (c.coin(3, 4)) n = np;
  int steps = (int)c.draw(3, 8), k = (int)c.draw(1, steps - 2), calls = (int)c.pick<int>({0, 0, 1, 2, 5, 12, 30, 80});
  std::vector<int> who;
  int first = (int)c.draw(0, n - 1);
  bool many = n > 1 && c.coin(1, 3);
  for (int r = 0; r < n; r++)
    if (r == first || (many && c.coin())) who.push_back(r);
  bool out = c.coin(1, 4);
  s.ini["run"]["enable_output"] = out ? "true" : "false";
  s.ini["run"]["nstepmax"] = std::to_string(steps);
  int freq = c.coin(1, 3) ? (int)c.draw(1, 3) : -1;
  c.desc << s.what << " steps " << steps << " np " << n << " signal in step " << k << " after " << calls << " MPI calls on";
  for (int r : who) c.desc << " " << r;
  static bool used = false;
  bool can_reset = &vp_interrupted != nullptr;
  if (used && !can_reset) { c.label("skipped: one interrupted run per process"); return; }
  std::string d0 = new_dir(), d1 = new_dir(), d2 = new_dir();
  hc::Ini full = s.ini, part = s.ini;
  full["run"]["enable_output"] = "false";
  full["run"]["checkpoint_frequency"] = "1";
  with_dir(full, d0);
  launch(c, full, n);
  if (freq > 0) part["run"]["checkpoint_frequency"] = std::to_string(freq);
  with_dir(part, d1);
  int me = pbt::real_rank();
  plan = Plan();
  plan.armed = std::find(who.begin(), who.end(), me) != who.end();
  plan.at = k;
  plan.calls = calls;
  launch(c, part, n);
  int got = plan.raised, lo = got < 0 ? 1 << 20 : got, seen = me < n ? plan.seen : -1;
  plan = Plan();
  used = true;
  if (can_reset) vp_interrupted = 0;
  MPI_Allreduce(MPI_IN_PLACE, &lo, 1, MPI_INT, MPI_MIN, vp_real_world);
  int smin = me < n ? seen : 1 << 20, smax = seen;
  MPI_Allreduce(MPI_IN_PLACE, &smin, 1, MPI_INT, MPI_MIN, vp_real_world);
  MPI_Allreduce(MPI_IN_PLACE, &smax, 1, MPI_INT, MPI_MAX, vp_real_world);
  std::vector<int> cp = checkpoints(d1), op = outputs(d1);
  int last = cp.empty() ? -1 : cp.back();
  MPI_Bcast(&last, 1, MPI_INT, 0, vp_real_world);
  c.nontrivial = lo < (1 << 20);
  if (lo < (1 << 20)) c.label(calls == 0 ? "signal while the step is computed" : "signal between MPI calls");
  if (who.size() > 1) c.label("several processes signalled");
  if (who.size() < (size_t)n) c.label("some processes not signalled");
  PBT_CHECK(c, smin == smax, "processes took between " << smin << " and " << smax << " steps");
  PBT_CHECK(c, last >= 0, "an interrupted run left no checkpoint");
  if (lo == (1 << 20)) PBT_CHECK(c, last == steps, "run without signal ended at iteration " << last << " instead of " << steps);
  else PBT_CHECK(c, last == lo || (calls > 0 && last == lo + 1), "signal in step " << lo << ": the run ended at iteration " << last);
  if (me == 0)
  {
    if (out) PBT_CHECK(c, !op.empty() && op.back() == last, "interrupted at iteration " << last << " but the last output is of iteration " << (op.empty() ? -1 : op.back()));
    PBT_CHECK(c, smax == last, "the last checkpoint is of iteration " << last << " but " << smax << " steps were made");
    State a = load(d0 + "/restart_run_" + std::to_string(last) + ".h5"), b = load(d1 + "/restart_run_" + std::to_string(last) + ".h5");
    std::string m = differ(a, b, s.tol(), s.exact ? 1e-13 : 1e-8);
    PBT_CHECK(c, m.empty(), "final checkpoint of the interrupted run, iteration " << last << ": " << m << " [" << s.what << "]");
    for (auto& f : a.fields) c.checks += (long)f.second.size();
  }
  c.sync();
  if ((can_reset || !c.nontrivial) && last < steps)
  {
    hc::Ini again;
    if (me == 0) again = read_ini(d1 + "/restart_run_" + std::to_string(last) + ".ini");
    again = bcast(again);
    for (auto& sec : again)
      for (auto& kv : sec.second)
      {
        std::string nm = kv.first;
        for (auto& ch : nm) ch = (char)tolower(ch);
        if (sec.first == "output" && nm == "outputdir") kv.second = d2;
      }
    launch(c, again, n);
    if (me == 0)
    {
      State a = load(d0 + "/restart_run_" + std::to_string(steps) + ".h5"), b = load(d2 + "/restart_run_" + std::to_string(steps) + ".h5");
      std::string m = differ(a, b, s.tol(), s.exact ? 1e-13 : 1e-8);
      PBT_CHECK(c, m.empty(), "run interrupted at iteration " << last << " and continued, at iteration " << steps << ": " << m << " [" << s.what << "]");
      c.label("continued");
    }
    c.sync();
  }
  drop_dir(d0);
  drop_dir(d1);
  drop_dir(d2);
}

void C32(Case&);
void C33(Case&);
void C34_run(Case&);
void C35(Case&);

int main(int argc, char** argv)
{
  if (argc > 1 && std::string(argv[1]) == "--serve") return serve(argc, argv);
  if (argc > 1 && std::string(argv[1]) == "--program") return dyablo_program(argc - 1, argv + 1);
  if (argc > 2 && std::string(argv[1]) == "--ini")
  {
    // developer helper: run one parameter file
    DyabloSession session(argc, argv);
    std::ifstream f(argv[2]);
    std::ostringstream t;
    t << f.rdbuf();
    run_here(t.str());
    return 0;
  }
  if (argc > 2 && std::string(argv[1]) == "--dump")
  {
    State s = load(argv[2]);
    for (auto v : s.octs) printf("%ld ", (long)v); printf("\nok %d iter %d time %.17g octs %zu\n", s.ok, s.iter, s.time, s.octs.size());
    for (auto& f : s.fields)
    {
      double lo = 1e300, hi = -1e300;
      size_t bad = 0;
      for (double v : f.second) { if (!std::isfinite(v)) bad++; else { lo = std::min(lo, v); hi = std::max(hi, v); } }
      printf("%s %zu values, %zu not finite, %g .. %g\n", f.first.c_str(), f.second.size(), bad, lo, hi);
    }
    return 0;
  }
  return pbt_main(argc, argv, {{"C12", C12}, {"C20_run", C20_run}, {"C23", C23}, {"C28", C28}, {"C32", C32}, {"C33", C33}, {"C34_run", C34_run}, {"C35", C35}});
}
