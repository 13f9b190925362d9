// C32 a run is reproducible and not changed by what observes it, C33 a step applies every configured process once
#include "run.h"
#include "compute_dt/Compute_dt.h"
#include "refine_condition/RefineCondition.h"
#include "init/InitialConditions_base.h"
#include "io/IOManager.h"
#include "gravity/GravitySolver.h"
#include "hydro/HydroUpdate.h"
#include "particles/ParticleUpdate.h"
#include "amr/MapUserData.h"
#include "parabolic/ParabolicUpdate.h"
#include "cooling/CoolingUpdate.h"
#include "UserData.h"
#include "Cosmo.h"
#include "mpi/GhostCommunicator.h"

namespace {
bool has(const hc::Ini& i, const std::string& s, const std::string& k)
{
  auto a = i.find(s);
  return a != i.end() && a->second.count(k);
}
std::string get(const hc::Ini& i, const std::string& s, const std::string& k, const std::string& d) { return has(i, s, k) ? i.at(s).at(k) : d; }
bool periodic(const hc::Ini& i)
{
  for (auto* e : {"min", "max"})
    for (auto* a : {"x", "y", "z"})
    {
      if (*a == 'z' && get(i, "mesh", "ndim", "3") == "2") continue;
      std::string k = std::string("boundary_type_") + a + e;
      if (has(i, "mesh", k) && get(i, "mesh", k, "") != "periodic") return false;
    }
  return true;
}
void add_particles(Case& c, Spec& s, const char* update)
{
  int np = (int)c.pick<int>({5, 1, 17});
  uint64_t ps = c.salt();
  auto& i = s.ini;
  int dim = std::stoi(get(i, "mesh", "ndim", "3"));
  i["run"]["initial_conditions"] += ",simple_particles";
  i["simple_particles"]["npart"] = std::to_string(np);
  static const char* kn[] = {"px", "py", "pz", "vx", "vy", "vz", "mass"};
  for (int k = 0; k < 7; k++)
  {
    double lo = 0, hi = 1;
    if (k < 3) { lo = std::stod(get(i, "mesh", std::string(1, "xyz"[k]) + "min", "0")); hi = std::stod(get(i, "mesh", std::string(1, "xyz"[k]) + "max", "1")); }
    std::string t;
    for (int q = 0; q < np; q++)
    {
      double u = pbt::u01(ps + 1000 * k + q);
      double v = k < 3 ? (k >= dim ? lo : lo + (0.02 + 0.96 * u) * (hi - lo)) : k < 6 ? (k - 3 >= dim ? 0 : 2 * u - 1) : 0.01 + 0.02 * u;
      t += (q ? "," : "") + hc::num(v);
    }
    i["simple_particles"][kn[k]] = t;
  }
  i["particles"]["update_position"] = update;
}
// further processes on top of those of the generated run
void add_processes(Case& c, Spec& s)
{
  auto& i = s.ini;
  bool mhd = get(i, "hydro", "update", "").find("MHD") != std::string::npos;
  if (!mhd && !s.small_blocks && !s.cosmo && !has(i, "viscosity", "update") && !has(i, "thermal_conduction", "update") && periodic(i) && c.coin(1, 3))
  {
    int q = (int)c.draw(1, 3);
    if (q & 1) { i["viscosity"]["update"] = "ParabolicUpdate_explicit"; i["viscosity"]["mu"] = "0.002"; }
    if (q & 2) { i["thermal_conduction"]["update"] = "ParabolicUpdate_explicit"; i["thermal_conduction"]["kappa"] = "0.003"; }
    i["dt"]["dt_kernel"] += ",Compute_dt_parabolic";
    i["dt"]["parabolic_cfl"] = c.coin() ? "0.3" : "0.05";
  }
  if (!mhd && !has(i, "cooling", "update") && c.coin(1, 3)) { i["cooling"]["update"] = "CoolingUpdate_FF"; i["cooling"]["FF_fluxes"] = "0.01"; }
  if (!s.particles && periodic(i) && c.coin(1, 4))
  {
    add_particles(c, s, "ParticleUpdate_tracers_move");
    s.particles = true;
    if (c.coin()) { i["dt"]["dt_kernel"] += ",Compute_dt_particle_velocity"; i["dt"]["particle_cfl"] = c.coin() ? "0.5" : "0.05"; }
  }
  if (c.coin(1, 4)) // order of the limits
  {
    std::string k = i["dt"]["dt_kernel"], r;
    std::istringstream is(k);
    std::string w;
    while (std::getline(is, w, ',')) r = r.empty() ? w : w + "," + r;
    i["dt"]["dt_kernel"] = r;
  }
}
// same bits (or both not a number)
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
std::string differ_bits(const State& a, const State& b, bool parts)
{
  std::ostringstream o;
  o.precision(17);
  if (!a.ok || !b.ok) { o << "checkpoint cannot be read (" << a.ok << b.ok << ")"; return o.str(); }
  if (a.iter != b.iter) { o << "iteration " << b.iter << " instead of " << a.iter; return o.str(); }
  for (auto& s : a.scal) if (!b.scal.count(s.first) || !same(s.second, b.scal.at(s.first))) { o << "scalar " << s.first << " is " << (b.scal.count(s.first) ? b.scal.at(s.first) : NAN) << " instead of " << s.second; return o.str(); }
  if (a.octs != b.octs) { o << "mesh differs (" << b.octs.size() << " numbers instead of " << a.octs.size() << ")"; return o.str(); }
  for (auto& f : a.fields)
  {
    auto it = b.fields.find(f.first);
    if (it == b.fields.end() || it->second.size() != f.second.size()) { o << "field " << f.first << " is missing or has another size"; return o.str(); }
    for (size_t k = 0; k < f.second.size(); k++)
      if (!same(f.second[k], it->second[k])) { o << "field " << f.first << " value " << k << " is " << it->second[k] << " instead of " << f.second[k]; return o.str(); }
  }
  for (auto& f : b.fields) if (!a.fields.count(f.first)) { o << "field " << f.first << " appeared"; return o.str(); }
  if (!parts) return "";
  if (a.attrs != b.attrs) { o << "particle arrays or attributes differ"; return o.str(); }
  for (auto& p : a.parts)
  {
    auto it = b.parts.find(p.first);
    if (it == b.parts.end() || it->second.size() != p.second.size()) { o << "number of particles of " << p.first << " differs"; return o.str(); }
    for (size_t k = 0; k < p.second.size(); k++)
      for (size_t q = 0; q < p.second[k].size(); q++)
        if (!same(p.second[k][q], it->second[k][q])) { o << "particle " << k << " of " << p.first << " (sorted) has " << it->second[k][q] << " instead of " << p.second[k][q]; return o.str(); }
  }
  return "";
}
State last_state(const std::string& d)
{
  auto l = checkpoints(d);
  return l.empty() ? State() : load(d + "/restart_run_" + std::to_string(l.back()) + ".h5");
}
} // namespace

void C32(Case& c)
{
  Want w;
  w.cosmo = c.coin(1, 8);
  Spec s = gen_spec(c, w);
  int np = pbt::real_size(), n = c.coin(1, 4) ? (int)c.draw(1, np) : np;
  auto& run = s.ini["run"];
  run["nstepmax"] = std::to_string(c.draw(1, 6));
  if (c.coin(1, 3)) { run["tEnd"] = hc::num(s.dt_est * (double)c.draw(1, 20)); if (s.cosmo) run["tEnd"] = "-1e-9", run["use_tEnd"] = "true"; }
  run["enable_output"] = "false";
  std::string d0 = new_dir();
  hc::Ini ref = s.ini;
  with_dir(ref, d0);
  launch(c, ref, n);
  State a;
  c.desc << s.what << " on " << n << " steps " << run["nstepmax"];
  if (pbt::real_rank() == 0)
  {
    a = last_state(d0);
    PBT_CHECK(c, a.ok, "no final checkpoint");
  }
  c.sync();
  bool seq = threads() == 1;
  for (int v = 0; v < 2; v++)
  {
    hc::Ini q = s.ini;
    std::string d = new_dir(), how = "the same run again";
    bool tracers = false;
    if (v)
    {
      how = "the run with";
      if (c.coin(2, 3))
      {
        q["run"]["enable_output"] = "true";
        how += " output";
        int o = (int)c.draw(0, 2);
        if (o == 0) q["run"]["output_frequency"] = std::to_string(c.draw(1, 3));
        else if (o == 1) { q["run"]["output_timeslice"] = hc::num(s.dt_est * c.real(0.1, 4, 13)); if (s.cosmo) q["run"]["output_timeslice"] = "0.05"; }
        std::string wv = "rho";
        for (auto* nm : {"e_tot", "rho_vx", "rho_vy", "level", "ioct", "rank", "unknown_variable"}) if (c.coin()) wv += std::string(",") + nm;
        q["output"]["write_variables"] = wv;
        if (s.particles && c.coin()) q["output"]["write_particle_variables"] = c.coin() ? "particles/vx,particles/mass" : "particles";
        if (c.coin()) q["output"]["output_real_type"] = c.coin() ? "double" : "float";
      }
      if (c.coin()) { q["run"]["checkpoint_frequency"] = std::to_string(c.draw(1, 3)); how += " checkpoints"; }
      if (c.coin(1, 3)) { q["run"]["checkpoint_timeslice"] = s.cosmo ? "0.07" : hc::num(s.dt_est * c.real(0.1, 4, 13)); how += " checkpoint interval"; }
      if (c.coin()) { q["run"]["nlog"] = std::to_string(c.draw(1, 3)); how += " log"; }
      if (!s.particles && periodic(s.ini) && c.coin())
      {
        Spec t = s;
        t.ini = q;
        add_particles(c, t, "ParticleUpdate_tracers_move");
        q = t.ini;
        tracers = true;
        how += " tracers";
      }
    }
    with_dir(q, d);
    launch(c, q, n);
    c.desc << " | " << how;
    if (pbt::real_rank() == 0)
    {
      State b = last_state(d);
      std::string m;
      if (seq) m = differ_bits(a, b, !tracers);
      else { if (tracers) b.parts = a.parts, b.attrs = a.attrs; m = differ(a, b, s.tol(), s.exact ? 1e-13 : 1e-8); }
      PBT_CHECK(c, m.empty(), how << ": " << m << " [" << s.what << "]");
      for (auto& f : a.fields) c.checks += (long)f.second.size();
      if (v) c.label(tracers ? "tracers added" : "files or logs added");
    }
    drop_dir(d);
    c.sync();
  }
  c.nontrivial = true;
  drop_dir(d0);
}

// ---------------------------------------------------------------- steps composed of the single operators
namespace {
// what a run has to do, one operator after the other, written to a checkpoint
void model_run(const std::string& text)
{
  ConfigMap cfg(text);
  Timers timers;
  auto mp = AMRmesh::parse_parameters(cfg);
  AMRmesh mesh(mp.dim, mp.dim, mp.periodic, mp.level_min, mp.level_max, mp.coarse_grid_size);
  ForeachCell fc(mesh, cfg);
  UserData U(cfg, fc);
  ScalarSimulationData sd;
  for (auto& id : cfg.getValue<std::vector<std::string>>("run", "initial_conditions")) InitialConditionsFactory::make_instance(id, cfg, fc, timers)->init(U);
  U.distributeAllParticles();
  CosmoManager cosmo(cfg);
  int iter = cfg.getValue<int>("run", "iter_start", 0);
  double time = cfg.getValue<real_t>("run", "tStart", cosmo.cosmo_run ? cosmo.expansionToTime(cosmo.a_start) : 0);
  sd.set("iter", iter);
  sd.set("time", (real_t)time);
  auto expansion = [&](double a) { if (cosmo.cosmo_run) { sd.set("aexp", (real_t)a); sd.set("z", (real_t)(1 / a - 1)); } };
  expansion(cosmo.a_start);
  // operators in the order they are configured
  auto grav = GravitySolverFactory::make_instance(cfg.getValue<std::string>("gravity", "solver", "none"), cfg, fc, timers);
  bool field = grav && (cfg.getValue<GravityType>("gravity", "gravity_type", GRAVITY_NONE) & GRAVITY_FIELD);
  std::string hid = cfg.getValue<std::string>("hydro", "update", "HydroUpdate_hancock");
  auto hydro = HydroUpdateFactory::make_instance(hid, cfg, fc, timers);
  auto move = ParticleUpdateFactory::make_instance(cfg.getValue<std::string>("particles", "update_position", "none"), cfg, fc, timers);
  auto density = ParticleUpdateFactory::make_instance(cfg.getValue<std::string>("particles", "update_density", "none"), cfg, fc, timers);
  auto remap = MapUserDataFactory::make_instance("MapUserData_mean", cfg, fc, timers);
  std::vector<std::unique_ptr<Compute_dt>> dts;
  for (auto& id : cfg.getValue<std::vector<std::string>>("dt", "dt_kernel", {"Compute_dt_hydro"})) dts.push_back(Compute_dtFactory::make_instance(id, cfg, fc, timers));
  auto refine = RefineConditionFactory::make_instance(cfg.getValue<std::string>("amr", "markers_kernel", "RefineCondition_second_derivative_error"), cfg, fc, timers);
  std::unique_ptr<ParabolicUpdate> visc, cond;
  std::unique_ptr<CoolingUpdate> cool;
  std::string id;
  if ((id = cfg.getValue<std::string>("viscosity", "update", "none")) != "none") visc = ParabolicUpdateFactory::make_instance(id, cfg, fc, timers, PARABOLIC_VISCOSITY);
  if ((id = cfg.getValue<std::string>("thermal_conduction", "update", "none")) != "none") cond = ParabolicUpdateFactory::make_instance(id, cfg, fc, timers, PARABOLIC_THERMAL_CONDUCTION);
  if ((id = cfg.getValue<std::string>("cooling", "update", "none")) != "none") cool = CoolingUpdateFactory::make_instance(id, cfg, fc, timers);
  int amr_every = cfg.getValue<int>("amr", "cycle_frequency", 1), lb_every = cfg.getValue<int>("amr", "load_balancing_frequency", 1000);
  int coherent = cfg.getValue<int>("amr", "loadbalance_coherent_levels", 3), nmax = cfg.getValue<int>("run", "nstepmax", 1000);
  double tend = cfg.getValue<real_t>("run", "tEnd", 0);
  bool use_tend = cfg.getValue<bool>("run", "use_tEnd", tend > 0);
  std::vector<std::string> state = {"rho", "e_tot", "rho_vx", "rho_vy", "rho_vz"};
  if (hid.find("MHD") != std::string::npos) for (auto* b : {"Bx", "By", "Bz"}) state.push_back(b);
  if (hid.find("GLM") != std::string::npos) state.push_back("psi");
  auto ghosts = [&]() { GhostCommunicator_full_blocks(mesh).exchange_ghosts(hc::accessor(U, [&] { std::vector<std::string> n; for (auto& f : U.getEnabledFields()) n.push_back(f); return n; }())); };

  auto stop = [&]() { return (nmax > 0 && iter >= nmax) || (use_tend && time >= tend); };
  while (!stop())
  {
    double dt = 1e300;
    for (auto& k : dts) { k->compute_dt(U, sd); dt = std::min(dt, (double)sd.get<real_t>("dt")); }
    if (use_tend && time + dt > tend) dt = tend - time;
    sd.set("dt", (real_t)dt);
    if (field)
    {
      if (!U.has_field("gx")) U.new_fields({"gx", "gy", "gz"});
      if (!U.has_field("gphi")) U.new_fields({"gphi"});
    }
    ghosts();
    if (grav)
    {
      if (density)
      {
        // the field of gas and particles
        U.new_fields({"rho_g"});
        density->update(U, sd);
        U.move_field("keep_rho", "rho");
        U.move_field("rho", "rho_g");
      }
      grav->update_gravity_field(U, sd);
      ghosts();
      if (density) U.move_field("rho", "keep_rho");
    }
    if (move)
    {
      move->update(U, sd);
      U.distributeAllParticles();
    }
    if (hydro)
    {
      std::set<std::string> next;
      for (auto& n : state) next.insert(n + "_next");
      U.new_fields(next);
      hydro->update(U, sd);
      if (visc) visc->update(U, sd);
      if (cond) cond->update(U, sd);
      if (cool) cool->update(U, sd);
      for (auto& n : state) U.move_field(n, n + "_next");
    }
    iter++;
    time += dt;
    sd.set("iter", iter);
    sd.set("time", (real_t)time);
    if (cosmo.cosmo_run) expansion(cosmo.timeToExpansion(time));
    if (amr_every > 0 && iter % amr_every == 0)
    {
      ghosts();
      refine->mark_cells(U, sd);
      remap->save_old_mesh();
      mesh.adapt(true);
      remap->remap(U);
      U.distributeAllParticles();
    }
    if (lb_every > 0 && iter % lb_every == 0)
    {
      mesh.loadBalance_userdata(coherent, U);
      U.distributeAllParticles();
    }
  }
  IOManagerFactory::make_instance("IOManager_checkpoint", cfg, fc, timers)->save_snapshot(U, sd);
}
} // namespace

void C33(Case& c)
{
  Want w;
  w.cosmo = c.coin(1, 8);
  Spec s = gen_spec(c, w);
  add_processes(c, s);
  int np = pbt::real_size(), n = c.coin(1, 4) ? (int)c.draw(1, np) : np;
  auto& run = s.ini["run"];
  int start = c.coin(1, 5) ? (int)c.draw(1, 9) : 0, steps = (int)c.draw(1, 4);
  if (start) run["iter_start"] = std::to_string(start);
  run["nstepmax"] = std::to_string(start + steps);
  if (!s.cosmo && c.coin(1, 5)) run["tStart"] = "0.5";
  if (!s.cosmo && c.coin(1, 4)) run["tEnd"] = hc::num((has(s.ini, "run", "tStart") ? 0.5 : 0) + s.dt_est * c.real(0.05, 4, 13));
  run["enable_output"] = "false";
  std::string d0 = new_dir(), d1 = new_dir();
  hc::Ini a = s.ini, b = s.ini;
  with_dir(a, d0);
  with_dir(b, d1);
  launch(c, a, n);
  hc::on_procs(c, n, [&]() { model_run(hc::to_text(b)); });
  c.desc << s.what << " on " << n << " steps " << steps;
  for (auto* k : {"viscosity", "thermal_conduction", "cooling", "gravity", "particles", "cosmology"})
    if (s.ini.count(k)) { c.label(k); c.desc << " " << k; }
  if (pbt::real_rank() == 0)
  {
    State x = last_state(d1), y = last_state(d0);
    PBT_CHECK(c, x.ok, "the composed steps left no checkpoint");
    std::string m = differ(x, y, s.tol(), s.exact ? 1e-13 : 1e-8);
    PBT_CHECK(c, m.empty(), "time loop against the operators applied one by one: " << m << " [" << s.what << " dt " << s.ini["dt"]["dt_kernel"] << "]");
    for (auto& f : x.fields) c.checks += (long)f.second.size();
    c.nontrivial = x.octs.size() > 4;
  }
  drop_dir(d0);
  drop_dir(d1);
  c.sync();
}
