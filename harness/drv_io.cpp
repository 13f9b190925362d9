// C20 checkpoint and restart, C21 output files
#include "common.h"
#include "subcomm.h"
#include "h5file.h"
#include "utils/monitoring/Timers.h"
#include "ScalarSimulationData.h"
#include "io/IOManager.h"
#include "init/InitialConditions.h"
#include "amr/MapUserData.h"
#include "main.h"
#include <filesystem>
#include <regex>
using namespace dyablo;
using pbt::Case;
namespace fs = std::filesystem;

namespace {
std::string uniq(const char* what)
{
  static int n = 0;
  return std::string(what) + std::to_string(n++);
}
double special(uint64_t h, int kind)
{
  double u = 2 * pbt::u01(h) - 1;
  if (kind == 0) return u;
  if (kind == 1) return std::ldexp(u, (int)(pbt::mix64(h + 1) % 200) - 100);
  if (kind == 2) return (double)(int)(u * 1000);
  static const double v[] = {0., -0., 1e300, -1e-300, 4.9e-324, 1. / 3, 16777217., 1e-45};
  return v[pbt::mix64(h + 3) % 8];
}
struct PArr
{
  std::string name;
  std::vector<std::string> attrs; // the first is "id"
  int64_t n;
};
// rows (attributes..., x, y, z) of all processes, sorted
std::vector<std::vector<double>> gather_particles(const UserData& U, const std::string& name, const std::vector<std::string>& attrs)
{
  std::vector<double> loc;
  auto arr = U.getParticleArray(name);
  std::vector<UserData::ParticleAccessor> acc;
  for (auto& a : attrs) acc.push_back(U.getParticleAccessor(name, {{a, 0}}));
  for (uint32_t i = 0; i < arr.getNumParticles(); i++)
  {
    for (auto& a : acc) loc.push_back(a.at(i, 0));
    for (int a = 0; a < 3; a++) loc.push_back(arr.pos(i, (ComponentIndex3D)a));
  }
  auto all = hc::gatherv(loc);
  size_t w = attrs.size() + 3;
  std::vector<std::vector<double>> r;
  for (size_t k = 0; k < all.size(); k += w) r.emplace_back(all.begin() + k, all.begin() + k + w);
  std::sort(r.begin(), r.end());
  return r;
}
bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }

struct Setup
{
  hc::Grid g;
  std::shared_ptr<AMRmesh> m;
  std::unique_ptr<ConfigMap> cfg;
  std::unique_ptr<ForeachCell> fc;
  std::unique_ptr<UserData> U;
  Timers timers;
  ScalarSimulationData sd;
  hc::Ini ini;
  std::vector<std::string> names;
  std::vector<PArr> parts;
  std::string dir, prefix;
};
void gen_mesh_data(Case& c, Setup& s, bool tiny = false, bool tiled = false)
{
  mg::GenOpt o;
  o.allow_deep = !tiled;
  if (tiled) { o.force_periodic = true; o.allow_nonsquare = false; }
  o.allow_tiny = tiny || pbt::mpi_size() == 1; // restart refuses fewer octants than processes
  o.max_octs = 150;
  o.max_coarse3 = 2;
  o.max_coarse2 = 4;
  s.m = mg::gen_mesh(c, s.g.p, o, 3);
  hc::gen_geometry(c, s.g, false, false, 4);
  if (c.coin(1, 3)) mg::lb(*s.m, (uint8_t)c.draw(0, 3)); // the distribution may follow another rule than the reader's
  s.ini = hc::base_ini(s.g);
}
void fill_data(Case& c, Setup& s, bool particles = true)
{
  s.fc.reset(new ForeachCell(*s.m, *s.cfg));
  s.U.reset(new UserData(*s.cfg, *s.fc));
  UserData& U = *s.U;
  std::vector<std::string> pool = {"rho", "e_tot", "gphi", "Bx", "a_b", "rho_vx", "psi"};
  int nf = (int)c.draw(1, 5), first = (int)c.draw(0, 6);
  for (int k = 0; k < nf; k++) s.names.push_back(pool[(first + k) % pool.size()]);
  bool drop = c.coin(1, 3);
  if (drop) U.new_fields({"tmp0"});
  for (auto& n : s.names) U.new_fields({n});
  int kind = (int)c.draw(0, 3);
  uint64_t salt = c.salt();
  for (auto& n : s.names)
    hc::fill(s.g, *s.m, U, n, [&](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) { return special(pbt::hash_combine(salt, hc::cell_hash(n, o, i, j, k)), kind); });
  if (drop) U.delete_field("tmp0");
  int na = particles ? (int)c.draw(0, 2) : 0, np = pbt::mpi_size(), me = pbt::mpi_rank();
  for (int q = 0; q < na; q++)
  {
    PArr p;
    p.name = q ? "stars" : "particles";
    p.attrs = {"id"};
    int at = (int)c.draw(0, 3);
    for (int k = 0; k < at; k++) p.attrs.push_back(std::vector<std::string>{"mass", "vx", "vy"}[k]);
    p.n = c.pick<int>({12, 1, 5, 40, 0, 3});
    bool uneven = c.coin();
    uint64_t ps = c.salt();
    std::vector<int64_t> mine;
    for (int64_t i = 0; i < p.n; i++)
      if ((uneven ? (int)(pbt::mix64(ps + i) % np) * (int)(pbt::mix64(ps + i + 1000) % 2) : (int)(i % np)) == me) mine.push_back(i);
    U.new_ParticleArray(p.name, (uint32_t)mine.size());
    auto arr = U.getParticleArray(p.name);
    for (auto& a : p.attrs) U.new_ParticleAttribute(p.name, a);
    for (size_t z = 0; z < p.attrs.size(); z++)
    {
      auto acc = U.getParticleAccessor(p.name, {{p.attrs[z], 0}});
      for (size_t i = 0; i < mine.size(); i++) acc.at(i, 0) = z == 0 ? (double)mine[i] : special(ps + 17 * z + mine[i], kind);
    }
    for (size_t i = 0; i < mine.size(); i++)
      for (int a = 0; a < 3; a++)
      {
        double u = std::min(1 - 1e-7, std::max(1e-7, pbt::u01(ps + 1000003 * (a + 1) + mine[i])));
        arr.pos(i, (ComponentIndex3D)a) = a == 2 && s.g.p.dim == 2 ? s.g.lo[a] : s.g.lo[a] + u * s.g.L(a);
      }
    if (c.coin(3, 4)) U.distributeParticles(p.name);
    s.parts.push_back(p);
  }
}
void gen_scalars(Case& c, ScalarSimulationData& sd)
{
  sd.set<int>("iter", (int)c.pick<int>({0, 1, 7, 99, 123456, 1000000}));
  sd.set<real_t>("time", c.pick<double>({0., 0.1, 1. / 3, 1e-300, 12345.678901234567, 1e10 / 3, 5e-324, 0.30000000000000004}));
  sd.set<real_t>("dt", c.real(1e-9, 1, 1000) / 3);
  if (c.coin()) { sd.set<real_t>("aexp", c.real(0.01, 1, 777)); sd.set<real_t>("z", c.real(0, 9, 333)); }
}
} // namespace

namespace {
// a periodic run repeated rep[0] x rep[1] x rep[2] times, one copy per process
template <class Snap> void tiled_restart(Case& c, Setup& s, const Snap& truth, const std::string& fn)
{
  const mg::Params& p = s.g.p;
  int np = pbt::mpi_size(), ld = 0;
  std::array<uint32_t, 3> rep = {1, 1, 1};
  for (int n = np >= 4 ? (int)c.pick<int>({2, 4, 1}) : np >= 2 ? (int)c.pick<int>({2, 1}) : 1; n > 1; n /= 2) rep[c.draw(0, p.dim - 1)] *= 2;
  for (uint32_t r : rep) while ((1u << ld) < r) ld++;
  int n = (int)(rep[0] * rep[1] * rep[2]);
  mg::Params q = p;
  q.lmin += ld;
  q.lmax += ld;
  hc::Ini ini = s.ini;
  ini["amr"]["level_min"] = std::to_string(q.lmin);
  ini["amr"]["level_max"] = std::to_string(q.lmax);
  for (int a = 0; a < p.dim; a++)
  {
    std::string x(1, "xyz"[a]);
    q.coarse[a] *= rep[a];
    ini["amr"]["coarse_oct_resolution_" + x] = std::to_string(q.coarse[a]);
    ini["mesh"][x + "max"] = hc::num(s.g.lo[a] + rep[a] * (s.g.hi[a] - s.g.lo[a]));
  }
  for (int a = 0; a < 3; a++) ini["restart"]["nrep_" + std::string(1, "xyz"[a])] = std::to_string(rep[a]);
  ini["restart"]["filename"] = fn + ".h5";
  c.label("tiled restart");
  c.desc << " tiled " << rep[0] << "x" << rep[1] << "x" << rep[2];
  hc::on_procs(c, n, [&]() {
    ConfigMap cfg(hc::to_text(ini));
    auto pp = AMRmesh::parse_parameters(cfg);
    AMRmesh mesh(pp.dim, pp.dim, pp.periodic, pp.level_min, pp.level_max, pp.coarse_grid_size);
    ForeachCell fc(mesh, cfg);
    UserData U(cfg, fc);
    Timers tm;
    InitialConditionsFactory::make_instance("tiled_restart", cfg, fc, tm)->init(U);
    hc::Grid g = s.g;
    g.p = q;
    auto octs = mg::gather(q, mesh);
    PBT_CHECK(c, octs.size() == n * truth.octs.size(), "tiled mesh has " << octs.size() << " blocks, expected " << n << " times " << truth.octs.size());
    PBT_CHECK(c, U.getEnabledFields() == std::set<std::string>(s.names.begin(), s.names.end()), "set of fields differs after the tiled restart");
    if (c.failed_local) return;
    std::map<std::array<uint32_t, 4>, size_t> at;
    for (size_t i = 0; i < truth.octs.size(); i++) at[mg::key(truth.octs[i].level, truth.octs[i].c)] = i;
    auto got = hc::snapshot(g, mesh, U, s.names);
    size_t w = s.names.size() * got.cells;
    std::set<std::array<uint32_t, 4>> seen;
    for (size_t i = 0; i < got.octs.size(); i++)
    {
      const mg::Oct& o = got.octs[i];
      seen.insert(mg::key(o.level, o.c));
      mg::C3 k = o.c;
      for (int a = 0; a < p.dim; a++) k[a] %= p.count(a, o.level - ld);
      auto it = at.find(mg::key(o.level - ld, k));
      PBT_CHECK(c, it != at.end(), "block " << mg::str(o) << " of the tiled mesh has no block in the checkpoint");
      if (it == at.end()) return;
      for (size_t j = 0; j < w; j++)
        if (!same(got.v[i * w + j], truth.v[it->second * w + j]))
        {
          PBT_CHECK(c, false, "tiled field " << s.names[j / got.cells] << " of block " << mg::str(o) << " cell " << j % got.cells << " is " << got.v[i * w + j] << ", was " << truth.v[it->second * w + j]);
          return;
        }
    }
    PBT_CHECK(c, seen.size() == got.octs.size(), "blocks listed twice in the tiled mesh");
    c.checks += (long)got.v.size();
  });
  MPI_Barrier(MPI_COMM_WORLD);
}
} // namespace

void C20(Case& c)
{
  Setup s;
  bool tiled = c.coin(1, 4);
  gen_mesh_data(c, s, false, tiled);
  s.prefix = c.pick<std::string>({"output", "run_1", "a.b"});
  bool sub = c.coin(1, 3);
  s.dir = sub ? uniq("d") : ".";
  if (sub && pbt::mpi_rank() == 0) fs::create_directory(s.dir);
  MPI_Barrier(MPI_COMM_WORLD);
  s.prefix += uniq("_");
  s.ini["output"]["outputDir"] = s.dir;
  s.ini["output"]["outputPrefix"] = s.prefix;
  s.ini["run"]["initial_conditions"] = c.pick<std::string>({"blast", "blast,simple_particles"});
  s.ini["run"]["tEnd"] = "1.5";
  s.ini["hydro"]["gamma0"] = c.pick<std::string>({"1.4", "1.6666666666666667", "5e0"});
  s.cfg.reset(new ConfigMap(hc::to_text(s.ini)));
  s.cfg->getValue<real_t>("hydro", "gamma0", 1.4);
  double dflt = c.pick<double>({0.1, 1. / 3, 1e-7});
  s.cfg->getValue<real_t>("my", "default_value", dflt);
  AMRmesh::parse_parameters(*s.cfg);
  fill_data(c, s, !tiled);
  gen_scalars(c, s.sd);
  auto io = IOManagerFactory::make_instance("IOManager_checkpoint", *s.cfg, *s.fc, s.timers);
  int iter = s.sd.get<int>("iter");
  double time = s.sd.get<real_t>("time");
  auto truth = hc::snapshot(s.g, *s.m, *s.U, s.names);
  std::vector<std::vector<std::vector<double>>> ptruth;
  for (auto& p : s.parts) ptruth.push_back(gather_particles(*s.U, p.name, p.attrs));
  io->save_snapshot(*s.U, s.sd);
  if (c.coin(1, 3))
  {
    // a later checkpoint must leave the first one alone
    hc::fill(s.g, *s.m, *s.U, s.names[0], [&](const mg::Oct&, uint32_t, uint32_t, uint32_t) { return 3.5; });
    s.sd.set<int>("iter", iter + 1);
    s.sd.set<real_t>("time", time + 1);
    io->save_snapshot(*s.U, s.sd);
  }
  io.reset();
  int np = pbt::mpi_size(), n = (int)c.draw(1, np);
  c.desc << s.g.str() << " fields " << s.names.size() << " particle arrays " << s.parts.size() << " blocks " << truth.octs.size() << " iter " << iter << " read by " << n << " of " << np;
  c.nontrivial = truth.octs.size() > 1 && (n != np || np == 1 || !s.parts.empty());
  if (n != np) c.label("other process count");
  if (!s.parts.empty()) c.label("particles");
  std::ostringstream fn;
  fn << s.dir << "/restart_" << s.prefix << "_" << iter;
  c.sync();
  MPI_Barrier(MPI_COMM_WORLD);
  if (tiled) tiled_restart(c, s, truth, fn.str());
  hc::on_procs(c, n, [&]() {
    ConfigMap cfg = ConfigMap::broadcast_parameters(fn.str() + ".ini");
    auto ic = cfg.getValue<std::vector<std::string>>("run", "initial_conditions");
    PBT_CHECK(c, ic.size() == 1 && ic[0] == "restart", "restart file does not select the restart: run/initial_conditions");
    PBT_CHECK(c, same(cfg.getValue<real_t>("run", "tStart", -1), time), "time recorded as " << cfg.getValue<real_t>("run", "tStart", -1) << ", was " << time);
    PBT_CHECK(c, cfg.getValue<int>("run", "iter_start", -1) == iter, "iteration recorded as " << cfg.getValue<int>("run", "iter_start", -1) << ", was " << iter);
    PBT_CHECK(c, same(cfg.getValue<real_t>("my", "default_value", -1), dflt), "a default value used by the run is not recorded exactly");
    for (auto& sec : s.ini)
      for (auto& kv : sec.second)
        if (kv.first != "initial_conditions")
          PBT_CHECK(c, cfg.getValue<std::string>(sec.first, kv.first, "") == kv.second, "recorded value of " << sec.first << "/" << kv.first << " differs");
    auto p = AMRmesh::parse_parameters(cfg);
    AMRmesh mesh(p.dim, p.dim, p.periodic, p.level_min, p.level_max, p.coarse_grid_size);
    ForeachCell fc(mesh, cfg);
    UserData U(cfg, fc);
    Timers tm;
    auto init = InitialConditionsFactory::make_instance("restart", cfg, fc, tm);
    init->init(U);
    auto octs = mg::gather(s.g.p, mesh);
    PBT_CHECK(c, octs.size() == truth.octs.size(), "restored mesh has " << octs.size() << " blocks, checkpointed mesh had " << truth.octs.size());
    bool ok = octs.size() == truth.octs.size();
    for (size_t i = 0; ok && i < octs.size(); i++)
      if (!(octs[i] == truth.octs[i])) { PBT_CHECK(c, false, "restored block " << i << " is " << mg::str(octs[i]) << ", was " << mg::str(truth.octs[i])); ok = false; }
    std::set<std::string> want(s.names.begin(), s.names.end());
    PBT_CHECK(c, U.getEnabledFields() == want, "set of fields differs after the restart");
    if (ok && U.getEnabledFields() == want)
    {
      auto got = hc::snapshot(s.g, mesh, U, s.names);
      for (size_t i = 0; i < got.v.size(); i++)
        if (!same(got.v[i], truth.v[i]))
        {
          size_t o = i / (s.names.size() * got.cells), f = (i / got.cells) % s.names.size();
          PBT_CHECK(c, false, "field " << s.names[f] << " of block " << mg::str(truth.octs[o]) << " cell " << i % got.cells << " is " << got.v[i] << ", was " << truth.v[i]);
          break;
        }
      c.checks += (long)got.v.size();
    }
    std::set<std::string> wp;
    for (auto& q : s.parts) wp.insert(q.name);
    PBT_CHECK(c, U.getEnabledParticleArrays() == wp, "set of particle arrays differs after the restart");
    if (U.getEnabledParticleArrays() == wp)
      for (size_t q = 0; q < s.parts.size(); q++)
      {
        std::set<std::string> wa(s.parts[q].attrs.begin(), s.parts[q].attrs.end());
        PBT_CHECK(c, U.getEnabledParticleAttributes(s.parts[q].name) == wa, "set of attributes of " << s.parts[q].name << " differs after the restart");
        if (U.getEnabledParticleAttributes(s.parts[q].name) != wa) continue;
        auto got = gather_particles(U, s.parts[q].name, s.parts[q].attrs);
        PBT_CHECK(c, got.size() == ptruth[q].size(), s.parts[q].name << ": " << got.size() << " particles restored, " << ptruth[q].size() << " checkpointed");
        for (size_t i = 0; got.size() == ptruth[q].size() && i < got.size(); i++)
          for (size_t k = 0; k < got[i].size(); k++)
            if (!same(got[i][k], ptruth[q][i][k])) { PBT_CHECK(c, false, s.parts[q].name << " particle " << i << " value " << k << " is " << got[i][k] << ", was " << ptruth[q][i][k]); i = got.size() - 1; break; }
      }
  });
  MPI_Barrier(MPI_COMM_WORLD);
  if (pbt::mpi_rank() == 0)
  {
    std::error_code ec;
    for (auto& e : fs::directory_iterator(s.dir)) if (e.path().filename().string().rfind("restart_" + s.prefix, 0) == 0) fs::remove(e.path(), ec);
  }
}

namespace {
std::string slurp(const std::string& f)
{
  std::ifstream i(f);
  std::ostringstream o;
  o << i.rdbuf();
  return o.str();
}
// every data item of an XMF text must describe an existing dataset
struct XmfItem
{
  std::string file, path, type;
  int prec = 4;
  std::vector<uint64_t> dims;
};
std::vector<XmfItem> items(const std::string& t)
{
  std::vector<XmfItem> r;
  static const std::regex di("<DataItem([^>]*)>\\s*([^<]*?)\\s*</DataItem>");
  for (auto it = std::sregex_iterator(t.begin(), t.end(), di); it != std::sregex_iterator(); ++it)
  {
    XmfItem x;
    std::string a = (*it)[1], b = (*it)[2];
    std::smatch m;
    if (std::regex_search(a, m, std::regex("Dimensions=\"([^\"]*)\""))) { std::istringstream is(m[1]); uint64_t v; while (is >> v) x.dims.push_back(v); }
    if (std::regex_search(a, m, std::regex("(NumberType|DataType)=\"([^\"]*)\""))) x.type = m[2];
    if (std::regex_search(a, m, std::regex("Precision=\"([^\"]*)\""))) x.prec = std::stoi(m[1]);
    auto k = b.find(":");
    x.file = b.substr(0, k);
    x.path = k == std::string::npos ? "" : b.substr(k + 1);
    r.push_back(x);
  }
  return r;
}
void check_items(Case& c, const std::string& dir, const std::string& xmf, const std::string& txt)
{
  for (auto& x : items(txt))
  {
    hc::H5File f(dir + "/" + x.file);
    if (!f.open()) { PBT_CHECK(c, false, xmf << " refers to a missing file " << x.file); continue; }
    auto d = f.read(x.path);
    PBT_CHECK(c, d.ok, xmf << " refers to a missing dataset " << x.path);
    if (!d.ok) continue;
    auto a = x.dims, b = d.dims;
    while (a.size() > 1 && a.back() == 1) a.pop_back();
    while (b.size() > 1 && b.back() == 1) b.pop_back();
    PBT_CHECK(c, a == b, xmf << ": dimensions given for " << x.path << " differ from the dataset's");
    std::string ty = d.is_float ? "Float" : d.is_signed ? "Int" : "UInt";
    PBT_CHECK(c, x.type == ty && x.prec == (int)d.size, xmf << ": type given for " << x.path << " is " << x.type << x.prec << ", dataset is " << ty << d.size);
  }
}
std::vector<std::string> includes(const std::string& t)
{
  std::vector<std::string> r;
  static const std::regex re("<xi:include href=\"([^\"]*)\"");
  for (auto it = std::sregex_iterator(t.begin(), t.end(), re); it != std::sregex_iterator(); ++it) r.push_back((*it)[1]);
  return r;
}
void balanced(Case& c, const std::string& name, const std::string& t)
{
  // well-formed nesting
  std::vector<std::string> st;
  static const std::regex re("<(/?)([A-Za-z:]+)[^>]*?(/?)>");
  bool ok = true;
  for (auto it = std::sregex_iterator(t.begin(), t.end(), re); ok && it != std::sregex_iterator(); ++it)
  {
    if ((*it)[3] == "/") continue;
    if ((*it)[1] == "/") { ok = !st.empty() && st.back() == (*it)[2]; if (ok) st.pop_back(); }
    else st.push_back((*it)[2]);
  }
  PBT_CHECK(c, ok && st.empty() && t.find("<Xdmf") != std::string::npos, name << " is not well-formed");
}
double cast(double v, bool dbl) { return dbl ? v : (double)(float)v; }
} // namespace

void C21(Case& c)
{
  Setup s;
  gen_mesh_data(c, s, true);
  bool dbl = c.coin() || s.g.p.deep; // single precision cannot tell the corners of very small cells apart
  s.prefix = c.pick<std::string>({"output", "run_1", "snap"}) + uniq("_");
  bool sub = c.coin(1, 3);
  s.dir = sub ? uniq("o") : ".";
  s.ini["output"]["outputDir"] = s.dir;
  s.ini["output"]["outputPrefix"] = s.prefix;
  if (dbl || c.coin()) s.ini["output"]["output_real_type"] = dbl ? "double" : "float";
  std::vector<std::string> pool = {"rho", "e_tot", "gphi", "Bx", "a_b", "rho_vx", "psi", "ioct", "level", "rank", "nosuch"};
  std::vector<std::string> req;
  int nr = (int)c.draw(1, 8), f0 = (int)c.draw(0, 10);
  for (int k = 0; k < nr; k++) req.push_back(pool[(f0 + k * 3) % pool.size()]);
  std::string wv;
  for (auto& r : req) wv += (wv.empty() ? "" : ",") + r;
  s.ini["output"]["write_variables"] = wv;
  std::map<std::string, std::set<std::string>> preq;
  std::string pv;
  for (auto* a : {"particles", "stars"})
  {
    int k = (int)c.draw(0, 4);
    if (k == 0) continue;
    preq[a];
    if (k == 1) { pv += (pv.empty() ? "" : ",") + std::string(a); continue; }
    for (int q = 0; q < k - 1; q++)
    {
      std::string at = std::vector<std::string>{"id", "mass", "vx", "nosuch"}[(q + (int)c.draw(0, 1)) % 4];
      preq[a].insert(at);
      pv += (pv.empty() ? "" : ",") + std::string(a) + "/" + at;
    }
  }
  if (!pv.empty()) s.ini["output"]["write_particle_variables"] = pv;
  s.cfg.reset(new ConfigMap(hc::to_text(s.ini)));
  fill_data(c, s);
  auto mapper = MapUserDataFactory::make_instance("MapUserData_mean", *s.cfg, *s.fc, s.timers);
  auto io = IOManagerFactory::make_instance("IOManager_hdf5", *s.cfg, *s.fc, s.timers);
  int snaps = (int)c.draw(1, 3), iter = (int)c.pick<int>({0, 3, 9999998, 120});
  int np = pbt::mpi_size(), me = pbt::mpi_rank(), dim = s.g.p.dim;
  c.desc << s.g.str() << " write " << wv << " | " << pv << " " << (dbl ? "double" : "float") << " snapshots " << snaps;
  std::vector<std::string> list;
  std::map<std::string, std::vector<std::string>> plist;
  for (int sn = 0; sn < snaps; sn++)
  {
    if (sn)
    {
      iter += (int)c.draw(1, 50);
      if (c.coin())
      {
        // another mesh
        mg::MarkRule r = mg::gen_rule(c);
        mg::GenOpt o;
        o.max_octs = 150;
        bool ar = mg::room(s.m->getGlobalNumOctants(), o) && (r.kind != 4 || mg::may_refine(s.g.p, s.m->getGlobalNumOctants(), o));
        bool even = true;
        for (int a = 0; a < dim; a++) even = even && s.g.b[a] % 2 == 0;
        if (even)
        {
          mg::set_marks(*s.m, mg::local_marks(r, s.g.p, *s.m, ar), true);
          mapper->save_old_mesh();
          s.m->adapt(true);
          mapper->remap(*s.U);
          s.U->distributeAllParticles();
          if (s.m->getGlobalNumOctants() >= (uint64_t)np) { s.m->loadBalance_userdata((uint8_t)c.draw(0, 2), *s.U); s.U->distributeAllParticles(); }
          c.label("mesh changed between snapshots");
        }
      }
      else
        for (auto& n : s.names) hc::fill(s.g, *s.m, *s.U, n, [&](const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) { return hc::cell_value(n + std::to_string(sn), o, i, j, k); });
    }
    s.sd.set<int>("iter", iter);
    s.sd.set<real_t>("time", c.pick<double>({0., 0.1, 1. / 3, 12345.678901234567, 1e-9}));
    s.sd.set<real_t>("dt", 0.1 / 3);
    auto truth = hc::snapshot(s.g, *s.m, *s.U, s.names);
    std::map<std::string, std::vector<std::vector<double>>> pt;
    for (auto& p : s.parts)
      if (preq.count(p.name))
      {
        std::vector<std::string> at;
        for (auto& a : preq[p.name]) if (std::find(p.attrs.begin(), p.attrs.end(), a) != p.attrs.end()) at.push_back(a);
        pt[p.name] = gather_particles(*s.U, p.name, at);
      }
    if (truth.octs.size() > 1) c.nontrivial = true;
    MPI_Barrier(MPI_COMM_WORLD);
    io->save_snapshot(*s.U, s.sd);
    MPI_Barrier(MPI_COMM_WORLD);
    if (me == 0)
    {
      char suf[32];
      snprintf(suf, 32, "_iter%07d", iter);
      std::string base = s.prefix + suf;
      list.push_back(base + ".xmf");
      hc::H5File f(s.dir + "/" + base + ".h5");
      PBT_CHECK(c, f.open(), "no file " << base << ".h5");
      if (f.open())
      {
        size_t nn = dim == 2 ? 4 : 8, N = truth.octs.size() * truth.cells;
        auto co = f.read("coordinates"), cn = f.read("connectivity");
        PBT_CHECK(c, co.ok && co.dims.size() == 2 && co.dims[1] == 3 && co.is_float && co.size == (dbl ? 8u : 4u), "coordinates dataset missing or of another shape or precision");
        PBT_CHECK(c, cn.ok && cn.dims.size() == 2 && cn.dims[0] == N && cn.dims[1] == nn, "connectivity does not list " << N << " cells of " << nn << " corners");
        bool good = co.ok && cn.ok && cn.dims.size() == 2 && cn.dims[0] == N && cn.dims[1] == nn && co.dims.size() == 2 && co.dims[1] == 3;
        std::vector<size_t> at(N, SIZE_MAX); // file cell -> truth cell
        if (good)
        {
          std::unordered_map<std::array<uint32_t, 4>, size_t, mg::KeyHash> where; // level + cell index on that level
          for (size_t o = 0; o < truth.octs.size(); o++)
          {
            size_t q = 0;
            hc::each_cell(s.g, [&](uint32_t i, uint32_t j, uint32_t k) {
              auto& oc = truth.octs[o];
              where[mg::key(oc.level, mg::C3{{oc.c[0] * s.g.b[0] + i, oc.c[1] * s.g.b[1] + j, dim == 2 ? 0 : oc.c[2] * s.g.b[2] + k}})] = o * truth.cells + q++;
            });
          }
          std::vector<char> used(N, 0);
          static const int nd[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
          for (size_t k = 0; k < N && !c.failed_local; k++)
          {
            double X[8][3];
            for (size_t q = 0; q < nn; q++)
            {
              int64_t id = cn.i[k * nn + q];
              if (id < 0 || (uint64_t)id >= co.dims[0]) { PBT_CHECK(c, false, "cell " << k << " refers to corner " << id << " of " << co.dims[0]); break; }
              for (int a = 0; a < 3; a++) X[q][a] = co.d[id * 3 + a];
            }
            if (c.failed_local) break;
            // level from the width, index from the lower corner
            double w = X[1][0] - X[0][0], w0 = s.g.L(0) / s.g.p.count(0, s.g.p.lmin) / s.g.b[0];
            int lev = w > 0 ? (int)s.g.p.lmin + (int)std::lround(std::log2(w0 / w)) : -1;
            if (lev < (int)s.g.p.lmin || lev > (int)s.g.p.lmax) { PBT_CHECK(c, false, "cell " << k << " has width " << w << " that no level has"); break; }
            mg::C3 ix{{0, 0, 0}};
            double sz[3];
            for (int a = 0; a < 3; a++) sz[a] = s.g.L(a) / (a < dim ? s.g.p.count(a, lev) * s.g.b[a] : 1);
            for (int a = 0; a < dim; a++) ix[a] = (uint32_t)std::llround((X[0][a] - s.g.lo[a]) / sz[a]);
            auto it = where.find(mg::key(lev, ix));
            if (it == where.end()) { PBT_CHECK(c, false, "file cell " << k << " at (" << X[0][0] << "," << X[0][1] << "," << X[0][2] << ") of level " << lev << " is no cell of the mesh"); break; }
            PBT_CHECK(c, !used[it->second], "a cell of the mesh is in the file twice");
            used[it->second] = 1;
            at[k] = it->second;
            for (size_t q = 0; q < nn; q++)
              for (int a = 0; a < 3; a++)
              {
                double e = s.g.lo[a] + (a < dim ? (ix[a] + nd[q][a]) * sz[a] : 0);
                double tol = (dbl ? 1e-13 : 3e-7) * std::max({std::fabs(s.g.lo[a]), std::fabs(s.g.hi[a]), 1e-3});
                PBT_CHECK(c, std::fabs(X[q][a] - e) <= tol, "corner " << q << " of cell " << k << " axis " << a << " at " << X[q][a] << ", expected " << e);
              }
          }
          good = !c.failed_local;
        }
        auto xmf = slurp(s.dir + "/" + base + ".xmf");
        balanced(c, base + ".xmf", xmf);
        check_items(c, s.dir, base + ".xmf", xmf);
        {
          std::smatch m;
          PBT_CHECK(c, std::regex_search(xmf, m, std::regex("NumberOfElements=\"(\\d+)\"")) && (size_t)std::stoull(m[1]) == N, "XMF number of elements differs from the number of cells");
          PBT_CHECK(c, std::regex_search(xmf, m, std::regex("TopologyType=\"(\\w+)\"")) && m[1] == (dim == 2 ? "Quadrilateral" : "Hexahedron"), "XMF topology type");
          PBT_CHECK(c, std::regex_search(xmf, m, std::regex("<Time[^>]*Value=\"([^\"]*)\"")) && std::fabs(std::stod(m[1]) - s.sd.get<real_t>("time")) <= 1e-5 * std::fabs(s.sd.get<real_t>("time")), "XMF time");
          PBT_CHECK(c, xmf.find(base + ".h5:/coordinates") != std::string::npos && xmf.find(base + ".h5:/connectivity") != std::string::npos, "XMF does not refer to the geometry of its own snapshot");
        }
        std::map<int64_t, int64_t> oct_of;
        for (auto& r : std::set<std::string>(req.begin(), req.end()))
        {
          bool builtin = r == "ioct" || r == "level" || r == "rank";
          bool present = builtin || std::find(s.names.begin(), s.names.end(), r) != s.names.end();
          bool in_xmf = xmf.find("<Attribute Name=\"" + r + "\"") != std::string::npos;
          auto d = f.read(r);
          PBT_CHECK(c, d.ok == present, (present ? "requested variable is missing from the file: " : "a variable that does not exist is in the file: ") << r);
          PBT_CHECK(c, in_xmf == present, (present ? "requested variable is missing from the XMF: " : "a variable that does not exist is in the XMF: ") << r);
          if (present && in_xmf) PBT_CHECK(c, xmf.find(base + ".h5:/" + r) != std::string::npos, "XMF attribute " << r << " refers to other data");
          if (!d.ok || !good) continue;
          PBT_CHECK(c, d.n() == N, "variable " << r << " has " << d.n() << " values for " << N << " cells");
          if (d.n() != N) continue;
          size_t fi = std::find(s.names.begin(), s.names.end(), r) - s.names.begin();
          if (!builtin) PBT_CHECK(c, d.is_float && d.size == (dbl ? 8u : 4u), "variable " << r << " is not in the requested precision");
          for (size_t k = 0; k < N; k++)
          {
            size_t o = at[k] / truth.cells;
            if (builtin)
            {
              if (r == "level") PBT_CHECK(c, d.i[k] == (int64_t)truth.octs[o].level, "level of cell " << k << " is " << d.i[k] << ", expected " << truth.octs[o].level);
              else if (r == "rank") PBT_CHECK(c, d.i[k] == truth.octs[o].rank, "rank of cell " << k << " is " << d.i[k] << ", expected " << truth.octs[o].rank);
              else
              {
                PBT_CHECK(c, d.i[k] >= 0 && d.i[k] < (int64_t)truth.octs.size(), "ioct out of range");
                auto ins = oct_of.insert({d.i[k], (int64_t)o});
                PBT_CHECK(c, ins.first->second == (int64_t)o, "two blocks share ioct " << d.i[k]);
              }
            }
            else
            {
              double e = cast(truth.at(o, fi, at[k] % truth.cells), dbl);
              PBT_CHECK(c, same(d.d[k], e) || d.d[k] == e, "variable " << r << " of cell " << k << " is " << d.d[k] << ", expected " << e);
            }
            if (c.failed_local) break;
          }
          if (r == "ioct") PBT_CHECK(c, oct_of.size() == truth.octs.size(), "ioct names " << oct_of.size() << " blocks of " << truth.octs.size());
        }
        auto at2 = f.attributes("scalar_data");
        PBT_CHECK(c, at2.count("iter") && at2["iter"].i.size() && at2["iter"].i[0] == iter, "scalar iter is missing or wrong");
        for (auto* nm : {"time", "dt"}) PBT_CHECK(c, at2.count(nm) && at2[nm].d.size() && same(at2[nm].d[0], s.sd.get<real_t>(nm)), "scalar " << nm << " is missing or wrong");
      }
      // index of the series
      auto mt = slurp(s.dir + "/" + s.prefix + "_main.xmf");
      balanced(c, "main xmf", mt);
      PBT_CHECK(c, includes(mt) == list, "the main XMF does not list the snapshots written so far in order");
      // particles
      for (auto& p : s.parts)
      {
        if (!preq.count(p.name)) continue;
        std::string pb = s.prefix + "_particles_" + p.name + suf;
        plist[p.name].push_back(pb + ".xmf");
        hc::H5File pf(s.dir + "/" + pb + ".h5");
        PBT_CHECK(c, pf.open(), "no file " << pb << ".h5");
        if (!pf.open()) continue;
        std::vector<std::string> an;
        for (auto& a : preq[p.name]) if (std::find(p.attrs.begin(), p.attrs.end(), a) != p.attrs.end()) an.push_back(a);
        auto want = pt[p.name];
        for (auto& r : want) for (auto& v : r) v = cast(v, dbl);
        std::sort(want.begin(), want.end());
        size_t n = want.size();
        auto co = pf.read("coordinates");
        PBT_CHECK(c, co.ok && co.dims.size() == 2 && co.dims[0] == n && co.dims[1] == 3, "particle coordinates of " << p.name << " do not have " << n << " rows of 3");
        bool ok = co.ok && co.n() == 3 * n;
        std::vector<std::vector<double>> got(n, std::vector<double>(an.size() + 3));
        for (size_t a = 0; a < an.size(); a++)
        {
          auto d = pf.read(an[a]);
          PBT_CHECK(c, d.ok && d.n() == n, "attribute " << an[a] << " of " << p.name << " missing or of another length");
          if (!(d.ok && d.n() == n)) { ok = false; continue; }
          for (size_t i = 0; i < n; i++) got[i][a] = d.d[i];
        }
        if (ok)
        {
          for (size_t i = 0; i < n; i++) for (int a = 0; a < 3; a++) got[i][an.size() + a] = co.d[3 * i + a];
          std::sort(got.begin(), got.end());
          PBT_CHECK(c, got == want, "particles of " << p.name << " in the file differ from those of the simulation");
        }
        auto px = slurp(s.dir + "/" + pb + ".xmf");
        balanced(c, pb + ".xmf", px);
        check_items(c, s.dir, pb + ".xmf", px);
        std::smatch m;
        PBT_CHECK(c, std::regex_search(px, m, std::regex("NumberOfElements=\"(\\d+)\"")) && (size_t)std::stoull(m[1]) == n, "particle XMF number of elements");
        for (auto& a : preq[p.name])
          PBT_CHECK(c, (px.find("<Attribute Name=\"" + a + "\"") != std::string::npos) == (std::find(an.begin(), an.end(), a) != an.end()), "particle attribute " << a << " in the XMF");
        auto pm = slurp(s.dir + "/" + s.prefix + "_particles_" + p.name + "_main.xmf");
        PBT_CHECK(c, includes(pm) == plist[p.name], "the main particle XMF does not list the snapshots written so far in order");
      }
    }
    c.sync();
  }
  io.reset();
  MPI_Barrier(MPI_COMM_WORLD);
  if (me == 0)
  {
    std::error_code ec;
    for (auto& e : fs::directory_iterator(s.dir)) if (e.path().filename().string().rfind(s.prefix, 0) == 0) fs::remove(e.path(), ec);
  }
}

int main(int argc, char** argv) { return pbt_main(argc, argv, {{"C20", C20}, {"C21", C21}}); }
