// C07 UserData as a dictionary of arrays (stateful model); C17 particles
#include "common.h"
#include "amr/MapUserData.h"
#include "utils/monitoring/Timers.h"
#include "main.h"
using namespace dyablo;
using pbt::Case;

namespace {
// refused = throws
template <class F> bool refused(const F& f)
{
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}

// position of particle pid : a pure function of (salt, pid), strictly inside the box
typedef std::array<double, 3> P3;
struct PKey
{
  size_t operator()(const P3& p) const
  {
    uint64_t h = 7;
    for (int a = 0; a < 3; a++) { uint64_t u; memcpy(&u, &p[a], 8); h = pbt::hash_combine(h, u); }
    return h;
  }
};

double fval(uint64_t salt, const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k)
{
  if (!salt) return 0;
  return 2 * pbt::u01(pbt::hash_combine(salt, hc::cell_hash("x", o, i, j, k))) - 1;
}
double aval(uint64_t salt, int64_t pid)
{
  if (!salt) return 0;
  return 2 * pbt::u01(pbt::hash_combine(salt, (uint64_t)pid)) - 1;
}
P3 ppos(const hc::Grid& g, uint64_t salt, int64_t pid)
{
  P3 p;
  for (int a = 0; a < 3; a++)
  {
    double u = pbt::u01(pbt::hash_combine(salt + a, (uint64_t)pid));
    if (u < 1e-9) u = 1e-9;
    if (u > 1 - 1e-9) u = 1 - 1e-9;
    p[a] = a == 2 && g.p.dim == 2 ? g.lo[a] : g.lo[a] + u * g.L(a);
  }
  return p;
}
// rank(s) that may own a position : blocks within rounding of it
std::set<int> owners(const hc::Grid& g, const mg::Model& mod, const P3& p)
{
  std::set<int> r;
  for (int m = 0; m < (1 << g.p.dim); m++)
  {
    std::array<double, 3> u{{0, 0, 0}};
    for (int a = 0; a < g.p.dim; a++)
    {
      u[a] = (p[a] - g.lo[a]) / g.L(a) + ((m >> a & 1) ? 1e-12 : -1e-12);
      if (u[a] >= 1) u[a] = 1 - 1e-12;
      if (u[a] < 0) u[a] = 0;
    }
    int j = mod.locate(u);
    if (j >= 0) r.insert(mod.octs[j].rank);
  }
  return r;
}
} // namespace

void C07(Case& c)
{
  mg::GenOpt o;
  o.max_octs = 60;
  o.max_coarse3 = 2;
  o.max_coarse2 = 4;
  hc::Grid g;
  g.p = mg::gen_params(c, o);
  hc::gen_geometry(c, g, false, false, 3);
  c.desc << g.str() << ";";
  ConfigMap cfg(hc::to_text(hc::base_ini(g)));
  auto m = mg::make_mesh(g.p);
  int np = pbt::mpi_size(), me = pbt::mpi_rank();
  mg::lb(*m, 0);
  ForeachCell fc(*m, cfg);
  Timers timers;
  UserData U(cfg, fc);
  auto map = MapUserDataFactory::make_instance("MapUserData_mean", cfg, fc, timers);

  // model
  std::map<std::string, uint64_t> F; // name -> salt of its values
  struct PArr
  {
    uint64_t psalt;
    int64_t total;
    std::vector<int64_t> mine; // pid of local particles, in storage order
    std::map<std::string, uint64_t> attr;
  };
  std::map<std::string, PArr> A;
  static const std::vector<std::string> fn = {"a", "b", "rho", "rho_next", "z", "m1", "m2", "B", "q7", "k"};
  static const std::vector<std::string> an = {"pa", "x", "particles"};
  static const std::vector<std::string> at = {"vx", "vy", "mass", "a", "zz", "id"};
  int64_t next_salt = 1;
  uint64_t base = c.salt();
  auto newsalt = [&]() { return pbt::hash_combine(base, (uint64_t)next_salt++) | 1; };
  std::vector<mg::Oct> loc;
  auto reread = [&]() {
    loc.clear();
    for (uint32_t i = 0; i < m->getNumOctants(); i++) loc.push_back(mg::local_oct(g.p, *m, i));
  };
  reread();
  auto write_field = [&](const std::string& n, uint64_t salt) { hc::fill(g, *m, U, n, [&](const mg::Oct& oc, uint32_t i, uint32_t j, uint32_t k) { return fval(salt, oc, i, j, k); }); };
  // after a redistribution : identify local particles by their position
  auto identify = [&](const std::string& n, const std::string& w) {
    PArr& a = A[n];
    std::unordered_map<P3, int64_t, PKey> by;
    for (int64_t p = 0; p < a.total; p++) by[ppos(g, a.psalt, p)] = p;
    auto arr = U.getParticleArray(n);
    a.mine.clear();
    for (uint32_t i = 0; i < arr.getNumParticles(); i++)
    {
      P3 p = {arr.pos(i, IX), arr.pos(i, IY), arr.pos(i, IZ)};
      auto it = by.find(p);
      PBT_CHECK(c, it != by.end(), w << "particle " << i << " of " << n << " has a position no particle was given");
      a.mine.push_back(it == by.end() ? -1 : it->second);
    }
    std::vector<double> l(a.mine.begin(), a.mine.end());
    auto all = hc::gatherv(l);
    std::vector<int> cnt(a.total, 0);
    for (double p : all) if (p >= 0) cnt[(int64_t)p]++;
    for (int64_t p = 0; p < a.total; p++) PBT_CHECK(c, cnt[p] == 1, w << "particle " << p << " of array " << n << " exists " << cnt[p] << " times");
  };
  auto verify = [&](const std::string& w) {
    std::set<std::string> en = U.getEnabledFields();
    PBT_CHECK(c, en.size() == F.size() && U.nbFields() == (int)F.size(), w << U.nbFields() << " fields, expected " << F.size());
    for (auto& n : fn) PBT_CHECK(c, U.has_field(n) == (F.count(n) > 0) && (en.count(n) > 0) == (F.count(n) > 0), w << "has_field(" << n << ") is " << U.has_field(n));
    if (F.size())
    {
      // accessor over every field, in a shuffled order with shuffled ids
      std::vector<std::string> order;
      for (auto& f : F) order.push_back(f.first);
      uint64_t h = pbt::hash_combine(base, (uint64_t)next_salt * 31);
      for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[pbt::mix64(h + i) % i]);
      std::vector<UserData::FieldAccessor_FieldInfo> info;
      for (size_t i = 0; i < order.size(); i++) info.push_back({order[i], (VarIndex)((i * 7 + h % 64) % 64)});
      auto acc = U.getAccessor(info);
      PBT_CHECK(c, acc.nbFields() == (int)order.size(), w << "accessor has " << acc.nbFields() << " fields");
      for (size_t f = 0; f < order.size(); f++)
      {
        uint64_t s = F[order[f]];
        auto view = U.getField(order[f]);
        for (uint32_t q = 0; q < loc.size(); q++)
          hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
            auto ci = hc::make_cell(g, q, false, i, j, k);
            double e = fval(s, loc[q], i, j, k), x = acc.at_ivar(ci, (int)f), y = acc.at(ci, info[f].id), z = view.at_ivar(ci, 0);
            PBT_CHECK(c, x == e && y == e && z == e, w << "field " << order[f] << " cell (" << i << "," << j << "," << k << ") of " << mg::str(loc[q]) << " gives " << x << " / " << y << " / " << z << " expected " << e);
          });
      }
    }
    std::set<std::string> ea = U.getEnabledParticleArrays();
    PBT_CHECK(c, ea.size() == A.size(), w << ea.size() << " particle arrays, expected " << A.size());
    for (auto& n : an) PBT_CHECK(c, U.has_ParticleArray(n) == (A.count(n) > 0), w << "has_ParticleArray(" << n << ")");
    for (auto& p : A)
    {
      PArr& a = p.second;
      auto arr = U.getParticleArray(p.first);
      PBT_CHECK(c, arr.getNumParticles() == a.mine.size(), w << "array " << p.first << " has " << arr.getNumParticles() << " particles, expected " << a.mine.size());
      if (arr.getNumParticles() != a.mine.size()) return;
      auto na = U.getEnabledParticleAttributes(p.first);
      PBT_CHECK(c, na.size() == a.attr.size(), w << "array " << p.first << " has " << na.size() << " attributes, expected " << a.attr.size());
      for (auto& t : at) PBT_CHECK(c, U.has_ParticleAttribute(p.first, t) == (a.attr.count(t) > 0), w << "has_ParticleAttribute(" << p.first << "," << t << ")");
      for (uint32_t i = 0; i < a.mine.size(); i++)
      {
        P3 e = ppos(g, a.psalt, a.mine[i]);
        PBT_CHECK(c, arr.pos(i, IX) == e[0] && arr.pos(i, IY) == e[1] && arr.pos(i, IZ) == e[2], w << "position of particle " << i << " of " << p.first << " changed");
      }
      if (a.attr.empty()) continue;
      std::vector<UserData::ParticleAccessor_AttributeInfo> info;
      uint64_t h = pbt::hash_combine(base, (uint64_t)next_salt * 37);
      std::vector<std::string> order;
      for (auto& t : a.attr) order.push_back(t.first);
      for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[pbt::mix64(h + i) % i]);
      for (size_t i = 0; i < order.size(); i++) info.push_back({order[i], (VarIndex)((i * 5 + h % 64) % 64)});
      auto acc = U.getParticleAccessor(p.first, info);
      for (size_t t = 0; t < order.size(); t++)
      {
        auto at1 = U.getParticleAttribute(p.first, order[t]);
        for (uint32_t i = 0; i < a.mine.size(); i++)
        {
          double e = aval(a.attr[order[t]], a.mine[i]);
          double x = acc.at_ivar(i, (int)t), y = acc.at(i, info[t].id), z = at1.at_ivar(i, 0);
          PBT_CHECK(c, x == e && y == e && z == e, w << "attribute " << p.first << "/" << order[t] << " of particle " << a.mine[i] << " gives " << x << " / " << y << " / " << z << " expected " << e);
        }
      }
    }
  };
  auto name_of = [&](bool live, const std::vector<std::string>& pool, auto& mp) -> std::string {
    std::vector<std::string> v;
    for (auto& n : pool) if ((mp.count(n) > 0) == live) v.push_back(n);
    return v.empty() ? "" : c.pick<std::string>(v);
  };
  int steps = (int)c.draw(1, 25), moved = 0, adapted = 0;
  bool ever_particles = false;
  for (int s = 0; s < steps; s++)
  {
    int op = (int)c.pick<int>({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 0, 1, 2, 3, 9, 10, 11});
    std::ostringstream d;
    switch (op)
    {
      case 0: // new fields
      {
        std::set<std::string> ns;
        int k = (int)c.draw(1, 3);
        for (int i = 0; i < k; i++) { std::string n = name_of(false, fn, F); if (!n.empty()) ns.insert(n); }
        if (ns.empty()) break;
        d << "new";
        for (auto& n : ns) d << " " << n;
        U.new_fields(ns);
        for (auto& n : ns) F[n] = 0;
        break;
      }
      case 1: // write
      {
        std::string n = name_of(true, fn, F);
        if (n.empty()) break;
        d << "write " << n;
        F[n] = newsalt();
        write_field(n, F[n]);
        break;
      }
      case 2: // move
      {
        std::string n = name_of(true, fn, F);
        if (n.empty()) break;
        std::string t = c.pick<std::string>(fn);
        d << "move " << t << "<-" << n;
        U.move_field(t, n);
        if (t != n) { F[t] = F[n]; F.erase(n); moved++; }
        break;
      }
      case 3: // delete
      {
        std::string n = c.coin(3, 4) ? name_of(true, fn, F) : name_of(false, fn, F);
        if (n.empty()) break;
        d << "delete " << n;
        U.delete_field(n);
        F.erase(n);
        moved++;
        break;
      }
      case 4: // refused requests on fields
      {
        std::string n = name_of(false, fn, F), l = name_of(true, fn, F);
        d << "refuse " << n << "," << l;
        if (!n.empty())
        {
          PBT_CHECK(c, refused([&] { U.getField(n); }), "getField(" << n << ") of an absent field was accepted");
          PBT_CHECK(c, refused([&] { U.move_field("a", n); }), "move_field of absent " << n << " was accepted");
          PBT_CHECK(c, refused([&] { U.getAccessor({{n, 0}}); }), "getAccessor of absent " << n << " was accepted");
          if (!l.empty()) PBT_CHECK(c, refused([&] { U.getAccessor({{l, 1}, {n, 0}}); }), "getAccessor with absent " << n << " was accepted");
        }
        if (!l.empty()) PBT_CHECK(c, refused([&] { U.new_fields({l}); }), "new_fields with live name " << l << " was accepted");
        break;
      }
      case 5: // mesh change
      {
        if (F.empty()) break;
        mg::MarkRule r = mg::gen_rule(c);
        uint64_t tot = m->getGlobalNumOctants();
        bool ar = mg::room(tot, o) && (r.kind != 4 || mg::may_refine(g.p, tot, o));
        std::set<std::array<uint32_t, 4>> old;
        for (auto& q : mg::gather(g.p, *m)) old.insert(mg::key(q.level, q.c));
        mg::set_marks(*m, mg::local_marks(r, g.p, *m, ar), true);
        map->save_old_mesh();
        m->adapt();
        map->remap(U);
        d << "adapt " << r.str();
        reread();
        adapted++;
        PBT_CHECK(c, U.nbFields() == (int)F.size(), "after adapt " << U.nbFields() << " fields, expected " << F.size());
        for (auto& f : F)
        {
          auto v = U.getField(f.first);
          for (uint32_t q = 0; q < loc.size(); q++)
            if (old.count(mg::key(loc[q].level, loc[q].c)) || !f.second)
              hc::each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) {
                double e = fval(f.second, loc[q], i, j, k), x = v.at_ivar(hc::make_cell(g, q, false, i, j, k), 0);
                PBT_CHECK(c, x == e, "step " << s << " after adapt: field " << f.first << " cell (" << i << "," << j << "," << k << ") of kept block " << mg::str(loc[q]) << " holds " << x << " expected " << e);
              });
          if (f.second) write_field(f.first, f.second);
        }
        c.label("adapt");
        break;
      }
      case 6: // load balance
      {
        if (F.empty() || m->getGlobalNumOctants() < (uint64_t)np) break;
        int lv = (int)c.draw(0, 2);
        d << "lb" << lv;
        m->loadBalance_userdata(lv, U);
        reread();
        adapted++;
        break;
      }
      case 7: // new particle array
      {
        std::string n = name_of(false, an, A);
        if (n.empty())
        {
          std::string l = name_of(true, an, A);
          PBT_CHECK(c, refused([&] { U.new_ParticleArray(l, 3); }), "new_ParticleArray with live name accepted");
          break;
        }
        PArr a;
        a.psalt = newsalt();
        a.total = 0;
        int64_t k = c.draw(0, 12);
        uint64_t h = c.salt();
        for (int r = 0; r < np; r++)
        {
          int64_t kr = (int64_t)(pbt::mix64(h + r) % (uint64_t)(k + 1));
          for (int64_t q = 0; q < kr; q++) { if (r == me) a.mine.push_back(a.total); a.total++; }
        }
        d << "array " << n << "(" << a.total << ")";
        U.new_ParticleArray(n, (uint32_t)a.mine.size());
        auto arr = U.getParticleArray(n);
        for (uint32_t i = 0; i < a.mine.size(); i++)
        {
          P3 p = ppos(g, a.psalt, a.mine[i]);
          arr.pos(i, IX) = p[0];
          arr.pos(i, IY) = p[1];
          arr.pos(i, IZ) = p[2];
        }
        A[n] = a;
        ever_particles = true;
        break;
      }
      case 8: // distribute
      {
        if (A.empty()) break;
        if (c.coin())
        {
          std::string n = name_of(true, an, A);
          d << "distribute " << n;
          U.distributeParticles(n);
          identify(n, "distribute: ");
        }
        else
        {
          d << "distribute all";
          U.distributeAllParticles();
          for (auto& a : A) identify(a.first, "distribute: ");
        }
        break;
      }
      default: // attributes
      {
        std::string n = name_of(true, an, A);
        if (n.empty()) break;
        PArr& a = A[n];
        if (op == 9)
        {
          std::string t = name_of(false, at, a.attr);
          if (t.empty()) break;
          d << "attr " << n << "/" << t;
          U.new_ParticleAttribute(n, t);
          a.attr[t] = 0;
        }
        else if (op == 10)
        {
          std::string t = name_of(true, at, a.attr);
          if (t.empty()) break;
          d << "write " << n << "/" << t;
          a.attr[t] = newsalt();
          auto acc = U.getParticleAccessor(n, {{t, 3}});
          for (uint32_t i = 0; i < a.mine.size(); i++) acc.at(i, 3) = aval(a.attr[t], a.mine[i]);
        }
        else if (op == 11)
        {
          std::string t = name_of(true, at, a.attr);
          if (t.empty()) break;
          std::string u = c.pick<std::string>(at);
          d << "move " << n << "/" << u << "<-" << t;
          U.move_ParticleAttribute(n, u, t);
          if (t != u) { a.attr[u] = a.attr[t]; a.attr.erase(t); moved++; }
        }
        else if (op == 12)
        {
          std::string t = name_of(true, at, a.attr);
          if (t.empty()) break;
          d << "delete " << n << "/" << t;
          U.delete_ParticleAttribute(n, t);
          a.attr.erase(t);
          moved++;
        }
        else
        {
          std::string t = name_of(false, at, a.attr), l = name_of(true, at, a.attr), na = name_of(false, an, A);
          d << "refuse attr";
          if (!t.empty())
          {
            PBT_CHECK(c, refused([&] { U.getParticleAttribute(n, t); }), "getParticleAttribute of absent " << t << " accepted");
            PBT_CHECK(c, refused([&] { U.getParticleAccessor(n, {{t, 0}}); }), "getParticleAccessor of absent " << t << " accepted");
            PBT_CHECK(c, refused([&] { U.move_ParticleAttribute(n, "vx", t); }), "move of absent attribute " << t << " accepted");
          }
          if (!l.empty()) PBT_CHECK(c, refused([&] { U.new_ParticleAttribute(n, l); }), "new_ParticleAttribute with live name " << l << " accepted");
          if (!na.empty())
          {
            PBT_CHECK(c, refused([&] { U.getParticleArray(na); }), "getParticleArray of absent array accepted");
            PBT_CHECK(c, refused([&] { U.new_ParticleAttribute(na, "vx"); }), "new_ParticleAttribute on absent array accepted");
          }
        }
      }
    }
    if (d.str().empty()) continue;
    if (s < 12) c.desc << " " << d.str() << ";";
    verify("step " + std::to_string(s) + " (" + d.str() + "): ");
    c.sync();
  }
  if (moved && (F.size() || A.size())) c.nontrivial = true;
  if (moved && adapted) c.label("rename or delete with mesh change");
  if (ever_particles) c.label("particles");
}

void C17(Case& c)
{
  mg::GenOpt o;
  o.max_octs = 150;
  o.allow_deep = true;
  hc::Grid g;
  g.p = mg::gen_params(c, o);
  hc::gen_geometry(c, g, false, false, 3);
  ConfigMap cfg(hc::to_text(hc::base_ini(g)));
  auto m = mg::make_mesh(g.p);
  mg::deepen(c, *m, g.p);
  int np = pbt::mpi_size(), me = pbt::mpi_rank();
  mg::lb(*m, 0);
  ForeachCell fc(*m, cfg);
  Timers timers;
  UserData U(cfg, fc);
  U.new_fields({"f"});
  auto map = MapUserDataFactory::make_instance("MapUserData_mean", cfg, fc, timers);
  int narr = (int)c.draw(1, 2);
  std::vector<int64_t> tot(narr, 0);
  std::vector<int> natt(narr);
  std::vector<std::map<int64_t, P3>> where(narr); // every rank keeps the whole reference
  static const std::string nm[2] = {"p", "q"};
  uint64_t base = c.salt();
  // a position : anywhere, at a block wall, next to the domain corners
  auto newpos = [&](uint64_t h) {
    P3 p;
    for (int a = 0; a < 3; a++)
    {
      if (a == 2 && g.p.dim == 2) { p[a] = g.lo[a]; continue; }
      uint64_t h2 = pbt::hash_combine(h, a);
      double u = pbt::u01(h2);
      int kind = (int)(pbt::mix64(h2 + 5) % 8);
      if (kind == 0) u = (double)(pbt::mix64(h2 + 6) % g.p.count(a, g.p.lmax)) / g.p.count(a, g.p.lmax); // exactly a wall
      else if (kind == 1) u = u * 1e-3;
      else if (kind == 2) u = 1 - 1e-12 - u * 1e-3;
#ifndef NDEBUG
      if (u <= 0) u = 1e-6; // the position look-up asserts 0 < x
#endif
      p[a] = g.lo[a] + u * g.L(a);
      if (p[a] >= g.hi[a]) p[a] = std::nextafter(g.hi[a], g.lo[a]);
      while ((p[a] - g.lo[a]) / g.L(a) >= 1) p[a] = std::nextafter(p[a], g.lo[a]);
    }
    return p;
  };
  c.desc << g.str() << ";";
  for (int q = 0; q < narr; q++)
  {
    int64_t k = c.draw(0, 60);
    int conc = (int)c.draw(0, 2); // 0 spread, 1 all created on one process, 2 some processes empty
    natt[q] = (int)c.draw(0, 4);
    uint64_t h = c.salt();
    std::vector<int64_t> cnt(np, 0);
    for (int64_t i = 0; i < k; i++) cnt[conc == 1 ? (int)(h % np) : conc == 2 ? (int)(pbt::mix64(h + i) % np) / 2 : (int)(i % np)]++;
    int64_t first = 0;
    for (int r = 0; r < me; r++) first += cnt[r];
    tot[q] = k;
    U.new_ParticleArray(nm[q], (uint32_t)cnt[me]);
    auto arr = U.getParticleArray(nm[q]);
    for (int64_t i = 0; i < k; i++) where[q][i] = newpos(pbt::hash_combine(h + 1, i));
    for (int64_t i = 0; i < cnt[me]; i++)
    {
      P3 p = where[q][first + i];
      arr.pos(i, IX) = p[0];
      arr.pos(i, IY) = p[1];
      arr.pos(i, IZ) = p[2];
    }
    U.new_ParticleAttribute(nm[q], "id");
    for (int t = 0; t < natt[q]; t++) U.new_ParticleAttribute(nm[q], "t" + std::to_string(t));
    auto acc = U.getParticleAccessor(nm[q], {{"id", 0}});
    for (int64_t i = 0; i < cnt[me]; i++) acc.at(i, 0) = (double)(first + i);
    for (int t = 0; t < natt[q]; t++)
    {
      auto ac = U.getParticleAccessor(nm[q], {{"t" + std::to_string(t), 5}});
      for (int64_t i = 0; i < cnt[me]; i++) ac.at(i, 5) = aval(base + q * 10 + t + 1, first + i);
    }
    c.desc << " " << nm[q] << k << "x" << natt[q] << "/" << conc;
  }
  bool crossed = false;
  auto verify = [&](const std::string& w, bool owner) {
    mg::Model mod;
    mod.p = g.p;
    mod.octs = mg::gather(g.p, *m);
    mod.index();
    for (int q = 0; q < narr; q++)
    {
      auto arr = U.getParticleArray(nm[q]);
      auto acc = U.getParticleAccessor(nm[q], {{"id", 0}});
      std::vector<double> ids;
      for (uint32_t i = 0; i < arr.getNumParticles(); i++)
      {
        double id = acc.at(i, 0);
        ids.push_back(id);
        auto it = where[q].find((int64_t)id);
        if (it == where[q].end() || (double)it->first != id) { PBT_CHECK(c, false, w << "a particle of " << nm[q] << " has id " << id << ", which was never created"); continue; }
        P3 p = {arr.pos(i, IX), arr.pos(i, IY), arr.pos(i, IZ)};
        PBT_CHECK(c, p == it->second, w << "particle " << id << " of " << nm[q] << " is at (" << p[0] << "," << p[1] << "," << p[2] << ") expected (" << it->second[0] << "," << it->second[1] << "," << it->second[2] << ")");
        if (owner)
        {
          auto ow = owners(g, mod, p);
          PBT_CHECK(c, ow.count(me), w << "particle " << id << " of " << nm[q] << " at (" << p[0] << "," << p[1] << "," << p[2] << ") is stored on process " << me << ", its block belongs to " << (ow.empty() ? -1 : *ow.begin()));
        }
      }
      for (int t = 0; t < natt[q]; t++)
      {
        auto ac = U.getParticleAccessor(nm[q], {{"t" + std::to_string(t), 5}});
        for (uint32_t i = 0; i < arr.getNumParticles(); i++)
        {
          double e = aval(base + q * 10 + t + 1, (int64_t)acc.at(i, 0));
          PBT_CHECK(c, ac.at(i, 5) == e, w << "attribute t" << t << " of particle " << acc.at(i, 0) << " of " << nm[q] << " is " << ac.at(i, 5) << " expected " << e);
        }
      }
      auto all = hc::gatherv(ids);
      std::vector<int> cnt(tot[q] + 1, 0);
      for (double x : all) if (x >= 0 && x < tot[q]) cnt[(int64_t)x]++;
      for (int64_t i = 0; i < tot[q]; i++) PBT_CHECK(c, cnt[i] == 1, w << "particle " << i << " of " << nm[q] << " exists " << cnt[i] << " times over all processes");
      PBT_CHECK(c, (int64_t)all.size() == tot[q], w << all.size() << " particles in " << nm[q] << ", " << tot[q] << " were created");
    }
    c.sync();
  };
  verify("created: ", false);
  int steps = (int)c.draw(1, 6);
  for (int s = 0; s < steps; s++)
  {
    int op = (int)c.draw(0, 3);
    std::string d;
    if (op == 0) d = "distribute";
    else if (op == 1)
    {
      d = "move";
      uint64_t h = c.salt();
      int frac = (int)c.pick<int>({100, 20, 60});
      for (int q = 0; q < narr; q++)
      {
        for (auto& w : where[q])
          if ((int)(pbt::hash_combine(h + q, w.first) % 100) < frac) w.second = newpos(pbt::hash_combine(h + 3 + q, w.first));
        auto arr = U.getParticleArray(nm[q]);
        auto acc = U.getParticleAccessor(nm[q], {{"id", 0}});
        for (uint32_t i = 0; i < arr.getNumParticles(); i++)
        {
          P3 p = where[q][(int64_t)acc.at(i, 0)];
          arr.pos(i, IX) = p[0];
          arr.pos(i, IY) = p[1];
          arr.pos(i, IZ) = p[2];
        }
      }
    }
    else if (op == 2)
    {
      mg::MarkRule r = mg::gen_rule(c);
      uint64_t t = m->getGlobalNumOctants();
      bool ar = mg::room(t, o) && (r.kind != 4 || mg::may_refine(g.p, t, o));
      mg::set_marks(*m, mg::local_marks(r, g.p, *m, ar), true);
      map->save_old_mesh();
      m->adapt();
      map->remap(U);
      d = "adapt " + r.str();
      if (m->getGlobalNumOctants() >= (uint64_t)np && c.coin(3, 4)) { int lv = (int)c.draw(0, 3); m->loadBalance_userdata(lv, U); d += " lb" + std::to_string(lv); }
    }
    else
    {
      if (m->getGlobalNumOctants() < (uint64_t)np) continue;
      int lv = (int)c.draw(0, 3);
      m->loadBalance_userdata(lv, U);
      d = "lb" + std::to_string(lv);
    }
    std::vector<double> before;
    for (int q = 0; q < narr; q++) before.push_back(U.getParticleArray(nm[q]).getNumParticles());
    if (c.coin(4, 5)) U.distributeAllParticles();
    else for (int q = narr - 1; q >= 0; q--) U.distributeParticles(nm[q]);
    for (int q = 0; q < narr; q++) if (before[q] != U.getParticleArray(nm[q]).getNumParticles()) crossed = true;
    c.desc << " " << d << ";";
    verify("step " + std::to_string(s) + " (" + d + "): ", true);
  }
  int any = crossed;
  MPI_Allreduce(MPI_IN_PLACE, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  if (any) c.label("particles changed process");
  c.nontrivial = np == 1 ? tot[0] > 0 : any != 0;
}

void C29(Case& c);
int main(int argc, char** argv) { return pbt_main(argc, argv, {{"C07", C07}, {"C17", C17}, {"C29", C29}}); }
