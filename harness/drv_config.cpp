// C22 configuration, C25 cosmological clock
#include "pbt.h"
#include "kokkos_shared.h"
#include "utils/config/ConfigMap.h"
#include "Cosmo.h"
#include "main.h"
using namespace dyablo;
using pbt::Case;

namespace {
enum Type { INT, UINT, SIZE, REAL, BOOL, STR, BC, GRAV, VINT, VREAL, VSTR, NTYPE };
const char* tname[] = {"int", "uint32_t", "size_t", "real", "bool", "string", "boundary type", "gravity type", "int list", "real list", "string list"};
struct Value // typed value as text of one canonical form
{
  std::string v;
  bool refused = false;
};
std::string fmt(double x) { char b[64]; snprintf(b, 64, "%.17g", x); return b; }
template <class T> std::string show(const T& t) { std::ostringstream s; s << t; return s.str(); }
std::string show(double t) { return fmt(t); }
std::string show(bool b) { return b ? "true" : "false"; }
template <class T> std::string show(const std::vector<T>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "|" : "") + show((T)v[i]); return s + "]"; }

template <class T> Value get(ConfigMap& c, const std::string& s, const std::string& k, const T* def)
{
  Value r;
  try { r.v = def ? show(c.getValue<T>(s, k, *def)) : show(c.getValue<T>(s, k)); }
  catch (const std::exception&) { r.refused = true; }
  return r;
}
// text of the parameter file for a random value of a type, and the value expected
struct Item
{
  Type t;
  std::string text, want;
  bool bad = false;
};
std::string word(Case& c, int maxlen, const char* alphabet)
{
  int n = (int)c.draw(1, maxlen);
  int m = (int)strlen(alphabet);
  std::string s;
  for (int i = 0; i < n; i++) s += alphabet[c.draw(0, m - 1)];
  return s;
}
double rnd_real(Case& c)
{
  switch (c.draw(0, 4))
  {
    case 0: return c.real(-10, 10, 1000);
    case 1: return (double)c.draw(-1000000, 1000000) * std::pow(10.0, (double)c.draw(-300, 290));
    case 2: return (double)c.draw(-5, 5);
    case 3: { uint64_t h = pbt::mix64(c.salt()); h = (h & 0x800FFFFFFFFFFFFFull) | ((uint64_t)c.draw(1, 2046) << 52); double d; memcpy(&d, &h, 8); return d; }
    default: return 1.0 / (double)c.draw(1, 999);
  }
}
int rnd_int(Case& c) { return (int)c.pick<int64_t>({c.draw(-100, 100), c.draw(INT32_MIN, INT32_MAX), INT32_MAX, INT32_MIN, 0}); }
const struct { const char* n; BoundaryConditionType t; } BCS[] = {{"reflecting", BC_REFLECTING}, {"absorbing", BC_ABSORBING}, {"periodic", BC_PERIODIC}, {"userdef", BC_USER}};
const struct { const char* n; GravityType t; } GRS[] = {{"none", GRAVITY_NONE}, {"constant_scalar", GRAVITY_CST_SCALAR}, {"constant_field", GRAVITY_CST_FIELD}, {"field", GRAVITY_FIELD}};
const char* SAFE = "abcXYZ0189_./-+#=:;,*";

Item gen_item(Case& c)
{
  Item r;
  r.t = (Type)c.draw(0, NTYPE - 1);
  r.bad = c.coin(1, 4);
  auto bad = [&](std::vector<std::string> v) { r.text = v[c.draw(0, (int)v.size() - 1)]; };
  switch (r.t)
  {
    case INT:
      if (r.bad) bad({"2.5", "abc", "", "1 2", "0x1F", "1e3", "99999999999", "3,4", "-", "7!", "1-2", "--4"});
      else { int v = rnd_int(c); r.text = std::to_string(v); if (v > 0 && c.coin(1, 8)) r.text = "+" + r.text; r.want = show(v); }
      break;
    case UINT:
      if (r.bad) bad({"-1", "-300", "2.5", "x", "", "4294967296", "1 2", "99999999999999999999999"});
      else { uint32_t v = c.pick<uint32_t>({(uint32_t)c.draw(0, 100), (uint32_t)c.draw(0, UINT32_MAX), UINT32_MAX, 0}); r.text = std::to_string(v); r.want = show(v); }
      break;
    case SIZE:
      if (r.bad) bad({"-5", "1.0", "", "18446744073709551616", "n"});
      else { size_t v = c.pick<size_t>({(size_t)c.draw(0, 100), (size_t)c.draw(0, INT64_MAX - 1), SIZE_MAX}); r.text = std::to_string(v); r.want = show(v); }
      break;
    case REAL:
      if (r.bad) bad({"1.0.0", "abc", "", "1,5", "1e", "--1", "1.5 m", "1e400", "0.1f", "1e5e5", "one"});
      else
      {
        double v = rnd_real(c);
        r.text = fmt(v);
        if (c.coin(1, 6)) { char b[64]; snprintf(b, 64, "%.3e", v); r.text = b; v = strtod(b, 0); }
        r.want = show(v);
      }
      break;
    case BOOL:
      if (r.bad) bad({"maybe", "2", "", "y", "oui", "1 0", "-1", "truefalse", "onn"});
      else { int v = (int)c.draw(0, 7); static const char* n[] = {"1", "yes", "true", "on", "0", "no", "false", "off"}; r.text = n[v]; r.want = show(v < 4); }
      break;
    case STR:
      r.bad = false;
      r.text = word(c, c.coin(1, 6) ? 1500 : 25, SAFE);
      if (r.text[0] == ';') r.text[0] = 'q';
      if (c.coin(1, 4)) r.text += " " + word(c, 10, "abc,=:0.") ;
      if (c.coin(1, 12)) r.text = "";
      r.want = r.text;
      break;
    case BC:
      if (r.bad) bad({"periodik", "", "Reflecting", "reflecting absorbing", "none", "1.5"});
      else { auto& b = BCS[c.draw(0, 3)]; r.text = c.coin(1, 4) ? std::to_string((int)b.t) : b.n; r.want = show((int)b.t); }
      break;
    case GRAV:
      if (r.bad) bad({"constant", "", "NONE", "fields", "constant scalar"});
      else { auto& b = GRS[c.draw(0, 3)]; r.text = c.coin(1, 4) ? std::to_string((int)b.t) : b.n; r.want = show((int)b.t); }
      break;
    case VINT:
      if (r.bad) bad({"1,2.5,3", "1,x", "1,,2", "1;2", "1 2,3"});
      else
      {
        std::vector<int> v;
        int n = (int)c.draw(0, 5);
        for (int i = 0; i < n; i++) { v.push_back(rnd_int(c)); r.text += (i ? "," : "") + std::to_string(v.back()); }
        r.want = show(v);
      }
      break;
    case VREAL:
      if (r.bad) bad({"1.5,abc", "1.5,,2", "0.1;0.2", "1.5 2.5"});
      else
      {
        std::vector<double> v;
        int n = (int)c.draw(0, 5);
        for (int i = 0; i < n; i++) { v.push_back(rnd_real(c)); r.text += (i ? "," : "") + fmt(v.back()); }
        r.want = show(v);
      }
      break;
    default:
    {
      r.bad = false;
      std::vector<std::string> v;
      int n = (int)c.draw(0, c.coin(1, 8) ? 60 : 5);
      for (int i = 0; i < n; i++) { v.push_back(word(c, 12, "abcdeXYZ_0123")); r.text += (i ? "," : "") + v.back(); }
      r.want = show(v);
    }
  }
  return r;
}
// a typed request; def : text of a default (same syntax), or null
Value request(ConfigMap& m, Type t, const std::string& s, const std::string& k, const Item* def)
{
  auto ge = [&](auto tag, auto parse) {
    typedef decltype(tag) T;
    if (!def) return get<T>(m, s, k, (const T*)nullptr);
    T d = parse(def->text);
    return get<T>(m, s, k, &d);
  };
  auto split = [](const std::string& x) { std::vector<std::string> v; std::string w; std::istringstream is(x); while (std::getline(is, w, ',')) v.push_back(w); return v; };
  auto lookup = [](const auto& tab, const std::string& x) { for (auto& e : tab) if (x == e.n || x == std::to_string((int)e.t)) return e.t; return tab[0].t; };
  switch (t)
  {
    case INT: return ge(int(), [](const std::string& x) { return (int)strtol(x.c_str(), 0, 10); });
    case UINT: return ge(uint32_t(), [](const std::string& x) { return (uint32_t)strtoul(x.c_str(), 0, 10); });
    case SIZE: return ge(size_t(), [](const std::string& x) { return (size_t)strtoull(x.c_str(), 0, 10); });
    case REAL: return ge(real_t(), [](const std::string& x) { return strtod(x.c_str(), 0); });
    case BOOL: return ge(bool(), [](const std::string& x) { return x == "1" || x == "yes" || x == "true" || x == "on"; });
    case STR: return ge(std::string(), [](const std::string& x) { return x; });
    case BC: return ge(BoundaryConditionType(), [&](const std::string& x) { return lookup(BCS, x); });
    case GRAV: return ge(GravityType(), [&](const std::string& x) { return lookup(GRS, x); });
    case VINT: return ge(std::vector<int>(), [&](const std::string& x) { std::vector<int> v; for (auto& w : split(x)) v.push_back((int)strtol(w.c_str(), 0, 10)); return v; });
    case VREAL: return ge(std::vector<double>(), [&](const std::string& x) { std::vector<double> v; for (auto& w : split(x)) v.push_back(strtod(w.c_str(), 0)); return v; });
    default: return ge(std::vector<std::string>(), split);
  }
}
std::string recase(Case& c, std::string s)
{
  if (c.coin(1, 3))
    for (auto& ch : s)
      if (c.coin()) ch = (char)(isupper(ch) ? ::tolower(ch) : ::toupper(ch));
  return s;
}
} // namespace

void C22(Case& c)
{
  typedef std::pair<std::string, std::string> Key;
  std::map<Key, Item> file;   // what the file says (keys in lower case)
  std::string text;
  const char* nl = c.coin(1, 5) ? "\r\n" : "\n";
  if (c.coin(1, 10)) text += "\xEF\xBB\xBF";
  int nsec = (int)c.draw(0, 4);
  std::vector<std::string> secs;
  for (int i = 0; i < 5; i++) secs.push_back(i == 0 ? std::string("mesh") : word(c, 10, "abcdefgXYZ_019"));
  std::vector<std::string> keys;
  for (int i = 0; i < 6; i++) keys.push_back(word(c, c.coin(1, 8) ? 45 : 12, "abcdefghABC_012"));
  std::string lower_ini = "ini";
  for (int s = 0; s < nsec; s++)
  {
    std::string sec = secs[c.draw(0, 4)];
    if (c.coin(1, 4)) text += std::string(c.coin() ? "# a comment = 3" : "; [other]") + nl;
    text += "[" + recase(c, sec) + "]" + (c.coin(1, 5) ? " ; comment" : "") + nl;
    int nk = (int)c.draw(0, 5);
    for (int q = 0; q < nk; q++)
    {
      std::string key = keys[c.draw(0, 5)];
      Item it = gen_item(c);
      std::string lk = key, ls = sec;
      for (auto& ch : lk) ch = (char)::tolower(ch);
      for (auto& ch : ls) ch = (char)::tolower(ch);
      if (ls == "ini") continue;
      static const char* eq[] = {"=", " = ", "\t=\t", ": ", " =", "="};
      std::string line = recase(c, key) + eq[c.draw(0, 5)] + it.text;
      if (c.coin(1, 4)) line += "   ";
      if (c.coin(1, 5)) line += " ; " + word(c, c.coin(1, 6) ? 400 : 20, "abc =;1 ");
      if (q == 0 && c.coin(1, 6)) line = "  " + line;
      text += line + nl;
      if (c.coin(1, 6)) text += nl;
      file[{ls, lk}] = it;
    }
  }
  if (!text.empty() && c.coin(1, 3) && text.back() == '\n') text.pop_back(); // no end of line at the end
  c.desc << file.size() << " parameters, " << text.size() << " bytes";
  bool bcast = c.coin(1, 4) || pbt::mpi_size() > 1;
  std::unique_ptr<ConfigMap> cm;
  std::string why;
  if (bcast)
  {
    const char* td = getenv("TMPDIR");
    std::string fn = std::string(td ? td : "/tmp") + "/pbt_config_" + std::to_string(getppid()) + ".ini";
    if (pbt::mpi_rank() == 0) { std::ofstream o(fn, std::ios::binary); o << text; }
    MPI_Barrier(MPI_COMM_WORLD);
    std::string fn0 = pbt::mpi_rank() == 0 ? fn : std::string("/does/not/exist");
    try { cm.reset(new ConfigMap(ConfigMap::broadcast_parameters(fn0))); } catch (const std::exception& e) { why = e.what(); }
    MPI_Barrier(MPI_COMM_WORLD);
    if (pbt::mpi_rank() == 0) unlink(fn.c_str());
  }
  else
    try { cm.reset(new ConfigMap(text)); } catch (const std::exception& e) { why = e.what(); }
  PBT_CHECK(c, (bool)cm, "a well formed parameter file is refused : " << why);
  c.sync();
  // ---- requests in random order
  std::map<Key, Item> known = file; // file values and remembered defaults
  std::set<Key> used, defaulted;
  int nreq = (int)c.draw(1, 20), good = 0;
  for (int q = 0; q < nreq; q++)
  {
    Key k;
    if (!file.empty() && c.coin(3, 4)) { auto it = file.begin(); std::advance(it, c.draw(0, (int)file.size() - 1)); k = it->first; }
    else { k = {secs[c.draw(0, 4)], keys[c.draw(0, 5)]}; for (auto* s : {&k.first, &k.second}) for (auto& ch : *s) ch = (char)::tolower(ch); }
    if (k.first == "ini") continue;
    bool present = known.count(k);
    bool has = cm->hasValue(recase(c, k.first), recase(c, k.second));
    PBT_CHECK(c, has == present, "hasValue " << k.first << "/" << k.second << " is " << has);
    if (c.coin(1, 6)) continue;
    bool withdef = c.coin(2, 3);
    Item def = gen_item(c);
    Type t = present ? known[k].t : def.t;
    for (int tr = 0; tr < 50 && (def.t != t || def.bad); tr++) { def.t = t; Item d2 = gen_item(c); if (d2.t == t && !d2.bad) def = d2; else def.bad = true; }
    if (def.bad || def.t != t) withdef = false;
    Value v = request(*cm, t, recase(c, k.first), recase(c, k.second), withdef ? &def : nullptr);
    std::string what = std::string(tname[t]) + " " + k.first + "/" + k.second;
    if (!present && !withdef) { PBT_CHECK(c, v.refused, "absent " << what << " without default gives " << v.v); continue; }
    if (present)
    {
      used.insert(k);
      if (known[k].bad) PBT_CHECK(c, v.refused, "malformed " << what << " `" << known[k].text << "` read as " << v.v);
      else PBT_CHECK(c, !v.refused && v.v == known[k].want, what << " written `" << known[k].text << "` read as " << (v.refused ? "(refused)" : v.v) << " expected " << known[k].want);
      good += !known[k].bad;
    }
    else
    {
      used.insert(k);
      defaulted.insert(k);
      PBT_CHECK(c, !v.refused && v.v == def.want, "default of " << what << " given `" << def.text << "` read as " << (v.refused ? "(refused)" : v.v));
      known[k] = def;
    }
  }
  // ---- the record
  std::ostringstream o1;
  cm->output(o1);
  std::unique_ptr<ConfigMap> back;
  try { back.reset(new ConfigMap(o1.str())); } catch (const std::exception& e) { why = e.what(); }
  PBT_CHECK(c, (bool)back, "the recorded configuration cannot be read : " << why);
  c.sync();
  for (auto& kv : known)
  {
    PBT_CHECK(c, back->hasValue(kv.first.first, kv.first.second), "the record has no " << kv.first.first << "/" << kv.first.second);
    Value v = request(*back, kv.second.t, kv.first.first, kv.first.second, nullptr);
    if (kv.second.bad) PBT_CHECK(c, v.refused, "malformed value accepted after recording");
    else PBT_CHECK(c, !v.refused && v.v == kv.second.want, "recorded " << tname[kv.second.t] << " " << kv.first.first << "/" << kv.first.second << " `" << kv.second.text << "` read back as " << (v.refused ? "(refused)" : v.v));
  }
  for (auto& s : secs)
    for (auto& k : keys)
    {
      std::string ls = s, lk = k;
      for (auto* x : {&ls, &lk}) for (auto& ch : *x) ch = (char)::tolower(ch);
      if (ls != "ini") PBT_CHECK(c, back->hasValue(ls, lk) == (known.count({ls, lk}) > 0), "the record has a parameter nobody gave : " << ls << "/" << lk);
    }
  // comments of the record : one line per parameter
  {
    std::istringstream is(o1.str());
    std::string ln, sec;
    while (std::getline(is, ln))
    {
      if (ln.empty()) continue;
      if (ln[0] == '[') { sec = ln.substr(1, ln.find(']') - 1); continue; }
      auto e = ln.find('=');
      if (e == std::string::npos) continue;
      std::string key = ln.substr(0, e);
      while (!key.empty() && key.back() == ' ') key.pop_back();
      auto it = known.find({sec, key});
      if (it == known.end()) continue;
      bool un = ln.find(" ; Unused", e) != std::string::npos, de = ln.find(" ; Default", e) != std::string::npos;
      PBT_CHECK(c, un == !used.count({sec, key}), sec << "/" << key << " is recorded as " << (un ? "unused" : "used"));
      PBT_CHECK(c, de == (defaulted.count({sec, key}) > 0), sec << "/" << key << " is recorded as " << (de ? "a default" : "given"));
    }
  }
  c.sync();
  if (bcast) c.label("broadcast");
  if (!defaulted.empty()) c.label("defaults");
  for (auto& kv : file) if (kv.second.text.size() > 150) c.label("long value");
  c.nontrivial = good > 0 || !defaulted.empty();
}

// ------------------------------------------------------------------ C25
static double friedmann(double om, double ov, double a, double b) // time from a to b
{
  static const double x[5] = {0, 0.5384693101056831, -0.5384693101056831, 0.906179845938664, -0.906179845938664}, w[5] = {0.5688888888888889, 0.47862867049936647, 0.47862867049936647, 0.23692688505618908, 0.23692688505618908};
  double la = std::log(a), lb = std::log(b), s = 0;
  int n = 8 + (int)(std::fabs(lb - la) * 12);
  double h = (lb - la) / n;
  for (int i = 0; i < n; i++)
    for (int q = 0; q < 5; q++)
    {
      double e = std::exp(la + h * (i + 0.5 + 0.5 * x[q]));
      s += 0.5 * h * w[q] / std::sqrt(e * (om + (1 - om - ov) * e + ov * e * e));
    }
  return 0.5 * std::sqrt(om) * s;
}

void C25(Case& c)
{
  double om = c.pick<double>({0.3, 1, 0.05, 0.6, 0.27, 1.2}), ov = c.pick<double>({0.7, 0, 0.4, 1 - om < 0 ? 0 : 1 - om, 0.95});
  double as = c.pick<double>({0.01, 0.5, 0.1, 0.002, 0.0167, 0.9}), ae = c.pick<double>({1, 0.95, 2, 1.3, 5});
  int n = (int)c.pick<int>({1024, 2, 3, 17, 200, 5000});
  double da = c.pick<double>({1.02, 1.001, 1.09, 1.3, 1.00001});
  auto P = [&](double a) { return om * a * a * a + (1 - om - ov) * a * a * a * a + ov * a * a * a * a * a; };
  for (double a = as; a < ae * 1.4; a += 0.01)
    if (P(a) / (a * a * a) < 0.02) return; // no expanding solution
  if (as * 0.999 > ae) return;
  bool keys = c.coin(); // both spellings of the parameters
  std::ostringstream ini;
  ini << "[cosmology]\nactive=true\n" << (keys ? "omega_m=" : "omegam=") << fmt(om) << "\n" << (keys ? "omega_v=" : "omegav=") << fmt(ov) << "\naStart=" << fmt(as) << "\naEnd=" << fmt(ae) << "\nda=" << fmt(da) << "\nlookup_size=" << n << "\n";
  ConfigMap cfg(ini.str());
  CosmoManager cosmo(cfg);
  c.desc << "omega_m " << om << " omega_v " << ov << " a " << as << ".." << ae << " table " << n << " da " << da;
  double span = ae * 1.1 - as, h = span / (n - 1);
  std::vector<double> A;
  A.push_back(as);
  A.push_back(ae);
  for (int i = 0; i < 40; i++) A.push_back(as + span * c.real(0, 0.9999, 100000));
  for (int i = 0; i < 6; i++) A.push_back(as + (double)c.draw(0, n - 2) * h); // entries of the table
  A.push_back(as + 1e-9 * span);
  std::sort(A.begin(), A.end());
  A.erase(std::unique(A.begin(), A.end()), A.end());
  auto slope = [&](double a) { return 0.5 * std::sqrt(om) / std::sqrt(P(a)); };
  auto curve = [&](double a) { return 0.25 * std::sqrt(om) * std::fabs(3 * om * a * a + 4 * (1 - om - ov) * a * a * a + 5 * ov * a * a * a * a) / std::pow(P(a), 1.5); };
  // error of linear interpolation of the table around a
  auto interp = [&](double a) {
    double r = 0, lo = std::max(as, a - h);
    for (int i = 0; i <= 16; i++) r = std::max(r, curve(lo + (std::min(a + h, ae * 1.1) - lo) * i / 16));
    return 1.3 * r * h * h / 8;
  };
  double last_t = -1e300, last_a = -1e300;
  for (double a : A)
  {
    double t = cosmo.expansionToTime(a), want = friedmann(om, ov, 1, a);
    double tol = interp(a) + 2e-8 + 1e-9 * std::fabs(want);
    PBT_CHECK(c, std::fabs(t - want) <= tol, "time at a=" << fmt(a) << " is " << fmt(t) << ", integration gives " << fmt(want) << " +- " << tol);
    double gap = (a - last_a) * slope(a) * 0.3;
    PBT_CHECK(c, t > last_t || gap < 1e-8, "time does not increase from a=" << fmt(last_a) << " to " << fmt(a));
    double back = cosmo.timeToExpansion(t);
    PBT_CHECK(c, std::fabs(back - a) <= 1e-9 * a + 1e-12, "a=" << fmt(a) << " becomes " << fmt(back) << " there and back");
    last_t = t;
    last_a = a;
    // a step
    double dt = cosmo.compute_cosmo_dt(a), wd = friedmann(om, ov, a, a * da);
    PBT_CHECK(c, dt > 0 && std::fabs(dt - wd) <= 1e-8 + 1e-9 * wd, "step from a=" << fmt(a) << " is " << fmt(dt) << ", integration gives " << fmt(wd));
    if (a * da <= ae * 1.0999)
    {
      double an = cosmo.timeToExpansion(t + dt);
      double ta = (interp(a) + interp(a * da) + 4e-8) / slope(a * da) * 1.5 + 1e-9 * a;
      PBT_CHECK(c, std::fabs(an - a * da) <= ta + interp(a * da) / slope(std::min(a * da + h, ae * 1.1)), "after the step from a=" << fmt(a) << " the expansion is " << fmt(an) << " expected " << fmt(a * da) << " +- " << ta);
    }
    double f = c.real(1.0001, 2, 1000), g2 = c.real(1.0001, 1.5, 1000);
    bool ok = true;
    for (double x = a; x < a * f * g2; x += 0.02) ok = ok && P(x) / (x * x * x) > 0.02;
    if (ok)
    {
      double d1 = CosmoManager::static_compute_cosmo_dt(om, ov, a, f), d2 = CosmoManager::static_compute_cosmo_dt(om, ov, a * f, g2), d3 = CosmoManager::static_compute_cosmo_dt(om, ov, a, f * g2);
      PBT_CHECK(c, std::fabs(d1 + d2 - d3) <= 3e-8 + 1e-9 * d3, "steps are not additive from a=" << fmt(a));
    }
  }
  c.sync();
  c.nontrivial = true;
}

void C34(Case&);
int main(int argc, char** argv) { return pbt_main(argc, argv, {{"C22", C22}, {"C25", C25}, {"C34", C34}}); }
