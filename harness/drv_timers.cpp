// C34 timers: a tree of named timers against a model, under a clock the harness owns
#include "pbt.h"
#include "kokkos_shared.h"
#include "utils/monitoring/Timers.h"
#include "main.h"
#include <chrono>
#include <regex>
#include <unistd.h>
using pbt::Case;

namespace {
long calls = 0;
int64_t tick = 0;
double base = 0;
} // namespace
// the clock of the timers: the harness decides when time passes (the executable's definition comes before that of the OpenMP library)
extern "C" double omp_get_wtime() noexcept { calls++; return base + (double)tick / 1024; }

namespace {
bool fake()
{
  static int f = -1;
  if (f < 0) { Timers t; auto a = t.get("x"); long n = calls; a.start(); a.stop(); f = calls > n; }
  return f;
}
double now()
{
  if (fake()) return base + (double)tick / 1024;
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
void pass(int64_t n)
{
  tick += n;
  if (!fake()) usleep((useconds_t)std::min<int64_t>(n, 500));
}
struct Node
{
  std::string name;
  std::map<std::string, std::unique_ptr<Node>> kids;
  double total = 0, since = 0;
  bool running = false;
  Node* before = nullptr; // running when this one was started
};
struct Model
{
  Node root;
  Node* cur = &root;
  Model() { root.name = "Total"; root.since = now(); root.running = true; }
  Node* get(const std::string& n)
  {
    if (n == cur->name) return cur;
    auto& k = cur->kids[n];
    if (!k) { k = std::make_unique<Node>(); k->name = n; }
    return k.get();
  }
  bool start(Node* n)
  {
    if (n->running) return false;
    n->running = true;
    n->since = now();
    n->before = cur;
    cur = n;
    return true;
  }
  bool stop(Node* n)
  {
    if (cur != n || n == &root) return false;
    n->total += now() - n->since;
    n->running = false;
    cur = n->before;
    return true;
  }
  void settle() { double t = now(); root.total += t - root.since; root.since = t; }
  void list(const Node& n, const std::string& prefix, std::map<std::string, double>& out) const
  {
    out[prefix + n.name] = n.total;
    for (auto& k : n.kids) list(*k.second, prefix + n.name + "/", out);
  }
};
struct Sut
{
  Timers t;
  Model m;
  std::vector<std::pair<Timers::Timer, Node*>> handles;
};
template <class F> bool refused(F f)
{
  try { f(); }
  catch (const std::exception&) { return true; }
  return false;
}
// what f writes to standard output
template <class F> std::string output_of(F f)
{
  fflush(stdout);
  std::cout.flush();
  int old = dup(1);
  FILE* tmp = tmpfile();
  if (old < 0 || !tmp) throw std::runtime_error("tmpfile");
  dup2(fileno(tmp), 1);
  f();
  fflush(stdout);
  std::cout.flush();
  dup2(old, 1);
  close(old);
  std::string s;
  rewind(tmp);
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, tmp)) > 0) s.append(b, n);
  fclose(tmp);
  return s;
}
struct Row { double t, pc; };
void printed(const Node& n, const std::string& prefix, double all, std::multimap<std::string, Row>& out)
{
  std::string me = prefix + n.name;
  out.insert({me, {n.total, 100 * n.total / all}});
  double s = 0;
  for (auto& k : n.kids) { s += k.second->total; printed(*k.second, me + "/", all, out); }
  if (!n.kids.empty()) out.insert({me + "/other", {n.total - s, 100 * (n.total - s) / all}});
}
} // namespace

void C34(Case& c)
{
  static const std::vector<std::string> names = {"AMR", "hydro", "AMR: load-balance", "dt", "a", "b", "very long name of a timer, thirty", "outputs"};
  tick = 0;
  base = c.pick<double>({0, 1e6, 12345.5});
  std::vector<Sut*> suts; // destroyed at the end only: a tree with a running timer cannot be destroyed
  int ns = c.coin(1, 4) ? 2 : 1;
  int64_t waits = 0;
  for (int i = 0; i < ns; i++) { suts.push_back(new Sut); pass(c.draw(0, 5)); }
  int nops = (int)c.draw(1, 40), nstart = 0, nref = 0, nquery = 0;
  auto tol = [&](double v) { return fake() ? 1e-9 * (1 + std::fabs(v)) : 0.01 + 0.002 * nops; };
  for (int o = 0; o < nops && !c.failed_local; o++)
  {
    Sut& s = *suts[c.draw(0, ns - 1)];
    switch (c.draw(0, 9))
    {
      case 0: case 1: // a section begins
      {
        std::string n = names[c.draw(0, (int64_t)names.size() - 1)];
        auto t = s.t.get(n);
        Node* k = s.m.get(n);
        s.handles.push_back({t, k});
        bool own = k->running; // already running: refused
        bool r = refused([&] { t.start(); });
        PBT_CHECK(c, r == own, "start of '" << n << "' inside '" << s.m.cur->name << "' was " << (r ? "refused" : "accepted"));
        if (!r) s.m.start(k), nstart++;
        else nref++;
        break;
      }
      case 2: case 3: // the running section ends
        if (s.m.cur != &s.m.root)
        {
          Node* k = s.m.cur;
          auto t = s.t.get(k->name);
          bool r = refused([&] { t.stop(); });
          PBT_CHECK(c, !r, "stop of the running timer '" << k->name << "' was refused");
          if (!r) s.m.stop(k);
        }
        break;
      case 4: // a handle kept from before
        if (!s.handles.empty())
        {
          auto h = s.handles[c.draw(0, (int64_t)s.handles.size() - 1)];
          bool st = c.coin(), can = st ? !h.second->running : s.m.cur == h.second;
          bool r = refused([&] { st ? h.first.start() : h.first.stop(); });
          PBT_CHECK(c, r == !can, (st ? "start" : "stop") << " of '" << h.second->name << "' (running " << h.second->running << ", innermost " << (s.m.cur == h.second) << ") was " << (r ? "refused" : "accepted"));
          if (!r && can) { if (st) s.m.start(h.second), nstart++; else s.m.stop(h.second); }
          if (!can) nref++;
        }
        break;
      case 5: // elapsed time of one timer
        if (!s.handles.empty())
        {
          auto h = s.handles[c.draw(0, (int64_t)s.handles.size() - 1)];
          double v = 0;
          bool r = refused([&] { v = h.first.elapsed(Timers::Timer::ELAPSED_CPU); });
          PBT_CHECK(c, r == h.second->running, "elapsed() of '" << h.second->name << "' (running " << h.second->running << ") was " << (r ? "refused" : "accepted"));
          if (!r) PBT_CHECK(c, std::fabs(v - h.second->total) <= tol(v), "'" << h.second->name << "' reports " << v << " s, it ran " << h.second->total);
          nquery++;
        }
        break;
      case 6: // only created
      {
        std::string n = names[c.draw(0, 3)];
        s.t.get(n);
        s.m.get(n);
        break;
      }
      default: { int64_t n = c.pick<int64_t>({1, 1024, 0, 77, 100000, 1500}); pass(n); waits += n; }
    }
  }
  c.desc << nops << " operations, " << nstart << " sections, " << ns << " trees";
  for (Sut* sp : suts)
  {
    Sut& s = *sp;
    if (c.failed_local) break;
    if (s.m.cur != &s.m.root && c.coin(1, 3))
    {
      std::vector<std::string> nn;
      std::vector<double> tt;
      PBT_CHECK(c, refused([&] { s.t.get_timers(nn, tt); }), "list of timers while '" << s.m.cur->name << "' runs was accepted");
    }
    while (s.m.cur != &s.m.root) { Node* k = s.m.cur; auto t = s.t.get(k->name); if (refused([&] { t.stop(); })) { PBT_CHECK(c, false, "stop of '" << k->name << "' refused"); break; } s.m.stop(k); pass(3); }
    if (c.failed_local) break;
    int reads = (int)c.draw(1, 3);
    for (int q = 0; q < reads && !c.failed_local; q++)
    {
      s.m.settle();
      if (c.coin())
      {
        std::vector<std::string> nn;
        std::vector<double> tt;
        bool r = refused([&] { s.t.get_timers(nn, tt); });
        PBT_CHECK(c, !r && nn.size() == tt.size(), "list of timers refused or of different lengths");
        std::map<std::string, double> want;
        s.m.list(s.m.root, "", want);
        PBT_CHECK(c, nn.size() == want.size(), nn.size() << " timers listed, there are " << want.size());
        if (nn.size() == tt.size())
          for (size_t i = 0; i < nn.size(); i++)
          {
            auto it = want.find(nn[i]);
            PBT_CHECK(c, it != want.end(), "timer '" << nn[i] << "' listed, it does not exist or is listed twice");
            if (it == want.end()) break;
            PBT_CHECK(c, std::fabs(tt[i] - it->second) <= tol(tt[i]), "timer '" << nn[i] << "' listed with " << tt[i] << " s, it ran " << it->second);
            want.erase(it);
          }
      }
      else
      {
        std::string out = output_of([&] { s.t.print(); });
        std::multimap<std::string, Row> want;
        double all = s.m.root.total;
        printed(s.m.root, "", all, want);
        static const std::regex re("^((?:\\| )*)(.*\\S) +time \\(CPU\\) : +(-?[0-9.]+) s \\( *(-?[0-9a-z.]+)%\\).*$");
        std::istringstream is(out);
        std::string line;
        std::vector<std::string> path;
        size_t rows = 0;
        while (std::getline(is, line) && !c.failed_local)
        {
          if (line.empty()) continue;
          std::smatch m;
          if (!std::regex_match(line, m, re)) { PBT_CHECK(c, false, "line '" << line << "' of the summary is not a timer"); break; }
          size_t depth = m[1].length() / 2;
          PBT_CHECK(c, depth <= path.size(), "line '" << line << "' has no parent");
          if (depth > path.size()) break;
          path.resize(depth);
          path.push_back(m[2]);
          std::string p;
          for (auto& x : path) p += (p.empty() ? "" : "/") + x;
          double v = std::stod(m[3]);
          bool hit = false;
          auto range = want.equal_range(p);
          for (auto it = range.first; it != range.second && !hit; ++it)
            if (std::fabs(v - it->second.t) <= 0.00051 + tol(v) && (!fake() || all == 0 || std::fabs(std::stod(m[4]) - it->second.pc) <= 0.0051 + 1e-9 * std::fabs(it->second.pc)))
            {
              want.erase(it);
              hit = true;
            }
          PBT_CHECK(c, hit, "the summary says " << p << " took " << m[3] << " s (" << m[4] << "%)" << (range.first == range.second ? "; there is no such timer left" : ", it took " + std::to_string(range.first->second.t) + " of " + std::to_string(all)));
          rows++;
        }
        PBT_CHECK(c, c.failed_local || want.empty(), "timer '" << (want.empty() ? "" : want.begin()->first) << "' is missing in the summary");
        c.label("printed");
      }
      pass(c.draw(0, 2000));
    }
  }
  if (!c.failed_local) for (Sut* sp : suts) delete sp;
  if (!fake()) c.label("other clock");
  if (nref) c.label("refused request");
  c.sync();
  c.nontrivial = nstart > 0 && waits > 0;
}
