// Property-based-testing kernel of the harness.
//  * every random decision is a recorded draw (offset from its lower bound), so a case is a
//    list of integers; replay mode feeds such a list back (exhausted list -> 0 = simplest choice)
//  * all MPI ranks draw the same values (the stream depends only on seed, property, case index)
//  * failures of any rank end the case on all ranks at the next sync point
#pragma once
#include <mpi.h>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>

namespace pbt {

inline uint64_t mix64(uint64_t x)
{
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline uint64_t hash_combine(uint64_t a, uint64_t b) { return mix64(a * 0x100000001B3ull ^ mix64(b)); }
inline uint64_t hash_str(const std::string& s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
// uniform in [0,1) from a hash : for bulk data derived from one recorded salt
inline double u01(uint64_t h) { return (mix64(h) >> 11) * (1.0 / 9007199254740992.0); }

struct CaseFailed : std::runtime_error { using std::runtime_error::runtime_error; };

inline int mpi_rank() { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); return r; }
inline int mpi_size() { int r; MPI_Comm_size(MPI_COMM_WORLD, &r); return r; }
// of the whole job, also while a part of it runs on a sub-communicator
inline int real_rank() { int r; MPI_Comm_rank(vp_real_world, &r); return r; }
inline int real_size() { int r; MPI_Comm_size(vp_real_world, &r); return r; }

struct Case
{
  // choices
  bool replaying = false;
  std::vector<int64_t> in, rec;
  uint64_t state = 0;
  // tier dependent size factor (1 quick, larger in thorough runs)
  int tier = 0;
  // outcome
  bool failed_local = false;
  std::string msg_local;
  bool nontrivial = false;
  std::set<std::string> labels;
  std::ostringstream desc;
  long checks = 0;

  int64_t draw(int64_t lo, int64_t hi) // inclusive
  {
    if (hi < lo) hi = lo;
    int64_t off;
    uint64_t span = (uint64_t)(hi - lo) + 1;
    if (replaying)
    {
      off = rec.size() < in.size() ? in[rec.size()] : 0;
      if (off < 0) off = 0;
      if ((uint64_t)off >= span) off = (int64_t)((uint64_t)off % span);
    }
    else
    {
      state += 0x9E3779B97F4A7C15ull;
      uint64_t r = mix64(state);
      off = (int64_t)(span == 0 ? r : r % span);
    }
    rec.push_back(off);
    return lo + off;
  }
  bool coin(int num = 1, int den = 2) { return draw(0, den - 1) >= den - num; }
  double real(double lo, double hi, int steps = 1000) { return lo + (hi - lo) * (double)draw(0, steps) / steps; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[(size_t)draw(0, (int64_t)v.size() - 1)]; }
  uint64_t salt() { return (uint64_t)draw(0, 1000000) * 0x2545F4914F6CDD1Dull + 12345; }

  void label(const std::string& s) { labels.insert(s); }
  void fail(const std::string& m)
  {
    if (!failed_local) { failed_local = true; msg_local = m; }
  }
  bool check(bool ok, const std::string& m)
  {
    checks++;
    if (!ok) fail(m);
    return ok;
  }
  // collective : every rank must call it
  void sync()
  {
    int n = real_size();
    int me = failed_local ? real_rank() : n;
    int who = n;
    MPI_Allreduce(&me, &who, 1, MPI_INT, MPI_MIN, vp_real_world);
    if (who == n) return;
    int len = (int)msg_local.size();
    MPI_Bcast(&len, 1, MPI_INT, who, vp_real_world);
    std::string m(len, ' ');
    if (real_rank() == who) m = msg_local;
    MPI_Bcast(&m[0], len, MPI_CHAR, who, vp_real_world);
    throw CaseFailed("[rank " + std::to_string(who) + "] " + m);
  }
};

#define PBT_CHECK(c, cond, msg)                                                \
  do {                                                                         \
    (c).checks++;                                                              \
    if (!(cond)) {                                                             \
      if (!(c).failed_local) {                                                 \
        std::ostringstream pbt_os_;                                            \
        pbt_os_.precision(17);                                                 \
        pbt_os_ << msg;                                                        \
        (c).fail(pbt_os_.str());                                               \
      }                                                                        \
    }                                                                          \
  } while (0)

inline std::string json_str(const std::string& s)
{
  std::string o = "\"";
  for (unsigned char ch : s)
  {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 0x20 || ch > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}

typedef std::function<void(Case&)> PropFn;

struct Runner
{
  std::map<std::string, PropFn> props;
  Case* cur = nullptr;
  long cur_idx = -1;
  std::string report;
  static Runner*& self() { static Runner* r = nullptr; return r; }

  static void on_signal(int sig)
  {
    Runner* r = self();
    if (r && r->cur)
    {
      // not async-signal-safe in general; the process is lost anyway
      std::string fn = r->report + ".crash." + std::to_string(getpid());
      int fd = open(fn.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0)
      {
        std::string s = "{\"i\":" + std::to_string(r->cur_idx) + ",\"sig\":" + std::to_string(sig) + ",\"choices\":[";
        for (size_t i = 0; i < r->cur->rec.size(); i++) { if (i) s += ","; s += std::to_string(r->cur->rec[i]); }
        s += "]}\n";
        if (write(fd, s.data(), s.size())) {}
        close(fd);
      }
    }
    signal(sig, SIG_DFL);
    _exit(128 + sig);
  }

  FILE* out = nullptr;
  void line(const std::string& s)
  {
    if (out) { fputs(s.c_str(), out); fputc('\n', out); fflush(out); }
  }
  static std::string choices_json(const Case& c)
  {
    std::string s = "[";
    for (size_t i = 0; i < c.rec.size(); i++) { if (i) s += ","; s += std::to_string(c.rec[i]); }
    return s + "]";
  }

  // usage : driver --prop ID --seed N --first I --count N --report FILE [--tier t] [--deadline s]
  //         driver --prop ID --replay FILE(lines of space separated ints) --report FILE
  int run(int argc, char** argv)
  {
    std::string prop, replay;
    uint64_t seed = 1;
    long first = 0, count = 1;
    int tier = 0;
    double deadline = 1e9;
    for (int i = 1; i < argc; i++)
    {
      std::string a = argv[i];
      auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (a == "--prop") prop = nx();
      else if (a == "--seed") seed = std::stoull(nx());
      else if (a == "--first") first = std::stol(nx());
      else if (a == "--count") count = std::stol(nx());
      else if (a == "--report") report = nx();
      else if (a == "--tier") tier = std::stoi(nx());
      else if (a == "--replay") replay = nx();
      else if (a == "--deadline") deadline = std::stod(nx());
    }
    if (!props.count(prop)) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 3; }
    PropFn fn = props[prop];
    int rank = real_rank();
    if (rank == 0 && !report.empty()) out = fopen(report.c_str(), "w");
    self() = this;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGTERM}) signal(s, on_signal);
    std::vector<std::vector<int64_t>> lists;
    if (!replay.empty())
    {
      FILE* f = fopen(replay.c_str(), "r");
      if (!f) { fprintf(stderr, "no replay file\n"); return 3; }
      std::string ln;
      int ch;
      auto flush = [&]() {
        std::istringstream is(ln);
        std::vector<int64_t> v;
        long long x;
        while (is >> x) v.push_back(x);
        lists.push_back(v);
        ln.clear();
      };
      while ((ch = fgetc(f)) != EOF) { if (ch == '\n') flush(); else ln += (char)ch; }
      if (!ln.empty()) flush();
      fclose(f);
      first = 0;
      count = (long)lists.size();
    }
    double t0 = MPI_Wtime();
    for (long i = first; i < first + count; i++)
    {
      int stop = (MPI_Wtime() - t0 > deadline);
      MPI_Bcast(&stop, 1, MPI_INT, 0, vp_real_world);
      if (stop) { line("{\"deadline\":" + std::to_string(i) + "}"); break; }
      Case c;
      c.tier = tier;
      if (!replay.empty()) { c.replaying = true; c.in = lists[i]; }
      c.state = hash_combine(hash_combine(seed, hash_str(prop)), (uint64_t)i);
      cur = &c;
      cur_idx = i;
      line("{\"start\":" + std::to_string(i) + "}");
      std::string failure;
      bool failed = false, exc = false;
      try { fn(c); c.sync(); }
      catch (const CaseFailed& e) { failed = true; failure = e.what(); }
      catch (const std::exception& e) { failed = true; exc = true; failure = std::string("unexpected exception: ") + e.what(); }
      if (exc && real_size() > 1)
      {
        // the other ranks may be waiting in a collective : report through a crash file and abort
        std::string fnm = report + ".crash." + std::to_string(getpid());
        FILE* f = fopen(fnm.c_str(), "w");
        if (f)
        {
          fprintf(f, "{\"i\":%ld,\"fail\":%s,\"choices\":%s}\n", i, json_str("[rank " + std::to_string(rank) + "] " + failure).c_str(), choices_json(c).c_str());
          fclose(f);
        }
        cur = nullptr;
        usleep(20000);
        MPI_Abort(vp_real_world, 9);
      }
      if (rank == 0)
      {
        std::string lab = "[";
        for (auto& l : c.labels) { if (lab.size() > 1) lab += ","; lab += json_str(l); }
        lab += "]";
        uint64_t sg = 1;
        for (auto v : c.rec) sg = hash_combine(sg, (uint64_t)v);
        char hb[32];
        snprintf(hb, 32, "%016llx", (unsigned long long)sg);
        std::string s = "{\"i\":" + std::to_string(i) + ",\"nt\":" + (c.nontrivial ? "1" : "0") + ",\"sg\":\"" + hb + "\",\"checks\":" + std::to_string(c.checks) +
                        ",\"labels\":" + lab + ",\"desc\":" + json_str(c.desc.str().substr(0, 400));
        if (failed) s += ",\"fail\":" + json_str(failure.substr(0, 2000)) + ",\"choices\":" + choices_json(c);
        line(s + "}");
      }
      cur = nullptr;
    }
    line("{\"end\":1}");
    if (out) fclose(out);
    MPI_Barrier(vp_real_world);
    return 0;
  }
};

} // namespace pbt
