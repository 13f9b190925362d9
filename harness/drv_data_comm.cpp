// C29 exchange of distributed arrays between processes and collective operations
#include "common.h"
#include "mpi/ViewCommunicator.h"
#include "utils/mpi/MpiComm.h"
#include "main.h"
using namespace dyablo;
using pbt::Case;

namespace {
typedef std::vector<std::vector<std::vector<uint32_t>>> Pattern; // [source][destination] -> objects
struct Exch
{
  int me, np;
  std::vector<uint32_t> nobj;
  Pattern send;
  std::array<uint32_t, 3> other{{1, 1, 1}}; // extents of the other dimensions
  uint64_t salt;
  const MpiComm* comm;
  bool reduce;
};
// value of element e of object o of process r : integers, so that sums are exact
template <class T> T val(uint64_t salt, int r, uint32_t o, uint32_t e)
{
  uint64_t h = pbt::mix64(pbt::hash_combine(salt, ((uint64_t)r << 40) + ((uint64_t)o << 16) + e));
  return (T)(h % (sizeof(T) == 1 ? 100 : 1000003)) - (std::is_signed<T>::value || std::is_floating_point<T>::value ? (T)50 : (T)0);
}
template <int R, int D, class V> typename V::value_type& at(const V& v, uint32_t o, uint32_t e, const std::array<uint32_t, 3>& ex)
{
  uint32_t x[3] = {0, 0, 0};
  int q = 0;
  for (int d = 0; d < R; d++)
  {
    if (d == D) { x[d] = o; continue; }
    x[d] = e % ex[q];
    e /= ex[q++];
  }
  if constexpr (R == 1) return v(x[0]);
  else if constexpr (R == 2) return v(x[0], x[1]);
  else return v(x[0], x[1], x[2]);
}
template <int R, int D, class V> V make(const char* n, uint32_t nobj, const std::array<uint32_t, 3>& ex)
{
  size_t s[3] = {0, 0, 0};
  int q = 0;
  for (int d = 0; d < R; d++) s[d] = d == D ? nobj : ex[q++];
  if constexpr (R == 1) return V(std::string(n), s[0]);
  else if constexpr (R == 2) return V(std::string(n), s[0], s[1]);
  else return V(std::string(n), s[0], s[1], s[2]);
}
template <class T, class L, int R, int D> void exchange(Case& c, const Exch& x, const ViewCommunicator& vc)
{
  using View = std::conditional_t<R == 1, Kokkos::View<T*, L>, std::conditional_t<R == 2, Kokkos::View<T**, L>, Kokkos::View<T***, L>>>;
  uint32_t ne = 1;
  for (int q = 0; q < R - 1; q++) ne *= x.other[q];
  View U = make<R, D, View>("U", x.nobj[x.me], x.other);
  for (uint32_t o = 0; o < x.nobj[x.me]; o++)
    for (uint32_t e = 0; e < ne; e++) at<R, D>(U, o, e, x.other) = val<T>(x.salt, x.me, o, e);
  uint32_t ng = 0;
  for (int r = 0; r < x.np; r++) ng += x.send[r][x.me].size();
  PBT_CHECK(c, vc.getNumGhosts() == ng, "getNumGhosts " << vc.getNumGhosts() << ", this process is sent " << ng << " objects");
  c.sync();
  View G = make<R, D, View>("G", ng, x.other);
  for (uint32_t o = 0; o < ng; o++)
    for (uint32_t e = 0; e < ne; e++) at<R, D>(G, o, e, x.other) = (T)7;
  if (!x.reduce)
  {
    vc.exchange_ghosts<D>(U, G);
    uint32_t g = 0;
    for (int r = 0; r < x.np; r++)
      for (uint32_t o : x.send[r][x.me])
      {
        for (uint32_t e = 0; e < ne; e++)
          PBT_CHECK(c, (at<R, D>(G, g, e, x.other)) == val<T>(x.salt, r, o, e),
                    "received object " << g << " element " << e << ": " << +(at<R, D>(G, g, e, x.other)) << ", object " << o << " of process " << r << " has " << +val<T>(x.salt, r, o, e));
        g++;
      }
    c.checks += (long)ng * ne;
    for (uint32_t o = 0; o < x.nobj[x.me]; o++)
      for (uint32_t e = 0; e < ne; e++) PBT_CHECK(c, (at<R, D>(U, o, e, x.other)) == val<T>(x.salt, x.me, o, e), "exchange changed object " << o << " of the sender");
  }
  else if constexpr (std::is_same<T, real_t>::value)
  {
    // ghost g of process p, in the order of reception
    auto gv = [&](int p, uint32_t g, uint32_t e) { return val<T>(x.salt + 99, p, g, e); };
    for (uint32_t o = 0; o < ng; o++)
      for (uint32_t e = 0; e < ne; e++) at<R, D>(G, o, e, x.other) = gv(x.me, o, e);
    vc.reduce_ghosts<D>(U, G);
    std::vector<T> want((size_t)x.nobj[x.me] * ne);
    for (uint32_t o = 0; o < x.nobj[x.me]; o++)
      for (uint32_t e = 0; e < ne; e++) want[o * ne + e] = val<T>(x.salt, x.me, o, e);
    for (int p = 0; p < x.np; p++)
    {
      uint32_t g = 0;
      for (int r = 0; r < x.np; r++)
        for (uint32_t o : x.send[r][p])
        {
          if (r == x.me) for (uint32_t e = 0; e < ne; e++) want[o * ne + e] += gv(p, g, e);
          g++;
        }
    }
    for (uint32_t o = 0; o < x.nobj[x.me]; o++)
      for (uint32_t e = 0; e < ne; e++)
        PBT_CHECK(c, (at<R, D>(U, o, e, x.other)) == want[o * ne + e], "after reduce object " << o << " element " << e << " is " << +(at<R, D>(U, o, e, x.other)) << ", its value plus those of its copies is " << +want[o * ne + e]);
    c.checks += (long)want.size();
  }
}
template <class T, class L> void exchange_rank(Case& c, const Exch& x, const ViewCommunicator& vc, int kind)
{
  switch (kind)
  {
  case 0: exchange<T, L, 1, 0>(c, x, vc); break;
  case 1: exchange<T, L, 2, 0>(c, x, vc); break;
  case 2: exchange<T, L, 2, 1>(c, x, vc); break;
  case 3: exchange<T, L, 3, 0>(c, x, vc); break;
  case 4: exchange<T, L, 3, 1>(c, x, vc); break;
  default: exchange<T, L, 3, 2>(c, x, vc);
  }
}

template <class T> T apply(MpiComm::MPI_Op_t op, T a, T b)
{
  switch (op)
  {
  case MpiComm::MIN: return std::min(a, b);
  case MpiComm::MAX: return std::max(a, b);
  case MpiComm::SUM: return (T)(a + b);
  case MpiComm::LOR: return (T)(a || b);
  default: return (T)(a && b);
  }
}
template <class T> void collective(Case& c, const MpiComm& comm, int what, uint64_t salt)
{
  int np = comm.MPI_Comm_size(), me = comm.MPI_Comm_rank();
  uint32_t n = (uint32_t)c.draw(0, 6);
  bool small = sizeof(T) == 1, wide = c.coin();
  auto v = [&](int r, uint32_t i) -> T {
    uint64_t h = pbt::mix64(pbt::hash_combine(salt + r, i));
    if constexpr (std::is_integral<T>::value && !std::is_same<T, bool>::value)
    { // the whole range (signed : what can still be added up), and its ends
      if (wide && std::is_unsigned<T>::value) return h % 7 == 0 ? std::numeric_limits<T>::max() : (T)(h >> 5);
      if (wide) return h % 7 == 0 ? (T)(std::numeric_limits<T>::min() / 8) : (T)((T)(h >> 5) / 8);
    }
    else if constexpr (std::is_floating_point<T>::value)
      if (wide && what > 1) return (T)std::ldexp((double)(int64_t)h, (int)(h % 40) - 60);
    return (T)(h % (small ? 5 : 1000)) - (std::is_signed<T>::value ? (T)2 : (T)0);
  };
  std::vector<T> s(n);
  for (uint32_t i = 0; i < n; i++) s[i] = v(me, i);
  if (what <= 1)
  {
    std::vector<MpiComm::MPI_Op_t> ops = {MpiComm::MIN, MpiComm::MAX, MpiComm::SUM};
    if (std::is_integral<T>::value) { ops.push_back(MpiComm::LOR); ops.push_back(MpiComm::LAND); }
    auto op = c.pick(ops);
    bool scan = what == 1, in_place = c.coin();
    std::vector<T> r = in_place ? s : std::vector<T>(n, (T)9);
    if (scan) comm.MPI_Scan(in_place ? r.data() : s.data(), r.data(), n, op);
    else comm.MPI_Allreduce(in_place ? r.data() : s.data(), r.data(), n, op);
    for (uint32_t i = 0; i < n; i++)
    {
      T w = v(0, i);
      if (np == 1 && op >= MpiComm::LOR) continue;
      for (int p = 1; p < (scan ? me + 1 : np); p++) w = apply<T>(op, w, v(p, i));
      if (scan && me == 0 && op >= MpiComm::LOR) continue;
      PBT_CHECK(c, r[i] == w, (scan ? "MPI_Scan" : "MPI_Allreduce") << (in_place ? " in place" : "") << " with operation " << (int)op << " gives " << +r[i] << " instead of " << +w);
    }
    c.label(scan ? "scan" : "allreduce");
  }
  else if (what == 2)
  {
    std::vector<T> r((size_t)n * np, (T)9);
    comm.MPI_Allgather(s.data(), r.data(), n);
    for (int p = 0; p < np; p++) for (uint32_t i = 0; i < n; i++) PBT_CHECK(c, r[p * n + i] == v(p, i), "MPI_Allgather: item " << i << " of process " << p << " is " << +r[p * n + i]);
    c.label("allgather");
  }
  else if (what == 3)
  {
    std::vector<uint32_t> cnt(np);
    for (auto& k : cnt) k = (uint32_t)c.draw(0, 4);
    std::vector<T> r, w;
    for (int p = 0; p < np; p++) for (uint32_t i = 0; i < cnt[p]; i++) { w.push_back(v(p, i)); r.push_back(p == me ? v(p, i) : (T)9); }
    r.push_back((T)9);
    comm.MPI_Allgatherv_inplace(r.data(), (int)cnt[me]);
    for (size_t i = 0; i < w.size(); i++) PBT_CHECK(c, r[i] == w[i], "MPI_Allgatherv_inplace: item " << i << " is " << +r[i] << " instead of " << +w[i]);
    c.label("allgatherv");
  }
  else if (what == 4)
  {
    int root = (int)c.draw(0, np - 1);
    comm.MPI_Bcast(s.data(), n, root);
    for (uint32_t i = 0; i < n; i++) PBT_CHECK(c, s[i] == v(root, i), "MPI_Bcast from " << root << ": item " << i << " is " << +s[i]);
    c.label("broadcast");
  }
  else if (what == 5)
  {
    std::vector<T> a((size_t)n * np), r((size_t)n * np, (T)9);
    for (int p = 0; p < np; p++) for (uint32_t i = 0; i < n; i++) a[p * n + i] = v(me * 50 + p, i);
    comm.MPI_Alltoall(a.data(), n, r.data(), n);
    for (int p = 0; p < np; p++) for (uint32_t i = 0; i < n; i++) PBT_CHECK(c, r[p * n + i] == v(p * 50 + me, i), "MPI_Alltoall: item " << i << " from process " << p << " is " << +r[p * n + i]);
    c.label("alltoall");
  }
  else if (what == 6)
  {
    std::vector<std::vector<int>> cnt(np, std::vector<int>(np));
    for (auto& row : cnt) for (auto& k : row) k = (int)c.draw(0, 3);
    std::vector<T> a, r;
    std::vector<int> rc(np);
    for (int p = 0; p < np; p++) for (int i = 0; i < cnt[me][p]; i++) a.push_back(v(me * 50 + p, i));
    for (int p = 0; p < np; p++) { rc[p] = cnt[p][me]; r.insert(r.end(), rc[p], (T)9); }
    comm.MPI_Alltoallv(a.data(), cnt[me].data(), r.data(), rc.data());
    size_t q = 0;
    for (int p = 0; p < np; p++) for (int i = 0; i < rc[p]; i++, q++) PBT_CHECK(c, r[q] == v(p * 50 + me, i), "MPI_Alltoallv: item " << i << " from process " << p << " is " << +r[q]);
    c.label("alltoallv");
  }
  else
  {
    // a ring of messages
    if (np == 1) return;
    int to = (me + 1) % np, from = (me + np - 1) % np, tag = (int)c.draw(0, 5);
    Kokkos::View<T*> a("a", n), b("b", n);
    for (uint32_t i = 0; i < n; i++) a(i) = s[i], b(i) = (T)9;
    if (c.coin())
    {
      if (me % 2 == 0 && !(np % 2 == 1 && me == np - 1)) { comm.MPI_Send(a.data(), n, to, tag); comm.MPI_Recv(b.data(), n, from, tag); }
      else { comm.MPI_Recv(b.data(), n, from, tag); comm.MPI_Send(a.data(), n, to, tag); }
    }
    else
    {
      MpiComm::MPI_Request_t q[2] = {comm.MPI_Irecv(b, from, tag), comm.MPI_Isend(a, to, tag)};
      comm.MPI_Waitall(2, q);
    }
    for (uint32_t i = 0; i < n; i++) PBT_CHECK(c, b(i) == v(from, i), "message from process " << from << ": item " << i << " is " << +b(i));
    c.label("messages");
  }
  c.desc << " n " << n;
  c.nontrivial = np > 1 && (n > 0 || what == 3 || what == 6);
}
// the two types used for flags and texts
void flags_and_texts(Case& c, const MpiComm& comm, uint64_t salt)
{
  int np = comm.MPI_Comm_size(), me = comm.MPI_Comm_rank();
  int n = (int)c.draw(0, 5), ones = (int)c.draw(0, 2);
  bool in_place = c.coin(), scan = c.coin(1, 3);
  auto op = c.coin() ? MpiComm::LOR : MpiComm::LAND;
  auto f = [&](int r, int i) { uint64_t h = pbt::mix64(pbt::hash_combine(salt + r, i)) % 8; return ones == 0 ? h == 0 : ones == 1 ? h < 4 : h > 0; };
  bool s[6] = {}, r[6] = {};
  for (int i = 0; i < n; i++) { s[i] = f(me, i); r[i] = in_place && s[i]; }
  if (scan) comm.MPI_Scan(in_place ? r : s, r, n, op);
  else comm.MPI_Allreduce(in_place ? r : s, r, n, op);
  for (int i = 0; i < n; i++)
  {
    bool w = f(0, i);
    for (int p = 1; p < (scan ? me + 1 : np); p++) w = op == MpiComm::LOR ? w || f(p, i) : w && f(p, i);
    PBT_CHECK(c, r[i] == w, (scan ? "MPI_Scan" : "MPI_Allreduce") << (in_place ? " in place" : "") << " of flags with operation " << (int)op << " gives " << r[i]);
  }
  int root = (int)c.draw(0, np - 1);
  auto ch = [&](int r, int i) { return (char)pbt::mix64(pbt::hash_combine(salt + 99 + r, i)); };
  std::vector<char> t(n), all((size_t)n * np);
  for (int i = 0; i < n; i++) t[i] = ch(me, i);
  comm.MPI_Allgather(t.data(), all.data(), n);
  comm.MPI_Bcast(t.data(), n, root);
  comm.MPI_Bcast(s, n, root);
  for (int i = 0; i < n; i++)
  {
    PBT_CHECK(c, t[i] == ch(root, i) && s[i] == f(root, i), "MPI_Bcast of characters or flags from " << root << ": item " << i << " differs");
    for (int p = 0; p < np; p++) PBT_CHECK(c, all[p * n + i] == ch(p, i), "MPI_Allgather of characters: item " << i << " of process " << p << " differs");
  }
  c.label("flags and characters");
  c.desc << " n " << n;
  c.nontrivial = np > 1 && n > 0;
}
} // namespace

void C29(Case& c)
{
  // all processes, or one of the two halves of a divided world
  bool split = pbt::real_size() > 1 && c.coin(1, 4);
  int world = pbt::real_size(), me = pbt::real_rank(), cut = split ? (int)c.draw(1, world - 1) : world;
  MPI_Comm sub = vp_real_world;
  if (split) { MPI_Comm_split(vp_real_world, me < cut ? 0 : 1, c.coin() ? me : -me, &sub); c.label("part of the processes"); }
  {
    MpiComm comm(sub);
    int np = comm.MPI_Comm_size(), r = comm.MPI_Comm_rank(), tr, tn;
    MPI_Comm_rank(sub, &tr);
    MPI_Comm_size(sub, &tn);
    PBT_CHECK(c, np == tn && r == tr, "MpiComm says process " << r << " of " << np << ", it is " << tr << " of " << tn);
    c.sync();
    uint64_t salt = c.salt() + (me < cut ? 0 : 7);
    if (c.coin(1, 3))
    {
      int what = (int)c.draw(0, 7), type = (int)c.draw(0, 10);
      c.desc << "collective " << what << " type " << type << " on " << np << (split ? " (part)" : "");
      // every process of the world draws the same, counts of the larger half are drawn by all
      // (draws inside depend on np) : only equal halves may divide
      if (split && what >= 3) { if (world % 2 || cut != world / 2) what = 0; }
      if (split && what == 7 && np == 1) what = 2;
      if (type == 10 && split && (world % 2 || cut != world / 2)) type = 0;
      switch (type)
      {
      case 10: flags_and_texts(c, comm, salt); break;
      case 0: collective<double>(c, comm, what, salt); break;
      case 1: collective<float>(c, comm, what, salt); break;
      case 2: collective<uint64_t>(c, comm, what, salt); break;
      case 3: collective<uint32_t>(c, comm, what, salt); break;
      case 4: collective<uint16_t>(c, comm, what, salt); break;
      case 5: collective<uint8_t>(c, comm, what, salt); break;
      case 6: collective<int64_t>(c, comm, what, salt); break;
      case 7: collective<int32_t>(c, comm, what, salt); break;
      case 8: collective<int16_t>(c, comm, what, salt); break;
      default: collective<int8_t>(c, comm, what, salt); break;
      }
    }
    else
    {
      Exch x;
      x.comm = &comm;
      x.me = r;
      x.np = np;
      x.salt = salt;
      x.reduce = c.coin(1, 3);
      int ctor = (int)c.draw(0, 2); // map, sizes and list, target domain of every object
      int dens = (int)c.pick<int>({1, 0, 3}), mx = (int)c.pick<int>({4, 0, 1, 12, 40}), self = (int)c.draw(0, 2);
      bool onesided = c.coin(1, 5), reorder = c.coin();
      for (auto& e : x.other) e = (uint32_t)c.pick<int>({2, 1, 3, 5});
      int kind = (int)c.draw(0, 5), type = (int)c.draw(0, 4), layout = c.coin(1, 4) ? 1 : 0;
      if (x.reduce && type != 4) type = 0;
      auto H = [&](uint64_t a, uint64_t b, uint64_t d) { return pbt::mix64(pbt::hash_combine(pbt::hash_combine(salt + a, b), d)); };
      for (int p = 0; p < np; p++) x.nobj.push_back(mx ? (uint32_t)(H(1, p, 0) % (mx + 1)) : 0);
      x.send.assign(np, std::vector<std::vector<uint32_t>>(np));
      std::vector<std::vector<int>> target(np);
      for (int p = 0; p < np; p++)
        for (uint32_t o = 0; o < x.nobj[p]; o++)
        {
          if (ctor == 2)
          {
            int t = onesided ? 0 : (int)(H(2, p, o) % np);
            if (self == 2 && H(3, p, o) % 2) t = p;
            if (x.reduce && t == p) t = (p + 1) % np;
            target[p].push_back(t);
            x.send[p][t].push_back(o);
          }
          else
            for (int t = 0; t < np; t++)
            {
              if (t == p && (self == 0 || x.reduce)) continue;
              if (onesided && t != 0) continue;
              if (H(4 + t, p, o) % 4 > (uint64_t)dens) continue;
              x.send[p][t].push_back(o);
            }
        }
      if (x.reduce && np == 1) x.send[0][0].clear(), target[0].assign(target[0].size(), 0);
      if (reorder && ctor < 2)
        for (auto& row : x.send) for (auto& l : row) for (size_t i = 1; i < l.size(); i++) std::swap(l[i], l[H(50, i, l[i]) % (i + 1)]);
      if (ctor < 2 && c.coin(1, 4))
      {
        // an object listed twice for the same process
        c.label("repeated object");
        for (auto& row : x.send) for (auto& l : row) if (l.size() > 1) l.push_back(l[0]);
      }
      if (ctor == 2 && x.reduce && np == 1) { ctor = 0; }
      c.desc << (x.reduce ? "reduce " : "exchange ") << "view kind " << kind << " type " << type << " layout " << (layout ? "right" : "left") << " ctor " << ctor << " on " << np << (split ? " (part)" : "") << " up to " << mx << " objects";
      c.label(ctor == 0 ? "map" : ctor == 1 ? "sizes and list" : "target domains");
      c.label(x.reduce ? "reduce" : "exchange");
      std::unique_ptr<ViewCommunicator> vc;
      if (ctor == 0)
      {
        std::map<int, std::vector<uint32_t>> m;
        for (int t = 0; t < np; t++) if (!x.send[r][t].empty() || H(70, r, t) % 2) m[t] = x.send[r][t];
        vc.reset(new ViewCommunicator(m, comm));
      }
      else if (ctor == 1)
      {
        size_t n = 0;
        for (auto& l : x.send[r]) n += l.size();
        Kokkos::View<uint32_t*> sz("sz", np), ls("ls", n);
        size_t q = 0;
        for (int t = 0; t < np; t++)
        {
          sz(t) = x.send[r][t].size();
          for (auto o : x.send[r][t]) ls(q++) = o;
        }
        vc.reset(new ViewCommunicator(sz, ls, comm));
      }
      else
      {
        Kokkos::View<int*> d("d", x.nobj[r]);
        for (uint32_t o = 0; o < x.nobj[r]; o++) d(o) = target[r][o];
        vc.reset(new ViewCommunicator(d, comm));
      }
      size_t moved = 0;
      for (int p = 0; p < np; p++) for (int t = 0; t < np; t++) moved += x.send[p][t].size();
      long mv = (long)moved;
      MPI_Allreduce(MPI_IN_PLACE, &mv, 1, MPI_LONG, MPI_MIN, vp_real_world);
      c.nontrivial = mv > 0;
      int repeat = (int)c.draw(1, 2);
      for (int q = 0; q < repeat; q++)
      {
        x.salt += q;
        if (layout == 0)
        {
          if (type == 0) exchange_rank<real_t, Kokkos::LayoutLeft>(c, x, *vc, kind);
          else if (type == 1) exchange_rank<int, Kokkos::LayoutLeft>(c, x, *vc, kind);
          else if (type == 2) exchange_rank<uint64_t, Kokkos::LayoutLeft>(c, x, *vc, kind);
          else if (type == 3) exchange_rank<uint8_t, Kokkos::LayoutLeft>(c, x, *vc, kind);
          else exchange_rank<real_t, Kokkos::LayoutLeft>(c, x, *vc, kind);
        }
        else
        {
          if (type == 1) exchange_rank<int, Kokkos::LayoutRight>(c, x, *vc, kind);
          else exchange_rank<real_t, Kokkos::LayoutRight>(c, x, *vc, kind);
        }
        c.sync();
      }
    }
  }
  c.sync();
  if (split) MPI_Comm_free(&sub);
}
