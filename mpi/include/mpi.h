/* A small MPI for the checks: the ranks are processes of this machine that are connected by
 * pairs of stream sockets. VF_MPI is "rank size seed fd0 fd1 ..." with the socket to every
 * other rank (-1 for the own one). Collective operations that do not match, messages that are
 * too large (or, in collective operations, have another size), and the end of another rank
 * end the process with the status 77. With a seed other than 0 all calls are delayed at
 * random. */
#ifndef vf_mpi_h
#define vf_mpi_h
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <poll.h>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

typedef int MPI_Comm;
typedef int MPI_Datatype; /* the size, and the kind: 1 signed, 2 unsigned, 3 real */
typedef int MPI_Op;
typedef int MPI_Info;
typedef int64_t MPI_Count;
struct MPI_Status
{
  int MPI_SOURCE, MPI_TAG, MPI_ERROR;
  int64_t bytes;
};
/* A receive that has not been done */
struct MPI_Request
{
  void* data = nullptr;
  MPI_Count n = 0;
  MPI_Datatype t = 0;
  int source = 0, tag = 0;
  bool pending = false;
};
#define MPI_REQUEST_NULL MPI_Request()
#define MPI_COMM_WORLD 0
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_SUCCESS 0
#define MPI_ANY_SOURCE (-2)
#define MPI_ANY_TAG (-2)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_LOR 4
#define MPI_LAND 5
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_BYTE 0x201
#define MPI_CHAR 0x101
#define MPI_SIGNED_CHAR 0x101
#define MPI_UNSIGNED_CHAR 0x201
#define MPI_INT8_T 0x101
#define MPI_UINT8_T 0x201
#define MPI_CXX_BOOL 0x201
#define MPI_C_BOOL 0x201
#define MPI_SHORT 0x102
#define MPI_UNSIGNED_SHORT 0x202
#define MPI_INT16_T 0x102
#define MPI_UINT16_T 0x202
#define MPI_INT 0x104
#define MPI_UNSIGNED 0x204
#define MPI_INT32_T 0x104
#define MPI_UINT32_T 0x204
#define MPI_FLOAT 0x304
#define MPI_DOUBLE 0x308
#define MPI_INT64_T 0x108
#define MPI_UINT64_T 0x208
#define MPI_LONG 0x108
#define MPI_UNSIGNED_LONG 0x208
#define MPI_LONG_LONG 0x108
#define MPI_UNSIGNED_LONG_LONG 0x208
#define MPI_SIZE_T 0x208

namespace vfmpi {

struct Message
{
  int64_t kind, tag, bytes;
};

struct Received
{
  Message m;
  std::vector<char> data;
};

struct World
{
  bool init = false;
  int rank = 0, size = 1;
  uint64_t seed = 0;
  std::vector<int> fds;
  std::vector<std::deque<Received>> waiting;
};

inline World& world()
{
  static World w;
  return w;
}

[[noreturn]] inline void fail(const std::string& what)
{
  fprintf(stderr, "MPI: rank %d: %s\n", world().rank, what.c_str());
  fflush(stderr);
  _exit(77);
}

inline void need()
{
  World& w = world();
  if (!w.init)
    fail("MPI_Init was not called");
  if (w.seed) {
    w.seed = w.seed * 6364136223846793005ull + 1442695040888963407ull;
    if ((w.seed >> 60) < 6)
      usleep((w.seed >> 33) % 3000);
  }
}

inline void put(int fd, const void* data, size_t n)
{
  const char* p = static_cast<const char*>(data);
  while (n) {
    ssize_t k = ::write(fd, p, n);
    if (k < 0 && errno == EINTR)
      continue;
    if (k <= 0)
      fail("the other rank has ended");
    p += k;
    n -= k;
  }
}

inline void get(int fd, void* data, size_t n)
{
  char* p = static_cast<char*>(data);
  while (n) {
    ssize_t k = ::read(fd, p, n);
    if (k < 0 && errno == EINTR)
      continue;
    if (k <= 0)
      fail("the other rank has ended");
    p += k;
    n -= k;
  }
}

inline int socket(int rank)
{
  World& w = world();
  if (rank < 0 || rank >= w.size || rank == w.rank)
    fail("invalid rank");
  return w.fds[rank];
}

inline void send(int rank, int kind, int tag, const void* data, size_t n)
{
  Message m = { kind, tag, static_cast<int64_t>(n) };
  put(socket(rank), &m, sizeof m);
  put(socket(rank), data, n);
}

enum
{
  SEND = 1,
  GATHER,
  BCAST,
  SCATTER
};

inline size_t size(MPI_Count n, MPI_Datatype t)
{
  if (n < 0)
    fail("negative count");
  return static_cast<size_t>(n) * (t & 0xff);
}

// The next message of a rank; false if it has ended
inline bool fetch(int rank)
{
  Received r;
  char* p = reinterpret_cast<char*>(&r.m);
  for (size_t n = 0; n < sizeof r.m;) {
    ssize_t k = ::read(socket(rank), p + n, sizeof r.m - n);
    if (k < 0 && errno == EINTR)
      continue;
    if (k <= 0)
      return false;
    n += k;
  }
  r.data.resize(r.m.bytes);
  get(socket(rank), r.data.data(), r.m.bytes);
  world().waiting[rank].push_back(std::move(r));
  return true;
}

inline bool matches(const Message& m, int kind, int tag)
{
  // Messages and collective operations do not mix
  if (kind != SEND && m.kind != SEND && (m.kind != kind || m.tag != tag))
    fail("another collective operation was expected");
  return m.kind == kind && (tag == MPI_ANY_TAG || m.tag == tag);
}

// Waits for a message; source is set. The index of the message
inline size_t match(int& source, int kind, int tag)
{
  World& w = world();
  std::vector<size_t> seen(w.size);
  std::vector<bool> ended(w.size);
  int from = source == MPI_ANY_SOURCE ? 0 : source;
  int to = source == MPI_ANY_SOURCE ? w.size : source + 1;
  if (source != MPI_ANY_SOURCE)
    socket(source);
  while (true) {
    for (int r = from; r < to; r++)
      for (; r != w.rank && seen[r] < w.waiting[r].size(); seen[r]++)
        if (matches(w.waiting[r][seen[r]].m, kind, tag)) {
          source = r;
          return seen[r];
        }
    std::vector<pollfd> fds;
    std::vector<int> ranks;
    for (int r = from; r < to; r++)
      if (r != w.rank && !ended[r]) {
        fds.push_back({ w.fds[r], POLLIN, 0 });
        ranks.push_back(r);
      }
    if (fds.empty())
      fail("the other rank has ended");
    ::poll(fds.data(), fds.size(), -1);
    for (size_t k = 0; k < fds.size(); k++)
      if (fds[k].revents)
        ended[ranks[k]] = !fetch(ranks[k]);
  }
}

inline void recv(int source, int kind, int tag, void* data, size_t n, bool exact,
                 MPI_Status* status = nullptr)
{
  size_t k = match(source, kind, tag);
  auto& q = world().waiting[source];
  Message m = q[k].m;
  if (static_cast<size_t>(m.bytes) > n || (exact && static_cast<size_t>(m.bytes) != n))
    fail("the message has another size");
  if (m.bytes)
    memcpy(data, q[k].data.data(), m.bytes);
  q.erase(q.begin() + k);
  if (status) {
    status->MPI_SOURCE = source;
    status->MPI_TAG = m.tag;
    status->MPI_ERROR = 0;
    status->bytes = m.bytes;
  }
}

template <typename T>
void reduce(T* a, const T* b, size_t n, MPI_Op op)
{
  for (size_t i = 0; i < n; i++)
    switch (op) {
      case MPI_SUM:
        a[i] = a[i] + b[i];
        break;
      case MPI_MAX:
        a[i] = a[i] < b[i] ? b[i] : a[i];
        break;
      case MPI_MIN:
        a[i] = b[i] < a[i] ? b[i] : a[i];
        break;
      case MPI_LOR:
        a[i] = a[i] || b[i];
        break;
      case MPI_LAND:
        a[i] = a[i] && b[i];
        break;
      default:
        fail("unknown operation");
    }
}

inline void reduce(void* a, const void* b, size_t n, MPI_Datatype t, MPI_Op op)
{
#define VF_CASE(t, T) \
  case t: \
    return reduce(static_cast<T*>(a), static_cast<const T*>(b), n, op);
  switch (t) {
    VF_CASE(MPI_INT8_T, int8_t)
    VF_CASE(MPI_UINT8_T, uint8_t)
    VF_CASE(MPI_INT16_T, int16_t)
    VF_CASE(MPI_UINT16_T, uint16_t)
    VF_CASE(MPI_INT32_T, int32_t)
    VF_CASE(MPI_UINT32_T, uint32_t)
    VF_CASE(MPI_INT64_T, int64_t)
    VF_CASE(MPI_UINT64_T, uint64_t)
    VF_CASE(MPI_FLOAT, float)
    VF_CASE(MPI_DOUBLE, double)
  }
#undef VF_CASE
  fail("unknown type");
}

} // namespace vfmpi

inline int MPI_Initialized(int* flag)
{
  *flag = vfmpi::world().init;
  return 0;
}

inline int MPI_Init(int*, char***)
{
  auto& w = vfmpi::world();
  if (w.init)
    vfmpi::fail("MPI_Init was called again");
  w.init = true;
  const char* e = getenv("VF_MPI");
  if (e) {
    std::istringstream s(e);
    s >> w.rank >> w.size >> w.seed;
    w.fds.resize(w.size);
    for (auto& fd : w.fds)
      s >> fd;
  } else {
    w.fds.assign(1, -1);
  }
  w.waiting.resize(w.size);
  return 0;
}

inline int MPI_Init_thread(int* argc, char*** argv, int, int* provided)
{
  if (provided)
    *provided = MPI_THREAD_MULTIPLE;
  return MPI_Init(argc, argv);
}

inline int MPI_Finalized(int* flag)
{
  *flag = 0;
  return 0;
}

inline int MPI_Abort(MPI_Comm, int)
{
  vfmpi::fail("MPI_Abort");
}

inline int MPI_Finalize()
{
  return 0;
}

inline int MPI_Comm_rank(MPI_Comm, int* rank)
{
  if (!vfmpi::world().init)
    vfmpi::fail("MPI_Init was not called");
  *rank = vfmpi::world().rank;
  return 0;
}

inline int MPI_Comm_size(MPI_Comm, int* size)
{
  if (!vfmpi::world().init)
    vfmpi::fail("MPI_Init was not called");
  *size = vfmpi::world().size;
  return 0;
}

inline int MPI_Send(const void* data, MPI_Count n, MPI_Datatype t, int dest, int tag, MPI_Comm)
{
  vfmpi::need();
  vfmpi::send(dest, vfmpi::SEND, tag, data, vfmpi::size(n, t));
  return 0;
}

inline int MPI_Ssend(const void* data, MPI_Count n, MPI_Datatype t, int dest, int tag, MPI_Comm c)
{
  return MPI_Send(data, n, t, dest, tag, c);
}

inline int MPI_Recv(void* data, MPI_Count n, MPI_Datatype t, int source, int tag, MPI_Comm,
                    MPI_Status* status)
{
  vfmpi::need();
  vfmpi::recv(source, vfmpi::SEND, tag, data, vfmpi::size(n, t), false, status);
  return 0;
}

inline int MPI_Sendrecv(const void* data, MPI_Count n, MPI_Datatype t, int dest, int tag, void* to,
                        MPI_Count nt, MPI_Datatype tt, int source, int rtag, MPI_Comm c,
                        MPI_Status* status)
{
  vfmpi::need();
  std::thread s([=] { vfmpi::send(dest, vfmpi::SEND, tag, data, vfmpi::size(n, t)); });
  MPI_Recv(to, nt, tt, source, rtag, c, status);
  s.join();
  return 0;
}

inline int MPI_Probe(int source, int tag, MPI_Comm, MPI_Status* status)
{
  vfmpi::need();
  size_t k = vfmpi::match(source, vfmpi::SEND, tag);
  if (status) {
    auto& m = vfmpi::world().waiting[source][k].m;
    status->MPI_SOURCE = source;
    status->MPI_TAG = m.tag;
    status->MPI_ERROR = 0;
    status->bytes = m.bytes;
  }
  return 0;
}

inline int MPI_Get_count(const MPI_Status* status, MPI_Datatype t, int* n)
{
  *n = status->bytes / (t & 0xff);
  return 0;
}

inline int MPI_Get_elements_x(const MPI_Status* status, MPI_Datatype t, MPI_Count* n)
{
  *n = status->bytes / (t & 0xff);
  return 0;
}

inline int MPI_Isend(const void* data, MPI_Count n, MPI_Datatype t, int dest, int tag, MPI_Comm c,
                     MPI_Request* request)
{
  *request = MPI_Request();
  return MPI_Send(data, n, t, dest, tag, c);
}

inline int MPI_Irecv(void* data, MPI_Count n, MPI_Datatype t, int source, int tag, MPI_Comm,
                     MPI_Request* request)
{
  request->data = data;
  request->n = n;
  request->t = t;
  request->source = source;
  request->tag = tag;
  request->pending = true;
  return 0;
}

inline int MPI_Wait(MPI_Request* request, MPI_Status* status)
{
  MPI_Request r = *request;
  *request = MPI_Request();
  return r.pending ? MPI_Recv(r.data, r.n, r.t, r.source, r.tag, MPI_COMM_WORLD, status) : 0;
}

inline int MPI_Waitall(int n, MPI_Request* requests, MPI_Status* statuses)
{
  for (int i = 0; i < n; i++)
    MPI_Wait(requests + i, statuses ? statuses + i : MPI_STATUS_IGNORE);
  return 0;
}

inline int MPI_Bcast(void* data, int n, MPI_Datatype t, int root, MPI_Comm)
{
  vfmpi::need();
  auto& w = vfmpi::world();
  if (w.rank == root) {
    for (int r = 0; r < w.size; r++)
      if (r != root)
        vfmpi::send(r, vfmpi::BCAST, root, data, vfmpi::size(n, t));
  } else {
    vfmpi::recv(root, vfmpi::BCAST, root, data, vfmpi::size(n, t), true);
  }
  return 0;
}

inline int MPI_Gatherv(const void* data, int n, MPI_Datatype t, void* to, const int* ns,
                       const int* displacements, MPI_Datatype tt, int root, MPI_Comm)
{
  vfmpi::need();
  auto& w = vfmpi::world();
  if (w.rank != root) {
    vfmpi::send(root, vfmpi::GATHER, root, data, vfmpi::size(n, t));
    return 0;
  }
  for (int r = 0; r < w.size; r++) {
    char* p = static_cast<char*>(to) + vfmpi::size(displacements[r], tt);
    size_t bytes = vfmpi::size(ns[r], tt);
    if (r == root) {
      if (data == MPI_IN_PLACE)
        continue;
      if (bytes != vfmpi::size(n, t))
        vfmpi::fail("the message has another size");
      if (bytes)
        memcpy(p, data, bytes);
    } else {
      vfmpi::recv(r, vfmpi::GATHER, root, p, bytes, true);
    }
  }
  return 0;
}

inline int MPI_Gather(const void* data, int n, MPI_Datatype t, void* to, int nt, MPI_Datatype tt,
                      int root, MPI_Comm c)
{
  int size = vfmpi::world().size;
  std::vector<int> ns(size, nt), ds(size);
  for (int r = 0; r < size; r++)
    ds[r] = r * nt;
  return MPI_Gatherv(data, n, t, to, ns.data(), ds.data(), tt, root, c);
}

inline int MPI_Allgatherv(const void* data, int n, MPI_Datatype t, void* to, const int* ns,
                          const int* displacements, MPI_Datatype tt, MPI_Comm c)
{
  int rank = vfmpi::world().rank;
  if (data == MPI_IN_PLACE && rank != 0) {
    data = static_cast<char*>(to) + vfmpi::size(displacements[rank], tt);
    n = ns[rank];
    t = tt;
  }
  MPI_Gatherv(data, n, t, to, ns, displacements, tt, 0, c);
  for (int r = 0; r < vfmpi::world().size; r++)
    MPI_Bcast(static_cast<char*>(to) + vfmpi::size(displacements[r], tt), ns[r], tt, 0,
              c);
  return 0;
}

inline int MPI_Allgather(const void* data, int n, MPI_Datatype t, void* to, int nt,
                         MPI_Datatype tt, MPI_Comm c)
{
  int rank = vfmpi::world().rank;
  if (data == MPI_IN_PLACE && rank != 0) {
    data = static_cast<char*>(to) + rank * vfmpi::size(nt, tt);
    n = nt;
    t = tt;
  }
  MPI_Gather(data, n, t, to, nt, tt, 0, c);
  return MPI_Bcast(to, nt * vfmpi::world().size, tt, 0, c);
}

inline int MPI_Scatterv(const void* data, const int* ns, const int* displacements, MPI_Datatype t,
                        void* to, int nt, MPI_Datatype tt, int root, MPI_Comm)
{
  vfmpi::need();
  auto& w = vfmpi::world();
  if (w.rank != root) {
    vfmpi::recv(root, vfmpi::SCATTER, root, to, vfmpi::size(nt, tt), true);
    return 0;
  }
  for (int r = 0; r < w.size; r++) {
    const char* p = static_cast<const char*>(data) + vfmpi::size(displacements[r], t);
    if (r != root)
      vfmpi::send(r, vfmpi::SCATTER, root, p, vfmpi::size(ns[r], t));
    else if (to != MPI_IN_PLACE && ns[r])
      memcpy(to, p, vfmpi::size(ns[r], t));
  }
  return 0;
}

inline int MPI_Scatter(const void* data, int n, MPI_Datatype t, void* to, int nt, MPI_Datatype tt,
                       int root, MPI_Comm c)
{
  int size = vfmpi::world().size;
  std::vector<int> ns(size, n), ds(size);
  for (int r = 0; r < size; r++)
    ds[r] = r * n;
  return MPI_Scatterv(data, ns.data(), ds.data(), t, to, nt, tt, root, c);
}

inline int MPI_Reduce(const void* data, void* to, int n, MPI_Datatype t, MPI_Op op, int root,
                      MPI_Comm c)
{
  auto& w = vfmpi::world();
  size_t bytes = vfmpi::size(n, t);
  std::vector<char> all(w.rank == root ? bytes * w.size : 0);
  const void* own = data == MPI_IN_PLACE ? to : data;
  MPI_Gather(own, n, t, all.data(), n, t, root, c);
  if (w.rank == root && n > 0) {
    for (int r = 1; r < w.size; r++)
      vfmpi::reduce(all.data(), all.data() + r * bytes, n, t, op);
    memcpy(to, all.data(), bytes);
  }
  return 0;
}

inline int MPI_Allreduce(const void* data, void* to, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  MPI_Reduce(data, to, n, t, op, 0, c);
  return MPI_Bcast(to, n, t, 0, c);
}

inline int MPI_Barrier(MPI_Comm c)
{
  char x = 0;
  std::vector<char> all(vfmpi::world().size);
  return MPI_Allgather(&x, 1, MPI_BYTE, all.data(), 1, MPI_BYTE, c);
}
#endif
