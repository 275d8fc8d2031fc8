/*
 * mc : records what the MPI wrappers and the Cartesian topology deliver.
 *
 *   mc jobs.txt out       every rank writes out.<rank> (text)
 *
 * A job line:  ID OP COMM TYPE COUNT A B C
 *   COMM  world | self | cart MX MY MZ.. is given by the preceding line "comm ..." ; split by parity
 * Data of a job is a fixed function of (job, owner, index), see value().  Buffers are pre-filled with a
 * sentinel and recorded whole, so that writes outside the specified part are seen.  Judges nothing.
 */
#include "utils/mpiUtils/GlobalMpiSession.h"
#include "shared/HydroParams.h"
#include "utils/mpiUtils/MpiComm.h"
#include "utils/mpiUtils/MpiCommCart.h"
#include <cstdio>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <time.h>
#include <unistd.h>
#include <vector>
using namespace hydroSimu;
using namespace ppkMHD;

static int
value(int job, int who, int idx, bool prod)
{
  long h = (long)job * 7919 + (long)who * 104729 + (long)idx * 31 + (long)idx * idx * 17;
  if (prod)
    return (int)(h % 3) == 0 ? -1 : (int)(h % 3);
  return (int)(h % 201) - 100;
}

struct Buf
{
  int                t, n;
  std::vector<char>  d;
  static int size(int t) { return t == MpiComm::INT ? sizeof(int) : t == MpiComm::FLOAT ? sizeof(float) : t == MpiComm::DOUBLE ? sizeof(double) : 1; }
  Buf(int t, int n)
    : t(t)
    , n(n)
    , d((n + 4) * size(t))
  {
    for (int i = 0; i < n + 4; ++i)
      set(i, 101 + i % 5); // sentinel
  }
  void set(int i, int v)
  {
    if (t == MpiComm::INT) ((int *)d.data())[i] = v * 1000003;
    else if (t == MpiComm::FLOAT) ((float *)d.data())[i] = v / 8.0f;
    else if (t == MpiComm::DOUBLE) ((double *)d.data())[i] = v / 8.0 + (v == 0 ? 0 : 1e-9);
    else d[i] = (char)v;
  }
  void small(int i, int v)
  {
    if (t == MpiComm::INT) ((int *)d.data())[i] = v;
    else if (t == MpiComm::FLOAT) ((float *)d.data())[i] = v;
    else if (t == MpiComm::DOUBLE) ((double *)d.data())[i] = v;
    else d[i] = (char)v;
  }
  double get(int i) const
  {
    return t == MpiComm::INT ? ((int *)d.data())[i] : t == MpiComm::FLOAT ? ((float *)d.data())[i] : t == MpiComm::DOUBLE ? ((double *)d.data())[i] : (double)d[i];
  }
  void * p(int i = 0) { return d.data() + i * size(t); }
  void fill(int job, int who, int from, int cnt, int idx0 = 0, bool sm = false, bool prod = false)
  {
    for (int i = 0; i < cnt; ++i)
      if (sm) small(from + i, value(job, who, idx0 + i, prod));
      else set(from + i, value(job, who, idx0 + i, prod));
  }
};

static FILE * out;
static void
put(int job, Buf & b)
{
  fprintf(out, "R %d", job);
  for (int i = 0; i < b.n + 4; ++i)
    fprintf(out, " %.17g", b.get(i));
  fprintf(out, "\n");
}

static int
typeOf(const std::string & s)
{
  return s == "int" ? MpiComm::INT : s == "float" ? MpiComm::FLOAT : s == "double" ? MpiComm::DOUBLE : MpiComm::CHAR;
}

static double
now()
{
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

static void
topo(int job, MpiCommCart & c, int nd)
{
  int me[3] = { -9, -9, -9 };
  c.getMyCoords(me);
  fprintf(out, "T %d dim %d rank %d n %d me %d %d %d", job, c.getDim(), c.getRank(), c.getNProc(), me[0], me[1], me[2]);
  for (int r = 0; r < c.getNProc(); ++r)
  {
    int q[3] = { -9, -9, -9 };
    c.getCoords(r, nd, q);
    fprintf(out, " c %d %d %d %d", r, q[0], q[1], q[2]);
    fprintf(out, " b %d", c.getCartRank(q));
  }
  for (int d = 0; d < nd; ++d)
    for (int disp = -2; disp <= 2; ++disp)
    {
      int s = -99, t = -99;
      c.shift(d, disp, s, t);
      fprintf(out, " s %d %d %d %d", d, disp, s == MPI_PROC_NULL ? -1 : s, t == MPI_PROC_NULL ? -1 : t);
    }
}

int
main(int argc, char ** argv)
{
  const bool before = GlobalMpiSession::mpiIsInitialized();
  const int  r0 = GlobalMpiSession::getRank(), n0 = GlobalMpiSession::getNProc();
  GlobalMpiSession session(&argc, &argv, nullptr);
  int              wr, wn;
  MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  MPI_Comm_size(MPI_COMM_WORLD, &wn);
  out = fopen((std::string(argv[2]) + "." + std::to_string(wr)).c_str(), "w");
  fprintf(out, "G %d %d %d %d %d %d %d\n", (int)before, r0, n0, (int)GlobalMpiSession::mpiIsInitialized(), GlobalMpiSession::getRank(), GlobalMpiSession::getNProc(), (int)GlobalMpiSession::mpiIsFinalized());
  std::vector<char> bsend(1 << 20);
  MPI_Buffer_attach(bsend.data(), bsend.size());
  MPI_Comm half;
  MPI_Comm_split(MPI_COMM_WORLD, wr % 2, -wr, &half);
  std::unique_ptr<MpiComm>     dflt(new MpiComm()), split(new MpiComm(half));
  std::unique_ptr<MpiCommCart> cart;
  MpiComm *                    C = &MpiComm::world();
  std::ifstream                js(argv[1]);
  std::string                  line;
  while (std::getline(js, line))
  {
    std::istringstream is(line);
    int                job;
    std::string        op;
    is >> job >> op;
    if (op == "comm")
    {
      std::string k;
      is >> k;
      if (k == "world") C = &MpiComm::world();
      else if (k == "self") C = &MpiComm::self();
      else if (k == "default") C = dflt.get();
      else if (k == "split") C = split.get();
      else if (k == "cart2")
      {
        int mx, my, per, re;
        is >> mx >> my >> per >> re;
        cart.reset(new MpiCommCart(mx, my, per, re));
        C = cart.get();
        topo(job, *cart, 2);
        if (per)
          fprintf(out, " n %d %d %d %d", cart->getNeighborRank<X_MIN>(), cart->getNeighborRank<X_MAX>(), cart->getNeighborRank<Y_MIN>(), cart->getNeighborRank<Y_MAX>());
        fprintf(out, "\n");
      }
      else if (k == "cart3")
      {
        int mx, my, mz, per, re;
        is >> mx >> my >> mz >> per >> re;
        cart.reset(new MpiCommCart(mx, my, mz, per, re));
        C = cart.get();
        topo(job, *cart, 3);
        if (per)
          fprintf(out, " n %d %d %d %d %d %d", cart->getNeighborRank<X_MIN>(), cart->getNeighborRank<X_MAX>(), cart->getNeighborRank<Y_MIN>(), cart->getNeighborRank<Y_MAX>(), cart->getNeighborRank<Z_MIN>(), cart->getNeighborRank<Z_MAX>());
        fprintf(out, "\n");
      }
      int cmp = -1, r, n;
      MPI_Comm_rank(C->getComm(), &r);
      MPI_Comm_size(C->getComm(), &n);
      if (k == "world" || k == "default") MPI_Comm_compare(C->getComm(), MPI_COMM_WORLD, &cmp);
      if (k == "self") MPI_Comm_compare(C->getComm(), MPI_COMM_SELF, &cmp);
      if (k == "split") MPI_Comm_compare(C->getComm(), half, &cmp);
      fprintf(out, "C %d %d %d %d %d %d\n", job, C->getRank(), C->getNProc(), r, n, cmp);
      continue;
    }
    if (op == "params")
    {
      std::string ini;
      is >> ini;
      ConfigMap   cfg = broadcast_parameters(ini);
      HydroParams p = HydroParams();
      p.setup(cfg);
      fprintf(out, "P %d %d %d %d %d %d %d %d %d %d %d", job, p.myRank, p.nProcs, p.mx, p.my, p.mz, p.myMpiPos[0], p.myMpiPos[1], p.myMpiPos[2], p.nDim, p.nNeighbors);
      for (int k = 0; k < 6; ++k) fprintf(out, " %d", p.neighborsRank[k]);
      for (int k = 0; k < 6; ++k) fprintf(out, " %d", (int)p.neighborsBC[k]);
      fprintf(out, " %d %d\n", (int)(p.data_type == MpiComm::DOUBLE), p.communicator->getRank());
      continue;
    }
    if (op == "bad")
    {
      int t = 0, o = 0;
      for (int v : { -1, 0, 5, 6, 99 })
        try { MpiComm::getDataType(v); } catch (const std::range_error &) { ++t; }
      for (int v : { -1, 0, 1, 4, 9 })
        try { MpiComm::getOp(v); } catch (const std::range_error &) { ++o; }
      fprintf(out, "B %d %d %d\n", job, t, o);
      continue;
    }
    std::string ts;
    int         n, a = 0, b = 0, c = 0;
    is >> ts >> n >> a >> b >> c;
    const int T = typeOf(ts), me = C->getRank(), np = C->getNProc();
    auto      cnt = [&](int s, int r) { return (s * 3 + r * 5 + job) % (n + 1); };
    if (op == "barrier")
    {
      usleep(((job * 37 + me * 101) % 13) * 1500);
      double t0 = now();
      C->synchronize();
      double t1 = now();
      fprintf(out, "S %d %.9f %.9f\n", job, t0, t1);
    }
    else if (op == "alltoall")
    {
      Buf s(T, n * np), r(T, n * np);
      for (int q = 0; q < np; ++q) s.fill(job, me, q * n, n, q * n);
      C->allToAll(s.p(), n, T, r.p(), n, T);
      put(job, r);
    }
    else if (op == "alltoallv")
    {
      std::vector<int> sc(np), sd(np), rc(np), rd(np);
      int              st = 1, rt = 2;
      for (int q = 0; q < np; ++q)
      {
        sc[q] = cnt(me, q); sd[q] = st; st += sc[q] + 1;
        rc[q] = cnt(q, me); rd[q] = rt; rt += rc[q] + 2;
      }
      Buf s(T, st), r(T, rt);
      for (int q = 0; q < np; ++q) s.fill(job, me, sd[q], sc[q], q * 100);
      C->allToAllv(s.p(), sc.data(), sd.data(), T, r.p(), rc.data(), rd.data(), T);
      put(job, r);
    }
    else if (op == "allreduce")
    {
      Buf s(T, n), r(T, n);
      s.fill(job, me, 0, n, 0, true, a == MpiComm::PROD);
      C->allReduce(s.p(), r.p(), n, T, a);
      put(job, r);
    }
    else if (op == "gather" || op == "allgather")
    {
      Buf s(T, n), r(T, n * np);
      s.fill(job, me, 0, n);
      if (op == "gather") C->gather(s.p(), n, T, r.p(), n, T, a % np);
      else C->allGather(s.p(), n, T, r.p(), n, T);
      put(job, r);
    }
    else if (op == "gatherv" || op == "allgatherv")
    {
      std::vector<int> rc(np), rd(np);
      int              rt = 1;
      for (int q = np - 1; q >= 0; --q) // blocks in reverse order, with gaps
      {
        rc[q] = cnt(q, 0); rd[q] = rt; rt += rc[q] + 1;
      }
      Buf s(T, rc[me]), r(T, rt);
      s.fill(job, me, 0, rc[me]);
      if (op == "gatherv") C->gatherv(s.p(), rc[me], T, r.p(), rc.data(), rd.data(), T, a % np);
      else C->allGatherv(s.p(), rc[me], T, r.p(), rc.data(), rd.data(), T);
      put(job, r);
    }
    else if (op == "bcast")
    {
      Buf s(T, n);
      if (me == a % np) s.fill(job, me, 0, n);
      C->bcast(s.p(), n, T, a % np);
      put(job, s);
    }
    else if (op == "p2p") // a: shift, b: kind of send, c: kind of receive
    {
      const int to = (me + a) % np, from = ((me - a) % np + np) % np;
      Buf       s0(T, n), s1(T, n + 1), r0(T, n + 3), r1(T, n + 3);
      s0.fill(job, me, 0, n, 0);
      s1.fill(job, me, 0, n + 1, 500);
      const int src = c == 2 ? MPI_ANY_SOURCE : from;
      // two messages with different tags, received in the opposite order
      if (b == 0) // blocking sendrecv, different lengths and tags both ways
      {
        C->sendrecv(s0.p(), n, T, to, 2 * (job % 10000) + 1, r0.p(), n + 3, T, from, 2 * (job % 10000) + 1);
        C->sendrecv(s1.p(), n + 1, T, from, 2 * (job % 10000) + 2, r1.p(), n + 3, T, to, 2 * (job % 10000) + 2);
      }
      else
      {
        MPI_Request q[4];
        int         nq = 0;
        if (b == 4)
        {
          // ready mode requires the receives to be posted first
          q[nq++] = C->Irecv(r0.p(), n + 3, T, src, 2 * (job % 10000) + 1);
          q[nq++] = C->Irecv(r1.p(), n + 3, T, src, 2 * (job % 10000) + 2);
          MPI_Barrier(C->getComm());
        }
        if (b == 5) // blocking send: even / odd ordering is avoided through buffering of the partner's receives
        {
          q[nq++] = C->Irecv(r0.p(), n + 3, T, src, 2 * (job % 10000) + 1);
          q[nq++] = C->Irecv(r1.p(), n + 3, T, src, 2 * (job % 10000) + 2);
          C->send(s1.p(), n + 1, T, to, 2 * (job % 10000) + 2);
          C->send(s0.p(), n, T, to, 2 * (job % 10000) + 1);
        }
        else
        {
          auto post = [&](Buf & s, int k, int tag) {
            return b == 1 ? C->Isend(s.p(), k, T, to, tag) : b == 2 ? C->Ibsend(s.p(), k, T, to, tag) : b == 3 ? C->Issend(s.p(), k, T, to, tag) : C->Irsend(s.p(), k, T, to, tag);
          };
          q[nq++] = post(s0, n, 2 * (job % 10000) + 1);
          q[nq++] = post(s1, n + 1, 2 * (job % 10000) + 2);
          if (b != 4)
          {
            if (c == 1) // blocking receives in reverse tag order
            {
              C->recv(r1.p(), n + 3, T, src, 2 * (job % 10000) + 2);
              C->recv(r0.p(), n + 3, T, src, 2 * (job % 10000) + 1);
            }
            else
            {
              q[nq++] = C->Irecv(r1.p(), n + 3, T, src, 2 * (job % 10000) + 2);
              q[nq++] = C->Irecv(r0.p(), n + 3, T, src, 2 * (job % 10000) + 1);
            }
          }
        }
        MPI_Waitall(nq, q, MPI_STATUSES_IGNORE);
      }
      put(job, r0);
      put(job, r1);
    }
    else
    {
      std::cerr << "HX-ERROR op " << op << "\n";
      return 3;
    }
  }
  fprintf(out, "END\n");
  fclose(out);
  void * bp;
  int    bn;
  MPI_Buffer_detach(&bp, &bn);
  return 0;
}
