// The simulator runtime: simulated disk, clock, allocator, cooperative
// scheduler for real threads.  Everything here acts only inside a simulated
// run (rt().active), on /sim/ paths and on descriptors the simulator handed out.
#pragma once
#include "rng.hpp"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <deque>
#include <functional>
#include <memory>
#include <stdexcept>
namespace sim {

// ---- violation: thrown by oracles -------------------------------------
struct Violation { std::string cls, detail; };
Violation*& firstViolation();                         // set by fail(), whatever the code under test then swallows

struct NoPreempt { static void enter(); static void leave(); NoPreempt(){enter();} ~NoPreempt(){leave();} };
// ---- the log / statistics of one run ------------------------------------
struct RunLog {
  uint64_t hash=1469598103934665603ULL; uint64_t events=0; bool echo=false; std::string text; bool keep=false;
  std::map<std::string,uint64_t> stats;               // fault kinds fired, probes, ops
  uint64_t shape=1469598103934665603ULL;              // hash of the op/fault/outcome sequence (distinct interleavings)
  void ev(const std::string& s);                      // event log line
  void shapeEv(const std::string& s){ shape=hashStr(s,shape); }
  void count(const std::string& k,uint64_t n=1){ stats[k]+=n; }
};
RunLog& lg();
inline void ev(const std::string& s){ lg().ev(s); }
inline void fault(const std::string& k,uint64_t n=1){ NoPreempt np; lg().count("fault."+k,n); lg().shapeEv("F"+k); }
inline void probe(const std::string& k,uint64_t n=1){ NoPreempt np; lg().count("probe."+k,n); }
inline void opc(const std::string& k){ NoPreempt np; lg().count("op."+k); lg().shapeEv("O"+k); }
[[noreturn]] void fail(const std::string& cls,const std::string& detail);

// ---- simulated disk -----------------------------------------------------
struct Inode { std::string data; };
struct IoFault {                                      // armed on one file path
  enum Kind { ReadShort, ReadEintr, ReadErr, WriteShort, WriteEintr, WriteErr, WriteFull, WriteLost, OpenErr, CloseErr };
};
struct IoPolicy {                                     // per path; counters are per-path operation indices
  int64_t  readMax=0;                                 // >0: every read returns at most this many bytes (short reads)
  std::vector<int> readSizes; size_t readIx=0;        // cyclic list of maximum read sizes; 0 entry = EINTR, -1 entry = whole
  int64_t  readErrAt=-1; int readErrCount=0; int readErrNo=5; // reads that would cover byte >= readErrAt fail (count times, -1 forever)
  std::vector<int> writeSizes; size_t writeIx=0;      // same for writes
  int64_t  writeErrAtCall=-1; int writeErrCount=0; int writeErrNo=5; // n-th write call fails (count times)
  int64_t  capacity=-1;                               // ENOSPC once the file would exceed this size
  bool     openFail=false; int openErr=13; int openFailCount=-1;
  bool     closeFail=false;
  int64_t  calls=0, wcalls=0;
};
struct Disk {
  std::map<std::string,std::shared_ptr<Inode>> files;
  std::set<std::string> dirs;
  std::map<std::string,IoPolicy> pol;
  // every write syscall appends here; a crash can restore any prefix
  struct WriteEv { std::string path; int64_t off; std::string bytes; };
  std::vector<WriteEv> journal; bool journalOn=false;
  std::function<void(const std::string& what,const std::string& path)> onCall; // called on every syscall (crash points, directory races)
  uint64_t readdirSeed=0;                             // non-zero: readdir order is a seeded permutation
  int opendirErrCount=0; int opendirErrNo=13; int opendirSkip=0; bool dtypeUnknown=false; int statErrCount=0; int statErrNo=13; int mkdirErrCount=0;
  int readdirErrAt=-1;                                // readdir returns NULL/errno at n-th entry
  int openDirs=0;                                     // open directory handles (leak check)
  int openFds=0;
  int64_t maxFds=-1;                                  // EMFILE beyond this many descriptors (files and directories)
  bool exists(const std::string& p) const { return files.count(p)||dirs.count(p); }
  void put(const std::string& p,const std::string& d){ files[p]=std::make_shared<Inode>(); files[p]->data=d; }
  std::string get(const std::string& p) const { auto it=files.find(p); return it==files.end()?std::string():it->second->data; }
  bool has(const std::string& p) const { return files.count(p)>0; }
  void mkdirs(const std::string& p);
};
Disk& disk();

// ---- simulated clock ----------------------------------------------------
struct Clock {
  bool on=false;
  int64_t sec=1000000000, nsec=0;
  int64_t mono_ns=0;
  int64_t perCallNs=0;                                // advance on every reading
  std::function<void()> onRead;
  uint64_t reads=0; int64_t slept_ns=0;
  void advance(int64_t ns){ int64_t t=nsec+ns; sec+=t/1000000000; nsec=t%1000000000; if(nsec<0){nsec+=1000000000;sec--;} if(ns>0) mono_ns+=ns; }
};
Clock& clk();

// ---- allocator -----------------------------------------------------------
struct Alloc {
  bool armed=false; int64_t failAfter=-1; int failCount=1; // fail the failAfter-th allocation from arming
  uint64_t allocs=0, fired=0; int64_t live=0, liveBytes=0;
  size_t bigLimit=(size_t)1<<28;                      // single allocations beyond this fail (simulated memory limit)
  unsigned char fillByte=0;                           // seeded garbage for fresh memory (0 = deterministic pattern 0xA5)
};
Alloc& al();
void armAllocFail(int64_t n,int count=1);
void disarmAllocFail();

// ---- step budget / coverage ---------------------------------------------
uint64_t steps();                                     // basic blocks of the library executed so far
void setStepLimit(uint64_t n);                        // exceeding it ends the run with class "hang"

// ---- cooperative threads --------------------------------------------------
// Real threads, exactly one runnable at a time; switches only at points the
// plan dictates (a number of library basic blocks, or a simulated syscall).
struct SchedPolicy { std::vector<uint32_t> quanta; std::vector<uint8_t> choice; bool atSyscalls=true; };
void runThreads(std::vector<std::function<void()>> bodies,const SchedPolicy& p);
uint64_t switches();

// ---- sockets (simulated peers) ---------------------------------------------
struct Sock;                                          // see net.cpp

// ---- run context ------------------------------------------------------------
struct Rt { bool active=false; std::string logdir; };
Rt& rt();
void beginRun();                                      // called in the child before executing a plan
std::string hexd(uint64_t v);
std::string fmtd(double d,int prec=17);
}
