// Deterministic simulator for FlashMQ: shared declarations.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <algorithm>
#include <unordered_map>
#include <pthread.h>

namespace sim {
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;
constexpr u64 US=1000, MS=1000*US, SEC=1000*MS;
constexpr int FD_BASE=700;

struct Rng {
  u64 a=1,b=2;
  void seed(u64 s){ a=s*0x9E3779B97F4A7C15ull+0x1234567; b=s^0xD1B54A32D192ED03ull; for(int i=0;i<12;i++) next(); }
  u64 next(){ u64 x=a,y=b; a=y; x^=x<<23; b=x^y^(x>>17)^(y>>26); return b+y; }
  u64 below(u64 n){ return n? next()%n : 0; }
  i64 range(i64 lo,i64 hi){ return lo+(i64)below((u64)(hi-lo+1)); }
  double unit(){ return (next()>>11)*(1.0/9007199254740992.0); }
  bool chance(double p){ if(p<=0) return false; return unit()<p; }
  template<class T> const T& pick(const std::vector<T>&v){ return v[below(v.size())]; }
  u64 logrange(u64 lo,u64 hi){ // roughly log-uniform
    if(hi<=lo) return lo; int bits=0; u64 r=hi/ (lo?lo:1); while(r>>=1) bits++; u64 base=(lo?lo:1)<<below(bits+1); u64 v=base+below(base); return v>hi?hi:v; }
};

enum TState { T_RUNNABLE, T_BLOCKED, T_DONE, T_DEAD };
struct Instance;
struct SimThread {
  int id=0; Instance* inst=nullptr; pthread_t real{}; int fut=0;
  TState state=T_RUNNABLE; const void* wkey=nullptr; u64 wake_at=UINT64_MAX; bool timed_out=false; bool interrupted=false;
  int harness=0;          // >0: pass calls through
  int nopreempt=0;
  u64 prio=0; void*(*fn)(void*)=nullptr; void* arg=nullptr; void* ret=nullptr; pthread_t alias{}; bool joined=false, detached=false;
  char name[32]={0}; bool got_signal=false;
  std::vector<std::pair<void(*)(void*),void*>> dtors;
  const void* site=nullptr; const char* what=""; u64 stall_until=0;
};
extern __thread SimThread* t_cur;

enum Strategy { ST_RANDOM, ST_STICKY, ST_PCT, ST_SITES };
struct SchedParams {
  Strategy strat=ST_RANDOM; double p_switch=0.1; double p_stall=0; u64 stall_min=10*US, stall_max=5*MS;
  int site_mod=64; double p_site=0.2; u64 site_salt=0; double p_alloc=0; double p_spurious=0; u64 tick_max=3000;
  int pct_changes=0; u64 off_after=UINT64_MAX; // preemption off after this many points
};

enum FaultKind { F_SHORT_READ,F_SHORT_WRITE,F_EAGAIN,F_EINTR,F_ACCEPT_EMFILE,F_ACCEPT_ABORT,F_EPOLL_CTL,F_EPOLL_EINTR,F_EVENTFD,F_SOCKET,F_CONNECT_REFUSED,F_CONNECT_TIMEOUT,F_DNS,
  F_RESET,F_HALFOPEN,F_STALL_CLIENT,F_THREAD_STALL,F_CLOCK_JUMP,F_TIME_JUMP_MONO,F_DISK_EIO,F_DISK_ENOSPC,F_DISK_SHORT,F_FSYNC,F_RENAME,F_OPEN,F_READ_EIO,F_CRASH_PROC,F_CRASH_MACHINE,F_TORN,F_BITFLIP,F_SEGMENT,F_LAT,F_SIGNAL,F_BIND,F_PARTITION,F_ALLOC,F_SPURIOUS,F_PLUGIN_DELAY,F_MAX };
extern const char* fault_names[F_MAX];

struct Probes { std::map<std::string,u64> m; };

struct Event { u64 at; u64 seq; std::function<void()> fn; };

struct Stats { u64 points=0, switches=0, stalls=0, events=0, syscalls=0, bytes_in=0, bytes_out=0; u64 faults[F_MAX]={0}; };

struct Sim {
  u64 now=0; i64 real_off=0; u64 mono_base=1000*SEC; u64 real_base=1700000000ull*SEC;
  u64 seq=0; // global event sequence for histories
  Rng rs, rn, rf, rb; // schedule, net, faults, broker randomness
  SchedParams sp;
  std::vector<SimThread*> threads; SimThread* driver=nullptr; SimThread* running=nullptr;
  std::vector<Event> heap; u64 evseq=0;
  bool active=false; Stats st; u64 hash=14695981039346656037ull; u64 shash=1469598103934665603ull;
  std::map<std::string,u64> probes;
  std::vector<Instance*> instances;
  u64 max_points=60000000; u64 pct_next=0;
  bool preempt_on=true;
  std::vector<std::string> tracelog; bool trace=false;
  void mix(u64 v){ hash^=v; hash*=1099511628211ull; }
  void at(u64 t,std::function<void()> f);
  void after(u64 d,std::function<void()> f){ at(now+d,std::move(f)); }
  bool run_due();
  void probe(const char*n,u64 k=1){ probes[n]+=k; }
  void fault(FaultKind k){ st.faults[k]++; }
  u64 mono() const { return mono_base+now; }
  u64 real() const { return real_base+now+real_off; }
};
extern Sim S;

// scheduler
void sched_init(); // caller becomes the driver thread
void point(const char* what,const void* site=nullptr);      // possible preemption
bool block(const void* key,u64 deadline,const char* what);  // returns false when timed out
void wake(const void* key,int n=1000000);
[[noreturn]] void thread_park_forever();
void kill_instance_threads(Instance*);
int stall_threads(Instance*,int which,u64 dur); // which: -1 all (the process is paused), otherwise an index (taken modulo their number)
void sleep_ns(u64 d);                       // for the calling sim thread
bool wait_until(const std::function<bool()>& f,u64 timeout); // driver: poll predicate whenever something may have changed
void notify_driver();
int create_thread(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*,Instance* inst);

struct Harness { Harness(){ if(t_cur) t_cur->harness++; } ~Harness(){ if(t_cur) t_cur->harness--; } };
inline bool simulated(){ return t_cur && t_cur->harness==0 && t_cur->inst; }

// results
[[noreturn]] void violation(const char* cls,const char* fmt,...) __attribute__((format(printf,2,3)));
[[noreturn]] void harness_error(const char* fmt,...) __attribute__((format(printf,1,2)));
void tr(const char* fmt,...) __attribute__((format(printf,1,2)));
[[noreturn]] void finish_run(int status,const std::string& cls,const std::string& text);
std::string strf(const char*fmt,...) __attribute__((format(printf,1,2)));

// broker instances -------------------------------------------------------
struct Disk;
struct FdObj;
struct PendingThread { void*(*fn)(void*); void*arg; pthread_t fake; };
struct Lib { std::vector<PendingThread> pend; void* h=nullptr; std::string path; u64 lo=0,hi=0; int(*main)(int,char**)=nullptr; void* plug=nullptr; };
struct Instance {
  int idx=0; int host=0; std::string ip; Lib* lib=nullptr; Disk* disk=nullptr; bool alive=false, exited=false; int exit_code=-1; 
  std::map<int,std::shared_ptr<FdObj>> fds; SimThread* main=nullptr; std::map<int,void(*)(int)> sig; std::deque<int> pending_sig; u64 started_at=0, exited_at=0;
  std::vector<std::string> args; 
  // fault switches for this instance
  struct { int emfile=0; double short_r=0,short_w=0,eagain=0,eintr=0,p_epoll_ctl=0,p_eventfd=0,p_socket=0,p_accept=0,p_dns=0; u64 dns_delay_max=20*MS; bool fd_full=false; int bind_fail=0; } f;
  std::string console;
  int plugin_id=0;
  u64 started=0;
};
extern std::vector<Lib> libs; extern Lib* loading_lib;
void load_libs(const std::string& dir,int n);
Instance* boot(int host,Disk* d,std::vector<std::string> args); // starts a broker; host selects its ip
void crash(Instance*,bool machine);    // kill at once
void send_signal(Instance*,int sig);
void deliver_signals(SimThread*);
bool instance_exiting_here();

// fd objects ----------------------------------------------------------------
enum FdType { FD_LISTEN, FD_STREAM, FD_EVENT, FD_EPOLL, FD_FILE, FD_DIR, FD_SOCK };
struct EpollObj;
struct FdObj : std::enable_shared_from_this<FdObj> { FdType type; Instance* inst=nullptr; int fd=-1; bool nonblock=false; std::set<EpollObj*> watchers; 
  FdObj(FdType t):type(t){} virtual ~FdObj(){} virtual u32 ready(){return 0;} virtual void on_close(){} void changed(); };
std::shared_ptr<FdObj> getfd(int fd,Instance* in=nullptr);
int addfd(Instance*,std::shared_ptr<FdObj>);
void closefd(Instance*,int fd);

// net -------------------------------------------------------------------------
struct Conn;
struct Endpoint { // one side of a stream
  Conn* conn=nullptr; int side=0; bool broker=false; std::weak_ptr<FdObj> obj; // broker side
  std::string rx; bool rx_fin=false; bool rst=false; bool closed=false; size_t rx_cap=65536;   // bytes that arrived and may be read
  // outgoing
  size_t snd_cap=65536; size_t inflight=0; std::deque<std::string> held; size_t heldbytes=0; u64 last_arrival=0; bool fin_sent=false;
  bool window_closed=false; // peer of this endpoint does not take data (set on the receiver)
  std::function<void()> on_data; std::function<void()> on_close; std::function<void(int)> on_connect;
};
struct Conn { Endpoint e[2]; u64 lat_min=20*US, lat_max=400*US; size_t seg_max=65536; bool partition=false; bool dead=false; int id=0; double p_seg=0; std::shared_ptr<Conn> self; 
  size_t nofault=0; std::string peer_ip[2]; int port[2]={0,0}; u64 bytes[2]={0,0}; bool established=false; };
struct NetParams { u64 lat_min=20*US, lat_max=400*US; size_t snd_cap=65536; size_t rx_cap=65536; double p_seg=0; size_t seg_max=65536; };
extern NetParams NP;
// harness side connections
typedef std::shared_ptr<Conn> ConnP;
ConnP net_connect(const std::string& ip,int port,const std::string& my_ip,std::function<void(int)> on_result); // side 0 = harness client
void net_send(const ConnP&,int side,const std::string& bytes);
std::string net_read(const ConnP&,int side,size_t max=SIZE_MAX);
void net_close(const ConnP&,int side);   // FIN
void net_reset(const ConnP&,int side);   // RST
void net_vanish(const ConnP&);           // link goes silent for ever
void net_partition(const ConnP&,bool on);
void net_window(const ConnP&,int side,bool closed); // receiver 'side' stops/starts taking data
bool net_listening(const std::string& ip,int port);
struct HarnessListener { std::function<void(ConnP)> on_accept; };
void net_listen_harness(const std::string& ip,int port,std::function<void(ConnP)> on_accept);
void net_unlisten_harness(const std::string& ip,int port);
struct DnsEntry { std::vector<std::string> ips; int err=0; };
extern std::map<std::string,DnsEntry> dns;
void net_drop_instance(Instance*,bool machine);
std::vector<ConnP> net_conns_of(Instance*);

// files -----------------------------------------------------------------------
struct FNode { std::string data; std::string durable; bool dirty=false; int nlink=1; i64 ctime_ns=0; u64 ino=0; int mode=0100644; 
  struct W { size_t off; std::string d; }; std::vector<W> pending; bool trunc_pending=false; };
struct DirOp { int kind; std::string a,b; std::shared_ptr<FNode> node; }; // 0 create 1 rename 2 unlink
struct DiskFault { std::string op; std::string match; u64 nth=0; int err=0; int action=0; u64 count=0; bool done=false; int repeat=1; };// action 0 errno,1 short write,2 crash proc before,3 crash proc after,4 crash machine before,5 crash machine after
struct Disk {
  std::map<std::string,std::shared_ptr<FNode>> live, durable; std::vector<DirOp> journal; std::vector<DiskFault> faults; u64 ops=0; bool full=false; u64 free_bytes=UINT64_MAX; 
  bool log_ops=false; std::vector<std::string> oplog; u64 ino=100; std::set<std::string> lockedfiles; double p_delay=0; u64 delay_max=0; Rng r;
  std::function<void(const std::string& op,const std::string& path)> observer;
  std::string read(const std::string&p); bool exists(const std::string&p){return live.count(p);} void write(const std::string&p,const std::string&d,i64 ctime=-1); void remove(const std::string&p){live.erase(p);durable.erase(p);}
  void machine_crash(); // keep only what is durable (torn choices by r)
  void sync_all();
};
i64 disk_now();
int fs_open(Instance*,const std::string& path,int flags,int mode);
bool fs_is_sim(const char* p);

// plugin hook: implemented in plug.cpp
extern "C" void* sim_plugin_handle(const char* path);
} // namespace sim
