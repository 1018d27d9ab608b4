// Scheduler: real threads, exactly one of which runs; a seeded generator decides which one, and when.
#include "sim.h"
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <errno.h>
#include <climits>

namespace sim {
Sim S;
__thread SimThread* t_cur=nullptr;
const char* fault_names[F_MAX]={"short_read","short_write","eagain","eintr","accept_emfile","accept_abort","epoll_ctl_fail","epoll_eintr","eventfd_fail","socket_fail","connect_refused","connect_timeout","dns_fail",
 "conn_reset","half_open","client_stall","thread_stall","clock_jump","mono_jump","disk_eio","disk_enospc","disk_short_write","fsync_fail","rename_fail","open_fail","read_eio","crash_process","crash_machine","torn_write","bit_flip","segmentation","latency","signal","bind_fail","partition","alloc_yield","spurious_wakeup","plugin_delay"};

std::string strf(const char*fmt,...){ char b[4096]; va_list a; va_start(a,fmt); int n=vsnprintf(b,sizeof b,fmt,a); va_end(a); if(n<0) n=0; if((size_t)n>=sizeof b) n=sizeof b-1; return std::string(b,n); }
void tr(const char* fmt,...){ if(!S.trace) return; char b[2048]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a); 
  Harness h; fprintf(stderr,"[%12.6f #%lu t%d] %s\n",S.now/1e9,(unsigned long)S.st.points,t_cur?t_cur->id:-1,b); }

static void futwait(int*f){ while(__atomic_load_n(f,__ATOMIC_ACQUIRE)==0) syscall(SYS_futex,f,FUTEX_WAIT,0,nullptr,nullptr,0); __atomic_store_n(f,0,__ATOMIC_RELEASE); }
static void futwake(int*f){ __atomic_store_n(f,1,__ATOMIC_RELEASE); syscall(SYS_futex,f,FUTEX_WAKE,1,nullptr,nullptr,0); }

struct EvCmp{ bool operator()(const Event&x,const Event&y)const{ return x.at!=y.at? x.at>y.at : x.seq>y.seq; } };
void Sim::at(u64 t,std::function<void()> f){ Harness h; if(t<now) t=now; heap.push_back(Event{t,evseq++,std::move(f)}); std::push_heap(heap.begin(),heap.end(),EvCmp()); }
static int in_events=0;
bool Sim::run_due(){
  if(in_events) return false; bool any=false;
  while(!heap.empty() && heap.front().at<=now){
    Harness h; in_events++; std::pop_heap(heap.begin(),heap.end(),EvCmp()); Event e=std::move(heap.back()); heap.pop_back(); st.events++; mix(e.at^(e.seq<<20)); e.fn(); e.fn=nullptr; in_events--; any=true; }
  return any;
}

void sched_init(){ auto*t=new SimThread; t->id=0; t->real=pthread_self(); t->harness=1; strcpy(t->name,"driver"); S.threads.push_back(t); S.driver=t; t_cur=t; S.running=t; S.active=true; t->prio=S.rs.next()|(1ull<<63); }

[[noreturn]] static void park(){ for(;;){ int z=0; syscall(SYS_futex,&z,FUTEX_WAIT,0,nullptr,nullptr,0); } }
static u64 deadlock_dump(){ std::string s; for(auto*t:S.threads) if(t->state==T_BLOCKED) s+=strf("%s(i%d) in %s; ",t->name,t->inst?t->inst->idx:-1,t->what); violation("hang","deadlock, nothing can run: %s",s.c_str()); }

static void switch_to(SimThread* n){ // returns when the caller is scheduled again
  SimThread* me=t_cur; S.running=n;
  if(n==me) return;
  S.st.switches++; S.mix(n->id*0x9E37u+S.now); S.shash=(S.shash^((u64)n->id<<8^(u64)(uintptr_t)n->what[0]^(n->site?((u64)(uintptr_t)n->site&0xfff)<<20:0)))*1099511628211ull;
  futwake(&n->fut);
  if(me->state==T_DONE||me->state==T_DEAD) park();
  futwait(&me->fut);
  t_cur=me;
  if(me->state==T_DEAD) { S.running=nullptr; park(); }
}
static std::vector<SimThread*> rl;
static SimThread* pick_next(SimThread* me){
  rl.clear();
  for(;;){
    S.run_due();
    for(auto*t:S.threads){
      if(t->state==T_BLOCKED && t->wake_at<=S.now){ t->state=T_RUNNABLE; t->timed_out=true; t->wkey=nullptr; t->wake_at=UINT64_MAX; }
      if(t->state==T_RUNNABLE) rl.push_back(t);
    }
    if(!rl.empty()) break;
    u64 nxt=UINT64_MAX; for(auto*t:S.threads) if(t->state==T_BLOCKED && t->wake_at<nxt) nxt=t->wake_at;
    if(!S.heap.empty() && S.heap.front().at<nxt) nxt=S.heap.front().at;
    if(nxt==UINT64_MAX) deadlock_dump();
    if(nxt>S.now) S.now=nxt;
  }
  if(rl.size()==1) return rl[0];
  if(S.sp.strat==ST_PCT && S.preempt_on){ SimThread*b=rl[0]; for(auto*t:rl) if(t->prio>b->prio) b=t; return b; }
  return rl[S.rs.below(rl.size())];
}
static inline void tick(){ S.now+=200+S.rs.below(S.sp.tick_max); }
void point(const char* what,const void* site){
  SimThread* t=t_cur; if(!t || !S.active) return;
  if(t->harness || !t->inst || t->nopreempt) return;
  if(t->state==T_DEAD){ switch_to(pick_next(t)); }
  S.st.points++; t->site=site; t->what=what;
  if(S.st.points>S.max_points) finish_run(3,"limit",strf("scheduling point limit at sim time %.3f s",S.now/1e9));
  tick();
  if(S.st.points==S.sp.off_after) S.preempt_on=false;
  if(S.run_due()){}
  if(t->state==T_DEAD){ switch_to(pick_next(t)); }
  if(t->stall_until>S.now){ S.st.stalls++; S.fault(F_THREAD_STALL); t->state=T_BLOCKED; t->wkey=nullptr; t->wake_at=t->stall_until; t->what="stalled"; switch_to(pick_next(t)); t->timed_out=false; t->wake_at=UINT64_MAX; return; }
  if(!S.preempt_on){
    // cooperative: still let overdue sleepers run once in a while so that nobody starves
    if((S.st.points&63)==0) switch_to(pick_next(t));
    return; }
  bool sw=false, stall=false;
  switch(S.sp.strat){
    case ST_RANDOM: case ST_STICKY: sw=S.rs.chance(S.sp.p_switch); break;
    case ST_PCT: if(S.pct_next && S.st.points>=S.pct_next){ t->prio=S.rs.next()>>8; S.pct_next=S.st.points+1+S.rs.below(4000); } sw=true; break;
    case ST_SITES: { u64 off=(u64)site; if(t->inst->lib && off>=t->inst->lib->lo) off-=t->inst->lib->lo; u64 h=(off*0x9E3779B97F4A7C15ull)^S.sp.site_salt; h^=h>>29; h*=0xBF58476D1CE4E5B9ull; h^=h>>32;
        if(h%S.sp.site_mod==0 && S.rs.chance(S.sp.p_site)) stall=true; else sw=S.rs.chance(S.sp.p_switch); } break;
  }
  if(S.sp.p_stall>0 && S.rs.chance(S.sp.p_stall)) stall=true;
  if(stall){ S.st.stalls++; S.fault(F_THREAD_STALL); u64 d=S.rs.logrange(S.sp.stall_min,S.sp.stall_max); t->state=T_BLOCKED; t->wkey=nullptr; t->wake_at=S.now+d; t->what=what; switch_to(pick_next(t)); t->timed_out=false; t->wake_at=UINT64_MAX; }
  else if(sw){ switch_to(pick_next(t)); }
}
int stall_threads(Instance*in,int which,u64 dur){ std::vector<SimThread*> v; for(auto*t:S.threads) if(t->inst==in&&t->state!=T_DONE&&t->state!=T_DEAD) v.push_back(t); if(v.empty()) return 0; if(which<0) for(auto*t:v) t->stall_until=S.now+dur; else v[which%v.size()]->stall_until=S.now+dur; return v.size(); }
bool block(const void* key,u64 deadline,const char* what){
  SimThread* t=t_cur; if(!t) { fprintf(stderr,"block without thread (%s)\n",what); abort(); }
  if(t->harness>(t==S.driver?1:0) || in_events) harness_error("harness code would block in %s",what);
  tick(); t->state=T_BLOCKED; t->wkey=key; t->wake_at=deadline; t->timed_out=false; t->interrupted=false; t->what=what; 
  switch_to(pick_next(t));
  bool to=t->timed_out; t->timed_out=false; t->wkey=nullptr; t->wake_at=UINT64_MAX; return !to;
}
void wake(const void* key,int n){
  if(!key) return;
  if(n>=1000000){ for(auto*t:S.threads) if(t->state==T_BLOCKED && t->wkey==key){ t->state=T_RUNNABLE; t->wkey=nullptr; t->timed_out=false; t->wake_at=UINT64_MAX; } return; }
  while(n-->0){ std::vector<SimThread*> w; { Harness h; for(auto*t:S.threads) if(t->state==T_BLOCKED && t->wkey==key) w.push_back(t); } if(w.empty()) return; auto*t=w[S.rs.below(w.size())]; t->state=T_RUNNABLE; t->wkey=nullptr; t->timed_out=false; t->wake_at=UINT64_MAX; }
}
void sleep_ns(u64 d){ static int k; (void)k; u64 dl=S.now+d; SimThread*t=t_cur; while(S.now<dl){ t->interrupted=false; block(t,dl,"sleep"); if(t->interrupted) break; } }
static char driver_key;
void notify_driver(){ wake(&driver_key); }
bool wait_until(const std::function<bool()>& f,u64 timeout){
  u64 dl=S.now+timeout; for(;;){ if(f()) return true; if(S.now>=dl) return false; block(&driver_key,std::min(dl,S.now+50*MS),"driver wait"); }
}
[[noreturn]] void thread_park_forever(){ SimThread*t=t_cur; if(t->state!=T_DEAD) t->state=T_DONE; switch_to(pick_next(t)); park(); }
void kill_instance_threads(Instance*in){ for(auto*t:S.threads) if(t->inst==in && t->state!=T_DONE){ t->state=T_DEAD; t->wkey=nullptr; } }

extern "C" int real_pthread_create(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
static void* trampoline(void* p){
  SimThread*t=(SimThread*)p; futwait(&t->fut); t_cur=t;
  if(t->state!=T_DEAD){
    t->ret=t->fn(t->arg);
    while(!t->dtors.empty()){ auto d=t->dtors.back(); t->dtors.pop_back(); d.first(d.second); }
  }
  t->harness++; // bookkeeping below is ours
  if(t->state!=T_DEAD) t->state=T_DONE;
  wake(&t->real);
  if(t->inst && t->inst->main==t) { /* handled by broker.cpp */ }
  switch_to(pick_next(t)); park();
}
int create_thread(pthread_t* out,const pthread_attr_t*,void*(*fn)(void*),void* arg,Instance* inst){
  Harness h; auto*t=new SimThread; t->id=(int)S.threads.size(); t->inst=inst; t->fn=fn; t->arg=arg; t->prio=S.rs.next()>>1; snprintf(t->name,sizeof t->name,"thr%d",t->id);
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a,1<<20);
  int r=real_pthread_create(&t->real,&a,trampoline,t); pthread_attr_destroy(&a); if(r) return r;
  if(t_cur && t_cur->inst==inst) memcpy(t->name,t_cur->name,sizeof t->name);
  S.threads.push_back(t); *out=t->real; return 0;
}
} // namespace sim
