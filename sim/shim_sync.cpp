// Interposed synchronisation, time and process calls.
#include "sim.h"
#include <dlfcn.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <semaphore.h>
#include <signal.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <pwd.h>
#include <grp.h>
#include <sys/random.h>
#include <sys/sysinfo.h>
using namespace sim;
#define RA __builtin_return_address(0)
namespace sim { u64 stdcxx_lo=0,stdcxx_hi=0; }
static inline bool can_preempt(const void* ra){ if(!simulated()) return false; u64 a=(u64)ra; Lib*l=t_cur->inst->lib; if(l && a>=l->lo && a<l->hi) return true; return a>=stdcxx_lo && a<stdcxx_hi; }
#define PT(w) do{ if(can_preempt(RA)) point(w,RA); }while(0)
static inline int myid(){ return t_cur? t_cur->id+2 : 1; }

template<class F> static F nxt(const char*n){ return (F)dlsym(RTLD_NEXT,n); }
extern "C" {
int real_pthread_create(pthread_t*a,const pthread_attr_t*b,void*(*c)(void*),void*d){ static auto f=nxt<int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*)>("pthread_create"); return f(a,b,c,d); }
int pthread_create(pthread_t*a,const pthread_attr_t*b,void*(*c)(void*),void*d){ if(simulated()){ int r=create_thread(a,b,c,d,t_cur->inst); PT("thread_create"); return r; } if(loading_lib){ static u64 fid=0xFEED000000ull; *a=++fid; loading_lib->pend.push_back({c,d,*a}); return 0; } return real_pthread_create(a,b,c,d); }
int pthread_join(pthread_t th,void**ret){
  if(!t_cur||!S.active){ static auto f=nxt<int(*)(pthread_t,void**)>("pthread_join"); return f(th,ret); }
  SimThread*x=nullptr; for(auto*t:S.threads) if((t->real==th||t->alias==th) && !t->joined) x=t; if(!x) return ESRCH;
  PT("join"); while(x->state!=T_DONE) block(&x->real,UINT64_MAX,"join"); x->joined=true; if(ret) *ret=x->ret; return 0; }
int pthread_detach(pthread_t th){ if(!t_cur||!S.active){ static auto f=nxt<int(*)(pthread_t)>("pthread_detach"); return f(th);} for(auto*t:S.threads) if(t->real==th||t->alias==th) t->detached=true; return 0; }
int pthread_setname_np(pthread_t th,const char*n){ for(auto*t:S.threads) if(t->real==th||t->alias==th){ snprintf(t->name,sizeof t->name,"%.15s",n); return 0; } return 0; }
int pthread_getname_np(pthread_t th,char*b,size_t l){ for(auto*t:S.threads) if(t->real==th||t->alias==th){ snprintf(b,l,"%s",t->name); return 0; } snprintf(b,l,"x"); return 0; }
int pthread_sigmask(int h,const sigset_t*s,sigset_t*o){ if(simulated()){ if(o) sigemptyset(o); return 0;} static auto f=nxt<int(*)(int,const sigset_t*,sigset_t*)>("pthread_sigmask"); return f(h,s,o); }
int sigprocmask(int h,const sigset_t*s,sigset_t*o){ if(simulated()){ if(o) sigemptyset(o); return 0;} static auto f=nxt<int(*)(int,const sigset_t*,sigset_t*)>("sigprocmask"); return f(h,s,o); }
int sched_yield(){ if(simulated()){ t_cur->state=T_RUNNABLE; point("sched_yield",RA); block(t_cur,S.now+1000,"yield"); return 0;} return syscall(SYS_sched_yield); }

// --- mutexes: state lives in the object itself
int pthread_mutex_lock(pthread_mutex_t*m){
  PT("mutex_lock"); auto&d=m->__data; int me=myid();
  if(d.__lock){ if(d.__owner==me){ if((d.__kind&3)==PTHREAD_MUTEX_RECURSIVE_NP){ d.__count++; return 0; } if((d.__kind&3)==PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK; }
    if(!S.active||!t_cur) harness_error("mutex contention outside simulation");
    while(d.__lock) block(m,UINT64_MAX,"mutex"); }
  d.__lock=1; d.__owner=me; d.__count=1; return 0; }
int pthread_mutex_trylock(pthread_mutex_t*m){ PT("mutex_trylock"); auto&d=m->__data; int me=myid();
  if(d.__lock){ if(d.__owner==me && (d.__kind&3)==PTHREAD_MUTEX_RECURSIVE_NP){ d.__count++; return 0; } return EBUSY; }
  d.__lock=1; d.__owner=me; d.__count=1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t*m){ auto&d=m->__data; if(d.__lock && (d.__kind&3)==PTHREAD_MUTEX_RECURSIVE_NP && d.__count>1){ d.__count--; return 0; }
  if(simulated() && d.__lock && d.__owner!=myid()) violation("crash","mutex unlocked by a thread that does not own it");
  d.__lock=0; d.__owner=0; d.__count=0; wake(m); PT("mutex_unlock"); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t*m,const struct timespec*){ return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t*m,clockid_t,const struct timespec*){ return pthread_mutex_lock(m); }
// --- rwlocks: __readers counts readers, __cur_writer names the writer
int pthread_rwlock_rdlock(pthread_rwlock_t*l){ PT("rdlock"); auto&d=l->__data; if(d.__cur_writer==myid()) return EDEADLK; while(d.__cur_writer) block(l,UINT64_MAX,"rdlock"); d.__readers++; return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t*l){ PT("tryrdlock"); auto&d=l->__data; if(d.__cur_writer) return EBUSY; d.__readers++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t*l){ PT("wrlock"); auto&d=l->__data; if(d.__cur_writer==myid()) return EDEADLK; while(d.__cur_writer||d.__readers) block(l,UINT64_MAX,"wrlock"); d.__cur_writer=myid(); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t*l){ PT("trywrlock"); auto&d=l->__data; if(d.__cur_writer||d.__readers) return EBUSY; d.__cur_writer=myid(); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t*l){ auto&d=l->__data; if(d.__cur_writer) d.__cur_writer=0; else if(d.__readers) d.__readers--; wake(l); PT("rwunlock"); return 0; }
// --- condition variables
static int cond_wait(pthread_cond_t*c,pthread_mutex_t*m,u64 dl,const void*ra){
  auto&d=m->__data; int cnt=d.__count; d.__lock=0; d.__owner=0; d.__count=0; wake(m);
  bool ok=true; if(S.sp.p_spurious>0 && simulated() && S.rs.chance(S.sp.p_spurious)){ S.fault(F_SPURIOUS); block(c,std::min(dl,S.now+100*US),"cond"); } else ok=block(c,dl,"cond");
  (void)ra; while(d.__lock) block(m,UINT64_MAX,"mutex"); d.__lock=1; d.__owner=myid(); d.__count=cnt; return ok||S.now<dl?0:ETIMEDOUT; }
static u64 abs_to_sim(clockid_t ck,const struct timespec*t){ i64 v=(i64)t->tv_sec*(i64)SEC+t->tv_nsec; i64 base=ck==CLOCK_REALTIME?(i64)S.real():(i64)S.mono(); i64 d=v-base; if(d<0) d=0; return S.now+d; }
int pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ PT("cond_wait"); return cond_wait(c,m,UINT64_MAX,RA); }
int pthread_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,const struct timespec*t){ PT("cond_wait"); return cond_wait(c,m,abs_to_sim(CLOCK_REALTIME,t),RA); }
int pthread_cond_clockwait(pthread_cond_t*c,pthread_mutex_t*m,clockid_t k,const struct timespec*t){ PT("cond_wait"); return cond_wait(c,m,abs_to_sim(k,t),RA); }
int pthread_cond_signal(pthread_cond_t*c){ wake(c,1); PT("cond_signal"); return 0; }
int pthread_cond_broadcast(pthread_cond_t*c){ wake(c); PT("cond_broadcast"); return 0; }
int pthread_cond_destroy(pthread_cond_t*){ return 0; }
// --- semaphores
int sem_init(sem_t*s,int,unsigned v){ memset(s,0,sizeof *s); *(unsigned*)s=v; return 0; }
int sem_destroy(sem_t*){ return 0; }
int sem_close(sem_t*){ return 0; }
int sem_post(sem_t*s){ ++*(unsigned*)s; wake(s,1); PT("sem_post"); return 0; }
int sem_wait(sem_t*s){ PT("sem_wait"); while(*(unsigned*)s==0) block(s,UINT64_MAX,"sem"); --*(unsigned*)s; return 0; }
int sem_trywait(sem_t*s){ PT("sem_trywait"); if(*(unsigned*)s==0){ errno=EAGAIN; return -1;} --*(unsigned*)s; return 0; }
int sem_timedwait(sem_t*s,const struct timespec*t){ PT("sem_wait"); u64 dl=abs_to_sim(CLOCK_REALTIME,t); while(*(unsigned*)s==0){ if(!block(s,dl,"sem")&&*(unsigned*)s==0){ errno=ETIMEDOUT; return -1; } } --*(unsigned*)s; return 0; }
int __cxa_thread_atexit(void(*d)(void*),void*o,void*dso){ if(t_cur && t_cur->inst){ Harness h; t_cur->dtors.push_back({d,o}); return 0; } extern int __cxa_thread_atexit_impl(void(*)(void*),void*,void*); return __cxa_thread_atexit_impl(d,o,dso); }

// --- clocks
int clock_gettime(clockid_t c,struct timespec*t){
  if(!S.active||!t_cur){ return syscall(SYS_clock_gettime,c,t); }
  if(simulated()){ S.now+=50; if(can_preempt(RA)&&S.rs.below(8)==0) point("clock",RA); }
  u64 v= (c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE)?S.real():S.mono(); t->tv_sec=v/SEC; t->tv_nsec=v%SEC; return 0; }
int gettimeofday(struct timeval*tv,void*){ if(!S.active||!t_cur){ struct timespec t; syscall(SYS_clock_gettime,0,&t); tv->tv_sec=t.tv_sec; tv->tv_usec=t.tv_nsec/1000; return 0; } u64 v=S.real(); tv->tv_sec=v/SEC; tv->tv_usec=v%SEC/1000; return 0; }
time_t time(time_t*p){ time_t r; if(!S.active||!t_cur){ struct timespec t; syscall(SYS_clock_gettime,0,&t); r=t.tv_sec; } else r=S.real()/SEC; if(p)*p=r; return r; }
static int do_sleep(u64 ns,const void*ra){ if(can_preempt(ra)) point("sleep",ra); deliver_signals(t_cur); sleep_ns(ns); if(t_cur->interrupted){ deliver_signals(t_cur); errno=EINTR; return -1; } return 0; }
int nanosleep(const struct timespec*a,struct timespec*rem){ if(!simulated()) return syscall(SYS_nanosleep,a,rem); u64 d=(u64)a->tv_sec*SEC+a->tv_nsec; u64 t0=S.now; int r=do_sleep(d,RA); if(r&&rem){ u64 l=d>S.now-t0?d-(S.now-t0):0; rem->tv_sec=l/SEC; rem->tv_nsec=l%SEC; } return r; }
int clock_nanosleep(clockid_t c,int fl,const struct timespec*a,struct timespec*rem){ if(!simulated()) return syscall(SYS_clock_nanosleep,c,fl,a,rem); u64 d=(u64)a->tv_sec*SEC+a->tv_nsec; if(fl&TIMER_ABSTIME) d=abs_to_sim(c,a)-S.now; u64 t0=S.now; int r=do_sleep(d,RA); if(r&&rem&&!(fl&TIMER_ABSTIME)){ u64 l=d>S.now-t0?d-(S.now-t0):0; rem->tv_sec=l/SEC; rem->tv_nsec=l%SEC; } return r?EINTR:0; }
int usleep(useconds_t u){ if(!simulated()){ struct timespec t{(time_t)(u/1000000),(long)(u%1000000)*1000}; return syscall(SYS_nanosleep,&t,nullptr);} return do_sleep((u64)u*1000,RA); }
unsigned sleep(unsigned s){ if(!simulated()){ struct timespec t{(time_t)s,0}; syscall(SYS_nanosleep,&t,nullptr); return 0;} do_sleep(s*SEC,RA); return 0; }
// --- randomness
static Rng& brng(){ return S.rb; }
int rand(){ if(simulated()) return brng().next()&0x7fffffff; static u64 x=1; x=x*6364136223846793005ull+1442695040888963407ull; return (x>>33)&0x7fffffff; }
long random(){ return rand(); }
ssize_t getrandom(void*b,size_t n,unsigned){ for(size_t i=0;i<n;i++) ((u8*)b)[i]=(u8)(S.rb.next()>>11); return n; }
int getentropy(void*b,size_t n){ getrandom(b,n,0); return 0; }
// --- process
int get_nprocs(){ return 4; }
int setrlimit(__rlimit_resource_t r,const struct rlimit*l) noexcept { if(simulated()) return 0; return syscall(SYS_setrlimit,r,l); }
int getpwnam_r(const char*,struct passwd*p,char*b,size_t n,struct passwd**r){ if(n<64){*r=nullptr;return ERANGE;} memset(p,0,sizeof *p); strcpy(b,"root"); p->pw_name=b; *r=p; return 0; }
int getgrnam_r(const char*,struct group*g,char*b,size_t n,struct group**r){ if(n<64){*r=nullptr;return ERANGE;} memset(g,0,sizeof *g); strcpy(b,"root"); g->gr_name=b; *r=g; return 0; }
int sigaction(int s,const struct sigaction*a,struct sigaction*o) noexcept { if(simulated()){ if(o){ memset(o,0,sizeof *o); auto it=t_cur->inst->sig.find(s); if(it!=t_cur->inst->sig.end()) o->sa_handler=it->second; } if(a){ Harness h; t_cur->inst->sig[s]=a->sa_handler; } return 0; }
  static auto f=nxt<int(*)(int,const struct sigaction*,struct sigaction*)>("sigaction"); return f(s,a,o); }
int raise(int s) noexcept { if(simulated()){ if(s==SIGABRT||s==SIGSEGV) violation("crash","broker raised signal %d",s); send_signal(t_cur->inst,s); return 0; } return syscall(SYS_tgkill,getpid(),syscall(SYS_gettid),s); }
int kill(pid_t p,int s) noexcept { if(simulated()){ send_signal(t_cur->inst,s); return 0; } return syscall(SYS_kill,p,s); }
int malloc_trim(size_t) noexcept { return 0; }
}

// --- static initialisation guards
int sim_guard_acquire(u8*g) asm("__cxa_guard_acquire"); void sim_guard_release(u8*g) asm("__cxa_guard_release"); void sim_guard_abort(u8*g) asm("__cxa_guard_abort");
int sim_guard_acquire(u8*g){ while(true){ if(g[0]) return 0; if(!g[1]) break; if(!t_cur||!S.active) harness_error("guard contention outside simulation"); block(g,UINT64_MAX,"guard"); } g[1]=1; return 1; }
void sim_guard_release(u8*g){ g[0]=1; g[1]=0; if(S.active) wake(g); }
void sim_guard_abort(u8*g){ g[1]=0; if(S.active) wake(g); }
