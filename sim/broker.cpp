// Broker instances: loading the library copies, start, signals, crash; run results.
#include "sim.h"
#include "net.h"
#include "run.h"
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <unistd.h>
#include <getopt.h>
#include <signal.h>
#include <execinfo.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <ucontext.h>
using namespace sim;
namespace sim {
std::vector<Lib> libs; Lib* loading_lib=nullptr; size_t lib_next=0; extern u64 stdcxx_lo,stdcxx_hi;
Result* g_res=nullptr; std::function<void()> g_on_finish;
static Lib load_one(const std::string& path){
  Lib l; l.path=path; loading_lib=&l; l.h=dlopen(path.c_str(),RTLD_NOW|RTLD_LOCAL); loading_lib=nullptr; if(!l.h){ fprintf(stderr,"dlopen %s: %s\n",path.c_str(),dlerror()); _exit(3); }
  struct link_map*m; dlinfo(l.h,RTLD_DI_LINKMAP,&m); l.lo=m->l_addr; 
  struct A{u64 lo,hi;} a{l.lo,0}; dl_iterate_phdr([](struct dl_phdr_info*i,size_t,void*p){ auto*a=(A*)p; if(i->dlpi_addr==a->lo) for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_LOAD) a->hi=std::max<u64>(a->hi,i->dlpi_addr+i->dlpi_phdr[k].p_vaddr+i->dlpi_phdr[k].p_memsz); return 0; },&a); l.hi=a.hi;
  l.main=(int(*)(int,char**))dlsym(l.h,"_Z15sim_broker_mainiPPc"); l.plug=dlsym(l.h,"sim_plugin_lookup"); if(!l.main){ fprintf(stderr,"no broker main in %s\n",path.c_str()); _exit(3); } return l; }
void load_libs(const std::string& dir,int n){
  if(!stdcxx_lo){ dl_iterate_phdr([](struct dl_phdr_info*i,size_t,void*){ if(i->dlpi_name&&strstr(i->dlpi_name,"libstdc++")){ stdcxx_lo=i->dlpi_addr; for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_LOAD) stdcxx_hi=std::max<u64>(stdcxx_hi,i->dlpi_addr+i->dlpi_phdr[k].p_vaddr+i->dlpi_phdr[k].p_memsz);} return 0; },nullptr); }
  while((int)libs.size()<n) libs.push_back(load_one(dir+"/libflashmq_sim."+std::to_string(libs.size())+".so")); }
struct Boot { Instance*in; };
static void* boot_thread(void*p){ Instance*in=(Instance*)p; std::vector<char*> av; for(auto&s:in->args) av.push_back(strdup(s.c_str())); av.push_back(nullptr); { Harness h; optind=0; }
  int r=in->lib->main(av.size()-1,av.data()); 
  { Harness h; in->exit_code=r; in->exited=true; in->alive=false; in->exited_at=S.now; tr("instance %d exited with %d",in->idx,r); for(auto*t:S.threads) if(t->inst==in&&t!=t_cur&&t->state!=T_DONE) t->state=T_DEAD; net_drop_instance(in,false); notify_driver(); }
  return nullptr; }
Instance* boot(int host,Disk*d,std::vector<std::string> args){ Harness h; if(lib_next>=libs.size()) load_libs(g_libdir,lib_next+1); auto*in=new Instance; in->idx=S.instances.size(); in->host=host; in->ip="10.0.0."+std::to_string(host+1); in->lib=&libs[lib_next++]; in->disk=d; in->args=args; in->alive=true; in->started_at=S.now; S.instances.push_back(in);
  pthread_t t; create_thread(&t,nullptr,boot_thread,in,in); in->main=S.threads.back(); strcpy(in->main->name,"main"); in->main->harness=0; for(auto&p:in->lib->pend){ create_thread(&t,nullptr,p.fn,p.arg,in); S.threads.back()->alias=p.fake; } S.probe("boots"); return in; }
void crash(Instance*in,bool machine){ Harness h; if(!in->alive) return; tr("instance %d crash machine=%d",in->idx,machine); in->alive=false; in->exited=true; in->exit_code=-9; in->exited_at=S.now; kill_instance_threads(in); if(in->disk) in->disk->lockedfiles.clear(); net_drop_instance(in,machine); if(machine&&in->disk) in->disk->machine_crash(); notify_driver(); }
void send_signal(Instance*in,int sig){ Harness h; if(!in->alive) return; in->pending_sig.push_back(sig); S.fault(F_SIGNAL); SimThread*m=in->main; if(m->state==T_BLOCKED && m->wkey){ const void*k=m->wkey; std::string w=m->what; if(w=="epoll_wait"||w=="poll"||w=="sleep"){ m->interrupted=true; m->state=T_RUNNABLE; m->wkey=nullptr; m->wake_at=UINT64_MAX; } (void)k; } }
void deliver_signals(SimThread*t){ if(!t||!t->inst||t->inst->main!=t||t->harness) return; while(!t->inst->pending_sig.empty()){ int s=t->inst->pending_sig.front(); t->inst->pending_sig.pop_front(); auto it=t->inst->sig.find(s); t->got_signal=true; if(it==t->inst->sig.end()||it->second==SIG_DFL){ if(s==SIGTERM||s==SIGINT||s==SIGHUP){ S.probe("signal_before_handler"); { Harness h; t->inst->exit_code=128+s; } crash(t->inst,false); { Harness h; t->inst->exit_code=128+s; } thread_park_forever(); } continue; } if(it->second==SIG_IGN) continue; it->second(s); } }

// --- results
[[noreturn]] void finish_run(int status,const std::string&cls,const std::string&text){
  if(t_cur) t_cur->harness++; S.active=S.active; 
  if(g_on_finish){ auto f=g_on_finish; g_on_finish=nullptr; f(); }
  Result&r=*g_res; r.status=status; snprintf(r.cls,sizeof r.cls,"%s",cls.c_str()); snprintf(r.text,sizeof r.text,"%s",text.c_str()); r.hash=S.hash; r.shash=S.shash; r.st=S.st; r.sim_ns=S.now;
  int n=0; for(auto&p:S.probes){ if(n>=200) break; snprintf(r.pn[n],sizeof r.pn[n],"%s",p.first.c_str()); r.pv[n++]=p.second; } r.np=n; r.done=1; fflush(stderr); fflush(stdout); _exit(0); }
void violation(const char*cls,const char*fmt,...){ char b[3000]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a); tr("VIOLATION %s: %s",cls,b); finish_run(1,cls,b); }
void harness_error(const char*fmt,...){ char b[3000]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a); fprintf(stderr,"harness error: %s\n",b); if(g_res) finish_run(2,"harness",b); abort(); }
static std::string where_now(void*pc){ std::string s; void*bt[24]; int n=backtrace(bt,24); if(pc) s+=strf("pc "); for(int i=-1;i<n;i++){ u64 a=(u64)(i<0?pc:bt[i]); if(!a) continue; bool f=false; for(auto&l:libs) if(a>=l.lo&&a<l.hi){ s+=strf("so+0x%lx ",(unsigned long)(a-l.lo)); f=true; break; } if(!f&&i<0) s+="? "; } return s; }
[[noreturn]] void mem_violation(const char*what,const void*p){ if(t_cur) t_cur->harness++; violation("memory","%s at %p [%s] thread %s",what,p,where_now(nullptr).c_str(),t_cur?t_cur->name:"?"); }
static void on_crash(int sig,siginfo_t*si,void*uc){ static int once=0; if(once++) _exit(3); if(t_cur) t_cur->harness++; void*pc=nullptr; 
#ifdef __x86_64__
  pc=(void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
#endif
  bool broker=t_cur&&t_cur->inst; std::string w=where_now(pc);
  if(sig==SIGPROF){ if(broker) violation("hang","busy without end in thread %s (cpu limit) [%s]",t_cur->name,w.c_str()); else finish_run(2,"harness","cpu limit in harness code"); }
  if(!broker && w.find("so+")==std::string::npos){ fprintf(stderr,"harness crashed: signal %d addr %p pc %p\n",sig,si->si_addr,pc); void*bt[30]; int n=backtrace(bt,30); backtrace_symbols_fd(bt,n,2); if(g_res) finish_run(2,"harness",strf("harness crashed with signal %d",sig)); _exit(3); }
  violation("crash","broker process ends with signal %d (%s) in thread %s, fault address %p [%s]",sig,strsignal(sig),t_cur?t_cur->name:"?",si->si_addr,w.c_str()); }
void install_crash_handlers(int cpu_sec){ static char alt[262144]; stack_t ss{}; ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,nullptr); struct sigaction a; memset(&a,0,sizeof a); a.sa_sigaction=on_crash; a.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGPROF}) sigaction(s,&a,nullptr); signal(SIGPIPE,SIG_IGN); void*x[2]; backtrace(x,2);
  struct itimerval it; memset(&it,0,sizeof it); it.it_value.tv_sec=cpu_sec; setitimer(ITIMER_PROF,&it,nullptr); }
} // ns
extern "C" {
typedef void*(*lookup_t)(const char*);
static void* real_dlsym(void*h,const char*n){ static void*(*f)(void*,const char*)=nullptr; if(!f){ f=(void*(*)(void*,const char*))dlvsym(RTLD_NEXT,"dlsym","GLIBC_2.34"); if(!f) f=(void*(*)(void*,const char*))dlvsym(RTLD_NEXT,"dlsym","GLIBC_2.2.5"); } return f(h,n); }
void* dlsym(void*h,const char*n) noexcept { if(simulated() && t_cur->inst->lib->plug && h==t_cur->inst->lib->plug) return ((lookup_t)h)(n); return real_dlsym(h,n); }
void* dlopen(const char*p,int fl) noexcept { if(simulated()&&fs_is_sim(p)) return t_cur->inst->lib->plug; if(simulated()) return nullptr; static void*(*f)(const char*,int)=(void*(*)(const char*,int))real_dlsym(RTLD_NEXT,"dlopen"); return f(p,fl); }
int dlclose(void*h) noexcept { if(simulated()) return 0; static int(*f)(void*)=(int(*)(void*))real_dlsym(RTLD_NEXT,"dlclose"); return f(h); }
void exit(int c) noexcept { if(simulated()){ { Harness h; Instance*in=t_cur->inst; in->exit_code=c; in->exited=true; in->alive=false; in->exited_at=S.now; kill_instance_threads(in); net_drop_instance(in,false); notify_driver(); } thread_park_forever(); } static void(*f)(int)=(void(*)(int))real_dlsym(RTLD_NEXT,"exit"); f(c); __builtin_unreachable(); }
char* getenv(const char*n) noexcept { if(simulated()) return nullptr; extern char**environ; size_t l=strlen(n); for(char**e=environ;e&&*e;e++) if(!strncmp(*e,n,l)&&(*e)[l]=='=') return *e+l+1; return nullptr; }
}
