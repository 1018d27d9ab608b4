#include "net.h"
// Driver: batches of seeds in forked workers, gate, minimisation, replay.
#include "ctx.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sched.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/syscall.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>
using namespace sim;
namespace sim { Ctx* C=nullptr; std::string g_libdir; 
static std::vector<Scenario>& sl(){ static auto*v=new std::vector<Scenario>; return *v; }
RegScen::RegScen(const char*n,void(*f)(Ctx&)){ sl().push_back({n,f}); } }
static double rnow(){ struct timespec t; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
struct Job { std::string prop,scen; u64 seed=0; std::set<int> mask; std::set<std::string> off; u64 preempt_off=0; };
static int g_cpu_limit=60; static bool g_trace=false, g_quick=true;
static int det_seed(const void*,int){return 1;} static int det_bytes(unsigned char*b,int n){ for(int i=0;i<n;i++) b[i]=S.rb.next()>>13; return 1; } static int det_status(){return 1;} static void det_clean(){} static int det_add(const void*,int,double){return 1;}
[[noreturn]] static void child(const Job&j,Result*r,int cpu){
  g_res=r; memset(r,0,sizeof *r); if(!g_trace){ int n=open("/dev/null",O_WRONLY); dup2(n,1); close(n); }
  if(cpu>=0){ cpu_set_t all; CPU_ZERO(&all); sched_getaffinity(0,sizeof all,&all); int n=CPU_COUNT(&all),k=cpu%(n?n:1); for(int i=0;i<CPU_SETSIZE;i++) if(CPU_ISSET(i,&all)&&k--==0){ cpu_set_t one; CPU_ZERO(&one); CPU_SET(i,&one); sched_setaffinity(0,sizeof one,&one); break; } }
  install_crash_handlers(g_cpu_limit);
  static RAND_METHOD rm={det_seed,det_bytes,det_clean,det_add,det_bytes,det_status}; RAND_set_rand_method(&rm);
  Ctx*c=new Ctx; C=c; c->prop=j.prop; c->scen=j.scen; c->seed=j.seed; c->mask=j.mask; c->off=j.off; c->preempt_off=j.preempt_off; c->quick=g_quick; S.trace=g_trace;
  u64 h=j.seed*0x9E3779B97F4A7C15ull; for(char ch:j.scen) h=(h^ch)*1099511628211ull; c->g.seed(h); S.rs.seed(h^1); S.rn.seed(h^2); S.rf.seed(h^3); S.rb.seed(h^4);
  if(j.preempt_off) S.sp.off_after=j.preempt_off;
  g_on_finish=[c]{ Result&r=*g_res; bool live=false; for(auto*in:S.instances) if(in->alive) live=true; if(g_trace&&live) net_dump(); if(g_trace&&live) for(auto*in:S.instances) if(in->disk){ std::string l=in->disk->read(strf("/sim/h%d/log",in->host)); if(l.size()>6000) l=l.substr(l.size()-6000); printf("=== log of instance %d\n%s\n",in->idx,l.c_str()); } std::string s; for(size_t i=0;i<c->desc.size();i++){ if(!c->keep(i)) continue; s+=strf("%zu ",i)+c->desc[i]+"\n"; if(s.size()>sizeof r.ops-300) break; } snprintf(r.ops,sizeof r.ops,"%s",s.c_str()); r.nops=c->desc.size(); std::string f; for(auto&x:c->feats) f+=x+" "; snprintf(r.sample,sizeof r.sample,"%s",f.c_str()); };
  void(*fn)(Ctx&)=nullptr; for(auto&s:sl()) if(j.scen==s.name) fn=s.run; if(!fn){ fprintf(stderr,"no scenario %s\n",j.scen.c_str()); _exit(3); }
  sched_init(); fn(*c); finish_run(0,"ok",""); }
// results live at fixed addresses, away from where the kernel places libraries: those must get the same addresses in a batch of any size and in a run alone
static Result* shm(){ static int n=0; void*at=(void*)(0x200000000000ull+(u64)n++*0x100000000ull); void*p=mmap(at,sizeof(Result),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE,-1,0); if(p!=at){ fprintf(stderr,"cannot map results\n"); _exit(3); } return (Result*)p; }
static Result run_one(const Job&j,Result*r,int cpu=0){ r->done=0; pid_t p=fork(); if(!p) child(j,r,cpu); int st; double t0=rnow(); waitpid(p,&st,0); (void)t0; if(!r->done){ r->status=2; snprintf(r->cls,sizeof r->cls,"harness"); snprintf(r->text,sizeof r->text,"child ended without result, status %d",st); } return *r; }
// "class" used to decide whether a smaller run fails in the same way
static std::string vclass(const Result&r){ return r.cls; }
static std::string jesc(const std::string&s){ std::string o; for(char ch:s){ u8 c=ch; if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c=='\n') o+="\\n"; else if(c<32||c>126) o+=strf("\\u%04x",c); else o+=c; } return o; }
static std::vector<std::string> split(const std::string&s,char d){ std::vector<std::string> v; std::string t; for(char c:s){ if(c==d){ if(!t.empty()) v.push_back(t); t.clear(); } else t+=c; } if(!t.empty()) v.push_back(t); return v; }
static void write_replay(const std::string&path,const Job&j,const Result&r,bool quick){ FILE*f=fopen(path.c_str(),"w"); if(!f) return; fprintf(f,"{\n \"property\":\"%s\",\n \"scenario\":\"%s\",\n \"seed\":%lu,\n \"tier\":\"%s\",\n \"masked_ops\":[",j.prop.c_str(),j.scen.c_str(),(unsigned long)j.seed,quick?"quick":"thorough"); bool first=true; for(int m:j.mask){ fprintf(f,"%s%d",first?"":",",m); first=false; } fprintf(f,"],\n \"disabled\":["); first=true; for(auto&o:j.off){ fprintf(f,"%s\"%s\"",first?"":",",o.c_str()); first=false; } fprintf(f,"],\n \"preempt_off_after\":%lu,\n \"class\":\"%s\",\n \"violation\":\"%s\",\n \"hash\":\"%016lx\",\n \"sim_seconds\":%.6f,\n \"points\":%lu,\n \"switches\":%lu,\n \"features\":\"%s\",\n \"faults\":{",(unsigned long)j.preempt_off,jesc(r.cls).c_str(),jesc(r.text).c_str(),(unsigned long)r.hash,r.sim_ns/1e9,(unsigned long)r.st.points,(unsigned long)r.st.switches,jesc(r.sample).c_str()); first=true; for(int i=0;i<F_MAX;i++) if(r.st.faults[i]){ fprintf(f,"%s\"%s\":%lu",first?"":",",fault_names[i],(unsigned long)r.st.faults[i]); first=false; } fprintf(f,"},\n \"schedule_and_operations\":[\n"); first=true; for(auto&l:split(r.ops,'\n')){ fprintf(f,"%s  \"%s\"",first?"":",\n",jesc(l).c_str()); first=false; } fprintf(f,"\n ]\n}\n"); fclose(f); }
static void minimise(Job&j,Result&best,Result*r,double budget){ double t0=rnow(); std::string cls=vclass(best); int tries=0;
  auto attempt=[&](const Job&k){ if(rnow()-t0>budget) return false; tries++; Result q=run_one(k,r); if(q.status==1&&vclass(q)==cls){ best=q; j=k; return true; } return false; };
  for(auto&f:split(best.sample,' ')){ if(j.off.count(f)) continue; Job k=j; k.off.insert(f); attempt(k); }
  size_t n=best.nops; std::vector<int> live; for(size_t i=0;i<n;i++) if(!j.mask.count(i)) live.push_back(i);
  for(size_t chunk=std::max<size_t>(1,live.size()/2);;){ bool any=false; for(size_t i=0;i<live.size();){ if(rnow()-t0>budget) return; Job k=j; size_t e=std::min(live.size(),i+chunk); for(size_t x=i;x<e;x++) k.mask.insert(live[x]); if(attempt(k)){ live.erase(live.begin()+i,live.begin()+e); any=true; } else i=e; } if(chunk==1&&!any) break; if(chunk>1) chunk/=2; else if(!any) break; }
  // stop pre-empting as early as possible
  u64 lo=0,hi=best.st.points; while(lo+50<hi&&rnow()-t0<budget){ u64 mid=(lo+hi)/2; Job k=j; k.preempt_off=std::max<u64>(1,mid); if(attempt(k)) hi=mid; else lo=mid; } }
int main(int argc,char**argv){
  if(personality(0xffffffff)!=-1 && !(personality(0xffffffff)&ADDR_NO_RANDOMIZE)){ if(personality(personality(0xffffffff)|ADDR_NO_RANDOMIZE)!=-1 && !getenv("SIM_NOASLR")){ setenv("SIM_NOASLR","1",1); execv("/proc/self/exe",argv); } }
  std::map<std::string,std::string> a; for(int i=1;i<argc;i++){ std::string s=argv[i]; if(s.rfind("--",0)==0){ std::string v="1"; if(i+1<argc&&std::string(argv[i+1]).rfind("--",0)!=0) v=argv[++i]; a[s.substr(2)]=v; } }
  g_libdir=a["lib"]; g_trace=a.count("trace"); g_quick=!a.count("thorough"); if(a.count("cpu")) g_cpu_limit=atoi(a["cpu"].c_str());
  load_libs(g_libdir,a.count("preload")?atoi(a["preload"].c_str()):3); { SSL_CTX*x=SSL_CTX_new(TLS_method()); SSL_CTX_free(x); }
  Result*r0=shm();
  std::vector<std::pair<std::string,int>> sc; for(auto&s:split(a["scen"],',')){ auto p=split(s,':'); sc.push_back({p[0],p.size()>1?atoi(p[1].c_str()):1}); }
  auto parse_job=[&]{ Job j; j.prop=a["prop"]; j.scen=sc[0].first; j.seed=strtoull(a["seed"].c_str(),0,10); for(auto&x:split(a["mask"],',')) j.mask.insert(atoi(x.c_str())); for(auto&x:split(a["off"],',')) j.off.insert(x); j.preempt_off=strtoull(a["preempt-off"].c_str(),0,10); return j; };
  if(a.count("single")){ Job j=parse_job(); Result r=run_one(j,r0); printf("{\"status\":%d,\"class\":\"%s\",\"text\":\"%s\",\"hash\":\"%016lx\",\"points\":%lu,\"switches\":%lu,\"sim\":%.6f}\n",r.status,jesc(r.cls).c_str(),jesc(r.text).c_str(),(unsigned long)r.hash,(unsigned long)r.st.points,(unsigned long)r.st.switches,r.sim_ns/1e9); if(a.count("ops")) printf("%s",r.ops); fflush(stdout); _exit(r.status==1?1:r.status==0?0:2); }
  // batch
  u64 base=strtoull(a["seed"].c_str(),0,10); double tlimit=atof(a["time"].c_str()); u64 maxruns=a.count("runs")?strtoull(a["runs"].c_str(),0,10):UINT64_MAX; int W=a.count("workers")?atoi(a["workers"].c_str()):8; bool keepgoing=a.count("keep-going");
  std::vector<std::pair<std::string,std::string>> known; // class prefix, substring
  std::set<std::string> classes; for(auto&x:split(a["classes"],',')) classes.insert(x); std::map<std::string,u64> foreign; std::string fex; std::set<u64> skip; for(auto&x:split(a["skip"],',')) skip.insert(strtoull(x.c_str(),0,10));
  if(a.count("known")){ FILE*f=fopen(a["known"].c_str(),"r"); if(f){ char b[4096]; while(fgets(b,sizeof b,f)){ std::string s=b; while(!s.empty()&&(s.back()=='\n'||s.back()=='\r')) s.pop_back(); auto t=s.find('\t'); if(t!=std::string::npos) known.push_back({s.substr(0,t),s.substr(t+1)}); } fclose(f); } }
  int wsum=0; for(auto&s:sc) wsum+=s.second; double t0=rnow(); std::vector<Result*> sh(W); for(auto&s:sh) s=shm(); std::vector<pid_t> pid(W,0); std::vector<Job> jb(W); u64 next=0,done=0; Stats tot; u64 simns=0; std::set<u64> inter,hashes; std::map<std::string,u64> probes,scount; std::map<std::string,u64> kn; std::vector<std::pair<Job,Result>> viol; u64 limits=0,errors=0; std::string errtext; std::vector<std::string> samples; u64 nontriv=0; bool stop=false; std::map<std::string,u64> vcount; std::map<std::string,std::string> vex;
  std::vector<double> started(W,0);
  for(;;){ 
    for(int i=0;i<W&&!stop;i++) if(!pid[i]&&next<maxruns&&rnow()-t0<tlimit){ while(skip.count(base+next)) next++; Job j; j.prop=a["prop"]; j.seed=base+next; u64 pick=(j.seed*0x9E3779B97F4A7C15ull>>33)%wsum; for(auto&s:sc){ if(pick<(u64)s.second){ j.scen=s.first; break; } pick-=s.second; } next++; jb[i]=j; sh[i]->done=0; pid_t p=fork(); if(!p) child(j,sh[i],i); pid[i]=p; started[i]=rnow(); }
    bool any=false; for(int i=0;i<W;i++) if(pid[i]) any=true; if(!any) break;
    int st; pid_t p=waitpid(-1,&st,0); for(int i=0;i<W;i++) if(pid[i]==p){ pid[i]=0; Result&r=*sh[i]; if(!r.done){ r.status=2; snprintf(r.text,sizeof r.text,"child of seed %lu scen %s ended without a result (status %d)",(unsigned long)jb[i].seed,jb[i].scen.c_str(),st); }
      done++; simns+=r.sim_ns; for(int k=0;k<F_MAX;k++) tot.faults[k]+=r.st.faults[k]; tot.points+=r.st.points; tot.switches+=r.st.switches; tot.stalls+=r.st.stalls; tot.events+=r.st.events; tot.syscalls+=r.st.syscalls; tot.bytes_in+=r.st.bytes_in; tot.bytes_out+=r.st.bytes_out; bool nw=inter.insert(r.shash).second; if(nw&&r.st.bytes_out>0&&r.st.switches>100) nontriv++; for(int k=0;k<r.np;k++) probes[r.pn[k]]+=r.pv[k]; scount[jb[i].scen]++; if(r.status==3) limits++; if(samples.size()<3&&r.status==0){ std::string o=r.ops; samples.push_back(strf("scenario %s seed %lu features [%s] ops: ",jb[i].scen.c_str(),(unsigned long)jb[i].seed,r.sample)+o.substr(0,1500)); }
      if(a.count("hashes")) printf("H %lu %s %d %016lx\n",(unsigned long)jb[i].seed,jb[i].scen.c_str(),r.status,(unsigned long)r.hash);
      if(r.status==2){ errors++; if(errtext.empty()) errtext=strf("scen %s seed %lu: %s",jb[i].scen.c_str(),(unsigned long)jb[i].seed,r.text); if(!keepgoing) stop=true; else { vcount["ERROR"]++; } }
      if(r.status==1){ bool k=false; for(size_t q=0;q<known.size();q++) if(known[q].first==r.cls&&strstr(r.text,known[q].second.c_str())){ kn[known[q].first+"\t"+known[q].second]++; k=true; break; } if(!k&&!classes.empty()&&!classes.count(r.cls)){ k=true; foreign[r.cls]++; if(fex.empty()) fex=strf("scen %s seed %lu: %s: %s",jb[i].scen.c_str(),(unsigned long)jb[i].seed,r.cls,r.text); } if(!k){ if(keepgoing){ vcount[r.cls]++; if(a.count("verbose")||vcount[r.cls]<=3) printf("seed %lu scen %s: %s: %s\n",(unsigned long)jb[i].seed,jb[i].scen.c_str(),r.cls,r.text); fflush(stdout);} else { viol.push_back({jb[i],r}); stop=true; } } } } }
  double wall=rnow()-t0; int rc=0; 
  if(!viol.empty()){ std::sort(viol.begin(),viol.end(),[](auto&x,auto&y){return x.first.seed<y.first.seed;}); Job j=viol[0].first; Result v=viol[0].second; 
    Result g1=run_one(j,r0); std::string c1=g1.cls; u64 h1=g1.hash; Result g2=run_one(j,r0); 
    if(g1.status!=1||g2.status!=1||c1!=v.cls||h1!=v.hash||g2.hash!=v.hash){ printf("NONDETERMINISTIC scen %s seed %lu: %s/%016lx then %s/%016lx then %s/%016lx: %s\n",j.scen.c_str(),(unsigned long)j.seed,v.cls,(unsigned long)v.hash,c1.c_str(),(unsigned long)h1,g2.cls,(unsigned long)g2.hash,v.text); errors++; errtext="not reproducible"; rc=2; }
    else { Result best=v; Job mj=j; std::string orig=v.text; if(!a.count("no-min")) minimise(mj,best,r0,a.count("min-time")?atof(a["min-time"].c_str()):45); Result last=run_one(mj,r0); std::string path=a["replay"]; write_replay(path,mj,last,g_quick); printf("VIOLATED scen=%s seed=%lu class=%s first: %s\nminimised: %s\n",j.scen.c_str(),(unsigned long)j.seed,v.cls,orig.c_str(),last.text); rc=1; } }
  else if(errors&&!keepgoing){ printf("ERROR %s\n",errtext.c_str()); rc=2; }
  if(keepgoing){ for(auto&v:vcount) printf("COUNT %s %lu\n",v.first.c_str(),(unsigned long)v.second); if(errors) printf("first error: %s\n",errtext.c_str()); }
  if(a.count("out")){ FILE*f=fopen(a["out"].c_str(),"w"); fprintf(f,"{\"runs\":%lu,\"distinct_interleavings\":%zu,\"nontrivial\":%lu,\"sim_seconds\":%.3f,\"wall\":%.3f,\"points\":%lu,\"switches\":%lu,\"events\":%lu,\"syscalls\":%lu,\"bytes_in\":%lu,\"bytes_out\":%lu,\"limits\":%lu,\"errors\":%lu,\"first_seed\":%lu,\"rc\":%d,\"faults\":{",(unsigned long)done,inter.size(),(unsigned long)nontriv,simns/1e9,wall,(unsigned long)tot.points,(unsigned long)tot.switches,(unsigned long)tot.events,(unsigned long)tot.syscalls,(unsigned long)tot.bytes_in,(unsigned long)tot.bytes_out,(unsigned long)limits,(unsigned long)errors,(unsigned long)base,rc); bool first=true; for(int i=0;i<F_MAX;i++) if(tot.faults[i]){ fprintf(f,"%s\"%s\":%lu",first?"":",",fault_names[i],(unsigned long)tot.faults[i]); first=false; } fprintf(f,"},\"foreign\":{"); first=true; for(auto&x:foreign){ fprintf(f,"%s\"%s\":%lu",first?"":",",x.first.c_str(),(unsigned long)x.second); first=false; } fprintf(f,"},\"foreign_example\":\"%s\"",jesc(fex).c_str()); first=true; fprintf(f,",\"probes\":{"); first=true; for(auto&p:probes){ fprintf(f,"%s\"%s\":%lu",first?"":",",jesc(p.first).c_str(),(unsigned long)p.second); first=false; } fprintf(f,"},\"scenarios\":{"); first=true; for(auto&p:scount){ fprintf(f,"%s\"%s\":%lu",first?"":",",p.first.c_str(),(unsigned long)p.second); first=false; } fprintf(f,"},\"known\":["); first=true; for(auto&p:kn){ fprintf(f,"%s[\"%s\",%lu]",first?"":",",jesc(p.first).c_str(),(unsigned long)p.second); first=false; } fprintf(f,"],\"samples\":["); first=true; for(auto&s:samples){ fprintf(f,"%s\"%s\"",first?"":",",jesc(s).c_str()); first=false; } fprintf(f,"]}\n"); fclose(f); }
  else printf("runs %lu distinct %zu sim %.1fs wall %.1fs points %lu switches %lu limits %lu errors %lu\n",(unsigned long)done,inter.size(),simns/1e9,wall,(unsigned long)tot.points,(unsigned long)tot.switches,(unsigned long)limits,(unsigned long)errors);
  if(a.count("probes")){ for(auto&p:probes) printf("  probe %s %lu\n",p.first.c_str(),(unsigned long)p.second); for(int i=0;i<F_MAX;i++) if(tot.faults[i]) printf("  fault %s %lu\n",fault_names[i],(unsigned long)tot.faults[i]); }
  fflush(stdout); _exit(rc); }
