// C13: crashes and disk faults around the saving and loading of state
#include "simple.h"
using namespace sim;
namespace {
struct RM { std::string payload; int qos; std::string ct; bool operator==(const RM&o)const{ return payload==o.payload&&qos==o.qos&&ct==o.ct; } };
struct SesM { std::map<std::string,int> subs; std::vector<std::string> queue; bool operator==(const SesM&o)const{ return subs==o.subs&&queue==o.queue; } };
typedef std::map<std::string,RM> RetM; typedef std::map<std::string,SesM> SessM;
struct Snap { RetM ret; SessM ses; };
static const char*TOP[]={"q/a","q/b","q/a/c","q/d","q/d/e/f"}; static const char*FLT[]={"q/a","q/b","q/a/c","q/#","q/+","q/d/#","+/b","q/d/e/f","q/a/+"};
struct CrashRun {
  Ctx&c; Rng&g; World w; Host&h; Pool pool; std::vector<SC*> ss; SC*wr; SC*probe; RetM ret; SessM ses; std::vector<Snap> snaps; size_t lo=0; // every snapshot from lo on may be what's on disk, for each file by itself
  int uid=0; u64 started=0; u64 interval=300*SEC; bool tainted_ret=false; int nprobe=0; std::vector<SC*> all;
  CrashRun(Ctx&c):c(c),g(c.g),w(c),h(w.host()),pool(c){}
  void boot(){ h.start(180*SEC); started=S.now; }
  SC* need(SC*x,bool clean){ if(x->up) return x; MProps p; if(x->ver==5&&!clean) p.sess_expiry=1000000; if(!x->connect(clean,p)) violation("answer","%s could not connect",x->id.c_str()); return x; }
  void settle(){ for(auto*x:all) if(x->up){ if(!x->ping()||!x->ping()) violation("close","%s got no PINGRESP (closed %d, disconnect reason %d)",x->id.c_str(),x->closed,x->got_disc); } quiet(100*MS,5*SEC,all); for(auto*x:ss) x->msgs.clear(); }
  std::string filler(Rng&r){ size_t n=r.chance(0.08)?r.below(60000):r.chance(0.3)?r.below(3000):r.below(40); std::string s; for(size_t i=0;i<n;i++) s+=(char)r.below(256); return s; }
  // expected effect on sessions of a publish; connected clients take theirs
  void queued(const std::string&t,const std::string&pl,int q){ for(auto&s:ses){ SC*x=nullptr; for(auto*y:ss) if(y->id==s.first) x=y; if(x->up) continue; for(auto&f:s.second.subs) if(topic_matches(f.first,t)){ int e=std::min(q,f.second); if(e) s.second.queue.push_back(strf("%d %s ",e,t.c_str())+pl); } } }
  void mutate(Rng&r){ int n=1+r.below(12); for(int i=0;i<n;i++) switch(r.below(10)){
      case 0: case 1: case 2: case 3:{ need(wr,true); int k=r.chance(0.1)?1+r.below(150):1+r.below(3); for(int j=0;j<k;j++){ std::string t=strf("r/%d",(int)r.below(k>3?200:12)); if(r.chance(0.2)){ if(wr->pub(t,"",1,true)!=0x10&&wr->reason) {} ret.erase(t); } else { RM m{strf("%d:",++uid)+filler(r),1+(int)r.below(2),r.chance(0.2)?"ct"+strf("%d",uid):""}; MProps p; if(!m.ct.empty()) p.content_type=m.ct; if(wr->pub(t,m.payload,m.qos,true,p)<0) violation("answer","retained publish was not acknowledged"); ret[t]=m; } } break; }
      case 4: case 5:{ SC*x=ss[r.below(ss.size())]; bool was=x->up; if(!was){ need(x,false); bool want=ses.count(x->id); if(x->sp!=want) violation("session","%s: session present is %d, expected %d",x->id.c_str(),x->sp,want); if(!want) ses[x->id]=SesM(); take(x); } 
        int k=1+r.below(3); for(int j=0;j<k;j++){ std::string f=FLT[r.below(9)]; if(r.chance(0.25)){ x->unsub({f}); ses[x->id].subs.erase(f); } else { int q=r.below(3); auto v=x->sub({Sub{f,q}}); if(v.size()!=1||v[0]!=q) violation("answer","SUBSCRIBE was not granted"); ses[x->id].subs[f]=q; } } if(r.chance(0.7)) offline(x,r); break; }
      case 6: case 7: case 8:{ need(wr,true); int k=1+r.below(r.chance(0.1)?40:4); for(int j=0;j<k;j++){ std::string t=TOP[r.below(5)]; int q=1+r.below(2); std::string pl=strf("%d:",++uid)+filler(r).substr(0,1500); int rc=wr->pub(t,pl,q); if(rc<0) violation("answer","publish was not acknowledged"); queued(t,pl,q); } break; }
      case 9:{ SC*x=ss[r.below(ss.size())]; if(r.chance(0.3)){ if(x->up) offline(x,r); need(x,true); ses.erase(x->id); if(x->ver==5){ x->disc(); } else x->disc(); sleep_ns(50*MS); } else if(x->up) offline(x,r); break; } }
    settle(); }
  void offline(SC*x,Rng&r){ settle(); if(r.chance(0.5)) x->disc(); else x->drop(2+r.below(2)); sleep_ns(60*MS); }
  // the session of x was just resumed: its queue comes
  void take(SC*x){ x->ping(); quiet(100*MS,10*SEC,{x}); x->ping(); auto&q=ses[x->id].queue; std::vector<std::string> got; for(auto&m:x->msgs) got.push_back(strf("%d %s ",m.qos,m.topic.c_str())+m.payload); if(got!=q) violation("loss","%s: its session had %zu messages queued, received %zu%s",x->id.c_str(),q.size(),got.size(),got.size()==q.size()?" (different)":""); q.clear(); x->msgs.clear(); }
  void snap(){ snaps.push_back({ret,ses}); }
  static std::string diff(const RetM&a,const RetM&b){ std::string s; for(auto&x:a){ auto it=b.find(x.first); if(it==b.end()) s+=" missing "+x.first; else if(!(it->second==x.second)) s+=" differs "+x.first+strf(" (%.20s, not %.20s)",it->second.payload.c_str(),x.second.payload.c_str()); } for(auto&x:b) if(!a.count(x.first)) s+=" extra "+x.first; return s.substr(0,300); }
  static std::string diff(const SessM&a,const SessM&b){ std::string s; for(auto&x:a){ auto it=b.find(x.first); if(it==b.end()){ s+=" missing session "+x.first; continue; } if(it->second.subs!=x.second.subs) s+=strf(" %s: %zu subscriptions, not %zu",x.first.c_str(),it->second.subs.size(),x.second.subs.size()); if(it->second.queue!=x.second.queue) s+=strf(" %s: %zu queued, not %zu",x.first.c_str(),it->second.queue.size(),x.second.queue.size()); } for(auto&x:b) if(!a.count(x.first)) s+=" extra session "+x.first; return s.substr(0,300); }
  // read everything the broker has, and find it among the snapshots
  void verify(bool any_ret=false,bool any_ses=false){ for(auto*x:all){ x->closed=true; x->up=false; x->no++; x->msgs.clear(); } need(probe,true); probe->sub({{"r/#",2}}); probe->ping(); quiet(3*SEC,60*SEC,{probe}); RetM gr; for(auto&m:probe->msgs){ if(!m.retain) violation("content","a message for topic %s came without the retain flag",m.topic.c_str()); if(gr.count(m.topic)) violation("duplicate","retained message of %s came twice",m.topic.c_str()); gr[m.topic]=RM{m.payload,m.qos,m.p.content_type.value_or("")}; } probe->msgs.clear(); probe->disc();
    int found=-1; for(int i=snaps.size()-1;i>=(int)(any_ret?0:lo);i--) if(snaps[i].ret==gr){ found=i; break; } if(found<0&&any_ret&&gr.empty()) found=-2; 
    if(found==-1){ for(int i=(int)lo-1;i>=0;i--) if(snaps[i].ret==gr) violation("loss","retained messages are those of save %d, but save %zu was complete (of %zu)",i,lo,snaps.size()-1); violation("loss","retained messages after the restart (%zu) are those of no save: against the last complete one (save %zu of %zu):%s; against the last one:%s",gr.size(),lo,snaps.size()-1,diff(snaps[lo].ret,gr).c_str(),diff(snaps.back().ret,gr).c_str()); }
    S.probe(found==-2?"ret_reset":found==(int)snaps.size()-1?"ret_newest":"ret_earlier"); ret=gr;
    // sessions
    std::map<std::string,bool> present; SessM got; for(auto*x:ss){ need(x,false); present[x->id]=x->sp; } for(auto*x:ss) x->ping(); quiet(300*MS,20*SEC,ss); for(auto*x:ss) x->ping(); quiet(100*MS,20*SEC,ss);
    for(auto*x:ss){ auto&q=got[x->id].queue; for(auto&m:x->msgs) q.push_back(strf("%d %s ",m.qos,m.topic.c_str())+m.payload); x->msgs.clear(); }
    need(wr,true); std::map<std::string,std::multiset<std::string>> pr; for(auto*t:TOP) if(wr->pub(t,strf("probe %d",++nprobe),2)<0) violation("answer","probe publish was not acknowledged"); for(auto*x:ss) x->ping(); quiet(200*MS,20*SEC,ss); for(auto*x:ss) x->ping(); for(auto*x:ss){ for(auto&m:x->msgs) pr[x->id].insert(strf("%d ",m.qos)+m.topic); x->msgs.clear(); }
    auto fits=[&](const SessM&s){ for(auto*x:ss){ auto it=s.find(x->id); if((it!=s.end())!=present[x->id]) return false; if(it==s.end()){ if(!got[x->id].queue.empty()||!pr[x->id].empty()) return false; continue; } if(it->second.queue!=got[x->id].queue) return false; std::multiset<std::string> e; for(auto*t:TOP) for(auto&f:it->second.subs) if(topic_matches(f.first,t)) e.insert(strf("%d ",f.second)+t); if(e!=pr[x->id]) return false; } return true; };
    int fs=-1; for(int i=snaps.size()-1;i>=(int)(any_ses?0:lo);i--) if(fits(snaps[i].ses)){ fs=i; break; } SessM none; if(fs<0&&any_ses&&fits(none)) fs=-2;
    if(fs==-1){ for(int i=(int)lo-1;i>=0;i--) if(fits(snaps[i].ses)) violation("loss","sessions are those of save %d, but save %zu was complete (of %zu)",i,lo,snaps.size()-1); for(auto it=got.begin();it!=got.end();) if(!present[it->first]) it=got.erase(it); else { if(snaps[lo].ses.count(it->first)) it->second.subs=snaps[lo].ses[it->first].subs; ++it; } violation("loss","sessions after the restart are those of no save: against the last complete one (save %zu of %zu):%s",lo,snaps.size()-1,diff(snaps[lo].ses,got).c_str()); }
    S.probe(fs==-2?"ses_reset":fs==(int)snaps.size()-1?"ses_newest":"ses_earlier"); SessM ns; for(auto*x:ss){ SesM m; if(fs>=0&&snaps[fs].ses.count(x->id)) m.subs=snaps[fs].ses[x->id].subs; ns[x->id]=m; } 
    // what's on disk
    Snap disk; disk.ret=gr; if(fs>=0) disk.ses=snaps[fs].ses; ses=ns; snaps.clear(); snaps.push_back(disk); lo=0; }
  void fault_plan(Rng&r,std::string&what,bool crashes){ auto&d=h.disk; int k=r.below(crashes?10:6); DiskFault f; static const char*OPS[]={"open","write","fsync","rename","read","fsyncdir","close"}; static const int ERR[]={EIO,ENOSPC,EDQUOT,EACCES,EROFS,EINTR};
    if(k<4){ f.op=OPS[r.below(6)]; f.action=0; f.err=f.op=="read"||f.op=="fsync"?EIO:ERR[r.below(5)]; f.nth=r.chance(0.5)?r.below(3):r.below(12); f.repeat=r.chance(0.4)?1000:1+r.below(3); what=strf("%s fails with %s from %d, %d times",f.op.c_str(),strerror(f.err),(int)f.nth,f.repeat); d.faults.push_back(f); }
    else if(k==4){ f.op="write"; f.action=1; f.nth=r.below(12); f.repeat=1+r.below(20); what="short writes"; d.faults.push_back(f); }
    else if(k==5){ d.free_bytes=r.chance(0.3)?0:r.below(r.chance(0.5)?3000:60000); what=strf("%lu bytes of space left",(unsigned long)d.free_bytes); }
    else { if(r.chance(0.6)) f.op=OPS[r.below(7)]; f.action=2+r.below(4); f.nth=f.op.empty()?r.below(40):f.op=="write"?r.below(12):r.below(4); what=strf("crash (%s) %s disk operation %d %s",f.action>=4?"machine":"process",f.action&1?"after":"before",(int)f.nth,f.op.c_str()); d.faults.push_back(f);
      if(r.chance(0.2)){ DiskFault e; e.op=r.chance(0.5)?"fsync":"write"; e.err=EIO; e.nth=r.below(4); d.faults.insert(d.faults.begin(),e); what+=", after a failing "+e.op; } } }
  bool faults_left(){ return false; }
  u64 injected(){ u64 n=0; for(auto k:{F_FSYNC,F_RENAME,F_OPEN,F_READ_EIO,F_DISK_ENOSPC,F_DISK_EIO}) n+=S.st.faults[k]; return n; }
  void clear_faults(){ h.disk.faults.clear(); h.disk.free_bytes=UINT64_MAX; h.disk.full=false; }
  void restart(Rng&r){ // with possibly a fault while loading, and possibly a file damaged meanwhile
    Rng q=r; bool dmg_ret=false,dmg_ses=false; (void)q;
    if(g_damage&&r.chance(0.25)){ bool re=r.chance(0.5); std::string p=strf("/sim/h%d/db/%s",h.idx,re?"retained.db":"sessions.db"); if(h.disk.exists(p)){ std::string d=h.disk.read(p),o=d; size_t H=find_header(d); int k=r.below(4); if(k==0) d.resize(r.chance(0.3)?0:r.below(d.size())); else if(k==1&&d.size()>H) d[H-64+r.below(d.size()-H+64)]^=1<<r.below(8); else if(k==2&&d.size()>H+8){ size_t a=H+r.below(d.size()-H),n=1+r.below(200); for(size_t i=a;i<d.size()&&i<a+n;i++) d[i]=0; } else d+=std::string(1+r.below(3000),(char)r.below(256)); if(d!=o){ h.disk.write(p,d); (re?dmg_ret:dmg_ses)=true; S.probe("file_damaged"); tr("DAMAGE %s kind %d size %zu of %zu",p.c_str(),k,d.size(),o.size()); } } }
    if(g_loadfault&&r.chance(0.25)){ DiskFault f; f.op="read"; f.match="/db/"; f.err=EIO; f.nth=r.below(6); f.repeat=r.chance(0.5)?1000000:1; h.disk.faults.push_back(f); S.probe("load_fault"); h.start(600*SEC,false); if(!h.up()&&!h.in->exited) violation("hang","the broker neither started nor ended within 600 s of simulated time while reads of its state files failed"); clear_faults(); if(h.up()){ h.kill(false); sleep_ns(10*MS); if(S.instances.size()>10){} } sleep_ns(10*MS); }
    int tries=0; while(!h.start(180*SEC,false)){ if(!h.in->exited) violation("start","the broker neither started nor ended within 180 s"); if(++tries>(dmg_ret||dmg_ses?1:0)){ std::string l=h.disk.read(strf("/sim/h%d/log",h.idx)); if(l.size()>500) l=l.substr(l.size()-500); violation("start","the broker does not start (attempt %d%s), exit code %d: %s %s",tries,dmg_ret||dmg_ses?", a state file was damaged":"",h.in->exit_code,h.in->console.substr(0,200).c_str(),l.c_str()); } } started=S.now;
    if(dmg_ret||dmg_ses){ bool aside=false; for(auto&x:h.disk.live) if(x.first.find(".corrupt.")!=std::string::npos) aside=true; if(!aside) violation("start","a damaged state file was not moved aside"); }
    verify(dmg_ret,dmg_ses); }
  static size_t find_header(const std::string&d){ return std::min<size_t>(d.size(),32+64); }
  bool g_damage=false,g_loadfault=false;
  void run(){ swarm(c,w); int nt=1+g.below(3); h.opt("thread_count",strf("%d",nt)); interval=(300+g.below(20))*SEC; h.opt("save_state_interval",strf("%d",(int)(interval/SEC))); h.opt("max_qos_msg_pending_per_client","5000"); h.opt("max_qos_bytes_pending_per_client","50000000"); h.opt("client_max_write_buffer_size","4194304"); h.opt("log_level",g.chance(0.5)?"debug":"info"); NP=NetParams(); if(g.chance(0.3)){ h.disk.p_delay=0.3; h.disk.delay_max=g.logrange(10*US,50*MS); }
    g_damage=c.feature("damage",g.chance(0.3)); g_loadfault=c.feature("load_faults",g.chance(0.3)); bool crashes=c.feature("crashes",g.chance(0.8)); bool faults=c.feature("disk_faults",g.chance(0.9)); bool busy=false; (void)busy;
    wr=pool.make("writer",5,h); probe=pool.make("probe",5,h); int n=1+g.below(4); for(int i=0;i<n;i++) ss.push_back(pool.make(strf("s%d",i),g.chance(0.7)?5:4,h)); all=ss; all.push_back(wr); all.push_back(probe);
    boot(); snap(); OpList ops(c); int rounds=2+g.below(4);
    for(int k=0;k<rounds;k++){ if(k) for(int j=0;j<(g.chance(0.2)?0:1);j++) ops.add("changes",[this](Rng&r){ mutate(r); }); else ops.add("changes",[this](Rng&r){ mutate(r); });
      bool f=faults&&g.chance(0.7); bool intv=g.chance(0.5); int after=g.below(4); 
      ops.add(strf("%s save%s, then %s",intv?"interval":"final",f?" with a fault":"",after==0&&intv?"on":after==1?"process crash":after==2?"machine crash":"stop"),[this,f,intv,after,crashes](Rng&r){ if(S.instances.size()>10) return; settle(); snap(); std::string what="no fault"; u64 inj=injected(); if(f) fault_plan(r,what,crashes); tr("SAVE %zu %s: %s",snaps.size()-1,intv?"interval":"final",what.c_str());
        if(intv){ u64 next=started+interval*((S.now-started)/interval+1); if(next-S.now<2*SEC) next+=interval; wait_until([&]{ return h.in->exited; },next-S.now+20*SEC); if(h.in->exited){ if(h.in->exit_code!=-9) violation("crash","the broker ended with code %d during a save (%s)",h.in->exit_code,what.c_str()); clear_faults(); S.probe("crashed_in_save"); sleep_ns(10*MS); restart(r); return; }
          clear_faults(); bool clean=injected()==inj; if(clean) lo=snaps.size()-1; else S.probe("failed_save"); settle(); 
          if(after==0) return; 
          if(r.chance(0.3)){ mutate(r); } if(after==1||after==2){ if(crashes){ if(r.chance(0.3)){ /* in the middle of another save */ snap(); u64 nx=started+interval*((S.now-started)/interval+1); if(nx>S.now) sleep_ns(nx-S.now+r.logrange(10*US,SEC)); S.probe("crash_near_save"); } tr("CRASH %d",after); if(!h.in->exited) h.kill(after==2); sleep_ns(10*MS); restart(r); } return; }
          snap(); }
        if(!intv&&f){} bool ok=h.stop(); if(!ok) violation("shutdown","the broker did not stop within 120 s (%s)",what.c_str()); if(h.in->exit_code&&h.in->exit_code!=-9) violation("shutdown","the broker ended with code %d on a stop (%s)",h.in->exit_code,what.c_str()); bool clean=h.in->exit_code!=-9&&(intv||injected()==inj); if(clean) lo=snaps.size()-1; else S.probe(h.in->exit_code==-9?"crashed_in_save":"failed_save"); clear_faults(); sleep_ns(10*MS); if(after==2&&crashes&&!h.in->alive){ h.disk.machine_crash(); S.fault(F_CRASH_MACHINE); } restart(r); }); }
    ops.run(); clear_faults(); if(S.instances.size()<=14){ settle(); snap(); if(!h.stop()) violation("shutdown","the broker did not stop within 120 s"); if(h.in->exit_code) violation("shutdown","the broker ended with code %d",h.in->exit_code); lo=snaps.size()-1; if(g.chance(0.3)) h.disk.machine_crash(); boot(); verify(); h.stop(); } }
};
}
SCENARIO(crash){ CrashRun r(c); r.run(); }
