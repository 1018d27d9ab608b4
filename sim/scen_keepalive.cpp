// C11: keep-alive timeouts
#include "mix.h"
using namespace sim;
namespace { struct KA { Cl*x; bool live=true, zero=false; u64 period=0; bool silent=false; u64 silent_at=0; bool saw_close=false; }; }
static void live_tick(World*w,KA*k,Rng*r,Cn*mine=nullptr){ Cl*x=k->x; Cn*n=x->cur; if(!mine) mine=n; if(k->silent||!k->live||k->zero||mine!=n) return; if(n&&n->established&&!n->closed&&!n->ignored){ switch(r->below(6)){ case 0: w->publish(x,"n/"+x->id,r->below(3)); break; case 1: w->subscribe(x,{{"s/"+x->id,(int)r->below(3)}}); break; case 2: w->unsubscribe(x,{"s/"+x->id}); break; default: w->ping(x); } }
  u64 ka=(n&&n->connacked?n->o.keepalive:x->keepalive); u64 hi=ka*SEC*96/100-60*MS; u64 d=r->chance(0.3)?hi:ka*SEC*3/10+r->below(hi-ka*SEC*3/10); S.after(d,[=]{ live_tick(w,k,r,mine); }); }
SCENARIO(keepalive){ World w(c); swarm(c,w,0.4); Rng&g=c.g; Host&h=w.host(); bool transports=c.feature("transports",g.chance(0.4)); if(transports) add_listeners(w,h); w.chk_wills=true; S.sp.p_stall=std::min(S.sp.p_stall,0.002); h.opt("max_event_loop_drift","60000");
  bool stalls=c.feature("broker_stalls",g.chance(0.35)), jumps=c.feature("clock_jumps",g.chance(0.3)); if(stalls) w.will_slack+=80*SEC; u64 stalled=0; static Rng lr; lr.seed(c.seed*3+1);
  Cl*ob=w.client("ob",g.chance(0.5)?5:4); ob->keepalive=0; std::vector<std::unique_ptr<KA>> ks; int nc=2+g.below(5); bool wills=c.feature("wills",g.chance(0.6));
  for(int i=0;i<nc;i++){ Cl*x=w.client(strf("c%d",i+1),g.chance(0.5)?5:g.chance(0.2)?3:4); x->autoping=false; auto k=std::make_unique<KA>(); k->x=x; u64 u=g.below(10); if(u==0){ x->keepalive=0; k->zero=true; } else x->keepalive=x->ver==5?(g.chance(0.3)?1+g.below(5):5+g.below(g.chance(0.3)?60:12)):2+g.below(g.chance(0.3)?60:14); x->persistent=x->ver!=3&&g.chance(0.3); x->expiry=x->ver==5&&x->persistent?600:0; static const Transport T[]={TR_TCP,TR_WS,TR_HAPROXY,TR_TLS,TR_WSS}; static const int P[]={1883,8080,1884,8883,8884}; if(transports){ int t=g.below(5); x->tr=T[t]; x->port=P[t]; } ks.push_back(std::move(k)); }
  OpList ops(c); 
  struct Un { MC m; u64 last=0; std::string what; bool closed=false; u64 closed_at=0; }; static std::vector<std::shared_ptr<Un>> uns; uns.clear();
  h.start(); w.connect(ob,true); if(!w.wait_connack(ob,60*SEC)) violation("stuck","CONNECT not answered"); w.subscribe(ob,{{"will/#",1}}); w.barrier(ob);
  for(int i=0;i<nc;i++) ops.add(strf("connect c%d",i+1),[&w,&ks,i,wills](Rng&r){ Cl*x=ks[i]->x; std::optional<Will> wl; if(wills&&r.chance(0.7)){ Will z; z.topic="will/"+x->id; z.qos=r.below(2); z.payload="w"; if(x->ver==5&&r.chance(0.3)) z.p.will_delay=1+r.below(10); wl=z; } w.connect(x,!x->persistent,wl); if(!w.wait_connack(x,60*SEC)) violation("stuck","CONNECT of %s not answered (closed %d)",x->id.c_str(),x->cur->closed); w.subscribe(x,{{"t/#",0}}); ks[i]->live=true; ks[i]->silent=false; ks[i]->zero=x->cur->o.keepalive==0; live_tick(&w,ks[i].get(),&lr); });
  u64 t=0; u64 total=(45+g.below(120))*SEC; 
  while(t<total){ int what=g.below(14),i=g.below(nc),mid=c.desc.size(); (void)mid; u64 gap=g.logrange(50*MS,14*SEC); t+=gap;
    if(what<4) ops.add(strf("silence c%d",i+1),[&w,&ks,i](Rng&r){ KA*k=ks[i].get(); Cl*x=k->x; if(!x->connected()||k->zero||k->silent) return; k->silent=true; k->silent_at=S.now; if(r.chance(0.25)){ w.disconnect(x,4); S.probe("silent_vanish"); return; } if(r.chance(0.15)&&x->tr==TR_TCP){ k->silent=false; return; } x->quiet_close_ok=true; S.probe("silent_open"); if(Cn*n=x->cur; n->will_uid>=0){ World*wp=&w; u64 e=n->last_sent+(n->o.keepalive+n->o.keepalive/2)*SEC; S.at(e>S.now?e:S.now,[wp,n]{ for(auto&wr:wp->wills) if(wr.uid==n->will_uid&&wr.state==0) wp->msgs[wr.uid].s=++S.seq; }); } });
    else if(what<5) ops.add(strf("reconnect c%d",i+1),[&w,&ks,i](Rng&r){ KA*k=ks[i].get(); Cl*x=k->x; if(x->connected()) return; if(x->cur&&!x->cur->closed) return; x->quiet_close_ok=false; w.connect(x,!x->persistent); if(!w.wait_connack(x,60*SEC)) violation("stuck","CONNECT of %s not answered (closed %d)",x->id.c_str(),x->cur->closed); if(r.chance(0.8)) w.subscribe(x,{{"t/#",0}}); k->silent=false; if(!k->zero) live_tick(&w,k,&lr); });
    else if(what<8) ops.add("traffic to all",[&w,ob](Rng&r){ for(int q=1+r.below(5);q>0;q--) w.publish(ob,strf("t/%d",(int)r.below(3)),r.below(2)); });
    else if(what<10&&stalls){ int which=g.chance(0.4)?-1:(int)g.below(9); u64 d=g.logrange(500*MS,25*SEC); stalled=std::max(stalled,d); ops.add(strf("stall %s for %.1f s",which<0?"the process":"a thread",d/1e9),[&h,which,d](Rng&){ stall_threads(h.in,which,d); }); t+=d; }
    else if(what<11&&jumps){ i64 d=(g.chance(0.5)?1:-1)*(i64)g.logrange(1*SEC,100000*SEC); ops.add(strf("wall clock jumps %.0f s",d/1e9),[d](Rng&){ S.real_off+=d; S.fault(F_CLOCK_JUMP); }); }
    else if(what<13){ int kind=g.below(6); int tr=transports?g.below(5):0; ops.add(strf("connection without CONNECT, kind %d",kind),[kind,tr](Rng&r){ Harness hh; static const Transport T[]={TR_TCP,TR_WS,TR_HAPROXY,TR_TLS,TR_WSS}; static const int P[]={1883,8080,1884,8883,8884}; auto u=std::make_shared<Un>(); uns.push_back(u); u->last=S.now; bool rawtcp=kind<3; Transport t=rawtcp?TR_TCP:T[tr]; u->m=mc_open("10.0.0.1",P[tr],4,t,r.next(),"10.9.9.9"); u->what=strf("transport %d kind %d",tr,kind); u->m->no_parse=true; Un*up=u.get(); u->m->on_close=[up]{ up->closed=true; up->closed_at=S.now; };
        ConnectOpts o; o.ver=4; o.id="never"; std::string cp=enc_connect(o); size_t k=1+r.below(cp.size()-1); if(kind==1||kind==4){ mc_send(u->m,cp.substr(0,k)); } else if(kind==2||kind==5){ u64 at=0; for(size_t z=0;z<k;z++){ at+=r.below(3*SEC); u->last=S.now+at; auto m=u->m; std::string b=cp.substr(z,1); S.after(at,[m,b]{ mc_send(m,b); }); } } }); }
    ops.add("pass time",[gap](Rng&){ sleep_ns(gap); }); }
  // an upper bound for how late the inactivity may be noticed
  auto check=[&]{ for(auto&k:ks){ Cl*x=k->x; Cn*n=x->cur; if(!n||!n->established) continue; u64 ka=n->o.keepalive; u64 sil=n->last_sent; u64 bound=std::max(sil+ka*SEC*3/2+16*SEC,n->established_at+44*SEC)+stalled*2; if(k->silent&&!n->closed&&!n->ignored&&S.now>bound) violation("keepalive","%s: keep-alive %d, silent for %.1f s, still connected",w.cn_name(n).c_str(),(int)ka,(S.now-sil)/1e9); } for(auto&u:uns) if(!u->closed&&S.now>u->last+80*SEC+stalled*2) violation("keepalive","a connection without CONNECT (%s) is still open %.1f s after its last byte",u->what.c_str(),(S.now-u->last)/1e9); };
  std::function<void()> tick; tick=[&]{ check(); S.after(SEC,[&]{ tick(); }); }; 
  for(auto&k:ks){ Cl*x=k->x; (void)x; }
  ops.run(); 
  // closed too early?
  bool any=true; u64 t0=S.now; while(any&&S.now<t0+400*SEC){ any=false; check(); for(auto&k:ks){ Cn*n=k->x->cur; if(k->silent&&n&&n->established&&!n->closed&&!n->ignored) any=true; } for(auto&u:uns) if(!u->closed) any=true; if(any) sleep_ns(2*SEC); }
  check();
  for(auto&n:w.cns){ Cl*x=n->cl; if(x==ob||!n->established||n->close_kind!=6) continue; u64 ka=n->o.keepalive; if(n->close_at<n->last_sent+(ka+ka/2)*SEC-2*MS) violation("keepalive","%s: keep-alive %d, closed %.2f s after its last packet",w.cn_name(n.get()).c_str(),(int)ka,(n->close_at-n->last_sent)/1e9); if(ka==0) violation("keepalive","%s: closed although its keep-alive is 0",w.cn_name(n.get()).c_str()); S.probe("keepalive_closed"); }
  sleep_ns(stalls?110*SEC:30*SEC); mix_end(w); }
