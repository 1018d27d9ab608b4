#include "mix.h"
namespace sim {
void OpList::run(){ for(size_t i=0;i<f.size();i++){ if(!c.keep(i)) continue; Rng r; r.seed(seeds[i]); tr("--- op %zu %s",i,c.desc[i].c_str()); f[i](r); c.executed++; if(gap[i]<0.45){ u64 d=gap[i]<0.15?300*US:gap[i]<0.3?4*MS:40*MS; sleep_ns(d); } } }
void add_tls(World&,Host&h){ h.disk.write("/sim/cert.pem",tls_cert); h.disk.write("/sim/key.pem",tls_key); h.disk.sync_all(); }
void add_listeners(World&w,Host&h){ h.blocks.push_back("listen {\n protocol websockets\n port 8080\n inet_protocol ip4\n}"); h.blocks.push_back("listen {\n protocol mqtt\n port 1884\n haproxy on\n inet_protocol ip4\n}"); add_tls(w,h); h.blocks.push_back("listen {\n protocol mqtt\n port 8883\n fullchain /sim/cert.pem\n privkey /sim/key.pem\n inet_protocol ip4\n}"); h.blocks.push_back("listen {\n protocol websockets\n port 8884\n fullchain /sim/cert.pem\n privkey /sim/key.pem\n inet_protocol ip4\n}"); }
std::string sub_desc(const std::vector<Sub>&v){ std::string s; for(auto&x:v) s+=strf(" %s/q%d%s%s%s",x.filter.c_str(),x.qos,x.nolocal?"/nl":"",x.rap?"/rap":"",x.rh?strf("/rh%d",x.rh).c_str():""); return s; }
MProps rnd_props(Rng&r){ MProps p; if(r.chance(0.4)) p.content_type="ct/"+std::to_string(r.below(50)); if(r.chance(0.3)) p.response_topic="re/"+std::to_string(r.below(9)); if(r.chance(0.3)) p.corr=rnd_payload(r,1+r.below(r.chance(0.1)?300:20),false); if(r.chance(0.3)) p.payload_format=r.below(2); for(int k=r.below(4);k>0;k--) p.user.push_back({"k"+std::to_string(r.below(3)),rnd_payload(r,r.below(30),true)}); return p; }
void mix_calm(World&w){ S.sp.p_stall=std::min(S.sp.p_stall,0.001); for(auto&h:w.hosts) if(h->in){ auto&f=h->in->f; f.emfile=0; f.short_r=f.short_w=f.eagain=f.eintr=f.p_epoll_ctl=f.p_eventfd=f.p_socket=f.p_accept=f.p_dns=0; f.fd_full=false; }
  for(auto&x:w.cls){ w.hold(x.get(),false); if(x->connected()&&x->cur->m->paused) w.pause(x.get(),false); } }
void mix_end(World&w,bool stop){ mix_calm(w); w.resume_all(); w.quiesce(); w.final_check();
  if(stop) for(auto&h:w.hosts) if(h->in&&!h->in->exited){ w.shutdown_begins(*h); if(!h->stop()) violation("shutdown","broker %d did not end within 120 s of SIGTERM",h->idx); if(h->in->exit_code) violation("shutdown","broker %d ended with code %d after SIGTERM",h->idx,h->in->exit_code); } }
void run_mix(Ctx&c,const Prof&p){
  World w(c); swarm(c,w,p.own_net); Rng&g=c.g; Host&h=w.host(); 
  if(p.smallq<=0){ h.opt("max_qos_bytes_pending_per_client","400000"); w.queue_bytes=400000; }
  else if(c.feature("small_queues",g.chance(p.smallq))){ w.queue_limit=32+g.below(8); h.opt("max_qos_msg_pending_per_client",strf("%u",w.queue_limit)); if(g.chance(0.4)){ w.queue_bytes=4096+g.below(5000); h.opt("max_qos_bytes_pending_per_client",strf("%u",(unsigned)w.queue_bytes)); } }
  if(c.feature("tree_purge",g.chance(p.purge))){ h.opt("rebuild_subscription_tree_interval_seconds","1"); h.opt("subscription_node_lifetime","0"); }
  bool transports=c.feature("transports",g.chance(p.transports)); if(transports) add_listeners(w,h);
  int nc=g.range(p.nc_lo,p.nc_hi); bool v5only=g.chance(0.3); bool wills=c.feature("wills",g.chance(p.will)); bool retained=c.feature("retained",g.chance(std::min(1.0,p.retain*4))); bool sysf=c.feature("syscall_faults",g.chance(p.sys_faults)); bool aliases=c.feature("aliases",g.chance(p.alias*2)); bool sexp=c.feature("short_expiry",g.chance(p.short_expiry)); bool bigs=c.feature("large_payloads",g.chance(p.big*6)); bool holds=c.feature("held_acks",p.hold>0&&g.chance(0.8)); bool pauses=c.feature("reader_pauses",p.pause>0&&g.chance(0.8)); bool negrec=c.feature("negative_pubrec",g.chance(p.negrec*4)); bool trick=c.feature("trickle",g.chance(p.trickle*2));
  u16 bam=0; if(aliases&&g.chance(0.6)){ bam=1+g.below(5); h.opt("max_incoming_topic_alias_value",strf("%d",bam)); }
  for(int i=0;i<nc;i++){ double u=g.unit(); int ver=v5only||u<p.v5?5:u<p.v5+p.v3?3:4; Cl*x=w.client(strf("c%d",i+1),ver); x->persistent=ver!=3&&g.chance(p.persist); bool pe=x->persistent; if(ver==5&&pe) x->expiry=sexp&&g.chance(0.6)?2+g.below(25):g.chance(0.3)?0xFFFFFFFFu:3600; 
    u64 k=g.below(100); u64 rm=g.logrange(1,40), mp=200+g.below(2000); int al=g.below(8); if(ver==5){ if(k<100*p.recvmax) x->recv_max=rm; if(g.chance(p.maxpkt)) x->max_packet=mp; if(aliases&&g.chance(0.7)) x->alias_max=al; if(aliases) x->use_alias=g.chance(0.7); if(g.chance(0.3)&&negrec) x->neg_rec=30; }
    if(g.chance(p.ackdelay)) x->ack_delay=g.logrange(1*MS,3*SEC); if(trick&&g.chance(0.5)) x->trickle=true; int t=g.below(5); if(transports){ static const Transport T[]={TR_TCP,TR_WS,TR_HAPROXY,TR_TLS,TR_WSS}; static const int P[]={1883,8080,1884,8883,8884}; x->tr=T[t]; x->port=P[t]; if(t) S.probe(t==1?"tr_ws":t==2?"tr_haproxy":t==3?"tr_tls":"tr_wss"); } x->keepalive=g.chance(0.2)?0:20+g.below(100); }
  if(p.setup) p.setup(w);
  OpList ops(c); std::vector<std::string> topics=base_topics, filters=base_filters; if(p.sparse_topics||g.chance(0.3)){ topics={"t","t/u","t/u/v"}; filters={"t","t/u","t/#","+/u","#","t/u/v","t/+","+"}; }
  auto connop=[&](int i){ ops.add(strf("connect c%d",i+1),[&w,&c,&p,i,wills](Rng&r){ Cl*x=w.cls[i].get(); if(x->cur&&!x->cur->closed&&!x->cur->ignored&&!x->cur->established&&!x->cur->refused){ w.wait_connack(x); } bool was=x->connected(); bool clean=!x->persistent||r.chance(p.clean_again); if(x->ver==5&&x->persistent&&r.chance(p.altexp)) x->expiry=r.chance(0.3)?0:1+r.below(40); if(x->ver==5&&!x->persistent) clean=r.chance(0.7); std::optional<Will> wl; if(wills&&r.chance(0.6)){ Will z; z.topic=r.pick(base_topics); z.qos=r.below(3); z.retain=r.chance(0.2); z.payload=rnd_payload(r,r.below(30),true); if(x->ver==5&&r.chance(0.5)) z.p.will_delay=1+r.below(12); if(x->ver==5&&r.chance(0.3)) z.p.expiry=1+r.below(30); wl=z; } 
      w.connect(x,clean,wl); bool wait=clean||r.chance(0.7); c.desc[i]=c.desc[i]; if(wait&&!w.wait_connack(x,60*SEC)){ if(!w.allow_close&&!x->cur->closed) violation("stuck","CONNECT of %s not answered (closed %d refused %d reason %d)",x->id.c_str(),x->cur->closed,x->cur->refused,x->cur->reason); } (void)was; }); };
  int n=g.range(p.ops_lo,p.ops_hi); double tot=p.conn+p.disc+p.sub+p.unsub+p.pub+p.bar+p.pause+p.hold+p.dup+p.sleep+p.fault+p.ping+p.reload+p.restart; 
  for(int i=0;i<nc;i++) connop(i);
  for(int k=0;k<n;k++){ double u=g.unit()*tot; int i=g.below(nc); auto pick=[&](double wgt){ if(u<wgt) return true; u-=wgt; return false; }; int mid=c.desc.size();
    if(p.midway&&k==n/2){ ops.add("midway",[&](Rng&){ p.midway(w); }); }
    if(pick(p.conn)) connop(i);
    else if(pick(p.disc)) ops.add(strf("close c%d",i+1),[&w,&c,&p,i,mid](Rng&r){ Cl*x=w.cls[i].get(); if(!x->cur||x->cur->closed||x->cur->ignored) return; if(!x->cur->established){ if(x->cur->o.clean){ w.wait_connack(x,30*SEC); } } int kind=r.chance(0.4)?1:r.chance(0.5)?2:r.chance(1-p.vanish)?3:4; if(kind==4&&!x->keepalive) kind=2; if(x->tr==TR_TLS||x->tr==TR_WSS){ if(kind==1&&0) kind=2; } std::optional<u32> ne; if(x->ver==5&&kind==1&&x->cur->o.p.sess_expiry.value_or(0)&&r.chance(0.15)) ne=1+r.below(30); int reason=kind==1&&x->ver==5&&r.chance(0.2)?4:0; c.desc[mid]+=strf(" kind %d%s",kind,reason?" with will":""); w.disconnect(x,kind,reason,ne); });
    else if(pick(p.sub)) ops.add(strf("subscribe c%d",i+1),[&w,&c,&p,i,mid,filters](Rng&r){ Cl*x=w.cls[i].get(); if(!x->connected()) return; std::vector<Sub> v; std::set<std::string> seen; for(int q=1+(r.chance(0.3)?r.below(3):0);q>0;q--){ Sub s; s.filter=r.pick(filters); s.qos=r.below(3); s.nolocal=r.chance(p.nolocal); s.rap=r.chance(p.rap); s.rh=r.chance(p.rh)?r.below(3):0; if(!seen.insert(s.filter).second&&!r.chance(p.same_filter*20)) continue; v.push_back(s); } std::optional<u32> sid; if(r.chance(p.sid)) sid=1+r.below(r.chance(0.1)?268435455:200); c.desc[mid]+=sub_desc(v); w.subscribe(x,v,sid); });
    else if(pick(p.unsub)) ops.add(strf("unsubscribe c%d",i+1),[&w,&c,i,mid,filters](Rng&r){ Cl*x=w.cls[i].get(); if(!x->connected()) return; std::vector<std::string> v; auto&sb=x->sess->subs; if(!sb.empty()&&r.chance(0.8)){ auto it=sb.begin(); std::advance(it,r.below(sb.size())); v.push_back(it->first); } else v.push_back(r.pick(filters)); c.desc[mid]+=" "+v[0]; w.unsubscribe(x,v); });
    else if(pick(p.pub)) ops.add(strf("publish c%d",i+1),[&w,&c,&p,i,mid,topics,retained,bigs](Rng&r){ Cl*x=w.cls[i].get(); if(!x->connected()) return; int b=1+r.below(p.burst); std::string same=r.pick(topics); bool one=r.chance(0.6); int q1=r.chance(p.qos0)?0:1+r.below(2); for(int k=0;k<b;k++){ std::string t=one?same:r.pick(topics); int q=one&&r.chance(0.8)?q1:(r.chance(p.qos0)?0:1+r.below(2)); bool rt=retained&&r.chance(0.4); bool empty=rt&&r.chance(p.empty); MProps mp; if(x->ver==5&&r.chance(p.props)) mp=rnd_props(r); if(x->ver==5&&p.expiry>0&&r.chance(p.expiry)) mp.expiry=1+r.below(20); size_t ex=bigs&&r.chance(0.2)?r.logrange(500,p.big_max):r.below(40); if(x->cur->m->trickle) ex=std::min<size_t>(ex,200); int uid=w.publish(x,t,q,rt,&mp,ex,empty,&r); if(uid>0) c.desc[mid]+=strf(" %d:%s/q%d%s%s",uid,t.c_str(),q,rt?"r":"",empty?"-":""); } });
    else if(pick(p.bar)) ops.add(strf("barrier c%d",i+1),[&w,i](Rng&){ Cl*x=w.cls[i].get(); if(x->connected()&&!x->cur->m->paused) w.barrier(x); });
    else if(pick(p.pause)) ops.add(strf("pause/resume reading c%d",i+1),[&w,i,pauses](Rng&){ Cl*x=w.cls[i].get(); if(x->connected()&&pauses) w.pause(x,!x->cur->m->paused); });
    else if(pick(p.hold)) ops.add(strf("hold/release acks c%d",i+1),[&w,i,holds](Rng&){ Cl*x=w.cls[i].get(); if(holds) w.hold(x,!x->hold_acks); });
    else if(pick(p.dup)) ops.add(strf("resend c%d",i+1),[&w,i](Rng&r){ Cl*x=w.cls[i].get(); w.resend(x,r.below(1000)); });
    else if(pick(p.sleep)) { u64 d=g.logrange(1*MS,p.sleep_max); ops.add(strf("sleep %.3f s",d/1e9),[d](Rng&){ sleep_ns(d); }); }
    else if(pick(p.fault)) { double r1=g.unit()*0.3,r2=g.unit()*0.3,r3=g.unit()*0.2,r4=g.unit()*0.1; int which=g.below(3); ops.add("toggle short/EAGAIN/EINTR faults",[&h,sysf,which,r1,r2,r3,r4](Rng&){ if(!sysf||!h.in) return; auto&f=h.in->f; if(f.short_r>0||f.eagain>0){ f.short_r=f.short_w=f.eagain=f.eintr=0; return; } f.short_r=r1; f.short_w=r2; f.eagain=which?r3:0.01; f.eintr=r4; }); }
    else if(pick(p.restart)){ u64 d=g.chance(0.2)?0:g.logrange(10*MS,p.down_max); ops.add(strf("restart, %.3f s down",d/1e9),[&w,&h,d](Rng&){ if(h.up()&&S.instances.size()<12) w.restart(h,d); }); }
    else if(pick(p.reload)) ops.add("SIGHUP",[&h](Rng&){ if(h.up()) send_signal(h.in,1); });
    else ops.add(strf("ping c%d",i+1),[&w,i](Rng&){ w.ping(w.cls[i].get()); });
  }
  h.start(); ops.run(); if(p.finish) p.finish(w); if(p.settle){ mix_calm(w); w.resume_all(); w.quiesce(); for(int k=0;k<200;k++){ int a=0,b=0; for(auto&x:w.cls) a+=x->rx_publishes; sleep_ns(600*MS); for(auto&x:w.cls) b+=x->rx_publishes; if(a==b) break; } } mix_end(w);
}
}
