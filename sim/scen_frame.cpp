// C17: segmentation, framing, transports and buffer sizes
#include "mix.h"
using namespace sim;
static void pick_transport(Rng&g,Cl*x){ static const Transport T[]={TR_TCP,TR_WS,TR_HAPROXY,TR_TLS,TR_WSS}; static const int P[]={1883,8080,1884,8883,8884}; int t=g.below(5); x->tr=T[t]; x->port=P[t]; }
SCENARIO(mix_frame){ Prof p; p.transports=0.85; p.trickle=0.5; p.big=0.16; p.props=0.5; p.own_net=1; p.sys_faults=1; p.fault=6; p.pause=4; p.conn=10; p.disc=8; run_mix(c,p); }
// packets around the sizes at which buffers fill, grow and wrap
SCENARIO(frame_edge){ World w(c); swarm(c,w,1); Rng&g=c.g; Host&h=w.host(); add_listeners(w,h); u32 wb=4096u<<g.below(6); u32 mp=g.chance(0.5)?4096u<<g.below(6):3000+g.below(120000); if(NP.snd_cap<1000||NP.rx_cap<1000||(NP.p_seg>0&&NP.seg_max<64)){ if(mp>16384) mp=g.chance(0.5)?16384:9000+g.below(8000); if(wb>16384) wb=8192; } u32 ib=64u<<g.below(6); h.opt("client_max_write_buffer_size",strf("%u",wb)); h.opt("max_packet_size",strf("%u",mp)); h.opt("client_initial_buffer_size",strf("%u",ib)); h.opt("max_qos_bytes_pending_per_client","40000000"); w.queue_bytes=40000000; w.q0_must=false;
  int nc=2+g.below(3); for(int i=0;i<nc;i++){ Cl*x=w.client(strf("c%d",i+1),g.chance(0.6)?5:4); if(g.chance(0.8)) pick_transport(g,x); if(g.chance(0.1)) x->trickle=true; x->persistent=g.chance(0.3); x->expiry=x->persistent&&x->ver==5?3600:0; if(g.chance(0.3)) x->use_alias=true; x->alias_max=g.below(3); x->keepalive=0; if(g.chance(0.2)) x->ack_delay=g.below(100*MS); }
  bool sysf=c.feature("syscall_faults",g.chance(0.5)); double r1=g.unit()*0.4,r2=g.unit()*0.4,r3=g.unit()*0.2,r4=g.unit()*0.1;
  h.start(); if(sysf){ auto&f=h.in->f; f.short_r=r1; f.short_w=r2; f.eagain=r3; f.eintr=r4; }
  for(auto&x:w.cls){ w.connect(x.get(),!x->persistent); if(!w.wait_connack(x.get(),60*SEC)) violation("stuck","CONNECT of %s not answered",x->id.c_str()); w.subscribe(x.get(),{{"a/#",(int)g.below(3)},{"b",(int)g.below(3)}}); }
  OpList ops(c); int n=4+g.below(16); bool pauses=c.feature("reader_pauses",g.chance(0.6));
  for(int k=0;k<n;k++){ int i=g.below(nc),mid=c.desc.size(); int what=g.below(12);
    if(what==0&&pauses) ops.add(strf("pause/resume c%d",i+1),[&w,i](Rng&){ Cl*x=w.cls[i].get(); if(x->connected()) w.pause(x,!x->cur->m->paused); });
    else if(what==1){ u64 d=g.logrange(1*MS,2*SEC); ops.add("sleep",[d](Rng&){ sleep_ns(d); }); }
    else if(what==2) ops.add(strf("ping c%d",i+1),[&w,i](Rng&){ w.ping(w.cls[i].get()); });
    else ops.add(strf("publish c%d",i+1),[&w,&c,i,mid,mp,wb,ib](Rng&r){ Cl*x=w.cls[i].get(); if(!x->connected()) return; int b=r.chance(0.3)?1+r.below(6):1; for(int k=0;k<b;k++){ std::string t=r.chance(0.5)?"a/b":"b"; int q=r.below(3); u64 z; switch(r.below(6)){ case 0: z=r.below(200); break; case 1: z=mp-r.below(64); break; case 2: { u64 q2=64ull<<r.below(12); z=q2-40+r.below(60); break; } case 3: z=wb-40+r.below(60); break; case 4: z=ib*(1+r.below(4))+r.below(20); break; default: z=r.logrange(10,mp); } size_t ov=2+t.size()+2+5+(x->ver==5?1+3:0)+12; if(z+ov>mp) z=mp-ov-r.below(3); if(x->trickle&&z>400) z=r.below(400); int uid=w.publish(x,t,q,false,nullptr,z>12?z-12:z,false,&r); if(uid>0) c.desc[mid]+=strf(" %d:%s/q%d(%zu)",uid,t.c_str(),q,w.msgs[uid].payload.size()); } }); }
  ops.run(); mix_end(w); }
// packets interrupted for seconds, on connections whose buffers have grown and are shrunk by maintenance
SCENARIO(frame_idle){ Prof p; p.nc_lo=2; p.nc_hi=4; p.ops_lo=25; p.ops_hi=60; p.transports=0.4; p.big=0.16; p.big_max=8000; p.pub=40; p.sleep=26; p.sleep_max=16*SEC; p.conn=2; p.disc=2; p.persist=0.6; p.qos0=0.3; p.setup=[&](World&w){ for(auto&x:w.cls){ if(c.g.chance(0.75)){ x->keepalive=5+c.g.below(8); x->gap_max=x->keepalive*SEC*8/10; x->trickle=false; } } }; run_mix(c,p); }
