#include "simple.h"
namespace sim {
SC* Pool::make(const std::string&id,int ver,Host&h,int port){ auto*x=new SC; v.emplace_back(x); x->id=id; x->ver=ver; x->ip=h.ip; x->my_ip=strf("10.9.0.%d",(int)v.size()); x->port=port?port:h.port; x->rs=c.seed*31+v.size()*7919; return x; }
void SC::open(bool clean,const MProps&p,std::optional<Will> will){ Harness hh; if(m&&!closed) mc_close(m); up=answered=sp=closed=false; reason=-1; got_disc=-1; in.clear(); if(clean) rec.clear(); o.ver=ver; o.id=id; o.clean=clean; o.p=p; o.will=will; if(o.keepalive==60) o.keepalive=60000; no++;
  m=mc_open(ip,port,ver,tr,rs+no*31,my_ip); int n=no; 
  m->on_packet=[this,n](Packet&p){ Harness hh; if(n!=no) return; last=S.now; if(tap) tap(p);
    switch(p.type){ case CONNACK: answered=true; reason=p.reason; sp=p.session_present; cp=p.p; if(cp.assigned_id) id=*cp.assigned_id; up=p.reason==0; break;
      case PUBLISH: msgs.push_back(p); if(autoack&&p.qos==1) mc_send(m,enc_ack(ver,PUBACK,p.id)); if(autoack&&p.qos==2) mc_send(m,enc_ack(ver,PUBREC,p.id)); break;
      case PUBREL: if(autoack) mc_send(m,enc_ack(ver,PUBCOMP,p.id)); break;
      case PUBREC: if(rec.count(p.id)&&p.reason<0x80) mc_send(m,enc_ack(ver,PUBREL,p.id)); rec.erase(p.id); in.push_back(p); break;
      case DISCONNECT: got_disc=p.reason; break;
      default: in.push_back(p); } };
  m->on_close=[this,n]{ if(n!=no) return; closed=true; up=false; };
  m->on_malformed=[this](const std::string&e){ violation("wire","%s received something malformed: %s",id.c_str(),e.c_str()); };
  mc_send(m,enc_connect(o)); }
bool SC::connect(bool clean,const MProps&p,u64 to,std::optional<Will> will){ open(clean,p,will); wait_until([&]{ return answered||closed; },to); return up; }
bool SC::wait(int type,u16 pid,u64 to,Packet*out){ bool ok=false; wait_until([&]{ for(auto it=in.begin();it!=in.end();++it) if(it->type==type&&(it->id==pid||type==PINGRESP)){ if(out) *out=*it; in.erase(it); ok=true; return true; } return closed; },to); return ok; }
std::vector<int> SC::sub(const std::vector<Sub>&v,std::optional<u32> sid,u64 to){ if(!up) return {}; u16 i=next(); { Harness hh; mc_send(m,enc_subscribe(ver,i,v,ver==5?sid:std::nullopt)); } Packet p; if(!wait(SUBACK,i,to,&p)) return {}; return p.reasons; }
bool SC::unsub(const std::vector<std::string>&v,u64 to){ if(!up) return false; u16 i=next(); { Harness hh; mc_send(m,enc_unsubscribe(ver,i,v)); } return wait(UNSUBACK,i,to); }
int SC::pub(const std::string&t,const std::string&pl,int q,bool r,const MProps&p,u64 to){ if(!up) return -1; u16 i=q?next():0; { Harness hh; if(q==2) rec[i]=true; mc_send(m,enc_publish(ver,t,pl,q,r,false,i,p)); } if(!q) return 0; Packet a; if(q==1) return wait(PUBACK,i,to,&a)?a.reason:-1; 
  int res=-1; wait_until([&]{ for(auto it=in.begin();it!=in.end();++it) if(it->id==i&&(it->type==PUBCOMP||(it->type==PUBREC&&it->reason>=0x80))){ res=it->reason; in.erase(it); return true; } return closed; },to); for(auto it=in.begin();it!=in.end();) if(it->type==PUBREC&&it->id==i) it=in.erase(it); else ++it; return res; }
bool SC::ping(u64 to){ if(!up) return false; { Harness hh; mc_send(m,frame(PINGREQ,0,"")); } return wait(PINGRESP,0,to); }
void SC::disc(int rc){ Harness hh; if(!m||closed) return; mc_send(m,enc_disconnect(ver,rc)); mc_close(m); closed=true; up=false; no++; }
void SC::drop(int k){ Harness hh; if(!m||closed) return; if(k==2) mc_reset(m); else if(k==4) mc_vanish(m); else mc_close(m); closed=true; up=false; no++; }
bool quiet(u64 span,u64 to,const std::vector<SC*>&cs){ u64 end=S.now+to; for(;;){ u64 l=0; for(auto*x:cs) l=std::max(l,x->last); u64 t=l+span; if(S.now>=t) return true; if(S.now>=end) return false; sleep_ns(std::min(t,end)-S.now); } }
}
