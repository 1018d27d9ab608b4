#include "mqtt.h"
#include "tls.h"
namespace sim {
const char* ptype_names[16]={"?","CONNECT","CONNACK","PUBLISH","PUBACK","PUBREC","PUBREL","PUBCOMP","SUBSCRIBE","SUBACK","UNSUBSCRIBE","UNSUBACK","PINGREQ","PINGRESP","DISCONNECT","AUTH"};
std::string enc_varint(u32 v){ std::string s; do{ u8 b=v&127; v>>=7; if(v) b|=128; s+=(char)b; }while(v); return s; }
std::string enc_u16(u16 v){ std::string s; s+=(char)(v>>8); s+=(char)v; return s; }
static std::string enc_u32(u32 v){ return enc_u16(v>>16)+enc_u16(v); }
std::string enc_str(const std::string&s){ return enc_u16(s.size())+s; }
std::string frame(int t,int f,const std::string&b){ std::string s; s+=(char)(t<<4|f); return s+enc_varint(b.size())+b; }
std::string MProps::enc() const { std::string s; auto b1=[&](int id,const std::optional<u8>&v){ if(v){ s+=(char)id; s+=(char)*v; } }; auto b2=[&](int id,const std::optional<u16>&v){ if(v){ s+=(char)id; s+=enc_u16(*v);} }; auto b4=[&](int id,const std::optional<u32>&v){ if(v){ s+=(char)id; s+=enc_u32(*v);} }; auto st=[&](int id,const std::optional<std::string>&v){ if(v){ s+=(char)id; s+=enc_str(*v);} };
  b1(1,payload_format); b4(2,expiry); st(3,content_type); st(8,response_topic); st(9,corr); for(u32 x:sub_ids){ s+=(char)11; s+=enc_varint(x);} b4(17,sess_expiry); st(18,assigned_id); b2(19,server_keepalive); st(21,auth_method); st(22,auth_data); b1(23,req_problem); b4(24,will_delay); b1(25,req_response); st(26,response_info); st(28,server_ref); st(31,reason); b2(33,recv_max); b2(34,alias_max); b2(35,alias); b1(36,max_qos); b1(37,retain_avail); for(auto&u:user){ s+=(char)38; s+=enc_str(u.first)+enc_str(u.second);} b4(39,max_packet); b1(40,wildcard_avail); b1(41,subid_avail); b1(42,shared_avail); return enc_varint(s.size())+s; }
std::string enc_connect(const ConnectOpts&o){ std::string b=o.ver==3?enc_str("MQIsdp"):enc_str("MQTT"); b+=(char)o.ver; int f=0; if(o.clean) f|=2; if(o.will) f|=4|(o.will->qos<<3)|(o.will->retain?32:0); if(o.pass) f|=64; if(o.user) f|=128; b+=(char)f; b+=enc_u16(o.keepalive); if(o.ver==5) b+=o.p.enc(); b+=enc_str(o.id); if(o.will){ if(o.ver==5) b+=o.will->p.enc(); b+=enc_str(o.will->topic)+enc_str(o.will->payload);} if(o.user) b+=enc_str(*o.user); if(o.pass) b+=enc_str(*o.pass); return frame(CONNECT,0,b); }
std::string enc_subscribe(int ver,u16 id,const std::vector<Sub>&v,std::optional<u32> sid){ std::string b=enc_u16(id); if(ver==5){ MProps p; if(sid) p.sub_ids={*sid}; b+=p.enc(); } for(auto&s:v){ b+=enc_str(s.filter); int o=s.qos; if(ver==5) o|=(s.nolocal?4:0)|(s.rap?8:0)|(s.rh<<4); b+=(char)o; } return frame(SUBSCRIBE,2,b); }
std::string enc_unsubscribe(int ver,u16 id,const std::vector<std::string>&v){ std::string b=enc_u16(id); if(ver==5) b+=(char)0; for(auto&s:v) b+=enc_str(s); return frame(UNSUBSCRIBE,2,b); }
std::string enc_publish(int ver,const std::string&t,const std::string&pl,int q,bool r,bool d,u16 id,const MProps&p){ std::string b=enc_str(t); if(q) b+=enc_u16(id); if(ver==5) b+=p.enc(); b+=pl; return frame(PUBLISH,(d?8:0)|q<<1|(r?1:0),b); }
std::string enc_ack(int ver,int t,u16 id,int rc,bool force){ std::string b=enc_u16(id); if(ver==5&&(rc||force)){ b+=(char)rc; if(force) b+=(char)0; } return frame(t,t==PUBREL?2:0,b); }
std::string enc_disconnect(int ver,int rc,const MProps*p){ std::string b; if(ver==5&&(rc||p)){ b+=(char)rc; if(p) b+=p->enc(); } return frame(DISCONNECT,0,b); }
std::string enc_auth(int rc,const MProps&p){ std::string b; b+=(char)rc; b+=p.enc(); return frame(AUTH,0,b); }
struct Rd { const u8*p; size_t n,i=0; bool bad=false; u8 b(){ if(i>=n){bad=true;return 0;} return p[i++]; } u16 w(){ u16 a=b(); return a<<8|b(); } u32 d(){ u32 a=w(); return a<<16|w(); } std::string s(){ size_t l=w(); if(bad||i+l>n){bad=true;return "";} std::string r((const char*)p+i,l); i+=l; return r; } u32 v(){ u32 r=0; for(int k=0;k<4;k++){ u8 x=b(); r|=(u32)(x&127)<<(7*k); if(!(x&128)){ if(k&&x==0) bad=true; return r; } } bad=true; return 0; } };
static bool allowed(int id,int t){ static const std::map<int,std::set<int>> m={{1,{PUBLISH}},{2,{PUBLISH}},{3,{PUBLISH}},{8,{PUBLISH}},{9,{PUBLISH}},{11,{PUBLISH}},{17,{CONNACK,DISCONNECT}},{18,{CONNACK}},{19,{CONNACK}},{21,{CONNACK,AUTH}},{22,{CONNACK,AUTH}},{26,{CONNACK}},{28,{CONNACK,DISCONNECT}},{31,{CONNACK,PUBACK,PUBREC,PUBREL,PUBCOMP,SUBACK,UNSUBACK,DISCONNECT,AUTH}},{33,{CONNACK}},{34,{CONNACK}},{35,{PUBLISH}},{36,{CONNACK}},{37,{CONNACK}},{38,{CONNACK,PUBLISH,PUBACK,PUBREC,PUBREL,PUBCOMP,SUBACK,UNSUBACK,DISCONNECT,AUTH}},{39,{CONNACK}},{40,{CONNACK}},{41,{CONNACK}},{42,{CONNACK}}}; auto it=m.find(id); return it!=m.end()&&it->second.count(t); }
static bool rd_props(Rd&r,MProps&p,int type,std::string&err,bool fc){ u32 len=r.v(); if(r.bad||r.i+len>r.n){ err="property length beyond packet"; return false; } size_t end=r.i+len; std::set<int> seen; while(r.i<end&&!r.bad){ int id=r.v(); if(!fc&&!allowed(id,type)){ err=strf("property %d not allowed in %s",id,ptype_names[type]); return false;} if(id!=38&&id!=11&&!seen.insert(id).second){ err=strf("property %d repeated",id); return false; }
  switch(id){ case 1:p.payload_format=r.b();break; case 2:p.expiry=r.d();break; case 3:p.content_type=r.s();break; case 8:p.response_topic=r.s();break; case 9:p.corr=r.s();break; case 11:p.sub_ids.push_back(r.v());break; case 17:p.sess_expiry=r.d();break; case 18:p.assigned_id=r.s();break; case 19:p.server_keepalive=r.w();break; case 21:p.auth_method=r.s();break; case 22:p.auth_data=r.s();break; case 23:p.req_problem=r.b();break; case 24:p.will_delay=r.d();break; case 25:p.req_response=r.b();break; case 26:p.response_info=r.s();break; case 28:p.server_ref=r.s();break; case 31:p.reason=r.s();break; case 33:p.recv_max=r.w();break; case 34:p.alias_max=r.w();break; case 35:p.alias=r.w();break; case 36:p.max_qos=r.b();break; case 37:p.retain_avail=r.b();break; case 38:{ std::string a=r.s(),b=r.s(); p.user.push_back({a,b}); break;} case 39:p.max_packet=r.d();break; case 40:p.wildcard_avail=r.b();break; case 41:p.subid_avail=r.b();break; case 42:p.shared_avail=r.b();break; default: err=strf("unknown property %d",id); return false; } }
  if(r.bad||r.i!=end){ err="bad property block"; return false; } return true; }
int parse_packet(const std::string&buf,size_t&used,int ver,Packet&o,std::string&err,bool fc){
  if(buf.size()<2) return 0; const u8*b=(const u8*)buf.data(); size_t i=1; u32 len=0; int k=0; for(;;){ if(i>=buf.size()) return 0; u8 x=b[i++]; len|=(u32)(x&127)<<(7*k); if(!(x&128)){ if(k&&!x){ err="remaining length not minimal"; return -1;} break; } if(++k>3){ err="bad remaining length"; return -1; } }
  if(buf.size()<i+len) { int t=b[0]>>4; if(!fc&&(t==0||t==CONNECT||t==SUBSCRIBE||t==UNSUBSCRIBE||t==PINGREQ)){ err=strf("unexpected packet type %d",t); return -1;} return 0; }
  used=i+len; o=Packet(); o.size=used; o.type=b[0]>>4; o.flags=b[0]&15; Rd r{b+i,len};
  auto bad=[&](const char*m){ err=strf("%s: %s",ptype_names[o.type],m); return -1; };
  if(o.type!=PUBLISH && o.flags!=((o.type==PUBREL||o.type==SUBSCRIBE||o.type==UNSUBSCRIBE)?2:0)) return bad("reserved flags");
  switch(o.type){
   case CONNACK:{ u8 f=r.b(); if(f&~1) return bad("connack flags"); o.session_present=f&1; o.reason=r.b(); if(ver==5){ if(r.i<r.n&&!rd_props(r,o.p,o.type,err,fc)) return -1; } break; }
   case PUBLISH: o.qos=(o.flags>>1)&3; o.retain=o.flags&1; o.dup=o.flags&8; if(o.qos==3) return bad("qos 3"); if(o.dup&&!o.qos) return bad("dup with qos 0"); o.topic=r.s(); if(o.qos){ o.id=r.w(); if(!r.bad&&!o.id) return bad("packet id 0"); } if(ver==5&&!r.bad&&!rd_props(r,o.p,o.type,err,fc)) return -1; if(r.bad) break; o.payload.assign((const char*)r.p+r.i,r.n-r.i); r.i=r.n; if(o.topic.find_first_of("+#")!=std::string::npos) return bad("wildcard in topic"); break;
   case PUBACK: case PUBREC: case PUBREL: case PUBCOMP: o.id=r.w(); if(ver==5){ if(r.i<r.n){ o.reason=r.b(); o.has_reason=true; if(r.i<r.n&&!rd_props(r,o.p,o.type,err,fc)) return -1; } } if(!r.bad&&!o.id) return bad("packet id 0"); break;
   case SUBACK: case UNSUBACK: o.id=r.w(); if(ver==5&&!rd_props(r,o.p,o.type,err,fc)) return -1; if(o.type==SUBACK||ver==5) while(r.i<r.n) o.reasons.push_back(r.b()); if(o.type==SUBACK&&o.reasons.empty()) return bad("no reason codes"); break;
   case PINGRESP: break;
   case DISCONNECT: if(ver!=5&&!fc) return bad("DISCONNECT to an MQTT 3 client"); if(r.i<r.n){ o.reason=r.b(); if(r.i<r.n&&!rd_props(r,o.p,o.type,err,fc)) return -1; } break;
   case AUTH: if(ver!=5) return bad("AUTH to an MQTT 3 client"); if(r.i<r.n){ o.reason=r.b(); if(!rd_props(r,o.p,o.type,err,fc)) return -1; } break;
   default: if(!fc){ return bad("type not sent by a server"); }
     if(o.type==SUBSCRIBE||o.type==UNSUBSCRIBE){ o.id=r.w(); if(ver==5&&!rd_props(r,o.p,o.type,err,fc)) return -1; while(r.i<r.n&&!r.bad){ o.topic=r.s(); if(o.type==SUBSCRIBE) o.reasons.push_back(r.b()); o.p.user.push_back({o.topic,""}); } }
     else if(o.type==CONNECT){ r.s(); o.reason=r.b(); int fl=r.b(); o.flags=fl; o.id=r.w(); if(o.reason==5&&!rd_props(r,o.p,o.type,err,fc)) return -1; o.topic=r.s(); r.i=r.n; } else r.i=r.n; }
  if(r.bad) return bad("truncated"); if(r.i!=r.n) return bad("extra bytes at the end"); return 1; }
static void split(const std::string&s,std::vector<std::string>&v){ size_t a=0; for(;;){ size_t b=s.find('/',a); if(b==std::string::npos){ v.push_back(s.substr(a)); return; } v.push_back(s.substr(a,b-a)); a=b+1; } }
bool topic_matches(const std::string&f,const std::string&t){ std::vector<std::string> a,b; split(f,a); split(t,b); if(!t.empty()&&t[0]=='$'&&(a[0]=="#"||a[0]=="+")) return false; size_t i=0; for(;i<a.size();i++){ if(a[i]=="#") return true; if(i>=b.size()) return false; if(a[i]!="+"&&a[i]!=b[i]) return false; } return i==b.size(); }

// ---------------------------------------------------------------- connection
MqttConn::~MqttConn(){}
static void ws_frame_out(const MC&m,const std::string&d,int op){ std::string f; f+=(char)(0x80|op); if(d.size()<126) f+=(char)(0x80|d.size()); else if(d.size()<65536){ f+=(char)(0x80|126); f+=enc_u16(d.size()); } else { f+=(char)(0x80|127); for(int i=7;i>=0;i--) f+=(char)((u64)d.size()>>(8*i)); } u8 k[4]; for(auto&x:k) x=m->r.next(); f.append((char*)k,4); for(size_t i=0;i<d.size();i++) f+=(char)(d[i]^k[i&3]); if(m->tls) tls_send(m,f); else net_send(m->c,0,f); }
static void send_now(const MC&m,const std::string&d);
static void gap_flush(const MC&m){ if(!m->gap_busy) return; m->gap_busy=false; std::string q; q.swap(m->gapq); if(!q.empty()&&!m->closed) send_now(m,q); }
void mc_send(const MC&m,const std::string&d){ Harness h; if(m->closed) return; if(m->gap_busy){ m->gapq+=d; return; }
  if(m->gap_max&&m->last_rx&&d.size()>1&&m->r.chance(0.5)){ size_t k=1+m->r.below(d.size()-1); m->gap_busy=true; m->gapq=d.substr(k); S.probe("packet_interrupted"); send_now(m,d.substr(0,k)); S.after(m->r.below(m->gap_max),[m]{ gap_flush(m); }); return; }
  send_now(m,d); }
static void send_now(const MC&m,const std::string&d){ if(m->closed) return; m->last_tx=S.now; if(!m->open){ m->ws_pending+=d; return; }
  if(m->tr==TR_WS||m->tr==TR_WSS){ if(!m->ws_up){ m->ws_pending+=d; return; } size_t o=0; do{ size_t n=d.size()-o; if(m->ws_frame_mode==1&&n>1) n=1+m->r.below(n); else if(m->ws_frame_mode==2) n=std::min<size_t>(n,1+m->r.below(3)); ws_frame_out(m,d.substr(o,n),2); o+=n; if(m->ws_frame_mode&&m->r.below(12)==0&&m->ws_ping_outstanding.empty()){ std::string pl; for(size_t i=m->r.below(100);i>0;i--) pl+=(char)('a'+m->r.below(26)); if(pl.empty()) pl="p"; m->ws_ping_outstanding=pl; S.probe("ws_ping"); ws_frame_out(m,pl,9); } }while(o<d.size()); return; }
  if(m->tls){ tls_send(m,d); return; }
  if(m->trickle){ for(size_t o=0;o<d.size();){ size_t n=std::min<size_t>(d.size()-o,1+m->r.below(4)); net_send(m->c,0,d.substr(o,n)); o+=n; } return; }
  net_send(m->c,0,d); }
static void became_open(const MC&m){ m->open=true; m->opened_at=S.now; std::string p; p.swap(m->ws_pending); if(!p.empty()) mc_send(m,p); if(m->on_open) m->on_open(); }
static void closed(const MC&m,int how){ if(m->closed) return; m->closed=true; m->closed_how=how; m->closed_at=S.now; m->closed_unparsed=m->mq.size(); if(m->on_close){ auto f=m->on_close; f(); } notify_driver(); }
static void feed_mqtt(const MC&m,const std::string&d){ m->mq+=d; if(m->no_parse){ m->raw+=d; m->mq.clear(); return; } while(!m->closed){ Packet p; size_t used=0; std::string err; int r=parse_packet(m->mq,used,m->ver,p,err); if(r==0) break; if(r<0){ if(m->on_malformed) m->on_malformed(err); else violation("wire","broker sent a malformed packet: %s",err.c_str()); return; } m->mq.erase(0,used); p.seq=++S.seq; p.at=S.now; m->last_rx=S.now;
    if(p.type==PUBLISH&&p.p.alias){ if(*p.p.alias==0){ violation("wire","topic alias 0 sent"); } if(p.topic.empty()){ auto it=m->aliases.find(*p.p.alias); if(it==m->aliases.end()) violation("wire","unknown topic alias %d used by the broker",*p.p.alias); p.topic=it->second; p.alias_resolved=true; } else m->aliases[*p.p.alias]=p.topic; } else if(p.type==PUBLISH&&p.topic.empty()) violation("wire","PUBLISH with empty topic and no alias");
    S.mix(p.type*131+p.id); tr("  conn%d <- %s id=%d topic=%s pl=%.30s q=%d ret=%d rc=%d sp=%d",m->c->id,ptype_names[p.type],p.id,p.topic.c_str(),p.payload.c_str(),p.qos,p.retain,p.reason,p.session_present); if(m->on_packet) m->on_packet(p); } notify_driver(); }
static void feed_ws(const MC&m,const std::string&d){ m->in+=d; if(!m->ws_up){ size_t e=m->in.find("\r\n\r\n"); if(e==std::string::npos) return; if(m->in.compare(0,12,"HTTP/1.1 101")){ if(m->on_malformed) m->on_malformed("websocket upgrade refused"); m->in.clear(); return; } m->in.erase(0,e+4); m->ws_up=true; std::string p; p.swap(m->ws_pending); if(!p.empty()) mc_send(m,p); }
  for(;;){ if(m->in.size()<2) return; const u8*b=(const u8*)m->in.data(); int op=b[0]&15; bool fin=b[0]&128; if(b[0]&0x70||!fin||(op!=2&&op!=8&&op!=9&&op!=10)){ if(m->on_malformed) m->on_malformed(strf("bad websocket frame header %02x",b[0])); else violation("wire","bad websocket frame header %02x %02x",b[0],b[1]); m->in.clear(); return; } if(b[1]&128) violation("wire","masked websocket frame from server"); u64 l=b[1]&127; size_t h=2; if(l==126){ if(m->in.size()<4) return; l=b[2]<<8|b[3]; h=4; if(l<126) violation("wire","websocket length not minimal"); } else if(l==127){ if(m->in.size()<10) return; l=0; for(int i=0;i<8;i++) l=l<<8|b[2+i]; h=10; if(l<65536||l>(1ull<<40)) violation("wire","bad websocket length"); } if(m->in.size()<h+l) return; std::string pl=m->in.substr(h,l); m->in.erase(0,h+l); if(op==2) feed_mqtt(m,pl); else if(op==10){ if(pl!=m->ws_ping_outstanding) violation("wire","websocket pong does not echo the ping"); m->ws_ping_outstanding.clear(); m->ws_pongs++; } else if(op==9) ws_frame_out(m,pl,10); else if(op==8) m->ws_closed=true; if(m->closed) return; } }
void mc_feed_plain(const MC&m,const std::string&d){ if(m->tr==TR_WS||m->tr==TR_WSS) feed_ws(m,d); else feed_mqtt(m,d); }
static void on_data(const MC&m){ if(m->closed) return; if(m->paused){ return; } std::string d=net_read(m->c,0); if(!d.empty()){ m->rxbytes+=d.size(); if(m->tls) tls_feed(m,d); else mc_feed_plain(m,d); } if(m->closed) return; auto&e=m->c->e[0]; if(e.rst) closed(m,2); else if(e.rx_fin&&e.rx.empty()&&e.held.empty()){ net_close(m->c,0); closed(m,1); } }
// PROXY protocol version 2 header for an IPv4 source, optionally followed by additional TLVs
std::string haproxy_v2(const std::string&ip,size_t extra,Rng&r,const std::string*cn){ std::string t; if(extra>=3){ size_t l=r.below(extra-2); t+=(char)0xE1; t+=enc_str(std::string(l,'x')); if(extra>=l+6){ t+=(char)0xE2; t+=enc_str(std::string(extra-l-6,'y')); } }
  if(cn){ std::string sub; sub+=(char)0x22; sub+=enc_str(*cn); std::string v; v+=(char)7; v+=std::string(4,'\0'); v+=sub; t+=(char)0x20; t+=enc_str(v); }
  std::string h("\r\n\r\n\0\r\nQUIT\n",12); h+=(char)0x21; h+=(char)0x11; h+=enc_u16(12+t.size()); unsigned a,b,c,d; sscanf(ip.c_str(),"%u.%u.%u.%u",&a,&b,&c,&d); h+=(char)a; h+=(char)b; h+=(char)c; h+=(char)d; h+=std::string("\x0a\0\0\x01",4); h+=enc_u16(4242); h+=enc_u16(1883); return h+t; }
MC mc_open(const std::string&ip,int port,int ver,Transport t,u64 rs,const std::string&my){ Harness h; auto m=std::make_shared<MqttConn>(); m->ver=ver; m->tr=t; m->r.seed(rs); m->ws_frame_mode=m->r.below(3); if(t==TR_TLS||t==TR_WSS) tls_init(m);
  std::weak_ptr<MqttConn> w=m; 
  m->c=net_connect(ip,port,my,[w](int e){ auto m=w.lock(); if(!m||m->closed) return; if(e){ closed(m,3); return; } 
     if(m->tr==TR_HAPROXY){ std::string h=m->haproxy_line; if(h.empty()){ h=haproxy_v2("192.168.77.7",m->r.chance(0.3)?(size_t)m->r.below(600):0,m->r); } double ps=m->c->p_seg; m->c->p_seg=0; m->c->nofault=std::min<size_t>(h.size(),28); net_send(m->c,0,h.substr(0,28)); m->c->p_seg=ps; if(h.size()>28) net_send(m->c,0,h.substr(28)); }
     if(m->tls){ tls_start(m); if(m->tr==TR_TLS){ became_open(m); return; } }
     if(m->tr==TR_WS||m->tr==TR_WSS){ std::string rq="GET /mqtt HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: mqtt\r\n\r\n"; if(m->tls) tls_send(m,rq); else net_send(m->c,0,rq); m->open=true; m->opened_at=S.now; if(m->on_open) m->on_open(); return; } became_open(m); });
  auto*e=&m->c->e[0]; e->on_data=[w]{ auto m=w.lock(); if(m) on_data(m); }; e->on_close=[w]{ auto m=w.lock(); if(m) on_data(m); }; return m; }
void mc_close(const MC&m){ Harness h; if(m->closed) return; gap_flush(m); net_close(m->c,0); m->closed=true; m->closed_at=S.now; m->closed_how=4; }
void mc_reset(const MC&m){ Harness h; if(m->closed) return; S.fault(F_RESET); net_reset(m->c,0); m->closed=true; m->closed_at=S.now; m->closed_how=5; }
void mc_vanish(const MC&m){ Harness h; if(m->closed) return; S.fault(F_HALFOPEN); net_vanish(m->c); m->closed=true; m->closed_at=S.now; m->closed_how=6; }
void mc_pause(const MC&m,bool p){ Harness h; m->paused=p; net_window(m->c,0,p); if(p) S.fault(F_STALL_CLIENT); }
}
