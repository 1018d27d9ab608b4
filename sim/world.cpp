#include "world.h"
namespace sim {
const std::vector<std::string> base_topics={"a","a/b","a/b/c","a/c","b","b/c","b/c/d","a//c","c","c/x","c/x/y","d/e/f/g"};
const std::vector<std::string> base_filters={"a","a/b","a/b/c","a/c","b","b/c","a//c","c","#","+","a/#","a/+","+/b","+/+","a/+/c","a/b/#","b/#","+/c/#","c/#","c/x","+/+/+","d/e/f/g","d/#","+/x/+"};
std::string rnd_payload(Rng&r,size_t n,bool text){ std::string s; s.reserve(n); while(n--) s+=text?(char)('a'+r.below(26)):(char)r.below(256); return s; }
static u64 sq(){ return ++S.seq; }
// ------------------------------------------------------------------ hosts
Host::Host(int i):idx(i){ ip=strf("10.0.0.%d",i+1); disk.r.seed(C->seed*77+i); std::string b=strf("/sim/h%d",i); disk.write(b+"/db/.keep",""); disk.write(b+"/log",""); opt("log_file",b+"/log"); opt("storage_dir",b+"/db"); opt("thread_count","2"); opt("allow_anonymous","true"); }
void Host::opt(const std::string&k,const std::string&v){ for(auto it=lines.begin();it!=lines.end();++it) if(it->compare(0,k.size()+1,k+" ")==0){ if(v.empty()) lines.erase(it); else *it=k+" "+v; return; } if(!v.empty()) lines.push_back(k+" "+v); }
std::string Host::conf() const { std::string s; for(auto&l:lines) s+=l+"\n"; if(default_listener) s+=strf("listen {\n protocol mqtt\n port %d\n inet_protocol ip4\n}\n",port); for(auto&b:blocks) s+=b+"\n"; return s; }
void Host::write_conf(){ disk.write(strf("/sim/h%d/flashmq.conf",idx),conf()); }
void Host::spawn(){ write_conf(); starts++; in=boot(idx,&disk,{"flashmq","--config-file",strf("/sim/h%d/flashmq.conf",idx)}); }
bool Host::up() const { return in&&in->alive&&!in->exited&&net_listening(ip,port); }
bool Host::start(u64 to,bool must){ spawn(); wait_until([&]{ return up()||in->exited; },to); if(!up()&&must){ std::string l=disk.read(strf("/sim/h%d/log",idx)); if(l.size()>700) l=l.substr(l.size()-700); violation("start","broker %d does not start: exited=%d code=%d console=%s log=%s",idx,in->exited,in->exit_code,in->console.substr(0,300).c_str(),l.c_str()); } return up(); }
bool Host::stop(u64 to,int sig){ send_signal(in,sig); bool ok=wait_until([&]{ return in->exited; },to); return ok; }
void Host::kill(bool m){ crash(in,m); }
// ------------------------------------------------------------------ world
World::World(Ctx&c):c(c){ msgs.emplace_back(); }
Host& World::host(int i){ while((int)hosts.size()<=i) hosts.emplace_back(new Host(hosts.size())); return *hosts[i]; }
Cl* World::client(const std::string&id,int ver){ auto*x=new Cl; x->w=this; x->i=cls.size(); x->id=id; x->ver=ver; x->ip=strf("10.9.0.%d",x->i+1); x->rseed=c.seed*131+x->i*7; cls.emplace_back(x); return x; }
void World::fail(const char*cls,const std::string&s){ violation(cls,"%s",s.c_str()); }
std::string World::cn_name(Cn*n){ return strf("%s(conn %d, v%d)",n->cl->id.c_str(),n->no,n->o.ver); }
std::string World::msg_name(const MsgRec&m){ return strf("msg %d [%s q%d%s%s by %s, sent %.3fs%s]",m.uid,m.topic.c_str(),m.qos,m.retain?" retained":"",m.will?" will":"",m.cl>=0?cls[m.cl]->id.c_str():"-",m.ts/1e9,m.a==INF?" unacked":""); }
void World::send(Cn*n,const std::string&b){ n->last_sent=S.now; mc_send(n->m,b); }
void World::expect(Cn*n,int type,u16 id,int uid){ Expect e; e.type=type; e.id=id; e.sent=S.seq; e.uid=uid; e.t=S.now; n->exp.push_back(e); }
u16 World::pid_for(Cl*x){ for(;;){ x->next_pid++; if(!x->next_pid) x->next_pid=1; bool used=x->banned.count(x->next_pid); for(auto&o:x->out) if(o.pid==x->next_pid) used=true; if(x->cur) for(auto&e:x->cur->exp) if(e.id==x->next_pid&&(e.type==SUBACK||e.type==UNSUBACK)) used=true; if(!used) return x->next_pid; } }
static void autoping(World*w,Cn*n){ if(n->closed||n->ignored||!n->o.keepalive) return; u64 iv=n->o.keepalive*SEC*6/10; S.after(iv,[w,n]{ if(n->closed||n->ignored||!n->cl->autoping||n->cl->cur!=n) return; if(n->established&&S.now-n->last_sent>=n->o.keepalive*SEC/2) w->ping(n->cl); autoping(w,n); }); }
Cn* World::connect(Cl*x,bool clean,std::optional<Will> will,std::function<void(ConnectOpts&)> tweak){
  Harness hh; if(x->cur&&!x->cur->closed&&!x->cur->ignored){ Cn*o=x->cur; o->ignored=true; o->expect_close=true; o->why_close="takeover"; o->close_kind=5; o->close_seq=sq(); o->close_at=S.now; o->m->no_parse=true; }
  auto*n=new Cn; cns.emplace_back(n); n->no=cns.size()-1; n->cl=x; n->host=x->host; n->nconn=n->no; ConnectOpts&o=n->o; o.ver=x->ver; o.id=x->id; o.clean=clean; o.keepalive=x->keepalive; o.user=x->user; o.pass=x->pass; o.will=will;
  if(x->ver==5){ if(x->expiry) o.p.sess_expiry=x->expiry; if(x->recv_max) o.p.recv_max=x->recv_max; if(x->max_packet) o.p.max_packet=x->max_packet; if(x->alias_max) o.p.alias_max=x->alias_max; }
  if(tweak) tweak(o);
  n->m=mc_open(strf("10.0.0.%d",x->host+1),x->port,o.ver,x->tr,x->rseed+n->no*31,x->ip); n->m->trickle=x->trickle; n->m->gap_max=x->gap_max;
  n->m->on_packet=[this,n](Packet&p){ on_packet(n,p); }; n->m->on_close=[this,n]{ on_closed(n); };
  n->send_seq=sq(); n->send_at=S.now; x->cur=n; n->cap=o.p; Expect e; e.type=CONNACK; e.id=0; e.sent=n->send_seq; e.t=S.now; n->exp.push_back(e);
  if(o.will&&n->will_uid<0){ // the payload of a will carries a uid like any other message
    MsgRec m; m.uid=msgs.size(); m.cl=x->i; m.pconn=n->no; m.will=true; m.topic=o.will->topic; m.qos=o.will->qos; m.retain=o.will->retain; m.p=o.will->p; m.p.will_delay.reset(); m.payload=strf("%d:",m.uid)+o.will->payload; o.will->payload=m.payload; m.s=INF; m.ts=S.now; n->will_uid=m.uid; msgs.push_back(m); WillRec wr; wr.uid=m.uid; wr.cn=n; wr.delay=o.will->p.will_delay.value_or(0); wills.push_back(wr); }
  if(n->will_uid>=0) for(auto&q:cns) if(q->cl==x&&q.get()!=n&&!q->established&&!q->refused&&!q->ignored&&q->close_at!=INF&&S.now<q->close_at+2*SEC){ // the broker may still accept that one after this one, and end this one for it
    for(auto&w:wills) if(w.uid==n->will_uid&&!w.early){ w.early=true; auto&m=msgs[w.uid]; m.s=sq(); if(m.retain) ret[m.topic].push_back(m.uid); } }
  will_normal_raced(x,n); will_resumed(x,n);
  tr("CONNECT %s conn %d clean=%d expiry=%u",x->id.c_str(),n->no,(int)clean,o.p.sess_expiry.value_or(0));
  send(n,enc_connect(o)); autoping(this,n); return n; }
bool World::wait_connack(Cl*x,u64 to){ Cn*n=x->cur; return wait_until([&]{ return n->established||n->closed||n->refused; },to)&&n->established; }
// an older connection of this client was given up before its CONNACK; the broker may only get to its CONNECT now
static bool late_takeover(Cn*n){ for(auto&o:n->cl->w->cns) if(o.get()!=n&&o->cl==n->cl&&o->no<n->no&&!o->connacked&&!o->refused) return true; return false; }
void World::on_connack(Cn*n,Packet&p){ Cl*x=n->cl; if(n->connacked) fail("answer",cn_name(n)+": second CONNACK"); n->connacked=true; n->reason=p.reason; n->ack_seq=p.seq; n->ack_at=S.now; if(n->o.ver==5&&p.p.server_keepalive&&*p.p.server_keepalive!=n->o.keepalive){ bool had=n->o.keepalive; n->o.keepalive=*p.p.server_keepalive; if(!had) autoping(this,n); }
  if(p.reason){ n->refused=true; n->expect_close=true; n->why_close="refused"; if(p.session_present) fail("session",cn_name(n)+": session present set in a refusing CONNACK"); return; }
  n->established=true; n->established_at=S.now; will_connacked(x,n); for(auto&w:wills) if(w.cn->cl==x) tr("will %d of conn %d delay %u state %d must %d may %d %s",w.uid,w.cn->no,w.delay,w.state,w.must,msgs[w.uid].s!=INF,msgs[w.uid].note.c_str()); n->br_alias_max=p.p.alias_max.value_or(0); n->br_max_packet=p.p.max_packet.value_or(0); n->br_recv_max=p.p.recv_max.value_or(65535); n->br_max_qos=p.p.max_qos.value_or(2);
  if(n->o.ver==5){ if(p.p.sess_expiry&&!n->o.p.sess_expiry&&*p.p.sess_expiry!=0) fail("answer",cn_name(n)+": session expiry in CONNACK differs"); if(n->o.id.empty()!=(bool)p.p.assigned_id) fail("answer",cn_name(n)+": assigned client id present/absent wrongly"); }
  Sess*os=x->sess; bool persistent=n->o.ver==5?n->o.p.sess_expiry.value_or(0)>0:!n->o.clean;
  bool can_resume=!n->o.clean && os && !os->ended; bool definite=false, definite_not=false;
  if(!can_resume){ definite_not=!sp_ambiguous; }
  else { if(os->destroy) definite_not=true; else { definite=os->must_until==INF||S.now<os->must_until; if(os->gone_by!=INF&&n->send_at>os->gone_by) definite_not=true; } }
  bool sp=p.session_present; if(n->o.ver==3) sp=can_resume&&!os->destroy&&definite;
  if(chk_sp&&n->o.ver!=3){ 
    if(sp&&definite_not&&!(late_takeover(n)&&!n->o.clean)) fail("session",cn_name(n)+strf(": session present is set, but no session should exist (clean=%d%s%s)",n->o.clean,os?", earlier session ended":"",os&&os->destroy?" without expiry":""));
    if(!sp&&definite) fail("session",cn_name(n)+strf(": stored session was not resumed (session present 0), expiry %u",os->expiry)); }
  if(sp&&!n->o.clean){ if(!os||os->ended||os->destroy){ auto*s=new Sess; sess.emplace_back(s); s->cl=x; s->b_lo=0; s->b_hi=p.seq; s->host=x->host; s->void_before=p.seq; x->sess=s; }
    else if(!definite||os->murky){ // a CONNECT without CONNACK may have started a new session in between
      Cn*ab=nullptr; for(auto&o:cns) if(o->cl==x&&o->no<n->no){ if(o->established) ab=nullptr; else if(!o->refused&&!o->connacked&&!ab) ab=o.get(); }
      if(ab){ os->void_before=p.seq; for(auto&f:os->subs) if(!f.second.empty()){ SubOp op; op.sub=false; op.o.filter=f.first; op.s=ab->send_seq; op.ts=ab->send_at; op.cn=n; f.second.push_back(op); } S.probe("session_maybe_new"); } }
    S.probe("session_resumed"); }
  else { if(os&&!os->ended){ os->ended=true; os->e_hi=p.seq; os->e_lo=std::min(os->e_lo,n->send_seq); } auto*s=new Sess; sess.emplace_back(s); s->cl=x; s->b_lo=n->send_seq; s->b_hi=p.seq; s->host=x->host; x->sess=s; x->out.clear(); S.probe("session_new"); }
  Sess*s=x->sess; n->sess=s; s->must_until=INF; s->gone_by=INF; s->e_lo=INF; s->expiry=n->o.p.sess_expiry.value_or(0); s->destroy=!persistent; s->recv_max=n->o.p.recv_max.value_or(65535);
  if(n->o.ver<5) s->expiry=persistent?1209600:0;
  // a client resends what was not acknowledged
  if(!x->no_resend) for(auto&o:x->out){ MsgRec&m=msgs[o.uid]; if(o.stage==0){ m.attempts++; o.sent=sq(); MProps pp=m.p; send(n,enc_publish(n->o.ver,m.topic,m.payload,m.qos,m.retain,true,o.pid,pp)); expect(n,m.qos==1?PUBACK:PUBREC,o.pid,o.uid); S.probe("resend_publish"); } else { sq(); send(n,enc_ack(n->o.ver,PUBREL,o.pid)); expect(n,PUBCOMP,o.pid,o.uid); S.probe("resend_pubrel"); } }
  else { x->out.clear(); }
}
static void confirm(World*w,Cn*n,u64 sent,u64 now){ if(sent<=n->confirmed) return; n->confirmed=sent; 
  if(n->sess) for(auto&d:n->sess->dl) if(d.cn==n&&d.released==INF&&d.done_sent!=INF&&d.done_sent<=sent) d.released=now; 
  for(size_t i=1;i<w->msgs.size();i++){ auto&m=w->msgs[i]; if(m.pconn==n->no&&!m.will&&m.qos==0&&m.a==INF&&m.s<=sent){ m.a=now; m.ta=S.now; m.acked=true; } } }
void World::answer(Cn*n,Packet&p,int type){ 
  if(!chk_answers){ for(auto it=n->exp.begin();it!=n->exp.end();++it) if(it->type==type&&it->id==p.id){ Expect e=*it; n->exp.erase(it); confirm(this,n,e.sent,p.seq); return; } return; }
  if(n->exp.empty()) fail("answer",cn_name(n)+strf(": unsolicited %s id %d",ptype_names[type],p.id));
  Expect e=n->exp.front(); if(e.type!=type||e.id!=p.id) fail("answer",cn_name(n)+strf(": got %s id %d while the next answer due is %s id %d (requests are answered in order and exactly once)",ptype_names[type],p.id,ptype_names[e.type],e.id));
  n->exp.pop_front(); if(S.now-e.t>answer_bound) fail("answer",cn_name(n)+strf(": %s took %.1f s",ptype_names[type],(S.now-e.t)/1e9)); confirm(this,n,e.sent,p.seq); }
void World::on_packet(Cn*n,Packet&p){ Harness hh; if(n->ignored) return; Cl*x=n->cl; if(x->tap) x->tap(n,p); if(n->o.p.max_packet&&p.size>*n->o.p.max_packet) fail("limits",cn_name(n)+strf(": packet %s of %zu bytes exceeds the client's maximum packet size %u",ptype_names[p.type],p.size,*n->o.p.max_packet));
  if(x->exempt) return;
  if(!n->connacked&&p.type!=CONNACK&&p.type!=AUTH&&p.type!=DISCONNECT) fail("order",cn_name(n)+strf(": %s before CONNACK",ptype_names[p.type]));
  switch(p.type){
   case CONNACK: answer(n,p,CONNACK); on_connack(n,p); notify_driver(); break;
   case PUBLISH: on_publish(n,p); break;
   case PUBACK: case PUBREC:{ int uid=-1; if(!n->exp.empty()&&n->exp.front().id==p.id) uid=n->exp.front().uid; answer(n,p,p.type); for(size_t k=0;k<x->out.size();k++){ auto&o=x->out[k]; if(o.pid==p.id&&o.stage==0&&(uid<0||o.uid==uid)){ MsgRec&m=msgs[o.uid]; if(m.a==INF){ m.a=p.seq; m.ta=S.now; } m.acked=true; if(p.reason>=0x80){ m.denied=true; if(!may_read) { if(p.reason!=0x97) fail("answer",cn_name(n)+": permitted "+msg_name(m)+strf(" refused with reason 0x%02x",p.reason)); } }
        if(p.type==PUBACK){ if(m.qos!=1) fail("answer","PUBACK for QoS 2"); x->out.erase(x->out.begin()+k); } else if(p.reason>=0x80){ x->out.erase(x->out.begin()+k); } else { o.stage=1; sq(); send(n,enc_ack(n->o.ver,PUBREL,p.id)); expect(n,PUBCOMP,p.id,o.uid); } break; } 
        else if(o.pid==p.id&&o.stage==1&&p.type==PUBREC){ sq(); send(n,enc_ack(n->o.ver,PUBREL,p.id)); expect(n,PUBCOMP,p.id,o.uid); break; } } break; }
   case PUBCOMP:{ answer(n,p,PUBCOMP); for(size_t k=0;k<x->out.size();k++) if(x->out[k].pid==p.id&&x->out[k].stage==1){ bool more=false; for(auto&e:n->exp) if(e.id==p.id&&(e.type==PUBCOMP||e.type==PUBREC)) more=true; if(!more) x->out.erase(x->out.begin()+k); break; } break; }
   case PUBREL:{ Sess*s=n->sess; bool solicited=!n->exp.empty()&&n->exp.front().type==PUBREL&&n->exp.front().id==p.id; 
      if(solicited) answer(n,p,PUBREL); 
      else { bool known=s->in_rec.count(p.id); bool owed=false; for(auto&e:n->exp) if(e.type==PUBREL&&e.id==p.id) owed=true; if(chk_answers&&(!known||owed)) fail("answer",cn_name(n)+strf(": unsolicited PUBREL id %d",p.id)); }
      auto it=s->out.find(p.id); if(it!=s->out.end()){ Deliv&d=s->dl[it->second]; if(d.qos==2) d.rec_confirmed=true; }
      if(n->hold){ n->heldacks.push_back({-1,p}); break; }
      { u64 q=sq(); send(n,enc_ack(n->o.ver,PUBCOMP,p.id)); if(!n->outstanding.erase(p.id)) n->relcomp++; if(it!=s->out.end()){ Deliv&d=s->dl[it->second]; d.done_sent=q; d.cn=n; } } break; }
   case SUBACK:{ Expect e; bool have=false; if(!n->exp.empty()&&n->exp.front().type==SUBACK&&n->exp.front().id==p.id){ e=n->exp.front(); have=true; } else if(!chk_answers) for(auto&q:n->exp) if(q.type==SUBACK&&q.id==p.id){ e=q; have=true; break; } answer(n,p,SUBACK); if(!have) break; if((int)p.reasons.size()!=e.n) fail("answer",cn_name(n)+strf(": SUBACK with %zu codes for %d filters",p.reasons.size(),e.n)); int k=0; for(auto&f:e.idx){ auto&op=n->sess->subs[f.first][f.second]; int rc=p.reasons[k++]; op.a=p.seq; op.ta=S.now; if(rc>=0x80) op.failed=true; else if(rc!=std::min(op.o.qos,broker_max_qos)) fail("answer",cn_name(n)+strf(": SUBACK code %d for requested QoS %d on %s",rc,op.o.qos,f.first.c_str())); if(rc>=0x80&&!may_read) fail("answer",cn_name(n)+strf(": subscription to %s refused with 0x%02x",f.first.c_str(),rc)); } notify_driver(); break; }
   case UNSUBACK:{ Expect e; bool have=false; if(!n->exp.empty()&&n->exp.front().type==UNSUBACK&&n->exp.front().id==p.id){ e=n->exp.front(); have=true; } else if(!chk_answers) for(auto&q:n->exp) if(q.type==UNSUBACK&&q.id==p.id){ e=q; have=true; break; } answer(n,p,UNSUBACK); if(!have) break; if(n->o.ver==5&&(int)p.reasons.size()!=e.n) fail("answer",cn_name(n)+": UNSUBACK with a wrong number of codes"); for(auto&f:e.idx) n->sess->subs[f.first][f.second].a=p.seq; break; }
   case PINGRESP:{ u64 sent=0; if(!n->exp.empty()) sent=n->exp.front().sent; answer(n,p,PINGRESP); if(n->pings_out) n->pings_out--; n->ping_log.push_back({sent,p.seq}); n->ping_log_t.push_back(S.now); if(n->ping_sent_at.size()){ n->ping_acked_sent_at=n->ping_sent_at.front(); n->ping_sent_at.erase(n->ping_sent_at.begin()); } break; }
   case DISCONNECT: n->got_disc=true; n->disc_reason=p.reason; if(p.reason==0x8e&&late_takeover(n)) n->expect_close=true; tr("  %s got DISCONNECT 0x%02x",cn_name(n).c_str(),p.reason); if(!n->expect_close&&!allow_close&&!x->quiet_close_ok) fail("close",cn_name(n)+strf(": broker sent DISCONNECT 0x%02x to a well-behaved client",p.reason)); n->expect_close=true; break;
   case AUTH: break;
  } }
void World::on_closed(Cn*n){ Harness hh; if(n->closed) return; n->closed=true; if(n->close_at==INF){ n->close_at=S.now; n->close_seq=sq(); } tr("  %s closed how=%d",cn_name(n).c_str(),n->m->closed_how); if(n->m->closed_unparsed&&!n->ignored&&n->m->closed_how==1&&!allow_close&&!n->expect_close&&!n->cl->quiet_close_ok) fail("wire",cn_name(n)+": connection closed in the middle of a packet");
  if(n->ignored||n->close_kind) return; n->close_kind=6;
  if(!n->expect_close&&!allow_close&&!n->cl->quiet_close_ok&&!n->cl->exempt&&!late_takeover(n)) fail("close",cn_name(n)+strf(": broker closed the connection of a well-behaved client (%s, how %d)",n->established?"established":"connecting",n->m->closed_how));
  if(n->established){ session_disconnected(n,S.now+50*MS,false,{}); will_ended(n,false,S.now>SEC?S.now-SEC:0,S.now+100*MS,n->why_close!="maybe"); } notify_driver(); }
void World::session_disconnected(Cn*n,u64 hi,bool,std::optional<u32> ne){ Sess*s=n->sess; if(!s||s->ended||n->cl->sess!=s) return; if(ne) s->expiry=*ne; n->outstanding.clear(); n->heldacks.clear();
  if(s->destroy){ s->e_lo=std::min(s->e_lo,S.seq); s->must_until=0; return; }
  if(s->murky){ s->must_until=0; s->gone_by=INF; return; }
  if(s->expiry==0xFFFFFFFFu){ return; }
  u64 e=s->expiry*SEC; s->must_until=S.now+(e>SEC?e-SEC:0); s->gone_by=hi+e+16*SEC; }
// ---- wills
// from now on the will may be delivered
void World::will_open(WillRec&w,bool must){ w.state=2; w.must=must; MsgRec&m=msgs[w.uid]; m.never=false; if(w.early) return; m.s=sq(); m.ts=S.now; if(m.retain) ret[m.topic].push_back(m.uid); }
// a connection ended with a normal DISCONNECT right before another CONNECT of that client: the broker may see the takeover first
void World::will_normal_raced(Cl*x,Cn*n){ for(auto&w:wills) if(w.cn->cl==x&&w.cn!=n&&w.state==3&&w.normal&&w.cn->close_at!=INF&&S.now<w.cn->close_at+2*SEC) will_open(w,false); }
void World::will_ended(Cn*n,bool normal,u64 lo,u64 hi,bool certain){ if(n->will_uid<0) return; for(auto&w:wills) if(w.uid==n->will_uid&&w.state==0){ MsgRec&m=msgs[w.uid]; if(normal){ w.state=3; w.normal=true; m.never=!w.early; m.note="connection ended with a normal DISCONNECT"; return; }
    Sess*s=n->sess; u64 d=w.delay; if(s&&!s->destroy) d=std::min<u64>(d,s->expiry); else d=0; 
    w.state=1; w.due_lo=lo+(d?d*SEC-SEC:0); w.due_hi=hi+d*SEC+(d?12*SEC:0)+will_slack; if(d==0&&w.delay) w.due_hi+=12*SEC; w.must=certain; w.certain=certain; int k=&w-&wills[0]; 
    S.at(w.due_lo,[this,k]{ auto&w=wills[k]; if(w.state!=1) return; w.state=2; auto&m=msgs[w.uid]; if(m.s!=INF) return; m.s=sq(); m.ts=S.now; if(m.retain) ret[m.topic].push_back(m.uid); });
    S.at(w.due_hi,[this,k]{ will_due(k); }); return; } }
void World::will_due(int k){ auto&w=wills[k]; if(w.state!=2) return; if(S.now<w.due_hi){ S.at(w.due_hi,[this,k]{ will_due(k); }); return; } w.state=4; auto&m=msgs[w.uid]; if(w.must){ m.a=sq(); m.ta=S.now; m.acked=true; } }
// a CONNECT of this client is on its way: it may end the connection (and session) that a will belongs to, or never be handled
void World::will_resumed(Cl*x,Cn*n){ for(auto&w:wills) if(w.cn->cl==x&&w.cn!=n){ Cn*o=w.cn;
    if(w.state==0){ if(!o->established&&!o->closed&&!o->ignored) continue; if(!o->established) w.fin=true; will_open(w,false); }
    else if(w.state==1){ if(n->o.clean) will_open(w,false); else if(w.delay>0) w.certain=w.must=false; }
    else if(w.state==2&&!n->o.clean) w.must=false; } }
// that CONNECT was accepted
void World::will_connacked(Cl*x,Cn*n){ for(size_t k=0;k<wills.size();k++){ auto&w=wills[k]; if(w.cn->cl!=x||w.cn->no>=n->no||w.fin||w.normal||(w.state!=1&&w.state!=2)) continue; w.fin=true;
    if(w.amb){ w.must=false; if(w.state==1) will_open(w,false); continue; } bool ab=false,abclean=false; for(auto&o:cns) if(o->cl==x&&o->no>w.cn->no&&o->no<n->no){ ab=true; if(o->o.clean) abclean=true; }
    Sess*s=w.cn->sess; bool ends=n->o.clean||(s&&s->destroy); bool taken=w.cn->close_kind==5; u32 d=ends?0:w.delay; MsgRec&m=msgs[w.uid];
    if(!ends&&d>0&&(taken||(w.state==1&&S.now<=w.due_lo))){ if(abclean){ w.must=false; if(w.state==1) will_open(w,false); continue; } 
      if(w.early){ w.must=false; if(w.state==1) w.state=2; continue; } if(w.state==2) ret[m.topic].erase(std::remove(ret[m.topic].begin(),ret[m.topic].end(),m.uid),ret[m.topic].end()); w.state=3; m.s=INF; m.never=true; m.note="session was resumed before the will delay passed"; continue; }
    if(taken||(n->o.clean&&w.certain)){ if(w.delay>0&&ab) continue; w.must=true; if(w.state==1) will_open(w,true); S.at(S.now+will_slack+SEC,[this,k]{ auto&w=wills[k]; if(w.state!=2) return; w.state=4; auto&m=msgs[w.uid]; if(w.must){ m.a=sq(); m.ta=S.now; m.acked=true; } }); } } }
// ---- client actions
void World::disconnect(Cl*x,int kind,int reason,std::optional<u32> ne){ Harness hh; Cn*n=x->cur; if(!n||n->closed||n->ignored) return; bool est=n->established; 
  if(kind==1){ MProps pp; if(ne) pp.sess_expiry=ne; sq(); send(n,enc_disconnect(n->o.ver,reason,ne?&pp:nullptr)); }
  n->close_kind=kind; n->expect_close=true; n->close_seq=sq(); n->close_at=S.now; tr("CLOSE %s conn %d kind %d reason %d new expiry %d",x->id.c_str(),n->no,kind,reason,ne?(int)*ne:-1);
  bool linger=kind==1&&(n->will_uid>=0||ne)&&n->no%3!=0; if(kind==1&&ne&&!linger&&n->sess) n->sess->murky=true; if(kind==2) mc_reset(n->m); else if(kind==4) mc_vanish(n->m); else if(linger) n->m->no_parse=true; else mc_close(n->m); n->closed=true;
  u64 hi=S.now+2*SEC; if(kind==4) hi=n->o.keepalive?std::max(S.now+(u64)n->o.keepalive*SEC*3/2+15*SEC,n->established_at+42*SEC):INF/4;
  if(est){ session_disconnected(n,hi,kind==1,ne); if(kind==1&&reason==0){ will_ended(n,true,0,0,true); if(!linger) for(auto&w:wills) if(w.uid==n->will_uid&&w.state==3) will_open(w,false); /* closing at once can make TCP drop the DISCONNECT */ } else will_ended(n,false,S.now,hi,true); } else if(n->will_uid>=0){ for(auto&w:wills) if(w.uid==n->will_uid&&w.state==0){ w.state=2; w.must=false; msgs[w.uid].s=sq(); msgs[w.uid].ts=S.now; if(msgs[w.uid].retain) ret[msgs[w.uid].topic].push_back(w.uid); } }
  if(!est&&x->sess){ /* the broker may have processed the CONNECT: nothing definite is known about expiry */ if(!n->o.clean){ Sess*s=x->sess; if(ne||n->o.p.sess_expiry.value_or(0)!=s->expiry) s->murky=true; s->gone_by=INF; if(s->murky) s->must_until=0; else if(s->expiry!=0xFFFFFFFFu) s->must_until=std::min(s->must_until,S.now+std::max<u64>(s->expiry,1)*SEC-SEC); } else { x->sess->murky=true; x->sess->must_until=0; x->sess->gone_by=INF; x->sess->e_lo=std::min(x->sess->e_lo,n->send_seq); } } }
void World::subscribe(Cl*x,const std::vector<Sub>&v,std::optional<u32> sid){ Harness hh; Cn*n=x->cur; if(!x->connected()) return; u16 id=pid_for(x); u64 q=sq(); Expect e; e.type=SUBACK; e.id=id; e.sent=q; e.t=S.now; e.n=v.size();
  for(auto&s:v){ SubOp op; op.o=s; if(x->ver<5){ op.o.nolocal=op.o.rap=false; op.o.rh=0; } op.subid=x->ver==5?sid:std::nullopt; op.s=q; op.ts=S.now; op.cn=n; auto&tl=n->sess->subs[s.filter]; bool nonec=true; if(!tl.empty()){ Cand cd; bool anynone=false,anysub=false; for(auto&k:cands(n->sess,tl,q,q)){ if(k.none) anynone=true; else anysub=true; } nonec=anynone; op.fresh_certain=!anysub; } else op.fresh_certain=true; op.fresh_possible=nonec; tl.push_back(op); e.idx.push_back({s.filter,(int)tl.size()-1}); }
  send(n,enc_subscribe(x->ver,id,v,x->ver==5?sid:std::nullopt)); n->exp.push_back(e); }
void World::unsubscribe(Cl*x,const std::vector<std::string>&v){ Harness hh; Cn*n=x->cur; if(!x->connected()) return; u16 id=pid_for(x); u64 q=sq(); Expect e; e.type=UNSUBACK; e.id=id; e.sent=q; e.t=S.now; e.n=v.size(); for(auto&f:v){ SubOp op; op.sub=false; op.o.filter=f; op.s=q; op.ts=S.now; op.cn=n; auto&tl=n->sess->subs[f]; tl.push_back(op); e.idx.push_back({f,(int)tl.size()-1}); } send(n,enc_unsubscribe(x->ver,id,v)); n->exp.push_back(e); }
int World::new_msg(Cl*x,const std::string&t,int qos,bool retain,const MProps*p,size_t extra,bool empty,Rng*r){ MsgRec m; m.uid=msgs.size(); m.cl=x?x->i:-1; m.pconn=x&&x->cur?x->cur->no:-1; m.idx=m.uid; m.topic=t; m.qos=qos; m.retain=retain; if(p&&x&&x->ver==5) m.p=*p; if(!empty){ m.payload=strf("%d:",m.uid); static Rng z; if(extra) m.payload+=rnd_payload(r?*r:z,extra,m.p.payload_format.has_value()); } m.s=sq(); m.ts=S.now; msgs.push_back(m); if(retain) ret[t].push_back(m.uid); return m.uid; }
int World::publish(Cl*x,const std::string&t,int qos,bool retain,const MProps*p,size_t extra,bool empty,Rng*r){ Harness hh; Cn*n=x->cur; if(!x->connected()) return -1; if(x->out.size()>=n->br_recv_max) return -1; 
  int uid=new_msg(x,t,qos,retain,p,extra,empty,r); MsgRec&m=msgs[uid]; MProps pp=m.p; std::string topic=t;
  if(x->ver==5&&x->use_alias&&n->br_alias_max){ auto it=n->alias_out.find(t); if(it!=n->alias_out.end()){ pp.alias=it->second; topic=""; S.probe("alias_in_used"); } else { u16 al=n->alias_next<std::min<int>(n->br_alias_max,6)?++n->alias_next:(u16)(1+uid%std::min<int>(n->br_alias_max,6)); for(auto k=n->alias_out.begin();k!=n->alias_out.end();) if(k->second==al) k=n->alias_out.erase(k); else ++k; n->alias_out[t]=al; pp.alias=al; } }
  u16 pid=0; if(qos){ pid=pid_for(x); OutItem o; o.pid=pid; o.uid=uid; o.qos=qos; o.sent=m.s; x->out.push_back(o); m.pid=pid; }
  send(n,enc_publish(x->ver,topic,m.payload,qos,retain,false,pid,pp)); if(qos) expect(n,qos==1?PUBACK:PUBREC,pid,uid); return uid; }
void World::resend(Cl*x,size_t k){ Harness hh; Cn*n=x->cur; if(!x->connected()||x->out.empty()) return; auto&o=x->out[k%x->out.size()]; MsgRec&m=msgs[o.uid]; if(m.qos!=2) return; sq(); if(o.stage==0){ send(n,enc_publish(x->ver,m.topic,m.payload,2,m.retain,true,o.pid,m.p)); expect(n,PUBREC,o.pid,o.uid); S.probe("dup_publish"); } else { send(n,enc_ack(x->ver,PUBREL,o.pid)); expect(n,PUBCOMP,o.pid,o.uid); S.probe("dup_pubrel"); } }
void World::ping(Cl*x){ Harness hh; Cn*n=x->cur; if(!x->connected()) return; sq(); n->pings_out++; n->ping_sent_at.push_back(S.now); send(n,frame(PINGREQ,0,"")); expect(n,PINGRESP,0); }
void World::raw(Cl*x,const std::string&b){ Harness hh; if(x->cur&&!x->cur->closed) send(x->cur,b); }
void World::pause(Cl*x,bool on){ Harness hh; Cn*n=x->cur; if(!x->connected()) return; if(on){ if(n->m->paused) return; n->pauses.push_back({sq(),INF}); } else if(n->m->paused&&!n->pauses.empty()) n->pauses.back().second=sq(); mc_pause(n->m,on); }
void World::hold(Cl*x,bool on){ Harness hh; x->hold_acks=on; Cn*n=x->cur; if(!n||n->closed||n->ignored){ return; } n->hold=on; if(!on){ std::deque<std::pair<int,Packet>> q; q.swap(n->heldacks); for(auto&k:q){ if(n->closed) break; if(k.first>=0) do_ack(n,k.first,k.second); else { Sess*s=n->sess; u64 z=sq(); send(n,enc_ack(n->o.ver,PUBCOMP,k.second.id)); if(!n->outstanding.erase(k.second.id)) n->relcomp++; auto it=s->out.find(k.second.id); if(it!=s->out.end()){ s->dl[it->second].done_sent=z; s->dl[it->second].cn=n; } } } } }
bool World::barrier(Cl*x,u64 to){ if(!x->connected()) return false; Cn*n=x->cur; ping(x); bool ok=wait_until([&]{ return n->closed||n->ignored||(n->pings_out==0&&n->exp.empty()); },to); return ok&&!n->closed; }
// ---- model
std::vector<World::Cand> World::cands(Sess*,const std::vector<SubOp>&v,u64 s,u64 a){ std::vector<Cand> r; bool none=true; // state before the first operation
  for(size_t i=0;i<v.size();i++) if(v[i].a<s) none=false;
  if(none) r.push_back({true,nullptr});
  for(size_t i=0;i<v.size();i++){ auto&o=v[i]; if(o.s>a) continue; bool over=false; for(size_t j=i+1;j<v.size();j++) if(v[j].a<s&&!v[j].failed&&(o.a!=INF||v[j].cn==o.cn)){ over=true; break; } if(over) continue; if(o.failed){ if(o.a<s&&i>0){ continue; } r.push_back({true,nullptr}); continue; } if(o.sub) r.push_back({false,&o}); else r.push_back({true,nullptr}); }
  return r; }
int World::may_copies(Sess*s,const MsgRec&m,std::vector<const SubOp*>*out){ int n=0; if(m.never||m.s==INF) return 0; for(auto&f:s->subs){ const std::string*flt=&f.first; std::string sf; if(f.first.compare(0,7,"$share/")==0){ size_t k=f.first.find('/',7); if(k==std::string::npos) continue; sf=f.first.substr(k+1); flt=&sf; } if(!topic_matches(*flt,m.topic)) continue; bool any=false; for(auto&k:cands(s,f.second,m.s,m.attempts>1?INF:m.a)) if(!k.none){ if(k.op->o.nolocal&&m.cl==s->cl->i&&!m.will&&m.cl>=0) continue; if(k.op->o.nolocal&&m.will&&m.cl==s->cl->i) continue; any=true; if(out) out->push_back(k.op); } if(any) n++; } return n*(m.qos==1?m.attempts:1); }
int World::must_copies(Sess*s,const MsgRec&m,bool*q0,bool*upq){ int n=0; bool all0=true; if(upq) *upq=false; if(m.a==INF||m.denied||m.never||m.loose) return 0; if(s->e_lo<=m.a||s->b_hi>=m.s) return 0; for(auto&f:s->subs){ if(f.first.compare(0,7,"$share/")==0) continue; if(!topic_matches(f.first,m.topic)) continue; auto v=cands(s,f.second,m.s,m.a); bool ok=!v.empty(); bool anyq0=false; for(auto&k:v){ if(k.none){ ok=false; break; } if(k.op->o.nolocal&&m.cl==s->cl->i){ ok=false; break; } if(std::min(m.qos,std::min(k.op->o.qos,broker_max_qos))==0) anyq0=true; else if(upq) *upq=true; } if(ok){ n++; if(!anyq0) all0=false; } } if(q0) *q0=all0; return n; }
std::vector<int> World::ret_cands(const std::string&t,u64 lo,u64 hi,bool&none){ std::vector<int> r; auto it=ret.find(t); none=true; if(it==ret.end()) return r; auto&v=it->second; for(int u:v){ auto&m=msgs[u]; if(m.a<lo&&!m.denied) none=false; }
  for(int u:v){ auto&m=msgs[u]; if(m.s>hi||m.denied) continue; bool over=false; for(int u2:v) if(u2!=u){ auto&o=msgs[u2]; if(o.denied) continue; if(m.attempts<=1&&m.a<o.s&&o.a<lo){ over=true; break; } if(u2>u&&o.pconn==m.pconn&&o.a<lo&&!m.will&&!o.will&&o.attempts==1&&m.attempts==1){ over=true; break; } } if(over) continue; if(m.payload.empty()) none=true; else r.push_back(u); } return r; }
void World::on_publish(Cn*n,Packet&p){ Cl*x=n->cl; Sess*s=n->sess; n->deliveries++; x->rx_publishes++; notify_driver(); if(!s) fail("order",cn_name(n)+": PUBLISH before a session exists");
  // packet id and flow control
  if(p.qos){ auto it=s->out.find(p.id); if(it!=s->out.end()){ Deliv&d=s->dl[it->second]; if(d.cn==n&&d.done_sent==INF&&n->outstanding.count(p.id)) fail("limits",cn_name(n)+strf(": packet id %d is used for a PUBLISH while the earlier exchange with it is not complete",p.id)); }
    n->outstanding.insert(p.id); u32 lim=n->o.ver==5?n->o.p.recv_max.value_or(65535):65535; if(n->outstanding.size()>(u64)lim+n->relcomp) fail("limits",cn_name(n)+strf(": %zu unacknowledged messages, receive maximum is %u",n->outstanding.size(),lim)); }
  if(p.p.alias){ u16 am=n->o.ver==5?n->o.p.alias_max.value_or(0):0; if(*p.p.alias>am) fail("limits",cn_name(n)+strf(": topic alias %d above the client's maximum %d",*p.p.alias,am)); S.probe(p.alias_resolved?"alias_out_used":"alias_out_set"); }
  auto auto_ack=[&](int di){ if(!p.qos) return; if(n->hold||x->hold_acks){ n->hold=true; n->heldacks.push_back({di,p}); return; } if(x->ack_delay){ Packet pc=p; S.after(x->ack_delay,[this,n,di,pc]()mutable{ if(n->closed||n->ignored) return; if(n->hold){ n->heldacks.push_back({di,pc}); return; } do_ack(n,di,pc); }); return; } do_ack(n,di,p); };
  int uid=-1; if(!p.payload.empty()){ char*e; long v=strtol(p.payload.c_str(),&e,10); if(e&&*e==':'&&v>0&&v<(long)msgs.size()) uid=v; }
  Deliv d; d.cn=n; d.pid=p.id; d.qos=p.qos; d.retain=p.retain; d.seq=p.seq; d.at=S.now; d.uid=uid; d.subids=p.p.sub_ids; d.size=p.size;
  if(uid<0){ if(p.payload.empty()){ auto it=ret.find(p.topic); bool ok=false; if(it!=ret.end()) for(int u:it->second) if(msgs[u].payload.empty()) ok=true; if(!ok) fail("content",cn_name(n)+": empty message on "+p.topic+" that nobody published"); if(p.retain){ bool rap=false; for(auto&f:s->subs) for(auto&o:f.second) if(o.sub&&o.o.rap) rap=true; if(!rap) fail("retain",cn_name(n)+": empty message delivered with retain flag on "+p.topic); } s->dl.push_back(d); if(p.qos) s->out[p.id]=s->dl.size()-1; auto_ack(s->dl.size()-1); return; }
    if(on_foreign){ s->dl.push_back(d); if(p.qos) s->out[p.id]=s->dl.size()-1; on_foreign(n,p); auto_ack(s->dl.size()-1); return; }
    fail("content",cn_name(n)+strf(": received a message nobody published: topic '%s' payload '%.40s' (%zu bytes)",p.topic.c_str(),p.payload.c_str(),p.payload.size())); }
  MsgRec&m=msgs[uid];
  if(m.topic!=p.topic) fail("content",cn_name(n)+": "+msg_name(m)+" delivered on topic '"+p.topic+"'");
  if(m.payload!=p.payload) fail("content",cn_name(n)+": "+msg_name(m)+strf(" payload differs (%zu bytes published, %zu delivered)",m.payload.size(),p.payload.size()));
  if(n->o.ver==5){ auto ne=[&](const char*w){ fail("content",cn_name(n)+": "+msg_name(m)+" property "+w+" differs"); }; auto&a=m.p; auto&b=p.p; if(a.content_type!=b.content_type) ne("content type"); if(a.response_topic!=b.response_topic) ne("response topic"); if(a.corr!=b.corr) ne("correlation data"); if(a.payload_format.value_or(0)!=b.payload_format.value_or(0)) ne("payload format"); if(a.user!=b.user) ne("user properties"); 
    bool rr=p.retain&&m.retain; if(a.expiry&&!b.expiry) ne("message expiry (present/absent)"); if(!a.expiry&&b.expiry){ if(!rr||*b.expiry>ret_ceiling) ne("message expiry (present/absent)"); } if(a.expiry&&b.expiry){ double waited_max=(S.now-m.ts)/1e9; double hi=*a.expiry, lo=hi-waited_max-1.5; u64 t0=n->send_at; if(rr){ u64 ot=INF; bool lv=false; for(auto&f:s->subs) if(topic_matches(f.first.compare(0,7,"$share/")?f.first:"$none",m.topic)) for(auto&o:f.second) if(o.sub&&!o.failed){ ot=std::min(ot,o.ts); if(o.o.rap) lv=true; } if(!lv&&ot!=INF) t0=std::max(t0,ot); } double least=m.ta!=INF&&m.ta<t0?(t0-m.ta)/1e9:0; if(least>1.5&&(double)*b.expiry>hi-least+1.5+exp_tol) fail("expiry",cn_name(n)+": "+msg_name(m)+strf(" shows expiry %u, original %u, but waited at least %.1f s",*b.expiry,*a.expiry,least)); if(rr) lo=std::min(lo,(double)ret_ceiling-waited_max-1.5); if(*b.expiry>hi+0.5||(double)*b.expiry<lo-0.5-exp_tol) fail("expiry",cn_name(n)+": "+msg_name(m)+strf(" shows expiry %u, original %u, waited %.1f s",*b.expiry,*a.expiry,waited_max)); } }
  if(m.p.expiry&&m.ta!=INF){ u64 dead=m.ta+*m.p.expiry*SEC+expiry_slack; if(n->send_at>dead+expiry_slack||n->ping_acked_sent_at>dead+expiry_slack) { fail("expiry",cn_name(n)+": "+msg_name(m)+strf(" delivered %.1f s after publishing though it expires after %u s",(S.now-m.ta)/1e9,*m.p.expiry)); } }
  // redelivery or new?
  bool redeliv=false; if(p.qos){ auto it=s->out.find(p.id); if(it!=s->out.end()){ Deliv&d0=s->dl[it->second]; 
      if(d0.uid==uid&&d0.cn!=n&&!(d0.qos==1&&d0.done_sent!=INF&&d0.cn->confirmed>=d0.done_sent)&&!(d0.qos==2&&(d0.rec_confirmed||(d0.done_sent!=INF&&d0.cn->confirmed>=d0.done_sent)))){ redeliv=true; S.probe("redelivery"); if(d0.qos!=p.qos) fail("content",cn_name(n)+": "+msg_name(m)+" redelivered with another QoS"); }
      else if(d0.uid!=uid&&d0.cn!=n&&d0.ack_sent==INF&&d0.done_sent==INF&&d0.uid>0&&!msgs[d0.uid].p.expiry&&!limited&&!limits_hit&&!may_read){ fail("loss",cn_name(n)+strf(": packet id %d, under which unacknowledged ",p.id)+msg_name(msgs[d0.uid])+" was delivered, is reused for "+msg_name(m)); } } }
  if(m.never) fail("forbidden",cn_name(n)+": received "+msg_name(m)+" which must never be delivered ("+m.note+")");
  // is it allowed
  std::vector<const SubOp*> live; int mc=may_copies(s,m,&live); bool rok=false,lok=false; std::string why; std::set<int> qosset; int replay_allow=0; 
  for(auto*o:live){ bool er=o->o.rap&&m.retain; if(er!=p.retain&&check_retained) continue; lok=true; int q=std::min(m.qos,std::min(o->o.qos,broker_max_qos)); qosset.insert(q); }
  if(p.retain&&m.retain&&!m.payload.empty()){ for(auto&f:s->subs){ if(f.first.compare(0,7,"$share/")==0) continue; if(!topic_matches(f.first,m.topic)) continue; for(auto&o:f.second) if(o.sub&&o.s<p.seq&&!o.failed&&o.o.rh!=2&&(o.o.rh==0||o.fresh_possible)){ bool none; bool cur=false; for(int u:ret_cands(m.topic,o.s,INF,none)) if(u==uid) cur=true; if(ret_lag){ cur=true; } if(!cur) continue; if(m.ta!=INF){ u32 ee=std::min(m.p.expiry.value_or(0xFFFFFFFFu),ret_ceiling); if(ee!=0xFFFFFFFFu&&o.ts>m.ta+ee*SEC+expiry_slack+SEC){ why=strf(" (the subscribe came %.1f s after it was published and it expires after %u s)",(o.ts-m.ta)/1e9,ee); continue; } } replay_allow++; rok=true; qosset.insert(std::min(m.qos,std::min(o.o.qos,broker_max_qos))); } } }
  if(may_read&&!may_read(x,m,uid)) fail("acl",cn_name(n)+": received "+msg_name(m)+" without permission "+m.note);
  if(!lok&&!rok){ if(redeliv){} else if(mc==0) fail("routing",cn_name(n)+": received "+msg_name(m)+(p.retain?" as retained":"")+" without a matching subscription (or after it ended / it was superseded)"); else fail("retain",cn_name(n)+": "+msg_name(m)+strf(" delivered with retain flag %d, which is wrong for its subscription",p.retain)); }
  else if(!qosset.count(p.qos)&&!redeliv) fail("content",cn_name(n)+": "+msg_name(m)+strf(" delivered with QoS %d",p.qos));
  if(n->o.ver==5&&chk_subid&&!redeliv){ bool ok=false; for(auto*o:live) if((o->subid?std::vector<u32>{*o->subid}:std::vector<u32>{})==p.p.sub_ids) ok=true; if(!ok&&rok) for(auto&f:s->subs) if(topic_matches(f.first,m.topic)) for(auto&o:f.second) if(o.sub&&(o.subid?std::vector<u32>{*o.subid}:std::vector<u32>{})==p.p.sub_ids) ok=true; if(!ok&&(lok||rok)) fail("content",cn_name(n)+": "+msg_name(m)+strf(" carries subscription identifiers %s",p.p.sub_ids.empty()?"none":std::to_string(p.p.sub_ids[0]).c_str())+" that do not belong to the matching subscription"); }
  if(!redeliv){ bool asret=p.retain&&!lok; if(!asret&&!p.retain) s->fresh0[uid]++; int&cnt=asret?s->retfresh[uid]:p.retain||!m.retain?s->fresh[uid]:s->fresh0[uid]; if(!asret) s->fresh[uid]+=&cnt!=&s->fresh[uid]; if(asret||p.retain||!m.retain) cnt++; int allow=asret?replay_allow:mc+(p.retain?replay_allow:0); if(m.max_copies>=0) allow=std::min(allow,m.max_copies); if(cnt>allow&&chk_dup_fresh){ bool fin=false; for(auto&q:s->dl) if(q.uid==uid&&(q.rec_confirmed||q.released!=INF)) fin=true; fail("duplicate",cn_name(n)+": "+msg_name(m)+strf(" delivered %d times%s, %d allowed%s",cnt,asret?" as retained":"",allow,fin?" (an earlier delivery was already acknowledged)":"")); } }
  d.redelivery=redeliv; 
  // order
  if(chk_order&&!m.will&&!(p.retain&&(rok||!lok))&&m.attempts<=1&&m.pconn>=0){ std::string key=strf("%d/%d/%d/",m.pconn,m.qos,p.qos)+m.topic; auto it=n->order.find(key); if(it!=n->order.end()&&it->second>m.idx) fail("order",cn_name(n)+": "+msg_name(m)+" delivered after "+msg_name(msgs[it->second])+" which the same connection published later"); n->order[key]=m.idx; }
  s->dl.push_back(d); int di=s->dl.size()-1; if(p.qos){ if(redeliv){ int od=s->out[p.id]; if(s->dl[od].ack_sent!=INF) s->dl[di].ack_sent=INF; s->dl[od].released=INF; s->dl[od].done_sent=INF; s->dl[od].slot=-1; } s->out[p.id]=di; if(!redeliv) s->in_rec.erase(p.id); }
  if(on_deliv) on_deliv(s,s->dl[di],m);
  auto_ack(di); }
void World::do_ack(Cn*n,int di,Packet&p){ if(n->closed||n->ignored) return; Sess*s=n->sess; Deliv&d=s->dl[di]; u64 q=sq(); d.ack_sent=q; if(p.qos==1){ d.done_sent=q; d.cn=n; n->outstanding.erase(p.id); send(n,enc_ack(n->o.ver,PUBACK,p.id)); } 
  else { Rng r; r.seed(c.seed*977+d.uid*31+p.id); if(n->o.ver==5&&n->cl->neg_rec&&(int)r.below(100)<n->cl->neg_rec){ d.done_sent=q; n->outstanding.erase(p.id); send(n,enc_ack(5,PUBREC,p.id,0x83)); S.probe("neg_pubrec"); } else { s->in_rec.insert(p.id); send(n,enc_ack(n->o.ver,PUBREC,p.id)); expect(n,PUBREL,p.id); } } }
u64 World::upper_outstanding(Sess*s,const MsgRec&m,u64&bytes){ u64 cnt=0; bytes=0; std::vector<std::pair<u64,u64>> pings; for(auto&n:cns) if(n->sess==s) for(auto&k:n->ping_log) pings.push_back(k);
  for(size_t i=1;i<msgs.size();i++){ auto&o=msgs[i]; if(o.qos==0||o.s==INF||o.s>=m.a) continue; if(&o==&m) continue; int k=may_copies(s,o); 
    bool any=false; int rel=0,del=0; for(auto&d:s->dl) if(d.uid==o.uid&&d.qos>0){ any=true; if(d.slot==-1) continue; del++; if(d.released!=INF&&d.released<m.s) rel++; }
    if(o.retain&&k==0) for(auto&f:s->subs) if(topic_matches(f.first,o.topic)) k=std::max(k,1);
    if(k==0&&!any) continue; int left=std::max(k,del)-rel; if(!any&&o.a!=INF){ for(auto&pg:pings) if(pg.first>o.a&&pg.first<m.s){ left=0; break; } } if(left>0&&any&&rel>=del){ for(auto&pg:pings) if(o.a!=INF&&pg.first>o.a&&pg.first<m.s){ left=0; break; } }
    if(left>0){ cnt+=left; bytes+=left*(o.topic.size()+o.payload.size()); } }
  for(auto&d:s->dl) if(d.uid<0&&d.qos>0&&d.slot!=-1&&!(d.released!=INF&&d.released<m.s)){ cnt++; bytes+=d.size; }
  return cnt; }
bool World::quiesce(u64 to,bool){ u64 t0=S.now; for(auto&x:cls) if(x->connected()){ if(x->cur->m->paused) pause(x.get(),false); if(x->cur->hold||x->hold_acks) hold(x.get(),false); }
  for(int round=0;round<3;round++){ 
    for(auto&x:cls) if(x->connected()&&!x->exempt) ping(x.get());
    auto busy=[&](std::string*why){ for(auto&x:cls){ if(x->exempt||!x->cur||x->cur->closed||x->cur->ignored||x->cur->expect_close) continue; Cn*n=x->cur; if(n->refused) continue; if(!n->exp.empty()){ if(why) *why=cn_name(n)+strf(" waits for %s id %d sent %.3f s ago",ptype_names[n->exp.front().type],n->exp.front().id,(S.now-n->exp.front().t)/1e9); return true; } if(!x->out.empty()){ if(why) *why=cn_name(n)+strf(" has an unfinished outgoing exchange id %d",x->out[0].pid); return true; } if(!n->outstanding.empty()){ if(why) *why=cn_name(n)+strf(" was not sent PUBREL for id %d",*n->outstanding.begin()); return true; } } return false; };
    if(!wait_until([&]{ return !busy(nullptr); },t0+to>S.now?t0+to-S.now:1)){ std::string w; busy(&w); if(w.empty()) w="nothing now"; fail("stuck","no progress after faults stopped: "+w); }
    sleep_ns(round<2?200*MS:50*MS); }
  // a QoS 2 exchange that the broker had brought as far as PUBREL must go on from there in the resumed session
  for(auto&x:cls) if(!x->exempt&&x->connected()&&!x->cur->ignored&&!x->cur->expect_close&&!x->cur->refused&&x->sess&&!x->sess->ended&&!x->sess->murky&&!x->sess->void_before&&x->cur->sess==x->sess) for(auto&o:x->sess->out){ auto&d=x->sess->dl[o.second]; if(d.qos==2&&d.rec_confirmed&&d.done_sent==INF&&d.cn!=x->cur) fail("answer",cn_name(x->cur)+strf(": the QoS 2 exchange with id %d, waiting for PUBCOMP since conn %d, was not continued with a PUBREL",o.first,d.cn->no)); if(d.qos==2&&d.rec_confirmed&&d.cn!=x->cur) S.probe("pubrel_resumed"); }
  return true; }
void World::resume_all(){ for(auto&x:cls){ if(x->exempt||x->connected()) continue; if(x->cur&&!x->cur->closed&&!x->cur->ignored&&!x->cur->refused){ wait_connack(x.get(),60*SEC); if(x->connected()) continue; if(x->cur->got_disc){ Cn*o=x->cur; wait_until([&]{ return o->closed; },10*SEC); } if(x->cur&&!x->cur->closed) fail("stuck",cn_name(x->cur)+": CONNECT was not answered"); } if(!x->sess||x->sess->ended||x->sess->destroy) continue; connect(x.get(),false); if(!wait_connack(x.get(),60*SEC)){ if((allow_close||late_takeover(x->cur))&&x->cur->closed){ connect(x.get(),false); if(wait_connack(x.get(),60*SEC)) continue; } fail("stuck",cn_name(x->cur)+strf(": reconnect failed (refused %d reason %d closed %d)",x->cur->refused,x->cur->reason,x->cur->closed)); } } }
void World::broker_gone(Host&h,bool,bool){ for(auto&n:cns) if(n->host==h.idx&&!n->closed&&!n->ignored){ n->expect_close=true; n->why_close="maybe"; } }
void World::shutdown_begins(Host&h){ for(auto&n:cns) if(n->host==h.idx&&!n->closed&&!n->ignored){ n->expect_close=true; n->why_close="shutdown"; } for(size_t k=0;k<wills.size();k++){ auto&w=wills[k]; if(w.cn->host==h.idx&&(w.state==0||w.state==1)) will_open(w,false); } }
// all connections of that broker are gone, whether or not the client could see it
void World::conns_die(Host&h){ Harness hh; for(size_t i=0;i<cns.size();i++){ Cn*n=cns[i].get(); if(n->host!=h.idx||n->closed||n->ignored) continue; n->expect_close=true; n->m->no_parse=true; bool k=n->close_kind; mc_close(n->m); if(!k) on_closed(n); else n->closed=true; } }
// the broker stops, and may not have read what these connections sent last
void World::unread_ends(Host&h){ Harness hh; for(auto&n:cns) if(n->host==h.idx&&n->closed&&!n->ignored&&n->close_kind&&n->close_kind!=6&&n->m->c&&!n->m->c->e[1].closed){ S.probe("unread_end"); Sess*s=n->sess; if(s&&s==n->cl->sess&&!s->ended){ u64 o=n->o.ver==5?n->o.p.sess_expiry.value_or(0):s->expiry; s->gone_by=INF; if(s->must_until!=INF) s->must_until=std::min<u64>(s->must_until,S.now+std::min<u64>(o,s->expiry)*SEC-SEC); } for(auto&w:wills) if(w.cn==n.get()&&w.state==3&&w.normal) will_open(w,false); } }
void World::restart(Host&h,u64 down,int sig,std::function<void()> wd){ for(auto&x:cls) if(x->host==h.idx&&x->cur&&!x->cur->closed&&!x->cur->ignored&&!x->cur->established) disconnect(x.get(),2);
  unread_ends(h); std::vector<std::pair<int,u64>> dh;
  { Harness hh; for(auto&n:cns) if(n->host==h.idx&&!n->closed&&!n->ignored){ n->expect_close=true; n->why_close="shutdown"; } for(auto&w:wills) if(w.cn->host==h.idx&&w.state==0&&w.cn->established&&!w.cn->closed){ msgs[w.uid].s=sq(); msgs[w.uid].ts=S.now; if(msgs[w.uid].retain) ret[msgs[w.uid].topic].push_back(w.uid); } }
  if(!h.stop(120*SEC,sig)) violation("shutdown","broker %d did not end within 120 s of the signal",h.idx); if(h.in->exit_code) violation("shutdown","broker %d ended with code %d",h.idx,h.in->exit_code); sleep_ns(50*MS); conns_die(h); { Harness hh; for(size_t k=0;k<wills.size();k++){ auto&w=wills[k]; if(w.cn->host!=h.idx||(w.state!=1&&w.state!=2)) continue; for(auto&o:cns) if(o->cl==w.cn->cl&&o->no>w.cn->no&&!o->established&&!o->refused) w.amb=true; dh.push_back({(int)k,w.due_hi}); w.due_hi=S.now+100000*SEC; } } S.probe("restart"); exp_tol+=2; expiry_slack+=2*SEC; if(wd) wd();
  if(down) sleep_ns(down); h.start(); { Harness hh; for(auto&d:dh){ auto&w=wills[d.first]; int k=d.first; w.due_hi=std::max(d.second,S.now+will_slack+12*SEC); if(w.state==1||w.state==2) S.at(w.due_hi,[this,k]{ will_due(k); }); } } }
void World::final_check(){ if(stop_must) return;
  std::string limtext; u64 must_n=0; for(auto&sp:sess){ Sess*s=sp.get(); std::vector<std::pair<u64,Cn*>> pg; std::vector<u64> pa,pt; for(auto&n:cns) if(n->sess==s) for(size_t k=0;k<n->ping_log.size();k++) pg.push_back({n->ping_log[k].first,n.get()}), pa.push_back(n->ping_log[k].second), pt.push_back(n->ping_log_t[k]);
    for(size_t i=1;i<msgs.size();i++){ auto&m=msgs[i]; if(m.foreign) continue; if(m.s==INF) continue;
      { int f=0; auto it=s->fresh.find(m.uid); if(it!=s->fresh.end()) f=it->second; if(f&&chk_dup_fresh&&!m.retain){ int mc=may_copies(s,m); if(m.max_copies>=0) mc=std::min(mc,m.max_copies); if(f>mc) fail("duplicate",s->cl->id+": "+msg_name(m)+strf(" delivered %d times, %d allowed",f,mc)); } }
      if(m.s<s->void_before||m.payload.empty()) continue; bool q0=false,upq=false; int need=must_copies(s,m,&q0,&upq); if(!need) continue; if(must_read&&!must_read(s->cl,m,m.uid)) continue; if(q0&&!q0_must) continue;
      // was there an occasion by which it must have arrived?
      bool seen=s->fresh.count(m.uid)||s->retfresh.count(m.uid); if(!seen) for(auto&d:s->dl) if(d.uid==m.uid) seen=true; if(seen){ must_n++; continue; }
      bool due=false; Cn*dn=nullptr; u64 lim=s->e_lo; for(size_t k=0;k<pg.size();k++){ if(pg[k].first<=m.a||pa[k]>=lim) continue; if(m.p.expiry&&pt[k]+1200*MS+(u64)exp_tol*SEC>m.ts+*m.p.expiry*SEC) continue; Cn*n=pg[k].second; if(q0){ if(n->ack_seq>m.s) continue; bool pz=false; for(auto&z:n->pauses) if(z.first<m.a) pz=true; if(pz) continue; bool online=true; for(auto&n2:cns) if(n2->sess==s&&n2.get()!=n&&n2->send_seq<m.a&&n2->send_seq>n->send_seq) online=false; if(!online) continue; } due=true; dn=n; break; }
      if(!due) continue;
      if(s->cl->max_packet&&m.payload.size()+m.topic.size()*2+m.p.enc().size()+60>s->cl->max_packet) continue;
      if(upq){ u64 by; u64 up=upper_outstanding(s,m,by); u64 l=std::min<u64>(queue_limit,s->recv_max); limtext=strf(" [at most %d outstanding (%d bytes), limit %d, max packet %d]",(int)up,(int)by,(int)l,(int)s->cl->max_packet); if(up>=l||(by>0&&by>=queue_bytes)){ S.probe("limit_possible"); continue; } if(dn->o.ver==5&&dn->cap.recv_max&&up>=*dn->cap.recv_max) continue; }
      must_n++; fail("loss",cn_name(dn)+": "+msg_name(m)+" was never delivered although the subscription was active and "+(q0?"the connection stayed open":"the session exists")+limtext); } }
  S.probe("obligations",must_n);
  if(check_retained&&retained_must&&!ret_lag&&!may_read) for(auto&sp:sess){ Sess*s=sp.get(); if(s->cl->exempt) continue; for(auto&f:s->subs){ if(f.first.compare(0,7,"$share/")==0) continue; for(auto&o:f.second){ if(!o.sub||o.failed||o.a==INF||o.o.rh==2||(o.o.rh==1&&!o.fresh_certain)) continue; for(auto&rt:ret){ if(!topic_matches(f.first,rt.first)) continue; bool none; auto cs=ret_cands(rt.first,o.s,INF,none); if(none||cs.empty()) continue; bool odd=false; for(int u:cs) if((std::min(msgs[u].p.expiry.value_or(0xFFFFFFFFu),ret_ceiling)!=0xFFFFFFFFu&&o.ta+2*SEC+(u64)exp_tol*SEC>msgs[u].ts+std::min(msgs[u].p.expiry.value_or(0xFFFFFFFFu),ret_ceiling)*SEC)||msgs[u].denied||msgs[u].will||(s->cl->max_packet&&msgs[u].payload.size()+300>s->cl->max_packet)) odd=true; if(odd||limits_hit||limited) continue; 
        Cn*n=o.cn; bool due=false; for(auto&k:n->ping_log) if(k.first>o.a) due=true; bool q0=true; for(int u:cs) if(std::min(msgs[u].qos,o.o.qos)) q0=false; if(!due||(n->o.p.recv_max&&s->cl->ack_delay)||(!n->pauses.empty())||(q0&&n->closed&&n->close_kind!=1)) continue; if(n->closed||n->ignored) continue; bool got=false; for(auto&d:s->dl) if(d.retain&&d.uid>0&&d.seq>o.s&&msgs[d.uid].topic==rt.first) for(int u:cs) if(u==d.uid) got=true; 
        S.probe("retained_obligations"); if(!got) fail("retain",cn_name(n)+": new subscription to "+f.first+" did not get the retained "+msg_name(msgs[cs[0]])); } } } }
}
// ------------------------------------------------------------------ environment
SchedParams pick_sched(Ctx&c){ Rng&g=c.g; SchedParams p; switch(g.below(5)){ case 0: p.strat=ST_RANDOM; p.p_switch=0.5; break; case 1: p.strat=ST_STICKY; p.p_switch=0.02+0.2*g.unit(); break; case 2: p.strat=ST_PCT; S.pct_next=1+g.below(3000); break; default: p.strat=ST_SITES; p.p_switch=0.05; p.site_mod=8<<g.below(4); p.p_site=0.05+0.5*g.unit(); p.site_salt=g.next(); p.stall_min=20*US; p.stall_max=g.chance(0.3)?60*MS:3*MS; }
  if(g.chance(0.3)){ p.p_stall=0.0005+0.004*g.unit(); p.stall_max=20*MS; } if(g.chance(0.35)) p.p_alloc=0.002+0.03*g.unit(); if(g.chance(0.3)) p.p_spurious=0.02; p.tick_max=500+g.below(4000); return p; }
void swarm(Ctx&c,World&w,double faulty){ Rng&g=c.g; SchedParams sp=pick_sched(c); sp.off_after=S.sp.off_after; S.sp=sp; S.sp.off_after=c.preempt_off?c.preempt_off:UINT64_MAX;
  if(!c.feature("preemption",true)) S.preempt_on=false;
  NP=NetParams(); if(c.feature("latency",g.chance(0.7))){ NP.lat_max=g.logrange(50*US,20*MS); NP.lat_min=NP.lat_max/(1+g.below(10)); }
  if(c.feature("segmentation",g.chance(faulty))){ NP.p_seg=0.2+0.8*g.unit(); NP.seg_max=g.chance(0.4)?1+g.below(4):g.logrange(4,2000); }
  if(c.feature("smallbuf",g.chance(faulty*0.5))){ NP.snd_cap=g.logrange(64,4096); NP.rx_cap=g.logrange(64,8192); }
  Host&h=w.host(0); h.opt("thread_count",strf("%d",(int)(1+g.below(4)))); if(g.chance(0.4)) h.opt("client_initial_buffer_size",strf("%d",1<<(6+g.below(6)))); if(g.chance(0.3)) h.opt("log_level","debug"); }
}
