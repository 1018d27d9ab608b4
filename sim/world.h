// World: simulated broker hosts, MQTT client automata and the reference model they are checked against.
#pragma once
#include "ctx.h"
namespace sim {
constexpr u64 INF=UINT64_MAX;
struct World; struct Cl; struct Cn; struct Sess;

struct Host {
  int idx=0; Disk disk; Instance* in=nullptr; std::string ip; std::vector<std::string> lines, blocks; bool default_listener=true; int starts=0; std::string extra_name;
  explicit Host(int i);
  void opt(const std::string& k,const std::string& v); // replaces an earlier value
  std::string conf() const; void write_conf();
  bool start(u64 timeout=60*SEC,bool must=true);   // boots and waits for the listener
  void spawn();                                    // boots only
  bool stop(u64 timeout=120*SEC,int sig=15);       // graceful
  void kill(bool machine);
  bool up() const; int port=1883;
};

struct MsgRec { int uid=0, cl=-1; int pconn=-1; int idx=0; std::string topic,payload; int qos=0; bool retain=false; MProps p; u64 s=0,a=INF; u64 ts=0,ta=INF; int attempts=1; bool denied=false, never=false, will=false, foreign=false; u16 pid=0; bool acked=false; u64 rel_a=INF; std::string note; u64 noack_seq=INF; int max_copies=-1; bool loose=false; };
struct SubOp { bool sub=true; Sub o; std::optional<u32> subid; u64 s=0,a=INF; u64 ts=0,ta=0; bool failed=false; Cn* cn=nullptr; bool fresh_possible=true, fresh_certain=false; };
struct Deliv { int uid; Cn* cn; u16 pid; int qos; bool retain; u64 seq,at; bool redelivery=false; int slot=0; u64 ack_sent=INF, done_sent=INF; u64 released=INF; std::vector<u32> subids; bool rec_confirmed=false; bool live_ambig=false; size_t size=0; };
struct OutItem { u16 pid; int uid; int qos; int stage=0; u64 sent=0; };

struct Sess { bool murky=false; /* an aborted CONNECT may have changed it */ // one session epoch on the broker
  Cl* cl=nullptr; u64 b_lo=0,b_hi=0; u64 e_lo=INF,e_hi=INF; // seq bounds of its life
  u32 expiry=0; bool destroy=false; std::map<std::string,std::vector<SubOp>> subs; 
  u64 must_until=INF, gone_by=INF; // time bounds when disconnected
  bool ended=false; int host=0; u64 void_before=0; 
  std::vector<Deliv> dl; std::map<u16,int> out; // pid -> latest delivery with that id that is not finished
  std::map<int,int> fresh; // uid -> number of fresh deliveries
  std::map<int,int> retfresh, fresh0; u16 recv_max=65535;
  std::set<u16> in_rec;  // QoS 2 ids for which we sent PUBREC and wait for PUBREL
  std::set<int> finished; // uids of completed (confirmed) deliveries
};
struct Expect { int type; u16 id; u64 sent; int uid=-1; u64 t=0; std::vector<std::pair<std::string,int>> idx; int n=0; };
struct Cn { // one connection of a client
  int no=0; Cl* cl=nullptr; MC m; ConnectOpts o; Sess* sess=nullptr; u64 send_seq=0, ack_seq=INF, close_seq=INF; u64 send_at=0, ack_at=0, close_at=INF; bool connacked=false, refused=false, established=false, closed=false, ignored=false; 
  bool expect_close=false; std::string why_close; int close_kind=0; // 1 normal disconnect,2 reset,3 fin,4 vanish,5 takeover,6 by the broker
  std::deque<Expect> exp; u64 confirmed=0; std::map<std::string,u16> alias_out; u16 alias_next=0; u16 br_alias_max=0; u32 br_max_packet=0; u16 br_recv_max=65535; int br_max_qos=2;
  u64 pings_out=0; std::vector<std::pair<u64,u64>> pauses; // seq intervals in which we did not read
  std::set<int> outstanding; std::map<std::string,int> order; int nconn=0; int disc_reason=-1; bool got_disc=false; u64 last_sent=0; std::vector<u64> ping_sent_at; u64 ping_acked_sent_at=0; std::vector<std::pair<u64,u64>> ping_log; std::vector<u64> ping_log_t; // (send seq, answer seq)
  int host=0; int relcomp=0; bool tainted=false; int will_uid=-1; u64 established_at=0; u64 deliveries=0; std::deque<std::pair<int,Packet>> heldacks; int reason=-1; bool hold=false; MProps cap; int pend_auth=0;
};
struct Cl { // logical client
  World* w=nullptr; int i=0; std::string id; int ver=4; Transport tr=TR_TCP; int port=1883; std::optional<std::string> user,pass; std::string ip; u16 keepalive=60; Cn* cur=nullptr; Sess* sess=nullptr; int host=0;
  u16 next_pid=0; std::vector<OutItem> out; bool persistent=false; u32 expiry=0; u16 recv_max=0; u32 max_packet=0; u16 alias_max=0; bool hold_acks=false; u64 ack_delay=0; bool autoping=true; bool use_alias=false; 
  std::map<std::string,u32> dummy; bool exempt=false; bool slow=false; int rx_publishes=0; bool no_resend=false; std::function<void(Cn*,Packet&)> tap; bool quiet_close_ok=false; bool acl_loose=false; int neg_rec=0; u64 rseed=0; bool no_pid_reuse_check=false; std::set<u16> banned; bool trickle=false; u64 gap_max=0; bool dup_ok=false;
  bool connected() const { return cur && cur->established && !cur->closed && !cur->ignored && !cur->expect_close; }
};
struct WillRec { bool early=false, amb=false, normal=false, fin=false, certain=false; int uid; Cn* cn; u32 delay=0; int state=0; bool may=false; bool must=false; bool lo_set=false, hi_set=false; u64 due_lo=0,due_hi=INF; };
struct World {
  Ctx& c; std::vector<std::unique_ptr<Host>> hosts; std::vector<std::unique_ptr<Cl>> cls; std::vector<std::unique_ptr<Cn>> cns; std::vector<std::unique_ptr<Sess>> sess; std::vector<MsgRec> msgs; // uid = index
  std::map<std::string,std::vector<int>> ret; // topic -> uids of retained publishes in send order
  std::vector<WillRec> wills;
  // parameters of the model
  bool check_retained=true; int exp_tol=0; u64 ret_lag=0; bool limits_hit=false; u32 queue_limit=512; u64 queue_bytes=65536; bool chk_answers=true; bool chk_order=true; bool chk_must=true; bool allow_close=false; bool chk_sp=true; u64 answer_bound=INF; bool limited=false; bool q0_must=true; bool will_check=false; bool chk_wills=false; bool retained_must=true; u64 expiry_slack=2*SEC; u32 ret_ceiling=2147483647; int broker_max_qos=2; bool stop_must=false; bool chk_subid=true; bool sp_ambiguous=false; u16 br_recv=512; bool dup_ret_ok=false; bool chk_props_connack=true; u64 will_slack=8*SEC; bool chk_dup_fresh=true;
  std::function<bool(Cl*,const MsgRec&,int)> may_read, must_read; // permissions, default all
  std::function<void(Sess*,Deliv&,const MsgRec&)> on_deliv;
  std::function<void(Cn*,Packet&)> on_foreign; // publish without a uid
  std::function<void(const std::string&)> on_quiet_check;
  explicit World(Ctx& c);
  Host& host(int i=0); Cl* client(const std::string& id,int ver=4);
  // client actions
  Cn* connect(Cl*,bool clean,std::optional<Will> will={},std::function<void(ConnectOpts&)> tweak=nullptr);
  bool wait_connack(Cl*,u64 timeout=30*SEC);
  void disconnect(Cl*,int kind,int reason=0,std::optional<u32> new_expiry={}); // kinds as close_kind
  void subscribe(Cl*,const std::vector<Sub>&,std::optional<u32> subid={});
  void unsubscribe(Cl*,const std::vector<std::string>&);
  int publish(Cl*,const std::string& topic,int qos,bool retain=false,const MProps* p=nullptr,size_t extra=0,bool empty=false,Rng* r=nullptr);
  int new_msg(Cl*,const std::string& topic,int qos,bool retain,const MProps* p,size_t extra,bool empty,Rng* r);
  void resend(Cl*,size_t k); // repeats an unfinished PUBLISH or PUBREL on the same connection
  void ping(Cl*);
  void pause(Cl*,bool); void hold(Cl*,bool);
  bool barrier(Cl*,u64 timeout=60*SEC);
  void raw(Cl*,const std::string& bytes);
  // end of run
  bool quiesce(u64 timeout=120*SEC,bool all_connect=false);
  void final_check();
  void resume_all(); // reconnects every persistent client that has a session
  // model
  struct Cand { bool none=false; const SubOp* op=nullptr; };
  std::vector<Cand> cands(Sess*,const std::vector<SubOp>& v,u64 s,u64 a);
  bool stable(Sess*,const MsgRec&);
  int may_copies(Sess*,const MsgRec&,std::vector<const SubOp*>* out=nullptr);
  int must_copies(Sess*,const MsgRec&,bool* q0=nullptr,bool* upq=nullptr);
  void on_packet(Cn*,Packet&); void on_publish(Cn*,Packet&); void on_connack(Cn*,Packet&); void on_closed(Cn*); void answer(Cn*,Packet&,int type); void do_ack(Cn*,int dl_index,Packet&);
  void expect(Cn*,int type,u16 id,int uid=-1); u16 pid_for(Cl*); void send(Cn*,const std::string&);
  void session_disconnected(Cn*,u64 detect_hi,bool normal,std::optional<u32> ne); void will_connacked(Cl*,Cn*); void will_open(WillRec&,bool must); void will_normal_raced(Cl*,Cn*); void will_ended(Cn*,bool normal,u64 lo,u64 hi,bool certain); void will_resumed(Cl*,Cn*);
  void fail(const char* cls,const std::string& s) __attribute__((noreturn));
  void check_outstanding_bound(Sess*,Cn*); u64 upper_outstanding(Sess*,const MsgRec&,u64& bytes);
  void shutdown_begins(Host&); void restart(Host&,u64 down,int sig=15,std::function<void()> while_down=nullptr); void will_due(int k); void conns_die(Host&); void unread_ends(Host&); void broker_gone(Host&,bool clean,bool keep_sessions); // all connections of that host end
  std::string cn_name(Cn*); std::string msg_name(const MsgRec&);
  std::vector<int> ret_cands(const std::string& topic,u64 lo,u64 hi,bool& none);
};
// randomised environment shared by all scenarios
void swarm(Ctx& c,World& w,double faulty=0.5);
SchedParams pick_sched(Ctx& c);
std::string rnd_payload(Rng& r,size_t n,bool text);
extern const std::vector<std::string> base_topics, base_filters;
}
