// A scripted client without a model: scenarios with their own oracle use it.
#pragma once
#include "mix.h"
namespace sim {
struct SC {
  std::string id; int ver=5; std::string ip,my_ip; int port=1883; Transport tr=TR_TCP; u64 rs=1; MC m; ConnectOpts o; bool up=false, answered=false, sp=false, autoack=true, closed=true; int reason=-1; MProps cp; u16 pid=0; 
  std::deque<Packet> in;            // everything but PUBLISH, PUBREL
  std::vector<Packet> msgs;         // PUBLISH, as they come
  std::map<u16,bool> rec; int no=0; u64 last=0; int got_disc=-1; std::function<void(Packet&)> tap;
  void open(bool clean,const MProps&p={},std::optional<Will> will={}); // sends CONNECT
  bool connect(bool clean,const MProps&p={},u64 timeout=20*SEC,std::optional<Will> will={});
  bool wait(int type,u16 id,u64 timeout,Packet*out=nullptr);
  std::vector<int> sub(const std::vector<Sub>&v,std::optional<u32> sid={},u64 timeout=20*SEC); // empty: no answer
  bool unsub(const std::vector<std::string>&v,u64 timeout=20*SEC);
  int pub(const std::string&topic,const std::string&payload,int qos=0,bool retain=false,const MProps&p={},u64 timeout=20*SEC); // reason code, -1 no answer, 0 for QoS 0
  bool ping(u64 timeout=20*SEC);
  void disc(int reason=0); void drop(int kind=2); // 2 RST, 3 FIN, 4 vanish
  u16 next(){ if(++pid==0) pid=1; return pid; }
};
struct Pool { std::vector<std::unique_ptr<SC>> v; Ctx&c; explicit Pool(Ctx&c):c(c){} SC* make(const std::string&id,int ver,Host&h,int port=0); };
bool quiet(u64 span,u64 timeout,const std::vector<SC*>&cs); // waits until none of them received anything for that long
}
