// General workload: a random list of client operations, environment events and faults, run against one broker.
#pragma once
#include "world.h"
namespace sim {
struct Prof {
  int nc_lo=2,nc_hi=5,ops_lo=15,ops_hi=70;
  double conn=8,disc=8,sub=14,unsub=4,pub=34,bar=6,pause=0,hold=0,dup=2,sleep=8,fault=0,ping=2;
  double persist=0.5,v5=0.55,v3=0.1; double retain=0.1,qos0=0.25,props=0.4,big=0.05,alias=0.3,sid=0.3,nolocal=0.1,rap=0.2,rh=0.25,empty=0.15,expiry=0; double will=0; double clean_again=0.12; double vanish=0.15;
  double recvmax=0,maxpkt=0,negrec=0.05,ackdelay=0.1,trickle=0.1,transports=0.15; double short_expiry=0; double sys_faults=0; u64 sleep_max=3*SEC; int burst=5; size_t big_max=40000; bool settle=false; double same_filter=0.02; bool sparse_topics=false; double purge=0.3;
  double own_net=0.5; bool unused=false; int threads_min=1; double smallq=0; double altexp=0; double stop_restart=0; double reload=0,restart=0; u64 down_max=30*SEC; 
  std::function<void(World&)> setup,midway,finish; std::function<void(World&,Rng&)> tick;
};
void run_mix(Ctx&c,const Prof&p);
void mix_end(World&w,bool stop=true); void mix_calm(World&w);
struct OpList { Ctx&c; std::vector<std::function<void(Rng&)>> f; std::vector<u64> seeds; std::vector<double> gap; 
  explicit OpList(Ctx&c):c(c){}
  void add(const std::string&d,std::function<void(Rng&)> fn){ c.desc.push_back(d); f.push_back(std::move(fn)); seeds.push_back(c.g.next()); gap.push_back(c.g.unit()); }
  void run(); };
void add_tls(World&w,Host&h); void add_listeners(World&w,Host&h); extern const char*tls_cert; extern const char*tls_key;
std::string sub_desc(const std::vector<Sub>&v); MProps rnd_props(Rng&r); 
}
