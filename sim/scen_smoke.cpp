#include "world.h"
using namespace sim;
SCENARIO(smoke){ World w(c); swarm(c,w); Host&h=w.host(); h.start(); Cl*a=w.client("c1",5),*b=w.client("c2",4); w.connect(a,true); w.connect(b,true); w.wait_connack(a); w.wait_connack(b); w.subscribe(b,{{"a/#",1},{"#",2}}); for(int i=0;i<5;i++) w.publish(a,"a/b",i%3,i&1,nullptr,20,false,&c.g); w.barrier(b); for(int i=0;i<5;i++) w.publish(a,"a/b",i%3,i&1,nullptr,20,false,&c.g); w.quiesce(); w.final_check(); w.shutdown_begins(h); if(!h.stop()) violation("shutdown","no"); if(h.in->exit_code) violation("shutdown","code"); }
