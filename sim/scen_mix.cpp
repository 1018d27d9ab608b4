#include "mix.h"
using namespace sim;
SCENARIO(mix_loss){ Prof p; p.persist=0.7; p.conn=10; p.disc=10; p.qos0=0.15; p.hold=4; p.pause=2; p.sys_faults=0.5; p.fault=2; p.threads_min=2; run_mix(c,p); }
SCENARIO(mix_route){ Prof p; p.sub=26; p.unsub=12; p.persist=0.3; p.conn=5; p.disc=4; p.qos0=0.5; p.purge=0.6; run_mix(c,p); }
SCENARIO(mix_content){ Prof p; p.props=0.9; p.alias=0.6; p.v5=0.8; p.big=0.15; p.retain=0.25; p.transports=0.5; p.trickle=0.3; p.sid=0.5; p.rap=0.4; p.maxpkt=0.3; p.pause=2; p.sys_faults=0.5; p.fault=2; run_mix(c,p); }
// retained messages: many sets, replacements and removals while subscribing
SCENARIO(mix_retain){ Prof p; p.retain=0.6; p.empty=0.25; p.sub=26; p.pub=34; p.rh=0.5; p.rap=0.4; p.v5=0.7; p.persist=0.4; p.expiry=0.1; p.burst=4; p.conn=6; p.disc=5; p.purge=0.3; p.recvmax=0.4; p.ackdelay=0.3; p.settle=true;
  p.setup=[&](World&w){ Rng&g=c.g; if(c.feature("retained_tree_purge",g.chance(0.3))) w.host().opt("retained_message_node_lifetime",g.chance(0.5)?"0":"1"); if(c.feature("retained_expiry_setting",g.chance(0.2))){ w.ret_ceiling=2+g.below(30); w.host().opt("expire_retained_messages_after_seconds",strf("%u",w.ret_ceiling)); } }; run_mix(c,p); }
// sessions: takeovers, clean starts, short expiry intervals
SCENARIO(mix_session){ Prof p; p.conn=24; p.disc=18; p.sub=14; p.pub=20; p.persist=0.75; p.short_expiry=0.7; p.altexp=0.3; p.clean_again=0.25; p.v5=0.6; p.sleep=10; p.sleep_max=20*SEC; p.vanish=0.1; p.threads_min=2; p.qos0=0.1; p.nc_hi=4; run_mix(c,p); }
SCENARIO(mix_will){ Prof p; p.will=1; p.conn=20; p.disc=18; p.sub=16; p.pub=10; p.persist=0.5; p.short_expiry=0.4; p.v5=0.7; p.sleep=12; p.sleep_max=15*SEC; p.vanish=0.15; p.setup=[](World&w){ w.chk_wills=true; }; run_mix(c,p); }
SCENARIO(mix_expiry){ Prof p; p.expiry=0.6; p.v5=0.9; p.persist=0.7; p.sleep=14; p.sleep_max=15*SEC; p.retain=0.3; p.disc=12; p.conn=10; p.pause=3; p.hold=3; p.props=0.3; run_mix(c,p); }
SCENARIO(mix_limits){ Prof p; p.recvmax=0.7; p.maxpkt=0.5; p.alias=0.8; p.v5=0.85; p.persist=0.6; p.smallq=0.3; p.hold=8; p.pub=44; p.burst=8; p.big=0.12; p.negrec=0.2; p.qos0=0.15; run_mix(c,p); }
SCENARIO(mix_slow){ Prof p; p.pause=10; p.big=0.17; p.pub=44; p.burst=8; p.persist=0.5; p.own_net=0.9; p.transports=0.3; p.ackdelay=0.3; p.trickle=0.3; p.qos0=0.2; p.setup=[&](World&w){ if(c.feature("small_output_buffer",c.g.chance(0.6))){ w.host().opt("client_max_write_buffer_size","65536"); w.q0_must=false; w.queue_bytes=4000000; w.host().opt("max_qos_bytes_pending_per_client","4000000"); } }; run_mix(c,p); }
