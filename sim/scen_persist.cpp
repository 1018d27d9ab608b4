// C12, C13: saved state
#include "mix.h"
using namespace sim;
static void persist_prof(Ctx&c,Prof&p){ p.persist=0.85; p.restart=7; p.conn=18; p.disc=9; p.sub=14; p.pub=34; p.retain=0.25; p.empty=0.15; p.qos0=0.1; p.hold=6; p.v5=0.7; p.props=0.5; p.sid=0.4; p.rap=0.3; p.nolocal=0.15; p.own_net=0.3; p.nc_hi=4; p.vanish=0.05; p.purge=0.2; p.ackdelay=0.2; p.recvmax=0.2; p.transports=0.05; p.sleep=6; p.clean_again=0.08; (void)c; }
SCENARIO(restart){ Prof p; persist_prof(c,p); p.expiry=0.1; p.short_expiry=0.3; p.setup=[&](World&w){ if(c.feature("interval_saves",c.g.chance(0.3))) w.host().opt("save_state_interval",strf("%d",(int)(300+c.g.below(100)))); }; if(c.g.chance(0.25)){ p.sleep_max=400*SEC; p.sleep=10; } run_mix(c,p); }
SCENARIO(restart_wills){ Prof p; persist_prof(c,p); p.will=1; p.disc=14; p.pub=14; p.short_expiry=0.2; p.setup=[](World&w){ w.chk_wills=true; }; p.sleep_max=10*SEC; run_mix(c,p); }
