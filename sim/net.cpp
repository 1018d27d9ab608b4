// Simulated descriptors and network; interposed socket, epoll, eventfd and poll calls.
#include "sim.h"
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <netdb.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include "net.h"
using namespace sim;
#define RA __builtin_return_address(0)
namespace sim { extern u64 stdcxx_lo,stdcxx_hi; 
NetParams NP; std::map<std::string,DnsEntry> dns; char pollkey;
static std::map<std::string,ListenObj*> listeners; static std::map<std::string,HarnessListener> hlisteners; static int connids=0, ephem=20000;
static std::vector<std::weak_ptr<Conn>> allconns;

std::shared_ptr<FdObj> getfd(int fd,Instance*in){ if(!in) in=t_cur?t_cur->inst:nullptr; if(!in) return nullptr; auto it=in->fds.find(fd); return it==in->fds.end()?nullptr:it->second; }
int addfd(Instance*in,std::shared_ptr<FdObj> o){ Harness h; int fd=FD_BASE; for(auto&p:in->fds){ if(p.first==fd) fd++; else break; } o->fd=fd; o->inst=in; in->fds[fd]=o; return fd; }
void closefd(Instance*in,int fd){ Harness h; auto it=in->fds.find(fd); if(it==in->fds.end()) return; auto o=it->second; in->fds.erase(it); for(auto*e:std::set<EpollObj*>(o->watchers)) e->items.erase(fd), o->watchers.erase(e); o->on_close(); }
void FdObj::changed(){ for(auto*e:watchers) wake(e); wake(&pollkey); }

u32 ListenObj::ready(){ return q.empty()?0:(u32)EPOLLIN; }
void ListenObj::on_close(){ if(listening && listeners[key]==this) listeners.erase(key); for(auto&c:q){ net_reset(c,1); } q.clear(); }
static Endpoint& other(Conn*c,int side){ return c->e[1-side]; }
u32 StreamObj::ready(){ if(!conn) { return EPOLLHUP|EPOLLOUT; } if(err||failed) return EPOLLIN|EPOLLOUT|EPOLLERR|EPOLLHUP; if(connecting) return 0; Endpoint&e=conn->e[side]; u32 r=0; if(!e.rx.empty()||e.rx_fin||e.rst) r|=EPOLLIN; if(e.rx_fin) r|=EPOLLRDHUP; if(e.rst) r|=EPOLLERR|EPOLLHUP|EPOLLOUT; if(e.rx_fin&&e.fin_sent) r|=EPOLLHUP; 
  size_t out=e.inflight; if(out<e.snd_cap-e.snd_cap/3 || e.rst) r|=EPOLLOUT; return r; }
static void ep_changed(Endpoint&e){ if(auto o=e.obj.lock()) o->changed(); }
static void pump_held(Conn*c,int rside){ Endpoint&r=c->e[rside]; Endpoint&s=c->e[1-rside]; bool moved=false;
  while(!r.held.empty() && r.rx.size()<r.rx_cap && !(r.broker?false:(r.window_closed&&r.rx.size()>=r.rx_cap))){ std::string&d=r.held.front(); size_t n=std::min(d.size(),r.rx_cap-r.rx.size()); r.rx.append(d,0,n); s.inflight-=n; d.erase(0,n); if(d.empty()) r.held.pop_front(); moved=true; }
  if(moved){ ep_changed(s); } }
static void arrive(ConnP c,int rside,std::string d){ Endpoint&r=c->e[rside]; Endpoint&s=c->e[1-rside];
  if(c->dead) return;
  if(r.rst) return;
  if(r.closed){ s.inflight-=std::min(s.inflight,d.size()); if(!s.rst && !s.closed){ ConnP cc=c; S.after(NP.lat_min+S.rn.below(NP.lat_max),[cc,rside]{ Endpoint&s=cc->e[1-rside]; if(s.closed||cc->dead) return; s.rst=true; ep_changed(s); if(s.on_close) s.on_close(); }); } return; }
  r.held.push_back(std::move(d)); pump_held(c.get(),rside); ep_changed(r); if(r.on_data && !r.window_closed) r.on_data(); }
static u64 lat(Conn*c){ return c->lat_min+ (c->lat_max>c->lat_min? S.rn.below(c->lat_max-c->lat_min):0); }
static void xmit(ConnP c,int side,std::string d){ // in order delivery with seeded latency and segmentation
  Endpoint&s=c->e[side]; s.inflight+=d.size(); c->bytes[side]+=d.size(); size_t o=0;
  while(o<d.size()){ size_t n=d.size()-o; if(c->p_seg>0 && S.rn.chance(c->p_seg) && n>1){ n=1+S.rn.below(std::min(n,c->seg_max)); S.fault(F_SEGMENT); } else n=std::min(n,std::max<size_t>(c->seg_max,512));
    u64 t=std::max(s.last_arrival+1,S.now+lat(c.get())); s.last_arrival=t; std::string part=d.substr(o,n); int rs=1-side; 
    S.at(t,[c,rs,part]{ if(c->partition){ c->e[rs].held.push_back(part); return; } arrive(c,rs,part); }); o+=n; } }
void net_partition(const ConnP&c,bool on){ if(c->partition==on) return; c->partition=on; if(!on) for(int s=0;s<2;s++){ pump_held(c.get(),s); ep_changed(c->e[s]); if(c->e[s].on_data&&!c->e[s].window_closed) c->e[s].on_data(); } }
void net_dump(){ for(auto&wc:allconns){ auto c=wc.lock(); if(!c||c->dead) continue; for(int i=0;i<2;i++){ auto&e=c->e[i]; if(e.closed) continue; size_t h=0; for(auto&d:e.held) h+=d.size(); printf("conn%d side %d sent %llu rx %zu held %zu inflight %zu rst %d fin %d part %d win %d\n",c->id,i,(unsigned long long)c->bytes[i],e.rx.size(),h,e.inflight,e.rst,e.rx_fin,c->partition,e.window_closed); } } }
void net_send(const ConnP&c,int side,const std::string&d){ Harness h; if(c->e[side].closed||c->e[side].rst||c->dead) return; xmit(c,side,d); }
std::string net_read(const ConnP&c,int side,size_t max){ Endpoint&e=c->e[side]; std::string r; if(e.rx.size()<=max){ r.swap(e.rx); } else { r=e.rx.substr(0,max); e.rx.erase(0,max);} pump_held(c.get(),side); if(max==SIZE_MAX) while(!e.rx.empty()){ r+=e.rx; e.rx.clear(); pump_held(c.get(),side);} return r; }
static void fin_arrive(ConnP c,int rs){ Endpoint&r=c->e[rs]; if(c->dead||r.closed) return; if(c->partition||!r.held.empty()){ S.after(10*MS,[c,rs]{ fin_arrive(c,rs); }); return; } r.rx_fin=true; ep_changed(r); if(r.on_data&&!r.window_closed) r.on_data(); if(r.on_close&&!r.window_closed) r.on_close(); }
void net_close(const ConnP&c,int side){ Harness h; Endpoint&e=c->e[side]; if(e.closed) return; e.closed=true; if(c->dead) return; if(!e.fin_sent){ e.fin_sent=true; u64 t=std::max(e.last_arrival+1,S.now+lat(c.get())); e.last_arrival=t; int rs=1-side; ConnP cc=c; S.at(t,[cc,rs]{ fin_arrive(cc,rs); }); } 
  while(!e.held.empty()){ c->e[1-side].inflight-=std::min(c->e[1-side].inflight,e.held.front().size()); e.held.pop_front(); } ep_changed(c->e[1-side]); }
void net_reset(const ConnP&c,int side){ Harness h; Endpoint&e=c->e[side]; if(e.closed) return; e.closed=true; if(c->dead) return; int rs=1-side; ConnP cc=c; u64 t=S.now+lat(c.get()); if(S.rn.chance(0.7)) t=std::max(t,e.last_arrival+1); // a reset may overtake data
  S.at(t,[cc,rs]{ Endpoint&r=cc->e[rs]; if(cc->dead||r.closed||r.rst) return; r.rst=true; r.held.clear(); ep_changed(r); if(r.on_data&&!r.window_closed) r.on_data(); if(r.on_close) r.on_close(); }); }
void net_vanish(const ConnP&c){ Harness h; c->dead=true; }
void net_window(const ConnP&c,int side,bool cl){ Harness h; Endpoint&e=c->e[side]; e.window_closed=cl; if(!cl){ ConnP cc=c; S.after(1,[cc,side]{ Endpoint&e=cc->e[side]; if(e.window_closed||e.closed) return; pump_held(cc.get(),side); if(e.on_data) e.on_data(); if((e.rx_fin||e.rst)&&e.on_close) e.on_close(); }); } }
static std::string hostkey(const std::string&ip,int port){ return ip+":"+std::to_string(port); }
static std::string canon(const std::string&ip){ return ip; }
bool net_listening(const std::string&ip,int port){ return listeners.count(hostkey(ip,port))||hlisteners.count(hostkey(ip,port)); }
void net_listen_harness(const std::string&ip,int port,std::function<void(ConnP)> f){ hlisteners[hostkey(ip,port)].on_accept=f; }
void net_unlisten_harness(const std::string&ip,int port){ hlisteners.erase(hostkey(ip,port)); }
static ConnP mkconn(){ auto c=std::make_shared<Conn>(); c->id=++connids; c->lat_min=NP.lat_min; c->lat_max=NP.lat_max; c->p_seg=NP.p_seg; c->seg_max=NP.seg_max; for(auto&e:c->e){ e.conn=c.get(); e.snd_cap=NP.snd_cap; e.rx_cap=NP.rx_cap; } c->e[0].side=0; c->e[1].side=1; allconns.push_back(c); return c; }
std::map<std::string,int> syn_drop; // key -> 1 drop, used for "silent" remote hosts
static void syn(ConnP c,std::string key,std::function<void(int)> res){ // at the server
  auto it=listeners.find(key); auto hi=hlisteners.find(key);
  if(syn_drop.count(key)) return; // nothing ever answers
  if(hi!=hlisteners.end()){ c->established=true; auto f=hi->second.on_accept; f(c); S.after(lat(c.get()),[res]{ res(0); }); return; }
  if(it==listeners.end() || it->second->q.size()>=1024){ S.after(lat(c.get()),[res]{ res(ECONNREFUSED); }); return; }
  c->established=true; it->second->q.push_back(c); c->e[1].broker=true; it->second->changed(); S.after(lat(c.get()),[res]{ res(0); }); }
ConnP net_connect(const std::string&ip,int port,const std::string&my_ip,std::function<void(int)> res){ Harness h; auto c=mkconn(); c->peer_ip[0]=my_ip; c->peer_ip[1]=ip; c->port[0]=ephem++; c->port[1]=port; std::string k=hostkey(canon(ip),port); S.after(lat(c.get()),[c,k,res]{ syn(c,k,res); }); return c; }
void net_drop_instance(Instance*in,bool machine){ Harness h; std::vector<int> f; for(auto&p:in->fds) f.push_back(p.first); for(int fd:f){ auto o=in->fds[fd]; if(machine && o->type==FD_STREAM){ auto s=std::static_pointer_cast<StreamObj>(o); if(s->conn){ s->conn->e[s->side].closed=true; s->conn->e[s->side].held.clear(); } in->fds.erase(fd); for(auto*e:std::set<EpollObj*>(o->watchers)) e->items.erase(fd); o->watchers.clear(); } else closefd(in,fd); } }
void StreamObj::on_close(){ if(!conn) return; Endpoint&e=conn->e[side]; if(e.closed) return; if(!e.rx.empty()||!e.held.empty()) net_reset(conn,side); else net_close(conn,side); e.obj.reset(); }
u32 EventObj::ready(){ return (v?(u32)EPOLLIN:0u)|EPOLLOUT; }
EpollObj::~EpollObj(){}
void EpollObj::on_close(){ for(auto&p:items) if(auto o=p.second.o.lock()) o->watchers.erase(this); items.clear(); }
std::vector<ConnP> net_conns_of(Instance*in){ std::vector<ConnP> v; for(auto&p:in->fds) if(p.second->type==FD_STREAM){ auto s=std::static_pointer_cast<StreamObj>(p.second); if(s->conn) v.push_back(s->conn); } return v; }
} // ns

static inline bool can_preempt(const void* ra){ if(!simulated()) return false; u64 a=(u64)ra; Lib*l=t_cur->inst->lib; if(l && a>=l->lo && a<l->hi) return true; return a>=stdcxx_lo && a<stdcxx_hi; }
#define PT(w) do{ S.st.syscalls++; if(can_preempt(RA)) point(w,RA); }while(0)
template<class F> static F nxt(const char*n){ return (F)dlsym(RTLD_NEXT,n); }
#define SIMFD(fd) (simulated() && (fd)>=FD_BASE)
static int fail(int e){ errno=e; return -1; }
template<class T> static std::shared_ptr<T> as(int fd,FdType t){ auto o=getfd(fd); if(!o||o->type!=t) return nullptr; return std::static_pointer_cast<T>(o); }

static std::string sa_key(Instance*in,const struct sockaddr*a,socklen_t,int&port,std::string&ip){ 
  if(a->sa_family==AF_INET){ auto*s=(const sockaddr_in*)a; port=ntohs(s->sin_port); char b[64]; inet_ntop(AF_INET,&s->sin_addr,b,64); ip=b; return b; }
  if(a->sa_family==AF_INET6){ auto*s=(const sockaddr_in6*)a; port=ntohs(s->sin6_port); char b[64]; inet_ntop(AF_INET6,&s->sin6_addr,b,64); ip=b; return b; }
  if(a->sa_family==AF_UNIX){ auto*s=(const sockaddr_un*)a; port=0; ip=std::string("unix:")+s->sun_path; return ip; }
  (void)in; port=0; ip="?"; return ip; }
static void fill_sa(struct sockaddr*a,socklen_t*l,int fam,const std::string&ip,int port){ if(!a||!l) return; 
  if(fam==AF_INET6){ sockaddr_in6 s; memset(&s,0,sizeof s); s.sin6_family=AF_INET6; s.sin6_port=htons(port); inet_pton(AF_INET6,("::ffff:"+ip).c_str(),&s.sin6_addr); memcpy(a,&s,std::min<size_t>(*l,sizeof s)); *l=sizeof s; }
  else if(fam==AF_UNIX){ sockaddr_un s; memset(&s,0,sizeof s); s.sun_family=AF_UNIX; memcpy(a,&s,std::min<size_t>(*l,sizeof(sa_family_t))); *l=sizeof(sa_family_t); }
  else { sockaddr_in s; memset(&s,0,sizeof s); s.sin_family=AF_INET; s.sin_port=htons(port); inet_pton(AF_INET,ip.c_str(),&s.sin_addr); memcpy(a,&s,std::min<size_t>(*l,sizeof s)); *l=sizeof s; } }

static ssize_t stream_read(std::shared_ptr<StreamObj> o,void*b,size_t n){
  if(!o->conn) return fail(ENOTCONN); if(o->err){ int e=o->err; o->err=0; return fail(e); } Instance*in=o->inst; Endpoint&e=o->conn->e[o->side];
  if(in->f.eintr>0 && S.rf.chance(in->f.eintr)){ S.fault(F_EINTR); return fail(EINTR); }
  if(e.rx.empty()){ if(e.rst) return fail(ECONNRESET); if(e.rx_fin) return 0; return fail(EAGAIN); }
  size_t nf=o->side==1?o->conn->nofault:0;
  if(!nf && in->f.eagain>0 && S.rf.chance(in->f.eagain)){ S.fault(F_EAGAIN); return fail(EAGAIN); }
  size_t k=std::min(n,e.rx.size()); if(nf) o->conn->nofault-=std::min(nf,k); else if(k>1 && in->f.short_r>0 && S.rf.chance(in->f.short_r)){ k=1+S.rf.below(k); S.fault(F_SHORT_READ); }
  Harness h; memcpy(b,e.rx.data(),k); e.rx.erase(0,k); pump_held(o->conn.get(),o->side); S.st.bytes_in+=k; S.mix(k); return k; }
static ssize_t stream_write(std::shared_ptr<StreamObj> o,const void*b,size_t n){
  if(!o->conn) return fail(ENOTCONN); if(o->connecting) return fail(EAGAIN); if(o->err){ int e=o->err; o->err=0; return fail(e); } Instance*in=o->inst; Endpoint&e=o->conn->e[o->side];
  if(in->f.eintr>0 && S.rf.chance(in->f.eintr)){ S.fault(F_EINTR); return fail(EINTR); }
  if(e.rst) return fail(S.rf.chance(0.5)?EPIPE:ECONNRESET); if(e.fin_sent||o->failed) return fail(EPIPE);
  size_t room=e.inflight<e.snd_cap? e.snd_cap-e.inflight:0; if(n==0) return 0; if(!room) { S.probe("write_blocked"); return fail(EAGAIN); }
  size_t k=std::min(n,room); if(in->f.eagain>0 && S.rf.chance(in->f.eagain)){ S.fault(F_EAGAIN); auto w=o; S.after(1+S.rf.below(200*US),[w]{ w->changed(); }); return fail(EAGAIN); }
  if(k<n) S.probe("write_partial"); if(k>1 && in->f.short_w>0 && S.rf.chance(in->f.short_w)){ k=1+S.rf.below(k); S.fault(F_SHORT_WRITE); }
  Harness h; S.st.bytes_out+=k; S.mix(k*3); xmit(o->conn,o->side,std::string((const char*)b,k)); return k; }
namespace sim { ssize_t file_read(std::shared_ptr<FdObj>,void*,size_t); ssize_t file_write(std::shared_ptr<FdObj>,const void*,size_t); int file_fcntl_lock(std::shared_ptr<FdObj>,int cmd,struct flock*); i64 file_seek(std::shared_ptr<FdObj>,i64,int); }
extern "C" {
static ssize_t do_read(int fd,void*b,size_t n){ auto o=getfd(fd); if(!o) return fail(EBADF);
  switch(o->type){ case FD_STREAM: return stream_read(std::static_pointer_cast<StreamObj>(o),b,n);
   case FD_EVENT:{ auto e=std::static_pointer_cast<EventObj>(o); if(!e->v) { if(e->nonblock) return fail(EAGAIN); while(!e->v) block(e.get(),UINT64_MAX,"eventfd"); } u64 v=e->sem?1:e->v; e->v-=v; memcpy(b,&v,8); return 8; }
   case FD_FILE: return file_read(o,b,n); default: return fail(EINVAL);} }
static ssize_t do_write(int fd,const void*b,size_t n){ auto o=getfd(fd); if(!o) return fail(EBADF);
  switch(o->type){ case FD_STREAM: return stream_write(std::static_pointer_cast<StreamObj>(o),b,n);
   case FD_EVENT:{ auto e=std::static_pointer_cast<EventObj>(o); u64 v; memcpy(&v,b,8); e->v+=v; e->changed(); wake(e.get()); return 8; }
   case FD_FILE: return file_write(o,b,n); default: return fail(EINVAL);} }
ssize_t read(int fd,void*b,size_t n){ if(!SIMFD(fd)) return syscall(SYS_read,fd,b,n); PT("read"); return do_read(fd,b,n); }
ssize_t write(int fd,const void*b,size_t n){ if(!SIMFD(fd)){ if(simulated()&&(fd==1||fd==2)){ Harness h; if(t_cur->inst->console.size()<65536) t_cur->inst->console.append((const char*)b,n); return n; } return syscall(SYS_write,fd,b,n);} PT("write"); return do_write(fd,b,n); }
ssize_t recv(int fd,void*b,size_t n,int fl){ if(!SIMFD(fd)) return syscall(SYS_recvfrom,fd,b,n,fl,0,0); PT("recv"); if(fl&MSG_PEEK){ auto o=as<StreamObj>(fd,FD_STREAM); if(!o||!o->conn) return fail(EINVAL); auto&e=o->conn->e[o->side]; if(e.rx.empty()) return e.rx_fin?0:fail(EAGAIN); size_t k=std::min(n,e.rx.size()); memcpy(b,e.rx.data(),k); return k; } return do_read(fd,b,n); }
ssize_t send(int fd,const void*b,size_t n,int fl){ if(!SIMFD(fd)) return syscall(SYS_sendto,fd,b,n,fl,0,0); PT("send"); return do_write(fd,b,n); }
ssize_t readv(int fd,const struct iovec*v,int c){ if(!SIMFD(fd)) return syscall(SYS_readv,fd,v,c); PT("readv"); ssize_t t=0; for(int i=0;i<c;i++){ ssize_t r=do_read(fd,v[i].iov_base,v[i].iov_len); if(r<0) return t?t:r; t+=r; if((size_t)r<v[i].iov_len) break; } return t; }
ssize_t writev(int fd,const struct iovec*v,int c){ if(!SIMFD(fd)){ if(simulated()&&(fd==1||fd==2)){ ssize_t t=0; for(int i=0;i<c;i++) t+=v[i].iov_len; return t; } return syscall(SYS_writev,fd,v,c);} PT("writev"); ssize_t t=0; for(int i=0;i<c;i++){ if(!v[i].iov_len) continue; ssize_t r=do_write(fd,v[i].iov_base,v[i].iov_len); if(r<0) return t?t:r; t+=r; if((size_t)r<v[i].iov_len) break; } return t; }
int close(int fd){ if(!SIMFD(fd)) return syscall(SYS_close,fd); PT("close"); if(!getfd(fd)) return fail(EBADF); closefd(t_cur->inst,fd); return 0; }
int shutdown(int fd,int how) noexcept { if(!SIMFD(fd)) return syscall(SYS_shutdown,fd,how); auto o=as<StreamObj>(fd,FD_STREAM); if(!o||!o->conn) return fail(ENOTCONN); Harness h; if(how!=SHUT_RD){ auto&e=o->conn->e[o->side]; if(!e.fin_sent){ e.fin_sent=true; u64 t=std::max(e.last_arrival+1,S.now+lat(o->conn.get())); e.last_arrival=t; auto c=o->conn; int rs=1-o->side; S.at(t,[c,rs]{ fin_arrive(c,rs); }); } } return 0; }
int socket(int fam,int type,int proto) noexcept { if(!simulated()) return syscall(SYS_socket,fam,type,proto); PT("socket"); Instance*in=t_cur->inst; if(in->f.fd_full||(in->f.p_socket>0&&S.rf.chance(in->f.p_socket))){ S.fault(F_SOCKET); return fail(EMFILE); } Harness h; auto o=std::make_shared<SockObj>(); o->family=fam; o->nonblock=type&SOCK_NONBLOCK; return addfd(in,o); }
int bind(int fd,const struct sockaddr*a,socklen_t l) noexcept { if(!SIMFD(fd)) return syscall(SYS_bind,fd,a,l); PT("bind"); auto o=as<SockObj>(fd,FD_SOCK); if(!o) return fail(EINVAL); Harness h; int port; std::string ip; sa_key(t_cur->inst,a,l,port,ip); Instance*in=t_cur->inst;
  if(in->f.bind_fail>0){ in->f.bind_fail--; S.fault(F_BIND); return fail(EADDRINUSE); }
  std::string pre=o->family==AF_INET6?"6:":""; std::string k= o->family==AF_UNIX? ip : pre+in->ip+":"+std::to_string(port); if(listeners.count(k) && o->family!=AF_UNIX) return fail(EADDRINUSE); o->bound=k; o->port=port; 
  if(o->family==AF_UNIX && in->disk){ in->disk->live[ip.substr(5)]=std::make_shared<FNode>(); in->disk->live[ip.substr(5)]->mode=0140777; }
  return 0; }
int listen(int fd,int) noexcept { if(!SIMFD(fd)) return syscall(SYS_listen,fd,128); PT("listen"); auto o=as<SockObj>(fd,FD_SOCK); if(!o) return fail(EINVAL); Harness h; Instance*in=t_cur->inst; if(listeners.count(o->bound) && !(o->family==AF_UNIX)) return fail(EADDRINUSE);
  auto n=std::make_shared<ListenObj>(); n->key=o->bound; n->family=o->family; n->listening=true; n->fd=fd; n->inst=in; n->nonblock=o->nonblock; 
  for(auto*e:std::set<EpollObj*>(o->watchers)){ auto&it=e->items[fd]; it.o=n; n->watchers.insert(e); }
  o->watchers.clear(); in->fds[fd]=n; listeners[n->key]=n.get(); return 0; }
static int do_accept(int fd,struct sockaddr*a,socklen_t*l){ auto o=as<ListenObj>(fd,FD_LISTEN); if(!o) return fail(EINVAL); Instance*in=t_cur->inst; if(o->q.empty()) return fail(EAGAIN);
  if(in->f.fd_full || in->f.emfile>0){ if(in->f.emfile>0) in->f.emfile--; S.fault(F_ACCEPT_EMFILE); return fail(S.rf.chance(0.7)?EMFILE:ENFILE); }
  if(in->f.p_accept>0 && S.rf.chance(in->f.p_accept)){ S.fault(F_ACCEPT_ABORT); int k=S.rf.below(4); if(k==0){ Harness h; auto c=o->q.front(); o->q.pop_front(); net_reset(c,1); return fail(ECONNABORTED);} return fail(k==1?EINTR:k==2?ENOBUFS:EAGAIN); }
  Harness h; auto c=o->q.front(); o->q.pop_front(); auto s=std::make_shared<StreamObj>(); s->conn=c; s->side=1; s->family=o->family; c->e[1].obj=s; c->e[1].broker=true; fill_sa(a,l,o->family,c->peer_ip[0],c->port[0]); return addfd(in,s); }
int accept(int fd,struct sockaddr*a,socklen_t*l){ if(!SIMFD(fd)) return syscall(SYS_accept,fd,a,l); PT("accept"); return do_accept(fd,a,l); }
int accept4(int fd,struct sockaddr*a,socklen_t*l,int fl){ if(!SIMFD(fd)) return syscall(SYS_accept4,fd,a,l,fl); PT("accept"); int r=do_accept(fd,a,l); if(r>=0) getfd(r)->nonblock=fl&SOCK_NONBLOCK; return r; }
int connect(int fd,const struct sockaddr*a,socklen_t l){ if(!SIMFD(fd)) return syscall(SYS_connect,fd,a,l); PT("connect"); auto so=as<SockObj>(fd,FD_SOCK); if(!so) return fail(EISCONN); Harness h; Instance*in=t_cur->inst; int port; std::string ip; sa_key(in,a,l,port,ip); 
  auto s=std::make_shared<StreamObj>(); auto c=mkconn(); s->conn=c; s->side=0; s->connecting=true; s->fd=fd; s->inst=in; s->nonblock=so->nonblock; s->family=so->family; c->e[0].broker=true; c->e[0].obj=s; c->peer_ip[0]=in->ip; c->peer_ip[1]=ip; c->port[0]=ephem++; c->port[1]=port;
  for(auto*e:std::set<EpollObj*>(so->watchers)){ e->items[fd].o=s; s->watchers.insert(e); } so->watchers.clear(); in->fds[fd]=s;
  std::string k=hostkey(ip.rfind("::ffff:",0)==0?ip.substr(7):ip,port); S.after(lat(c.get()),[c,k,s]{ syn(c,k,[s](int e){ if(!s->connecting) return; s->connecting=false; if(e){ S.fault(F_CONNECT_REFUSED); s->err=e; s->failed=true; } s->changed(); }); });
  if(k.find(":")!=std::string::npos && syn_drop.count(k)){ S.fault(F_CONNECT_TIMEOUT); S.after(127*SEC,[s]{ if(s->connecting){ s->connecting=false; s->err=ETIMEDOUT; s->failed=true; s->changed(); } }); }
  return fail(EINPROGRESS); }
int setsockopt(int fd,int a,int b,const void*c,socklen_t l) noexcept { if(!SIMFD(fd)) return syscall(SYS_setsockopt,fd,a,b,c,l); return getfd(fd)?0:fail(EBADF); }
int getsockopt(int fd,int lv,int op,void*v,socklen_t*l) noexcept { if(!SIMFD(fd)) return syscall(SYS_getsockopt,fd,lv,op,v,l); auto o=getfd(fd); if(!o) return fail(EBADF); int r=0; if(lv==SOL_SOCKET&&op==SO_ERROR&&o->type==FD_STREAM){ auto s=std::static_pointer_cast<StreamObj>(o); r=s->err; s->err=0; if(!r&&s->conn&&s->conn->e[s->side].rst) r=ECONNRESET; } if(v&&l&&*l>=4){ memcpy(v,&r,4); *l=4; } return 0; }
int getpeername(int fd,struct sockaddr*a,socklen_t*l) noexcept { if(!SIMFD(fd)) return syscall(SYS_getpeername,fd,a,l); auto o=as<StreamObj>(fd,FD_STREAM); if(!o||!o->conn) return fail(ENOTCONN); fill_sa(a,l,o->family,o->conn->peer_ip[1-o->side],o->conn->port[1-o->side]); return 0; }
int getsockname(int fd,struct sockaddr*a,socklen_t*l) noexcept { if(!SIMFD(fd)) return syscall(SYS_getsockname,fd,a,l); auto o=as<StreamObj>(fd,FD_STREAM); if(!o||!o->conn) return fail(ENOTCONN); fill_sa(a,l,o->family,o->conn->peer_ip[o->side],o->conn->port[o->side]); return 0; }
int eventfd(unsigned v,int fl) noexcept { if(!simulated()) return syscall(SYS_eventfd2,v,fl); PT("eventfd"); Instance*in=t_cur->inst; if(in->f.p_eventfd>0&&S.rf.chance(in->f.p_eventfd)){ S.fault(F_EVENTFD); return fail(EMFILE); } Harness h; auto e=std::make_shared<EventObj>(); e->v=v; e->nonblock=fl&EFD_NONBLOCK; e->sem=fl&EFD_SEMAPHORE; return addfd(in,e); }
int epoll_create(int) noexcept { if(!simulated()) return syscall(SYS_epoll_create1,0); PT("epoll_create"); Harness h; return addfd(t_cur->inst,std::make_shared<EpollObj>()); }
int epoll_create1(int f) noexcept { if(!simulated()) return syscall(SYS_epoll_create1,f); PT("epoll_create"); Harness h; return addfd(t_cur->inst,std::make_shared<EpollObj>()); }
int epoll_ctl(int ep,int op,int fd,struct epoll_event*ev) noexcept { if(!SIMFD(ep)) return syscall(SYS_epoll_ctl,ep,op,fd,ev); PT("epoll_ctl"); auto e=as<EpollObj>(ep,FD_EPOLL); if(!e) return fail(EBADF); auto o=getfd(fd); if(!o) return fail(EBADF); Instance*in=t_cur->inst; 
  if(o->type==FD_FILE||o->type==FD_DIR) return fail(EPERM);
  Harness h; if(op==EPOLL_CTL_ADD){ if(e->items.count(fd)) return fail(EEXIST); if(in->f.p_epoll_ctl>0&&o->type==FD_STREAM&&S.rf.chance(in->f.p_epoll_ctl)){ S.fault(F_EPOLL_CTL); return fail(S.rf.chance(0.5)?ENOMEM:ENOSPC); } e->items[fd]={o,ev->events,ev->data.u64,0}; o->watchers.insert(e.get()); }
  else if(op==EPOLL_CTL_MOD){ auto it=e->items.find(fd); if(it==e->items.end()) return fail(ENOENT); it->second.events=ev->events; it->second.data=ev->data.u64; it->second.et=0; }
  else { if(!e->items.erase(fd)) return fail(ENOENT); o->watchers.erase(e.get()); }
  wake(e.get()); return 0; }
int epoll_pwait(int ep,struct epoll_event*ev,int max,int to,const sigset_t*) ;
int epoll_wait(int ep,struct epoll_event*ev,int max,int to){ if(!SIMFD(ep)) return syscall(SYS_epoll_pwait,ep,ev,max,to,nullptr,8); PT("epoll_wait"); auto e=as<EpollObj>(ep,FD_EPOLL); if(!e) return fail(EBADF); u64 dl= to<0?UINT64_MAX:S.now+(u64)to*MS; Instance*in=t_cur->inst;
  for(;;){ deliver_signals(t_cur); if(t_cur->got_signal){ t_cur->got_signal=false; return fail(EINTR); }
    if(in->f.eintr>0&&S.rf.chance(in->f.eintr/4)){ S.fault(F_EPOLL_EINTR); return fail(EINTR); }
    int n=0; { Harness h; std::vector<std::pair<u32,u64>> r; for(auto&p:e->items){ auto o=p.second.o.lock(); if(!o) continue; u32 rd=o->ready()&(p.second.events|EPOLLERR|EPOLLHUP); if((p.second.events&EPOLLET)){ u32 nw=rd&~p.second.et; p.second.et=o->ready(); rd=nw; } if(rd) r.push_back({rd,p.second.data}); if(rd&&(p.second.events&EPOLLONESHOT)) p.second.events=0; }
      for(size_t i=r.size();i>1;i--) std::swap(r[i-1],r[S.rs.below(i)]);
      int lim=std::min<int>(max,r.size()); if(lim>1&&S.rs.below(16)==0) lim=1+S.rs.below(lim); for(;n<lim;n++){ ev[n].events=r[n].first; ev[n].data.u64=r[n].second; } }
    if(n){ S.mix(n); return n; } if(to==0||S.now>=dl) return 0;
    t_cur->interrupted=false; block(e.get(),dl,"epoll_wait"); } }
int epoll_pwait(int ep,struct epoll_event*ev,int max,int to,const sigset_t*){ return epoll_wait(ep,ev,max,to); }
int poll(struct pollfd*p,nfds_t n,int to){ if(!simulated()) return syscall(SYS_poll,p,n,to); PT("poll"); u64 dl= to<0?UINT64_MAX:S.now+(u64)to*MS; for(;;){ deliver_signals(t_cur); int c=0; for(nfds_t i=0;i<n;i++){ p[i].revents=0; auto o=getfd(p[i].fd); if(!o){ if(p[i].fd>=0){ p[i].revents=POLLNVAL; c++; } continue; } u32 r=o->ready(); p[i].revents=r&(p[i].events|POLLERR|POLLHUP); if(p[i].revents) c++; } if(c) return c; if(to==0||S.now>=dl) return 0; if(t_cur->got_signal){ t_cur->got_signal=false; return fail(EINTR);} block(&pollkey,dl,"poll"); } }
int fcntl(int fd,int cmd,...){ va_list a; va_start(a,cmd); void*arg=va_arg(a,void*); va_end(a); if(!SIMFD(fd)) return syscall(SYS_fcntl,fd,cmd,arg); auto o=getfd(fd); if(!o) return fail(EBADF); 
  switch(cmd){ case F_GETFL: return O_RDWR|(o->nonblock?O_NONBLOCK:0); case F_SETFL: o->nonblock=(long)arg&O_NONBLOCK; return 0; case F_GETFD: return 0; case F_SETFD: return 0; case F_SETLK: case F_SETLKW: case F_GETLK: return file_fcntl_lock(o,cmd,(struct flock*)arg); default: return 0; } }
int fcntl64(int fd,int cmd,...){ va_list a; va_start(a,cmd); void*arg=va_arg(a,void*); va_end(a); return fcntl(fd,cmd,arg); }
int ioctl(int fd,unsigned long rq,...) noexcept { va_list a; va_start(a,rq); void*arg=va_arg(a,void*); va_end(a); if(!SIMFD(fd)) return syscall(SYS_ioctl,fd,rq,arg); auto o=getfd(fd); if(!o) return fail(EBADF); if(rq==FIONBIO){ o->nonblock=*(int*)arg; return 0; } if(rq==FIONREAD&&o->type==FD_STREAM){ auto s=std::static_pointer_cast<StreamObj>(o); *(int*)arg=s->conn?s->conn->e[s->side].rx.size():0; return 0; } return 0; }

// --- asynchronous name lookup
struct GaiState { int err; std::vector<std::string> ips; bool done; };
static std::map<struct gaicb*,std::shared_ptr<GaiState>>& gais(){ static auto*m=new std::map<struct gaicb*,std::shared_ptr<GaiState>>; return *m; }
int getaddrinfo_a(int,struct gaicb*l[],int n,struct sigevent*) { if(!simulated()) return EAI_SYSTEM; PT("getaddrinfo_a"); Instance*in=t_cur->inst; Harness h; if(in->f.p_dns>0&&S.rf.chance(in->f.p_dns/2)){ S.fault(F_DNS); return EAI_AGAIN; }
  for(int i=0;i<n;i++){ auto g=std::make_shared<GaiState>(); g->done=false; g->err=0; struct gaicb*q=l[i]; std::string name=q->ar_name; int fam=q->ar_request?q->ar_request->ai_family:0; gais()[q]=g; q->ar_result=nullptr;
    bool bad=in->f.p_dns>0&&S.rf.chance(in->f.p_dns); if(bad) S.fault(F_DNS); u64 d=1+S.rf.below(in->f.dns_delay_max); std::weak_ptr<GaiState> wg=g; Instance*ip=in;
    S.after(d,[wg,name,bad,q,ip,fam]{ auto g=wg.lock(); if(!g||g->done||!ip->alive) return; g->done=true; auto it=dns.find(name); in_addr ia; if(bad) g->err=S.rf.chance(0.5)?EAI_AGAIN:EAI_FAIL; else if(inet_pton(AF_INET,name.c_str(),&ia)==1) g->ips={name}; else if(it==dns.end()) g->err=EAI_NONAME; else { g->err=it->second.err; g->ips=it->second.ips; }
      if(!g->err){ struct addrinfo*head=nullptr,**pp=&head; for(auto&s:g->ips){ auto*ai=(struct addrinfo*)calloc(1,sizeof(struct addrinfo)+sizeof(sockaddr_in6)); ai->ai_family=AF_INET; ai->ai_socktype=SOCK_STREAM; ai->ai_addr=(struct sockaddr*)(ai+1); auto*sa=(sockaddr_in*)ai->ai_addr; sa->sin_family=AF_INET; inet_pton(AF_INET,s.c_str(),&sa->sin_addr); ai->ai_addrlen=sizeof *sa; *pp=ai; pp=&ai->ai_next; } q->ar_result=head; if(!head) g->err=EAI_NONAME; } (void)fam; }); }
  return 0; }
int gai_error(struct gaicb*q) noexcept { auto it=gais().find(q); if(it==gais().end()) return 0; return it->second->done? it->second->err : EAI_INPROGRESS; }
int gai_cancel(struct gaicb*q) noexcept { Harness h; auto it=gais().find(q); if(it==gais().end()) return EAI_ALLDONE; if(it->second->done){ gais().erase(it); return EAI_ALLDONE; } gais().erase(it); return EAI_CANCELED; }
void freeaddrinfo(struct addrinfo*a) noexcept { while(a){ auto*n=a->ai_next; free(a); a=n; } }
}
