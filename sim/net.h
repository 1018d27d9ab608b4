#pragma once
#include "sim.h"
#include <sys/socket.h>
namespace sim {
struct EpollItem { std::weak_ptr<FdObj> o; u32 events; u64 data; u32 et; };
struct EpollObj : FdObj { std::map<int,EpollItem> items; EpollObj():FdObj(FD_EPOLL){} ~EpollObj(); void on_close() override; };
struct EventObj : FdObj { u64 v=0; bool sem=false; EventObj():FdObj(FD_EVENT){} u32 ready() override; };
struct SockObj : FdObj { int family=0; std::string bound; int port=0; SockObj():FdObj(FD_SOCK){} };
struct ListenObj : FdObj { std::deque<ConnP> q; std::string key; int family=0; bool listening=false; ListenObj():FdObj(FD_LISTEN){} u32 ready() override; void on_close() override; };
struct StreamObj : FdObj { ConnP conn; int side=1; bool connecting=false, failed=false; int err=0; int family=AF_INET; StreamObj():FdObj(FD_STREAM){} u32 ready() override; void on_close() override; };
extern std::map<std::string,int> syn_drop;
}

namespace sim { void net_dump(); }
