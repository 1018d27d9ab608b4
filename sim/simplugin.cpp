// A FlashMQ plugin linked into each simulated broker; every decision is made by the harness.
#include "flashmq_plugin.h"
#include <string.h>
// implemented by the harness executable
extern "C" {
int hk_login(void*td,const char*cid,const char*user,const char*pass,void*weakclient);        // returns AuthResult
int hk_acl(int access,const char*cid,const char*user,const char*topic,const char*share,const char*payload,size_t plen,int qos,int retain);
int hk_ext(int stage,const char*cid,const char*method,const char*data,size_t dl,const char*user,char*ret,size_t*retlen,void*weakclient);
int hk_alter_sub(const char*cid,char*topic,size_t tmax,unsigned char*qos);
int hk_alter_pub(const char*cid,char*topic,size_t tmax,const char*payload,size_t plen,unsigned char*qos,int*retain);
void hk_unsub(const char*cid,const char*topic,const char*share);
void hk_event(const char*what,const char*cid);
void hk_thread_mem(void**td,int alloc);
void hk_periodic(void*td);
void hk_poll(void*td,int fd,unsigned ev);
}
namespace simplug {
int version(){ return FLASHMQ_PLUGIN_VERSION; }
void main_init(std::unordered_map<std::string,std::string>&){ hk_event("main_init",""); }
void main_deinit(std::unordered_map<std::string,std::string>&){ hk_event("main_deinit",""); }
void alloc_mem(void**td,std::unordered_map<std::string,std::string>&){ hk_thread_mem(td,1); }
void dealloc_mem(void*td,std::unordered_map<std::string,std::string>&){ hk_thread_mem(&td,0); }
void init(void*,std::unordered_map<std::string,std::string>&,bool r){ hk_event(r?"init_reload":"init",""); }
void deinit(void*,std::unordered_map<std::string,std::string>&,bool r){ hk_event(r?"deinit_reload":"deinit",""); }
void periodic(void*td){ hk_periodic(td); }
bool alter_subscription(void*,const std::string&cid,std::string&topic,const std::vector<std::string>&,uint8_t&qos,const std::vector<std::pair<std::string,std::string>>*){
  char t[4096]; snprintf(t,sizeof t,"%s",topic.c_str()); unsigned char q=qos; int r=hk_alter_sub(cid.c_str(),t,sizeof t,&q); if(r){ topic=t; qos=q; } return r; }
bool alter_publish(void*,const std::string&cid,std::string&topic,const std::vector<std::string>&,std::string_view payload,uint8_t&qos,bool&retain,std::optional<std::string>&,std::optional<std::string>&,std::optional<std::string>&,std::vector<std::pair<std::string,std::string>>*){
  char t[4096]; snprintf(t,sizeof t,"%s",topic.c_str()); unsigned char q=qos; int re=retain; int r=hk_alter_pub(cid.c_str(),t,sizeof t,payload.data(),payload.size(),&q,&re); if(r){ topic=t; qos=q; retain=re; } return r; }
AuthResult login(void*td,const std::string&cid,const std::string&user,const std::string&pw,const std::vector<std::pair<std::string,std::string>>*,const std::weak_ptr<Client>&c){ return (AuthResult)hk_login(td,cid.c_str(),user.c_str(),pw.c_str(),(void*)&c); }
void disconnected(void*,const std::string&cid){ hk_event("disconnected",cid.c_str()); }
AuthResult acl(void*,const AclAccess a,const std::string&cid,const std::string&user,const std::string&topic,const std::vector<std::string>&,const std::string&share,std::string_view payload,const uint8_t qos,const bool retain,const std::optional<std::string>&,const std::optional<std::string>&,const std::optional<std::string>&,const std::optional<std::chrono::time_point<std::chrono::steady_clock>>,const std::vector<std::pair<std::string,std::string>>*){
  return (AuthResult)hk_acl((int)a,cid.c_str(),user.c_str(),topic.c_str(),share.c_str(),payload.data(),payload.size(),qos,retain); }
AuthResult ext(void*,const std::string&cid,ExtendedAuthStage st,const std::string&method,const std::string&data,const std::vector<std::pair<std::string,std::string>>*,std::string&rd,std::string&user,const std::weak_ptr<Client>&c){
  char b[256]; size_t n=0; AuthResult r=(AuthResult)hk_ext((int)st,cid.c_str(),method.c_str(),data.data(),data.size(),user.c_str(),b,&n,(void*)&c); rd.assign(b,n); return r; }
void unsub(void*,const std::weak_ptr<Session>&,const std::string&cid,const std::string&,const std::string&topic,const std::vector<std::string>&,const std::string&share,const std::vector<std::pair<std::string,std::string>>*){ hk_unsub(cid.c_str(),topic.c_str(),share.c_str()); }
void poll_event(void*td,int fd,uint32_t ev,const std::weak_ptr<void>&){ hk_poll(td,fd,ev); }
}
extern "C" __attribute__((visibility("default"))) void* sim_plugin_lookup(const char*n){
  struct { const char*n; void*f; } t[]={ {"flashmq_plugin_version",(void*)simplug::version},{"flashmq_plugin_main_init",(void*)simplug::main_init},{"flashmq_plugin_main_deinit",(void*)simplug::main_deinit},{"flashmq_plugin_allocate_thread_memory",(void*)simplug::alloc_mem},{"flashmq_plugin_deallocate_thread_memory",(void*)simplug::dealloc_mem},{"flashmq_plugin_init",(void*)simplug::init},{"flashmq_plugin_deinit",(void*)simplug::deinit},{"flashmq_plugin_periodic_event",(void*)simplug::periodic},{"flashmq_plugin_alter_subscription",(void*)simplug::alter_subscription},{"flashmq_plugin_alter_publish",(void*)simplug::alter_publish},{"flashmq_plugin_login_check",(void*)simplug::login},{"flashmq_plugin_client_disconnected",(void*)simplug::disconnected},{"flashmq_plugin_acl_check",(void*)simplug::acl},{"flashmq_plugin_extended_auth",(void*)simplug::ext},{"flashmq_plugin_on_unsubscribe",(void*)simplug::unsub},{"flashmq_plugin_poll_event_received",(void*)simplug::poll_event}};
  for(auto&x:t) if(!strcmp(x.n,n)) return x.f; return nullptr; }
// calls of the harness back into the plugin API (made on a broker thread)
extern "C" __attribute__((visibility("default"))) void sim_plugin_continue(void*weak,int result,const char*method,const char*data,size_t n){ std::weak_ptr<Client>*w=(std::weak_ptr<Client>*)weak; flashmq_continue_async_authentication_v4(*w,(AuthResult)result,method?method:"",std::string(data?data:"",n),0); }
extern "C" __attribute__((visibility("default"))) void* sim_plugin_keep(void*weak){ return new std::weak_ptr<Client>(*(std::weak_ptr<Client>*)weak); }
extern "C" __attribute__((visibility("default"))) void sim_plugin_drop(void*weak){ delete (std::weak_ptr<Client>*)weak; }
extern "C" __attribute__((visibility("default"))) void sim_plugin_publish(const char*topic,unsigned char qos,int retain,const char*pl,size_t n,unsigned expiry){ flashmq_publish_message(topic,qos,retain,std::string(pl,n),expiry); }
extern "C" __attribute__((visibility("default"))) unsigned sim_plugin_task(void(*f)(void*),void*a,unsigned ms){ return flashmq_add_task([f,a]{ f(a); },ms); }
