#include "ctx.h"
using namespace sim;
extern "C" {
int hk_login(void*,const char*,const char*,const char*,void*){ return 0; }
int hk_acl(int,const char*,const char*,const char*,const char*,const char*,size_t,int,int){ return 0; }
int hk_ext(int,const char*,const char*,const char*,size_t,const char*,char*,size_t*n,void*){ *n=0; return 10; }
int hk_alter_sub(const char*,char*,size_t,unsigned char*){ return 0; }
int hk_alter_pub(const char*,char*,size_t,const char*,size_t,unsigned char*,int*){ return 0; }
void hk_unsub(const char*,const char*,const char*){}
void hk_event(const char*,const char*){}
void hk_thread_mem(void**,int){}
void hk_periodic(void*){}
void hk_poll(void*,int,unsigned){}
}
