// Deterministic allocator at a fixed address with poison, canaries and quarantine.
#include "sim.h"
#include <sys/mman.h>
#include <errno.h>
#include <unistd.h>
#include <new>
using namespace sim;
namespace sim { extern u64 stdcxx_lo,stdcxx_hi; [[noreturn]] void mem_violation(const char*what,const void*p); u64 g_live_bytes=0; }
namespace {
constexpr uintptr_t BASE=0x100000000000ull; constexpr size_t ARENA=64ull<<30;
struct Hdr { u32 magic; u32 cls; u64 size; };   // 16 bytes in front of the user area
constexpr u32 MLIVE=0xA110C8ED, MFREE=0xF4EEDF4E;
constexpr int NCLS=64;
size_t cls_size[NCLS]; int ncls=0; bool inited=false; uintptr_t cur=BASE,mapped=BASE;
struct Node { Node* next; };
struct Q { Node*head=nullptr,*tail=nullptr; size_t n=0; } fl[NCLS];
// every class keeps at least QMIN freed blocks before reusing one
size_t qmin(int c){ size_t s=cls_size[c]; return s<=512?200: s<=4096?60 : s<=65536?8 : 0; }
void init(){ inited=true; size_t s=32; while(ncls<NCLS && s<=(1u<<26)){ cls_size[ncls++]=s; if(s<256) s+=32; else if(s<1024) s+=128; else s=((s+s/2)+63)&~63ull; }
  void*p=mmap((void*)BASE,ARENA,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p!=(void*)BASE){ static const char m[]="arena mmap failed\n"; (void)!write(2,m,sizeof m-1); _exit(3); } }
void* raw(size_t n){ uintptr_t p=(cur+15)&~15ull; if(p+n>mapped){ size_t grow=((p+n-mapped)+(4u<<20)-1)&~((size_t)(4u<<20)-1); if(mprotect((void*)mapped,grow,PROT_READ|PROT_WRITE)){ static const char m[]="arena grow failed\n"; (void)!write(2,m,sizeof m-1); _exit(3);} mapped+=grow; } cur=p+n; return (void*)p; }
int cls_of(size_t n){ int lo=0,hi=ncls-1; while(lo<hi){ int m=(lo+hi)/2; if(cls_size[m]>=n) hi=m; else lo=m+1; } return lo; }
inline size_t fillmax(size_t s){ return s; }
void* do_alloc(size_t n){
  if(!inited) init();
  if(n>(1ull<<33)) { errno=ENOMEM; return nullptr; }
  size_t tot=n+sizeof(Hdr)+16; Hdr*h; 
  if(tot>cls_size[ncls-1]){ h=(Hdr*)raw(tot); h->cls=NCLS; }
  else { int c=cls_of(tot); Q&q=fl[c]; if(q.n>qmin(c)){ Node*x=q.head; q.head=x->next; q.n--; h=(Hdr*)((char*)x-sizeof(Hdr)); 
      if(h->magic!=MFREE) mem_violation("heap header of a free block overwritten",x); size_t s=h->size; u8*u=(u8*)x; size_t lim=s<4096?s:4096; for(size_t i=sizeof(Node);i<lim;i++) if(u[i]!=0xDD) mem_violation("write to freed memory",x); }
    else h=(Hdr*)raw(cls_size[c]); h->cls=c; }
  h->magic=MLIVE; h->size=n; u8*u=(u8*)(h+1); size_t lim=n<2048?n:2048; memset(u,0xCB,lim); memset(u+n,0xE7,8); g_live_bytes+=n; return u; }
void do_free(void*p){ if(!p) return; Hdr*h=(Hdr*)p-1; if(h->magic==MFREE) mem_violation("double free",p); if(h->magic!=MLIVE) mem_violation("free of invalid pointer or corrupted heap header",p);
  size_t n=h->size; u8*u=(u8*)p; for(int i=0;i<8;i++) if(u[n+i]!=0xE7) mem_violation("write past the end of a heap block",p);
  g_live_bytes-=n; h->magic=MFREE; int c=h->cls; 
  if(c==NCLS){ memset(u,0xDD,n<4096?n:4096); uintptr_t a=((uintptr_t)p+4096+4095)&~4095ull,e=((uintptr_t)p+n)&~4095ull; if(e>a) madvise((void*)a,e-a,MADV_DONTNEED); return; }
  memset(u,0xDD,n<65536?n:65536); Node*x=(Node*)p; if(n<sizeof(Node)) {} x->next=nullptr; Q&q=fl[c]; if(q.n){ q.tail->next=x; } else q.head=x; q.tail=x; q.n++; }
}
extern "C" {
void* malloc(size_t n){ return do_alloc(n<16?16:n); }
void free(void*p){ do_free(p); }
void* calloc(size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)){ errno=ENOMEM; return nullptr;} void*p=malloc(n); if(p) memset(p,0,n); return p; }
void* realloc(void*p,size_t n){ if(!p) return malloc(n); Hdr*h=(Hdr*)p-1; if(h->magic!=MLIVE) mem_violation("realloc of invalid pointer",p); void*q=malloc(n); if(!q) return q; memcpy(q,p,h->size<n?h->size:n); free(p); return q; }
static void* aligned(size_t al,size_t n){ if(al<=16) return malloc(n); if(!inited) init(); size_t tot=n+al+sizeof(Hdr)+16; uintptr_t b=(uintptr_t)raw(tot); uintptr_t u=(b+sizeof(Hdr)+al-1)&~(al-1); Hdr*h=(Hdr*)u-1; h->magic=MLIVE; h->cls=NCLS; h->size=n; memset((u8*)u+n,0xE7,8); g_live_bytes+=n; return (void*)u; }
int posix_memalign(void**o,size_t al,size_t n){ *o=aligned(al,n); return *o?0:ENOMEM; }
void* aligned_alloc(size_t al,size_t n){ return aligned(al,n); }
void* memalign(size_t al,size_t n){ return aligned(al,n); }
void* valloc(size_t n){ return aligned(4096,n); }
size_t malloc_usable_size(void*p){ return p?((Hdr*)p-1)->size:0; }
}
#define RA __builtin_return_address(0)
static inline void apt(const void*ra,const char*w){ if(S.sp.p_alloc>0 && simulated()){ u64 a=(u64)ra; Lib*l=t_cur->inst->lib; if(a>=l->lo&&a<l->hi && S.rs.chance(S.sp.p_alloc)){ S.fault(F_ALLOC); point(w,ra); } } }
void* operator new(size_t n){ apt(RA,"new"); void*p=malloc(n); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n){ apt(RA,"new"); void*p=malloc(n); if(!p) throw std::bad_alloc(); return p; }
void operator delete(void*p) noexcept { free(p); }
void operator delete[](void*p) noexcept { free(p); }
void operator delete(void*p,size_t) noexcept { free(p); apt(RA,"delete"); }
void operator delete[](void*p,size_t) noexcept { free(p); apt(RA,"delete"); }
