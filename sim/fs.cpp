// Simulated disk: page cache against durable content, journalled directory operations, fault plan per operation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "net.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include <glob.h>
#include <fnmatch.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/vfs.h>
using namespace sim;
#define RA __builtin_return_address(0)
namespace sim { extern u64 stdcxx_lo,stdcxx_hi;
struct FileObj : FdObj { std::shared_ptr<FNode> node; std::string path; size_t pos=0; int flags=0; Disk*d=nullptr; bool locked=false; FileObj():FdObj(FD_FILE){} u32 ready() override{return 5;} void on_close() override { if(locked&&d) d->lockedfiles.erase(path); } };
struct DirObj : FdObj { std::string path; Disk*d=nullptr; DirObj():FdObj(FD_DIR){} };
bool fs_is_sim(const char*p){ return p && (!strncmp(p,"/sim/",5)||!strcmp(p,"/sim")); }
std::string Disk::read(const std::string&p){ auto it=live.find(p); return it==live.end()?"":it->second->data; }
void Disk::write(const std::string&p,const std::string&d,i64 ct){ Harness h; auto&n=live[p]; if(!n){ n=std::make_shared<FNode>(); n->ino=++ino; } n->data=n->durable=d; n->pending.clear(); n->ctime_ns=ct>=0?ct:(i64)S.real(); durable[p]=n; }
void Disk::sync_all(){ for(auto&p:live){ p.second->durable=p.second->data; p.second->pending.clear(); } durable=live; journal.clear(); }
void Disk::machine_crash(){
  Harness h; size_t keep=journal.empty()?0:r.below(journal.size()+1); std::map<std::string,std::shared_ptr<FNode>> nd=durable;
  for(size_t i=0;i<keep;i++){ auto&o=journal[i]; if(o.kind==0) nd[o.a]=o.node; else if(o.kind==1){ nd[o.b]=o.node; nd.erase(o.a); } else nd.erase(o.a); }
  std::set<FNode*> seen; for(auto&p:nd){ auto&n=*p.second; if(!seen.insert(&n).second) continue; if(n.pending.empty()){ n.data=n.durable; continue; }
    std::string d=n.durable; int mode=r.below(4); S.fault(F_TORN);
    if(mode==0){} else if(mode==1){ d=n.data; } 
    else if(mode==2){ size_t k=r.below(n.pending.size()+1); for(size_t i=0;i<k;i++){ auto&w=n.pending[i]; size_t len=w.d.size(); if(i+1==k && len) len=r.below(len+1); if(d.size()<w.off+len) d.resize(w.off+len,0); d.replace(w.off,len,w.d,0,len); } }
    else { for(auto&w:n.pending){ for(size_t o=0;o<w.d.size();o+=4096){ size_t len=std::min<size_t>(4096,w.d.size()-o); if(d.size()<w.off+o+len) d.resize(w.off+o+len,0); if(r.below(3)) d.replace(w.off+o,len,w.d,o,len); } } }
    n.data=n.durable=d; n.pending.clear(); }
  live=durable=nd; journal.clear(); lockedfiles.clear(); full=false;
}
static std::string dirof(const std::string&p){ size_t i=p.rfind('/'); return i==std::string::npos?"":p.substr(0,i); }
// consult the fault plan. returns 0 to proceed, else errno; may crash the instance
struct OpRes { int err=0; bool shortw=false; int after=0; };
static OpRes disk_op(Instance*in,const char*op,const std::string&path){
  Disk*d=in->disk; OpRes r; if(!d) return r; bool db=path.find("/db")!=std::string::npos; if(!db&&d->faults.empty()&&!d->observer) return r;
  Harness h; if(db){ d->ops++; if(d->log_ops) d->oplog.push_back(strf("%lu %s %s",(unsigned long)d->ops,op,path.c_str())); S.mix(d->ops); }
  for(auto&f:d->faults){ if(f.done) continue; if(!f.op.empty()&&f.op!=op) continue; if(!f.match.empty()&&path.find(f.match)==std::string::npos) continue; if(f.match.empty()&&!db) continue; if(f.count++<f.nth) continue; if(--f.repeat<=0) f.done=true;
    switch(f.action){ case 0: S.fault(!strcmp(op,"fsync")?F_FSYNC:!strcmp(op,"rename")?F_RENAME:!strcmp(op,"open")?F_OPEN:!strcmp(op,"read")?F_READ_EIO:f.err==ENOSPC?F_DISK_ENOSPC:F_DISK_EIO); r.err=f.err; return r;
      case 1: r.shortw=true; S.fault(F_DISK_SHORT); return r; case 2: case 4: S.fault(f.action==2?F_CRASH_PROC:F_CRASH_MACHINE); crash(in,f.action==4); r.after=-1; return r; case 3: case 5: r.after=f.action; return r; } }
  if(d->observer) d->observer(op,path);
  return r; }
static void after_op(Instance*in,const OpRes&r){ if(r.after>0){ Harness h; S.fault(r.after==3?F_CRASH_PROC:F_CRASH_MACHINE); crash(in,r.after==5); } }
static void dead_check(){ if(t_cur->state==T_DEAD) thread_park_forever(); }
static void maybe_delay(Instance*in){ Disk*d=in->disk; if(d&&d->p_delay>0&&S.rf.chance(d->p_delay)){ sleep_ns(1+S.rf.below(d->delay_max)); } }
static int fail(int e){ errno=e; return -1; }
static bool isdir(Disk*d,const std::string&p0){ std::string p=p0; while(p.size()>1&&p.back()=='/') p.pop_back(); p+="/"; if(p=="/sim/") return true; for(auto&x:d->live) if(x.first.compare(0,p.size(),p)==0) return true; return false; }
int fs_open(Instance*in,const std::string&path,int fl,int mode){
  Disk*d=in->disk; if(!d) return fail(ENOENT); OpRes r=disk_op(in,"open",path); dead_check(); if(r.err) return fail(r.err);
  Harness h; auto it=d->live.find(path); if(it==d->live.end()){ if(isdir(d,path)){ if((fl&O_ACCMODE)!=O_RDONLY) return fail(EISDIR); auto o=std::make_shared<DirObj>(); o->path=path; o->d=d; return addfd(in,o); }
    if(!(fl&O_CREAT)) return fail(ENOENT); if(!isdir(d,dirof(path))) return fail(ENOENT); if(d->full||d->free_bytes==0){} auto n=std::make_shared<FNode>(); n->ino=++d->ino; n->mode=0100000|(mode&0777); n->ctime_ns=S.real(); d->live[path]=n; d->journal.push_back({0,path,"",n}); it=d->live.find(path); }
  else if((fl&O_CREAT)&&(fl&O_EXCL)) return fail(EEXIST);
  auto o=std::make_shared<FileObj>(); o->node=it->second; o->path=path; o->flags=fl; o->d=d; if((fl&O_TRUNC)&&(fl&O_ACCMODE)!=O_RDONLY){ o->node->data.clear(); o->node->pending.clear(); o->node->durable.clear(); o->node->ctime_ns=S.real(); }
  int fd=addfd(in,o); t_cur->harness--; after_op(in,r); dead_check(); t_cur->harness++; return fd; }
ssize_t file_read(std::shared_ptr<FdObj> ob,void*b,size_t n){ auto o=std::static_pointer_cast<FileObj>(ob); OpRes r=disk_op(o->inst,"read",o->path); dead_check(); if(r.err) return fail(r.err); auto&s=o->node->data; if(o->pos>=s.size()) return 0; size_t k=std::min(n,s.size()-o->pos); if(r.shortw&&k>1) k=k/2; memcpy(b,s.data()+o->pos,k); o->pos+=k; return k; }
ssize_t file_write(std::shared_ptr<FdObj> ob,const void*b,size_t n){ auto o=std::static_pointer_cast<FileObj>(ob); Instance*in=o->inst; if((o->flags&O_ACCMODE)==O_RDONLY) return fail(EBADF); OpRes r=disk_op(in,"write",o->path); dead_check(); if(r.err) return fail(r.err);
  if(n==0) return 0; if(r.shortw&&n>1) n=1+S.rf.below(n-1); Disk*d=o->d; bool db=o->path.find("/db")!=std::string::npos;
  { Harness h; if(o->flags&O_APPEND) o->pos=o->node->data.size(); size_t grow=o->pos+n>o->node->data.size()?o->pos+n-o->node->data.size():0;
  if(db&&grow){ if(d->full){ S.fault(F_DISK_ENOSPC); return fail(ENOSPC);} if(d->free_bytes!=UINT64_MAX){ if(d->free_bytes==0){ S.fault(F_DISK_ENOSPC); return fail(ENOSPC);} if(grow>d->free_bytes){ n-=grow-d->free_bytes; grow=d->free_bytes; S.fault(F_DISK_SHORT); if(n==0) return fail(ENOSPC);} d->free_bytes-=grow; } }
  auto&s=o->node->data; if(s.size()<o->pos+n) s.resize(o->pos+n,0); memcpy(&s[o->pos],b,n); if(db) o->node->pending.push_back({o->pos,std::string((const char*)b,n)}); o->node->ctime_ns=S.real(); o->pos+=n; }
  maybe_delay(in); after_op(in,r); dead_check(); return n; }
i64 file_seek(std::shared_ptr<FdObj> ob,i64 off,int wh){ if(ob->type!=FD_FILE) return fail(ESPIPE); auto o=std::static_pointer_cast<FileObj>(ob); i64 b=wh==SEEK_SET?0:wh==SEEK_CUR?(i64)o->pos:(i64)o->node->data.size(); if(b+off<0) return fail(EINVAL); o->pos=b+off; return o->pos; }
int file_fcntl_lock(std::shared_ptr<FdObj> ob,int cmd,struct flock*l){ if(ob->type!=FD_FILE) return fail(EINVAL); auto o=std::static_pointer_cast<FileObj>(ob); Harness h; if(cmd==F_GETLK){ l->l_type=F_UNLCK; return 0; } if(l->l_type==F_UNLCK){ if(o->locked) o->d->lockedfiles.erase(o->path); o->locked=false; return 0; } if(!o->locked&&o->d->lockedfiles.count(o->path)) return fail(EAGAIN); o->d->lockedfiles.insert(o->path); o->locked=true; return 0; }
} // ns
static inline bool can_preempt(const void* ra){ if(!simulated()) return false; u64 a=(u64)ra; Lib*l=t_cur->inst->lib; if(l && a>=l->lo && a<l->hi) return true; return a>=stdcxx_lo && a<stdcxx_hi; }
#define PT(w) do{ S.st.syscalls++; if(can_preempt(RA)) point(w,RA); }while(0)
#define SIMFD(fd) (simulated() && (fd)>=FD_BASE)
#define SIMPATH(p) (simulated() && fs_is_sim(p))
template<class F> static F nxt(const char*n){ return (F)dlsym(RTLD_NEXT,n); }
static std::string norm(const char*p){ std::string s=p,r; for(char c:s){ if(c=='/'&&!r.empty()&&r.back()=='/') continue; r+=c; } return r; }
static FILE* mkfile(int fd,const char*mode);
static int mode_flags(const char*m){ int f=0; if(m[0]=='r') f=strchr(m,'+')?O_RDWR:O_RDONLY; else if(m[0]=='w') f=(strchr(m,'+')?O_RDWR:O_WRONLY)|O_CREAT|O_TRUNC; else f=(strchr(m,'+')?O_RDWR:O_WRONLY)|O_CREAT|O_APPEND; return f; }
static void fillstat(FNode*n,struct stat*st){ memset(st,0,sizeof *st); st->st_mode=n->mode; st->st_size=n->data.size(); st->st_ino=n->ino; st->st_dev=7; st->st_nlink=1; st->st_ctim.tv_sec=st->st_mtim.tv_sec=n->ctime_ns/(i64)SEC; st->st_ctim.tv_nsec=st->st_mtim.tv_nsec=n->ctime_ns%(i64)SEC; }
extern "C" {
int open(const char*p,int fl,...){ va_list a; va_start(a,fl); int mode=va_arg(a,int); va_end(a); if(!simulated()) return syscall(SYS_openat,AT_FDCWD,p,fl,mode); PT("open"); if(t_cur->inst->f.fd_full){ return fail(EMFILE);} if(!fs_is_sim(p)){ return syscall(SYS_openat,AT_FDCWD,p,fl&~(O_CREAT|O_TRUNC|O_WRONLY|O_RDWR),mode); } return fs_open(t_cur->inst,norm(p),fl,mode); }
int open64(const char*p,int fl,...){ va_list a; va_start(a,fl); int mode=va_arg(a,int); va_end(a); if(SIMPATH(p)){ PT("open"); return fs_open(t_cur->inst,norm(p),fl,mode);} return syscall(SYS_openat,AT_FDCWD,p,fl,mode); }
int openat(int d,const char*p,int fl,...){ va_list a; va_start(a,fl); int mode=va_arg(a,int); va_end(a); if(SIMPATH(p)){ PT("open"); return fs_open(t_cur->inst,norm(p),fl,mode);} return syscall(SYS_openat,d,p,fl,mode); }
int creat(const char*p,mode_t m){ return open(p,O_CREAT|O_WRONLY|O_TRUNC,m); }
FILE* fopen(const char*p,const char*m){ if(SIMPATH(p)){ PT("fopen"); int fd=fs_open(t_cur->inst,norm(p),mode_flags(m),0644); if(fd<0) return nullptr; Harness h; return mkfile(fd,m);} static auto f=nxt<FILE*(*)(const char*,const char*)>("fopen"); return f(p,m); }
FILE* fopen64(const char*p,const char*m){ if(SIMPATH(p)) return fopen(p,m); static auto f=nxt<FILE*(*)(const char*,const char*)>("fopen64"); return f(p,m); }
FILE* fdopen(int fd,const char*m) noexcept { if(SIMFD(fd)){ if(!getfd(fd)){ errno=EBADF; return nullptr;} Harness h; return mkfile(fd,m);} static auto f=nxt<FILE*(*)(int,const char*)>("fdopen"); return f(fd,m); }
off_t lseek(int fd,off_t o,int w) noexcept { if(!SIMFD(fd)) return syscall(SYS_lseek,fd,o,w); auto x=getfd(fd); if(!x) return fail(EBADF); return file_seek(x,o,w); }
off64_t lseek64(int fd,off64_t o,int w) noexcept { return lseek(fd,o,w); }
static int do_fsync(int fd){ auto o=getfd(fd); if(!o) return fail(EBADF); Instance*in=t_cur->inst; std::string path=o->type==FD_FILE?std::static_pointer_cast<FileObj>(o)->path:o->type==FD_DIR?std::static_pointer_cast<DirObj>(o)->path:""; if(path.empty()) return fail(EINVAL);
  maybe_delay(in); OpRes r=disk_op(in,o->type==FD_DIR?"fsyncdir":"fsync",path); dead_check(); if(o->type==FD_FILE){ auto f=std::static_pointer_cast<FileObj>(o); if(r.err){ if(S.rf.chance(0.5)) f->node->pending.clear(); return fail(r.err);} Harness h; f->node->durable=f->node->data; f->node->pending.clear(); }
  else { if(r.err) return fail(r.err); Harness h; auto f=std::static_pointer_cast<DirObj>(o); std::vector<DirOp> rest; for(auto&j:f->d->journal){ if(dirof(j.a)==f->path||dirof(j.a)+"/"==f->path){ if(j.kind==0) f->d->durable[j.a]=j.node; else if(j.kind==1){ f->d->durable[j.b]=j.node; f->d->durable.erase(j.a);} else f->d->durable.erase(j.a);} else rest.push_back(j);} f->d->journal.swap(rest); }
  after_op(in,r); dead_check(); return 0; }
int fsync(int fd){ if(!SIMFD(fd)) return syscall(SYS_fsync,fd); PT("fsync"); return do_fsync(fd); }
int fdatasync(int fd){ if(!SIMFD(fd)) return syscall(SYS_fdatasync,fd); PT("fsync"); return do_fsync(fd); }
int syncfs(int fd) noexcept { if(!SIMFD(fd)) return 0; return do_fsync(fd); }
int ftruncate(int fd,off_t n) noexcept { if(!SIMFD(fd)) return syscall(SYS_ftruncate,fd,n); auto o=getfd(fd); if(!o||o->type!=FD_FILE) return fail(EINVAL); std::static_pointer_cast<FileObj>(o)->node->data.resize(n); return 0; }
int rename(const char*a,const char*b) noexcept { if(!SIMPATH(a)) return simulated()?fail(EPERM):syscall(SYS_rename,a,b); PT("rename"); Instance*in=t_cur->inst; Disk*d=in->disk; OpRes r=disk_op(in,"rename",norm(a)); dead_check(); if(r.err) return fail(r.err); { Harness h; auto it=d->live.find(norm(a)); if(it==d->live.end()) return fail(ENOENT); auto n=it->second; d->live.erase(it); if(d->free_bytes!=UINT64_MAX&&d->live.count(norm(b))) d->free_bytes+=d->live[norm(b)]->data.size(); d->live[norm(b)]=n; n->ctime_ns=S.real(); d->journal.push_back({1,norm(a),norm(b),n}); } after_op(in,r); dead_check(); return 0; }
int unlink(const char*a) noexcept { if(!SIMPATH(a)) return simulated()?fail(ENOENT):syscall(SYS_unlink,a); PT("unlink"); Instance*in=t_cur->inst; Disk*d=in->disk; OpRes r=disk_op(in,"unlink",norm(a)); dead_check(); if(r.err) return fail(r.err); { Harness h; { auto it=d->live.find(norm(a)); if(it!=d->live.end()&&d->free_bytes!=UINT64_MAX) d->free_bytes+=it->second->data.size(); } if(!d->live.erase(norm(a))) return fail(ENOENT); d->journal.push_back({2,norm(a),"",nullptr}); } after_op(in,r); dead_check(); return 0; }
int remove(const char*a) noexcept { if(SIMPATH(a)) return unlink(a); if(simulated()) return fail(ENOENT); return syscall(SYS_unlink,a); }
static int do_stat(const char*p,struct stat*st){ Disk*d=t_cur->inst->disk; if(!d) return fail(ENOENT); Harness h; std::string q=norm(p); auto it=d->live.find(q); if(it!=d->live.end()){ fillstat(it->second.get(),st); return 0; } if(isdir(d,q)){ memset(st,0,sizeof *st); st->st_mode=040755; return 0; } return fail(ENOENT); }
int stat(const char*p,struct stat*st) noexcept { if(SIMPATH(p)){ PT("stat"); return do_stat(p,st);} return syscall(SYS_newfstatat,AT_FDCWD,p,st,0); }
int lstat(const char*p,struct stat*st) noexcept { if(SIMPATH(p)){ PT("stat"); return do_stat(p,st);} return syscall(SYS_newfstatat,AT_FDCWD,p,st,AT_SYMLINK_NOFOLLOW); }
int stat64(const char*p,struct stat64*st) noexcept { return stat(p,(struct stat*)st); }
int lstat64(const char*p,struct stat64*st) noexcept { return lstat(p,(struct stat*)st); }
int fstat(int fd,struct stat*st) noexcept { if(!SIMFD(fd)) return syscall(SYS_fstat,fd,st); auto o=getfd(fd); if(!o) return fail(EBADF); if(o->type==FD_FILE){ fillstat(std::static_pointer_cast<FileObj>(o)->node.get(),st); return 0;} memset(st,0,sizeof *st); st->st_mode=o->type==FD_DIR?040755:0140777; return 0; }
int fstat64(int fd,struct stat64*st) noexcept { return fstat(fd,(struct stat*)st); }
int access(const char*p,int m) noexcept { if(SIMPATH(p)){ PT("access"); struct stat st; return do_stat(p,&st);} return syscall(SYS_access,p,m); }
int chmod(const char*p,mode_t m) noexcept { if(simulated()) return 0; return syscall(SYS_chmod,p,m); }
int chown(const char*p,uid_t u,gid_t g) noexcept { if(simulated()) return 0; return syscall(SYS_chown,p,u,g); }
int mkdir(const char*p,mode_t m) noexcept { if(simulated()) return 0; return syscall(SYS_mkdir,p,m); }
int statvfs(const char*p,struct statvfs*v) noexcept { if(SIMPATH(p)){ memset(v,0,sizeof *v); Disk*d=t_cur->inst->disk; v->f_bsize=v->f_frsize=4096; u64 fr=d&&d->free_bytes!=UINT64_MAX?d->free_bytes:100ull<<30; v->f_blocks=200ull<<18; v->f_bfree=v->f_bavail=fr/4096; v->f_files=v->f_ffree=v->f_favail=1000000; return 0; } static auto f=nxt<int(*)(const char*,struct statvfs*)>("statvfs"); return f(p,v); }
int glob(const char*pat,int fl,int(*ef)(const char*,int),glob_t*g) noexcept { if(!SIMPATH(pat)){ static auto f=nxt<int(*)(const char*,int,int(*)(const char*,int),glob_t*)>("glob"); return f(pat,fl,ef,g);} Harness h; std::vector<std::string> v; std::set<std::string> dirs; for(auto&p:t_cur->inst->disk->live){ if(!fnmatch(pat,p.first.c_str(),FNM_PATHNAME)) v.push_back(p.first); std::string d=dirof(p.first); if(!fnmatch(pat,d.c_str(),FNM_PATHNAME)) dirs.insert(d);} for(auto&d:dirs) v.push_back(d+((fl&GLOB_MARK)?"/":"")); std::sort(v.begin(),v.end()); g->gl_pathc=0; g->gl_pathv=nullptr; g->gl_offs=0; if(v.empty()) return GLOB_NOMATCH; g->gl_pathv=(char**)calloc(v.size()+1,sizeof(char*)); for(size_t i=0;i<v.size();i++) g->gl_pathv[i]=strdup(v[i].c_str()); g->gl_pathc=v.size(); return 0; }
void globfree(glob_t*g) noexcept { if(!g->gl_pathv) return; for(size_t i=0;i<g->gl_pathc;i++) free(g->gl_pathv[i]); free(g->gl_pathv); g->gl_pathv=nullptr; g->gl_pathc=0; }
}
// FILE streams over simulated descriptors
struct Cookie { int fd; };
static ssize_t ck_read(void*c,char*b,size_t n){ int fd=((Cookie*)c)->fd; auto o=getfd(fd); if(!o) return fail(EBADF); return file_read(o,b,n); }
static ssize_t ck_write(void*c,const char*b,size_t n){ int fd=((Cookie*)c)->fd; auto o=getfd(fd); if(!o){ errno=EBADF; return 0;} size_t d=0; while(d<n){ ssize_t r=file_write(o,b+d,n-d); if(r<=0) break; d+=r; } return d; }
static int ck_seek(void*c,off64_t*off,int wh){ int fd=((Cookie*)c)->fd; auto o=getfd(fd); if(!o) return fail(EBADF); i64 r=file_seek(o,*off,wh); if(r<0) return -1; *off=r; return 0; }
static int ck_close(void*c){ int fd=((Cookie*)c)->fd; Instance*in=t_cur->inst; OpRes r; auto o=getfd(fd); if(o&&o->type==FD_FILE) r=disk_op(in,"close",std::static_pointer_cast<FileObj>(o)->path); dead_check(); Harness h; closefd(in,fd); delete (Cookie*)c; return 0; }
static FILE* mkfile(int fd,const char*m){ cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close}; auto*c=new Cookie{fd}; FILE*f=fopencookie(c,m,io); if(f){ f->_fileno=fd; setvbuf(f,nullptr,_IOFBF,4096); } return f; }
