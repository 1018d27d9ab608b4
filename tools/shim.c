#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
static void say(const char*s){ const char*o=getenv("SHIM_OUT"); if(!o) return; FILE*f=fopen(o,"a"); if(f){ fprintf(f,"%s\n",s); fclose(f); } }
int rename(const char*a,const char*b){ static int(*r)(const char*,const char*); if(!r) r=dlsym(RTLD_NEXT,"rename"); int k=r(a,b); if(!k&&strstr(b,".db")){ char t[4200]; snprintf(t,sizeof t,"rename %s",b); say(t); } return k; }
int fsync(int fd){ static int(*r)(int); if(!r) r=dlsym(RTLD_NEXT,"fsync"); struct stat st; int k=r(fd); if(!k&&!fstat(fd,&st)&&S_ISDIR(st.st_mode)) say("dirsync"); return k; }
int fdatasync(int fd){ return fsync(fd); }
