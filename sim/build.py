#!/usr/bin/env python3
"""Builds the simulated broker library from /repo's working tree, and the harness. Content-hashed objects in /verif/build."""
import sys, os, re, subprocess, hashlib, glob, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R=os.environ.get('SIM_REPO','/repo'); B=os.environ.get('SIM_BUILD',V+'/build')
CXX='g++'
BASE=['-std=c++20','-O1','-fPIC','-DNDEBUG','-msse4.2','-DOPENSSL_API_COMPAT=0x10100000L','-fvisibility=hidden','-fno-gnu-unique','-w','-D_GLIBCXX_ASSERTIONS']
HFLAGS=['-std=c++20','-O1','-g1','-fPIE','-w','-fno-threadsafe-statics','-D_GNU_SOURCE']
NCOPIES=16
def sh(b): return hashlib.sha256(b).hexdigest()
def rd(p):
    with open(p,'rb') as f: return f.read()
def version():
    try:
        m=re.search(r'project\(\s*FlashMQ\s+VERSION\s+([0-9.]+)',rd(R+'/CMakeLists.txt').decode(),re.I)
        return m.group(1) if m else '0.0.0'
    except OSError: return '0.0.0'
def sources():
    s=[]
    try:
        t=rd(R+'/CMakeLists.shared').decode(); m=re.search(r'set\(FLASHMQ_IMPLS(.*?)\)',t,re.S)
        s=[R+'/'+x for x in re.findall(r'\$\{RELPATH\}(\S+\.cpp)',m.group(1))]
    except Exception: pass
    s=[x for x in s if os.path.exists(x)]
    if len(s)<10: s=[x for x in sorted(glob.glob(R+'/*.cpp')) if os.path.basename(x) not in('main.cpp','flashmqtestclient.cpp')]
    return s
def run(cmd):
    p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if p.returncode: raise SystemExit('build failed: %s\n%s'%(' '.join(cmd[-4:]),p.stdout[-3000:]))
def tmp_out(cmd,out):
    t=out+'.tmp%d'%os.getpid(); run(cmd+['-o',t]); os.replace(t,out)
def build(quiet=False):
    os.makedirs(B,exist_ok=True); lock=open(B+'/.lock','w'); fcntl.flock(lock,fcntl.LOCK_EX)
    flags=BASE+['-DFLASHMQ_VERSION="%s"'%version(),'-I'+R]
    hdrs=b''.join(rd(h)+b'\0' for h in sorted(glob.glob(R+'/*.h')))
    jobs=[]; pch=V+'/sim/pch.h'; pk=sh(rd(pch)+repr(flags).encode())[:16]; pdir=B+'/pch-'+pk
    srcs=[(s,['-U_GLIBCXX_ASSERTIONS','-O2'] if s.endswith('/mqtt5properties.cpp') else []) for s in sources()]  # (its zero-length copies form &v[v.size()])
    mainf=R+'/main.cpp'; srcs.append((mainf,["-Dmain=__attribute__((visibility(\"default\"))) sim_broker_main"])); srcs.append((V+'/sim/simplugin.cpp',[]))
    hk=sh(hdrs+repr(flags).encode()+rd(pch)); objs=[]; need=[]
    for s,x in srcs:
        k=sh(hk.encode()+rd(s)+repr(x).encode())[:24]; o=B+'/o-%s-%s.o'%(os.path.basename(s)[:-4],k); objs.append(o)
        if not os.path.exists(o): need.append((s,x,o))
    hs=sorted(glob.glob(V+'/sim/*.cpp')); hs=[h for h in hs if not h.endswith('simplugin.cpp')]
    hh=b''.join(rd(h) for h in sorted(glob.glob(V+'/sim/*.h'))); hobjs=[]; hneed=[]
    for s in hs:
        k=sh(hh+rd(s)+repr(HFLAGS).encode())[:24]; o=B+'/h-%s-%s.o'%(os.path.basename(s)[:-4],k); hobjs.append(o)
        if not os.path.exists(o): hneed.append((s,o))
    usepch=False
    ex=ThreadPoolExecutor(8)
    def mkpch():
        os.makedirs(pdir,exist_ok=True); 
        if not os.path.exists(pdir+'/pch.h.gch'): shutil.copy(pch,pdir+'/pch.h'); tmp_out([CXX]+flags+['-x','c++-header',pdir+'/pch.h'],pdir+'/pch.h.gch')
    fs=[]
    hfs=[ex.submit(tmp_out,[CXX]+HFLAGS+['-c',s],o) for s,o in hneed]
    if len(need)>12 or os.path.exists(pdir+'/pch.h.gch'): mkpch(); usepch=True
    need.sort(key=lambda n:-os.path.getsize(n[0]))
    inc=['-include',pdir+'/pch.h'] if usepch else []
    fs=[ex.submit(tmp_out,[CXX]+flags+([] if '-O2' in x else inc)+x+['-c',s],o) for s,x,o in need]
    for f in fs+hfs: f.result()
    lk=sh((str(NCOPIES)+' '.join(objs)).encode())[:24]; ldir=B+'/lib-'+lk
    if not os.path.exists(ldir+'/ok'):
        os.makedirs(ldir,exist_ok=True); l0=ldir+'/libflashmq_sim.0.so'
        run([CXX,'-shared','-Wl,-Bsymbolic','-o',l0]+objs+['-lssl','-lcrypto','-lresolv','-lanl','-ldl','-lpthread'])
        for i in range(1,NCOPIES): shutil.copy(l0,ldir+'/libflashmq_sim.%d.so'%i)
        open(ldir+'/ok','w').close()
    ek=sh(' '.join(hobjs).encode())[:24]; exe=B+'/harness-'+ek
    if not os.path.exists(exe): tmp_out([CXX,'-rdynamic','-pie']+hobjs+['-lssl','-lcrypto','-lanl','-ldl','-lpthread'],exe)
    # keep the folder small
    keep=set(objs+hobjs+[ldir,exe,pdir])
    allf=[f for f in glob.glob(B+'/o-*')+glob.glob(B+'/h-*')+glob.glob(B+'/lib-*')+glob.glob(B+'/harness-*')+glob.glob(B+'/pch-*') if f not in keep]
    allf.sort(key=os.path.getmtime)
    if len(allf)>400:
        for f in allf[:-200]:
            shutil.rmtree(f,ignore_errors=True) if os.path.isdir(f) else os.remove(f)
    for l in [f for f in glob.glob(B+'/lib-*') if f!=ldir][:-4]: shutil.rmtree(l,ignore_errors=True)
    fcntl.flock(lock,fcntl.LOCK_UN)
    return ldir,exe
if __name__=='__main__': print('\n'.join(build()))
