// Simulated disk: in-memory inodes behind the C library's file calls.  The
// programs are linked with --wrap for each of these calls, libstdc++ (linked
// statically) included, so std::ifstream/ofstream end up here.
#include "sim.h"
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <poll.h>
#include <unistd.h>
#include <algorithm>
#include <deque>

namespace {
struct Inode { Bytes data; };
struct Open { std::shared_ptr<Inode> ino; size_t pos=0; bool rd=false,wr=false,app=false; std::string path; bool used=false; FILE* file=nullptr; bool eof=false; };
struct State {
    std::map<std::string,std::shared_ptr<Inode>> names;
    std::deque<Open> fds; // references stay valid across scheduling points
    std::map<FILE*,int> files;
    FaultPlan plan;
    DiskStats st;
    long nOpen=0,nRead=0,nWrite=0,nClose=0; // calls since the plan was installed
    long long budget=-1,toCrash=-1;
    bool eioReadOn=false,eofReadOn=false,eioWriteOn=false,openFailOn=false;
    bool crashed=false;
    std::map<std::string,Bytes> image;
    std::set<std::string> written;
};
State* S(){static State* s=new State;return s;}
const int FD0=100000;
Open* of(int fd){
    if(fd<FD0||fd>=FD0+(int)S()->fds.size()) return nullptr;
    Open* o=&S()->fds[fd-FD0]; return o->used?o:nullptr;
}
bool applies(const std::string& path){return S()->plan.only.empty()||S()->plan.only==path;}
// the simulator's own bookkeeping is never charged to the library
struct Quiet { bool t; Quiet():t(mem::tracking){mem::tracking=false;} ~Quiet(){mem::tracking=t;} };
void yield(const char* w){ if(disk::yieldHook) disk::yieldHook(w); }
std::map<std::string,Bytes> snap(){std::map<std::string,Bytes> m;for(auto& k:S()->names) m[k.first]=k.second->data;return m;}
}

namespace disk {
bool active=false;
bool logOps=true;
void (*yieldHook)(const char*)=nullptr;
void reset(){Quiet q;State* s=S();*s=State();}
void put(const std::string& p,const Bytes& b){Quiet q;auto i=std::make_shared<Inode>();i->data=b;S()->names[p]=i;}
bool exists(const std::string& p){return S()->names.count(p)>0;}
const Bytes& get(const std::string& p){static Bytes none;auto i=S()->names.find(p);return i==S()->names.end()?none:i->second->data;}
void remove(const std::string& p){S()->names.erase(p);}
std::map<std::string,Bytes> snapshot(){Quiet q;return snap();}
void plan(const FaultPlan& p){Quiet q;State* s=S();s->plan=p;s->nOpen=s->nRead=s->nWrite=s->nClose=0;s->st=DiskStats();
    s->budget=p.capacity;s->toCrash=p.crashAfter;s->eioReadOn=s->eofReadOn=s->eioWriteOn=s->openFailOn=s->crashed=false;s->image.clear();s->written.clear();}
void heal(){plan(FaultPlan());}
DiskStats& stats(){return S()->st;}
int openHandles(){int n=0;for(auto& o:S()->fds) n+=o.used;return n;}
std::set<std::string> writtenPaths(){return S()->written;}
bool crashed(){return S()->crashed;}
std::map<std::string,Bytes> crashImage(){return S()->image;}
}

static int simOpen(const char* path,int flags){
    yield("open");
    Quiet q; State* s=S(); s->st.opens++; count(C_OPENS);
    std::string p(path);
    bool ap=applies(p); long n=ap?s->nOpen++:-1;
    if(ap&&(s->openFailOn||(s->plan.openFailAt>=0&&n==s->plan.openFailAt))){
        if(s->plan.openFailSticky) s->openFailOn=true;
        count(F_OPEN_FAIL); if(disk::logOps) evt("open %s -> errno %d (injected)",path,s->plan.openErrno);
        errno=s->plan.openErrno; return -1;
    }
    auto it=s->names.find(p);
    int acc=flags&O_ACCMODE;
    if(it==s->names.end()){
        if(!(flags&O_CREAT)){ if(disk::logOps) evt("open %s -> ENOENT",path); errno=ENOENT; return -1; }
        if(s->crashed){ errno=EIO; return -1; }
        s->names[p]=std::make_shared<Inode>(); it=s->names.find(p);
        s->written.insert(p);
    }else if(flags&O_TRUNC){ // the old contents stay with those who hold the old file open? no: same inode
        it->second->data.clear(); s->written.insert(p);
    }
    int fd=-1;
    for(size_t i=0;i<s->fds.size();i++) if(!s->fds[i].used){fd=(int)i;break;}
    if(fd<0){ s->fds.emplace_back(); fd=(int)s->fds.size()-1; }
    Open& o=s->fds[fd]; o=Open(); o.used=true; o.ino=it->second; o.path=p;
    o.rd=acc==O_RDONLY||acc==O_RDWR; o.wr=acc==O_WRONLY||acc==O_RDWR; o.app=(flags&O_APPEND)!=0;
    if(flags&O_APPEND) o.pos=o.ino->data.size();
    if(disk::logOps) evt("open %s -> fd %d",path,fd);
    return FD0+fd;
}
static ssize_t simRead(Open* o,void* buf,size_t n){
    yield("read");
    Quiet q; State* s=S(); s->st.reads++; count(C_READS); SH->ticks++;
    if(!o->rd){errno=EBADF;return -1;}
    bool ap=applies(o->path);
    long k=s->nRead; if(ap) s->nRead++;
    if(ap){
        if(s->plan.eintrRead&&T.chance(s->plan.eintrRead,1000)){count(F_EINTR_READ);if(disk::logOps)evt("read %s @%zu -> EINTR",o->path.c_str(),o->pos);errno=EINTR;return -1;}
        if(s->eioReadOn||(s->plan.eioReadAt>=0&&k==s->plan.eioReadAt)){
            if(s->plan.eioReadSticky) s->eioReadOn=true;
            count(F_EIO_READ);if(disk::logOps)evt("read %s @%zu -> EIO",o->path.c_str(),o->pos);errno=EIO;return -1;}
        if(s->eofReadOn||(s->plan.eofReadAt>=0&&k==s->plan.eofReadAt)){
            s->eofReadOn=true;count(F_EOF_READ);if(disk::logOps)evt("read %s @%zu -> premature EOF",o->path.c_str(),o->pos);return 0;}
    }
    size_t avail=o->pos<o->ino->data.size()?o->ino->data.size()-o->pos:0;
    size_t m=std::min(n,avail);
    if(ap&&m>1&&s->plan.shortRead&&T.chance(s->plan.shortRead,1000)){
        size_t full=m;
        switch(T.choose(4)){case 0:m=1+T.choose((uint32_t)m-1);break;case 1:m=1;break;case 2:m=full-1;break;default:m=std::min(full,(size_t)(1+T.choose(64)));}
        if(m<full) count(F_SHORT_READ);
    }
    if(m) memcpy(buf,o->ino->data.data()+o->pos,m);
    o->pos+=m; s->st.bytesRead+=m;
    if(disk::logOps) evt("read %s @%zu %zu/%zu",o->path.c_str(),o->pos-m,m,n);
    return (ssize_t)m;
}
static ssize_t simWrite(Open* o,const void* buf,size_t n){
    yield("write");
    Quiet q; State* s=S(); s->st.writes++; count(C_WRITES); SH->ticks++;
    if(!o->wr){errno=EBADF;return -1;}
    bool ap=applies(o->path);
    long k=s->nWrite; if(ap) s->nWrite++;
    if(ap){
        if(s->plan.eintrWrite&&T.chance(s->plan.eintrWrite,1000)){count(F_EINTR_WRITE);if(disk::logOps)evt("write %s @%zu -> EINTR",o->path.c_str(),o->pos);errno=EINTR;return -1;}
        if(s->eioWriteOn||(s->plan.eioWriteAt>=0&&k==s->plan.eioWriteAt)){
            if(s->plan.eioWriteSticky) s->eioWriteOn=true;
            count(F_EIO_WRITE);if(disk::logOps)evt("write %s @%zu -> EIO",o->path.c_str(),o->pos);errno=EIO;return -1;}
    }
    size_t m=n;
    if(ap&&m>1&&s->plan.shortWrite&&T.chance(s->plan.shortWrite,1000)){
        m=1+T.choose((uint32_t)m-1); count(F_SHORT_WRITE);
    }
    if(ap&&s->budget>=0){
        if((long long)m>s->budget){ m=(size_t)s->budget;
            if(m==0&&n>0){count(F_ENOSPC);if(disk::logOps)evt("write %s @%zu -> ENOSPC",o->path.c_str(),o->pos);errno=ENOSPC;return -1;} }
        s->budget-=m;
    }
    if(o->app) o->pos=o->ino->data.size();
    s->written.insert(o->path);
    Bytes& d=o->ino->data;
    size_t dieAt=m; bool dies=false;
    if(ap&&s->toCrash>=0&&!s->crashed){
        if((long long)m>=s->toCrash){dieAt=(size_t)s->toCrash;dies=true;} else s->toCrash-=m;
    }
    auto store=[&](size_t from,size_t to){
        if(o->pos+to>d.size()) d.resize(o->pos+to);
        memcpy(d.data()+o->pos+from,(const char*)buf+from,to-from);
    };
    if(dies){
        if(dieAt) store(0,dieAt);
        s->crashed=true; s->image=snap(); count(F_CRASH);
        if(disk::logOps) evt("process dies during write %s @%zu after %zu bytes",o->path.c_str(),o->pos,dieAt);
        if(m>dieAt) store(dieAt,m);
    }else if(m) store(0,m);
    o->pos+=m; s->st.bytesWritten+=m;
    if(disk::logOps) evt("write %s @%zu %zu/%zu",o->path.c_str(),o->pos-m,m,n);
    return (ssize_t)m;
}
static off64_t simSeek(Open* o,off64_t off,int wh){
    off64_t base=wh==SEEK_SET?0:wh==SEEK_CUR?(off64_t)o->pos:(off64_t)o->ino->data.size();
    off64_t p=base+off; if(p<0){errno=EINVAL;return -1;}
    o->pos=(size_t)p; if(disk::logOps) evt("seek %s -> %lld",o->path.c_str(),(long long)p);
    return p;
}
static int simClose(int fd){
    yield("close");
    Quiet q; State* s=S(); s->st.closes++;
    Open* o=of(fd); if(!o){errno=EBADF;return -1;}
    bool ap=applies(o->path); long k=ap?s->nClose++:-1; bool fail=ap&&o->wr&&s->plan.closeFailAt>=0&&k==s->plan.closeFailAt;
    if(disk::logOps) evt("close %s%s",o->path.c_str(),fail?" -> EIO":"");
    *o=Open();
    if(fail){count(F_CLOSE_FAIL);errno=EIO;return -1;}
    return 0;
}
static void fillStat(struct stat64* st,const Inode& i){memset(st,0,sizeof *st);st->st_mode=S_IFREG|0644;st->st_nlink=1;st->st_size=(off64_t)i.data.size();st->st_blksize=4096;}

// --------------------------------------------------------------- wrappers
static ssize_t ckRead(void* c,char* b,size_t n){Open* o=of((int)(intptr_t)c);if(!o){errno=EBADF;return -1;}return simRead(o,b,n);}
static ssize_t ckWrite(void* c,const char* b,size_t n){Open* o=of((int)(intptr_t)c);if(!o){errno=EBADF;return 0;}ssize_t r=simWrite(o,b,n);return r<0?0:r;}
static int ckSeek(void* c,off64_t* p,int w){Open* o=of((int)(intptr_t)c);if(!o){errno=EBADF;return -1;}off64_t r=simSeek(o,*p,w);if(r<0)return -1;*p=r;return 0;}
static int ckClose(void* c){return simClose((int)(intptr_t)c);}

extern "C" {
FILE* __real_fopen64(const char*,const char*);
int __real_fclose(FILE*);
int __real_fileno(FILE*);
int __real_open64(const char*,int,...);
int __real_close(int);
ssize_t __real_read(int,void*,size_t);
ssize_t __real_write(int,const void*,size_t);
ssize_t __real_writev(int,const struct iovec*,int);
off64_t __real_lseek64(int,off64_t,int);
int __real_fstat64(int,struct stat64*);
int __real_stat64(const char*,struct stat64*);
int __real_poll(struct pollfd*,nfds_t,int);
int __real_ioctl(int,unsigned long,...);
int __real_rename(const char*,const char*);
int __real_unlink(const char*);
int __real_remove(const char*);
int __real_access(const char*,int);
int __real_fsync(int);
int __real_ftruncate64(int,off64_t);

static int modeFlags(const char* m){
    bool plus=strchr(m,'+')!=nullptr;
    switch(m[0]){
        case 'r':return plus?O_RDWR:O_RDONLY;
        case 'w':return (plus?O_RDWR:O_WRONLY)|O_CREAT|O_TRUNC;
        case 'a':return (plus?O_RDWR:O_WRONLY)|O_CREAT|O_APPEND;
    }
    return -1;
}
FILE* __wrap_fopen64(const char* path,const char* mode){
    if(!disk::active) return __real_fopen64(path,mode);
    int fl=modeFlags(mode); if(fl<0){errno=EINVAL;return nullptr;}
    int fd=simOpen(path,fl); if(fd<0) return nullptr;
    Quiet q;
    cookie_io_functions_t io={ckRead,ckWrite,ckSeek,ckClose};
    FILE* f=fopencookie((void*)(intptr_t)fd,mode,io);
    if(!f) harnessError("fopencookie failed");
    S()->files[f]=fd; of(fd)->file=f;
    return f;
}
FILE* __wrap_fopen(const char* p,const char* m){return __wrap_fopen64(p,m);}
int __wrap_fileno(FILE* f){
    auto i=S()->files.find(f); if(i!=S()->files.end()) return i->second;
    return __real_fileno(f);
}
int __wrap_fclose(FILE* f){
    auto i=S()->files.find(f);
    if(i==S()->files.end()) return __real_fclose(f);
    Quiet q; S()->files.erase(i);
    return __real_fclose(f); // flushes through the cookie, then closes
}
int __wrap_open64(const char* p,int fl,...){
    va_list ap; va_start(ap,fl); int mode=va_arg(ap,int); va_end(ap);
    if(!disk::active) return __real_open64(p,fl,mode);
    return simOpen(p,fl);
}
int __wrap_open(const char* p,int fl,...){va_list ap;va_start(ap,fl);int mode=va_arg(ap,int);va_end(ap);return __wrap_open64(p,fl,mode);}
int __wrap_close(int fd){return of(fd)?simClose(fd):__real_close(fd);}
ssize_t __wrap_read(int fd,void* b,size_t n){Open* o=of(fd);return o?simRead(o,b,n):__real_read(fd,b,n);}
ssize_t __wrap_write(int fd,const void* b,size_t n){Open* o=of(fd);return o?simWrite(o,b,n):__real_write(fd,b,n);}
ssize_t __wrap_writev(int fd,const struct iovec* v,int c){
    Open* o=of(fd); if(!o) return __real_writev(fd,v,c);
    Bytes all; {Quiet q; for(int i=0;i<c;i++) all.insert(all.end(),(unsigned char*)v[i].iov_base,(unsigned char*)v[i].iov_base+v[i].iov_len);}
    ssize_t r=simWrite(o,all.data(),all.size());
    {Quiet q; Bytes().swap(all);}
    return r;
}
off64_t __wrap_lseek64(int fd,off64_t off,int wh){Open* o=of(fd);if(!o) return __real_lseek64(fd,off,wh);Quiet q;return simSeek(o,off,wh);}
off_t __wrap_lseek(int fd,off_t off,int wh){return __wrap_lseek64(fd,off,wh);}
int __wrap_fstat64(int fd,struct stat64* st){Open* o=of(fd);if(!o) return __real_fstat64(fd,st);fillStat(st,*o->ino);return 0;}
int __wrap_fstat(int fd,struct stat64* st){return __wrap_fstat64(fd,st);}
int __wrap_stat64(const char* p,struct stat64* st){
    if(!disk::active) return __real_stat64(p,st);
    Quiet q; auto i=S()->names.find(p); if(i==S()->names.end()){errno=ENOENT;return -1;}
    fillStat(st,*i->second); return 0;}
int __wrap_stat(const char* p,struct stat64* st){return __wrap_stat64(p,st);}
int __wrap_access(const char* p,int m){
    if(!disk::active) return __real_access(p,m);
    Quiet q; if(!S()->names.count(p)){errno=ENOENT;return -1;} return 0;}
int __wrap_poll(struct pollfd* p,nfds_t n,int t){
    if(n==1&&of(p[0].fd)){p[0].revents=POLLIN;return 1;}
    return __real_poll(p,n,t);}
int __wrap_ioctl(int fd,unsigned long rq,...){
    va_list ap;va_start(ap,rq);void* a=va_arg(ap,void*);va_end(ap);
    if(of(fd)){errno=ENOTTY;return -1;}
    return __real_ioctl(fd,rq,a);}
int __wrap_rename(const char* a,const char* b){
    if(!disk::active) return __real_rename(a,b);
    Quiet q; auto i=S()->names.find(a); if(i==S()->names.end()){errno=ENOENT;return -1;}
    auto ino=i->second; S()->names.erase(i); S()->names[b]=ino; S()->written.insert(b); S()->written.insert(a); evt("rename %s %s",a,b); return 0;}
int __wrap_unlink(const char* p){
    if(!disk::active) return __real_unlink(p);
    Quiet q; S()->written.insert(p); evt("unlink %s",p); if(!S()->names.erase(p)){errno=ENOENT;return -1;} return 0;}
int __wrap_remove(const char* p){return disk::active?__wrap_unlink(p):__real_remove(p);}
int __wrap_fsync(int fd){return of(fd)?0:__real_fsync(fd);}
int __wrap_ftruncate64(int fd,off64_t n){Open* o=of(fd);if(!o) return __real_ftruncate64(fd,n);Quiet q;o->ino->data.resize((size_t)n);S()->written.insert(o->path);return 0;}
int __wrap_ftruncate(int fd,off64_t n){return __wrap_ftruncate64(fd,n);}
}
