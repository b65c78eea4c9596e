// An in-memory sqlite VFS with crash semantics. Everything that blocks, fails or reads a clock asks Go.
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include <time.h>
#include <pthread.h>
#include "vfs.h"

#define SQLITE_OK 0
#define SQLITE_BUSY 5
#define SQLITE_IOERR 10
#define SQLITE_CANTOPEN 14
#define SQLITE_NOTFOUND 12
#define SQLITE_IOERR_SHORT_READ (SQLITE_IOERR | (2<<8))
#define SQLITE_OPEN_CREATE 4
#define SQLITE_OPEN_DELETEONCLOSE 8

typedef long long i64;
typedef struct sqlite3_file sqlite3_file;
typedef struct sqlite3_io_methods sqlite3_io_methods;
typedef struct sqlite3_vfs sqlite3_vfs;
struct sqlite3_file { const sqlite3_io_methods *pMethods; };
struct sqlite3_io_methods {
  int iVersion;
  int (*xClose)(sqlite3_file*);
  int (*xRead)(sqlite3_file*, void*, int, i64);
  int (*xWrite)(sqlite3_file*, const void*, int, i64);
  int (*xTruncate)(sqlite3_file*, i64);
  int (*xSync)(sqlite3_file*, int);
  int (*xFileSize)(sqlite3_file*, i64*);
  int (*xLock)(sqlite3_file*, int);
  int (*xUnlock)(sqlite3_file*, int);
  int (*xCheckReservedLock)(sqlite3_file*, int*);
  int (*xFileControl)(sqlite3_file*, int, void*);
  int (*xSectorSize)(sqlite3_file*);
  int (*xDeviceCharacteristics)(sqlite3_file*);
};
struct sqlite3_vfs {
  int iVersion; int szOsFile; int mxPathname; sqlite3_vfs *pNext; const char *zName; void *pAppData;
  int (*xOpen)(sqlite3_vfs*, const char*, sqlite3_file*, int, int*);
  int (*xDelete)(sqlite3_vfs*, const char*, int);
  int (*xAccess)(sqlite3_vfs*, const char*, int, int*);
  int (*xFullPathname)(sqlite3_vfs*, const char*, int, char*);
  void *(*xDlOpen)(sqlite3_vfs*, const char*);
  void (*xDlError)(sqlite3_vfs*, int, char*);
  void (*(*xDlSym)(sqlite3_vfs*, void*, const char*))(void);
  void (*xDlClose)(sqlite3_vfs*, void*);
  int (*xRandomness)(sqlite3_vfs*, int, char*);
  int (*xSleep)(sqlite3_vfs*, int);
  int (*xCurrentTime)(sqlite3_vfs*, double*);
  int (*xGetLastError)(sqlite3_vfs*, int, char*);
  int (*xCurrentTimeInt64)(sqlite3_vfs*, i64*);
};
extern int sqlite3_vfs_register(sqlite3_vfs*, int);

typedef struct Op { struct Op *next; int trunc; i64 off; int n; unsigned char *data; } Op;
typedef struct Mem {
  struct Mem *next;
  char *name;
  unsigned char *data; i64 size, cap;
  unsigned char *dur; i64 dsize; // content at the last sync
  Op *ops, **tail;               // since the last sync
  int refs, linked, gen;
  int nShared; void *reserved, *pending, *excl;
} Mem;
typedef struct File { sqlite3_file base; Mem *m; int lock, gen, del; } File;

static Mem *files;
// the collector may close handles of earlier runs on another thread: the list has a lock, and names of earlier runs are refused
static pthread_mutex_t g_mu=PTHREAD_MUTEX_INITIALIZER;
static char g_run[64]="/";
static int foreign(const char *n){ return n && strncmp(n,g_run,strlen(g_run))!=0; }
static int g_gen = 1;
i64 simvfs_writes, simvfs_syncs, simvfs_live;

static void dropOps(Mem *m){ Op *o=m->ops,*n; for(;o;o=n){n=o->next; free(o->data); free(o);} m->ops=0; m->tail=&m->ops; }
static Mem *find(const char *n){ Mem *m; for(m=files;m;m=m->next) if(m->linked && !strcmp(m->name,n)) return m; return 0; }
static void reap(void){
  Mem **p=&files;
  while(*p){ Mem *m=*p; if(!m->linked && m->refs==0){ *p=m->next; dropOps(m); free(m->data); free(m->dur); free(m->name); free(m);} else p=&m->next; }
}
static Mem *mk(const char *n){
  Mem *m=calloc(1,sizeof *m); m->name=strdup(n?n:"?temp"); m->linked=n!=0; m->tail=&m->ops; m->next=files; files=m; m->gen=g_gen; return m;
}
static void setSize(Mem *m,i64 n){
  if(n>m->cap){ i64 c=m->cap?m->cap*2:8192; while(c<n)c*=2; m->data=realloc(m->data,c); memset(m->data+m->cap,0,c-m->cap); m->cap=c; }
  if(n<m->size) memset(m->data+n,0,m->size-n);
  m->size=n;
}
static int stale(File *f){ return f->m==0 || f->gen!=f->m->gen; }

static int fClose(sqlite3_file *sf){
  File *f=(File*)sf; Mem *m=f->m; if(!m) return SQLITE_OK;
  if(!stale(f)){
    if(f->lock>=1) m->nShared--;
    if(m->reserved==f) m->reserved=0;
    if(m->pending==f) m->pending=0;
    if(m->excl==f) m->excl=0;
  }
  pthread_mutex_lock(&g_mu);
  if(f->del) m->linked=0;
  m->refs--; f->m=0; reap(); pthread_mutex_unlock(&g_mu); return SQLITE_OK;
}
static int fRead(sqlite3_file *sf,void *b,int n,i64 off){
  File *f=(File*)sf; if(stale(f)) return SQLITE_IOERR;
  int rc=simvfsHook(1,f->m->name,n); if(rc) return rc;
  if(stale(f)) return SQLITE_IOERR;
  Mem *m=f->m; i64 k=m->size-off; if(k<0)k=0; if(k>n)k=n;
  if(k>0) memcpy(b,m->data+off,k);
  if(k<n){ memset((char*)b+k,0,n-k); return SQLITE_IOERR_SHORT_READ; }
  return SQLITE_OK;
}
static void logop(Mem *m,int tr,i64 off,const void *b,int n){
  Op *o=calloc(1,sizeof *o); o->trunc=tr; o->off=off; o->n=n; if(n){ o->data=malloc(n); memcpy(o->data,b,n);} *m->tail=o; m->tail=&o->next;
}
static int fWrite(sqlite3_file *sf,const void *b,int n,i64 off){
  File *f=(File*)sf; if(stale(f)) return SQLITE_IOERR;
  int rc=simvfsHook(2,f->m->name,n); 
  if(stale(f)) return SQLITE_IOERR;
  Mem *m=f->m;
  if(rc){ int k=(rc>>16)&0xffff; rc&=0xffff; // a failing write may have written a prefix
    if(k>0 && k<n){ if(off+k>m->size) setSize(m,off+k); memcpy(m->data+off,b,k); logop(m,0,off,b,k);} return rc; }
  simvfs_writes++;
  if(off+n>m->size) setSize(m,off+n);
  memcpy(m->data+off,b,n); logop(m,0,off,b,n);
  return SQLITE_OK;
}
static int fTruncate(sqlite3_file *sf,i64 n){
  File *f=(File*)sf; if(stale(f)) return SQLITE_IOERR;
  int rc=simvfsHook(3,f->m->name,0)&0xffff; if(rc) return rc;
  if(stale(f)) return SQLITE_IOERR;
  if(n<f->m->size) setSize(f->m,n);
  logop(f->m,1,n,0,0); return SQLITE_OK;
}
static void commitDur(Mem *m){ free(m->dur); m->dur=malloc(m->size?m->size:1); memcpy(m->dur,m->data,m->size); m->dsize=m->size; dropOps(m); }
static int fSync(sqlite3_file *sf,int fl){
  File *f=(File*)sf; if(stale(f)) return SQLITE_IOERR;
  int rc=simvfsHook(4,f->m->name,0)&0xffff; if(rc) return rc;
  if(stale(f)) return SQLITE_IOERR;
  simvfs_syncs++; commitDur(f->m); return SQLITE_OK;
}
static int fSize(sqlite3_file *sf,i64 *p){ File *f=(File*)sf; if(stale(f)) return SQLITE_IOERR; *p=f->m->size; return SQLITE_OK; }
static int fLock(sqlite3_file *sf,int l){
  File *f=(File*)sf; if(stale(f)) return SQLITE_IOERR;
  if(f->lock>=l) return SQLITE_OK;
  simvfsHook(5,f->m->name,l);
  if(stale(f)) return SQLITE_IOERR;
  Mem *m=f->m;
  if(l==1){ if((m->pending&&m->pending!=f)||(m->excl&&m->excl!=f)) return SQLITE_BUSY; m->nShared++; f->lock=1; return SQLITE_OK; }
  if(l==2){ if(m->reserved&&m->reserved!=f) return SQLITE_BUSY; m->reserved=f; f->lock=2; return SQLITE_OK; }
  // exclusive (or pending)
  if(m->pending&&m->pending!=f) return SQLITE_BUSY;
  if(m->reserved&&m->reserved!=f) return SQLITE_BUSY;
  m->pending=f; if(f->lock<3) f->lock=3;
  if(l==3) return SQLITE_OK;
  if(m->nShared>1) return SQLITE_BUSY;
  m->excl=f; f->lock=4; return SQLITE_OK;
}
static int fUnlock(sqlite3_file *sf,int l){
  File *f=(File*)sf; if(stale(f)) { f->lock=l; return SQLITE_OK; }
  Mem *m=f->m; if(f->lock<=l) return SQLITE_OK;
  if(f->lock>=2){ if(m->reserved==f)m->reserved=0; if(m->pending==f)m->pending=0; if(m->excl==f)m->excl=0; }
  if(l==0) m->nShared--;
  f->lock=l;
  simvfsHook(6,m->name,l);
  return SQLITE_OK;
}
static int fCheckRes(sqlite3_file *sf,int *p){ File *f=(File*)sf; *p=!stale(f)&&f->m->reserved!=0; return SQLITE_OK; }
static int fControl(sqlite3_file *sf,int op,void *a){ return SQLITE_NOTFOUND; }
static int fSector(sqlite3_file *sf){ return 512; }
static int fDev(sqlite3_file *sf){ return 0; }
static const sqlite3_io_methods IO={1,fClose,fRead,fWrite,fTruncate,fSync,fSize,fLock,fUnlock,fCheckRes,fControl,fSector,fDev};

static int vOpen(sqlite3_vfs *v,const char *n,sqlite3_file *sf,int fl,int *out){
  File *f=(File*)sf; memset(f,0,sizeof *f);
  if(foreign(n)) return SQLITE_CANTOPEN;
  int rc=simvfsHook(7,(char*)(n?n:"?temp"),fl)&0xffff; if(rc) return rc;
  pthread_mutex_lock(&g_mu);
  Mem *m=n?find(n):0;
  if(!m){ if(!(fl&SQLITE_OPEN_CREATE)) { pthread_mutex_unlock(&g_mu); return SQLITE_CANTOPEN; } m=mk(n); }
  f->m=m; m->refs++;
  pthread_mutex_unlock(&g_mu);
  f->gen=m->gen; f->del=(fl&SQLITE_OPEN_DELETEONCLOSE)!=0; f->base.pMethods=&IO;
  if(out)*out=fl; return SQLITE_OK;
}
static int vDelete(sqlite3_vfs *v,const char *n,int dir){
  if(foreign(n)) return SQLITE_IOERR;
  int rc=simvfsHook(8,(char*)n,0)&0xffff; if(rc) return rc;
  pthread_mutex_lock(&g_mu);
  Mem *m=find(n); if(m){ m->linked=0; reap(); }
  pthread_mutex_unlock(&g_mu);
  return SQLITE_OK;
}
static int vAccess(sqlite3_vfs *v,const char *n,int fl,int *r){ if(foreign(n)){ *r=0; return SQLITE_OK; } pthread_mutex_lock(&g_mu); *r=find(n)!=0; pthread_mutex_unlock(&g_mu); return SQLITE_OK; }
static int vFull(sqlite3_vfs *v,const char *n,int k,char *o){ snprintf(o,k,"%s",n); return SQLITE_OK; }
static void *vDlOpen(sqlite3_vfs *v,const char *n){ return 0; }
static void vDlError(sqlite3_vfs *v,int n,char *o){ if(n)o[0]=0; }
static void (*vDlSym(sqlite3_vfs *v,void *h,const char *s))(void){ return 0; }
static void vDlClose(sqlite3_vfs *v,void *h){}
static unsigned long long g_seed=1;
extern void sqlite3_randomness(int, void*);
static int vRandom(sqlite3_vfs *v,int n,char *o){ for(int i=0;i<n;i++){ g_seed=g_seed*6364136223846793005ULL+1442695040888963407ULL; o[i]=(char)(g_seed>>40); } return n; }
// a fresh start: sqlite's own generator is seeded again from the run's seed
void simvfs_seed(unsigned long long x){ g_seed=x; sqlite3_randomness(0,0); }
static int vSleep(sqlite3_vfs *v,int us){ simvfsSleep(us); return us; }
static int vTime64(sqlite3_vfs *v,i64 *p){ *p=simvfsNow()+210866760000000LL; return SQLITE_OK; }
static int vTime(sqlite3_vfs *v,double *p){ i64 t; vTime64(v,&t); *p=t/86400000.0; return SQLITE_OK; }
static int vErr(sqlite3_vfs *v,int n,char *o){ if(n)o[0]=0; return 0; }
static sqlite3_vfs V={2,sizeof(File),512,0,"sim",0,vOpen,vDelete,vAccess,vFull,vDlOpen,vDlError,vDlSym,vDlClose,vRandom,vSleep,vTime,vErr,vTime64};

int simvfs_register(void){ return sqlite3_vfs_register(&V,1); }

static int under(Mem *m,const char *p){ size_t n=strlen(p); return m->linked && !strncmp(m->name,p,n); }
// the process with files under p died: its locks are gone, its handles are dead
void simvfs_died(const char *p){
  for(Mem *m=files;m;m=m->next) if(under(m,p)){ m->gen=++g_gen; m->nShared=0; m->reserved=m->pending=m->excl=0; }
}
// power cut: of what a file was given since its last sync an arbitrary prefix reached the platter, files independently; the
// write in flight is torn at a sector. (sqlite as this code opens it, synchronous=NORMAL, does not promise to survive a file
// system that reorders the writes to one file.)
void simvfs_powercut(const char *p,unsigned long long seed){
  for(Mem *m=files;m;m=m->next) if(under(m,p)){
    Op *ops=m->ops; m->ops=0; m->tail=&m->ops;
    setSize(m,m->dsize); if(m->dsize) memcpy(m->data,m->dur,m->dsize);
    int k=0,i=0; for(Op *o=ops;o;o=o->next) k++;
    seed=seed*6364136223846793005ULL+1442695040888963407ULL; int keep=(int)((seed>>33)%(unsigned)(k+1));
    for(Op *o=ops;o&&i<=keep;o=o->next,i++){
      int n=o->n;
      if(i==keep){ // the write in flight: some of its sectors
        seed=seed*6364136223846793005ULL+1442695040888963407ULL; unsigned r=(unsigned)(seed>>33);
        if(o->trunc) break;
        n=(r%(n/512+1))*512; if(!n) break;
      }
      if(o->trunc){ if(o->off<m->size) setSize(m,o->off); continue; }
      if(o->off+n>m->size) setSize(m,o->off+n);
      memcpy(m->data+o->off,o->data,n);
    }
    for(Op *o=ops,*nx;o;o=nx){ nx=o->next; free(o->data); free(o); }
    commitDur(m);
  }
}
void simvfs_wipe(const char *p,const char *run){ pthread_mutex_lock(&g_mu); snprintf(g_run,sizeof g_run,"%s",run); for(Mem *m=files;m;m=m->next) if(under(m,p)){ m->gen=++g_gen; m->linked=0; } reap(); pthread_mutex_unlock(&g_mu); }
int simvfs_count(void){ int n=0; for(Mem *m=files;m;m=m->next) n++; return n; }
void simvfs_tz(const char *tz){ setenv("TZ",tz,1); tzset(); }
