/* simvfs: an in-memory SQLite VFS with a durable image per file, injected
 * I/O errors and crashes.  Paths under SIM_PREFIX live here, all other paths
 * go to the platform VFS.  Only one simulated thread runs at a time.
 *
 * Model:  "data" is what the operating system would return to a reader (page
 * cache); "dur" is what is on the platter.  xSync copies data to dur.  A
 * process kill keeps "data".  A power loss starts from "dur" and applies a
 * seeded subset of the unsynced operations, some of them torn at a sector
 * boundary.  Directory operations (create after first sync, delete) are
 * durable when they return.
 */
#include <sqlite3.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

#define SIM_PREFIX "/simdisk/"
#define SIM_PREFIX_LEN 9
#define SECTOR 512

enum { OP_OPEN = 1, OP_READ = 2, OP_WRITE = 4, OP_SYNC = 8, OP_TRUNC = 16, OP_DEL = 32 };
enum { ACT_IOERR = 1, ACT_FULL = 2, ACT_CRASH_BEFORE = 3, ACT_CRASH_TORN = 4, ACT_CRASH_AFTER = 5 };

typedef struct Unsynced { int type; int64_t off; int len; uint8_t *bytes; struct Unsynced *next; } Unsynced;
typedef struct SimFile {
  char *name; int exists;
  uint8_t *data; int64_t len, cap;
  uint8_t *dur; int64_t durlen; int durexists;
  Unsynced *head, *tail;
  struct SimFile *next;
} SimFile;
typedef struct SimHandle {
  sqlite3_file base;
  SimFile *f; int lock; int dead; int del_on_close; int open;
  struct SimHandle *next;
} SimHandle;
typedef struct Fault { char prefix[256]; int mask; int countdown; int action; int sticky; int fired; int used; } Fault;

static SimFile *g_files; static SimHandle *g_handles;
static sqlite3_vfs *g_real; static sqlite3_vfs g_vfs;
#define MAXF 16
static Fault g_faults[MAXF];
static void (*g_cb)(int fault, int op);
static int64_t g_counts[8]; /* open read write sync trunc del errors crashes */
static uint64_t g_rng;

static uint64_t rnd(void){ uint64_t z=(g_rng+=0x9e3779b97f4a7c15ULL); z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
static int opidx(int op){ int i=0; while(op>1){op>>=1;i++;} return i; }
static int is_sim(const char *n){ return n && strncmp(n, SIM_PREFIX, SIM_PREFIX_LEN)==0; }
static SimFile *find(const char *n){ for(SimFile *f=g_files;f;f=f->next) if(strcmp(f->name,n)==0) return f; return 0; }
static SimFile *get(const char *n){ SimFile *f=find(n); if(f) return f; f=calloc(1,sizeof *f); f->name=strdup(n); f->next=g_files; g_files=f; return f; }
static void drop_unsynced(SimFile *f){ Unsynced *u=f->head; while(u){Unsynced *n=u->next; free(u->bytes); free(u); u=n;} f->head=f->tail=0; }
static void ensure(SimFile *f,int64_t cap){ if(f->cap<cap){ int64_t c=f->cap?f->cap:4096; while(c<cap)c*=2; f->data=realloc(f->data,c); memset(f->data+f->cap,0,c-f->cap); f->cap=c; } }
static void put(SimFile *f,int64_t off,const uint8_t *b,int n){ ensure(f,off+n); if(off>f->len) memset(f->data+f->len,0,off-f->len); memcpy(f->data+off,b,n); if(off+n>f->len) f->len=off+n; }
static void log_op(SimFile *f,int type,int64_t off,const uint8_t *b,int n){ Unsynced *u=calloc(1,sizeof *u); u->type=type;u->off=off;u->len=n; if(b){u->bytes=malloc(n?n:1); memcpy(u->bytes,b,n);} if(f->tail)f->tail->next=u; else f->head=u; f->tail=u; }
static void sync_file(SimFile *f){ free(f->dur); f->dur=malloc(f->len?f->len:1); memcpy(f->dur,f->data,f->len); f->durlen=f->len; f->durexists=f->exists; drop_unsynced(f); }

/* returns 0 or an action; sets *which */
static int check_fault(const char *name,int op,int *which){
  g_counts[opidx(op)]++;
  for(int i=0;i<MAXF;i++){ Fault *t=&g_faults[i];
    if(!t->used||!(t->mask&op)||strncmp(name,t->prefix,strlen(t->prefix))!=0) continue;
    if(t->countdown>0){ t->countdown--; continue; }
    if(t->fired&&!t->sticky) continue;
    t->fired++; *which=i; return t->action; }
  return 0; }
/* a crashed process may still execute instructions in the simulator until its
 * thread is parked: nothing it does may reach the disk */
static char g_frozen[MAXF][256];
static int frozen(const char *n){ for(int i=0;i<MAXF;i++) if(g_frozen[i][0]&&strncmp(n,g_frozen[i],strlen(g_frozen[i]))==0) return 1; return 0; }
static void freeze(const char *p){ if(frozen(p)) return; for(int i=0;i<MAXF;i++) if(!g_frozen[i][0]){ strncpy(g_frozen[i],p,255); return; } }
void simvfs_unfreeze(const char *p){ for(int i=0;i<MAXF;i++) if(strcmp(g_frozen[i],p)==0) g_frozen[i][0]=0; }
static void kill_handles(const char *prefix){ freeze(prefix); for(SimHandle *h=g_handles;h;h=h->next) if(strncmp(h->f->name,prefix,strlen(prefix))==0){ h->dead=1; h->lock=0; } }
static void crash_now(int which,int op){ g_counts[7]++; kill_handles(g_faults[which].prefix); if(g_cb) g_cb(which,op); }

static int xClose(sqlite3_file *p){ SimHandle *h=(SimHandle*)p; SimHandle **pp=&g_handles; while(*pp){ if(*pp==h){*pp=h->next;break;} pp=&(*pp)->next; }
  if(h->del_on_close&&!h->dead){ h->f->exists=0; h->f->durexists=0; h->f->len=0; drop_unsynced(h->f);} h->lock=0; h->open=0; return SQLITE_OK; }
static int xRead(sqlite3_file *p,void *buf,int n,sqlite3_int64 off){ SimHandle *h=(SimHandle*)p; if(h->dead) return SQLITE_IOERR_READ; int w;
  int a=check_fault(h->f->name,OP_READ,&w); if(a==ACT_IOERR||a==ACT_FULL){ g_counts[6]++; return SQLITE_IOERR_READ;} if(a){ crash_now(w,OP_READ); return SQLITE_IOERR_READ; }
  SimFile *f=h->f; if(off>=f->len){ memset(buf,0,n); return SQLITE_IOERR_SHORT_READ; } int m=n; if(off+m>f->len) m=f->len-off; memcpy(buf,f->data+off,m); if(m<n){ memset((char*)buf+m,0,n-m); return SQLITE_IOERR_SHORT_READ; } return SQLITE_OK; }
static int xWrite(sqlite3_file *p,const void *buf,int n,sqlite3_int64 off){ SimHandle *h=(SimHandle*)p; if(h->dead) return SQLITE_IOERR_WRITE; int w;
  int a=check_fault(h->f->name,OP_WRITE,&w);
  if(a==ACT_IOERR){ g_counts[6]++; return SQLITE_IOERR_WRITE; }
  if(a==ACT_FULL){ g_counts[6]++; return SQLITE_FULL; }
  if(a==ACT_CRASH_BEFORE){ crash_now(w,OP_WRITE); return SQLITE_IOERR_WRITE; }
  if(a==ACT_CRASH_TORN){ int m=(int)(rnd()%(uint64_t)(n+1)); put(h->f,off,buf,m); log_op(h->f,0,off,buf,m); crash_now(w,OP_WRITE); return SQLITE_IOERR_WRITE; }
  put(h->f,off,buf,n); log_op(h->f,0,off,buf,n);
  if(a==ACT_CRASH_AFTER){ crash_now(w,OP_WRITE); return SQLITE_IOERR_WRITE; }
  return SQLITE_OK; }
static int xTruncate(sqlite3_file *p,sqlite3_int64 sz){ SimHandle *h=(SimHandle*)p; if(h->dead) return SQLITE_IOERR_TRUNCATE; int w;
  int a=check_fault(h->f->name,OP_TRUNC,&w);
  if(a==ACT_IOERR||a==ACT_FULL){ g_counts[6]++; return SQLITE_IOERR_TRUNCATE; }
  if(a==ACT_CRASH_BEFORE||a==ACT_CRASH_TORN){ crash_now(w,OP_TRUNC); return SQLITE_IOERR_TRUNCATE; }
  if(sz<h->f->len){ h->f->len=sz; } log_op(h->f,1,sz,0,0);
  if(a){ crash_now(w,OP_TRUNC); return SQLITE_IOERR_TRUNCATE; }
  return SQLITE_OK; }
static int xSync(sqlite3_file *p,int flags){ (void)flags; SimHandle *h=(SimHandle*)p; if(h->dead) return SQLITE_IOERR_FSYNC; int w;
  int a=check_fault(h->f->name,OP_SYNC,&w);
  if(a==ACT_IOERR||a==ACT_FULL){ g_counts[6]++; return SQLITE_IOERR_FSYNC; }
  if(a==ACT_CRASH_BEFORE||a==ACT_CRASH_TORN){ crash_now(w,OP_SYNC); return SQLITE_IOERR_FSYNC; }
  sync_file(h->f);
  if(a){ crash_now(w,OP_SYNC); return SQLITE_IOERR_FSYNC; }
  return SQLITE_OK; }
static int xFileSize(sqlite3_file *p,sqlite3_int64 *s){ SimHandle *h=(SimHandle*)p; if(h->dead) return SQLITE_IOERR_FSTAT; *s=h->f->len; return SQLITE_OK; }
static int others(SimHandle *me,int lvl){ for(SimHandle *h=g_handles;h;h=h->next) if(h!=me&&h->f==me->f&&!h->dead&&h->open&&h->lock>=lvl) return 1; return 0; }
static int xLock(sqlite3_file *p,int l){ SimHandle *h=(SimHandle*)p; if(h->dead) return SQLITE_IOERR_LOCK; if(h->lock>=l) return SQLITE_OK;
  if(l==SQLITE_LOCK_SHARED){ if(others(h,SQLITE_LOCK_PENDING)) return SQLITE_BUSY; h->lock=l; return SQLITE_OK; }
  if(l==SQLITE_LOCK_RESERVED){ if(others(h,SQLITE_LOCK_RESERVED)) return SQLITE_BUSY; h->lock=l; return SQLITE_OK; }
  if(l==SQLITE_LOCK_EXCLUSIVE){ if(others(h,SQLITE_LOCK_RESERVED)) return SQLITE_BUSY; if(others(h,SQLITE_LOCK_SHARED)){ h->lock=SQLITE_LOCK_PENDING; return SQLITE_BUSY; } h->lock=l; return SQLITE_OK; }
  h->lock=l; return SQLITE_OK; }
static int xUnlock(sqlite3_file *p,int l){ SimHandle *h=(SimHandle*)p; if(h->lock>l) h->lock=l; return SQLITE_OK; }
static int xCheckReserved(sqlite3_file *p,int *out){ SimHandle *h=(SimHandle*)p; *out = h->lock>=SQLITE_LOCK_RESERVED || others(h,SQLITE_LOCK_RESERVED); return SQLITE_OK; }
static int xFileControl(sqlite3_file *p,int op,void *a){ (void)p;(void)op;(void)a; return SQLITE_NOTFOUND; }
static int xSectorSize(sqlite3_file *p){ (void)p; return 4096; }
static int xDevChar(sqlite3_file *p){ (void)p; return SQLITE_IOCAP_POWERSAFE_OVERWRITE; }
static const sqlite3_io_methods g_io = { 1, xClose,xRead,xWrite,xTruncate,xSync,xFileSize,xLock,xUnlock,xCheckReserved,xFileControl,xSectorSize,xDevChar,0,0,0,0,0,0 };

static int vOpen(sqlite3_vfs *v,const char *name,sqlite3_file *p,int flags,int *out){ (void)v;
  if(!is_sim(name)) return g_real->xOpen(g_real,name,p,flags,out);
  SimHandle *h=(SimHandle*)p; memset(h,0,sizeof *h); int w; if(frozen(name)) return SQLITE_CANTOPEN;
  int a=check_fault(name,OP_OPEN,&w); if(a==ACT_IOERR||a==ACT_FULL){ g_counts[6]++; return SQLITE_CANTOPEN; } if(a){ crash_now(w,OP_OPEN); return SQLITE_CANTOPEN; }
  SimFile *f=find(name); if((!f||!f->exists)&&!(flags&SQLITE_OPEN_CREATE)) return SQLITE_CANTOPEN;
  f=get(name); if(!f->exists){ f->exists=1; f->len=0; drop_unsynced(f); }
  h->base.pMethods=&g_io; h->f=f; h->open=1; h->del_on_close=(flags&SQLITE_OPEN_DELETEONCLOSE)!=0; h->next=g_handles; g_handles=h; if(out)*out=flags; return SQLITE_OK; }
static int vDelete(sqlite3_vfs *v,const char *name,int sync){ (void)v;
  if(!is_sim(name)) return g_real->xDelete(g_real,name,sync);
  int w; if(frozen(name)) return SQLITE_IOERR_DELETE;
  SimFile *f=find(name); if(!f||!f->exists) return SQLITE_IOERR_DELETE_NOENT;
  int a=check_fault(name,OP_DEL,&w); if(a==ACT_IOERR||a==ACT_FULL){ g_counts[6]++; return SQLITE_IOERR_DELETE; }
  if(a==ACT_CRASH_BEFORE||a==ACT_CRASH_TORN){ crash_now(w,OP_DEL); return SQLITE_IOERR_DELETE; }
  f->exists=0; f->len=0; f->durexists=0; f->durlen=0; drop_unsynced(f);
  if(a){ crash_now(w,OP_DEL); return SQLITE_IOERR_DELETE; }
  return SQLITE_OK; }
static int vAccess(sqlite3_vfs *v,const char *name,int flags,int *out){ (void)v; if(!is_sim(name)) return g_real->xAccess(g_real,name,flags,out); SimFile *f=find(name); *out = f&&f->exists&&(flags!=SQLITE_ACCESS_EXISTS||f->len>0||1); return SQLITE_OK; }
static int vFull(sqlite3_vfs *v,const char *name,int n,char *out){ (void)v; if(!is_sim(name)) return g_real->xFullPathname(g_real,name,n,out); if((int)strlen(name)>=n) return SQLITE_CANTOPEN; strcpy(out,name); return SQLITE_OK; }
static int vRandom(sqlite3_vfs *v,int n,char *out){ (void)v; for(int i=0;i<n;i++) out[i]=(char)rnd(); return n; }
static int vSleep(sqlite3_vfs *v,int us){ (void)v; return us; }
static int vTime64(sqlite3_vfs *v,sqlite3_int64 *t){ (void)v; *t=212000000000000LL; return SQLITE_OK; }
static int vTime(sqlite3_vfs *v,double *t){ (void)v; *t=2453736.5; return SQLITE_OK; }
static void *vDlOpen(sqlite3_vfs *v,const char *f){ (void)v; return g_real->xDlOpen(g_real,f); }
static void vDlError(sqlite3_vfs *v,int n,char *m){ (void)v; g_real->xDlError(g_real,n,m); }
static void (*vDlSym(sqlite3_vfs *v,void *h,const char *s))(void){ (void)v; return g_real->xDlSym(g_real,h,s); }
static void vDlClose(sqlite3_vfs *v,void *h){ (void)v; g_real->xDlClose(g_real,h); }
static int vLastErr(sqlite3_vfs *v,int n,char *m){ (void)v;(void)n;(void)m; return 0; }

int simvfs_init(void){ if(g_real) return 0; g_real=sqlite3_vfs_find(0); if(!g_real) return 1;
  memset(&g_vfs,0,sizeof g_vfs); g_vfs.iVersion=2; g_vfs.szOsFile=g_real->szOsFile>(int)sizeof(SimHandle)?g_real->szOsFile:(int)sizeof(SimHandle);
  g_vfs.mxPathname=512; g_vfs.zName="simvfs"; g_vfs.xOpen=vOpen; g_vfs.xDelete=vDelete; g_vfs.xAccess=vAccess; g_vfs.xFullPathname=vFull;
  g_vfs.xDlOpen=vDlOpen; g_vfs.xDlError=vDlError; g_vfs.xDlSym=vDlSym; g_vfs.xDlClose=vDlClose; g_vfs.xRandomness=vRandom; g_vfs.xSleep=vSleep; g_vfs.xCurrentTime=vTime; g_vfs.xGetLastError=vLastErr; g_vfs.xCurrentTimeInt64=vTime64;
  return sqlite3_vfs_register(&g_vfs,1); }
void simvfs_seed(uint64_t s){ g_rng=s; }
void simvfs_callback(void (*cb)(int,int)){ g_cb=cb; }
int simvfs_fault(const char *prefix,int mask,int countdown,int action,int sticky){ for(int i=0;i<MAXF;i++) if(!g_faults[i].used){ Fault *t=&g_faults[i]; memset(t,0,sizeof *t); strncpy(t->prefix,prefix,255); t->mask=mask;t->countdown=countdown;t->action=action;t->sticky=sticky;t->used=1; return i; } return -1; }
int simvfs_fault_fired(int i){ return g_faults[i].fired; }
void simvfs_fault_clear(int i){ g_faults[i].used=0; }
void simvfs_faults_clear_all(void){ for(int i=0;i<MAXF;i++) g_faults[i].used=0; }
/* process gone: its handles die, the page cache stays */
void simvfs_kill(const char *prefix){ kill_handles(prefix); }
/* machine gone: unsynced operations are lost, kept or torn */
int simvfs_powerloss(const char *prefix,uint64_t seed,int keep_permille,int torn_permille){
  g_rng=seed; int lost=0; kill_handles(prefix);
  for(SimFile *f=g_files;f;f=f->next){ if(strncmp(f->name,prefix,strlen(prefix))!=0) continue;
    if(!f->exists){ continue; }
    Unsynced *u=f->head; f->head=f->tail=0;
    f->len=0; if(f->durexists){ ensure(f,f->durlen); memcpy(f->data,f->dur,f->durlen); f->len=f->durlen; }
    while(u){ Unsynced *n=u->next; int r=(int)(rnd()%1000);
      if(r<keep_permille){ if(u->type==0) put(f,u->off,u->bytes,u->len); else if(u->off<f->len) f->len=u->off; }
      else { lost++; if(u->type==0 && (int)(rnd()%1000)<torn_permille){ int m=(int)(rnd()%(uint64_t)(u->len+1)); if(m>SECTOR) m-=m%SECTOR; put(f,u->off,u->bytes,m);} }
      free(u->bytes); free(u); u=n; }
    sync_file(f); }
  return lost; }
int64_t simvfs_count(int i){ return g_counts[i]; }
