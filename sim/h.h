/* Harness: plans, sessions, snapshots, results. */
#ifndef H_H
#define H_H
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

extern int sim_tty_in;
int sim_count_open_dev(int dev);
u8 *log_arena(void);
extern int (*sim_line_provider)(const char *prompt, char *out, size_t n);  /* 1 line, 0 EOF, -1 interrupt */

/* ------------------------------------------------------------- snapshots */
#define MAXSP 140
#define MAXREG 160
typedef struct {
	int num, type;                 /* PedPartitionType of active partitions */
	i64 s, e;
	u32 flags, avail;              /* bit per PedPartitionFlag */
	char fs[20];
	char name[164]; int has_name;
	int has_tid; int tid;
	int has_tuuid; u8 tuuid[16];
	int has_uuid; u8 uuid[16];
} SPart;
typedef struct { int type; i64 s, e; } SReg;
typedef struct {
	int ok, trunc;
	char label[12];
	i64 len; int lss;
	int dflags, davail;
	int has_duuid; u8 duuid[16];
	int feat;                      /* feature bits */
	int maxprim, lastnum;
	int np; SPart p[MAXSP];        /* in list order */
	int nr; SReg r[MAXREG];        /* free space and metadata */
} Snap;

/* ------------------------------------------------------------------ plan */
enum { SK_API = 1, SK_CLI, SK_PARTPROBE, SK_POWERCUT, SK_CRASHSCAN, SK_TAMPER, SK_RESIZEDEV, SK_KERNEL, SK_IMAGE, SK_FS, SK_N };
enum { OP_LABEL = 1, OP_ADD, OP_DEL, OP_GEOM, OP_MAX, OP_MINEXT, OP_FLAG, OP_NAME, OP_SYSTEM, OP_TYPEID, OP_TYPEUUID,
       OP_DISKFLAG, OP_DUP, OP_DUPMUT, OP_COMMIT, OP_COMMITDEV, OP_COMMITOS, OP_RELOAD, OP_DELALL, OP_CLOBBER,
       OP_EXTACC, OP_CHECK, OP_PROBE, OP_RAWREAD, OP_RAWWRITE, OP_SYNC, OP_OPENCLOSE, OP_PRINT, OP_UNITPRINT, OP_GETDEV, OP_DONE,
       OP_FSOPEN, OP_FSRESIZE, OP_LIST, OP_ALIGNCHECK, OP_HELP, OP_SELECT, OP_QUIT, OP_RESCUE, OP_BADCMD, OP_TOGGLE, OP_PROBEALL, OP_DISKCHECK, OP_N };
typedef struct { int op; i64 a[7]; char s[64]; } Step;
#define MAXSTEP 28
/* exception policies */
enum { XP_UNHANDLED = 0, XP_CANCEL, XP_IGNORE, XP_RETRY, XP_FIX, XP_RANDOM };
/* CLI mode bits */
enum { CM_SCRIPT = 1, CM_FIX = 2, CM_TTY = 4, CM_INTER = 8, CM_MACHINE = 16, CM_JSON = 32, CM_PROMPTARGS = 64, CM_LIST = 128, CM_ISATTY = 256, CM_NOPREALIGN = 512 };
typedef struct {
	int kind, policy;
	i64 a[6];
	char s[256];
	int nst; Step st[MAXSTEP];
} Session;
#define MAXSES 8
typedef struct {
	u64 seed;
	char prop[8];
	char prof[24];             /* generator profile, informative */
	int ndev; SimDev dev[MAXDEV];
	int nses; Session ses[MAXSES];
	int nfault; Fault fault[MAXFAULT];
	u32 checks;                /* which oracles apply: CK_* */
} Plan;
enum { CK_READBACK = 1,        /* after each session: fresh read == last committed (no faults expected) */
       CK_DECODE = 2,          /* independent decoder agrees */
       CK_CRASH = 4,           /* durability of commits under power cut */
       CK_CONTENT = 8,         /* partition contents */
       CK_NOWRITE = 16,        /* sessions without commit must not write */
       CK_KERNEL = 32,
       CK_FD = 64,
       CK_MODEL = 128,         /* frame conditions per operation */
       CK_FAIL = 256,          /* failed operations change nothing */
       CK_CLI = 512,
       CK_ERR = 1024,
       CK_ROBUST = 2048,
       CK_BUSY = 4096,
       CK_PRINT = 8192,
       CK_DUP = 16384,
       CK_OOM = 32768,
       CK_FS = 65536,
       CK_REPAIR = 131072,
       CK_VALID = 262144,
       CK_ATOMIC = 524288,     /* interrupted commits: old or new table */
       CK_ALL = 0x7fffffff };

/* --------------------------------------------------------------- results */
typedef struct { int type, options, answer, op; char msg[200]; u64 ev; } Exc;
typedef struct { char prop[4]; char msg[420]; } Viol;
typedef struct {
	int step, op, rc;
	int pre, post;             /* snapshot indices, -1 none */
	int log0, log1;
	int nexc0, nexc1;
	int errs;                  /* injected errors returned to the code during it */
	int ign, retr;             /* exceptions answered ignore / retry */
	int kch;
	i64 al0, al1;              /* allocations before and after it */
	int want;                  /* op dependent: partition number it addressed */
	i64 ws, we;                /* requested */
	i64 x[4];
	char str[64];
} OpRec;
#define MAXOPREC 48
#define MAXSNAP 72
#define OUTSZ 65536
typedef struct {
	int sig, status, hang;     /* how the child ended; status = exit code */
	int completed;
	int nop; OpRec op[MAXOPREC];
	int nsnap; Snap snap[MAXSNAP];
	int nexc; Exc exc[96];
	struct { int op, num, ptype, flag, state, issued; i64 s, e; char name[64], fs[20], label[12], rlabel[12], line[160]; int fuzzed; } req[MAXSTEP];
	int nreq, cur_req, ended_cmds;
	int ncommit_hook;
	int nviol; Viol v[6];
	int extra[16];
	char model[80]; int pss;
	int outlen, errlen;
	char out[OUTSZ], err[8192];
} Res;

extern Res *R;                     /* result of the session running / just run */

const char *opname(int op); int opcode(const char *s);
int  snap_disk(void *disk, Snap *s);
int  snap_cmp(const Snap *a, const Snap *b, int what, char *msg, size_t n);  /* 0 equal */
enum { SC_FS = 1, SC_NOFLAGS = 2, SC_NONUM = 4, SC_REGIONS = 8, SC_NONAME = 16, SC_STORED = 32 /* only what the label stores */ };
void snap_valid(const Snap *s, char *msg, size_t n);     /* msg[0]=0 if valid */
int snap_rank(const Snap *s, int num); SPart *snap_place(const Snap *s, int rank);
void pc98_name(char *name);
u32 stored_flags(const char *label);
void snap_valid_foreign(const Snap *s, char *msg, size_t n);
void snap_print(FILE *f, const Snap *s);
SPart *snap_find(const Snap *s, int num);
void viol(const char *prop, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

void pviol(const char *prop, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
extern int oom_plan, fault_plan;
void NT_hit(void);
void cli_check(Session *s, int idx, const Snap *before, int before_known);

/* plan text */
void plan_write(FILE *f, const Plan *p);
int  plan_read(FILE *f, Plan *p);
void plan_apply_devs(const Plan *p);

/* execution in child processes */
int  run_child(void (*fn)(void *), void *arg, int session, int cpu_s);
void api_session(void *session);
void cli_session(void *session);
void pp_session(void *session);
void read_disk(int dev, int policy, Snap *out, int *status);  /* fresh process; status 0 ok */
typedef struct { int dev, policy; int want_probe, want_alt; } ReadArg;

/* decoders */
#define MAXMETA 600
typedef struct {
	char label[12];
	int ok;                    /* a table was found */
	int nerr; char err[600];
	int np; struct { int num, type; i64 s, e; int has_tid, tid; int has_tuuid; u8 tuuid[16], uuid[16]; int has_name; char name[164]; int boot, hidden, mbrtype; u64 attr; } p[MAXSP];
	int nmeta; struct { i64 s, e; } meta[MAXMETA];   /* sectors reserved for the label */
	u8 duuid[16];
	int other;                 /* ok flags: gpt bit0 primary valid, bit1 backup valid */
} Dec;
int decode(const Store *st, int dev, const char *label, Dec *d);

/* execution of whole plans */
int  exec_plan(Plan *p);           /* returns number of violations for p->prop recorded in PV */
typedef struct { int n; Viol v[8]; u64 hash; } PlanViol;
extern PlanViol PV;
extern int opt_verbose;
void gen_plan(const char *prop, u64 seed, Plan *p);
struct stats { u64 plans, sessions, readers, crash_states, ops, ops_ok, commits, commits_ok, sim_us, faults[FA_N], evf[EV_N], exc, shots; u64 op[OP_N][2]; u64 lab[16]; u64 pairs; u64 fs_ok; u64 maskc[16]; };
typedef struct { int ses; i64 a, b; } AllocWin;   /* allocations made by commits and by reading and making labels */
extern AllocWin alloc_win[64]; extern int nalloc_win;
extern struct stats *ST;
void state_seen(u64 h);
#endif
