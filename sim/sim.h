/* Deterministic simulator for parted/libparted: the world a process sees. */
#ifndef SIM_H
#define SIM_H
#define EVENT_BUDGET 1000000
#include <stdint.h>
#include <stddef.h>
#include <sys/types.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

/* ------------------------------------------------------------------ PRNG */
typedef struct { u64 s; } Rng;
static inline u64 rng_next(Rng *r) {            /* splitmix64 */
	u64 z = (r->s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
static inline u64 rng_below(Rng *r, u64 n) { return n ? rng_next(r) % n : 0; }
static inline int rng_pct(Rng *r, int pct) { return (int)rng_below(r, 100) < pct; }
static inline i64 rng_range(Rng *r, i64 lo, i64 hi) { return lo + (i64)rng_below(r, (u64)(hi - lo + 1)); }

/* --------------------------------------------------------------- devices */
#define MAXDEV 3
#define MAXKP 160
enum { DT_FILE, DT_SCSI, DT_IDE, DT_VIRT, DT_NVME, DT_MMC, DT_LOOP, DT_MD, DT_DM, DT_UNK, DT_XVD, DT_RAM, DT_N };

typedef struct {               /* one partition known to the simulated kernel */
	int num;
	u64 start, len;        /* bytes */
	int mounted;           /* 1 mounted, 2 swap: listed in /proc */
	int held;              /* open by someone else (not listed) */
	u64 busy_until;        /* transient opener until this simulated time (us) */
	u32 uid;               /* identity: changes when deleted and re-added */
} KPart;

typedef struct {
	char path[48];
	char link[48];         /* alternative name (symlink), "" if none */
	int type;
	u32 major, minor;
	int lss, pss;
	u32 min_io, opt_io, align_off;
	int have_topo;
	u64 bytes;
	int ro;                /* open for writing fails */
	int have_geo, heads, sectors;
	int ext_range;         /* <0: no such sysfs file */
	int have_sysfs_parts;  /* start/size entries present */
	int have_blkpg_resize;
	int whole_mounted;     /* the whole device is mounted/swap */
	char model[64], vendor[16];
	u64 fill;              /* seed of the pattern of never-written pages; 0 = zeros */
	int nkp;
	KPart kp[MAXKP];
	char dmname[32], dmuuid[64];
} SimDev;

/* ---------------------------------------------------------------- store */
#define PGSZ 4096
#define MAXPG 12288
#define HASHN 8192
typedef struct {
	u32 n;
	int hash[HASHN];
	struct { u32 next; u32 dev; u64 no; } idx[MAXPG];
	u8 (*data)[PGSZ];
} Store;

/* ------------------------------------------------------------------ log */
enum { LW_WRITE = 1, LW_FLUSH = 2 };
typedef struct {
	int kind, dev, op, commit;    /* op: index of the step that did it; commit: index of commit record or -1 */
	u64 off; u32 len; u32 dpos;   /* position of the data in the data arena */
	u64 ev;
	u8 part;                      /* written through a partition node */
} LogEnt;
#define MAXLOG 20000
#define LOGDATA (24u << 20)

/* --------------------------------------------------------------- faults */
enum { EV_OPEN, EV_READ, EV_WRITE, EV_FSYNC, EV_CLOSE, EV_SEEK, EV_STAT, EV_BLKPG, EV_IOCTL, EV_SYSFS, EV_DM, EV_SLEEP, EV_ALLOC, EV_ANY, EV_LINE, EV_N };
enum { FA_ERR = 1,     /* fail with errno arg, count times in a row */
       FA_SHORT,       /* transfer only arg/256 of the bytes (multiple of lss); count times */
       FA_KILL,        /* process dies before the event takes effect */
       FA_TEAR,        /* write: first arg/256 (in 512 byte units) of it done, then process dies */
       FA_EOF,         /* read returns 0 */
       FA_ACTOR,       /* another process acts: arg = actor code, arg2 = partition selector */
       FA_BADRANGE,    /* from now on the range [arg, arg2) sectors of the device is unreadable / unwritable */
       FA_INT,         /* SIGINT at a prompt */
       FA_N };
enum { AC_MOUNT = 1, AC_SWAP, AC_UMOUNT, AC_HOLD, AC_RELEASE, AC_TRANSIENT, AC_WHOLE_MOUNT, AC_FORGET, AC_ADDPART, AC_WHOLE_UMOUNT, AC_MOUNT_LAST, AC_WHOLE_SWAP };
typedef struct {
	int session;           /* -1: any */
	int ev;                /* event kind */
	int ord;               /* ordinal of that kind within the session (0-based) */
	int action;
	i64 arg, arg2;
	int count;
	int fired;
} Fault;
#define MAXFAULT 24

typedef struct {
	int session;
	u64 cnt[EV_N];
	u64 ev;
	u64 now;                /* simulated microseconds */
} Counters;

/* ---------------------------------------------------------------- world */
typedef struct {
	int ndev;
	SimDev dev[MAXDEV];
	Store cur, dur, base, scratch;
	int nlog; u32 logdata; u32 log_overflow;
	LogEnt log[MAXLOG];
	int nfault; Fault fault[MAXFAULT];
	Counters c;
	u64 now;                /* carried across sessions */
	u64 slept;
	u64 seed;
	u32 next_uid;
	u64 hash;               /* running hash of the event log */
	int trace;              /* print events to stderr of the harness */
	int cur_op;             /* step index running in the child */
	int cur_commit;
	u64 uuid_ctr;
	/* bad ranges per device */
	struct { int dev; u64 from, to; int mode; } bad[8]; int nbad;  /* bytes; mode 1 read,2 write,3 both */
	/* statistics for evidence */
	u64 st_fault[FA_N]; u64 st_evfault[EV_N];
	u64 st_syscalls;
	/* monitor results (kern side) */
	int openfds;            /* descriptors open on devices at session end */
	int badfd;              /* I/O on closed descriptor etc. */
	u64 wcalls;             /* write calls that changed or could change the device */
	u64 kchanges;           /* successful kernel partition changes */
	u64 kdel_busy;          /* deletes of a busy partition (EBUSY) */
	u64 alloc_fail_at;
	int budget_hit;
	int last_fault_ev;
	u64 ro_write_attempt;
	int io_err_seen;        /* an injected error was returned to the program in this session */
	int io_err_ev[EV_N];
	int stdin_reads;        /* prompts that consumed a line or EOF */
	int stdin_eof;
	char lines[4096];       /* scripted input */
	int line_pos;
	int rdlines_in_script;
	u32 kactive_uid[MAXDEV][MAXKP]; /* uid of in-use partitions deleted/changed -> never */
	int kviol; char kviolmsg[200];
	int oom_armed;
	u64 rd_next, rd_asc; /* reads that went on where the one before ended */
	u64 uid_deleted[64]; int nuid_deleted;
} World;

extern World *W;

void world_alloc(void);
void world_reset(u64 seed);
void store_clear(Store *s);
void store_copy(Store *d, const Store *s);
void store_read(const Store *s, int dev, u64 off, void *buf, u64 len);
void store_write(Store *s, int dev, u64 off, const void *buf, u64 len);
u64 store_hash(const Store *s, int dev);
int  store_same(const Store *a, const Store *b, int dev, u64 *where);

/* raw access for harness code: changes both current and durable contents */
void dev_poke(int dev, u64 off, const void *buf, u64 len);
void dev_peek(int dev, u64 off, void *buf, u64 len);

void sess_begin(int session, const char *lines);   /* called in the child */
void kern_exit(int code) __attribute__((noreturn));
void actor_act(int dev, int code, i64 sel);
KPart *kpart_find(SimDev *d, int num);
int  kpart_busy(SimDev *d, KPart *k);
void kpart_node(SimDev *d, int num, char *out, size_t n);
void log_flush_all(int dev);
void hash_ev(u64 a, u64 b, u64 c);
int sim_count_open(void);
extern int sim_in_target;   /* allocation faults only when set */
u64 fnv(const void *p, size_t n, u64 h);
#endif
