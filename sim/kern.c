/* The simulated kernel: block devices, partition tables known to the running
   system, procfs/sysfs, device-mapper, clock, terminal and allocator.  The
   code under test is compiled unmodified; its calls to libc and to
   libdevmapper/libblkid/libuuid/libreadline are renamed to the functions
   here (objcopy --redefine-syms, see build.py).  */

#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include <dirent.h>
#include <signal.h>
#include <time.h>
#include <malloc.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <sys/sysmacros.h>
#include <sys/ioctl.h>
#include <linux/fs.h>
#include <linux/hdreg.h>
#include <linux/blkpg.h>

World *W;
int sim_in_target = 1;
static int in_harness;

u64 fnv(const void *p, size_t n, u64 h)
{
	const u8 *b = p;
	if (!h) h = 1469598103934665603ULL;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
	return h;
}

/* ------------------------------------------------------------ page store */
static u8 *map_shared(size_t n)
{
	void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(3); }
	return p;
}
static u8 *logarena;
void world_alloc(void)
{
	W = (World *)map_shared(sizeof(World));
	Store *st[4] = { &W->cur, &W->dur, &W->base, &W->scratch };
	for (int i = 0; i < 4; i++) st[i]->data = (void *)map_shared((size_t)MAXPG * PGSZ);
	logarena = map_shared(LOGDATA);
}
u8 *log_arena(void) { return logarena; }

void store_clear(Store *s) { s->n = 0; memset(s->hash, 0xff, sizeof s->hash); }
static unsigned hsh(int dev, u64 no) { u64 x = no * 0x9e3779b97f4a7c15ULL + dev * 77777; return (unsigned)(x >> 40) % HASHN; }
static int st_find(const Store *s, int dev, u64 no)
{
	for (int i = s->hash[hsh(dev, no)]; i >= 0; i = (int)s->idx[i].next)
		if (s->idx[i].dev == (u32)dev && s->idx[i].no == no) return i;
	return -1;
}
static void default_page(int dev, u64 no, u8 *out)
{
	u64 f = W->dev[dev].fill;
	if (!f) { memset(out, 0, PGSZ); return; }
	Rng r = { f ^ (no * 0x100000001b3ULL) };
	/* non-zero recognisable pattern; never looks like a label signature */
	u64 v = rng_next(&r) | 0x0101010101010101ULL;
	for (int i = 0; i < PGSZ; i += 8) { u64 x = v ^ ((u64)i << 8); memcpy(out + i, &x, 8); }
}
static int st_get(Store *s, int dev, u64 no)
{
	int i = st_find(s, dev, no);
	if (i >= 0) return i;
	if (s->n >= MAXPG) { fprintf(stderr, "SIMERR page store full\n"); _exit(90); }
	i = (int)s->n++;
	s->idx[i].dev = dev; s->idx[i].no = no;
	unsigned h = hsh(dev, no);
	s->idx[i].next = (u32)s->hash[h]; s->hash[h] = i;
	default_page(dev, no, s->data[i]);
	return i;
}
void store_read(const Store *s, int dev, u64 off, void *buf, u64 len)
{
	u8 *b = buf; u8 tmp[PGSZ];
	while (len) {
		u64 no = off / PGSZ, o = off % PGSZ, n = PGSZ - o;
		if (n > len) n = len;
		int i = st_find(s, dev, no);
		if (i >= 0) memcpy(b, s->data[i] + o, n);
		else { default_page(dev, no, tmp); memcpy(b, tmp + o, n); }
		b += n; off += n; len -= n;
	}
}
void store_write(Store *s, int dev, u64 off, const void *buf, u64 len)
{
	const u8 *b = buf;
	while (len) {
		u64 no = off / PGSZ, o = off % PGSZ, n = PGSZ - o;
		if (n > len) n = len;
		int i = st_get(s, dev, no);
		memcpy(s->data[i] + o, b, n);
		b += n; off += n; len -= n;
	}
}
void store_copy(Store *d, const Store *s)
{
	d->n = s->n;
	memcpy(d->hash, s->hash, sizeof d->hash);
	memcpy(d->idx, s->idx, sizeof s->idx[0] * s->n);
	memcpy(d->data, s->data, (size_t)s->n * PGSZ);
}
u64 store_hash(const Store *s, int dev)
{
	u64 acc = 0; u8 tmp[PGSZ];
	for (u32 i = 0; i < s->n; i++) {
		if (s->idx[i].dev != (u32)dev) continue;
		default_page(dev, s->idx[i].no, tmp);
		if (!memcmp(tmp, s->data[i], PGSZ)) continue;
		acc += fnv(s->data[i], PGSZ, s->idx[i].no * 31 + 7);
	}
	return acc;
}
int store_same(const Store *a, const Store *b, int dev, u64 *where)
{
	const Store *x[2] = { a, b };
	u8 t1[PGSZ], t2[PGSZ];
	for (int k = 0; k < 2; k++)
		for (u32 i = 0; i < x[k]->n; i++) {
			if (x[k]->idx[i].dev != (u32)dev) continue;
			u64 off = x[k]->idx[i].no * PGSZ;
			store_read(a, dev, off, t1, PGSZ);
			store_read(b, dev, off, t2, PGSZ);
			if (memcmp(t1, t2, PGSZ)) {
				int o = 0; while (t1[o] == t2[o]) o++;
				if (where) *where = off + o;
				return 0;
			}
		}
	return 1;
}
void dev_poke(int dev, u64 off, const void *buf, u64 len)
{
	store_write(&W->cur, dev, off, buf, len);
	store_write(&W->dur, dev, off, buf, len);
}
void dev_peek(int dev, u64 off, void *buf, u64 len) { store_read(&W->cur, dev, off, buf, len); }

void world_reset(u64 seed)
{
	Store s[4] = { W->cur, W->dur, W->base, W->scratch };
	size_t keep = offsetof(World, log);
	(void)keep;
	W->ndev = 0; memset(W->dev, 0, sizeof W->dev);
	W->cur.data = s[0].data; W->dur.data = s[1].data; W->base.data = s[2].data; W->scratch.data = s[3].data;
	store_clear(&W->cur); store_clear(&W->dur); store_clear(&W->base); store_clear(&W->scratch);
	W->nlog = 0; W->logdata = 0; W->log_overflow = 0;
	memset((char *)W + offsetof(World, nfault), 0, sizeof(World) - offsetof(World, nfault));
	W->seed = seed; W->next_uid = 1; W->cur_commit = -1; W->cur_op = -1;
	W->now = 1700000000ULL * 1000000;
}

/* -------------------------------------------------------- events, faults */
void hash_ev(u64 a, u64 b, u64 c)
{
	u64 t[3] = { a, b, c };
	W->hash = fnv(t, sizeof t, W->hash);
	if (W->trace) fprintf(stderr, "  ev %s a=%llu b=%llu c=%llu\n", "", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
}
void kern_exit(int code)
{
	W->openfds = sim_count_open();
	fflush(stdout);
#ifdef SIM_GCOV
	extern void __gcov_dump(void); __gcov_dump();
#endif
	_exit(code);
}
static const char *evname[EV_N] = { "open", "read", "write", "fsync", "close", "seek", "stat", "blkpg", "ioctl", "sysfs", "dm", "sleep", "alloc", "any", "line" };

static void trace(const char *fmt, ...)
{
	if (!W->trace) return;
	va_list ap; va_start(ap, fmt);
	char b[512]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	fprintf(stderr, "[s%d e%llu] %s\n", W->c.session, (unsigned long long)W->c.ev, b);
}

/* Account one event; returns the fault that applies to it (already counted) or NULL. */
static Fault *event(int kind)
{
	W->c.ev++;
	W->c.now++; W->now++;
	W->st_syscalls++;
	u64 ord = W->c.cnt[kind]++;
	u64 any = kind == EV_ALLOC ? ~0ULL : W->c.cnt[EV_ANY]++;
	if (W->c.ev > EVENT_BUDGET) { W->budget_hit = 1; kern_exit(78); }
	Fault *hit = NULL;
	for (int i = 0; i < W->nfault; i++) {
		Fault *f = &W->fault[i];
		if (f->session >= 0 && f->session != W->c.session) continue;
		u64 o;
		if (f->ev == kind) o = ord;
		else if (f->ev == EV_ANY && kind != EV_ALLOC) o = any;
		else continue;
		int cnt = f->count > 0 ? f->count : 1;
		if (o < (u64)f->ord || o >= (u64)f->ord + cnt) continue;
		if (f->action == FA_ACTOR) {
			f->fired++; W->st_fault[FA_ACTOR]++; W->st_evfault[kind]++;
			actor_act((int)(f->arg >> 8), (int)(f->arg & 255), f->arg2);
			continue;
		}
		if (f->action == FA_BADRANGE) continue;
		if (f->action == FA_KILL) {
			f->fired++; W->st_fault[FA_KILL]++; W->st_evfault[kind]++;
			trace("KILL before %s", evname[kind]);
			hash_ev(1000, kind, ord);
			kern_exit(77);
		}
		/* actions must make sense for the kind */
		if (f->action == FA_TEAR && kind != EV_WRITE) continue;
		if (f->action == FA_SHORT && kind != EV_WRITE && kind != EV_READ) continue;
		if (f->action == FA_EOF && kind != EV_READ) continue;
		if (f->action == FA_INT && kind != EV_LINE) continue;
		if (!hit) hit = f;
	}
	if (hit) {
		hit->fired++; W->st_fault[hit->action]++; W->st_evfault[kind]++;
		trace("FAULT %s action=%d arg=%lld", evname[kind], hit->action, (long long)hit->arg);
		hash_ev(1001, kind, hit->action);
	}
	return hit;
}
static void seen_err(int kind) { W->io_err_seen++; W->io_err_ev[kind]++; }

/* ------------------------------------------------------------ kernel side */
KPart *kpart_find(SimDev *d, int num)
{
	for (int i = 0; i < d->nkp; i++) if (d->kp[i].num == num) return &d->kp[i];
	return NULL;
}
int kpart_busy(SimDev *d, KPart *k)
{
	(void)d;
	return k->mounted || k->held || k->busy_until > W->now;
}
void kpart_node(SimDev *d, int num, char *out, size_t n)
{
	const char *p = d->path;
	size_t l = strlen(p);
	const char *sep = (p[l - 1] >= '0' && p[l - 1] <= '9') ? "p" : "";
	snprintf(out, n, "%s%s%d", p, sep, num);
}
static int rangeov(u64 a, u64 al, u64 b, u64 bl) { return a < b + bl && b < a + al; }

static void kpart_remove(SimDev *d, KPart *k)
{
	int i = (int)(k - d->kp);
	if (W->nuid_deleted < 64) W->uid_deleted[W->nuid_deleted++] = k->uid;
	memmove(&d->kp[i], &d->kp[i + 1], sizeof(KPart) * (size_t)(d->nkp - i - 1));
	d->nkp--;
	W->kchanges++;
}
static int kadd(SimDev *d, int num, u64 start, u64 len)
{
	if (d->nkp >= MAXKP) { errno = ENOMEM; return -1; }
	KPart *k = &d->kp[d->nkp++];
	memset(k, 0, sizeof *k);
	k->num = num; k->start = start; k->len = len; k->uid = W->next_uid++;
	W->kchanges++;
	return 0;
}
static int do_blkpg(SimDev *d, struct blkpg_ioctl_arg *a)
{
	struct blkpg_partition *p = a->data;
	int devlimit = d->ext_range > 1 ? d->ext_range : 256;
	if (a->datalen < (int)sizeof(struct blkpg_partition)) { errno = EINVAL; return -1; }
	if (p->pno <= 0) { errno = EINVAL; return -1; }
	KPart *k = kpart_find(d, p->pno);
	hash_ev(50 + a->op, (u64)p->pno, (u64)p->start ^ ((u64)p->length << 1));
	trace("blkpg op=%d pno=%d start=%lld len=%lld", a->op, p->pno, p->start, p->length);
	switch (a->op) {
	case BLKPG_DEL_PARTITION:
		if (!k) { errno = ENXIO; return -1; }
		if (kpart_busy(d, k)) { errno = EBUSY; W->kdel_busy++; return -1; }
		kpart_remove(d, k);
		return 0;
	case BLKPG_ADD_PARTITION:
		if (p->start < 0 || p->length <= 0 || (p->start | p->length) & (d->lss - 1)) { errno = EINVAL; return -1; }
		if ((u64)p->start + (u64)p->length > d->bytes) { errno = EINVAL; return -1; }
		if (p->pno >= devlimit || d->ext_range == 1 || d->ext_range == 0) { errno = EINVAL; return -1; }
		if (k) { errno = EBUSY; return -1; }
		for (int i = 0; i < d->nkp; i++)
			if (rangeov((u64)p->start, (u64)p->length, d->kp[i].start, d->kp[i].len)) { errno = EBUSY; return -1; }
		return kadd(d, p->pno, (u64)p->start, (u64)p->length);
	case BLKPG_RESIZE_PARTITION:
		if (!d->have_blkpg_resize) { errno = EINVAL; return -1; }
		if (p->start < 0 || p->length <= 0 || (p->start | p->length) & (d->lss - 1)) { errno = EINVAL; return -1; }
		if (!k) { errno = ENXIO; return -1; }
		if ((u64)p->start != k->start) { errno = EINVAL; return -1; }
		if ((u64)p->start + (u64)p->length > d->bytes) { errno = EINVAL; return -1; }
		for (int i = 0; i < d->nkp; i++)
			if (&d->kp[i] != k && rangeov((u64)p->start, (u64)p->length, d->kp[i].start, d->kp[i].len)) { errno = EBUSY; return -1; }
		if (k->len != (u64)p->length) { k->len = (u64)p->length; W->kchanges++; }
		return 0;
	}
	errno = EINVAL; return -1;
}
void actor_act(int dev, int code, i64 sel)
{
	if (dev < 0 || dev >= W->ndev) return;
	SimDev *d = &W->dev[dev];
	if (code == AC_WHOLE_MOUNT || code == AC_WHOLE_SWAP) { d->whole_mounted = code == AC_WHOLE_MOUNT ? 1 : 2; return; }
	if (code == AC_WHOLE_UMOUNT) { d->whole_mounted = 0; return; }
	if (code == AC_FORGET) { for (int i = d->nkp - 1; i >= 0; i--) if (!kpart_busy(d, &d->kp[i])) kpart_remove(d, &d->kp[i]); return; }
	if (code == AC_ADDPART) {      /* somebody else told the kernel about a partition (addpart) */
		int num = 1 + (int)(sel & 7); u64 st = (u64)(sel >> 16) % (d->bytes / (u64)d->lss / 2 + 1) * (u64)d->lss, l = (u64)d->lss * (64 + (u64)(sel >> 8 & 255));
		if (kpart_find(d, num) || st + l > d->bytes || d->ext_range == 1) return;
		for (int i = 0; i < d->nkp; i++) if (rangeov(st, l, d->kp[i].start, d->kp[i].len)) return;
		kadd(d, num, st, l); return;
	}
	if (!d->nkp) return;
	KPart *k = &d->kp[(u64)(sel & 0xffff) % (u64)d->nkp];
	trace("ACTOR code=%d part=%d", code, k->num);
	hash_ev(1002, (u64)code, (u64)k->num);
	switch (code) {
	case AC_MOUNT_LAST: for (int i = 0; i < d->nkp; i++) if (d->kp[i].num > k->num) k = &d->kp[i]; /* fall through */
	case AC_MOUNT: k->mounted = 1; break;
	case AC_SWAP: k->mounted = 2; break;
	case AC_UMOUNT: k->mounted = 0; break;
	case AC_HOLD: k->held = 1; break;
	case AC_RELEASE: k->held = 0; break;
	case AC_TRANSIENT: k->busy_until = W->now + (u64)(sel >> 16); break;
	}
}

/* ------------------------------------------------------------ descriptors */
#define FDBASE 1000
#define NFD 128
enum { K_FREE, K_DEV, K_PART, K_TEXT, K_CLOSED };
typedef struct { int kind, dev, num; u64 pos; int flags; char *text; } Fd;
static Fd fds[NFD];
int sim_count_open(void)
{
	int n = 0;
	for (int i = 0; i < NFD; i++) if (fds[i].kind == K_DEV || fds[i].kind == K_PART) n++;
	return n;
}
int sim_count_open_dev(int dev)
{
	int n = 0;
	for (int i = 0; i < NFD; i++) if ((fds[i].kind == K_DEV || fds[i].kind == K_PART) && fds[i].dev == dev) n++;
	return n;
}
void sess_begin(int session, const char *lines)
{
	memset(&W->c, 0, sizeof W->c);
	W->c.session = session;
	memset(fds, 0, sizeof fds);
	W->openfds = 0; W->badfd = 0; W->wcalls = 0; W->kchanges = 0; W->kdel_busy = 0; W->budget_hit = 0;
	W->io_err_seen = 0; memset(W->io_err_ev, 0, sizeof W->io_err_ev); W->stdin_reads = 0; W->stdin_eof = 0; W->line_pos = 0;
	W->rdlines_in_script = 0; W->nuid_deleted = 0; W->kviol = 0;
	snprintf(W->lines, sizeof W->lines, "%s", lines ? lines : "");
}

static int find_dev(const char *path, int *num)
{
	*num = 0;
	for (int i = 0; i < W->ndev; i++) {
		SimDev *d = &W->dev[i];
		if (!strcmp(path, d->path) || (d->link[0] && !strcmp(path, d->link))) return i;
	}
	for (int i = 0; i < W->ndev; i++) {
		SimDev *d = &W->dev[i];
		if (d->type == DT_FILE) continue;
		for (int k = 0; k < d->nkp; k++) {
			char b[96]; kpart_node(d, d->kp[k].num, b, sizeof b);
			if (!strcmp(b, path)) { *num = d->kp[k].num; return i; }
		}
	}
	return -1;
}
static int newfd(void)
{
	for (int i = 0; i < NFD; i++) if (fds[i].kind == K_FREE) return i;
	for (int i = 0; i < NFD; i++) if (fds[i].kind == K_CLOSED) return i;
	return -1;
}
static const char proc_devices[] =
"Character devices:\n  1 mem\n  4 tty\n\nBlock devices:\n  7 loop\n  8 sd\n  9 md\n 65 sd\n179 mmc\n202 xvd\n252 device-mapper\n253 virtblk\n259 blkext\n";

static Fd *getfd(int fd)
{
	if (fd < FDBASE || fd >= FDBASE + NFD) return NULL;
	Fd *f = &fds[fd - FDBASE];
	if (f->kind == K_FREE || f->kind == K_CLOSED) { W->badfd++; return NULL; }
	return f;
}
static int do_open(const char *path, int flags)
{
	Fault *f = event(EV_OPEN);
	if (!strcmp(path, "/proc/devices")) {
		int i = newfd();
		if (f && f->action == FA_ERR) { errno = (int)f->arg; return -1; }
		fds[i] = (Fd){ .kind = K_TEXT, .text = (char *)proc_devices };
		return FDBASE + i;
	}
	int num, dv = find_dev(path, &num);
	hash_ev(EV_OPEN, (u64)dv, (u64)num * 16 + (u64)(flags & 3));
	trace("open %s flags=%x", path, flags);
	if (f && f->action == FA_ERR) { errno = (int)f->arg; if (num && errno == ENOENT) errno = EIO; /* would say that there is no such partition */ seen_err(EV_OPEN); return -1; }
	if (dv < 0) { errno = ENOENT; return -1; }
	SimDev *d = &W->dev[dv];
	if (d->ro && (flags & O_ACCMODE) != O_RDONLY) { errno = d->ro == 2 ? EACCES : EROFS; return -1; }
	if (flags & O_EXCL && d->type != DT_FILE) {
		if (num) { KPart *k = kpart_find(d, num); if (kpart_busy(d, k)) { errno = EBUSY; return -1; } }
		else if (d->whole_mounted) { errno = EBUSY; return -1; }
	}
	int i = newfd();
	if (i < 0) { errno = EMFILE; return -1; }
	fds[i] = (Fd){ .kind = num ? K_PART : K_DEV, .dev = dv, .num = num, .flags = flags };
	return FDBASE + i;
}
int sim_open(const char *path, int flags, ...) { return do_open(path, flags); }
int sim_openat(int dir, const char *path, int flags, ...) { (void)dir; return do_open(path, flags); }

static u64 fd_limit(Fd *f, u64 *base)
{
	SimDev *d = &W->dev[f->dev];
	if (f->kind == K_DEV) { *base = 0; return d->bytes; }
	KPart *k = kpart_find(d, f->num);
	if (!k) { *base = 0; return 0; }
	*base = k->start; return k->len;
}
static ssize_t text_read(Fd *f, void *buf, size_t n)
{
	size_t l = strlen(f->text);
	if (f->pos >= l) return 0;
	if (n > l - f->pos) n = l - f->pos;
	memcpy(buf, f->text + f->pos, n); f->pos += n;
	return (ssize_t)n;
}
static u64 bad_before(int dev, u64 off, u64 n, int mode)
{       /* number of good bytes from off */
	for (int i = 0; i < W->nbad; i++) {
		if (W->bad[i].dev != dev || !(W->bad[i].mode & mode)) continue;
		if (off + n > W->bad[i].from && off < W->bad[i].to)
			n = W->bad[i].from > off ? W->bad[i].from - off : 0;
	}
	return n;
}
static ssize_t do_read(int fd, void *buf, size_t n, u64 *pos)
{
	Fd *f = getfd(fd);
	if (!f) { errno = EBADF; return -1; }
	if (f->kind == K_TEXT) return text_read(f, buf, n);
	if ((u64)*pos == W->rd_next) W->rd_asc++;
	W->rd_next = (u64)*pos + n;
	Fault *q = event(EV_READ);
	hash_ev(EV_READ, *pos, n);
	trace("read pos=%llu n=%zu", (unsigned long long)*pos, n);
	if (q && q->action == FA_ERR) { errno = (int)q->arg; seen_err(EV_READ); return -1; }
	if (q && q->action == FA_EOF) { seen_err(EV_READ); return 0; }
	u64 base, lim = fd_limit(f, &base);
	if (*pos >= lim) return 0;
	if (n > lim - *pos) n = lim - *pos;
	u64 g = bad_before(f->dev, base + *pos, n, 1);
	if (g < n) {
		W->st_fault[FA_BADRANGE]++; W->st_evfault[EV_READ]++;
		if (!g) { errno = EIO; seen_err(EV_READ); return -1; }
		n = g;
	}
	if (q && q->action == FA_SHORT && n > (size_t)W->dev[f->dev].lss) {
		size_t m = n * (size_t)(q->arg & 255) / 256; m -= m % 512;
		if (!m) m = 512;
		n = m;
	}
	store_read(&W->cur, f->dev, base + *pos, buf, n);
	*pos += n;
	return (ssize_t)n;
}
static void log_write(int dev, u64 off, const void *buf, u32 len, int part)
{
	store_write(&W->cur, dev, off, buf, len);
	if (W->nlog >= MAXLOG || W->logdata + len > LOGDATA) { W->log_overflow = 1; return; }
	LogEnt *e = &W->log[W->nlog++];
	*e = (LogEnt){ .kind = LW_WRITE, .dev = dev, .op = W->cur_op, .commit = W->cur_commit, .off = off, .len = len, .dpos = W->logdata, .ev = W->c.ev, .part = (u8)part };
	memcpy(logarena + W->logdata, buf, len);
	W->logdata += len;
}
void log_flush_all(int dev)
{
	if (W->nlog < MAXLOG) {
		LogEnt *e = &W->log[W->nlog++];
		*e = (LogEnt){ .kind = LW_FLUSH, .dev = dev, .op = W->cur_op, .commit = W->cur_commit, .ev = W->c.ev };
	} else W->log_overflow = 1;
}
static ssize_t do_write(int fd, const void *buf, size_t n, u64 *pos)
{
	Fd *f = getfd(fd);
	if (!f) { errno = EBADF; return -1; }
	if (f->kind == K_TEXT || (f->flags & O_ACCMODE) == O_RDONLY) { W->ro_write_attempt++; errno = EBADF; return -1; }
	Fault *q = event(EV_WRITE);
	hash_ev(EV_WRITE, *pos, n); hash_ev(0, fnv(buf, n, 0), 0);
	trace("write pos=%llu n=%zu", (unsigned long long)*pos, n);
	if (q && q->action == FA_ERR) { errno = (int)q->arg; seen_err(EV_WRITE); return -1; }
	u64 base, lim = fd_limit(f, &base);
	if (*pos >= lim) { errno = ENOSPC; return -1; }
	if (n > lim - *pos) n = lim - *pos;
	u64 g = bad_before(f->dev, base + *pos, n, 2);
	if (g < n) {
		W->st_fault[FA_BADRANGE]++; W->st_evfault[EV_WRITE]++;
		if (!g) { errno = EIO; seen_err(EV_WRITE); return -1; }
		n = g;
	}
	if (q && q->action == FA_SHORT && n > 512) {
		size_t m = n * (size_t)(q->arg & 255) / 256; m -= m % 512;
		if (!m) m = 512;
		n = m;
	}
	if (q && q->action == FA_TEAR) {
		size_t m = n * (size_t)(q->arg & 255) / 256; m -= m % 512;
		if (m) log_write(f->dev, base + *pos, buf, (u32)m, f->kind == K_PART);
		kern_exit(77);
	}
	W->wcalls++;
	log_write(f->dev, base + *pos, buf, (u32)n, f->kind == K_PART);
	*pos += n;
	return (ssize_t)n;
}
ssize_t sim_read(int fd, void *buf, size_t n) { Fd *f = getfd(fd); if (!f) { if (fd < FDBASE) return read(fd, buf, n); errno = EBADF; return -1; } return do_read(fd, buf, n, &f->pos); }
ssize_t sim_write(int fd, const void *buf, size_t n) { Fd *f = getfd(fd); if (!f) { if (fd < FDBASE) return write(fd, buf, n); errno = EBADF; return -1; } return do_write(fd, buf, n, &f->pos); }
ssize_t sim_pread(int fd, void *buf, size_t n, off_t o) { u64 p = (u64)o; return do_read(fd, buf, n, &p); }
ssize_t sim_pwrite(int fd, const void *buf, size_t n, off_t o) { u64 p = (u64)o; return do_write(fd, buf, n, &p); }
off_t sim_lseek(int fd, off_t o, int wh)
{
	Fd *f = getfd(fd);
	if (!f) { if (fd >= 0 && fd < FDBASE) return lseek(fd, o, wh); errno = EBADF; return -1; }
	Fault *q = event(EV_SEEK);
	if (q && q->action == FA_ERR) { errno = (int)q->arg; seen_err(EV_SEEK); return -1; }
	u64 base, lim = f->kind == K_TEXT ? strlen(f->text) : fd_limit(f, &base);
	i64 np = wh == SEEK_SET ? o : wh == SEEK_CUR ? (i64)f->pos + o : (i64)lim + o;
	if (np < 0) { errno = EINVAL; return -1; }
	if (f->kind != K_TEXT && W->dev[f->dev].type != DT_FILE && (u64)np > lim) { if ((u64)np > W->rd_next) W->rd_asc++; W->rd_next = (u64)np; errno = EINVAL; return -1; }
	f->pos = (u64)np;
	return np;
}
int sim_fsync(int fd)
{
	Fd *f = getfd(fd);
	if (!f) { errno = EBADF; return -1; }
	Fault *q = event(EV_FSYNC);
	hash_ev(EV_FSYNC, (u64)f->dev, (u64)f->num);
	trace("fsync dev=%d num=%d", f->dev, f->num);
	if (q && q->action == FA_ERR) { errno = (int)q->arg; seen_err(EV_FSYNC); return -1; }
	if (f->kind == K_DEV) log_flush_all(f->dev);
	return 0;
}
int sim_close(int fd)
{
	Fd *f = getfd(fd);
	if (!f) { if (fd >= 0 && fd < FDBASE) return close(fd); errno = EBADF; return -1; }
	if (f->kind == K_TEXT) { f->kind = K_CLOSED; return 0; }
	Fault *q = event(EV_CLOSE);
	hash_ev(EV_CLOSE, (u64)f->dev, (u64)f->num);
	trace("close dev=%d num=%d", f->dev, f->num);
	f->kind = K_CLOSED;    /* Linux: the descriptor is gone even on error */
	if (q && q->action == FA_ERR) { errno = (int)q->arg; seen_err(EV_CLOSE); return -1; }
	return 0;
}
int sim_fcntl(int fd, int cmd, ...) { (void)cmd; if (fd >= FDBASE) return 0; errno = EINVAL; return -1; }
void sim_sync(void) { for (int i = 0; i < W->ndev; i++) log_flush_all(i); }

static dev_t part_rdev(SimDev *d, int num)
{
	int dv = (int)(d - W->dev);
	if (d->type == DT_SCSI && num < 16) return makedev(8, d->minor + (u32)num);
	if (d->type == DT_IDE && num < 64) return makedev(3, d->minor + (u32)num);
	if (d->type == DT_MMC && num < 8) return makedev(179, d->minor + (u32)num);
	if (d->type == DT_VIRT && num < 16) return makedev(253, d->minor + (u32)num);
	if (d->type == DT_DM) return makedev(252, 32 + (u32)(dv * 256 + num));
	return makedev(259, (u32)(64 + dv * 1024 + num));
}
static int do_stat(const char *path, struct stat *st)
{
	Fault *q = event(EV_STAT);
	if (q && q->action == FA_ERR) { errno = (int)q->arg; seen_err(EV_STAT); return -1; }
	int num, dv = find_dev(path, &num);
	if (dv < 0) { errno = ENOENT; return -1; }
	SimDev *d = &W->dev[dv];
	memset(st, 0, sizeof *st);
	if (d->type == DT_FILE) { st->st_mode = S_IFREG | 0644; st->st_size = (off_t)d->bytes; return 0; }
	st->st_mode = S_IFBLK | 0660;
	st->st_rdev = num ? part_rdev(d, num) : makedev(d->major, d->minor);
	return 0;
}
int sim_stat(const char *p, struct stat *st) { return do_stat(p, st); }
int sim_lstat(const char *p, struct stat *st) { return do_stat(p, st); }
int sim_fstatat(int dfd, const char *p, struct stat *st, int fl) { (void)dfd; (void)fl; return do_stat(p, st); }
int sim_fstat(int fd, struct stat *st)
{
	Fd *f = getfd(fd);
	if (!f) { if (fd >= 0 && fd < FDBASE) return fstat(fd, st); errno = EBADF; return -1; }
	SimDev *d = &W->dev[f->dev];
	char b[96];
	if (f->kind == K_PART) kpart_node(d, f->num, b, sizeof b);
	return do_stat(f->kind == K_PART ? b : d->path, st);
}
int sim_access(const char *p, int m) { (void)m; struct stat st; return do_stat(p, &st); }
ssize_t sim_readlink(const char *p, char *b, size_t n) { (void)p; (void)b; (void)n; errno = EINVAL; return -1; }
char *sim_canonicalize(const char *p)
{
	int num, dv = find_dev(p, &num);
	if (dv < 0) { errno = ENOENT; return NULL; }
	if (!num) return strdup(W->dev[dv].path);
	return strdup(p);
}
char *sim_realpath(const char *p, char *out) { char *c = sim_canonicalize(p); if (c && out) { strcpy(out, c); free(c); return out; } return c; }

struct scsi_idlun { u32 a, b; };
int sim_ioctl(int fd, unsigned long req, ...)
{
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	Fd *f = getfd(fd);
	if (!f) { if (fd >= 0 && fd < FDBASE) { errno = ENOTTY; return -1; } errno = EBADF; return -1; }
	if (f->kind == K_TEXT) { errno = ENOTTY; return -1; }
	SimDev *d = &W->dev[f->dev];
	int kind = req == BLKPG ? EV_BLKPG : EV_IOCTL;
	Fault *q = event(kind);
	hash_ev(300, req, (u64)f->dev * 1000 + (u64)f->num);
	if (q && q->action == FA_ERR) { errno = (int)q->arg; if (kind == EV_BLKPG && errno == ENXIO) errno = EIO; /* would say that there is no such partition */ seen_err(kind); return -1; }
	if (d->type == DT_FILE) { errno = ENOTTY; return -1; }
	u64 base, lim = fd_limit(f, &base);
	switch (req) {
	case BLKSSZGET: *(int *)arg = d->lss; return 0;
	case BLKPBSZGET: *(int *)arg = d->pss; return 0;
	case BLKGETSIZE64: *(u64 *)arg = lim; return 0;
	case BLKGETSIZE: *(unsigned long *)arg = lim / 512; return 0;
	case BLKROGET: *(int *)arg = d->ro != 0; return 0;
	case BLKFLSBUF: return 0;
	case BLKRRPART: errno = d->nkp ? EBUSY : EINVAL; return -1;
	case HDIO_GETGEO: {
		if (!d->have_geo) { errno = ENOTTY; return -1; }
		struct hd_geometry *g = arg;
		g->heads = (unsigned char)d->heads; g->sectors = (unsigned char)d->sectors;
		g->cylinders = (unsigned short)(d->bytes / 512 / (u64)(d->heads * d->sectors));
		g->start = base / 512;
		return 0;
	}
	case HDIO_GET_IDENTITY:
		if (d->type != DT_IDE || !d->model[0]) { errno = EINVAL; return -1; }
		{ struct hd_driveid *h = arg; memset(h, 0, sizeof *h); memset(h->model, ' ', 40); memcpy(h->model, d->model, strlen(d->model) > 40 ? 40 : strlen(d->model)); }
		return 0;
	case 0x5382: /* SCSI_IOCTL_GET_IDLUN */
		if (d->type != DT_SCSI) { errno = ENOTTY; return -1; }
		{ struct scsi_idlun *s = arg; s->a = 0; s->b = 0; }
		return 0;
	case BLKPG:
		if (f->kind != K_DEV) { errno = EINVAL; return -1; }
		return do_blkpg(d, arg);
	}
	errno = ENOTTY;
	return -1;
}

/* ------------------------------------------------------- procfs and sysfs */
static FILE *textfile(const char *s)
{
	size_t n = strlen(s);
	char *c = malloc(n + 1); memcpy(c, s, n + 1);   /* leaked on purpose: process is short lived */
	if (!n) { c[0] = '\n'; n = 1; }
	return fmemopen(c, n, "r");
}
FILE *sim_fopen(const char *path, const char *mode)
{
	(void)mode;
	Fault *q = event(EV_SYSFS);
	static char b[65536];
	b[0] = 0; size_t l = 0;
#define P(...) (l += (size_t)snprintf(b + l, l < sizeof b ? sizeof b - l : 0, __VA_ARGS__))
	if (q && q->action == FA_ERR) { errno = (int)q->arg; seen_err(EV_SYSFS); return NULL; }
	if (!strcmp(path, "/proc/mounts") || !strcmp(path, "/proc/self/mounts") || !strcmp(path, "/proc/self/mountinfo")) {
		P("proc /proc proc rw 0 0\n");
		for (int i = 0; i < W->ndev; i++) {
			SimDev *d = &W->dev[i];
			if (d->type == DT_FILE) continue;
			if (d->whole_mounted == 1) P("%s /mnt/whole%d ext4 rw,relatime 0 0\n", d->path, i);
			for (int k = 0; k < d->nkp; k++) if (d->kp[k].mounted == 1) {
				char n[96]; kpart_node(d, d->kp[k].num, n, sizeof n);
				P("%s /mnt/p%d_%d ext4 rw,relatime 0 0\n", n, i, d->kp[k].num);
			}
		}
		return textfile(b);
	}
	if (!strcmp(path, "/proc/swaps")) {
		P("Filename\t\t\t\tType\t\tSize\tUsed\tPriority\n");
		for (int i = 0; i < W->ndev; i++) {
			SimDev *d = &W->dev[i];
			if (d->type == DT_FILE) continue;
			if (d->whole_mounted == 2) P("%s partition 1000 0 -2\n", d->path);
			for (int k = 0; k < d->nkp; k++) if (d->kp[k].mounted == 2) {
				char n[96]; kpart_node(d, d->kp[k].num, n, sizeof n);
				P("%s                               partition\t1048572\t0\t-2\n", n);
			}
		}
		return textfile(b);
	}
	if (!strcmp(path, "/proc/partitions")) {
		P("major minor  #blocks  name\n\n");
		for (int i = 0; i < W->ndev; i++) {
			SimDev *d = &W->dev[i];
			if (d->type == DT_FILE) continue;
			P("%4u %7u %10llu %s\n", d->major, d->minor, (unsigned long long)d->bytes / 1024, strrchr(d->path, '/') + 1);
			for (int k = 0; k < d->nkp; k++) {
				char n[96]; kpart_node(d, d->kp[k].num, n, sizeof n);
				dev_t r = part_rdev(d, d->kp[k].num);
				P("%4u %7u %10llu %s\n", major(r), minor(r), (unsigned long long)d->kp[k].len / 1024, strrchr(n, '/') + 1);
			}
		}
		return textfile(b);
	}
	if (!strncmp(path, "/sys/block/", 11)) {
		const char *p = path + 11;
		for (int i = 0; i < W->ndev; i++) {
			SimDev *d = &W->dev[i];
			if (d->type == DT_FILE) continue;
			const char *bn = strrchr(d->path, '/') + 1;
			size_t bl = strlen(bn);
			if (strncmp(p, bn, bl) || p[bl] != '/') continue;
			if (d->type == DT_DM) continue;      /* sysfs uses dm-N */
			const char *r = p + bl + 1;
			if (!strcmp(r, "ext_range")) { if (d->ext_range < 0) break; P("%d\n", d->ext_range); return textfile(b); }
			if (!strcmp(r, "device/model")) { if (!d->model[0]) break; P("%s\n", d->model); return textfile(b); }
			if (!strcmp(r, "device/name")) { if (!d->model[0]) break; P("%s\n", d->model); return textfile(b); }
			if (!strcmp(r, "device/type")) { if (!d->vendor[0]) break; P("%s\n", d->vendor); return textfile(b); }
			if (!strcmp(r, "device/vendor")) { if (!d->vendor[0]) break; P("%s\n", d->vendor); return textfile(b); }
			if (!d->have_sysfs_parts) break;
			for (int k = 0; k < d->nkp; k++) {
				char n[96]; kpart_node(d, d->kp[k].num, n, sizeof n);
				const char *pb = strrchr(n, '/') + 1; size_t pl = strlen(pb);
				if (strncmp(r, pb, pl) || r[pl] != '/') continue;
				if (!strcmp(r + pl, "/start")) { P("%llu\n", (unsigned long long)d->kp[k].start / 512); return textfile(b); }
				if (!strcmp(r + pl, "/size")) { P("%llu\n", (unsigned long long)d->kp[k].len / 512); return textfile(b); }
				if (!strcmp(r + pl, "/partition")) { P("%d\n", d->kp[k].num); return textfile(b); }
			}
		}
	}
	errno = ENOENT;
	return NULL;
#undef P
}
typedef struct { int pos, kind; struct dirent de; } SDir;
DIR *sim_opendir(const char *path)
{
	Fault *q = event(EV_SYSFS);
	if (q && q->action == FA_ERR) { errno = (int)q->arg; return NULL; }
	int kind = !strcmp(path, "/sys/block") ? 1 : !strcmp(path, "/dev/mapper") ? 2 : 0;
	if (!kind) { errno = ENOENT; return NULL; }
	SDir *s = calloc(1, sizeof *s); s->kind = kind;
	return (DIR *)s;
}
struct dirent *sim_readdir(DIR *dp)
{
	SDir *s = (SDir *)dp;
	while (s->pos < W->ndev) {
		SimDev *d = &W->dev[s->pos++];
		if (d->type == DT_FILE) continue;
		if (s->kind == 2) { if (d->type != DT_DM) continue; snprintf(s->de.d_name, 200, "%s", d->dmname); return &s->de; }
		if (d->type == DT_DM) snprintf(s->de.d_name, 200, "dm-%d", s->pos - 1);
		else snprintf(s->de.d_name, 200, "%s", strrchr(d->path, '/') + 1);
		return &s->de;
	}
	return NULL;
}
int sim_closedir(DIR *dp) { free(dp); return 0; }

/* ---------------------------------------------------------------- clock */
int sim_usleep(unsigned us) { event(EV_SLEEP); W->now += us; W->slept += us; hash_ev(EV_SLEEP, us, 0); return 0; }
unsigned sim_sleep(unsigned s) { sim_usleep(s * 1000000u); return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *r) { (void)r; sim_usleep((unsigned)(t->tv_sec * 1000000 + t->tv_nsec / 1000)); return 0; }
time_t sim_time(time_t *t) { time_t v = (time_t)(W->now / 1000000); if (t) *t = v; return v; }
int sim_gettimeofday(struct timeval *tv, void *z) { (void)z; W->now += 7; tv->tv_sec = (time_t)(W->now / 1000000); tv->tv_usec = (suseconds_t)(W->now % 1000000); return 0; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) { (void)c; W->now += 3; ts->tv_sec = (time_t)(W->now / 1000000); ts->tv_nsec = (long)(W->now % 1000000) * 1000; return 0; }
clock_t sim_clock(void) { return (clock_t)(W->c.now); }
int sim_uname(struct utsname *u)
{
	memset(u, 0, sizeof *u);
	strcpy(u->sysname, "Linux"); strcpy(u->release, "6.8.0"); strcpy(u->machine, "x86_64"); strcpy(u->nodename, "sim");
	return 0;
}
static void det_bytes(u8 *b, size_t n)
{
	Rng r = { W->seed * 1000003 + (++W->uuid_ctr) * 7919 };
	for (size_t i = 0; i < n; i++) b[i] = (u8)rng_next(&r);
}
ssize_t sim_getrandom(void *b, size_t n, unsigned fl) { (void)fl; det_bytes(b, n); return (ssize_t)n; }
long sim_random(void) { u32 v; det_bytes((u8 *)&v, 4); return (long)(v >> 1); }
int sim_rand(void) { return (int)(sim_random() & 0x7fffffff); }
void sim_uuid_generate(u8 *u) { det_bytes(u, 16); u[6] = (u8)((u[6] & 0x0f) | 0x40); u[8] = (u8)((u[8] & 0x3f) | 0x80); }

/* ------------------------------------------------------------- allocator */
#ifndef SIM_ASAN
static void *scrub(void *p, size_t n) { if (p) memset(p, 0xCB, n < 65536 ? n : 65536); return p; }
#else
static void *scrub(void *p, size_t n) { (void)n; return p; }
#endif
static u64 alloc_total;
static int alloc_fault(size_t n)
{
	if (in_harness || !W || !sim_in_target) return 0;
	alloc_total += n;
	if (alloc_total > (6ull << 30)) { errno = ENOMEM; return 1; }
	if (n > (1u << 30)) { errno = ENOMEM; return 1; }
	Fault *q = event(EV_ALLOC);
	if (q && q->action == FA_ERR) { hash_ev(EV_ALLOC, n, 0); errno = ENOMEM; seen_err(EV_ALLOC); return 1; }
	return 0;
}
void *sim_malloc(size_t n) { return alloc_fault(n) ? NULL : scrub(malloc(n), n); }
void *sim_calloc(size_t a, size_t b) { return alloc_fault(a * b) ? NULL : calloc(a, b); }
void *sim_realloc(void *p, size_t n) { return alloc_fault(n) ? NULL : realloc(p, n); }
void *sim_reallocarray(void *p, size_t a, size_t b) { return alloc_fault(a * b) ? NULL : reallocarray(p, a, b); }
int sim_posix_memalign(void **p, size_t al, size_t n) { if (alloc_fault(n)) return ENOMEM; int r = posix_memalign(p, al, n); if (!r) scrub(*p, n); return r; }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; if (alloc_fault(n)) return NULL; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
void sim_free(void *p)
{
#ifndef SIM_ASAN
	if (p) { size_t n = malloc_usable_size(p); memset(p, 0xDD, n < 65536 ? n : 65536); }
#endif
	free(p);
}

/* -------------------------------------------------------------- terminal */
static void (*int_handler)(int, siginfo_t *, void *);
int sim_sigaction(int sig, const struct sigaction *a, struct sigaction *o)
{
	if (o) memset(o, 0, sizeof *o);
	if (sig == SIGINT && a) int_handler = a->sa_sigaction;
	return 0;
}
int sim_tty_in = 0;
int (*sim_line_provider)(const char *prompt, char *out, size_t n);
int sim_isatty(int fd) { return fd == 0 ? sim_tty_in : 0; }
static int next_line(const char *prompt, char *out, size_t n)
{       /* 1 line, 0 EOF, -1 interrupt */
	Fault *q = event(EV_LINE);
	W->stdin_reads++;
	if (W->stdin_eof > 1000) { W->budget_hit = 2; kern_exit(78); }
	if (q && q->action == FA_INT) { hash_ev(EV_LINE, 3, 0); return -1; }
	if (sim_line_provider) {
		int r = sim_line_provider(prompt, out, n);
		if (r == 0) W->stdin_eof++;
		hash_ev(EV_LINE, (u64)r, r > 0 ? fnv(out, strlen(out), 0) : 0);
		trace("line r=%d '%s'", r, r > 0 ? out : "");
		return r;
	}
	const char *l = W->lines + W->line_pos;
	if (!*l) { W->stdin_eof++; hash_ev(EV_LINE, 4, 0); return 0; }
	const char *e = strchr(l, '\n');
	size_t len = e ? (size_t)(e - l) : strlen(l);
	W->line_pos += (int)len + (e ? 1 : 0);
	if (len == 1 && l[0] == 3) { hash_ev(EV_LINE, 3, 0); return -1; }
	if (len == 1 && l[0] == 4) { W->stdin_eof++; hash_ev(EV_LINE, 4, 0); return 0; }
	if (len >= n) len = n - 1;
	memcpy(out, l, len); out[len] = 0;
	hash_ev(EV_LINE, fnv(out, len, 0), 0);
	trace("line '%s'", out);
	return 1;
}
char *sim_readline(const char *prompt)
{
	char b[512];
	if (prompt) fputs(prompt, stdout);
	fflush(stdout);
	int r = next_line(prompt, b, sizeof b);
	if (r < 0) { if (int_handler) int_handler(SIGINT, NULL, NULL); return NULL; }
	if (!r) return NULL;
	puts(b);
	return strdup(b);
}
char *sim_fgets(char *s, int n, FILE *f)
{
	if (f != stdin) return fgets(s, n, f);
	char b[512];
	W->rdlines_in_script++;
	int r = next_line(NULL, b, sizeof b);
	if (r < 0) { if (int_handler) int_handler(SIGINT, NULL, NULL); return NULL; }
	if (!r) return NULL;
	snprintf(s, (size_t)n - 1, "%s", b); strcat(s, "\n");
	return s;
}
void sim_add_history(const char *s) { (void)s; }
void *sim_current_history(void) { return NULL; }
void **sim_history_list(void) { return NULL; }
int sim_rl_initialize(void) { return 0; }
char **sim_rl_completion_matches(const char *t, void *f) { (void)t; (void)f; return NULL; }
void *sim_rl_attempted_completion_function;
int sim_tgetnum(const char *c) { (void)c; return 80; }
void sim_exit(int code) { kern_exit(code & 255); }
int sim_atexit(void (*f)(void)) { (void)f; return 0; }
uid_t sim_getuid(void) { return 0; }

/* ----------------------------------------------------------------- blkid */
struct bprobe { int dev; int used; };
static struct bprobe bps[16];
void *sim_blkid_new_probe(void) { for (int i = 0; i < 16; i++) if (!bps[i].used) { bps[i].used = 1; bps[i].dev = -1; return &bps[i]; } return NULL; }
void sim_blkid_free_probe(void *p) { ((struct bprobe *)p)->used = 0; }
int sim_blkid_probe_set_device(void *p, int fd, i64 off, i64 sz) { (void)off; (void)sz; Fd *f = getfd(fd); if (!f) return -1; ((struct bprobe *)p)->dev = f->dev; return 0; }
void *sim_blkid_probe_get_topology(void *p)
{
	struct bprobe *b = p;
	Fault *q = event(EV_IOCTL);
	if (q && q->action == FA_ERR) return NULL;
	if (b->dev < 0 || !W->dev[b->dev].have_topo) return NULL;
	return b;
}
static SimDev *bpd(void *t) { return &W->dev[((struct bprobe *)t)->dev]; }
unsigned long sim_blkid_topology_get_alignment_offset(void *t) { return bpd(t)->align_off; }
unsigned long sim_blkid_topology_get_minimum_io_size(void *t) { return bpd(t)->min_io; }
unsigned long sim_blkid_topology_get_optimal_io_size(void *t) { return bpd(t)->opt_io; }
unsigned long sim_blkid_topology_get_logical_sector_size(void *t) { return (unsigned long)bpd(t)->lss; }
unsigned long sim_blkid_topology_get_physical_sector_size(void *t) { return (unsigned long)bpd(t)->pss; }

/* --------------------------------------------------------- device-mapper */
#include <libdevmapper.h>
struct dm_task {
	int type, major, minor; char name[128], uuid[128], params[128], ttype[32];
	u64 start, size; int have_target; int dev, num; int ran;
	u64 dep[2]; char pbuf[128], tbuf[32];
};
/* pending reloads: per device and partition number */
static struct { int dev, num; u64 start, len; } reload[8]; static int nreload;
struct dm_task *sim_dm_task_create(int type)
{
	Fault *q = event(EV_DM);
	if (q && q->action == FA_ERR && q->arg == ENOMEM) return NULL;
	struct dm_task *t = calloc(1, sizeof *t); t->type = type; t->major = -1; t->dev = -1;
	return t;
}
void sim_dm_task_destroy(struct dm_task *t) { if (t) { memset(t, 0xDD, sizeof *t); free(t); } }
int sim_dm_task_set_name(struct dm_task *t, const char *n)
{
	const char *b = n;
	if (n[0] == '/') { if (strncmp(n, "/dev/mapper/", 12)) return 0; b = n + 12; }
	snprintf(t->name, sizeof t->name, "%s", b); return 1;
}
int sim_dm_task_set_uuid(struct dm_task *t, const char *u) { snprintf(t->uuid, sizeof t->uuid, "%s", u); return 1; }
int sim_dm_task_set_major_minor(struct dm_task *t, int ma, int mi, int fb) { (void)fb; t->major = ma; t->minor = mi; return 1; }
int sim_dm_task_no_open_count(struct dm_task *t) { (void)t; return 1; }
int sim_dm_task_retry_remove(struct dm_task *t) { (void)t; return 1; }
int sim_dm_task_set_cookie(struct dm_task *t, u32 *c, unsigned short fl) { (void)t; (void)fl; *c = 1; return 1; }
int sim_dm_udev_wait(u32 c) { (void)c; return 1; }
int sim_dm_task_update_nodes(void) { return 1; }
void sim_dm_udev_set_sync_support(int x) { (void)x; }
int sim_dm_set_dev_dir(const char *d) { (void)d; return 1; }
int sim_dm_task_add_target(struct dm_task *t, u64 s, u64 n, const char *ty, const char *p)
{ t->start = s; t->size = n; t->have_target = 1; snprintf(t->ttype, sizeof t->ttype, "%s", ty); snprintf(t->params, sizeof t->params, "%s", p); return 1; }

static int dm_resolve(struct dm_task *t)
{       /* sets dev, num (0 = the device itself); 0 if there is none */
	for (int i = 0; i < W->ndev; i++) {
		SimDev *d = &W->dev[i];
		if (d->type != DT_DM) continue;
		if (t->major >= 0) {
			if (d->major == (u32)t->major && d->minor == (u32)t->minor) { t->dev = i; t->num = 0; return 1; }
			for (int k = 0; k < d->nkp; k++) {
				dev_t r = part_rdev(d, d->kp[k].num);
				if (major(r) == (unsigned)t->major && minor(r) == (unsigned)t->minor) { t->dev = i; t->num = d->kp[k].num; return 1; }
			}
			continue;
		}
		if (!strcmp(t->name, d->dmname)) { t->dev = i; t->num = 0; return 1; }
		for (int k = 0; k < d->nkp; k++) {
			char n[96]; kpart_node(d, d->kp[k].num, n, sizeof n);
			if (!strcmp(strrchr(n, '/') + 1, t->name)) { t->dev = i; t->num = d->kp[k].num; return 1; }
		}
	}
	return 0;
}
int sim_dm_task_run(struct dm_task *t)
{
	Fault *q = event(EV_DM);
	hash_ev(EV_DM, (u64)t->type, fnv(t->name, strlen(t->name), 0));
	trace("dm type=%d name=%s start=%llu size=%llu %s", t->type, t->name, (unsigned long long)t->start, (unsigned long long)t->size, t->params);
	if (q && q->action == FA_ERR) { errno = (int)q->arg; seen_err(EV_DM); return 0; }
	t->ran = 1;
	int have = dm_resolve(t);
	switch (t->type) {
	case DM_DEVICE_CREATE: {
		if (have) { errno = EBUSY; return 0; }
		for (int i = 0; i < W->ndev; i++) {
			SimDev *d = &W->dev[i];
			if (d->type != DT_DM) continue;
			size_t l = strlen(d->dmname);
			if (strncmp(t->name, d->dmname, l)) continue;
			const char *r = t->name + l;
			int digit = d->dmname[l - 1] >= '0' && d->dmname[l - 1] <= '9';
			if (digit) { if (*r != 'p') continue; r++; }
			int num = atoi(r);
			unsigned ma, mi; unsigned long long st;
			if (num <= 0 || sscanf(t->params, "%u:%u %llu", &ma, &mi, &st) != 3 || strcmp(t->ttype, "linear") || ma != d->major || mi != d->minor) { errno = EINVAL; return 0; }
			if ((st + t->size) * 512 > d->bytes) { errno = EINVAL; return 0; }
			t->dev = i; t->num = num;
			return kadd(d, num, st * 512, t->size * 512) == 0;
		}
		errno = EINVAL; return 0;
	}
	case DM_DEVICE_REMOVE: {
		if (!have || !t->num) { errno = ENXIO; return 0; }
		SimDev *d = &W->dev[t->dev]; KPart *k = kpart_find(d, t->num);
		for (int i = 0; i < 25 && kpart_busy(d, k) && !k->mounted && !k->held; i++) W->now += 200000;  /* retry_remove */
		if (kpart_busy(d, k)) { errno = EBUSY; return 0; }
		kpart_remove(d, k); return 1;
	}
	case DM_DEVICE_RELOAD: {
		if (!have || !t->num || nreload >= 8) { errno = ENXIO; return 0; }
		unsigned ma, mi; unsigned long long st;
		if (sscanf(t->params, "%u:%u %llu", &ma, &mi, &st) != 3) { errno = EINVAL; return 0; }
		reload[nreload].dev = t->dev; reload[nreload].num = t->num; reload[nreload].start = st * 512; reload[nreload].len = t->size * 512; nreload++;
		return 1;
	}
	case DM_DEVICE_RESUME: {
		if (!have) { errno = ENXIO; return 0; }
		for (int i = 0; i < nreload; i++) if (reload[i].dev == t->dev && reload[i].num == t->num) {
			KPart *k = kpart_find(&W->dev[t->dev], t->num);
			k->start = reload[i].start; k->len = reload[i].len; W->kchanges++;
			reload[i] = reload[--nreload];
			break;
		}
		return 1;
	}
	case DM_DEVICE_TABLE: case DM_DEVICE_DEPS: case DM_DEVICE_INFO:
		if (!have) { errno = ENXIO; return 0; }
		return 1;
	}
	errno = EINVAL; return 0;
}
const char *sim_dm_task_get_name(struct dm_task *t)
{
	if (t->dev >= 0 && t->major >= 0) {
		SimDev *d = &W->dev[t->dev]; char n[96];
		if (!t->num) snprintf(t->name, sizeof t->name, "%s", d->dmname);
		else { kpart_node(d, t->num, n, sizeof n); snprintf(t->name, sizeof t->name, "%s", strrchr(n, '/') + 1); }
	}
	return t->name;
}
const char *sim_dm_task_get_uuid(struct dm_task *t)
{
	if (t->dev >= 0 && !t->num) snprintf(t->uuid, sizeof t->uuid, "%s", W->dev[t->dev].dmuuid);
	return t->uuid;
}
int sim_dm_task_get_info(struct dm_task *t, struct dm_info *i) { memset(i, 0, sizeof *i); i->exists = t->dev >= 0; return 1; }
struct dm_deps *sim_dm_task_get_deps(struct dm_task *t)
{
	static struct { struct dm_deps d; u64 x[2]; } s;
	memset(&s, 0, sizeof s);
	s.d.count = 1;
	u64 dv = t->num ? makedev(252, W->dev[t->dev].minor) : makedev(8, 0);
	memcpy(s.d.device, &dv, 8);
	return &s.d;
}
void *sim_dm_get_next_target(struct dm_task *t, void *next, u64 *start, u64 *len, char **type, char **params)
{
	(void)next;
	*start = 0; *len = 0; *type = NULL; *params = NULL;
	if (t->dev < 0) return NULL;
	SimDev *d = &W->dev[t->dev];
	if (!t->num) { *len = d->bytes / 512; strcpy(t->tbuf, "multipath"); strcpy(t->pbuf, "8:0 0"); }
	else {
		KPart *k = kpart_find(d, t->num);
		*len = k->len / 512; strcpy(t->tbuf, "linear");
		snprintf(t->pbuf, sizeof t->pbuf, "%u:%u %llu", d->major, d->minor, (unsigned long long)k->start / 512);
	}
	*type = t->tbuf; *params = t->pbuf;
	return NULL;
}
