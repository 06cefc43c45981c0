/* Execution of a plan: each session is a forked process running the real
   code; between and after sessions the oracles look at what it left behind. */
#include "h.h"
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <parted/parted.h>

Plan *CP; Res *R; static Res *RMAIN, *RREAD; struct stats *ST; PlanViol PV;
int opt_verbose;
extern int dec_hw_heads, dec_hw_sectors;
void api_set_handler(int pol, u64 seed);
u32 sim_exclusive_flags(const char *l);

static int fd_out = -1, fd_err = -1;
void exec_init(void)
{
	size_t n = sizeof(Res) * 2;
	RMAIN = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	RREAD = RMAIN + 1;
	R = RMAIN;
	fd_out = memfd_create("out", 0); fd_err = memfd_create("err", 0);
}
static void res_reset(Res *r)
{
	r->sig = r->status = r->hang = r->completed = r->nop = r->nsnap = r->nexc = r->ncommit_hook = r->nviol = r->outlen = r->errlen = r->nreq = r->ended_cmds = 0;
	r->cur_req = -1;
	memset(r->extra, 0, sizeof r->extra); memset(r->req, 0, sizeof r->req);
	r->out[0] = r->err[0] = 0;
}
static int slurp(int fd, char *b, int max)
{
	off_t l = lseek(fd, 0, SEEK_END);
	if (l > max - 1) { /* keep the tail of long stderr, head of stdout */ l = max - 1; }
	ssize_t n = pread(fd, b, (size_t)l, 0);
	if (n < 0) n = 0;
	b[n] = 0;
	return (int)n;
}
#include <execinfo.h>
static void bt_handler(int sig)
{
	void *b[24]; int n = backtrace(b, 24);
	extern int main(int, char **);
	char m[64]; write(2, "BT", 2);
	for (int i = 2; i < n; i++) { int l = snprintf(m, sizeof m, " %lx", (long)((char *)b[i] - (char *)main)); write(2, m, (size_t)l); }
	write(2, "\n", 1);
	signal(sig, SIG_DFL); raise(sig);
}
int child_cpu_s = 20;
int run_child(void (*fn)(void *), void *arg, int session, int keep)
{
	if (!keep) res_reset(R);
	ftruncate(fd_out, 0); ftruncate(fd_err, 0); lseek(fd_out, 0, SEEK_SET); lseek(fd_err, 0, SEEK_SET);
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(3); }
	if (!pid) {
		if (!W->trace) { dup2(fd_err, 2); }
		dup2(fd_out, 1);
		struct itimerval it = { { 0, 0 }, { child_cpu_s, 0 } };
		setitimer(ITIMER_PROF, &it, NULL);
		struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
		signal(SIGPROF, SIG_DFL);
		if (W->trace) { signal(SIGABRT, bt_handler); signal(SIGSEGV, bt_handler); signal(SIGFPE, bt_handler); signal(SIGPROF, bt_handler); }
		sess_begin(session, NULL);
		if (session < MAXSES && session >= 0 && CP->ses[session].s[0]) snprintf(W->lines, sizeof W->lines, "%s", CP->ses[session].s);
		fn(arg);
		kern_exit(0);
	}
	int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
	R->outlen = slurp(fd_out, R->out, OUTSZ); R->errlen = slurp(fd_err, R->err, 8192);
	if (WIFSIGNALED(st)) { R->sig = WTERMSIG(st); R->hang = R->sig == SIGPROF; R->status = -1; }
	else { R->sig = 0; R->status = WEXITSTATUS(st); R->hang = R->status == 78; }
	ST->sessions++;
	if (R->status == 90) { extern int store_full; store_full = 1; fprintf(stderr, "SIMERR page store exhausted\n"); }
	return R->status;
}

/* --------------------------------------------------------------- reader */
static void reader(void *a)
{
	ReadArg *ra = a;
	api_set_handler(ra->policy, 1);
	R->extra[1] = 1;
	PedDevice *dev = ped_device_get(W->dev[ra->dev].path);
	if (!dev) { R->extra[1] = 2; R->completed = 1; return; }
	snprintf(R->model, sizeof R->model, "%s", dev->model ? dev->model : ""); R->pss = (int)dev->phys_sector_size;
	R->extra[2] = dev->hw_geom.heads; R->extra[3] = dev->hw_geom.sectors;
	PedDisk *d = ped_disk_new(dev);
	if (!d) { R->extra[1] = 3; R->completed = 1; return; }
	snap_disk(d, &R->snap[0]); R->nsnap = 1;
	if (ra->want_alt && ped_disk_is_flag_available(d, PED_DISK_CYLINDER_ALIGNMENT)) { ped_disk_set_flag(d, PED_DISK_CYLINDER_ALIGNMENT, !ped_disk_get_flag(d, PED_DISK_CYLINDER_ALIGNMENT)); snap_disk(d, &R->snap[1]); R->nsnap = 2; }
	if (ra->want_probe) { ped_disk_check(d); }
	ped_disk_destroy(d);
	ped_device_destroy(dev);
	R->extra[1] = 0; R->completed = 1;
}
char reader_model[80]; int reader_pss;
/* reads the current contents in a fresh process; result in *out (ok=0 if there is no readable table) */
static int rd_nlog;
static void crash_check_result(const char *what, int oom);
static Snap *read_alt; static int read_has_alt;
void read_disk(int dev, int policy, Snap *out, int *status)
{
	Res *save = R; R = RREAD;
	int nf = W->nfault; W->nfault = 0; int nb = W->nbad; W->nbad = 0;
	int l0 = W->nlog, ro = W->dev[dev].ro; u32 ld = W->logdata; u64 now = W->now;
	Counters c = W->c;
	W->dev[dev].ro = 0;
	W->uuid_ctr = 77777777;
	ReadArg a = { .dev = dev, .policy = policy, .want_alt = !!read_alt };
	run_child(reader, &a, 100, 0);
	ST->sessions--; ST->readers++;
	W->dev[dev].ro = ro;
	rd_nlog = 0;
	for (int i = l0; i < W->nlog; i++) if (W->log[i].kind == LW_WRITE) rd_nlog++;
	W->nlog = l0; W->logdata = ld;
	W->nfault = nf; W->nbad = nb; W->now = now; W->c = c;
	dec_hw_heads = R->extra[2]; dec_hw_sectors = R->extra[3];
	snprintf(reader_model, sizeof reader_model, "%s", R->model); reader_pss = R->pss;
	*status = R->completed ? R->extra[1] : 9;
	read_has_alt = *status == 0 && R->nsnap > 1;
	if (read_has_alt && read_alt) *read_alt = R->snap[1];
	if (*status == 0) *out = R->snap[0];
	else { memset(out, 0, offsetof(Snap, p)); out->nr = 0; }
	R = save;
}
int read_disk2(int dev, Snap *a, Snap *b)
{
	int st; read_alt = b; read_disk(dev, 6, a, &st); read_alt = NULL;
	if (st) a->ok = 0;
	return st == 0 ? 1 + read_has_alt : st == 3 ? 0 : -1;
}
static const char *reader_why(void) { return RREAD->nexc ? RREAD->exc[0].msg : RREAD->err; }

/* ----------------------------------------------------------- violations */
static int cur_ses, unlucky;
int store_full;
static struct { int commits, hits; } NT;
#include <stdarg.h>
static int oom_fired(void) { for (int i = 0; i < W->nfault; i++) if (W->fault[i].ev == EV_ALLOC && W->fault[i].fired) return 1; return 0; }
void pviol(const char *prop, const char *fmt, ...)
{
	char m[420];
	va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
	for (char *c = m; *c; c++) if (*c == '\n') *c = ' ';
	if (opt_verbose) fprintf(stderr, "  [%s] session %d: %s\n", prop, cur_ses, m);
	if (!strcmp(CP->prop, "C12") && oom_fired() && strstr("C01 C02 C03 C04 C05 C07 C14 C18", prop)) prop = "C12";
	if (PV.n >= 8) return;
	if (strcmp(prop, CP->prop)) { int o = 0; for (int i = 0; i < PV.n; i++) if (strcmp(PV.v[i].prop, CP->prop)) o++; if (o >= 4) return; }
	Viol *v = &PV.v[PV.n++];
	snprintf(v->prop, sizeof v->prop, "%s", prop); snprintf(v->msg, sizeof v->msg, "%s", m);
}
#define CK(x) (CP->checks & (x))
/* a wrong outcome after injected errors is what C05 is about, whatever form it takes */
static int ses_errs;
static int damaged[MAXDEV];      /* copies of the GPT tampered with: 1 primary, 2 backup */
static const char *blame(const char *prop) { return !strcmp(CP->prop, "C17") && (!strcmp(prop, "C07") || !strcmp(prop, "C08")) ? "C17" : !strcmp(CP->prop, "C05") && (ses_errs || W->nbad) ? "C05" : prop; }

/* ------------------------------------------------- state reconstruction */
static void apply_range(Store *s, int from, int to)
{
	for (int i = from; i < to; i++) if (W->log[i].kind == LW_WRITE) store_write(s, W->log[i].dev, W->log[i].off, log_arena() + W->log[i].dpos, W->log[i].len);
}
/* what a power cut after log entry `upto` can leave: everything flushed, and of the
   rest a subset chosen by r (r==NULL: nothing), each possibly torn at sector granularity */
static void crash_state(Store *s, const Store *base, int upto, Rng *r, int mode)
{
	store_copy(s, base);
	int lastf[MAXDEV]; for (int d = 0; d < MAXDEV; d++) lastf[d] = -1;
	for (int i = 0; i < upto; i++) if (W->log[i].kind == LW_FLUSH) lastf[W->log[i].dev] = i;
	for (int i = 0; i < upto; i++) {
		LogEnt *e = &W->log[i];
		if (e->kind != LW_WRITE) continue;
		if (i < lastf[e->dev]) { store_write(s, e->dev, e->off, log_arena() + e->dpos, e->len); continue; }
		if (!r) continue;
		/* mode 0: all; 1: random subset; 2: random subset with torn writes; 3: only the last ones */
		if (mode == 1 || mode == 2) if (rng_pct(r, 50)) continue;
		if (mode == 2 && rng_pct(r, 60)) {
			int lss = W->dev[e->dev].lss; u32 n = e->len / (u32)lss;
			for (u32 k = 0; k < n; k++) if (rng_pct(r, 50)) store_write(s, e->dev, e->off + k * (u32)lss, log_arena() + e->dpos + k * (u32)lss, (u64)lss);
			continue;
		}
		if (mode == 3 && (i & 1) == (int)(r->s & 1)) continue;
		store_write(s, e->dev, e->off, log_arena() + e->dpos, e->len);
	}
}
static int pending_writes(int upto)
{
	int lastf[MAXDEV] = { -1, -1, -1 }, n = 0;
	for (int i = 0; i < upto; i++) if (W->log[i].kind == LW_FLUSH) lastf[W->log[i].dev] = i;
	for (int i = 0; i < upto; i++) if (W->log[i].kind == LW_WRITE && i > lastf[W->log[i].dev]) n++;
	return n;
}
static void swap_in(Store *alt) { Store t = W->cur; W->cur = *alt; *alt = t; }   /* copies the index: large, but exact */

/* -------------------------------------------------------------- oracles */
typedef struct { int valid; Snap s; } Known;
static Known known[MAXDEV];
static int half[MAXDEV];         /* an interrupted or failed commit may have left copies of the label that differ */
int oom_plan, fault_plan;
void NT_hit(void) { NT.hits++; }

static void match_dec(const char *P, int dev, const Snap *s, const char *ctx)
{
	static Dec d;
	dec_hw_heads = RREAD->extra[2]; dec_hw_sectors = RREAD->extra[3];
	if (!decode(&W->cur, dev, s->label, &d)) return;
	if (!d.ok) { pviol(P, "%s: an independent reader finds no %s table: %s", ctx, s->label, d.err); return; }
	if (d.nerr) { pviol(P, "%s: %s table is not well formed: %s", ctx, s->label, d.err); return; }
	int atari = !strcmp(s->label, "atari"), gpt = !strcmp(s->label, "gpt"), mac = !strcmp(s->label, "mac");
	if (d.np != s->np) {
		char a[160] = ""; for (int i = 0; i < d.np && i < 8; i++) { size_t l = strlen(a); snprintf(a + l, sizeof a - l, " %d:%lld-%lld", d.p[i].num, (long long)d.p[i].s, (long long)d.p[i].e); }
		pviol(P, "%s: %d partitions committed, an independent reader of %s finds %d:%s", ctx, s->np, s->label, d.np, a); return;
	}
	for (int i = 0; i < d.np; i++) {
		typeof(&d.p[0]) p = &d.p[i]; const SPart *q = NULL;
		if (atari) { for (int j = 0; j < s->np; j++) if (s->p[j].s == p->s && s->p[j].e == p->e) q = &s->p[j]; }
		else q = !strcmp(s->label, "amiga") ? snap_place(s, p->num) : snap_find(s, p->num);
		if (!q) { pviol(P, "%s: on disk partition %d (%lld..%lld) is not in the committed %s table", ctx, p->num, (long long)p->s, (long long)p->e, s->label); return; }
		if (q->s != p->s || q->e != p->e) { pviol(P, "%s: partition %d is %lld..%lld on disk, %lld..%lld was committed [%s]", ctx, p->num, (long long)p->s, (long long)p->e, (long long)q->s, (long long)q->e, s->label); return; }
		if (!!(q->type & PED_PARTITION_EXTENDED) != (p->type == 2) || !!(q->type & PED_PARTITION_LOGICAL) != (p->type == 1)) { pviol(P, "%s: partition %d has type %d in memory and %d on disk [%s]", ctx, p->num, q->type, p->type, s->label); return; }
		if (q->has_tid && p->has_tid && q->tid != p->tid) { pviol(P, "%s: partition %d has type id %02x on disk, %02x was committed [%s]", ctx, p->num, p->tid, q->tid, s->label); return; }
		if (gpt) {
			if (memcmp(q->tuuid, p->tuuid, 16) || memcmp(q->uuid, p->uuid, 16)) { pviol(P, "%s: GUIDs of partition %d differ on disk", ctx, p->num); return; }
			if (strcmp(q->name, p->name)) { pviol(P, "%s: name of partition %d is '%.50s' on disk, '%.50s' was committed", ctx, p->num, p->name, q->name); return; }
			if ((q->flags >> PED_PARTITION_LEGACY_BOOT & 1) != (p->attr >> 2 & 1)) { pviol(P, "%s: legacy boot attribute of partition %d", ctx, p->num); return; }
			if ((q->flags >> PED_PARTITION_HIDDEN & 1) != (p->attr & 1)) { pviol(P, "%s: hidden attribute of partition %d", ctx, p->num); return; }
			if ((q->avail >> PED_PARTITION_NO_AUTOMOUNT & 1) && (q->flags >> PED_PARTITION_NO_AUTOMOUNT & 1) != (p->attr >> 63 & 1)) { pviol(P, "%s: no-automount attribute of partition %d", ctx, p->num); return; }
		}
		if ((mac || !strcmp(s->label, "pc98") || !strcmp(s->label, "amiga")) && q->has_name && strcmp(q->name, p->name) && !(q->name[0] == 0)) { pviol(P, "%s: name of partition %d is '%.40s' on disk, '%.40s' was committed [%s]", ctx, p->num, p->name, q->name, s->label); return; }
		if (!strcmp(s->label, "msdos") && (q->avail >> PED_PARTITION_BOOT & 1) && (int)(q->flags >> PED_PARTITION_BOOT & 1) != p->boot) { pviol(P, "%s: active flag of partition %d", ctx, p->num); return; }
		if (!strcmp(s->label, "pc98") && (int)(q->flags >> PED_PARTITION_BOOT & 1) != p->boot) { pviol(P, "%s: boot flag of partition %d [pc98]", ctx, p->num); return; }
		if (!strcmp(s->label, "amiga") && (int)(q->flags >> PED_PARTITION_BOOT & 1) != p->boot) { pviol(P, "%s: boot flag of partition %d [amiga]", ctx, p->num); return; }
	}
	if (gpt) {
		if (memcmp(d.duuid, s->duuid, 16)) pviol(P, "%s: disk GUID differs on disk", ctx);
		if ((s->davail >> PED_DISK_GPT_PMBR_BOOT & 1) && (s->dflags >> PED_DISK_GPT_PMBR_BOOT & 1) != (d.other >> 2 & 1)) pviol(P, "%s: boot flag of the protective MBR is %d on disk", ctx, d.other >> 2 & 1);
	}
}

static int label_cmp_flags(const char *label) { (void)label; return SC_STORED; }

/* C03: which sectors did the writes of [l0,l1) touch? */
static int seg_in_meta(const Dec *d, i64 s) { for (int i = 0; i < d->nmeta; i++) if (s >= d->meta[i].s && s <= d->meta[i].e) return 1; return 0; }
static void content_check(int dev, int l0, int l1, const Snap *old, const Snap *new, int relabel, int complete, const char *ctx)
{
	/* dur := base + log[0,l0) */
	static Dec d1, d2; int h1 = 0, h2 = 0;
	int any = 0; for (int i = l0; i < l1; i++) if (W->log[i].kind == LW_WRITE && W->log[i].dev == dev) any = 1;
	if (!any) return;
	/* partitions overlapping at the user's explicit request (Ignore) have no contents of their own */
	char ov[300]; if (new && new->ok && (snap_valid(new, ov, sizeof ov), ov[0])) return;
	store_copy(&W->dur, &W->base); apply_range(&W->dur, 0, l0);
	dec_hw_heads = RREAD->extra[2]; dec_hw_sectors = RREAD->extra[3];
	if (old && old->ok) h1 = decode(&W->dur, dev, old->label, &d1);
	apply_range(&W->dur, l0, l1);
	if (new && new->ok) h2 = decode(&W->dur, dev, new->label, &d2);
	i64 len = (i64)(W->dev[dev].bytes / (u64)W->dev[dev].lss); int lss = W->dev[dev].lss;
	for (int i = l0; i < l1; i++) {
		LogEnt *e = &W->log[i];
		if (e->kind != LW_WRITE || e->dev != dev) continue;
		i64 s0 = (i64)(e->off / (u64)lss), s1 = (i64)((e->off + e->len - 1) / (u64)lss);
		for (i64 s = s0; s <= s1; s++) {
			if ((h1 && seg_in_meta(&d1, s)) || (h2 && seg_in_meta(&d2, s))) continue;
			if (relabel) {
				u64 b = (u64)s * (u64)lss;
				if (b < 69632 || b + 69632 >= W->dev[dev].bytes) continue;
				if (new && !strcmp(new->label, "amiga") && s < 300) continue;
				if (new && !strcmp(new->label, "mac") && s < 64) continue;
				/* an unfinished write of a new table: its nested tables are not reachable yet */
				if (!complete && new) {
					int ext = 0, data = 0;
					for (int k = 0; k < new->np; k++) { const SPart *p = &new->p[k]; if (s < p->s || s > p->e) continue; if (p->type & PED_PARTITION_EXTENDED) ext = 1; else data = 1; }
					if (ext && !data) continue;
				}
				pviol("C03", "%s: re-labelling wrote sector %lld of %lld, which is in no label area [%s -> %s]", ctx, (long long)s, (long long)len, old && old->ok ? old->label : "none", new ? new->label : "?");
				return;
			}
			if (old && old->ok) for (int k = 0; k < old->np; k++) {
				const SPart *p = &old->p[k];
				if (p->type & PED_PARTITION_EXTENDED || s < p->s || s > p->e) continue;
				for (int j = 0; new && j < new->np; j++) {
					const SPart *q = &new->p[j];
					if (q->type & PED_PARTITION_EXTENDED || s < q->s || s > q->e) continue;
					pviol("C03", "%s: sector %lld of partition %d (%lld..%lld) was overwritten [%s]", ctx, (long long)s, p->num, (long long)p->s, (long long)p->e, old->label);
					return;
				}
			}
			if (complete && h1 && h2 && d1.ok && d2.ok) { pviol("C03", "%s: sector %lld was written although the %s format does not reserve it", ctx, (long long)s, new->label); return; }
		}
	}
}

static void check_child_end(const char *what)
{
	if (R->nviol) for (int i = 0; i < R->nviol; i++) pviol(R->v[i].prop, "%s", R->v[i].msg);
	crash_check_result(what, oom_plan);
}
static char *asite(const char *err)
{
	static char b[260]; b[0] = 0;
	const char *p = strstr(err, "ssertion");
	if (p) { snprintf(b, sizeof b, "%.200s", p); }
	else if ((p = strstr(err, "ERROR: AddressSanitizer"))) {
		const char *q = strstr(p, "#0"); const char *in = q;
		int l = snprintf(b, sizeof b, "%.60s", p + 7);
		for (char *c = b; *c; c++) if (*c == '\n' || !strncmp(c, " on ", 4) || !strncmp(c, " (pc", 4)) { *c = 0; break; }
		l = (int)strlen(b);
		for (int k = 0; k < 4 && in; k++) { in = strstr(in, " in "); if (!in) break; in += 4; int n = 0; while (in[n] && in[n] != ' ' && in[n] != '\n') n++; l += snprintf(b + l, sizeof b - (size_t)l, " %.*s", n > 50 ? 50 : n, in); }
	}
	else if ((p = strstr(err, "runtime error"))) { const char *q = p; while (q > err && q[-1] != '\n') q--; snprintf(b, sizeof b, "%.200s", q); }
	for (char *c = b; *c; c++) if (*c == '\n') { *c = 0; break; }
	return b;
}
static int image_done; void do_image(Session *s);
static void crash_check_result(const char *what, int oom)
{
	if (!strcmp(CP->prop, "C11") && !image_done) { if (R->sig || R->hang || R->status == 99) unlucky = 1; return; }
	if (R->status == 77 || R->status == 0) return;
	if (image_done && R->hang && (W->c.cnt[EV_BLKPG] > EVENT_BUDGET / 8 || W->rd_asc > EVENT_BUDGET / 8)) { unlucky = 1; return; } /* one request per partition number the image claims: long, but bounded */
	if (image_done && R->sig == SIGABRT) {
		if (strstr(R->out, "ut of memory") || strstr(R->err, "ut of memory")) { unlucky = 1; return; }
		for (int i = 0; i < R->nexc; i++) if (strstr(R->exc[i].msg, "ut of memory")) { unlucky = 1; return; }
	}
	if (R->hang) { pviol("C11", "%s does not terminate (%s)", what, R->sig ? "CPU time limit" : "event budget"); return; }
	if (R->sig) {
		if (oom) return;
		pviol("C11", "%s was killed by signal %d %s", what, R->sig, asite(R->err));
		return;
	}
	if (R->status == 99) pviol("C11", "%s: memory error %s", what, asite(R->err));
}

static void check_no_write(const char *what)
{
	int bad = -1;
	for (int i = 0; i < W->nlog; i++) if (W->log[i].kind == LW_WRITE) {
		int ok = 0;
		for (int k = 0; k < R->nop; k++) if (i >= R->op[k].log0 && (i < R->op[k].log1 || R->op[k].log1 == 0) && (R->op[k].op == OP_COMMIT || R->op[k].op == OP_COMMITDEV || R->op[k].op == OP_CLOBBER || R->op[k].op == OP_RAWWRITE)) ok = 1;
		for (int k = 0; k < R->nexc && !ok; k++) if (R->exc[k].ev < W->log[i].ev && (R->exc[k].answer == PED_EXCEPTION_FIX || R->exc[k].answer == PED_EXCEPTION_YES)) ok = 1;
		if (!ok) { bad = i; break; }
	}
	if (bad >= 0) pviol("C04", "%s wrote %u bytes at %llu without a commit and without anyone asking for a repair%s%s", what, W->log[bad].len, (unsigned long long)W->log[bad].off, R->nexc ? ": " : "", R->nexc ? R->exc[R->nexc - 1].msg : "");
}

/* a dvh label without a volume header partition is read by making up one */
static int dvh_bare(const Snap *s)
{
	if (strcmp(s->label, "dvh")) return 0;
	for (int i = 0; i < s->np; i++) if (s->p[i].type & PED_PARTITION_EXTENDED) return 0;
	return 1;
}
static Snap tmpS;
static void check_crashes(int dev, Rng *r)
{
	char m[300];
	for (int k = 0; k < R->nop; k++) {
		OpRec *o = &R->op[k];
		if ((o->op != OP_COMMIT && o->op != OP_COMMITDEV) || !o->rc || o->pre < 0 || o->log1 == 0) continue;
		if (o->ign || dvh_bare(&R->snap[o->pre])) continue;
		/* until the next write of the session */
		int upto = o->log1;
		while (upto < W->nlog && W->log[upto].kind == LW_FLUSH) upto++;
		int pend = pending_writes(o->log1);
		int n = pend ? 3 : 1;
		for (int v = 0; v < n; v++) {
			int at = o->log1;
			crash_state(&W->dur, &W->base, at, v ? r : NULL, v);
			swap_in(&W->dur);
			int st; read_disk(dev, 6, &tmpS, &st);
			/* every copy of the table, not only the one that is read first */
			if (pend && !v && CK(CK_CRASH) && st != 9) { int n0 = PV.n; match_dec(blame("C01"), dev, &R->snap[o->pre], "power cut after a successful commit"); if (PV.n > n0) { swap_in(&W->dur); return; } }
			swap_in(&W->dur);
			ST->crash_states++;
			if (st == 9) { R = RREAD; crash_check_result("reading the device after a power cut", 0); R = RMAIN; continue; }
			Snap *want = &R->snap[o->pre];
			int wh = st ? 0 : snap_cmp(want, &tmpS, label_cmp_flags(want->label), m, sizeof m);
			if (st || wh) {
				pviol(blame("C01"), "power cut after commit of a %s table reported success (%d writes not flushed): %s", want->label, pend, st ? reader_why() : m);
				return;
			}
		}
	}
}

/* a commit that is interrupted anywhere leaves the old or the new table (C02) */
static int has_ext(const Snap *s) { for (int i = 0; i < s->np; i++) if (s->p[i].type & (PED_PARTITION_EXTENDED | PED_PARTITION_LOGICAL)) return 1; return 0; }
static int atomic_label(const char *l) { return !strcmp(l, "gpt") || !strcmp(l, "msdos") || !strcmp(l, "sun") || !strcmp(l, "bsd") || !strcmp(l, "pc98") || !strcmp(l, "dvh"); }
static void check_atomic(int dev, OpRec *o, const Snap *was, const Snap *now, Rng *r, const char *ctx)
{
	char m1[300], m2[300]; static Snap got; static u64 seen[64]; int nseen = 0;
	if (o->ign || dvh_bare(now) || strcmp(was->label, now->label) || !atomic_label(now->label) || has_ext(was) || has_ext(now)) return;
	int l1 = o->log1 ? o->log1 : W->nlog, nw = 0;
	for (int i = o->log0; i < l1; i++) if (W->log[i].kind == LW_WRITE) nw++;
	if (!nw) return;
	/* the process is killed between any two writes; then power cuts at random points */
	int plain = l1 - o->log0 + 1 > 12 ? 12 : l1 - o->log0 + 1;
	for (int v = 0; v < plain + 14; v++) {
		int at = v < plain ? o->log0 + v : o->log0 + 1 + (int)rng_below(r, (u64)(l1 - o->log0));
		int mode = v < plain ? 0 : 1 + (int)rng_below(r, 3);
		crash_state(&W->dur, &W->base, at, r, mode);
		u64 h = store_hash(&W->dur, dev); int dup = 0;
		for (int i = 0; i < nseen; i++) if (seen[i] == h) dup = 1;
		if (dup) continue;
		if (nseen < 64) seen[nseen++] = h;
		swap_in(&W->dur);
		int st; read_disk(dev, 6, &got, &st);
		swap_in(&W->dur);
		ST->crash_states++; NT_hit();
		if (st == 9) { R = RREAD; crash_check_result("reading the device after an interrupted commit", 0); R = RMAIN; continue; }
		int f = label_cmp_flags(now->label);
		/* the boot flag of the protective MBR is a sector of its own */
		int either = !st && !strcmp(now->label, "gpt") && (got.dflags == was->dflags || got.dflags == now->dflags);
		if (either) got.dflags = was->dflags;
		if (!st && !snap_cmp(was, &got, f, m1, sizeof m1)) continue;
		if (either) got.dflags = now->dflags;
		if (!st && !snap_cmp(now, &got, f, m2, sizeof m2)) continue;
		if (st) pviol("C02", "%s: %s during the commit of a %s table (after %d of %d writes): %s", ctx, mode ? "power cut" : "kill", now->label, at - o->log0, nw, reader_why());
		else pviol("C02", "%s: %s during the commit of a %s table (after %d of %d writes) leaves neither the old table (%s) nor the new one (%s)", ctx, mode ? "power cut" : "kill", now->label, at - o->log0, nw, m1, m2);
		return;
	}
}

/* kernel view */
void kernel_expect_check(int dev, const Snap *s, const char *ctx)
{
	SimDev *d = &W->dev[dev];
	if (d->type == DT_FILE) return;
	for (int i = 0; i < d->nkp; i++) {
		KPart *k = &d->kp[i];
		const SPart *p = snap_find(s, k->num);
		if (!p) { pviol("C06", "%s: the kernel still has partition %d (%llu+%llu bytes), which is not in the %s table", ctx, k->num, (unsigned long long)k->start, (unsigned long long)k->len, s->label); return; }
	}
	for (int i = 0; i < s->np; i++) {
		const SPart *p = &s->p[i];
		KPart *k = kpart_find(d, p->num);
		if (!strcmp(s->label, "loop")) continue;
		if (p->num >= (d->ext_range > 1 ? d->ext_range : d->ext_range < 0 ? 256 : 1)) continue;   /* more than the kernel has numbers for */
		if (!k) { pviol("C06", "%s: partition %d of the %s table is unknown to the kernel", ctx, p->num, s->label); return; }
		u64 ws = (u64)p->s * (u64)d->lss, wl = (u64)(p->e - p->s + 1) * (u64)d->lss;
		if (k->start != ws || (k->len != wl && !(p->type & PED_PARTITION_EXTENDED))) { pviol("C06", "%s: partition %d is %llu+%llu bytes in the kernel, %llu+%llu in the table", ctx, p->num, (unsigned long long)k->start, (unsigned long long)k->len, (unsigned long long)ws, (unsigned long long)wl); return; }
	}
}
static SimDev devbefore[MAXDEV];
void kern_session_check(Session *s, int di, const SimDev *bdev, const Snap *was, int was_known, const char *ctx);
void busy_check(Session *s, int idx, const SimDev *bdev, const Snap *before, int known);

static void after_session(Session *s, int idx, Rng *r)
{
	char ctx[80]; snprintf(ctx, sizeof ctx, "session %d", idx);
	int di = (int)(s->a[s->kind == SK_API ? 0 : 2] % (W->ndev ? W->ndev : 1));
	char m[300];
	ses_errs = W->io_err_seen;
	check_child_end(ctx);
	if (image_done && s->kind == SK_API) {
		NT_hit();
		/* whatever was read without anyone overlooking a complaint is a valid table */
		int ign = 0;
		for (int k = 0; k < R->nop; k++) {
			OpRec *o = &R->op[k]; if (o->op == OP_RELOAD) ign = 0;
			ign |= o->ign;
			if (o->op == OP_RELOAD && o->rc && o->post >= 0 && !ign && !R->snap[o->post].trunc) { snap_valid_foreign(&R->snap[o->post], m, sizeof m); if (m[0]) pviol("C11", "a table was read without complaint that is not valid: %s [%s]", m, R->snap[o->post].label); }
		}
		return;
	}
	if (image_done) { NT_hit(); return; }
	for (int i = 0; i < R->nop; i++) if (R->op[i].op > 0 && R->op[i].op < OP_N) { ST->op[R->op[i].op][!!R->op[i].rc]++; ST->ops++; }
	ST->exc += (u64)R->nexc;
	for (int i = 0; i < R->nop; i++) if ((R->op[i].op == OP_COMMIT || R->op[i].op == OP_COMMITDEV) && R->op[i].rc) { NT.commits++; ST->commits_ok++; }
	int ended = R->status == 77 || R->sig || R->hang;
	if (CK(CK_NOWRITE)) check_no_write(s->kind == SK_CLI ? "parted" : s->kind == SK_PARTPROBE ? "partprobe" : "the session");
	/* the last word on the device */
	int hf = half[di]; half[di] = 1;
	int last = -1, relabel = 0, wrote_after = 0, curlabelop = 0;
	Known *K = &known[di];
	static Snap prevS; int havePrev = K->valid; if (havePrev) prevS = K->s;
	int certain = havePrev;      /* we know the table on the device */
	/* a device whose properties could not be found out was used all the same, by request: its sectors may be taken for another size */
	if (s->kind == SK_API) for (int k = 0; k < R->nop && k < 2; k++) if (R->op[k].op == OP_GETDEV && (R->op[k].ign || R->op[k].errs > 0)) { K->valid = 0; return; }
	for (int k = 0; k < R->nop; k++) {
		OpRec *o = &R->op[k];
		int l1 = o->log1 ? o->log1 : W->nlog;
		int wrote = 0; for (int i = o->log0; i < l1; i++) if (W->log[i].kind == LW_WRITE && W->log[i].dev == di) wrote = 1;
		if (o->op == OP_LABEL && o->rc) curlabelop = 1;
		if (o->op == OP_RELOAD && dvh_bare(&prevS)) certain = 0;
		if (o->op == OP_RELOAD) {
			curlabelop = 0;
			if (o->rc && o->post >= 0 && certain && prevS.ok && !o->ign && !wrote && CK(CK_READBACK))
				if (snap_cmp(&prevS, &R->snap[o->post], label_cmp_flags(prevS.label), m, sizeof m)) pviol(o->errs > 0 || W->nbad ? "C05" : "C07", "reading the %s table succeeded%s but gave something else than what is on the device: %s", prevS.label, o->errs > 0 || W->nbad ? " in spite of errors" : "", m);
		}
		if (o->op == OP_COMMIT || o->op == OP_COMMITDEV) {
			ST->commits++;
			Snap *ns = o->pre >= 0 ? &R->snap[o->pre] : NULL;
			relabel = curlabelop || (ns && certain && prevS.ok && strcmp(ns->label, prevS.label)) || (s->kind == SK_CLI && o->step >= 0 && R->req[o->step].op == OP_LABEL) || !certain || !prevS.ok;
			if (s->kind == SK_CLI && !(s->a[0] & CM_INTER)) for (int q = 0; q < R->nreq; q++) if (R->req[q].op == OP_LABEL) relabel = 1;
			if (CK(CK_CONTENT) && ns && wrote) content_check(di, o->log0, l1, certain ? &prevS : NULL, ns, relabel, o->rc && !o->ign, ctx);
			if (CK(CK_ATOMIC) && ns && certain && !hf && prevS.ok && !relabel) check_atomic(di, o, &prevS, ns, r, ctx);
			if (o->rc && ns && !o->ign) { prevS = *ns; certain = 1; hf = 0; last = k; wrote_after = 0; curlabelop = 0; }
			else if (wrote) { certain = 0; hf = 1; last = -1; if (!o->rc) curlabelop = curlabelop; }
		} else if (wrote) {
			certain = 0; wrote_after = 1;
		}
	}
	(void)wrote_after;
	/* writes outside of any recorded operation (repairs while reading in the CLI, or by a killed process) */
	for (int i = 0; i < W->nlog; i++) if (W->log[i].kind == LW_WRITE && W->log[i].dev == di) {
		int in = 0; for (int k = 0; k < R->nop; k++) if (i >= R->op[k].log0 && i < (R->op[k].log1 ? R->op[k].log1 : W->nlog)) in = 1;
		if (!in) certain = 0;
	}
	if (ended && W->nlog) { for (int k = 0; k < R->nop; k++) if (!R->op[k].log1 && R->op[k].op) certain = certain && R->op[k].log0 == W->nlog; }
	if (W->nbad) certain = 0;
	if (CK(CK_CRASH)) check_crashes(di, r);
	if (certain && prevS.ok && dvh_bare(&prevS)) certain = 0;
	K->valid = certain; half[di] = hf || !certain;
	if (certain) K->s = prevS;
	if (last >= 0 && certain && CK(CK_READBACK)) {
		int st; read_disk(di, 6, &tmpS, &st);
		if (st == 9) { R = RREAD; crash_check_result("reading back", 0); R = RMAIN; }
		else if (st || snap_cmp(&K->s, &tmpS, label_cmp_flags(K->s.label), m, sizeof m))
			pviol(blame("C07"), "%s table read back differs from the committed one: %s", K->s.label, st ? reader_why() : m);
		if (rd_nlog) pviol("C04", "reading a %s table back wrote to the device", K->s.label);
		if (!st && RREAD->nexc && !strstr(RREAD->exc[0].msg, "physical sector size") && (snap_valid(&K->s, m, sizeof m), !m[0])) pviol("C07", "reading back a %s table that was just committed complains: %s", K->s.label, RREAD->exc[0].msg);
		if (!st && CK(CK_VALID)) { snap_valid(&tmpS, m, sizeof m); if (m[0]) pviol("C08", "table read from the device: %s [%s]", m, tmpS.label); }
	}
	if (last >= 0 && certain && CK(CK_DECODE)) match_dec("C07", di, &K->s, ctx);
	if (last >= 0 && certain && CK(CK_KERNEL) && R->op[last].op == OP_COMMIT) kernel_expect_check(di, &K->s, ctx);
	if (CK(CK_KERNEL)) { char c2[60]; snprintf(c2, sizeof c2, "%s %d", s->kind == SK_CLI ? "parted session" : s->kind == SK_PARTPROBE ? "partprobe session" : "session", idx); kern_session_check(s, di, devbefore, havePrev ? &prevS : NULL, havePrev, c2); }
}

/* ------------------------------------------------------------ execution */
static void dev_setup(const Plan *p)
{
	W->ndev = p->ndev;
	memcpy(W->dev, p->dev, sizeof p->dev);
}
u64 plan_cnt[MAXSES][EV_N]; AllocWin alloc_win[64]; int nalloc_win; int plan_nontrivial;
int is_known(const Viol *v);
/* did the run reach what its property is about? */
static int nontrivial(const Plan *p)
{
	if (!strcmp(p->prop, "C12")) return oom_fired();
	return NT.commits || NT.hits;
}
void extra_stats(FILE *f) { fprintf(f, "\"pairs\":%llu", (unsigned long long)ST->pairs); }
extern void checks_session(Plan *p, int i, Session *s, Rng *r);
int exec_plan(Plan *p)
{
	CP = p;
	world_reset(p->seed);
	dev_setup(p);
	W->nfault = p->nfault; memcpy(W->fault, p->fault, sizeof p->fault);
	for (int i = 0; i < p->nfault; i++) W->fault[i].fired = 0;
	W->trace = opt_verbose > 1;
	PV.n = 0; memset(plan_cnt, 0, sizeof plan_cnt); nalloc_win = 0; memset(&NT, 0, sizeof NT);
	memset(known, 0, sizeof known); memset(half, 0, sizeof half); memset(damaged, 0, sizeof damaged); image_done = unlucky = store_full = 0;
	oom_plan = fault_plan = 0;
	for (int i = 0; i < p->nfault; i++) { if (p->fault[i].ev == EV_ALLOC) oom_plan = 1; fault_plan = 1;
		if (p->fault[i].action == FA_BADRANGE && W->nbad < 8) { W->bad[W->nbad].dev = 0; W->bad[W->nbad].from = (u64)p->fault[i].arg; W->bad[W->nbad].to = (u64)p->fault[i].arg2; W->bad[W->nbad].mode = p->fault[i].count; W->nbad++; } }
	Rng r = { p->seed ^ 0xabcdef };
	for (int i = 0; i < p->nses; i++) {
		Session *s = &p->ses[i];
		cur_ses = i;
		W->nlog = 0; W->logdata = 0; W->rd_asc = 0;
		store_copy(&W->base, &W->cur);
		memcpy(devbefore, W->dev, sizeof W->dev);
		R = RMAIN;
		checks_session(p, i, s, &r);
		if (W->log_overflow) { if (opt_verbose) fprintf(stderr, "log overflow\n"); break; }
		memcpy(plan_cnt[i], W->c.cnt, sizeof plan_cnt[i]);
		if (s->kind == SK_API || s->kind == SK_CLI) for (int k = 0; k < R->nop && nalloc_win < 64; k++) { OpRec *o = &R->op[k]; if ((o->op == OP_COMMIT || o->op == OP_COMMITDEV || o->op == OP_RELOAD || o->op == OP_LABEL) && o->al1 > o->al0) alloc_win[nalloc_win++] = (AllocWin){ i, o->al0, o->al1 }; }
		int stop = unlucky || store_full; for (int k = 0; k < PV.n; k++) if (!strcmp(PV.v[k].prop, p->prop) || is_known(&PV.v[k]) || !strcmp(p->prop, "X")) stop = 1;
		if (stop) break;
	}
	if (store_full) PV.n = 0; /* the simulator ran out of room: no answer */
	plan_nontrivial = nontrivial(p);
	PV.hash = W->hash;
	for (int d = 0; d < W->ndev; d++) PV.hash = PV.hash * 31 + store_hash(&W->cur, d);
	for (int i = 0; i < FA_N; i++) ST->faults[i] += W->st_fault[i];
	for (int i = 0; i < EV_N; i++) ST->evf[i] += W->st_evfault[i];
	ST->sim_us += W->now - 1700000000ULL * 1000000;
	ST->plans++;
	int n = 0; for (int i = 0; i < PV.n; i++) if (!strcmp(PV.v[i].prop, p->prop)) n++;
	return n;
}
#include "repair.h"
void checks_session(Plan *p, int i, Session *s, Rng *r)
{
	(void)p;
	switch (s->kind) {
	case SK_TAMPER: {      /* damage to one copy of the label while nobody looks */
		static Snap was; int di = (int)((u64)s->a[2] % (u64)W->ndev), st; char m[300];
		if (!known[di].valid) break;
		was = known[di].s;
		do_tamper(s);
		read_disk(di, 6, &tmpS, &st);
		if (st == 9) { R = RREAD; crash_check_result("reading a damaged label", 0); R = RMAIN; break; }
		if (was.ok && (st || snap_cmp(&was, &tmpS, SC_STORED, m, sizeof m))) pviol("C17", "damage to the %s copy of the GPT: the table %s", damaged[di] & 2 ? "backup" : "primary", st ? "cannot be read any more" : m);
		if (rd_nlog) pviol("C04", "reading a damaged label wrote to the device");
		break;
	}
	case SK_RESIZEDEV: do_resizedev(s); break;
	case SK_IMAGE: do_image(s); image_done = 1; memset(known, 0, sizeof known); break;
	case SK_API:
		run_child(api_session, s, i, 0);
		if (is_noedit(s)) { repair_after(s, i, r); break; }
		after_session(s, i, r);
		state_seen(R->nsnap ? fnv(R->snap[R->nsnap - 1].p, sizeof(SPart) * (size_t)R->snap[R->nsnap - 1].np, (u64)R->nop) : 0);
		break;
	case SK_CLI: {
		int st, di = (int)((u64)s->a[2] % (u64)W->ndev);
		if (image_done) { run_child(cli_session, s, i, 0); after_session(s, i, r); break; }
		static Known knownsave; knownsave = known[di];
		read_disk(di, 6, &tmpS, &st);
		known[di].valid = st == 0 || st == 3; known[di].s = tmpS;
		if (is_noedit(s)) { known[di] = knownsave; }
		res_reset(R); R->snap[0] = tmpS; R->nsnap = 1;
		run_child(cli_session, s, i, 1);
		if (is_noedit(s)) { repair_after(s, i, r); break; }
		{ static Known kb; kb = known[di]; if (CK(CK_BUSY)) busy_check(s, i, devbefore, &kb.s, kb.valid); after_session(s, i, r); cli_check(s, i, &kb.s, kb.valid); }
		break;
	}
	case SK_KERNEL:      /* other users of the machine */
		for (int k = 0; k < s->nst; k++) actor_act((int)((u64)s->a[2] % (u64)W->ndev), (int)s->st[k].a[0], s->st[k].a[1]);
		memset(plan_cnt[i], 0, sizeof plan_cnt[i]);
		break;
	case SK_PARTPROBE:
		res_reset(R);
		run_child(pp_session, s, i, 1);
		after_session(s, i, r);
		break;
	}
}
