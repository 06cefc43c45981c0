/* Seeded generators of plans, one profile per property. */
#include "h.h"
static Rng G;
static int rint_(int n) { return (int)rng_below(&G, (u64)n); }
static int pct(int p) { return rng_pct(&G, p); }
/* Which labels a property's plans use.  GPT and MS-DOS are what most disks have, and get most of the plans. */
const char *force_label; static const char *the_prop = "";
static const SimDev *GD;
static const char *pick_label(void)
{
	static const struct { const char *props, *l[9]; } t[] = {
		{ "C06", { "sun", "bsd", "pc98", "amiga" } },
		{ "C09", { "sun", "bsd", "pc98", "mac", "dvh", "amiga", "loop" } },
		{ "C16", { "sun", "bsd" } },
		{ "C18", { "sun", "bsd", "pc98", "dvh", "amiga" } },
		{ "C10 C14 C15 C19 C11", { "sun", "bsd", "pc98", "mac", "dvh", "amiga", "atari", "loop" } },
		{ "", { "sun", "bsd", "pc98", "mac", "dvh", "amiga", "atari" } },
	};
	int i = 0, n = 0, w = rint_(100), k;
	while (*t[i].props && !strstr(t[i].props, the_prop)) i++;
	while (n < 9 && t[i].l[n]) n++;
	k = rint_(n);
	return force_label ? force_label : w < 33 ? "gpt" : w < 66 ? "msdos" : t[i].l[k];
}
static const char *fss[] = { "ext2", "fat32", "linux-swap", "ntfs", "fat16", "xfs", "hfs", "ext4", "reiserfs", "btrfs", "hfs+", "jfs", "udf" };
static const char *pick_fs(void) { return fss[rint_(13)]; }

void gen_dev(SimDev *d, int idx, int lssmax)
{
	memset(d, 0, sizeof *d);
	static const int types[] = { DT_FILE, DT_SCSI, DT_SCSI, DT_NVME, DT_MMC, DT_VIRT, DT_LOOP, DT_MD, DT_FILE, DT_IDE, DT_XVD };
	d->type = types[rint_(11)];
	static const int ls[] = { 512, 512, 512, 4096, 2048, 1024, 512, 4096 };
	do d->lss = ls[rint_(8)]; while (d->lss > lssmax);
	d->pss = pct(50) ? d->lss : 4096; if (d->pss < d->lss) d->pss = d->lss;
	d->have_topo = d->type != DT_FILE && pct(70);
	d->min_io = (u32)d->pss; d->opt_io = pct(30) ? 0 : pct(50) ? 65536u * (u32)(1 + rint_(16)) : (u32)d->pss * 8;
	d->align_off = pct(10) ? 512u * (u32)(1 + rint_(7)) : 0; if (d->align_off % (u32)d->lss) d->align_off = 0;
	static const u64 mb[] = { 2, 3, 5, 8, 16, 40, 100, 256, 700, 1024, 3000, 8192 };
	u64 by = mb[rint_(12)] << 20;
	if (pct(60)) by += (u64)rint_(4096) * (u64)d->lss;
	if (pct(6)) by = (3ULL << 40) + (u64)rint_(1000) * (u64)d->lss;
	by -= by % (u64)d->lss;
	d->bytes = by;
	d->fill = pct(85) ? (rng_next(&G) | 1) : 0;
	d->have_geo = pct(60); d->heads = pct(50) ? 255 : pct(50) ? 16 : 1 + rint_(64); d->sectors = pct(60) ? 63 : pct(50) ? 32 : 1 + rint_(63);
	d->ext_range = pct(85) ? 256 : pct(50) ? 16 : -1;
	d->have_sysfs_parts = pct(90);
	d->have_blkpg_resize = 1;
	snprintf(d->model, sizeof d->model, "SIM DISK %d", idx); snprintf(d->vendor, sizeof d->vendor, "VEND");
	switch (d->type) {
	case DT_FILE: snprintf(d->path, sizeof d->path, "/img/disk%d.img", idx); break;
	case DT_SCSI: snprintf(d->path, sizeof d->path, "/dev/sd%c", 'a' + idx); d->major = 8; d->minor = (u32)idx * 16; break;
	case DT_IDE: snprintf(d->path, sizeof d->path, "/dev/hd%c", 'a' + idx); d->major = 3; d->minor = (u32)idx * 64; break;
	case DT_NVME: snprintf(d->path, sizeof d->path, "/dev/nvme%dn1", idx); d->major = 259; d->minor = (u32)idx; break;
	case DT_MMC: snprintf(d->path, sizeof d->path, "/dev/mmcblk%d", idx); d->major = 179; d->minor = (u32)idx * 8; break;
	case DT_VIRT: snprintf(d->path, sizeof d->path, "/dev/vd%c", 'a' + idx); d->major = 253; d->minor = (u32)idx * 16; break;
	case DT_LOOP: snprintf(d->path, sizeof d->path, "/dev/loop%d", idx); d->major = 7; d->minor = (u32)idx; break;
	case DT_MD: snprintf(d->path, sizeof d->path, "/dev/md%d", idx); d->major = 9; d->minor = (u32)idx; break;
	case DT_XVD: snprintf(d->path, sizeof d->path, "/dev/xvd%c", 'a' + idx); d->major = 202; d->minor = (u32)idx * 16; break;
	case DT_DM: snprintf(d->path, sizeof d->path, "/dev/mapper/mpath%c", 'a' + idx); snprintf(d->dmname, sizeof d->dmname, "mpath%c", 'a' + idx); snprintf(d->dmuuid, sizeof d->dmuuid, "mpath-%d", idx); d->major = 252; d->minor = (u32)idx; break;
	}
	if (d->type == DT_FILE) { d->have_geo = 0; d->have_topo = 0; d->lss = 512; d->bytes -= d->bytes % 512; }
}
static void label_constraints(SimDev *d, const char *l);
/* a label for a device that is there already */
static const char *pick_relabel(const SimDev *d)
{
	for (int i = 0; i < 20; i++) {
		const char *l = pick_label(); SimDev c = *d; label_constraints(&c, l);
		if (!strcmp(the_prop, "C12") && (!strcmp(l, "mac") || !strcmp(l, "atari"))) continue;
		if (!memcmp(&c, d, sizeof c)) return l;
	}
	return "gpt";
}
static void label_constraints(SimDev *d, const char *l)
{
	if (!strcmp(l, "atari") || !strcmp(l, "pc98") || !strcmp(l, "dvh")) { d->lss = 512; if (d->pss < 512) d->pss = 512; d->bytes -= d->bytes % 512; }
	if (!strcmp(l, "sun")) {        /* 16 bits for the number of cylinders, and at least a few of them */
		if (d->heads < 4) d->heads = 16;
		if (d->sectors < 32) d->sectors = 32;
		u64 n = d->bytes / (u64)d->lss, lo = 8 * 16065, hi = 65535ULL * 128;
		if (n < lo) n = lo + n % 5000;
		if (n > hi) n = hi - n % 100000;
		d->bytes = n * (u64)d->lss;
	}
	if (!strcmp(l, "dvh") && d->bytes > (1ULL << 30)) d->bytes = (1ULL << 30) - d->bytes % (1ULL << 26) / 512 * 512;        /* 31 bits for the size of a file */
	if (strcmp(l, "gpt") && d->bytes > (1ULL << 40)) d->bytes = (900ULL << 20) + d->bytes % (u64)(100 << 20) / 4096 * 4096;
}
static Step *st(Session *s, int op) { if (s->nst >= MAXSTEP) return &s->st[MAXSTEP - 1]; Step *t = &s->st[s->nst++]; memset(t, 0, sizeof *t); t->op = op; return t; }
static Session *ses(Plan *p, int kind) { if (p->nses >= MAXSES) return &p->ses[MAXSES - 1]; Session *s = &p->ses[p->nses++]; memset(s, 0, sizeof *s); s->kind = kind; s->a[5] = p->nses; return s; }
static void st_label(Session *s, const char *l) { Step *t = st(s, OP_LABEL); snprintf(t->s, sizeof t->s, "%s", l); }
static int cylal(const char *l) { return !strcmp(l, "sun") || !strcmp(l, "pc98") || !strcmp(l, "amiga"); }
static void st_add(Session *s, const char *l)
{
	Step *t = st(s, OP_ADD);
	t->a[0] = rint_(64); t->a[1] = pct(40) ? 0 : rint_(900); t->a[2] = 1 + rint_(pct(30) ? 1024 : 400);
	int ext = !strcmp(l, "msdos") || !strcmp(l, "dvh") || !strcmp(l, "atari");
	t->a[3] = ext ? (pct(40) ? 0 : pct(65) ? 1 : 2) : 0;
	t->a[4] = pct(50) ? 0 : pct(40) ? 5 : rint_(7);
	t->a[5] = (pct(12) ? 1 : 0) | (pct(60) ? 2 : 0);
	if (cylal(l) && pct(75)) { t->a[5] |= 4; if (pct(60)) t->a[4] = 5; }
	if (pct(70)) snprintf(t->s, sizeof t->s, "%s", pick_fs());
}
static const char *names[] = { "", "root", "EFI system", "a", "\303\244\303\266\303\274", "x y z", "0123456789abcdef", "thirty-six-characters-long-name-4567", "quote\"slash\\", "\360\237\230\200", "tab", "colon:semi;", "0123456789abcdefghijklmnopqrstu", "<&>'", "two\nlines;\n", "tab\tbell\007" };
static void st_edit(Session *s, const char *l)
{
	int k = rint_(100); Step *t;
	if (k < 34) st_add(s, l);
	else if (k < 44) { t = st(s, OP_DEL); t->a[0] = rint_(64); }
	else if (k < 58) { t = st(s, OP_GEOM); t->a[0] = rint_(64); t->a[1] = rint_(6); t->a[2] = pct(50) ? rint_(1024) : rint_(100000); t->a[4] = pct(50) ? 0 : pct(50) ? 5 : rint_(7); }
	else if (k < 62) { t = st(s, OP_MAX); t->a[0] = rint_(64); t->a[4] = pct(80) ? 0 : 1; }
	else if (k < 64) st(s, OP_MINEXT);
	else if (k < 76) { t = st(s, OP_FLAG); t->a[0] = rint_(64); t->a[1] = rint_(32); t->a[2] = pct(75); }
	else if (k < 83) { t = st(s, OP_NAME); t->a[0] = rint_(64); snprintf(t->s, sizeof t->s, "%s", names[rint_(16)]); }
	else if (k < 88) { t = st(s, OP_SYSTEM); t->a[0] = rint_(64); snprintf(t->s, sizeof t->s, "%s", pick_fs()); }
	else if (k < 91) { t = st(s, OP_TYPEID); t->a[0] = rint_(64); t->a[1] = rint_(255) + 1; static const u8 sp[] = { 5, 0xf, 0x85, 0x15, 0x1f, 0, 0x0b, 0x0c, 0x16 }; if (pct(35)) t->a[1] = sp[rint_(9)]; }
	else if (k < 93) { t = st(s, OP_TYPEUUID); t->a[0] = rint_(64); t->a[1] = (i64)rng_below(&G, 1 << 30); }
	else if (k < 96) { t = st(s, OP_DISKFLAG); t->a[0] = rint_(4); t->a[1] = pct(60); }
	else if (k < 97) st(s, OP_CHECK);
	else if (k < 98) st(s, OP_PROBE);
	else if (k < 99) st(s, OP_EXTACC);
	else st(s, OP_DUPMUT);
}
static void st_commit(Session *s) { st(s, pct(85) ? OP_COMMIT : OP_COMMITDEV); }

/* session that creates a table of its own */
static Session *mk_table(Plan *p, const char *l, int nadd)
{
	Session *s = ses(p, SK_API);
	s->policy = XP_FIX; s->a[1] = 2 | (pct(30) ? 1 : 0);
	st_label(s, l);
	for (int i = 0; i < nadd; i++) st_add(s, l);
	for (int i = 0; i < nadd / 2; i++) { Step *t = st(s, OP_FLAG); t->a[0] = rint_(64); t->a[1] = rint_(32); t->a[2] = 1; }
	st(s, OP_COMMIT);
	return s;
}
static Session *edit_session(Plan *p, const char *l, int nops, int ncommit)
{
	Session *s = ses(p, SK_API);
	s->policy = XP_FIX; s->a[1] = pct(30) ? 1 : 0;
	for (int c = 0; c < ncommit; c++) { for (int i = 0; i < nops / ncommit; i++) st_edit(s, l); st_commit(s); if (pct(15)) st(s, OP_RELOAD); if (pct(20)) st(s, OP_DUP); }
	return s;
}
static void start(Plan *p, const char *prop, u64 seed)
{
	memset(p, 0, sizeof *p); the_prop = prop; GD = &p->dev[0];
	Rng t = { seed ^ 0x5bd1e995a5a5a5a5ULL }; u64 h = fnv(prop, strlen(prop), 0);
	G.s = rng_next(&t) ^ (h << 20); G.s ^= G.s >> 31; G.s *= 0xd6e8feb86659fd93ULL; G.s ^= rng_next(&t);
	p->seed = seed; snprintf(p->prop, sizeof p->prop, "%s", prop);
}
/* histories of edits through the library */
static void prof_edit(Plan *p)
{
	p->ndev = 1; gen_dev(&p->dev[0], 0, 4096);
	const char *l = pick_label();
	label_constraints(&p->dev[0], l);
	mk_table(p, l, 1 + rint_(7));
	int n = 1 + rint_(3);
	for (int i = 0; i < n; i++) edit_session(p, l, 4 + rint_(12), 1 + rint_(3));
	if (pct(25)) { const char *l2 = pick_relabel(&p->dev[0]); if (p->dev[0].bytes < (1ULL << 40)) { mk_table(p, l2, rint_(4)); edit_session(p, l2, 6, 1); } }
}
static const struct { const char *prop; u32 checks; } edit_checks[] = {
	{ "X", CK_READBACK | CK_DECODE | CK_CRASH | CK_CONTENT | CK_NOWRITE | CK_FD | CK_MODEL | CK_FAIL | CK_VALID | CK_DUP | CK_KERNEL },
	{ "C12", CK_READBACK | CK_DECODE | CK_CRASH | CK_CONTENT | CK_NOWRITE | CK_MODEL | CK_ERR | CK_ATOMIC | CK_CLI }, { "C15", CK_BUSY | CK_NOWRITE }, { "C05", CK_READBACK | CK_CRASH | CK_ERR | CK_MODEL }, { "C04", CK_NOWRITE }, { "C14", CK_CLI | CK_MODEL }, { "C16", CK_PRINT },
	{ "C01", CK_CRASH }, { "C02", CK_ATOMIC }, { "C03", CK_CONTENT }, { "C06", CK_KERNEL }, { "C07", CK_READBACK | CK_DECODE },
	{ "C08", CK_VALID | CK_READBACK }, { "C09", CK_FAIL }, { "C10", CK_DUP | CK_MODEL }, { "C18", CK_MODEL | CK_READBACK }, { "C11", CK_ROBUST }, { "C17", CK_REPAIR | CK_READBACK | CK_DECODE | CK_CONTENT }, { "C19", CK_FD | CK_CLI }, { NULL, 0 } };
void gen_plan(const char *prop, u64 seed, Plan *p)
{
	start(p, prop, seed);
	for (int i = 0; edit_checks[i].prop; i++) if (!strcmp(edit_checks[i].prop, prop)) p->checks = edit_checks[i].checks;
	snprintf(p->prof, sizeof p->prof, "edit");
	prof_edit(p);
	if (!strcmp(prop, "C06")) while (p->dev[0].type == DT_FILE) gen_dev(&p->dev[0], 0, p->dev[0].lss);
}
extern u64 plan_cnt[MAXSES][EV_N];
/* ------------------------------------------------------- placing faults */
enum { FM_NONE, FM_IO, FM_KILL, FM_KERN, FM_ALLOC, FM_LINE, FM_ACTOR };
static Fault *fault(Plan *p, int s, int ev, i64 ord, int action, i64 arg, int count)
{
	if (p->nfault >= MAXFAULT) return &p->fault[MAXFAULT - 1];
	Fault *f = &p->fault[p->nfault++];
	memset(f, 0, sizeof *f);
	f->session = s; f->ev = ev; f->ord = (int)ord; f->action = action; f->arg = arg; f->count = count;
	return f;
}
static int pick_errno(int ev)
{
	static const int rd[] = { 5, 5, 5, 123, 4, 11 }, wr[] = { 5, 5, 28, 5, 123, 4 }, fs[] = { 5, 5, 28, 122 }, op[] = { 13, 16, 24, 5, 2, 12, 30 }, bp[] = { 16, 16, 22, 13, 5, 6 }, io[] = { 25, 22, 5, 19 }, sy[] = { 2, 13, 24 };
	switch (ev) {
	case EV_READ: return rd[rint_(6)];
	case EV_WRITE: return wr[rint_(6)];
	case EV_FSYNC: return fs[rint_(4)];
	case EV_OPEN: return op[rint_(7)];
	case EV_BLKPG: return bp[rint_(6)];
	case EV_IOCTL: case EV_STAT: return io[rint_(4)];
	case EV_SYSFS: return sy[rint_(3)];
	case EV_ALLOC: return 12;
	}
	return 5;
}
static int fcount(void) { return pct(55) ? 1 : pct(50) ? 2 + rint_(4) : 1000; }
/* the fault-free run has filled plan_cnt: choose where to inject */
static void place(Plan *p, int mode, int s0, int s1, int n)
{
	if (s1 > p->nses) s1 = p->nses;
	for (int k = 0; k < n; k++) {
		if (s1 <= s0) return;
		int s = s0 + rint_(s1 - s0), ev, tries = 0;
		do {
			static const int io[] = { EV_READ, EV_READ, EV_READ, EV_WRITE, EV_WRITE, EV_WRITE, EV_FSYNC, EV_OPEN, EV_CLOSE, EV_SEEK }, ke[] = { EV_BLKPG, EV_BLKPG, EV_BLKPG, EV_SYSFS, EV_IOCTL, EV_STAT, EV_OPEN, EV_DM };
			switch (mode) {
			case FM_IO: ev = io[rint_(10)]; break;
			case FM_KILL: ev = pct(75) ? EV_WRITE : EV_ANY; break;
			case FM_KERN: ev = ke[rint_(8)]; break;
			case FM_ALLOC: ev = EV_ALLOC; break;
			case FM_LINE: ev = EV_LINE; break;
			default: ev = pct(60) ? EV_BLKPG : EV_ANY; break;
			}
			s = s0 + rint_(s1 - s0);
		} while (!plan_cnt[s][ev] && tries++ < 12);
		if (!plan_cnt[s][ev]) continue;
		i64 c = (i64)plan_cnt[s][ev], ord = pct(50) ? (i64)rng_below(&G, (u64)c) : c - 1 - (i64)rng_below(&G, (u64)(c < 40 ? c : 40));
		if (mode == FM_ALLOC && nalloc_win && pct(60)) { AllocWin *w = &alloc_win[rint_(nalloc_win)]; if (w->ses >= s0 && w->ses < s1) { s = w->ses; ord = w->a + (i64)rng_below(&G, (u64)(w->b - w->a)); } }
		switch (mode) {
		case FM_IO:
			if ((ev == EV_READ || ev == EV_WRITE) && pct(25)) fault(p, s, ev, ord, FA_SHORT, rint_(256), pct(40) ? 1 : 20);
			else if (ev == EV_READ && pct(12)) fault(p, s, ev, ord, FA_EOF, 0, pct(50) ? 1 : 3);
			else fault(p, s, ev, ord, FA_ERR, pick_errno(ev), ev == EV_OPEN && pct(50) ? 1000 : fcount());
			break;
		case FM_KILL: if (ev == EV_WRITE && pct(50)) fault(p, s, ev, ord, FA_TEAR, rint_(256), 1); else fault(p, s, ev, ord, FA_KILL, 0, 1); break;
		case FM_KERN: if (ev == EV_BLKPG && pct(30)) fault(p, s, ev, ord, FA_ACTOR, 0 << 0 | AC_TRANSIENT, 1)->arg2 = (i64)rint_(65536) | ((i64)(pct(70) ? rint_(2000000) : rint_(20000000)) << 16);
			else fault(p, s, ev, ord, FA_ERR, ev == EV_DM && pct(50) ? 16 : pick_errno(ev), fcount()); break;
		case FM_ALLOC: fault(p, s, ev, ord, FA_ERR, 12, pct(70) ? 1 : pct(50) ? 3 : 100000); break;
		case FM_LINE: fault(p, s, ev, ord, FA_INT, 0, 1); break;
		case FM_ACTOR: { static const int ac[] = { AC_MOUNT, AC_MOUNT, AC_SWAP, AC_UMOUNT, AC_HOLD, AC_RELEASE, AC_TRANSIENT, AC_WHOLE_MOUNT }; int a = ac[rint_(8)];
			fault(p, s, ev, ord, FA_ACTOR, a, 1)->arg2 = (i64)rint_(65536) | ((i64)rint_(3000000) << 16); break; }
		}
	}
}
static void bad_range(Plan *p)
{
	SimDev *d = &p->dev[0]; u64 nb = d->bytes, a;
	switch (rint_(4)) { case 0: a = 0; break; case 1: a = nb - (u64)d->lss * (u64)(1 + rint_(40)); break; case 2: a = (u64)d->lss * (u64)rint_(64); break; default: a = rng_below(&G, nb / 512) * 512; }
	a -= a % (u64)d->lss;
	u64 l = (u64)d->lss * (u64)(1 + rint_(pct(50) ? 2 : 64));
	fault(p, -1, EV_ANY, 0, FA_BADRANGE, (i64)a, 1 + rint_(3))->arg2 = (i64)(a + l);
}
/* sessions of raw device access */
static void raw_session(Plan *p, int n)
{
	Session *s = ses(p, SK_API); s->policy = pct(40) ? XP_RANDOM : rint_(6); s->a[1] = 2 | (pct(50) ? 1 : 0);
	for (int i = 0; i < n; i++) {
		int k = rint_(10); Step *t;
		if (k < 3) { t = st(s, OP_RAWREAD); t->a[0] = rint_(1024); t->a[1] = rint_(64); t->a[2] = rint_(2); }
		else if (k < 6) { t = st(s, OP_RAWWRITE); t->a[0] = rint_(1024); t->a[1] = rint_(64); t->a[2] = rint_(1 << 20); t->a[3] = rint_(3); }
		else if (k < 7) st(s, OP_SYNC);
		else if (k < 8) st(s, OP_OPENCLOSE);
		else if (k < 9) st(s, OP_EXTACC);
		else { t = st(s, OP_DISKCHECK); t->a[0] = rint_(1024); t->a[1] = rint_(64); }
	}
}
/* --------------------------------------------------- the parted program */
static const char *clinames[] = { "root", "EFI system", "a", "\303\244\303\266", "x y z", "0123456789", "thirty-six-characters-long-name-4567", "data" };
static void st_cli(Session *s, const char *l, int inter)
{
	int k = rint_(100); Step *t;
	if (k < 30) { st_add(s, l); t = &s->st[s->nst - 1]; t->a[4] = pct(70) ? 0 : rint_(4); t->a[6] = rint_(100); if (pct(50)) t->a[5] |= 4; }
	else if (k < 42) { t = st(s, OP_DEL); t->a[0] = rint_(64); }
	else if (k < 54) { t = st(s, OP_GEOM); t->a[0] = rint_(64); t->a[1] = rint_(4); t->a[2] = pct(50) ? rint_(1024) : rint_(100000); }
	else if (k < 66) { t = st(s, pct(75) ? OP_FLAG : OP_TOGGLE); t->a[0] = rint_(64); t->a[1] = rint_(32); t->a[2] = pct(75); }
	else if (k < 72) { t = st(s, OP_NAME); t->a[0] = rint_(64); snprintf(t->s, sizeof t->s, "%s", clinames[rint_(8)]); }
	else if (k < 78) { t = st(s, OP_TYPEID); t->a[0] = rint_(64); t->a[1] = (i64)rng_below(&G, 1 << 30); }
	else if (k < 82) { t = st(s, OP_DISKFLAG); t->a[0] = rint_(4); t->a[1] = pct(60); }
	else if (k < 88) { t = st(s, OP_PRINT); t->a[1] = rint_(6); t->a[0] = rint_(64); }
	else if (k < 90) { t = st(s, OP_UNITPRINT); t->a[1] = rint_(9); }
	else if (k < 93) { t = st(s, OP_ALIGNCHECK); t->a[0] = rint_(64); t->a[1] = rint_(2); }
	else if (k < 95) st_label(s, pick_relabel(GD));
	else if (k < 97) { t = st(s, OP_BADCMD); t->a[1] = rint_(10); }
	else if (k < 99 && inter) st(s, OP_HELP);
	else { t = st(s, OP_PRINT); t->a[1] = 1; }
}
static Session *cli_sess(Plan *p, const char *l, int mode, int n)
{
	Session *s = ses(p, SK_CLI);
	s->a[0] = mode; s->a[1] = pct(40) ? 0 : 1 + rint_(3); s->a[3] = rint_(4); s->policy = mode & CM_INTER ? (pct(50) ? XP_FIX : XP_RANDOM) : XP_RANDOM;
	int inter = mode & CM_INTER;
	for (int i = 0; i < n; i++) {
		st_cli(s, l, inter);
		if (!inter && s->st[s->nst - 1].op == OP_BADCMD && s->st[s->nst - 1].a[1] >= 0) break;   /* a script ends there */
	}
	return s;
}
static int cli_mode(void)
{
	int k = rint_(10);
	if (k < 5) return CM_SCRIPT | (pct(10) ? CM_FIX : 0) | (pct(20) ? CM_MACHINE : pct(20) ? CM_JSON : 0);
	if (k < 8) return CM_INTER | CM_TTY | (pct(40) ? CM_PROMPTARGS : 0) | (pct(20) ? CM_MACHINE : pct(15) ? CM_JSON : 0);
	if (k < 9) return CM_TTY;
	return pct(50) ? 0 : CM_ISATTY | CM_INTER;
}
static void weird_model(SimDev *d)
{
	static const char *w[] = { "a:b", "back\\slash", "quo\"te", "semi;colon", "tab\there", "bell\001x", "{json}", "\303\251t\303\251", "a,b:c;d\\", "percent %s %n", "\"\"", "high\377byte" };
	snprintf(d->model, sizeof d->model, "%s", w[rint_(12)]);
}
static void many_parts(Plan *p, const char *l, int n);
static void prof_cli(Plan *p, const char *prop)
{
	p->ndev = 1; gen_dev(&p->dev[0], 0, 4096);
	const char *l = pick_label();
	label_constraints(&p->dev[0], l);
	if (pct(!strcmp(prop, "C16") ? 60 : 5)) weird_model(&p->dev[0]);
	if (pct(8)) { Session *s = ses(p, SK_CLI); s->a[0] = CM_SCRIPT; s->policy = XP_RANDOM; st_label(s, l); }
	else if (!strcmp(prop, "C16") && pct(5) && p->dev[0].bytes > (256ULL << 20)) many_parts(p, pct(80) ? "gpt" : l, 6);
	else if (pct(96)) mk_table(p, l, 1 + rint_(6));
	if (!strcmp(prop, "C16")) {
		if (pct(40)) edit_session(p, l, 4 + rint_(8), 1);
		int n = 1 + rint_(3);
		for (int i = 0; i < n; i++) {
			Session *s = ses(p, SK_CLI); s->a[0] = CM_SCRIPT | (pct(33) ? CM_MACHINE : pct(50) ? CM_JSON : 0); s->policy = XP_RANDOM;
			if (pct(40)) { int k = 1 + rint_(4); for (int j = 0; j < k; j++) { do st_cli(s, l, 0); while (s->st[s->nst - 1].op >= OP_PRINT && s->nst-- ); } }
			Step *t = st(s, OP_PRINT); t->a[1] = pct(60) ? 0 : 1;
		}
		return;
	}
	int n = 1 + rint_(3);
	for (int i = 0; i < n; i++) { int m = cli_mode(); cli_sess(p, l, m, 1 + rint_(m & CM_INTER ? 14 : 6)); }
}
/* ------------------------- partitions in use, and a kernel that goes its own way */
static void st_kern(Session *s, int code) { Step *t = st(s, OP_DONE); t->a[0] = code; t->a[1] = (i64)rint_(65536) | (i64)rint_(3000000) << 16; }
static void many_parts(Plan *p, const char *l, int n)
{
	for (int k = 0; k < n; k++) {
		Session *s = ses(p, SK_API); s->policy = XP_FIX; s->a[1] = k ? 0 : 2;
		if (!k) st_label(s, l);
		for (int i = 0; i < 24; i++) { st_add(s, l); Step *t = &s->st[s->nst - 1]; t->a[1] = 0; t->a[2] = 1 + rint_(8); t->a[4] = 0; t->a[5] = 2; if (t->a[3] == 0 && pct(80)) t->a[3] = !strcmp(l, "msdos") ? 1 : 0; }
		st(s, OP_COMMIT);
	}
}
static int prof_kern(Plan *p, const char *prop)
{
	int busy = !strcmp(prop, "C15");
	p->ndev = 1; do gen_dev(&p->dev[0], 0, 4096); while (p->dev[0].type == DT_FILE);
	if (pct(12)) { SimDev *d = &p->dev[0]; d->type = DT_DM; snprintf(d->path, sizeof d->path, "/dev/mapper/mpath%c", pct(50) ? 'a' : '7'); snprintf(d->dmname, sizeof d->dmname, "%s", d->path + 12); snprintf(d->dmuuid, sizeof d->dmuuid, "mpath-0"); d->major = 252; d->minor = 0; d->have_geo = 0; }
	if (pct(15)) p->dev[0].have_sysfs_parts = 0;
	if (pct(8)) p->dev[0].have_blkpg_resize = 0;
	const char *l = pick_label();
	label_constraints(&p->dev[0], l);
	int s0 = 1;
	if (pct(8) && p->dev[0].bytes > (64ULL << 20)) { many_parts(p, pct(70) ? "gpt" : l, 2); s0 = 2; }
	else mk_table(p, l, 1 + rint_(7));
	int n = 1 + rint_(2);
	for (int i = 0; i < n; i++) {
		int k;
		if (busy || pct(60)) {
			Session *s = ses(p, SK_KERNEL); int m = 1 + rint_(2);
			for (int j = 0; j < m; j++) {
				static const int bu[] = { AC_MOUNT, AC_MOUNT, AC_MOUNT, AC_SWAP, AC_MOUNT_LAST, AC_WHOLE_MOUNT, AC_WHOLE_SWAP, AC_UMOUNT, AC_HOLD }, ke[] = { AC_MOUNT, AC_SWAP, AC_HOLD, AC_FORGET, AC_ADDPART, AC_ADDPART, AC_MOUNT_LAST, AC_RELEASE, AC_UMOUNT };
				st_kern(s, busy ? bu[rint_(9)] : ke[rint_(9)]);
			}
		}
		k = rint_(100);
		if (busy ? k < 92 : k < 30) {
			int md = cli_mode(); if (busy && pct(50)) md = CM_SCRIPT;
			Session *s = ses(p, SK_CLI); s->a[0] = md & ~(CM_MACHINE | CM_JSON); s->a[1] = pct(40) ? 0 : 1 + rint_(3); s->a[3] = rint_(4); s->policy = md & CM_INTER ? (pct(60) ? XP_FIX : XP_RANDOM) : pct(60) ? XP_CANCEL : XP_RANDOM;
			int c = 1 + rint_(md & CM_INTER ? 6 : 2);
			for (int j = 0; j < c; j++) {
				Step *t; int w = rint_(10);
				if (!busy) st_cli(s, l, md & CM_INTER);
				else if (w < 4) { t = st(s, OP_DEL); t->a[0] = rint_(64); }
				else if (w < 7) { t = st(s, OP_GEOM); t->a[0] = rint_(64); t->a[1] = rint_(4); t->a[2] = pct(50) ? rint_(1024) : rint_(100000); }
				else if (w < 9) st_label(s, pick_relabel(GD));
				else st_cli(s, l, md & CM_INTER);
			}
		} else if (k < 60) {
			Session *s = edit_session(p, l, 2 + rint_(7), 1); s->policy = pct(60) ? XP_FIX : rint_(6);
			if (pct(15)) { Step *t = &s->st[s->nst - 1]; for (int j = 0; j < s->nst; j++) if (s->st[j].op == OP_COMMIT) { t = &s->st[j]; t->op = OP_COMMITDEV; } }
		} else if (k < 90) {
			if (pct(60)) { Session *s = edit_session(p, l, 2 + rint_(6), 1); for (int j = 0; j < s->nst; j++) if (s->st[j].op == OP_COMMIT) s->st[j].op = OP_COMMITDEV; }
			if (pct(12)) { Session *s = ses(p, SK_API); s->a[1] = 0; s->policy = XP_FIX; st(s, OP_CLOBBER); }
			Session *s = ses(p, SK_PARTPROBE); s->a[0] = (pct(25) ? 1 : 0) | (pct(40) ? 2 : 0) | (pct(15) ? 4 : 0);
		} else mk_table(p, pick_relabel(GD), 1 + rint_(4));
	}
	return s0;
}
static int rnd_policy(void) { static const int pl[] = { XP_UNHANDLED, XP_CANCEL, XP_RETRY, XP_FIX, XP_RANDOM, XP_RETRY }; return pl[rint_(6)]; }
/* a table, then sessions of edits during which things fail */
static int prof_faults(Plan *p, int withraw)
{
	p->ndev = 1; gen_dev(&p->dev[0], 0, 4096);
	const char *l = pick_label();
	label_constraints(&p->dev[0], l);
	if (withraw && pct(30)) { raw_session(p, 3 + rint_(10)); if (pct(50)) raw_session(p, 3 + rint_(10)); return 0; }
	if (withraw && pct(15)) {   /* no label at all */
		Session *s = ses(p, SK_API); s->policy = rnd_policy(); s->a[1] = pct(40) ? 1 : 0; int n = 2 + rint_(6);
		for (int i = 0; i < n; i++) { int k = rint_(5); if (k == 0) st(s, OP_RELOAD); else if (k == 1) st(s, OP_CLOBBER); else if (k == 2) st(s, OP_PROBE); else if (k == 3) st_label(s, l); else st_edit(s, l); }
		return 0;
	}
	mk_table(p, l, 1 + rint_(6));
	int n = 1 + rint_(2);
	for (int i = 0; i < n; i++) {
		Session *s = edit_session(p, l, 2 + rint_(8), 1 + rint_(2));
		s->policy = rnd_policy();
		if (pct(30)) st(s, OP_RELOAD);
		if (withraw && pct(20)) st(s, OP_EXTACC);
	}
	if (pct(30)) { Session *s = ses(p, SK_API); s->policy = rnd_policy(); s->a[1] = pct(50); st(s, OP_RELOAD); st(s, OP_PROBE); st(s, OP_CHECK); if (pct(30)) st(s, OP_RELOAD); }
	if (pct(15)) { Session *s = mk_table(p, pick_relabel(GD), rint_(4)); s->policy = rnd_policy(); }
	return 1;
}
/* a table, edits of it, and now and then a kill or an error in the middle */
static int prof_atomic(Plan *p)
{
	p->ndev = 1; gen_dev(&p->dev[0], 0, 4096);
	const char *l = pick_label();
	label_constraints(&p->dev[0], l);
	if (pct(4) && !strcmp(l, "gpt") && p->dev[0].bytes > (64ULL << 20)) many_parts(p, l, 2);
	else mk_table(p, l, 1 + rint_(8));
	int s0 = p->nses, n = 1 + rint_(2);
	for (int i = 0; i < n; i++) { Session *s = edit_session(p, l, 3 + rint_(8), 1 + rint_(3)); if (pct(20)) s->policy = rnd_policy(); }
	if (strcmp(l, "gpt") && pct(92)) for (int i = 0; i < p->nses; i++) for (int j = 0; j < p->ses[i].nst; j++) if (p->ses[i].st[j].op == OP_ADD) p->ses[i].st[j].a[3] = 0;
	return s0;
}
/* a table, then edits of it during which memory runs out */
static int prof_oom(Plan *p)
{
	p->ndev = 1; gen_dev(&p->dev[0], 0, 4096);
	const char *l = pick_label();
	label_constraints(&p->dev[0], l);
	mk_table(p, l, 1 + rint_(8));
	int s0 = p->nses, n = 1 + rint_(3);
	for (int i = 0; i < n; i++) {
		if (pct(70) || !strcmp(l, "mac") || !strcmp(l, "atari")) { Session *s = edit_session(p, l, 1 + rint_(8), 1 + rint_(3)); s->policy = rnd_policy(); if (pct(30)) st(s, OP_RELOAD); if (pct(15)) st(s, OP_DUP); if (pct(20)) st(s, OP_COMMIT); }
		else if (pct(75)) { int m = cli_mode(); cli_sess(p, l, m, 1 + rint_(m & CM_INTER ? 6 : 3)); }
		else { Session *s = mk_table(p, pick_relabel(GD), rint_(4)); s->policy = rnd_policy(); }
	}
	if (strcmp(l, "gpt") && pct(60)) for (int i = 0; i < p->nses; i++) for (int j = 0; j < p->ses[i].nst; j++) if (p->ses[i].st[j].op == OP_ADD) p->ses[i].st[j].a[3] = 0;
	return s0;
}
/* a GPT, damage to one copy or a larger device, and sessions that read and repair it */
static int prof_repair(Plan *p)
{
	p->ndev = 1; gen_dev(&p->dev[0], 0, 4096);
	force_label = "gpt";
	if (pct(6) && p->dev[0].bytes > (64ULL << 20)) many_parts(p, "gpt", 1 + rint_(4));
	else mk_table(p, "gpt", 1 + rint_(8));
	if (pct(30)) edit_session(p, "gpt", 3 + rint_(6), 1);
	int s0 = p->nses, rounds = 1 + rint_(2);
	for (int i = 0; i < rounds && p->nses < MAXSES - 3; i++) {
		int grow = pct(30), which = grow ? 1 : rint_(2);
		if (!grow || pct(30)) {
			Session *s = ses(p, SK_TAMPER); s->a[4] = which; int m = pct(70) ? 1 : 1 + rint_(3);
			for (int j = 0; j < m; j++) { Step *t = st(s, OP_DONE); t->a[0] = rint_(12); t->a[1] = rint_(1000); t->a[2] = (i64)rng_below(&G, 1 << 30); }
		}
		if (grow) { Session *s = ses(p, SK_RESIZEDEV); s->a[0] = pct(30) ? 1 + rint_(3) : pct(50) ? 1 + rint_(200) : 1 + rint_(100000); }
		if (pct(30)) {     /* somebody only looks */
			if (pct(50)) { Session *s = ses(p, SK_API); s->a[4] = 17; s->policy = pct(60) ? XP_UNHANDLED : rint_(6); s->a[1] = 2; st(s, OP_RELOAD); if (pct(50)) st(s, OP_PROBE); if (pct(30)) st(s, OP_RELOAD); }
			else { Session *s = ses(p, SK_CLI); s->a[4] = 17; s->a[0] = CM_SCRIPT; s->policy = XP_RANDOM; st(s, OP_PRINT); }
		}
		if (p->nses >= MAXSES - 1) break;
		int k = rint_(10);
		if (k < 6) { Session *s = ses(p, SK_API); s->a[4] = 17; s->policy = XP_FIX; s->a[1] = 2 | rint_(2); st(s, OP_RELOAD); if (pct(20)) st(s, OP_RELOAD); if (pct(20)) st(s, OP_DUP); st(s, pct(80) ? OP_COMMIT : OP_COMMITDEV); }
		else if (k < 8) { Session *s = ses(p, SK_CLI); s->a[4] = 17; s->a[0] = pct(50) ? CM_SCRIPT | CM_FIX : CM_TTY | CM_INTER; s->policy = XP_FIX; st(s, OP_PRINT); }
		else { edit_session(p, "gpt", 3 + rint_(6), 1); }
	}
	force_label = NULL;
	return s0;
}
/* arbitrary contents, then everything that reads them */
static int prof_image(Plan *p)
{
	p->ndev = 1; gen_dev(&p->dev[0], 0, 4096);
	static const char *all[] = { "gpt", "msdos", "gpt", "msdos", "msdos", "sun", "bsd", "pc98", "mac", "dvh", "amiga", "atari", "loop" };
	const char *l = all[rint_(13)];
	if (pct(85)) { p->dev[0].lss = 512; if (p->dev[0].bytes % 512) p->dev[0].bytes -= p->dev[0].bytes % 512; if (p->dev[0].pss < 512) p->dev[0].pss = 512; }
	if (pct(10)) p->dev[0].bytes = (u64)p->dev[0].lss * (u64)(1 + rint_(200));
	label_constraints(&p->dev[0], l);
	int k = rint_(10);
	if (k < 8) { Session *s = mk_table(p, l, 1 + rint_(8)); if (!strcmp(l, "msdos") && pct(70)) for (int j = 0, e = 0; j < s->nst; j++) if (s->st[j].op == OP_ADD) { if (!e++) { s->st[j].a[3] = 2; s->st[j].a[1] = rint_(100); s->st[j].a[2] = 500 + rint_(400); s->st[j].a[5] = 2; } else if (pct(80)) { s->st[j].a[3] = 1; s->st[j].a[2] = 1 + rint_(200); } } }
	int s0 = p->nses, rounds = 1 + rint_(2);
	for (int i = 0; i < rounds && p->nses < MAXSES - 2; i++) {
		Session *s = ses(p, SK_IMAGE); s->a[1] = (i64)rng_below(&G, 1 << 30); s->a[3] = pct(75);
		int m = 1 + rint_(pct(50) ? 2 : 6);
		for (int j = 0; j < m; j++) {
			Step *t = st(s, OP_DONE); t->a[1] = (i64)rng_below(&G, 1 << 30); t->a[2] = (i64)rng_below(&G, 1 << 30);
			t->a[0] = pct(25) ? 1 : pct(25) ? 0 : rint_(15);
			if (!strcmp(l, "msdos") && pct(50)) t->a[0] = pct(50) ? 13 : 8;
			if (!strcmp(l, "gpt") && pct(50)) t->a[0] = pct(50) ? 9 : 10;
			if (k >= 8) t->a[0] = pct(60) ? 12 : pct(50) ? 11 : t->a[0];
		}
		int n = 1 + rint_(2);
		for (int j = 0; j < n && p->nses < MAXSES; j++) {
			int w = rint_(10);
			if (w < 6) {
				Session *q = ses(p, SK_API); q->policy = pct(30) ? XP_IGNORE : pct(30) ? XP_FIX : rint_(7); q->a[1] = 2 | rint_(2);
				st(q, OP_RELOAD); if (pct(60)) st(q, OP_PROBE); if (pct(40)) st(q, OP_CHECK); if (pct(40)) st(q, OP_DUP); if (pct(20)) st(q, OP_DUPMUT);
				if (pct(60)) { int e = 1 + rint_(6); for (int z = 0; z < e; z++) st_edit(q, l); }
				if (pct(60)) st(q, OP_COMMIT);
				if (pct(30)) st(q, OP_RELOAD);
				if (pct(15)) st_label(q, pick_label());
				if (pct(10)) st(q, OP_CLOBBER);
			} else if (w < 9) {
				int md = cli_mode(); Session *q = ses(p, SK_CLI); q->a[0] = pct(60) ? CM_SCRIPT | (pct(30) ? CM_JSON : pct(50) ? CM_MACHINE : 0) | (pct(20) ? CM_FIX : 0) : md; q->policy = pct(50) ? XP_FIX : XP_RANDOM; q->a[1] = rint_(4);
				int e = 1 + rint_(3); for (int z = 0; z < e; z++) { if (pct(50)) { Step *t = st(q, OP_PRINT); t->a[1] = rint_(6); t->a[0] = rint_(64); } else st_cli(q, l, md & CM_INTER); }
			} else { Session *q = ses(p, SK_PARTPROBE); q->a[0] = rint_(4); }
		}
	}
	return s0;
}
int exec_plan(Plan *p);
static int is(const char *prop, const char *l) { return strstr(l, prop) != NULL; }
void gen_case(const char *prop, u64 seed, Plan *p)
{
	start(p, prop, seed);
	for (int i = 0; edit_checks[i].prop; i++) if (!strcmp(edit_checks[i].prop, prop)) p->checks = edit_checks[i].checks;
	int s0 = 0, mode = FM_NONE, n = 1;
	if (is(prop, "C05 C19 C03 C09") && (is(prop, "C05") || pct(is(prop, "C19") ? 70 : 35))) {
		snprintf(p->prof, sizeof p->prof, "faults");
		s0 = prof_faults(p, is(prop, "C05 C19")); mode = pct(80) ? FM_IO : FM_KERN; n = pct(60) ? 1 : 1 + rint_(4);
		if (is(prop, "C03") && pct(50)) mode = FM_KILL;
	} else if (is(prop, "C02")) {
		snprintf(p->prof, sizeof p->prof, "atomic");
		s0 = prof_atomic(p); mode = pct(60) ? FM_NONE : pct(60) ? FM_KILL : FM_IO;
	} else if (is(prop, "C11")) {
		snprintf(p->prof, sizeof p->prof, "image");
		s0 = prof_image(p); mode = pct(80) ? FM_NONE : FM_IO;
	} else if (is(prop, "C12")) {
		snprintf(p->prof, sizeof p->prof, "memory");
		s0 = prof_oom(p); mode = FM_ALLOC; n = pct(75) ? 1 : 1 + rint_(4);
	} else if (is(prop, "C17")) {
		snprintf(p->prof, sizeof p->prof, "repair");
		s0 = prof_repair(p); mode = pct(65) ? FM_NONE : pct(60) ? FM_KILL : FM_IO;
	} else if (is(prop, "C15") || (is(prop, "C06") && pct(60))) {
		snprintf(p->prof, sizeof p->prof, "kernel");
		s0 = prof_kern(p, prop); if (is(prop, "C06") && pct(60)) mode = pct(65) ? FM_KERN : FM_ACTOR;
		n = pct(75) ? 1 : 1 + rint_(3);
	} else if (is(prop, "C14 C16") || (is(prop, "C18 C09") && pct(35)) || (is(prop, "C04") && pct(50)) || (is(prop, "C19") && pct(40))) {
		snprintf(p->prof, sizeof p->prof, "cli");
		prof_cli(p, prop); mode = is(prop, "C14 C19 C04") && pct(40) ? (pct(60) ? FM_IO : FM_LINE) : is(prop, "C16") && pct(15) ? FM_KILL : FM_NONE; n = pct(70) ? 1 : 1 + rint_(4);
	} else {
		gen_plan(prop, seed, p);
		return;
	}
	if (mode) {
		Rng save = G;
		exec_plan(p);
		G = save;
		if (mode == FM_IO && pct(12)) bad_range(p);
		else place(p, mode, s0, p->nses, n);
	}
}
