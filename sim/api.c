/* API sessions: a seeded sequence of libparted calls in a process of its own,
   with the monitors that must hold after every single call. */
#include "h.h"
#include <errno.h>
#include <parted/parted.h>

extern Plan *CP;
static Session *S;
static Rng prng;
static int policy, retries;
static int cur_rec = -1;

static int pick(int opts, const int *pref, int n)
{
	for (int i = 0; i < n; i++) if (opts & pref[i]) return pref[i];
	return 0;
}
int policy_answer(int pol, int opts, Rng *r, int *retr)
{
	static const int cancel[] = { PED_EXCEPTION_CANCEL, PED_EXCEPTION_NO, PED_EXCEPTION_IGNORE, PED_EXCEPTION_OK };
	static const int ignore[] = { PED_EXCEPTION_IGNORE, PED_EXCEPTION_NO, PED_EXCEPTION_CANCEL, PED_EXCEPTION_OK };
	static const int fix[] = { PED_EXCEPTION_FIX, PED_EXCEPTION_YES, PED_EXCEPTION_OK, PED_EXCEPTION_CANCEL, PED_EXCEPTION_IGNORE };
	static const int rd[] = { PED_EXCEPTION_OK, PED_EXCEPTION_IGNORE, PED_EXCEPTION_NO, PED_EXCEPTION_CANCEL };
	if (!(opts & (opts - 1))) return opts;
	switch (pol) {
	case XP_CANCEL: return pick(opts, cancel, 4);
	case XP_IGNORE: return pick(opts, ignore, 4);
	case XP_RETRY: if ((opts & PED_EXCEPTION_RETRY) && (*retr)++ < 6) return PED_EXCEPTION_RETRY; return pick(opts, cancel, 4);
	case XP_FIX: if ((opts & PED_EXCEPTION_RETRY) && (*retr)++ < 4) return PED_EXCEPTION_RETRY; return pick(opts, fix, 5);
	case 6: return pick(opts, rd, 4);
	case XP_RANDOM: {
		int n = __builtin_popcount((unsigned)opts), k = (int)rng_below(r, (u64)n + 1);
		if (k == n) return PED_EXCEPTION_UNHANDLED;
		if ((opts & PED_EXCEPTION_RETRY) && (*retr)++ > 20) return pick(opts, cancel, 4);
		for (int b = 1; b; b <<= 1) if (opts & b && !k--) return b;
		return 0;
	}
	}
	return PED_EXCEPTION_UNHANDLED;
}
void exc_log(int type, int options, int answer, const char *msg)
{
	if (R->nexc < 96) {
		Exc *x = &R->exc[R->nexc++];
		x->type = type; x->options = options; x->answer = answer; x->op = cur_rec; x->ev = W->c.ev;
		snprintf(x->msg, sizeof x->msg, "%s", msg ? msg : "(null)");
	}
	hash_ev(2000, (u64)type, (u64)answer);
	if (W->trace) fprintf(stderr, "  EXC type=%d opts=%x -> %x: %s\n", type, options, answer, msg);
}
static PedExceptionOption handler(PedException *ex)
{
	int save = sim_in_target; sim_in_target = 0;
	int a = policy_answer(policy, ex->options, &prng, &retries);
	exc_log(ex->type, ex->options, a, ex->message);
	if (cur_rec >= 0) {
		if (a == PED_EXCEPTION_IGNORE || (a == PED_EXCEPTION_NO && ex->message && strstr(ex->message, "invalidate the ICD"))) R->op[cur_rec].ign++;
		if (a == PED_EXCEPTION_RETRY) R->op[cur_rec].retr++;
	}
	sim_in_target = save;
	return a;
}
void api_set_handler(int pol, u64 seed) { policy = pol; prng.s = seed; retries = 0; ped_exception_set_handler(handler); }

/* ------------------------------------------------------------- monitors */
static PedDevice *dev;
static PedDisk *disk;
static int orderdep(const Snap *s, const SPart *p)
{
	if (!strcmp(s->label, "msdos")) return !!(p->type & PED_PARTITION_LOGICAL);
	if (!strcmp(s->label, "atari") || !strcmp(s->label, "amiga")) return 1;
	return 0;
}
/* every partition of `a` except number skip must be in `b` unchanged (fl: bits of flags that may differ) */
int frame_ok(const Snap *a, const Snap *b, int skip, u32 fl, char *m, size_t n)
{
	for (int i = 0; i < a->np; i++) {
		const SPart *p = &a->p[i], *q = NULL;
		if (p->num == skip) continue;
		if (orderdep(a, p)) { for (int j = 0; j < b->np; j++) if (b->p[j].s == p->s && b->p[j].e == p->e && b->p[j].type == p->type && (!q || b->p[j].num == p->num)) q = &b->p[j]; }
		else q = snap_find(b, p->num);
		if (!q) { snprintf(m, n, "partition %d (%lld..%lld) is gone", p->num, (long long)p->s, (long long)p->e); return 0; }
		if (p->type != q->type || p->s != q->s || p->e != q->e) { snprintf(m, n, "partition %d changed from %lld..%lld type %d to %lld..%lld type %d", p->num, (long long)p->s, (long long)p->e, p->type, (long long)q->s, (long long)q->e, q->type); return 0; }
		if ((p->flags ^ q->flags) & ~fl) { snprintf(m, n, "flags of partition %d changed from %x to %x", p->num, p->flags, q->flags); return 0; }
		if (strcmp(p->name, q->name)) { snprintf(m, n, "name of partition %d changed from '%.50s' to '%.50s'", p->num, p->name, q->name); return 0; }
		if (p->tid != q->tid && !fl) { snprintf(m, n, "type id of partition %d changed from %x to %x", p->num, p->tid, q->tid); return 0; }
		if (memcmp(p->tuuid, q->tuuid, 16)) { snprintf(m, n, "type uuid of partition %d changed", p->num); return 0; }
		if (memcmp(p->uuid, q->uuid, 16)) { snprintf(m, n, "uuid of partition %d changed", p->num); return 0; }
		if (strcmp(p->fs, q->fs)) { snprintf(m, n, "fs of partition %d changed from %s to %s", p->num, p->fs, q->fs); return 0; }
	}
	if (a->dflags != b->dflags) { snprintf(m, n, "disk flags changed from %x to %x", a->dflags, b->dflags); return 0; }
	if (a->has_duuid && memcmp(a->duuid, b->duuid, 16)) { snprintf(m, n, "disk uuid changed"); return 0; }
	return 1;
}
/* flags that exclude each other between partitions of a label */
static u32 exclusive_flags(const char *label)
{
	if (!strcmp(label, "msdos")) return 1u << PED_PARTITION_BOOT;
	if (!strcmp(label, "dvh")) return 1u << PED_PARTITION_BOOT | 1u << PED_PARTITION_ROOT | 1u << PED_PARTITION_SWAP;
	if (!strcmp(label, "mac")) return 1u << PED_PARTITION_BOOT | 1u << PED_PARTITION_ROOT;
	if (!strcmp(label, "amiga")) return 0;
	if (!strcmp(label, "pc98")) return 0;
	return 0;
}
u32 sim_exclusive_flags(const char *l); u32 sim_exclusive_flags(const char *l) { return exclusive_flags(l); }

static int take(void)
{
	if (!disk || R->nsnap >= MAXSNAP) return -1;
	snap_disk(disk, &R->snap[R->nsnap]);
	return R->nsnap++;
}
static SPart *selpart(Snap *s, i64 sel) { return s && s->np ? &s->p[(u64)sel % (u64)s->np] : NULL; }

static PedGeometry *range_geom(i64 a, i64 d)
{
	i64 lo = a - d < 0 ? 0 : a - d, hi = a + d >= dev->length ? dev->length - 1 : a + d;
	if (lo >= dev->length) lo = dev->length - 1;
	if (hi < lo) hi = lo;
	return ped_geometry_new(dev, lo, hi - lo + 1);
}
static PedConstraint *mk_constraint(int mode, i64 s, i64 e, i64 d)
{
	PedGeometry *g, *g2; PedConstraint *c = NULL;
	if (s < 0 || e < s || e >= dev->length) return NULL; /* a damaged table may put partitions outside */
	switch (mode) {
	case 0: g = ped_geometry_new(dev, s, e - s + 1); if (!g) return NULL; c = ped_constraint_exact(g); ped_geometry_destroy(g); return c;
	case 1: return ped_device_get_optimal_aligned_constraint(dev);
	case 2:
		g = range_geom(s, d); g2 = range_geom(e, d);
		if (g && g2) c = ped_constraint_new(ped_alignment_any, ped_alignment_any, g, g2, 1, dev->length);
		if (g) ped_geometry_destroy(g);
		if (g2) ped_geometry_destroy(g2);
		return c;
	case 3: g = ped_geometry_new(dev, s, e - s + 1); if (!g) return NULL; c = ped_constraint_new_from_max(g); ped_geometry_destroy(g); return c;
	case 4: g = ped_geometry_new(dev, s, e - s + 1); if (!g) return NULL; c = ped_constraint_new_from_min(g); ped_geometry_destroy(g); return c;
	case 5: return ped_constraint_any(dev);
	case 6: {
		PedAlignment *a1 = ped_alignment_new(rng_below(&prng, 4), 1 + (i64)rng_below(&prng, 16)), *a2 = ped_alignment_new(0, 1 + (i64)rng_below(&prng, 8));
		g = range_geom(s, 64); g2 = range_geom(e, 64);
		if (a1 && a2 && g && g2) c = ped_constraint_new(a1, a2, g, g2, 1 + (i64)rng_below(&prng, 40), dev->length);
		if (a1) ped_alignment_destroy(a1);
		if (a2) ped_alignment_destroy(a2);
		if (g) ped_geometry_destroy(g);
		if (g2) ped_geometry_destroy(g2);
		return c;
	}
	}
	return NULL;
}
static int al_ok(const PedAlignment *a, i64 v) { return a->grain_size ? (v - a->offset) % a->grain_size == 0 : v == a->offset; }
static int cons_ok(const PedConstraint *c, i64 s, i64 e, char *m, size_t n)
{
	m[0] = 0;
	if (!al_ok(c->start_align, s)) snprintf(m, n, "start %lld violates the start alignment (offset %lld grain %lld)", (long long)s, (long long)c->start_align->offset, (long long)c->start_align->grain_size);
	else if (!al_ok(c->end_align, e)) snprintf(m, n, "end %lld violates the end alignment (offset %lld grain %lld)", (long long)e, (long long)c->end_align->offset, (long long)c->end_align->grain_size);
	else if (s < c->start_range->start || s > c->start_range->end) snprintf(m, n, "start %lld is outside %lld..%lld", (long long)s, (long long)c->start_range->start, (long long)c->start_range->end);
	else if (e < c->end_range->start || e > c->end_range->end) snprintf(m, n, "end %lld is outside %lld..%lld", (long long)e, (long long)c->end_range->start, (long long)c->end_range->end);
	else if (e - s + 1 < c->min_size || e - s + 1 > c->max_size) snprintf(m, n, "size %lld is outside %lld..%lld", (long long)(e - s + 1), (long long)c->min_size, (long long)c->max_size);
	return !m[0];
}
/* my own record of a constraint, so that the library cannot change it under us */
typedef struct { PedAlignment sa, ea; PedGeometry sr, er; PedConstraint c; } Cons;
static void cons_save(Cons *k, const PedConstraint *c)
{
	k->sa = *c->start_align; k->ea = *c->end_align; k->sr = *c->start_range; k->er = *c->end_range; k->c = *c;
	k->c.start_align = &k->sa; k->c.end_align = &k->ea; k->c.start_range = &k->sr; k->c.end_range = &k->er;
}

static void choose_geom(Snap *pre, Step *st, int ptype, i64 *s, i64 *e)
{
	i64 len = pre->len;
	if (st->a[5] & 1) {   /* anywhere */
		*s = (i64)((__int128)len * st->a[1] / 1024); *e = *s + (i64)((__int128)len * st->a[2] / 2048);
		if (*e >= len) *e = len - 1;
		return;
	}
	int c[MAXREG], n = 0;
	for (int i = 0; i < pre->nr; i++) {
		if (!(pre->r[i].type & PED_PARTITION_FREESPACE)) continue;
		if (!!(pre->r[i].type & PED_PARTITION_LOGICAL) != !!(ptype & PED_PARTITION_LOGICAL)) continue;
		c[n++] = i;
	}
	if (!n) { *s = (i64)((__int128)len * st->a[1] / 1024); *e = *s; return; }
	SReg *r = &pre->r[c[(u64)st->a[0] % (u64)n]];
	if (st->a[5] & 2) {   /* the largest region instead */
		for (int i = 0; i < n; i++) if (pre->r[c[i]].e - pre->r[c[i]].s > r->e - r->s) r = &pre->r[c[i]];
	}
	i64 L = r->e - r->s + 1;
	*s = r->s + (i64)((__int128)L * st->a[1] / 1024);
	i64 want = (i64)((__int128)L * st->a[2] / 1024); if (want < 1) want = 1;
	if (st->a[5] & 4) {   /* cylinder aligned */
		i64 cyl = (i64)dev->bios_geom.heads * dev->bios_geom.sectors;
		if (cyl > 0) { *s = (*s + cyl - 1) / cyl * cyl; want = (want + cyl - 1) / cyl * cyl; }
	}
	*e = *s + want - 1;
	if (*e > r->e) *e = r->e;
	if (*e < *s) *e = *s;
}

static void dup_mutate(PedDisk *d)
{
	PedPartition *p; int k = 0;
	for (p = ped_disk_next_partition(d, NULL); p; p = ped_disk_next_partition(d, p)) {
		if (!ped_partition_is_active(p)) continue;
		if (ped_disk_type_check_feature(d->type, PED_DISK_TYPE_PARTITION_NAME) && !(p->type & PED_PARTITION_EXTENDED)) ped_partition_set_name(p, "mut");
		for (PedPartitionFlag f = ped_partition_flag_next(0); f; f = ped_partition_flag_next(f))
			if (k++ % 3 == 0 && ped_partition_is_flag_available(p, f)) ped_partition_set_flag(p, f, !ped_partition_get_flag(p, f));
		if (!(p->type & PED_PARTITION_EXTENDED) && strcmp(d->type->name, "loop")) { PedFileSystemType *t = ped_file_system_type_get("fat32"); if (t) ped_partition_set_system(p, t); }
	}
	ped_disk_delete_all(d);
}

static OpRec *rec_begin(int step, int op)
{
	if (R->nop >= MAXOPREC) return NULL;
	cur_rec = R->nop++;
	OpRec *o = &R->op[cur_rec];
	memset(o, 0, sizeof *o);
	o->step = step; o->op = op; o->pre = o->post = -1; o->log0 = W->nlog; o->nexc0 = R->nexc; o->kch = (int)W->kchanges;
	o->errs = -W->io_err_seen; o->al0 = (i64)W->c.cnt[EV_ALLOC];
	W->cur_op = step; W->uuid_ctr = (u64)(S ? S->a[5] : 0) * 100000 + (u64)step * 1000;
	retries = 0;
	return o;
}
static void rec_end(OpRec *o, int rc)
{
	o->rc = rc; o->log1 = W->nlog; o->al1 = (i64)W->c.cnt[EV_ALLOC]; o->nexc1 = R->nexc; o->errs += W->io_err_seen; o->kch = (int)W->kchanges - o->kch;
	hash_ev(3000 + (u64)o->op, (u64)rc, (u64)o->step);
}
#define CK(x) (CP->checks & (x))

static void post_checks(OpRec *o, int mutated_disk_gone)
{
	Snap *pre = o->pre >= 0 ? &R->snap[o->pre] : NULL, *post = o->post >= 0 ? &R->snap[o->post] : NULL;
	char m[300];
	(void)mutated_disk_gone;
	if (post && CK(CK_VALID)) {
		snap_valid(post, m, sizeof m);
		if (m[0]) viol("C08", "after %s (%s): %s [label %s]", opname(o->op), o->rc ? "succeeded" : "failed", m, post->label);
	}
	if (!pre || !post) return;
	if (!o->rc && CK(CK_FAIL)) {
		/* what partitions that overlap at the user's request leave free is not defined */
		snap_valid(pre, m, sizeof m);
		if (snap_cmp(pre, post, SC_FS | (m[0] ? 0 : SC_REGIONS), m, sizeof m))
			viol("C09", "%s failed but changed the table in memory: %s [label %s]", opname(o->op), m, post->label);
		if (o->op != OP_COMMIT && o->op != OP_COMMITDEV && o->op != OP_LABEL && o->op != OP_CLOBBER && o->op != OP_RELOAD && o->op != OP_RAWWRITE)
			for (int i = o->log0; i < o->log1; i++) if (W->log[i].kind == LW_WRITE) { viol("C09", "%s failed but wrote to the device", opname(o->op)); break; }
	}
}

static void do_step(int idx, Step *st)
{
	OpRec *o = rec_begin(idx, st->op);
	if (!o) return;
	Snap *pre = NULL;
	int rc = 0; char m[300]; m[0] = 0;
	if (disk) { o->pre = R->nsnap > 0 ? R->extra[0] : -1; if (o->pre >= 0) pre = &R->snap[o->pre]; }
	int oc0 = dev ? dev->open_count : 0;
	int gone = 0;
	SPart *sp = NULL; PedPartition *pp = NULL;
	int addnum = -1; u32 xfl = 0; int reqnum = -1;
	enum { FR_NONE, FR_SAME, FR_ONE, FR_ADD, FR_DEL } fr = FR_NONE;
	PedPartition *np = NULL; PedConstraint *c = NULL; Cons k; int havek = 0;
	if (pre && pre->np && (st->op == OP_DEL || st->op == OP_GEOM || st->op == OP_MAX || st->op == OP_FLAG || st->op == OP_NAME || st->op == OP_SYSTEM || st->op == OP_TYPEID || st->op == OP_TYPEUUID)) {
		sp = selpart(pre, st->a[0]);
		pp = ped_disk_get_partition(disk, sp->num);
		reqnum = sp->num; o->want = sp->num;
		/* the partition map is a partition of its own, and the names root and swap are flags */
		if (!strcmp(pre->label, "mac") && (sp->s <= 1 || (st->op == OP_NAME && (!strcmp(st->s, "root") || !strcmp(st->s, "swap"))) || (st->op == OP_SYSTEM && !strcmp(st->s, "linux-swap")))) { rec_end(o, 0); return; }
		if (!pp) viol("C08", "partition %d listed but not found by number", sp->num);
	}
	switch (st->op) {
	case OP_GETDEV: break;
	case OP_LABEL: {
		PedDiskType *t = ped_disk_type_get(st->s);
		PedDisk *nd = t ? ped_disk_new_fresh(dev, t) : NULL;
		rc = nd != NULL;
		if (nd) { if (disk) ped_disk_destroy(disk); disk = nd; }
		break;
	}
	case OP_ADD: {
		if (!pre) break;
		int pt = st->a[3] == 1 ? PED_PARTITION_LOGICAL : st->a[3] == 2 ? PED_PARTITION_EXTENDED : 0;
		i64 s, e; choose_geom(pre, st, pt, &s, &e);
		const PedFileSystemType *fs = st->s[0] && strcmp(!strcmp(pre->label, "mac") ? st->s : "", "linux-swap") && pt != PED_PARTITION_EXTENDED ? ped_file_system_type_get(st->s) : NULL;
		o->ws = s; o->we = e;
		np = ped_partition_new(disk, pt, fs, s, e);
		if (!np) { fr = FR_SAME; break; }
		c = mk_constraint((int)st->a[4], s, e, 40);
		if (c) { cons_save(&k, c); havek = 1; rc = ped_disk_add_partition(disk, np, c); }
		if (!rc) { ped_partition_destroy(np); np = NULL; }
		else { addnum = np->num; fr = FR_ADD; }
		break;
	}
	case OP_DEL:
		if (!pp) break;
		rc = ped_disk_delete_partition(disk, pp); fr = FR_DEL;
		break;
	case OP_DELALL: if (!disk || !strcmp(disk->type->name, "mac")) break; rc = ped_disk_delete_all(disk); break;
	case OP_GEOM: {
		if (!pp) break;
		i64 s = sp->s, e = sp->e, L = e - s + 1, d = st->a[2];
		switch (st->a[1]) {
		case 0: e = s + L * (d % 1024) / 1024; break;           /* shrink */
		case 1: e = e + d; break;
		case 2: s = s - d; break;
		case 3: s = s + L * (d % 1024) / 1024; break;
		case 4: s += d; e += d; break;                           /* move */
		case 5: s = s + L * (d % 512) / 1024; e = e - L * (d % 300) / 1024; break;
		}
		if (s < 0) s = 0;
		if (s >= pre->len) s = pre->len - 1;
		if (e >= pre->len) e = pre->len - 1;
		if (e < s) e = s;
		o->ws = s; o->we = e;
		c = mk_constraint((int)st->a[4], s, e, 40);
		if (c) { cons_save(&k, c); havek = 1; rc = ped_disk_set_partition_geom(disk, pp, c, s, e); }
		fr = FR_ONE;
		break;
	}
	case OP_MAX:
		if (!pp) break;
		c = mk_constraint(st->a[4] ? (int)st->a[4] : 5, sp->s, sp->e, 100);
		if (c) { cons_save(&k, c); havek = 1; rc = ped_disk_maximize_partition(disk, pp, c); }
		fr = FR_ONE;
		break;
	case OP_MINEXT:
		if (!pre) break;
		for (int i = 0; i < pre->np; i++) if (pre->p[i].type & PED_PARTITION_EXTENDED) reqnum = pre->p[i].num;
		rc = ped_disk_minimize_extended_partition(disk); fr = FR_ONE;
		break;
	case OP_FLAG: {
		if (!pp) break;
		int av[32], n = 0;
		for (int f = 1; f < 32; f++) if (sp->avail >> f & stored_flags(pre->label) >> f & 1) av[n++] = f;
		if (!n) break;
		int f = av[(u64)st->a[1] % (u64)n];
		o->x[0] = f; o->x[1] = st->a[2];
		rc = ped_partition_set_flag(pp, f, (int)st->a[2]); fr = FR_ONE;
		if ((exclusive_flags(pre->label) >> f & 1) && st->a[2]) xfl = 1u << f;
		break;
	}
	case OP_NAME:
		if (!pp || !(pre->feat & PED_DISK_TYPE_PARTITION_NAME)) break;
		rc = ped_partition_set_name(pp, st->s); fr = FR_ONE;
		snprintf(o->str, sizeof o->str, "%s", st->s);
		break;
	case OP_SYSTEM: {
		const PedFileSystemType *t = ped_file_system_type_get(st->s);
		if (!pp || !t || (sp->type & PED_PARTITION_EXTENDED)) break;
		rc = ped_partition_set_system(pp, t); fr = FR_ONE;
		break;
	}
	case OP_TYPEID:
		if ((st->a[1] & 255) == 0xee) break;        /* makes the device look like one with a GPT */
		if (!pp || !(pre->feat & PED_DISK_TYPE_PARTITION_TYPE_ID)) break;
		rc = ped_partition_set_type_id(pp, (uint8_t)st->a[1]); o->x[0] = st->a[1] & 255; fr = FR_ONE;
		break;
	case OP_TYPEUUID: {
		if (!pp || !(pre->feat & PED_DISK_TYPE_PARTITION_TYPE_UUID)) break;
		uint8_t u[16]; Rng r = { (u64)st->a[1] }; for (int i = 0; i < 16; i++) u[i] = (u8)rng_next(&r);
		rc = ped_partition_set_type_uuid(pp, u); fr = FR_ONE;
		break;
	}
	case OP_DISKFLAG: {
		if (!pre) break;
		int av[32], n = 0;
		for (int f = 1; f < 31; f++) if (pre->davail >> f & 1) av[n++] = f;
		if (!n) break;
		int f = av[(u64)st->a[0] % (u64)n];
		o->x[0] = f; o->x[1] = st->a[1];
		rc = ped_disk_set_flag(disk, f, (int)st->a[1]);
		break;
	}
	case OP_DUP: case OP_DUPMUT: {
		if (!disk) break;
		PedDisk *d2 = ped_disk_duplicate(disk);
		rc = d2 != NULL;
		if (!d2) { if (!W->io_err_ev[EV_ALLOC]) viol("C10", "duplicating a %s disk failed: %s", pre->label, R->nexc ? R->exc[R->nexc - 1].msg : ""); fr = FR_SAME; break; }
		if (R->nsnap < MAXSNAP && pre) {
			Snap *t = &R->snap[R->nsnap]; snap_disk(d2, t);
			snap_valid(pre, m, sizeof m);
			if (snap_cmp(pre, t, SC_FS | (m[0] ? 0 : SC_REGIONS), m, sizeof m)) viol("C10", "the duplicate differs from the original: %s [label %s]", m, pre->label);
		}
		if (d2->needs_clobber != disk->needs_clobber) viol("C10", "the duplicate's pending-clobber state differs [label %s]", disk->type->name);
		if (st->op == OP_DUPMUT) { dup_mutate(d2); ped_disk_destroy(d2); fr = FR_SAME; }
		else { ped_disk_destroy(disk); disk = d2; fr = FR_SAME; }
		break;
	}
	case OP_COMMIT: if (!disk) break; W->cur_commit = cur_rec; rc = ped_disk_commit(disk); W->cur_commit = -1; fr = FR_SAME; break;
	case OP_COMMITDEV: if (!disk) break; W->cur_commit = cur_rec; rc = ped_disk_commit_to_dev(disk); W->cur_commit = -1; fr = FR_SAME; break;
	case OP_COMMITOS: if (!disk) break; rc = ped_disk_commit_to_os(disk); fr = FR_SAME;
		if (W->nlog != o->log0 && CK(CK_CONTENT)) for (int i = o->log0; i < W->nlog; i++) if (W->log[i].kind == LW_WRITE) { viol("C03", "telling the kernel about the table wrote to the device"); break; }
		break;
	case OP_RELOAD: {
		if (disk) ped_disk_destroy(disk);
		disk = ped_disk_new(dev); rc = disk != NULL; o->pre = -1; pre = NULL; gone = 1;
		break;
	}
	case OP_CLOBBER: rc = ped_disk_clobber(dev); break;
	case OP_EXTACC:
		rc = ped_device_open(dev);
		if (rc) { rc = ped_device_begin_external_access(dev); if (rc) rc = ped_device_end_external_access(dev);
			if (!rc && dev->external_mode) { dev->external_mode = 0; }
			ped_device_close(dev); }
		break;
	case OP_CHECK: if (!disk) break; rc = ped_disk_check(disk); fr = FR_SAME; break;
	case OP_PROBE: {
		PedDiskType *t = ped_disk_probe(dev);
		snprintf(o->str, sizeof o->str, "%s", t ? t->name : "");
		rc = t != NULL;
		if (disk) for (PedPartition *p = ped_disk_next_partition(disk, NULL); p; p = ped_disk_next_partition(disk, p))
			if (ped_partition_is_active(p)) ped_file_system_probe(&p->geom);
		fr = FR_SAME;
		break;
	}
	case OP_RAWREAD: {
		i64 s = (i64)((__int128)dev->length * st->a[0] / 1024), n = 1 + st->a[1] % 24;
		if (s + n > dev->length) n = dev->length - s;
		if (st->a[2] & 1) s = (s | 1) + n <= dev->length ? (s | 1) : s;
		if (n < 1 || !ped_device_open(dev)) break;
		u8 *b = malloc((size_t)(n * dev->sector_size)), *w = malloc((size_t)(n * dev->sector_size));
		memset(b, 0x5a, (size_t)(n * dev->sector_size));
		rc = ped_device_read(dev, b, s, n);
		dev_peek(0, (u64)(s * dev->sector_size), w, (u64)(n * dev->sector_size));
		if (rc && !o->ign && memcmp(b, w, (size_t)(n * dev->sector_size))) viol("C05", "a read of %lld sectors at %lld reported success but returned wrong data", (long long)n, (long long)s);
		free(b); free(w); ped_device_close(dev);
		break;
	}
	case OP_RAWWRITE: {
		i64 s = (i64)((__int128)dev->length * st->a[0] / 1024), n = 1 + st->a[1] % 24;
		if (s + n > dev->length) n = dev->length - s;
		if (n < 1 || !ped_device_open(dev)) break;
		size_t bytes = (size_t)(n * dev->sector_size);
		u8 *b = malloc(bytes), *w = malloc(bytes);
		Rng r = { (u64)st->a[2] }; for (size_t i = 0; i < bytes; i++) b[i] = (u8)rng_next(&r);
		int l0 = W->nlog; (void)l0;
		rc = ped_device_write(dev, b, s, n);
		dev_peek(0, (u64)(s * dev->sector_size), w, bytes);
		if (rc && !o->ign && memcmp(b, w, bytes)) viol("C05", "a write of %lld sectors at %lld reported success but the device holds other data", (long long)n, (long long)s);
		if (st->a[3]) {
			int e0 = W->io_err_ev[EV_FSYNC];
			int sr = st->a[3] == 1 ? ped_device_sync(dev) : ped_device_sync_fast(dev);
			if (sr && !o->ign) {
				int last = -1; for (int i = l0; i < W->nlog; i++) if (W->log[i].kind == LW_FLUSH) last = i;
				for (int i = last + 1; i < W->nlog; i++) if (W->log[i].kind == LW_WRITE && i >= l0) { viol("C05", "sync reported success but the device was not flushed"); break; }
			}
			(void)e0;
			rc = rc && sr;
		}
		free(b); free(w); ped_device_close(dev);
		break;
	}
	case OP_SYNC: if (!ped_device_open(dev)) break; rc = ped_device_sync(dev); ped_device_close(dev); break;
	case OP_OPENCLOSE: rc = ped_device_open(dev); if (rc) ped_device_close(dev); break;
	case OP_DISKCHECK: {
		if (!ped_device_open(dev)) break;
		i64 cnt = 1 + st->a[1] % 64, s = (i64)((__int128)dev->length * st->a[0] / 1024);
		if (s + cnt > dev->length) cnt = dev->length - s;
		u8 *buf = malloc((size_t)(cnt * dev->sector_size + 4096));
		i64 bad = ped_device_check(dev, buf, s, cnt);
		o->x[0] = bad; rc = 1;
		free(buf); ped_device_close(dev);
		break;
	}
	}
	rec_end(o, rc);
	if (disk) { o->post = take(); R->extra[0] = o->post; }
	Snap *post = o->post >= 0 ? &R->snap[o->post] : NULL;
	if (W->trace) { fprintf(stderr, "  OP %d %s rc=%d part=%d want=%lld..%lld x=%lld,%lld s='%s'\n", idx, opname(st->op), rc, reqnum, (long long)o->ws, (long long)o->we, (long long)o->x[0], (long long)o->x[1], st->s); if (post) snap_print(stderr, post); }
	int boring = W->io_err_seen > 0;
	post_checks(o, gone);
	if (dev && dev->open_count != oc0 && CK(CK_FD)) viol("C19", "%s (%s) left the device opened %d times instead of %d", opname(st->op), rc ? "succeeded" : "failed", dev->open_count, oc0);
	if (dev && dev->open_count == 0 && sim_count_open() && CK(CK_FD)) viol("C19", "%s left %d descriptors open on a closed device", opname(st->op), sim_count_open());
	(void)boring;
	if (pre && post && rc && CK(CK_MODEL)) {
		const char *P = "C18";
		if (fr == FR_SAME && st->op != OP_DUP) { if (snap_cmp(pre, post, SC_FS, m, sizeof m)) viol(st->op == OP_DUPMUT ? "C10" : P, "%s changed the table: %s [label %s]", opname(st->op), m, pre->label); }
		if (fr == FR_ONE && !frame_ok(pre, post, reqnum, xfl, m, sizeof m)) viol(P, "%s on partition %d: %s [label %s]", opname(st->op), reqnum, m, pre->label);
		if (fr == FR_DEL) {
			if (!(sp->type & PED_PARTITION_EXTENDED) && !frame_ok(pre, post, reqnum, 0, m, sizeof m)) viol(P, "deleting partition %d: %s [label %s]", reqnum, m, pre->label);
			int gonep = 1; for (int i = 0; i < post->np; i++) if (post->p[i].s == sp->s && post->p[i].e == sp->e && post->p[i].type == sp->type) gonep = 0;
			if (!gonep) viol(P, "partition %d is still there after being deleted [label %s]", reqnum, pre->label);
			int wantn = pre->np - 1;
			if (sp->type & PED_PARTITION_EXTENDED) for (int i = 0; i < pre->np; i++) if (pre->p[i].type & PED_PARTITION_LOGICAL) wantn--;
			if (post->np != wantn) viol(P, "deleting partition %d left %d partitions instead of %d [label %s]", reqnum, post->np, wantn, pre->label);
			if (!strcmp(pre->label, "msdos")) for (int i = 0; i < pre->np; i++) {
				if (!(pre->p[i].type & PED_PARTITION_LOGICAL) || pre->p[i].num == reqnum || !(sp->type & PED_PARTITION_LOGICAL)) continue;
				int wn = pre->p[i].num > reqnum ? pre->p[i].num - 1 : pre->p[i].num;
				for (int j = 0; j < post->np; j++) if (post->p[j].s == pre->p[i].s && post->p[j].e == pre->p[i].e && (post->p[j].type & PED_PARTITION_LOGICAL) && post->p[j].num != wn)
					viol(P, "logical partition %d became %d instead of %d when %d was removed", pre->p[i].num, post->p[j].num, wn, reqnum);
			}
		}
		if (fr == FR_ADD) {
			if (!frame_ok(pre, post, -1, 0, m, sizeof m)) viol(P, "adding a partition: %s [label %s]", m, pre->label);
			if (post->np != pre->np + 1) viol(P, "adding one partition changed the count from %d to %d [label %s]", pre->np, post->np, pre->label);
			SPart *q = snap_find(post, addnum);
			int pt = st->a[3] == 1 ? PED_PARTITION_LOGICAL : st->a[3] == 2 ? PED_PARTITION_EXTENDED : 0;
			if (!q) viol(P, "the added partition has no number [label %s]", pre->label);
			else {
				if (q->type != pt) viol(P, "the added partition has type %d instead of %d", q->type, pt);
				if (havek && !cons_ok(&k.c, q->s, q->e, m, sizeof m)) viol("C08", "added partition: %s [label %s]", m, pre->label);
				if (st->a[4] == 0 && (q->s != o->ws || q->e != o->we)) viol(P, "exact geometry %lld..%lld requested, got %lld..%lld", (long long)o->ws, (long long)o->we, (long long)q->s, (long long)q->e);
			}
		}
		if (st->op == OP_GEOM || st->op == OP_MAX) {
			SPart *q = snap_find(post, reqnum);
			if (!q && orderdep(pre, sp)) { for (int i = 0; i < post->np; i++) if (!snap_find(pre, post->p[i].num)) q = &post->p[i]; }
			else if (q) {
				if (havek && !cons_ok(&k.c, q->s, q->e, m, sizeof m)) viol("C08", "%s: %s [label %s]", opname(st->op), m, pre->label);
				if (st->op == OP_GEOM && st->a[4] == 0 && (q->s != o->ws || q->e != o->we) && !orderdep(pre, sp)) viol(P, "exact geometry %lld..%lld requested, got %lld..%lld", (long long)o->ws, (long long)o->we, (long long)q->s, (long long)q->e);
				if (st->op == OP_MAX && !st->a[4] && (snap_valid(pre, m, sizeof m), !m[0]) && !(pre->dflags >> PED_DISK_CYLINDER_ALIGNMENT & 1) && strcmp(pre->label, "sun") && strcmp(pre->label, "pc98") && strcmp(pre->label, "amiga") && (q->s > sp->s || q->e < sp->e) && !orderdep(pre, sp)) viol(P, "maximize shrank the partition");
				if (strcmp(q->name, sp->name) || q->flags != sp->flags || q->tid != sp->tid || memcmp(q->uuid, sp->uuid, 16) || memcmp(q->tuuid, sp->tuuid, 16)) viol(P, "%s changed another attribute of the partition [label %s]", opname(st->op), pre->label);
			}
		}
		if (st->op == OP_FLAG) {
			SPart *q = snap_find(post, reqnum);
			if (q) {
				/* clearing a GPT type flag returns the type to the default of the file system, which may be the same */
				int dflt = (!strcmp(pre->label, "gpt") || !strcmp(pre->label, "msdos")) && !o->x[1] && ((o->x[0] == PED_PARTITION_SWAP && !strncmp(sp->fs, "linux-swap", 10)) || (o->x[0] == PED_PARTITION_MSFT_DATA && (!strncmp(sp->fs, "fat", 3) || !strncmp(sp->fs, "ntfs", 4) || !strncmp(sp->fs, "udf", 3))));
				if ((q->flags >> o->x[0] & 1) != (u32)(o->x[1] != 0) && !dflt) viol(P, "setting flag %s to %d succeeded but it reads %d [label %s]", ped_partition_flag_get_name((int)o->x[0]), (int)o->x[1], q->flags >> o->x[0] & 1, pre->label);
				if (q->s != sp->s || q->e != sp->e || strcmp(q->name, sp->name) || memcmp(q->uuid, sp->uuid, 16) || q->num != sp->num) viol(P, "setting a flag changed another attribute [label %s]", pre->label);
			}
		}
		if (st->op == OP_TYPEID) {
			SPart *q = snap_find(post, reqnum);
			if (q && q->tid != o->x[0]) viol(P, "type id %02x set, reads %02x [label %s]", (int)o->x[0], q->tid, pre->label);
			if (q && (q->s != sp->s || q->e != sp->e || strcmp(q->name, sp->name))) viol(P, "setting the type id changed another attribute");
		}
		if (st->op == OP_TYPEUUID) {
			SPart *q = snap_find(post, reqnum);
			Rng r = { (u64)st->a[1] }; int bad = 0;
			if (q) for (int i = 0; i < 16; i++) if (q->tuuid[i] != (u8)rng_next(&r)) bad = 1;
			if (bad) viol(P, "type uuid set but reads back differently");
			if (q && (q->s != sp->s || q->e != sp->e || strcmp(q->name, sp->name) || memcmp(q->uuid, sp->uuid, 16))) viol(P, "setting the type uuid changed another attribute");
		}
		if (st->op == OP_SYSTEM) {
			SPart *q = snap_find(post, reqnum);
			if (q && (q->s != sp->s || q->e != sp->e || strcmp(q->name, sp->name) || memcmp(q->uuid, sp->uuid, 16))) viol(P, "setting the file system type changed another attribute [label %s]", pre->label);
			const PedFileSystemType *ft = ped_file_system_type_get(st->s);
			if (q && ft && strcmp(q->fs, ft->name)) viol(P, "file system type %s set, reads %s [label %s]", st->s, q->fs, pre->label);
		}
		if (st->op == OP_NAME) {
			SPart *q = snap_find(post, reqnum);
			int warned = 0; for (int i = o->nexc0; i < R->nexc; i++) if (strstr(R->exc[i].msg, "partition name") || strstr(R->exc[i].msg, "Changing the name")) warned = 1;
			if (q) {
				int flagname = !strcmp(pre->label, "mac") && (sp->flags & (1u << PED_PARTITION_SWAP | 1u << PED_PARTITION_ROOT));   /* these flags are names */
				if (!warned && !flagname && !(o->errs && W->io_err_ev[EV_ALLOC])) if (strncmp(q->name, st->s, strlen(q->name)) || (strlen(st->s) <= (size_t)(!strcmp(pre->label, "gpt") ? 36 : !strcmp(pre->label, "mac") ? 31 : !strcmp(pre->label, "pc98") ? 16 : !strcmp(pre->label, "amiga") ? 31 : 8) && strcmp(q->name, st->s)))
					viol(P, "name '%s' set, reads '%.60s' [label %s]", st->s, q->name, pre->label);
				if (q->s != sp->s || q->e != sp->e || q->flags != sp->flags || memcmp(q->uuid, sp->uuid, 16) || memcmp(q->tuuid, sp->tuuid, 16) || q->tid != sp->tid) viol(P, "setting the name changed another attribute [label %s]", pre->label);
			}
		}
		if (st->op == OP_DISKFLAG) {
			if ((post->dflags >> o->x[0] & 1) != (o->x[1] != 0)) viol(P, "disk flag %d set to %d but reads %d", (int)o->x[0], (int)o->x[1], post->dflags >> o->x[0] & 1);
			Snap *t = &R->snap[o->post]; int sv = t->dflags; t->dflags = pre->dflags;
			if (!frame_ok(pre, post, -1, 0, m, sizeof m)) viol(P, "setting a disk flag: %s", m);
			t->dflags = sv;
		}
	}
	if (c) ped_constraint_destroy(c);
	/* a system type given to a new partition is stored by a second call, as every front end does */
	if (st->op == OP_ADD && rc && np && st->s[0] && np->type != PED_PARTITION_EXTENDED) {
		const PedFileSystemType *t = ped_file_system_type_get(st->s);
		if (t && ped_partition_set_system(np, t)) { if (R->nsnap < MAXSNAP) { o->post = take(); R->extra[0] = o->post; if (CK(CK_VALID) && o->post >= 0) { snap_valid(&R->snap[o->post], m, sizeof m); if (m[0]) viol("C08", "after set_system: %s", m); } } }
	}
}

void api_session(void *arg)
{
	S = arg;
	api_set_handler(S->policy, CP->seed ^ (u64)(S - CP->ses) * 7777);
	int di = (int)(S->a[0] % (W->ndev ? W->ndev : 1));
	OpRec *o = rec_begin(-1, OP_GETDEV);
	R->extra[0] = -1;
	dev = ped_device_get(W->dev[di].path);
	rec_end(o, dev != NULL);
	if (!dev) { goto end; }
	int held = 0;
	if (S->a[1] & 1) held = ped_device_open(dev);
	if (!(S->a[1] & 2)) {
		Step st = { OP_RELOAD };
		do_step(-1, &st);
	}
	for (int i = 0; i < S->nst; i++) do_step(i, &S->st[i]);
	o = rec_begin(-1, OP_DONE);
	if (disk) ped_disk_destroy(disk);
	if (held) ped_device_close(dev);
	int oc = dev->open_count;
	if (oc && CP->checks & CK_FD) viol("C19", "at the end of the session the device is still opened %d times", oc);
	if (!oc) ped_device_destroy(dev);
	if (o) rec_end(o, 1);
end:
	cur_rec = -1;
	if (sim_count_open() && CP->checks & CK_FD) viol("C19", "%d descriptors still open at the end of the session", sim_count_open());
	R->completed = 1;
}
