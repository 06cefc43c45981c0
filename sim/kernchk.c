/* Oracles about the kernel's view: in-use partitions, what a commit or
   partprobe tells the kernel, and what they must leave alone. */
#include "h.h"
#include <parted/parted.h>

extern Plan *CP;
void kernel_expect_check(int dev, const Snap *s, const char *ctx);
int read_disk2(int dev, Snap *a, Snap *b);
int table_empty_ok(int dev);

static const KPart *kfind(const SimDev *d, int num) { for (int i = 0; i < d->nkp; i++) if (d->kp[i].num == num) return &d->kp[i]; return NULL; }
static int exc_has(const char *w) { int n = 0; for (int i = 0; i < R->nexc; i++) if (strstr(R->exc[i].msg, w)) n++; return n; }
static int kernel_cannot(const SimDev *d) { return d->type == DT_FILE || d->ext_range == 0 || d->ext_range == 1; }

/* the kernel did not answer some question */
static int query_fault(void) { for (int i = 0; i < W->nfault; i++) if (W->fault[i].fired && W->fault[i].action != FA_ACTOR) return 1; return 0; }

/* what the session did to the kernel's partitions; b: devices before it */
void kern_session_check(Session *s, int di, const SimDev *bdev, const Snap *was, int was_known, const char *ctx)
{
	const SimDev *b = &bdev[di], *a = &W->dev[di];
	if (a->type == DT_FILE) return;
	int ncommit = 0, nok = 0; const Snap *fin = NULL;
	for (int i = 0; i < R->nop; i++) if (R->op[i].op == OP_COMMIT || R->op[i].op == OP_COMMITOS) { ncommit++; if (R->op[i].rc) nok++; if (R->op[i].pre >= 0) fin = &R->snap[R->op[i].pre]; }
	int ended = R->status == 77 || R->sig || R->hang;
	/* nothing was committed: the kernel's table is as it was */
	if (s->kind != SK_PARTPROBE && !ncommit && W->kchanges && !ended) pviol("C06", "%s changed the kernel's partitions (%llu changes) although nothing was committed", ctx, (unsigned long long)W->kchanges);
	if (s->kind == SK_PARTPROBE && (s->a[0] & 1) && W->kchanges) pviol("C06", "%s: a dry run of partprobe changed the kernel's partitions", ctx);
	if (s->kind == SK_PARTPROBE) {
		static Snap t, t2; fin = NULL;
		for (int i = 0; i < W->nfault; i++) if (W->fault[i].ev == EV_READ || ((W->fault[i].ev == EV_IOCTL || W->fault[i].ev == EV_STAT || W->fault[i].ev == EV_SYSFS || W->fault[i].ev == EV_OPEN) && W->fault[i].fired)) return;   /* e.g. the sector size is not known */
		int st = 9; read_disk(di, 6, &t, &st); (void)t2;
		if (st == 0) { fin = &t; if (t.trunc) return; }
		/* without a device argument, loop and most device-mapper devices are left alone */
		if (st == 0 && R->status == 0 && !ended && !(s->a[0] & 1) && !((s->a[0] & 4) && (a->type == DT_LOOP || a->type == DT_DM)) && !exc_has("unable to inform")) { kernel_expect_check(di, &t, ctx); NT_hit(); }
		if (st == 0 && R->status == 0 && (s->a[0] & 2) && !(s->a[0] & 4) && R->outlen < OUTSZ - 2) {
			char w[1500]; int l = snprintf(w, sizeof w, "%s: %s partitions", a->path, t.label);
			for (int i = 0; i < t.np; i++) if (!(t.p[i].type & PED_PARTITION_LOGICAL)) {
				l += snprintf(w + l, sizeof w - (size_t)l, " %d", t.p[i].num);
				if (t.p[i].type & PED_PARTITION_EXTENDED) {
					int first = 1; l += snprintf(w + l, sizeof w - (size_t)l, " <");
					for (int j = 0; j < t.np; j++) if (t.p[j].type & PED_PARTITION_LOGICAL) { l += snprintf(w + l, sizeof w - (size_t)l, "%s%d", first ? "" : " ", t.p[j].num); first = 0; }
					l += snprintf(w + l, sizeof w - (size_t)l, ">");
				}
			}
			snprintf(w + l, sizeof w - (size_t)l, "\n");
			if (strcmp(w, R->out)) pviol("C16", "%s: partprobe prints '%.100s' instead of '%.100s'", ctx, R->out, w);
		}
	}
	/* a partition that the table has before and after is not taken away in between */
	/* (unless the kernel tells neither way where a partition starts) */
	if ((ncommit == 1 || s->kind == SK_PARTPROBE) && fin && !ended && strcmp(fin->label, "loop") && (b->have_sysfs_parts || b->have_geo) && !query_fault())
		for (int i = 0; i < b->nkp; i++) {
			const KPart *k = &b->kp[i], *n = kfind(a, k->num);
			const SPart *p = snap_find(fin, k->num);
			if (!p || p->type & PED_PARTITION_EXTENDED || (u64)p->s * (u64)b->lss != k->start || (u64)(p->e - p->s + 1) * (u64)b->lss != k->len) continue;
			if (p->num >= (b->ext_range > 1 ? b->ext_range : 256)) continue;
			if (!n || n->uid != k->uid) pviol("C06", "%s removed partition %d from the kernel, which the table keeps unchanged", ctx, k->num);
		}
	/* one short use by someone else does not make it fail */
	int only = W->nfault > 0; u64 dur = 0;
	for (int i = 0; i < W->nfault; i++) { if (W->fault[i].action != FA_ACTOR || (W->fault[i].arg & 255) != AC_TRANSIENT) only = 0; else if (W->fault[i].fired) dur += (u64)(W->fault[i].arg2 >> 16); }
	int held = 0; for (int i = 0; i < b->nkp; i++) if (b->kp[i].mounted || b->kp[i].held) held = 1;
	if (b->whole_mounted) held = 1;
	for (int i = 0; i < CP->nses; i++) if (CP->ses[i].kind == SK_KERNEL) held = 1;   /* its uses may last longer */
	if (only && dur && dur <= 850000 && !held && exc_has("unable to inform") && b->have_blkpg_resize) pviol("C06", "%s: a partition was busy for %llu us only, but the kernel was not informed", ctx, (unsigned long long)dur);
	(void)was; (void)was_known; (void)nok;
	/* partitions somebody uses are what they were, but for a length the table was given */
	for (int i = 0; i < b->nkp; i++) if (b->kp[i].mounted || b->kp[i].held) {
		const KPart *k = &b->kp[i], *n = kfind(a, k->num);
		int um = 0; for (int j = 0; j < W->nfault; j++) if (W->fault[j].fired && W->fault[j].action == FA_ACTOR) um = 1;
		if (um) continue;      /* the user may have let go of it */
		if (!n) { pviol("C06", "%s: partition %d, which is in use, is gone from the kernel", ctx, k->num); continue; }
		if (n->start != k->start) { pviol("C06", "%s: partition %d, which is in use, was moved in the kernel", ctx, k->num); continue; }
		if (n->len != k->len) {
			int ok = 0; for (int j = 0; j < R->nsnap; j++) { const SPart *p = snap_find(&R->snap[j], k->num); if (p && (u64)(p->e - p->s + 1) * (u64)b->lss == n->len) ok = 1; if (p && p->type & PED_PARTITION_EXTENDED) ok = 1; }
			if (s->kind == SK_PARTPROBE) ok = 1;
			if (!ok) pviol("C06", "%s: partition %d, which is in use, changed its length in the kernel", ctx, k->num);
		}
	}
}

/* ------------------------------------------------------------------- C15 */
/* the table partition num is (or contains) one that the kernel says is in use */
static int in_use(const SimDev *b, const Snap *t, int num)
{
	const SPart *p = snap_find(t, num);
	if (!p) return 0;
	for (int i = 0; i < t->np; i++) {
		const SPart *q = &t->p[i];
		if (q != p && !((p->type & PED_PARTITION_EXTENDED) && (q->type & PED_PARTITION_LOGICAL))) continue;
		const KPart *k = kfind(b, q->num);
		if (k && k->mounted && k->start == (u64)q->s * (u64)b->lss) return 1;
	}
	return 0;
}
void busy_check(Session *s, int idx, const SimDev *bdev, const Snap *before, int known)
{
	int di = (int)((u64)s->a[2] % (u64)W->ndev), mode = (int)s->a[0], script = mode & CM_SCRIPT, inter = mode & CM_INTER;
	const SimDev *b = &bdev[di]; char ctx[60]; snprintf(ctx, sizeof ctx, "parted session %d", idx);
	int ended = R->status == 77 || R->sig || R->hang;
	if (ended || b->type == DT_FILE) return;
	for (int i = 0; i < W->nfault; i++) if (W->fault[i].action == FA_ACTOR) return;
	int nocommit = 1, conf = 0, need = 0, any = b->whole_mounted;
	for (int i = 0; i < b->nkp; i++) if (b->kp[i].mounted) any = 1;
	for (int i = 0; i < R->nexc; i++) if (strstr(R->exc[i].msg, "being used") && (R->exc[i].answer == PED_EXCEPTION_YES || R->exc[i].answer == PED_EXCEPTION_IGNORE)) conf++;
	int order[MAXSTEP], no = 0, ncom = 0;
	for (int i = 0; i < R->nreq; i++) { int op = R->req[i].op; if (R->req[i].issued && (op == OP_LABEL || op == OP_ADD || op == OP_DEL || op == OP_GEOM || op == OP_FLAG || op == OP_TOGGLE || op == OP_NAME || op == OP_TYPEID || op == OP_DISKFLAG)) order[no++] = i; }
	static Snap prev; prev = *before; int pk = known && before->ok;
	for (int k = 0; k < R->nop; k++) {
		OpRec *o = &R->op[k];
		if (o->op != OP_COMMIT) continue;
		nocommit = 0;
		int ri = inter ? o->step : ncom < no ? order[ncom] : -1; ncom++;
		if (o->pre < 0 || ri < 0) continue;
		typeof(R->req[0]) *q = &R->req[ri];
		int busy = 0;
		if (q->op == OP_LABEL) busy = any;
		else if ((q->op == OP_DEL || q->op == OP_GEOM) && pk && !q->fuzzed) busy = in_use(b, &prev, q->num);
		if (busy) { need++; if (conf < need) { pviol("C15", "%s: '%s' was carried out although %s is in use%s", ctx, q->line, q->op == OP_LABEL ? "the device" : "the partition", script ? "" : " and nobody confirmed it"); break; } }
		if (o->rc) { prev = R->snap[o->pre]; pk = 1; } else pk = 0;
	}
	/* a script that stops at the first refused command leaves everything alone */
	if (nocommit && W->kchanges) pviol("C15", "%s: the kernel's partitions were changed by a refused command", ctx);
	if (nocommit) for (int i = 0; i < W->nlog; i++) if (W->log[i].kind == LW_WRITE) { int fix = 0; for (int j = 0; j < R->nexc; j++) if (R->exc[j].answer & (PED_EXCEPTION_FIX | PED_EXCEPTION_YES | PED_EXCEPTION_OK)) fix = 1; if (!fix) pviol("C15", "%s: a refused command wrote to the device", ctx); break; }
	if (any || exc_has("being used")) NT_hit();
}
