/* Snapshots of a PedDisk through the public API, and comparisons of them. */
#include "h.h"
#include <stdarg.h>
#include <parted/parted.h>

SPart *snap_find(const Snap *s, int num)
{
	for (int i = 0; i < s->np; i++) if (s->p[i].num == num) return (SPart *)&s->p[i];
	return NULL;
}

int snap_rank(const Snap *s, int num) { int r = 1; for (int i = 0; i < s->np; i++) if (s->p[i].num < num) r++; return r; }
SPart *snap_place(const Snap *s, int rank) { for (int i = 0; i < s->np; i++) if (snap_rank(s, s->p[i].num) == rank) return (SPart *)&s->p[i]; return NULL; }
/* an empty name is stored as that of the file system type */
void pc98_name(char *n)
{
	static const char *const fs[] = { "ext2", "ext3", "ext4", "fat16", "fat32", "linux-swap", "linux-swap(v1)", "linux-swap(v0)", "linux-swap(new)", "linux-swap(old)", "ntfs", "xfs", "hfs", "hfs+", "hfsx", "reiserfs", "btrfs", "jfs", "udf", "ufs", "f2fs", "nilfs2" };
	for (size_t i = 0; i < sizeof fs / sizeof *fs; i++) if (!strcmp(n, fs[i])) n[0] = 0;
}

int snap_disk(void *dk, Snap *s)
{
	PedDisk *disk = dk;
	int save = sim_in_target; sim_in_target = 0;
	memset(s, 0, offsetof(Snap, p)); s->nr = 0;
	s->ok = 1;
	snprintf(s->label, sizeof s->label, "%s", disk->type->name);
	s->len = disk->dev->length; s->lss = (int)disk->dev->sector_size;
	s->feat = disk->type->features;
	int loop = !strcmp(s->label, "loop");
	for (PedDiskFlag f = ped_disk_flag_next(0); f; f = ped_disk_flag_next(f))
		if (ped_disk_is_flag_available(disk, f)) { s->davail |= 1 << f; if (ped_disk_get_flag(disk, f)) s->dflags |= 1 << f; }
	if (ped_disk_type_check_feature(disk->type, PED_DISK_TYPE_DISK_UUID)) {
		uint8_t *u = ped_disk_get_uuid(disk);
		if (u) { s->has_duuid = 1; memcpy(s->duuid, u, 16); free(u); }
	}
	s->maxprim = ped_disk_get_max_primary_partition_count(disk);
	s->lastnum = ped_disk_get_last_partition_num(disk);
	for (PedPartition *p = ped_disk_next_partition(disk, NULL); p; p = ped_disk_next_partition(disk, p)) {
		if (!ped_partition_is_active(p)) {
			if (s->nr < MAXREG) s->r[s->nr++] = (SReg){ p->type, p->geom.start, p->geom.end };
			else s->trunc = 1;
			continue;
		}
		if (s->np >= MAXSP) { s->trunc = 1; continue; }
		SPart *q = &s->p[s->np++];
		memset(q, 0, sizeof *q);
		q->num = p->num; q->type = p->type; q->s = p->geom.start; q->e = p->geom.end;
		if (p->fs_type) snprintf(q->fs, sizeof q->fs, "%s", p->fs_type->name);
		if (!loop || 1)
			for (PedPartitionFlag f = ped_partition_flag_next(0); f; f = ped_partition_flag_next(f)) {
				if (!ped_partition_is_flag_available(p, f)) continue;
				q->avail |= 1u << f;
				if (ped_partition_get_flag(p, f)) q->flags |= 1u << f;
			}
		if (!strcmp(s->label, "mac")) q->flags &= ~(1u << PED_PARTITION_ROOT | 1u << PED_PARTITION_SWAP);        /* a matter of the name */
		if (ped_disk_type_check_feature(disk->type, PED_DISK_TYPE_PARTITION_NAME)) {
			const char *n = ped_partition_get_name(p);
			if (n) { q->has_name = 1; snprintf(q->name, sizeof q->name, "%s", n); }
			if (!strcmp(s->label, "pc98")) pc98_name(q->name);
		}
		if (ped_disk_type_check_feature(disk->type, PED_DISK_TYPE_PARTITION_TYPE_ID)) { q->has_tid = 1; q->tid = ped_partition_get_type_id(p); }
		if (ped_disk_type_check_feature(disk->type, PED_DISK_TYPE_PARTITION_TYPE_UUID)) {
			uint8_t *u = ped_partition_get_type_uuid(p);
			if (u) { q->has_tuuid = 1; memcpy(q->tuuid, u, 16); free(u); }
		}
		if (ped_disk_type_check_feature(disk->type, PED_DISK_TYPE_PARTITION_UUID)) {
			uint8_t *u = ped_partition_get_uuid(p);
			if (u) { q->has_uuid = 1; memcpy(q->uuid, u, 16); free(u); }
		}
	}
	sim_in_target = save;
	return 1;
}

void snap_print(FILE *f, const Snap *s)
{
	fprintf(f, "label=%s len=%lld lss=%d dflags=%x np=%d\n", s->label, (long long)s->len, s->lss, s->dflags, s->np);
	for (int i = 0; i < s->np; i++) {
		const SPart *p = &s->p[i];
		fprintf(f, "  %d type=%d %lld..%lld flags=%x fs=%s name='%s' tid=%x\n", p->num, p->type, (long long)p->s, (long long)p->e, p->flags, p->fs, p->name, p->has_tid ? p->tid : -1);
	}
	for (int i = 0; i < s->nr; i++) fprintf(f, "  region type=%d %lld..%lld\n", s->r[i].type, (long long)s->r[i].s, (long long)s->r[i].e);
}

static int pcmp(const SPart *a, const SPart *b, int what, char *m, size_t n)
{
#define D(cond, fmt, ...) if (cond) { snprintf(m, n, "partition %d: " fmt, a->num, __VA_ARGS__); return 1; }
	if (!(what & SC_NONUM)) D(a->num != b->num, "number %d vs %d", a->num, b->num)
	D(a->type != b->type, "type %d vs %d", a->type, b->type)
	D(a->s != b->s || a->e != b->e, "%lld..%lld vs %lld..%lld", (long long)a->s, (long long)a->e, (long long)b->s, (long long)b->e)
	if (!(what & SC_NOFLAGS)) D(a->flags != b->flags, "flags %x vs %x", a->flags, b->flags)
	if (what & SC_FS) D(strcmp(a->fs, b->fs), "fs '%s' vs '%s'", a->fs, b->fs)
	if (!(what & SC_NONAME)) D(a->has_name != b->has_name || strcmp(a->name, b->name), "name '%.60s' vs '%.60s'", a->name, b->name)
	D(a->has_tid != b->has_tid || a->tid != b->tid, "type id %02x vs %02x", a->tid, b->tid)
	D(a->has_tuuid != b->has_tuuid || memcmp(a->tuuid, b->tuuid, 16), "type uuid differs (%02x%02x.. vs %02x%02x..)", a->tuuid[0], a->tuuid[1], b->tuuid[0], b->tuuid[1])
	D(a->has_uuid != b->has_uuid || memcmp(a->uuid, b->uuid, 16), "uuid differs (%02x%02x.. vs %02x%02x..)", a->uuid[0], a->uuid[1], b->uuid[0], b->uuid[1])
#undef D
	return 0;
}
int snap_cmp(const Snap *a, const Snap *b, int what, char *m, size_t n)
{
	m[0] = 0;
	if (a->ok != b->ok) { snprintf(m, n, "table %s vs %s", a->ok ? "present" : "absent", b->ok ? "present" : "absent"); return 1; }
	if (!a->ok) return 0;
	if (strcmp(a->label, b->label)) { snprintf(m, n, "label %s vs %s", a->label, b->label); return 1; }
	if (a->lss != b->lss) { snprintf(m, n, "sector size %d vs %d", a->lss, b->lss); return 1; }
	int dmask = (what & SC_STORED) ? ~(1 << PED_DISK_CYLINDER_ALIGNMENT) : ~0;
	if (!(what & SC_NOFLAGS) && (a->dflags ^ b->dflags) & dmask) { snprintf(m, n, "disk flags %x vs %x", a->dflags, b->dflags); return 1; }
	if (a->has_duuid != b->has_duuid || memcmp(a->duuid, b->duuid, 16)) { snprintf(m, n, "disk uuid differs"); return 1; }
	/* pair by geometry order independent: by number */
	if (a->np != b->np) {
		int l = snprintf(m, n, "%d vs %d partitions:", a->np, b->np);
		for (int k = 0; k < 2; k++) {
			const Snap *s = k ? b : a;
			for (int i = 0; i < s->np && i < 8; i++) l += snprintf(m + l, (size_t)l < n ? n - (size_t)l : 0, " %d:%lld-%lld", s->p[i].num, (long long)s->p[i].s, (long long)s->p[i].e);
			if (!k) l += snprintf(m + l, (size_t)l < n ? n - (size_t)l : 0, " vs");
		}
		return 1;
	}
	for (int i = 0; i < a->np; i++) {
		int place = (what & SC_STORED) && !strcmp(a->label, "amiga");        /* a place in a list is all that is stored */
		const SPart *q = place ? snap_place(b, snap_rank(a, a->p[i].num)) : (what & SC_NONUM) ? &b->p[i] : snap_find(b, a->p[i].num);
		if ((what & SC_STORED) && !strcmp(a->label, "atari")) { place = 1; q = NULL; for (int j = 0; j < b->np; j++) if (b->p[j].s == a->p[i].s && b->p[j].type == a->p[i].type) q = &b->p[j]; }
		if (!q) { snprintf(m, n, "partition %d (%lld..%lld) missing", a->p[i].num, (long long)a->p[i].s, (long long)a->p[i].e); return 1; }
		if (pcmp(&a->p[i], q, what | (place ? SC_NONUM : 0), m, n)) return 1;
	}
	if (what & SC_REGIONS) {
		if (a->nr != b->nr) { snprintf(m, n, "%d vs %d free/metadata regions", a->nr, b->nr); return 1; }
		for (int i = 0; i < a->nr; i++)
			if (memcmp(&a->r[i], &b->r[i], sizeof a->r[i])) { snprintf(m, n, "region %lld..%lld vs %lld..%lld", (long long)a->r[i].s, (long long)a->r[i].e, (long long)b->r[i].s, (long long)b->r[i].e); return 1; }
	}
	return 0;
}

/* Geometric validity, computed without the library. */
typedef struct { i64 s, e; int kind, num; } Iv;   /* kind 0 partition 1 free 2 metadata */
static int ivc(const void *a, const void *b) { const Iv *x = a, *y = b; return x->s < y->s ? -1 : x->s > y->s ? 1 : 0; }
void snap_valid(const Snap *s, char *m, size_t n)
{
	m[0] = 0;
	if (!s->ok || s->trunc) return;
	static Iv top[MAXSP + MAXREG], log[MAXSP + MAXREG];
	int nt = 0, nl = 0, next = 0; const SPart *ext = NULL;
	for (int i = 0; i < s->np; i++) {
		const SPart *p = &s->p[i];
		if (p->s < 0 || p->e >= s->len || p->e < p->s) { snprintf(m, n, "partition %d at %lld..%lld is not inside the device of %lld sectors", p->num, (long long)p->s, (long long)p->e, (long long)s->len); return; }
		if (p->type & PED_PARTITION_EXTENDED) { next++; ext = p; }
		int atari = !strcmp(s->label, "atari");        /* numbers the logical partitions among the others, and the extended one 0 */
		if (p->num < 1 && !(atari && p == ext && !p->num)) { snprintf(m, n, "active partition with number %d", p->num); return; }
		for (int j = 0; j < i; j++) if (s->p[j].num == p->num) { snprintf(m, n, "two partitions have number %d", p->num); return; }
		if (p->type & PED_PARTITION_LOGICAL) log[nl++] = (Iv){ p->s, p->e, 0, p->num };
		else top[nt++] = (Iv){ p->s, p->e, 0, p->num };
		if (!atari && !(p->type & PED_PARTITION_LOGICAL) && s->maxprim > 0 && p->num > s->maxprim) { snprintf(m, n, "primary partition has number %d above the limit %d", p->num, s->maxprim); return; }
		if (!atari && (p->type & PED_PARTITION_LOGICAL) && p->num <= s->maxprim) { snprintf(m, n, "logical partition has number %d", p->num); return; }
	}
	if (next > 1) { snprintf(m, n, "%d extended partitions", next); return; }
	if (nl && !ext) { snprintf(m, n, "logical partition without extended partition"); return; }
	for (int i = 0; i < s->nr; i++) {
		const SReg *r = &s->r[i];
		Iv v = { r->s, r->e, (r->type & PED_PARTITION_METADATA) ? 2 : 1, -1 };
		if (r->e < r->s || r->s < 0 || r->e >= s->len) { snprintf(m, n, "free/metadata region %lld..%lld outside the device", (long long)r->s, (long long)r->e); return; }
		if (r->type & PED_PARTITION_LOGICAL) log[nl++] = v; else top[nt++] = v;
	}
	for (int k = 0; k < 2; k++) {
		Iv *v = k ? log : top; int c = k ? nl : nt;
		i64 lo = 0, hi = s->len - 1;
		if (k) { if (!ext) continue; lo = ext->s; hi = ext->e; }
		qsort(v, (size_t)c, sizeof *v, ivc);
		for (int i = 0; i < c; i++) {
			if (v[i].s < lo || v[i].e > hi) { snprintf(m, n, "%s %d (%lld..%lld) outside the extended partition", v[i].kind ? "region" : "logical", v[i].num, (long long)v[i].s, (long long)v[i].e); return; }
			if (i && v[i].s <= v[i - 1].e) { snprintf(m, n, "%lld..%lld (part %d, kind %d) overlaps %lld..%lld (part %d, kind %d)", (long long)v[i-1].s, (long long)v[i-1].e, v[i-1].num, v[i-1].kind, (long long)v[i].s, (long long)v[i].e, v[i].num, v[i].kind); return; }
			i64 want = i ? v[i - 1].e + 1 : lo;
			if (v[i].s != want) { snprintf(m, n, "sectors %lld..%lld belong to no partition, free or metadata region", (long long)want, (long long)v[i].s - 1); return; }
		}
		if (c && v[c - 1].e != hi) { snprintf(m, n, "sectors %lld..%lld belong to no partition, free or metadata region", (long long)v[c - 1].e + 1, (long long)hi); return; }
	}
}

/* what may be asked of a table found on a device that something else wrote */
/* flags the format can keep (see the findings in DESIGN.md) */
u32 stored_flags(const char *label)
{
	if (!strcmp(label, "bsd") || !strcmp(label, "mac")) return 0;
	if (!strcmp(label, "pc98")) return 1u << PED_PARTITION_HIDDEN;      /* the file system decides about the other */
	if (!strcmp(label, "dvh")) return ~(1u << PED_PARTITION_BOOT);                /* kept by the name of the file */
	return ~0u;
}
void snap_valid_foreign(const Snap *s, char *m, size_t n)
{
	m[0] = 0;
	if (!s->ok || s->trunc) return;
	const SPart *ext = NULL;
	for (int i = 0; i < s->np; i++) if (s->p[i].type & PED_PARTITION_EXTENDED) ext = &s->p[i];
	for (int i = 0; i < s->np; i++) {
		const SPart *p = &s->p[i];
		if (p->s < 0 || p->e >= s->len || p->e < p->s) { snprintf(m, n, "partition %d at %lld..%lld is not inside the device of %lld sectors", p->num, (long long)p->s, (long long)p->e, (long long)s->len); return; }
		if (p->num < 1 && !(!p->num && p == ext && !strcmp(s->label, "atari"))) { snprintf(m, n, "active partition with number %d", p->num); return; }
		if ((p->type & PED_PARTITION_LOGICAL) && (!ext || p->s < ext->s || p->e > ext->e)) { snprintf(m, n, "logical partition %d outside the extended partition", p->num); return; }
		for (int j = 0; j < i; j++) {
			const SPart *q = &s->p[j];
			if (q->num == p->num) { snprintf(m, n, "two partitions have number %d", p->num); return; }
			if ((p == ext && (q->type & PED_PARTITION_LOGICAL)) || (q == ext && (p->type & PED_PARTITION_LOGICAL))) continue;
			if (p->s <= q->e && q->s <= p->e) { snprintf(m, n, "partitions %d (%lld..%lld) and %d (%lld..%lld) overlap", p->num, (long long)p->s, (long long)p->e, q->num, (long long)q->s, (long long)q->e); return; }
		}
	}
}

void viol(const char *prop, const char *fmt, ...)
{
	if (R->nviol >= 6) return;
	extern Plan *CP;
	if (strcmp(prop, CP->prop) && R->nviol >= 3) return;
	Viol *v = &R->v[R->nviol++];
	snprintf(v->prop, sizeof v->prop, "%s", prop);
	va_list ap; va_start(ap, fmt); vsnprintf(v->msg, sizeof v->msg, fmt, ap); va_end(ap);
}

static const char *names[OP_N] = { "", "label", "add", "del", "geom", "max", "minext", "flag", "name", "system", "typeid", "typeuuid",
	"diskflag", "dup", "dupmut", "commit", "commitdev", "commitos", "reload", "delall", "clobber", "extacc", "check", "probe", "rawread", "rawwrite",
	"sync", "openclose", "print", "unitprint", "getdev", "done", "fsopen", "fsresize", "list", "aligncheck", "help", "select", "quit", "rescue", "badcmd", "toggle", "probeall", "diskcheck" };
const char *opname(int op) { return op > 0 && op < OP_N ? names[op] : "?"; }
int opcode(const char *s) { for (int i = 1; i < OP_N; i++) if (!strcmp(names[i], s)) return i; return 0; }
