/* Oracles for sessions of the parted command line. */
#include "h.h"
#include <parted/parted.h>
#include <ctype.h>

extern Plan *CP;
int frame_ok(const Snap *a, const Snap *b, int skip, u32 fl, char *m, size_t n);
u32 sim_exclusive_flags(const char *l);

static int mutating(int op) { return op == OP_LABEL || op == OP_ADD || op == OP_DEL || op == OP_GEOM || op == OP_FLAG || op == OP_TOGGLE || op == OP_NAME || op == OP_TYPEID || op == OP_DISKFLAG; }

static void strip(Snap *s) { s->dflags &= ~(1 << PED_DISK_CYLINDER_ALIGNMENT); for (int i = 0; i < s->np; i++) s->p[i].fs[0] = 0; }
static int fsmatch(const char *want, const char *got)
{
	if (!strcmp(want, got)) return 1;
	const PedFileSystemType *t = ped_file_system_type_get(want);
	return t && !strcmp(t->name, got);
}
/* the table about to be written (c) is the table before (p) with request q carried out, and nothing else */
static void request_ok(const typeof(R->req[0]) *q, const Step *st, const Snap *p0, const Snap *c0, int warned, char *m, size_t n)
{
	static Snap p, c; p = *p0; c = *c0;
	static char fsn[20];
	m[0] = 0;
	if (q->fuzzed || (q->op != OP_LABEL && p.ok && strcmp(q->rlabel, p.label))) return;   /* other arguments than those were used */
	if (q->op == OP_LABEL) {
		if (strcmp(c.label, q->label)) snprintf(m, n, "a %s label was written instead of %s", c.label, q->label);
		else if (c.np > (!strcmp(c.label, "mac") || !strcmp(c.label, "dvh") || !strcmp(c.label, "loop"))) snprintf(m, n, "the new label has %d partitions", c.np);
		return;
	}
	if (!strcmp(c.label, "dvh") && (!p.ok || !strcmp(p.label, "dvh"))) {        /* one without a volume header is given one when it is read */
		int x = 0;
		for (int i = 0; p.ok && i < p.np; i++) if (p.p[i].type & PED_PARTITION_EXTENDED) x = 1;
		if (!x) return;
	}
	if (!p.ok) { snprintf(m, n, "a table was written where there was none before"); return; }
	if (strcmp(p.label, c.label)) { snprintf(m, n, "the label changed from %s to %s", p.label, c.label); return; }
	if (q->op == OP_ADD) {
		int nn = 0; SPart *a = NULL;
		for (int i = 0; i < c.np; i++) { int was = 0; for (int j = 0; j < p.np; j++) if (p.p[j].s == c.p[i].s && p.p[j].e == c.p[i].e && p.p[j].type == c.p[i].type) was = 1; if (!was) { nn++; a = &c.p[i]; } }
		if (nn != 1 || c.np != p.np + 1) { snprintf(m, n, "mkpart made %d new partitions, %d before and %d after", nn, p.np, c.np); return; }
		int wt = q->ptype == 1 ? PED_PARTITION_LOGICAL : q->ptype == 2 ? PED_PARTITION_EXTENDED : 0;
		snprintf(fsn, sizeof fsn, "%s", a->fs);
		if (a->type != wt) { snprintf(m, n, "mkpart made a partition of type %d instead of %d", a->type, wt); return; }
		if (q->s >= 0 && !warned && (a->s != q->s || a->e != q->e)) { snprintf(m, n, "mkpart of %lld..%lld made %lld..%lld", (long long)q->s, (long long)q->e, (long long)a->s, (long long)a->e); return; }
		if (!warned && strcmp(a->name, q->name) && (p.feat & PED_DISK_TYPE_PARTITION_NAME)) { snprintf(m, n, "mkpart with name '%s' made one named '%s'", q->name, a->name); return; }
		if (q->fs[0] && wt != PED_PARTITION_EXTENDED && !fsmatch(q->fs, fsn)) { snprintf(m, n, "mkpart with file system %s made one of %s", q->fs, fsn); return; }
		strip(&p); strip(&c);
		frame_ok(&p, &c, -1, 0, m, n);
		return;
	}
	static Snap pf; pf = p; (void)pf;
	strip(&p); strip(&c);
	if (q->op == OP_DISKFLAG) {
		if (q->flag != PED_DISK_CYLINDER_ALIGNMENT && (c.dflags >> q->flag & 1) != q->state) { snprintf(m, n, "disk flag %d is %d after setting it to %d", q->flag, c.dflags >> q->flag & 1, q->state); return; }
		c.dflags = p.dflags;
		frame_ok(&p, &c, -1, 0, m, n);
		return;
	}
	SPart *o = snap_find(&p, q->num), *w;
	if (!o) { snprintf(m, n, "partition %d was addressed, which does not exist", q->num); return; }
	if (q->op == OP_DEL) {
		int ext = o->type & PED_PARTITION_EXTENDED, want = p.np - 1;
		if (ext) for (int i = 0; i < p.np; i++) if (p.p[i].type & PED_PARTITION_LOGICAL) want--;
		for (int i = 0; i < c.np; i++) if (c.p[i].s == o->s && c.p[i].e == o->e && c.p[i].type == o->type) { snprintf(m, n, "partition %d is still there after rm", q->num); return; }
		if (c.np != want) { snprintf(m, n, "rm %d left %d of %d partitions", q->num, c.np, p.np); return; }
		if (ext) { int k = 0; for (int i = 0; i < p.np; i++) if (!(p.p[i].type & PED_PARTITION_LOGICAL)) p.p[k++] = p.p[i]; p.np = k; }
		frame_ok(&p, &c, q->num, 0, m, n);
		if (!m[0] && !strcmp(p.label, "msdos") && (o->type & PED_PARTITION_LOGICAL)) for (int i = 0; i < p.np; i++) if ((p.p[i].type & PED_PARTITION_LOGICAL) && p.p[i].num > q->num) {
			SPart *x = snap_find(&c, p.p[i].num - 1);
			if (!x || x->s != p.p[i].s) { snprintf(m, n, "logical partition %d did not become %d after rm %d", p.p[i].num, p.p[i].num - 1, q->num); return; }
		}
		return;
	}
	w = snap_find(&c, q->num);
	if (!w) { snprintf(m, n, "partition %d is gone", q->num); return; }
	if (c.np != p.np) { snprintf(m, n, "there are %d partitions instead of %d", c.np, p.np); return; }
	u32 xfl = 0; int geom = 0, flags = 0, name = 0, tid = 0, tuuid = 0;
	switch (q->op) {
	case OP_GEOM: geom = 1;
		if (w->s != o->s) { snprintf(m, n, "resizepart moved the start of partition %d from %lld to %lld", q->num, (long long)o->s, (long long)w->s); return; }
		if (w->e != q->e) { snprintf(m, n, "resizepart %d to %lld gave %lld", q->num, (long long)q->e, (long long)w->e); return; }
		break;
	case OP_FLAG: case OP_TOGGLE: flags = 1; tid = tuuid = 1;
		if (sim_exclusive_flags(p.label) >> q->flag & 1) xfl = 1u << q->flag;
		{ int want = q->op == OP_TOGGLE ? !(o->flags >> q->flag & 1) : q->state;
		  int dflt = (!strcmp(p.label, "gpt") || !strcmp(p.label, "msdos")) && !want && (q->flag == PED_PARTITION_SWAP || q->flag == PED_PARTITION_MSFT_DATA);
		  if ((int)(w->flags >> q->flag & 1) != want && !dflt) { snprintf(m, n, "flag %s of partition %d is not %s afterwards", ped_partition_flag_get_name(q->flag), q->num, want ? "on" : "off"); return; } }
		break;
	case OP_NAME: name = 1;
		if (!warned && !W->io_err_ev[EV_ALLOC] && strcmp(w->name, q->name) && (strcmp(p.label, "gpt") == 0 || strlen(q->name) <= 8)) { snprintf(m, n, "name of partition %d is '%s' instead of '%s'", q->num, w->name, q->name); return; }
		break;
	case OP_TYPEID: tid = tuuid = flags = 1;
		if (o->type & PED_PARTITION_EXTENDED) break;
		if (p.feat & PED_DISK_TYPE_PARTITION_TYPE_UUID) {
			Rng r = { (u64)st->a[1] }; u64 x = rng_next(&r); char want[40], got[40];
			snprintf(want, sizeof want, "%08x-1234-4321-8765-%012llx", (unsigned)(x >> 32), (unsigned long long)(x & 0xffffffffffffULL));
			const u8 *u = w->tuuid; int l = 0;
			for (int i = 0; i < 16; i++) l += sprintf(got + l, "%s%02x", i == 4 || i == 6 || i == 8 || i == 10 ? "-" : "", u[i]);
			if (strcmp(want, got)) { snprintf(m, n, "type of partition %d is %s instead of %s", q->num, got, want); return; }
		} else if (w->tid != q->state) { snprintf(m, n, "type of partition %d is %x instead of %x", q->num, w->tid, q->state); return; }
		break;
	}
	if (!geom && (w->s != o->s || w->e != o->e)) snprintf(m, n, "partition %d moved from %lld..%lld to %lld..%lld", q->num, (long long)o->s, (long long)o->e, (long long)w->s, (long long)w->e);
	else if (!flags && w->flags != o->flags) snprintf(m, n, "flags of partition %d changed from %x to %x", q->num, o->flags, w->flags);
	else if (!name && strcmp(w->name, o->name)) snprintf(m, n, "name of partition %d changed", q->num);
	else if (!tid && w->tid != o->tid) snprintf(m, n, "type id of partition %d changed from %x to %x", q->num, o->tid, w->tid);
	else if (!tuuid && memcmp(w->tuuid, o->tuuid, 16)) snprintf(m, n, "type of partition %d changed", q->num);
	else if (memcmp(w->uuid, o->uuid, 16)) snprintf(m, n, "uuid of partition %d changed", q->num);
	else frame_ok(&p, &c, q->num, xfl, m, n);
}

/* ------------------------------------------------------------ C16: output */
typedef struct { int num; char start[32], end[32], size[32], type[24], fs[24], name[200], flags[600], tid[12], tuuid[48], uuid[48]; int is_free; } Row;
typedef struct { char path[64], size[32], model[160], transport[24], label[24], flags[300], duuid[48]; long lss, pss, maxp; int nr; Row r[MAXSP + MAXREG]; } Listing;
static Listing L;

/* machine readable: one record per line, fields separated by ':', ended by ';' */
static int mfields(char *line, char f[][256], int max, char *m, size_t n)
{
	size_t l = strlen(line); int k = 0; size_t o = 0;
	if (!l || line[l - 1] != ';') { snprintf(m, n, "a machine-readable line does not end in ';': %.80s", line); return -1; }
	line[l - 1] = 0;
	for (char *c = line; ; c++) {
		if (*c == '\\' && c[1]) { c++; if (o < 255) f[k][o++] = *c == 'n' ? '\n' : *c; continue; }
		if (*c == ':' || !*c) { f[k][o] = 0; o = 0; k++; if (!*c) break; if (k >= max) { snprintf(m, n, "a machine-readable line has more than %d fields: %.80s", max, line); return -1; } continue; }
		if (o < 255) f[k][o++] = *c;
	}
	return k;
}
static int parse_machine(char *out, char *m, size_t n)
{
	memset(&L, 0, offsetof(Listing, r)); 
	static char f[12][256]; int stage = 0;
	for (char *save, *l = strtok_r(out, "\n", &save); l; l = strtok_r(NULL, "\n", &save)) {
		if (stage == 0) { if (strcmp(l, "BYT;")) { snprintf(m, n, "the first machine-readable line is '%.60s'", l); return 0; } stage = 1; continue; }
		int k = mfields(l, f, 9, m, n); if (k < 0) return 0;
		if (stage == 1) {
			if (k != 8) { snprintf(m, n, "the device record has %d fields instead of 8: %.100s", k, l); return 0; }
			snprintf(L.path, sizeof L.path, "%s", f[0]); snprintf(L.size, sizeof L.size, "%s", f[1]); snprintf(L.transport, sizeof L.transport, "%s", f[2]); L.lss = atol(f[3]); L.pss = atol(f[4]);
			snprintf(L.label, sizeof L.label, "%s", f[5]); snprintf(L.model, sizeof L.model, "%s", f[6]); snprintf(L.flags, sizeof L.flags, "%s", f[7]);
			stage = 2; continue;
		}
		Row *r = &L.r[L.nr]; memset(r, 0, sizeof *r);
		if (k == 5 && !strcmp(f[4], "free")) r->is_free = 1;
		else if (k != 7) { snprintf(m, n, "a partition record has %d fields instead of 7: %.100s", k, l); return 0; }
		r->num = atoi(f[0]); snprintf(r->start, sizeof r->start, "%s", f[1]); snprintf(r->end, sizeof r->end, "%s", f[2]); snprintf(r->size, sizeof r->size, "%s", f[3]);
		if (!r->is_free) { snprintf(r->fs, sizeof r->fs, "%s", f[4]); snprintf(r->name, sizeof r->name, "%.199s", f[5]); snprintf(r->flags, sizeof r->flags, "%s", f[6]); }
		L.nr++;
	}
	if (stage < 2) { snprintf(m, n, "the machine-readable listing is incomplete"); return 0; }
	return 1;
}
/* JSON */
static const char *J; static char jpath[200]; static char jerr[160];
static void jws(void) { while (*J == ' ' || *J == '\n' || *J == '\t' || *J == '\r') J++; }
static int jfail(const char *w) { if (!jerr[0]) snprintf(jerr, sizeof jerr, "%s at '%.40s'", w, J); return 0; }
static int jstring(char *o, size_t n)
{
	size_t k = 0;
	if (*J != '"') return jfail("string expected");
	J++;
	while (*J != '"') {
		unsigned char c = (unsigned char)*J;
		if (!c) return jfail("unterminated string");
		if (c < 0x20) return jfail("control character in a string");
		if (c == '\\') {
			J++;
			unsigned v = 0;
			switch (*J) {
			case '"': case '\\': case '/': v = (unsigned char)*J; break;
			case 'b': v = 8; break; case 'f': v = 12; break; case 'n': v = 10; break; case 'r': v = 13; break; case 't': v = 9; break;
			case 'u': for (int i = 1; i <= 4; i++) { if (!isxdigit((unsigned char)J[i])) return jfail("bad \\u escape"); v = v * 16 + (unsigned)(isdigit((unsigned char)J[i]) ? J[i] - '0' : (tolower(J[i]) - 'a' + 10)); } J += 4; break;
			default: return jfail("bad escape");
			}
			if (k + 1 < n) o[k++] = (char)v;
			J++;
			continue;
		}
		if (k + 1 < n) o[k++] = (char)c;
		J++;
	}
	J++; o[k] = 0;
	return 1;
}
static void jput(const char *path, const char *v)
{
#define S(p, f) if (!strcmp(path, p)) { snprintf(f, sizeof f, "%.*s", (int)sizeof f - 1, v); return; }
	Row *r = L.nr ? &L.r[L.nr - 1] : NULL;
	S(".disk.path", L.path) S(".disk.size", L.size) S(".disk.model", L.model) S(".disk.transport", L.transport) S(".disk.label", L.label) S(".disk.uuid", L.duuid)
	if (!strcmp(path, ".disk.logical-sector-size")) L.lss = atol(v);
	if (!strcmp(path, ".disk.physical-sector-size")) L.pss = atol(v);
	if (!strcmp(path, ".disk.max-partitions")) L.maxp = atol(v);
	if (!strcmp(path, ".disk.flags[]")) { size_t l = strlen(L.flags); snprintf(L.flags + l, sizeof L.flags - l, "%s%s", l ? ", " : "", v); return; }
	if (!r) return;
	if (!strcmp(path, ".disk.partitions[].number")) r->num = atoi(v);
	S(".disk.partitions[].start", r->start) S(".disk.partitions[].end", r->end) S(".disk.partitions[].size", r->size) S(".disk.partitions[].type", r->type) S(".disk.partitions[].type-id", r->tid)
	S(".disk.partitions[].type-uuid", r->tuuid) S(".disk.partitions[].uuid", r->uuid) S(".disk.partitions[].name", r->name) S(".disk.partitions[].filesystem", r->fs)
	if (!strcmp(path, ".disk.partitions[].flags[]")) { size_t l = strlen(r->flags); snprintf(r->flags + l, sizeof r->flags - l, "%s%s", l ? ", " : "", v); }
#undef S
}
static int jvalue(int depth)
{
	size_t pl = strlen(jpath);
	if (depth > 12) return jfail("too deep");
	jws();
	if (*J == '{') {
		J++; jws();
		if (!strcmp(jpath, ".disk.partitions[]") && L.nr < MAXSP + MAXREG) { memset(&L.r[L.nr], 0, sizeof(Row)); L.nr++; }
		if (*J == '}') { J++; return 1; }
		char seen[24][32]; int ns = 0;
		for (;;) {
			char k[64]; jws(); if (!jstring(k, sizeof k)) return 0;
			for (int i = 0; i < ns; i++) if (!strcmp(seen[i], k)) return jfail("duplicate key");
			if (ns < 24) snprintf(seen[ns++], 32, "%.31s", k);
			jws(); if (*J != ':') return jfail("':' expected");
			J++;
			snprintf(jpath + pl, sizeof jpath - pl, ".%s", k);
			int ok = jvalue(depth + 1); jpath[pl] = 0; if (!ok) return 0;
			jws(); if (*J == ',') { J++; continue; }
			if (*J == '}') { J++; return 1; }
			return jfail("',' or '}' expected");
		}
	}
	if (*J == '[') {
		J++; jws(); if (*J == ']') { J++; return 1; }
		for (;;) {
			snprintf(jpath + pl, sizeof jpath - pl, "[]");
			int ok = jvalue(depth + 1); jpath[pl] = 0; if (!ok) return 0;
			jws(); if (*J == ',') { J++; continue; }
			if (*J == ']') { J++; return 1; }
			return jfail("',' or ']' expected");
		}
	}
	if (*J == '"') { char v[700]; if (!jstring(v, sizeof v)) return 0; jput(jpath, v); return 1; }
	if (!strncmp(J, "true", 4)) { J += 4; return 1; }
	if (!strncmp(J, "false", 5)) { J += 5; return 1; }
	if (!strncmp(J, "null", 4)) { J += 4; return 1; }
	if (*J == '-' || isdigit((unsigned char)*J)) {
		char v[40]; int k = 0; if (*J == '-') v[k++] = *J++;
		if (!isdigit((unsigned char)*J)) return jfail("number expected");
		while (k < 38 && (isdigit((unsigned char)*J) || *J == '.')) v[k++] = *J++;
		v[k] = 0; jput(jpath, v); return 1;
	}
	return jfail("value expected");
}
static int parse_json(const char *out, char *m, size_t n)
{
	memset(&L, 0, offsetof(Listing, r)); jerr[0] = 0; jpath[0] = 0; J = out;
	if (!jvalue(0)) { snprintf(m, n, "not valid JSON: %s", jerr); return 0; }
	jws();
	if (*J) { snprintf(m, n, "text after the JSON document: %.60s", J); return 0; }
	return 1;
}
static int parse_human(char *out, char *m, size_t n)
{
	memset(&L, 0, offsetof(Listing, r)); int stage = 0; (void)m; (void)n;
	for (char *save, *l = strtok_r(out, "\n", &save); l; l = strtok_r(NULL, "\n", &save)) {
		if (stage == 0) {
			if (!strncmp(l, "Disk Flags: ", 12)) { snprintf(L.flags, sizeof L.flags, "%s", l + 12); continue; }
			if (!strncmp(l, "Disk /", 6)) { char *c = strrchr(l, ':'); if (c) { *c = 0; snprintf(L.path, sizeof L.path, "%s", l + 5); snprintf(L.size, sizeof L.size, "%s", c + 2); } continue; }
			if (!strncmp(l, "Partition Table: ", 17)) { snprintf(L.label, sizeof L.label, "%s", l + 17); continue; }
			sscanf(l, "Sector size (logical/physical): %ldB/%ldB", &L.lss, &L.pss);
			if (!strncmp(l, "Number  ", 8)) stage = 1;
			continue;
		}
		Row *r = &L.r[L.nr]; memset(r, 0, sizeof *r);
		char *p = l; while (*p == ' ') p++;
		if (!*p) continue;
		if (p - l > 3) r->is_free = 1; else { r->num = (int)strtol(p, &p, 10); }
		if (sscanf(p, "%31s %31s %31s", r->start, r->end, r->size) != 3) { snprintf(m, n, "cannot parse the row '%.80s'", l); return 0; }
		L.nr++;
	}
	return 1;
}
static void uuidstr(const u8 *u, char *o) { int l = 0; for (int i = 0; i < 16; i++) l += sprintf(o + l, "%s%02x", i == 4 || i == 6 || i == 8 || i == 10 ? "-" : "", u[i]); }
static void flagstr(u32 f, char *o, size_t n)
{
	o[0] = 0; PedPartitionFlag q = 0;
	while ((q = ped_partition_flag_next(q))) if (f >> q & 1) { size_t l = strlen(o); snprintf(o + l, n - l, "%s%s", l ? ", " : "", ped_partition_flag_get_name(q)); }
}
extern char reader_model[80]; extern int reader_pss;
int read_disk2(int dev, Snap *a, Snap *b);
static void print_ok(const Session *s, const char *ctx)
{
	static Snap T, T2; const Snap *t = &T;
	int rd = read_disk2((int)(s->a[2] % (W->ndev ? W->ndev : 1)), &T, &T2);
	if (rd < 0) return;
	static char buf[OUTSZ]; char m[300] = ""; int mode = (int)s->a[0];
	memcpy(buf, R->out, (size_t)R->outlen + 1);
	if (R->outlen >= OUTSZ - 2) return;
	if (strlen(buf) != (size_t)R->outlen) { pviol("C16", "%s: the listing contains a NUL byte", ctx); return; }
	int json = mode & CM_JSON, mach = !json && mode & CM_MACHINE, ok, freearg = 0, num = -1; const Step *ps = &s->st[s->nst - 1];
	if (ps->op == OP_PRINT) { int k = (int)(ps->a[1] % 6); freearg = k == 1; if (k == 5) num = 1; if (k > 1) return; }
	(void)num;
	if (!json && !mach) for (int i = 0; i < t->np; i++) if (strchr(t->p[i].name, '\n')) return;      /* people have to cope */
	ok = json ? parse_json(buf, m, sizeof m) : mach ? parse_machine(buf, m, sizeof m) : parse_human(buf, m, sizeof m);
	if (!ok) { pviol("C16", "%s: %s", ctx, m); return; }
	const SimDev *d = &W->dev[s->a[2] % (W->ndev ? W->ndev : 1)];
	char w[64];
	/* device */
	if (strcmp(L.path, d->path)) pviol("C16", "%s: path printed as '%s' instead of '%s'", ctx, L.path, d->path);
	snprintf(w, sizeof w, "%llds", (long long)(d->bytes / (u64)d->lss));
	if (strcmp(L.size, w)) pviol("C16", "%s: size printed as %s instead of %s", ctx, L.size, w);
	if (L.lss != d->lss) pviol("C16", "%s: sector size printed as %ld instead of %d", ctx, L.lss, d->lss);
	if ((json || mach) && strcmp(L.model, reader_model)) pviol("C16", "%s: model printed as '%s' instead of '%s'", ctx, L.model, reader_model);
	if (L.pss != reader_pss) pviol("C16", "%s: physical sector size printed as %ld instead of %d", ctx, L.pss, reader_pss);
	if (strcmp(L.label, t->ok ? t->label : "unknown")) pviol("C16", "%s: label printed as %s instead of %s", ctx, L.label, t->ok ? t->label : "unknown");
	if (!t->ok) { if (L.nr) pviol("C16", "%s: %d partitions listed without a label", ctx, L.nr); return; }
	char fl[600]; fl[0] = 0; { PedDiskFlag q = 0; while ((q = ped_disk_flag_next(q))) if (t->dflags >> q & 1 && q != PED_DISK_CYLINDER_ALIGNMENT) { size_t l = strlen(fl); snprintf(fl + l, sizeof fl - l, "%s%s", l ? ", " : "", ped_disk_flag_get_name(q)); } }
	if (strcmp(L.flags, fl)) pviol("C16", "%s: disk flags printed as '%s' instead of '%s'", ctx, L.flags, fl);
	if (json) {
		char u[48]; if (t->has_duuid) { uuidstr(t->duuid, u); if (strcmp(u, L.duuid)) pviol("C16", "%s: disk uuid printed as %s instead of %s", ctx, L.duuid, u); }
		if (L.maxp != t->maxprim) pviol("C16", "%s: max-partitions printed as %ld instead of %d", ctx, L.maxp, t->maxprim);
	}
	/* partitions and free space, in order of the disk */
	int np = 0, nf = 0, fbad[2] = { 0, 0 }, fresh = 1;
	for (int i = 0; i < R->nop; i++) if (R->op[i].op == OP_COMMIT) fresh = 0;
	for (int i = 0; i < L.nr; i++) {
		Row *r = &L.r[i];
		if (json && !strcmp(r->type, "free")) r->is_free = 1;
		if (json && r->num == 0 && strstr(r->type, "free")) r->is_free = 1;
		if (r->is_free) {
			for (int v = 0; v < rd; v++) {
				const Snap *z = v ? &T2 : &T; int hit = 0;
				for (int k = 0; k < z->nr; k++) if (z->r[k].type & PED_PARTITION_FREESPACE) { char a[32], b[32]; snprintf(a, 32, "%llds", (long long)z->r[k].s); snprintf(b, 32, "%llds", (long long)z->r[k].e); if (!strcmp(a, r->start) && !strcmp(b, r->end)) hit = 1; }
				if (!hit) fbad[v] = 1;
			}
			if (!fresh) { nf++; continue; }
			if (fbad[0] && (rd < 2 || fbad[1])) { pviol("C16", "%s: free space %s..%s listed, which the table does not have", ctx, r->start, r->end); return; }
			nf++; continue;
		}
		np++;
		const SPart *p = snap_find(t, r->num);
		if (!p) { pviol("C16", "%s: partition %d listed, which the table does not have", ctx, r->num); return; }
		char a[32], b[32], c[32]; snprintf(a, 32, "%llds", (long long)p->s); snprintf(b, 32, "%llds", (long long)p->e); snprintf(c, 32, "%llds", (long long)(p->e - p->s + 1));
		if (strcmp(a, r->start) || strcmp(b, r->end) || strcmp(c, r->size)) { pviol("C16", "%s: partition %d listed as %s..%s (%s) instead of %s..%s (%s)", ctx, p->num, r->start, r->end, r->size, a, b, c); return; }
		if (json || mach) {
			flagstr(p->flags, fl, sizeof fl);
			if (strcmp(fl, r->flags)) { pviol("C16", "%s: flags of partition %d listed as '%s' instead of '%s'", ctx, p->num, r->flags, fl); return; }
			if (s->nst == 1 && strcmp(r->fs, p->fs)) { pviol("C16", "%s: file system of partition %d listed as '%s' instead of '%s'", ctx, p->num, r->fs, p->fs); return; }
			if (p->has_name && strcmp(r->name, p->name)) { pviol("C16", "%s: name of partition %d listed as '%s' instead of '%s'", ctx, p->num, r->name, p->name); return; }
		}
		if (json) {
			if (strcmp(r->type, p->type & PED_PARTITION_EXTENDED ? "extended" : p->type & PED_PARTITION_LOGICAL ? "logical" : "primary")) { pviol("C16", "%s: type of partition %d listed as %s", ctx, p->num, r->type); return; }
			char u[48];
			if (p->has_tuuid) { uuidstr(p->tuuid, u); if (strcmp(u, r->tuuid)) { pviol("C16", "%s: type-uuid of partition %d listed as %s instead of %s", ctx, p->num, r->tuuid, u); return; } }
			if (p->has_uuid) { uuidstr(p->uuid, u); if (strcmp(u, r->uuid)) { pviol("C16", "%s: uuid of partition %d listed as %s instead of %s", ctx, p->num, r->uuid, u); return; } }
			if (p->has_tid) { snprintf(u, sizeof u, "0x%02x", p->tid & 255); if (strcmp(u, r->tid)) { pviol("C16", "%s: type-id of partition %d listed as %s instead of %s", ctx, p->num, r->tid, u); return; } }
		}
	}
	if (np != t->np) pviol("C16", "%s: %d partitions listed instead of %d", ctx, np, t->np);
	if (freearg && !fresh) ;      /* what is free depends on the alignment in force when the table was made */
	else if (freearg) {
		int ok2 = 0, w2[2] = { 0, 0 };
		for (int v = 0; v < rd; v++) { const Snap *z = v ? &T2 : &T; for (int k = 0; k < z->nr; k++) if (z->r[k].type & PED_PARTITION_FREESPACE) w2[v]++; if (!fbad[v] && nf == w2[v]) ok2 = 1; }
		if (!ok2) pviol("C16", "%s: %d free regions listed instead of %d", ctx, nf, w2[0]);
	}
	else if (nf) pviol("C16", "%s: free space listed without being asked for", ctx);
	NT_hit();
}

/* ------------------------------------------------------------------ all */
void cli_check(Session *s, int idx, const Snap *before, int before_known)
{
	char ctx[60], m[300]; snprintf(ctx, sizeof ctx, "parted session %d", idx);
	int mode = (int)s->a[0], script = mode & CM_SCRIPT, inter = mode & CM_INTER;
	int ended = R->status == 77 || R->sig || R->hang;
	static Snap prev; prev = *before; int known = before_known, ncommit = 0, reqs = 0, failed = 0;
	int order[MAXSTEP], no = 0;
	for (int i = 0; i < R->nreq; i++) if (R->req[i].issued && mutating(R->req[i].op)) order[no++] = i;
	reqs = no;
	for (int k = 0; k < R->nop; k++) {
		OpRec *o = &R->op[k];
		if (o->op != OP_COMMIT) continue;
		int ri = inter ? o->step : ncommit < no ? order[ncommit] : -1;
		ncommit++;
		if (o->pre < 0) { known = 0; continue; }
		const Snap *c = &R->snap[o->pre];
		int rescue = ri >= 0 && R->req[ri].op == OP_RESCUE; for (int i = 0; i < R->nreq; i++) if (R->req[i].op == OP_RESCUE) rescue = 1;
		if ((CP->checks & (CK_MODEL | CK_CLI)) && !rescue && (script || inter)) {
			if (ri < 0 || !mutating(R->req[ri].op)) pviol("C18", "%s: '%s' committed a table", ctx, ri < 0 ? "no mutating command" : R->req[ri].line);
			else if (known && (CP->checks & CK_MODEL)) {
				int warned = 0; for (int i = 0; i < R->nexc; i++) if (strstr(R->exc[i].msg, "closest location") || strstr(R->exc[i].msg, "partition name")) warned = 1;
				for (int i = 0; i < W->nfault; i++) if (W->fault[i].action == FA_INT && W->fault[i].fired) warned = 1;      /* an interrupted question for a name leaves it empty */
				request_ok(&R->req[ri], &s->st[ri], &prev, c, warned, m, sizeof m);
				if (m[0]) pviol(failed ? "C09" : "C18", "%s: '%s'%s: %s [%s]", ctx, R->req[ri].line, failed ? " after a failed command" : "", m, c->label);
			}
		}
		if (o->rc && !o->ign) { prev = *c; known = 1; failed = 0; }
		else if (o->rc) known = 0;      /* an error was ignored by request */
		else { known = o->log0 == o->log1 ? known : 0; failed = 1; }
		if (inter && o->rc) { /* commands that failed since: those before the next commit */ for (int q = ri + 1; q < R->nreq && ri >= 0; q++) if (R->req[q].issued) { int has = 0; for (int z = k + 1; z < R->nop; z++) if (R->op[z].op == OP_COMMIT && R->op[z].step == q) has = 1; if (has) break; if (mutating(R->req[q].op)) failed = 1; } }
	}
	if (!(CP->checks & CK_CLI) || ended) goto print;
	NT_hit();
	/* C14 */
	if (script && W->stdin_reads) pviol("C14", "%s read input in script mode", ctx);
	if (R->status != 0 && R->status != 1) pviol("C14", "%s exited with status %d", ctx, R->status);
	if (script && !inter && !(mode & CM_LIST)) {
		int bad = -1, okc = 0, failedc = 0, other = 0;
		for (int i = 0; i < R->nreq && bad < 0; i++) if (R->req[i].op == OP_BADCMD) bad = i;
		int before_bad = 0; for (int i = 0; i < no; i++) if (bad < 0 || order[i] < bad) before_bad++;
		int k = 0, after_fail = 0;
		for (int i = 0; i < R->nop; i++) if (R->op[i].op == OP_COMMIT) { if (failedc) after_fail = 1; if (R->op[i].rc) okc++; else failedc++; k++; }
		for (int i = 0; i < R->nreq; i++) { int op = R->req[i].op; if (op == OP_ALIGNCHECK || op == OP_PRINT || op == OP_RESCUE || op == OP_SELECT || op == OP_HELP || op == OP_UNITPRINT || op == OP_QUIT) other = 1; }
		int rescue = 0, quit = 0; for (int i = 0; i < R->nreq; i++) { if (R->req[i].op == OP_RESCUE) rescue = 1; if (R->req[i].op == OP_QUIT) quit = 1; }
		if (!rescue) {
			if (R->status == 0 && failedc) pviol("C14", "%s exited with status 0 although writing the table failed", ctx);
			if (R->status == 0 && okc < reqs && !quit) pviol("C14", "%s exited with status 0 but only %d of %d changes were committed", ctx, okc, reqs);
			if (R->status == 0 && bad >= 0 && !quit) pviol("C14", "%s exited with status 0 although '%s' cannot be carried out", ctx, R->req[bad].line);
			if (k > before_bad) pviol("C14", "%s committed %d times, %d changes were requested before the first invalid command", ctx, k, before_bad);
			if (after_fail) pviol("C14", "%s continued after a change that could not be written", ctx);
			if (R->status == 1 && !other && bad < 0 && okc == reqs && !R->nexc && !W->io_err_seen && !W->nbad && !oom_plan && reqs == R->nreq) pviol("C14", "%s exited with status 1 although every change was carried out", ctx);
		}
	}
	if (R->status == 0 && W->openfds > 0 && (CP->checks & CK_FD)) pviol("C19", "%s left %d descriptors open at exit", ctx, W->openfds);
print:
	if (CP->checks & CK_PRINT && !ended && !inter && script && s->nst && R->status == 0 && !R->nexc) {
		const Step *l = &s->st[s->nst - 1]; int np = 0;
		for (int i = 0; i < s->nst; i++) if (s->st[i].op == OP_PRINT || s->st[i].op == OP_UNITPRINT || s->st[i].op == OP_ALIGNCHECK || s->st[i].op == OP_HELP || s->st[i].op == OP_RESCUE || s->st[i].op == OP_SELECT) np++;
		if (l->op == OP_PRINT && np == 1) print_ok(s, ctx);
	}
}
