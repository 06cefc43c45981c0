/* Plan text: the replay file format. */
#include "h.h"
static void esc(FILE *f, const char *s)
{
	fputc('"', f);
	for (; *s; s++) { u8 c = (u8)*s; if (c < 33 || c == '"' || c == '%' || c > 126) fprintf(f, "%%%02x", c); else fputc(c, f); }
	fputc('"', f);
}
static void unesc(const char *s, char *o, size_t n)
{
	size_t l = 0;
	if (*s == '"') s++;
	while (*s && *s != '"' && l + 1 < n) {
		if (*s == '%' && s[1] && s[2]) { unsigned c; sscanf(s + 1, "%2x", &c); o[l++] = (char)c; s += 3; }
		else o[l++] = *s++;
	}
	o[l] = 0;
}
void plan_write(FILE *f, const Plan *p)
{
	fprintf(f, "plan prop=%s seed=%llu checks=%u prof=%s\n", p->prop, (unsigned long long)p->seed, p->checks, p->prof[0] ? p->prof : "-");
	for (int i = 0; i < p->ndev; i++) {
		const SimDev *d = &p->dev[i];
		fprintf(f, "dev type=%d major=%u minor=%u lss=%d pss=%d minio=%u optio=%u aoff=%u topo=%d bytes=%llu ro=%d geo=%d,%d,%d ext=%d sysparts=%d resize=%d whole=%d fill=%llu path=", d->type, d->major, d->minor, d->lss, d->pss, d->min_io, d->opt_io, d->align_off, d->have_topo, (unsigned long long)d->bytes, d->ro, d->have_geo, d->heads, d->sectors, d->ext_range, d->have_sysfs_parts, d->have_blkpg_resize, d->whole_mounted, (unsigned long long)d->fill);
		esc(f, d->path); fprintf(f, " link="); esc(f, d->link); fprintf(f, " model="); esc(f, d->model); fprintf(f, " vendor="); esc(f, d->vendor); fprintf(f, " dmname="); esc(f, d->dmname); fprintf(f, " dmuuid="); esc(f, d->dmuuid);
		fprintf(f, "\n");
	}
	for (int i = 0; i < p->nses; i++) {
		const Session *s = &p->ses[i];
		fprintf(f, "session kind=%d policy=%d a=%lld,%lld,%lld,%lld,%lld,%lld s=", s->kind, s->policy, (long long)s->a[0], (long long)s->a[1], (long long)s->a[2], (long long)s->a[3], (long long)s->a[4], (long long)s->a[5]);
		esc(f, s->s); fprintf(f, "\n");
		for (int j = 0; j < s->nst; j++) {
			const Step *t = &s->st[j];
			fprintf(f, "  step %s a=%lld,%lld,%lld,%lld,%lld,%lld,%lld s=", opname(t->op), (long long)t->a[0], (long long)t->a[1], (long long)t->a[2], (long long)t->a[3], (long long)t->a[4], (long long)t->a[5], (long long)t->a[6]);
			esc(f, t->s); fprintf(f, "\n");
		}
	}
	for (int i = 0; i < p->nfault; i++) {
		const Fault *q = &p->fault[i];
		fprintf(f, "fault session=%d ev=%d ord=%d action=%d arg=%lld arg2=%lld count=%d\n", q->session, q->ev, q->ord, q->action, (long long)q->arg, (long long)q->arg2, q->count);
	}
}
static const char *val(const char *l, const char *k)
{
	char key[32]; snprintf(key, sizeof key, " %s=", k);
	const char *p = strstr(l, key);
	return p ? p + strlen(key) : "";
}
int plan_read(FILE *f, Plan *p)
{
	char l[4096]; Session *s = NULL;
	memset(p, 0, sizeof *p);
	while (fgets(l, sizeof l, f)) {
		if (!strncmp(l, "plan ", 5)) {
			sscanf(val(l, "prop"), "%7s", p->prop); p->seed = strtoull(val(l, "seed"), 0, 10); p->checks = (u32)strtoul(val(l, "checks"), 0, 10); sscanf(val(l, "prof"), "%23s", p->prof);
		} else if (!strncmp(l, "dev ", 4) && p->ndev < MAXDEV) {
			SimDev *d = &p->dev[p->ndev++];
			d->type = atoi(val(l, "type")); d->major = (u32)atoi(val(l, "major")); d->minor = (u32)atoi(val(l, "minor")); d->lss = atoi(val(l, "lss")); d->pss = atoi(val(l, "pss"));
			d->min_io = (u32)atoi(val(l, "minio")); d->opt_io = (u32)atoi(val(l, "optio")); d->align_off = (u32)atoi(val(l, "aoff")); d->have_topo = atoi(val(l, "topo"));
			d->bytes = strtoull(val(l, "bytes"), 0, 10); d->ro = atoi(val(l, "ro")); sscanf(val(l, "geo"), "%d,%d,%d", &d->have_geo, &d->heads, &d->sectors);
			d->ext_range = atoi(val(l, "ext")); d->have_sysfs_parts = atoi(val(l, "sysparts")); d->have_blkpg_resize = atoi(val(l, "resize")); d->whole_mounted = atoi(val(l, "whole")); d->fill = strtoull(val(l, "fill"), 0, 10);
			unesc(val(l, "path"), d->path, sizeof d->path); unesc(val(l, "link"), d->link, sizeof d->link); unesc(val(l, "model"), d->model, sizeof d->model); unesc(val(l, "vendor"), d->vendor, sizeof d->vendor); unesc(val(l, "dmname"), d->dmname, sizeof d->dmname); unesc(val(l, "dmuuid"), d->dmuuid, sizeof d->dmuuid);
		} else if (!strncmp(l, "session ", 8) && p->nses < MAXSES) {
			s = &p->ses[p->nses++];
			s->kind = atoi(val(l, "kind")); s->policy = atoi(val(l, "policy"));
			long long a[6]; sscanf(val(l, "a"), "%lld,%lld,%lld,%lld,%lld,%lld", a, a + 1, a + 2, a + 3, a + 4, a + 5);
			for (int i = 0; i < 6; i++) s->a[i] = a[i];
			unesc(val(l, "s"), s->s, sizeof s->s);
		} else if (!strncmp(l, "  step ", 7) && s && s->nst < MAXSTEP) {
			Step *t = &s->st[s->nst++]; char nm[32];
			sscanf(l + 7, "%31s", nm); t->op = opcode(nm);
			long long a[7]; sscanf(val(l, "a"), "%lld,%lld,%lld,%lld,%lld,%lld,%lld", a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6);
			for (int i = 0; i < 7; i++) t->a[i] = a[i];
			unesc(val(l, "s"), t->s, sizeof t->s);
		} else if (!strncmp(l, "fault ", 6) && p->nfault < MAXFAULT) {
			Fault *q = &p->fault[p->nfault++];
			q->session = atoi(val(l, "session")); q->ev = atoi(val(l, "ev")); q->ord = atoi(val(l, "ord")); q->action = atoi(val(l, "action")); q->arg = atoll(val(l, "arg")); q->arg2 = atoll(val(l, "arg2")); q->count = atoi(val(l, "count"));
		}
	}
	return p->ndev > 0;
}
