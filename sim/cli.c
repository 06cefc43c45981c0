/* CLI sessions: the whole parted (or partprobe) program, from main() on, run
   in a process of its own with scripted or generated terminal input. */
#include "h.h"
#include <parted/parted.h>

extern Plan *CP;
int parted_main(int argc, char **argv);
int partprobe_main(int argc, char **argv);
void exc_log(int type, int options, int answer, const char *msg);
int policy_answer(int pol, int opts, Rng *r, int *retr);

static Session *S;
static Rng prng;
static int retries;
static Snap *curS;              /* table the next command is rendered against */
static int next_step;
static char queue[24][96]; static int nq, qpos;
static int in_cmd;

static PedExceptionHandler *real_handler;
static int exc_depth;
static PedExceptionOption handler(PedException *ex)
{
	int type = ex->type, opts = ex->options; char m[200]; snprintf(m, sizeof m, "%s", ex->message ? ex->message : "(null)");
	exc_depth++;
	int a = real_handler(ex);
	exc_depth--;
	exc_log(type, opts, a, m);
	return a;
}
void sim_cli_set_handler(PedExceptionHandler *h)
{
	real_handler = h;
	ped_exception_set_handler(handler);
}
int sim_ped_disk_commit(PedDisk *disk)
{
	OpRec *o = NULL;
	if (R->nop < MAXOPREC) {
		o = &R->op[R->nop++];
		memset(o, 0, sizeof *o);
		o->op = OP_COMMIT; o->step = R->cur_req; o->pre = o->post = -1; o->log0 = W->nlog; o->nexc0 = R->nexc; o->errs = -W->io_err_seen; o->al0 = (i64)W->c.cnt[EV_ALLOC];
		if (R->nsnap < MAXSNAP) { snap_disk(disk, &R->snap[R->nsnap]); o->pre = R->nsnap++; }
	}
	W->cur_commit = R->nop - 1;
	int rc = ped_disk_commit(disk);
	W->cur_commit = -1;
	if (o) {
		o->rc = rc; o->log1 = W->nlog; o->al1 = (i64)W->c.cnt[EV_ALLOC]; o->nexc1 = R->nexc; o->errs += W->io_err_seen;
		for (int i = o->nexc0; i < R->nexc; i++) { if (R->exc[i].answer == PED_EXCEPTION_IGNORE) o->ign++; if (R->exc[i].answer == PED_EXCEPTION_RETRY) o->retr++; }
		if (rc && o->pre >= 0) curS = &R->snap[o->pre];
	}
	hash_ev(4000, (u64)rc, 0);
	return rc;
}

static const char *flagname(int f) { return ped_partition_flag_get_name(f); }
/* render a step against the current table; words[0] is the command */
static int render(Step *st, int idx, char words[][96])
{
	Snap *s = curS;
	int n = 0;
#define A(...) snprintf(words[n++], 96, __VA_ARGS__)
	typeof(R->req[0]) *q = &R->req[idx];
	memset(q, 0, sizeof *q);
	q->op = st->op; q->num = -1; snprintf(q->rlabel, sizeof q->rlabel, "%s", s && s->ok ? s->label : "");
	SPart *p = s && s->ok && s->np ? &s->p[(u64)st->a[0] % (u64)s->np] : NULL;
	int num = p ? p->num : 1 + (int)(st->a[0] % 5);
	int can_ext = s && s->ok && (s->feat & PED_DISK_TYPE_EXTENDED), can_name = s && s->ok && (s->feat & PED_DISK_TYPE_PARTITION_NAME);
	i64 len = s && s->ok ? s->len : (i64)(W->dev[0].bytes / (u64)W->dev[0].lss);
	switch (st->op) {
	case OP_LABEL: A("mklabel"); A("%s", st->s); snprintf(q->label, sizeof q->label, "%s", st->s); break;
	case OP_ADD: {
		int pt = can_ext ? (int)(st->a[3] % 3) : 0;
		A("mkpart");
		if (can_ext) A("%s", pt == 1 ? "logical" : pt == 2 ? "extended" : "primary");
		if (can_name && !(s && !strcmp(s->label, "dvh") && pt != 1)) { A("nm%d", (int)st->a[6] % 100); snprintf(q->name, sizeof q->name, "nm%d", (int)st->a[6] % 100); }
		if (pt != 2 && st->s[0]) { A("%s", st->s); snprintf(q->fs, sizeof q->fs, "%s", st->s); }
		i64 rs = 0, re = len - 1;
		if (s && s->ok && !(st->a[5] & 1)) {
			int c[MAXREG], k = 0;
			for (int i = 0; i < s->nr; i++) if ((s->r[i].type & PED_PARTITION_FREESPACE) && !!(s->r[i].type & PED_PARTITION_LOGICAL) == (pt == 1)) c[k++] = i;
			if (k) {
				int b = c[(u64)st->a[0] % (u64)k];
				if (st->a[5] & 2) for (int i = 0; i < k; i++) if (s->r[c[i]].e - s->r[c[i]].s > s->r[b].e - s->r[b].s) b = c[i];
				rs = s->r[b].s; re = s->r[b].e;
			}
		}
		i64 L = re - rs + 1, a = rs + (i64)((__int128)L * st->a[1] / 1024), w = (i64)((__int128)L * st->a[2] / 1024);
		if (w < 1) w = 1;
		if (st->a[5] & 4) { a = (a + 2047) / 2048 * 2048; w = (w + 2047) / 2048 * 2048; }
		i64 e = a + w - 1; if (e > re) e = re; if (e < a) e = a;
		q->ptype = pt; q->s = a; q->e = e;
		if (st->a[4] == 1) { A("%lldB", (long long)a * (s ? s->lss : 512)); A("%lldB", (long long)(e + 1) * (s ? s->lss : 512) - 1); }
		else if (st->a[4] == 2) { A("%lldMiB", (long long)(a * (s ? s->lss : 512) >> 20)); A("%lldMiB", (long long)((e * (s ? s->lss : 512) >> 20) + 1)); q->s = -1; }
		else if (st->a[4] == 3) { A("%d%%", (int)(a * 100 / len)); A("%d%%", (int)(e * 100 / len)); q->s = -1; }
		else { A("%llds", (long long)a); A("%llds", (long long)e); }
		break;
	}
	case OP_DEL: A("rm"); A("%d", num); break;
	case OP_GEOM: {
		i64 ps = p ? p->s : 0, pe = p ? p->e : 100, e;
		if (st->a[1] & 1) e = pe + st->a[2]; else e = ps + (pe - ps) * (st->a[2] % 1024) / 1024;
		if (e >= len) e = len - 1;
		A("resizepart"); A("%d", num); A("%llds", (long long)e); q->e = e;
		break;
	}
	case OP_FLAG: case OP_TOGGLE: {
		int av[32], k = 0; u32 m = p ? p->avail & stored_flags(s->label) : 0x3e;
		for (int f = 1; f < 32; f++) if (m >> f & 1) av[k++] = f;
		if (!k) { av[0] = p || (s && s->ok && !stored_flags(s->label)) ? 20 : 1; k = 1; }
		q->flag = av[(u64)st->a[1] % (u64)k]; q->state = st->op == OP_TOGGLE ? !(p && p->flags >> q->flag & 1) : (int)(st->a[2] & 1);
		A("%s", st->op == OP_TOGGLE ? "toggle" : "set"); A("%d", num); A("%s", flagname(q->flag));
		if (st->op == OP_FLAG) A("%s", q->state ? "on" : "off");
		break;
	}
	case OP_NAME: A("name"); A("%d", num); A("%s", st->s); snprintf(q->name, sizeof q->name, "%s", st->s); break;
	case OP_TYPEID:
		if (p && p->type & PED_PARTITION_EXTENDED && !(S->a[0] & CM_INTER)) { for (int i = 0; i < s->np; i++) if (!(s->p[i].type & PED_PARTITION_EXTENDED)) p = &s->p[i]; num = p->type & PED_PARTITION_EXTENDED ? 99 : p->num; }
		A("type"); A("%d", num);
		if (s && s->ok && s->feat & PED_DISK_TYPE_PARTITION_TYPE_UUID) { Rng r = { (u64)st->a[1] }; u64 x = rng_next(&r); A("%08x-1234-4321-8765-%012llx", (unsigned)(x >> 32), (unsigned long long)(x & 0xffffffffffffULL)); snprintf(q->name, sizeof q->name, "%s", words[n-1]); }
		else {
			int id = (int)(1 + (u64)st->a[1] % 255);
			if (id == 0xee) id = st->a[1] & 256 ? 5 : 0;        /* makes the device look like one with a GPT */
			if (p && p->type & PED_PARTITION_EXTENDED) id = 0x0f;
			A("0x%02x", id); q->state = id;
		}
		break;
	case OP_DISKFLAG: {
		int av[32], k = 0; for (int f = 1; f < 31; f++) if (s && s->davail >> f & 1) av[k++] = f;
		if (!k) { av[0] = p || (s && s->ok && !stored_flags(s->label)) ? 20 : 1; k = 1; }
		q->flag = av[(u64)st->a[0] % (u64)k]; q->state = (int)(st->a[1] & 1);
		A("disk_set"); A("%s", ped_disk_flag_get_name(q->flag)); A("%s", q->state ? "on" : "off");
		break;
	}
	case OP_PRINT: A("print"); { static const char *w[] = { "", "free", "devices", "all", "list" }; int k = (int)(st->a[1] % 6); if (k == 5) A("%d", num); else if (k) A("%s", w[k]); } break;
	case OP_UNITPRINT: { static const char *u[] = { "s", "B", "MiB", "kB", "compact", "chs", "cyl", "%", "GB" }; A("unit"); A("%s", u[(u64)st->a[1] % 9]); A("print"); break; }
	case OP_ALIGNCHECK: A("align-check"); A("%s", st->a[1] & 1 ? "min" : "opt"); A("%d", num); break;
	case OP_HELP: A("help"); break;
	case OP_SELECT: A("select"); A("%s", W->dev[(u64)st->a[0] % (u64)W->ndev].path); break;
	case OP_RESCUE: A("rescue"); A("%llds", (long long)(len * (st->a[1] % 1024) / 1024)); A("%llds", (long long)(len * (st->a[1] % 1024) / 1024 + 100)); break;
	case OP_QUIT: A("quit"); break;
	case OP_BADCMD: { static const char *b[][3] = { { "frobnicate" }, { "rm", "99" }, { "mkpart", "primary", "5s" }, { "set", "1", "nosuchflag" }, { "resizepart", "77", "5s" }, { "unit", "parsec" }, { "rm" }, { "name", "88", "x" }, { "mklabel", "nosuch" }, { "print", "42" } };
		int k = (int)((u64)st->a[1] % 10); for (int i = 0; i < 3 && b[k][i]; i++) A("%s", b[k][i]); q->flag = k; break; }
	default: A("print");
	}
	q->num = num;
	q->line[0] = 0;
	for (int i = 0; i < n; i++) { strncat(q->line, words[i], sizeof q->line - strlen(q->line) - 2); strcat(q->line, " "); }
	return n;
#undef A
}

static int parse_prompt_opts(const char *p)
{
	static const struct { const char *w; int o; } t[] = { { "Fix", 1 }, { "Yes", 2 }, { "No", 4 }, { "OK", 8 }, { "Retry", 16 }, { "Ignore", 32 }, { "Cancel", 64 } };
	int o = 0;
	const char *q = p;
	while (*q) {
		int hit = 0;
		for (int i = 0; i < 7; i++) { size_t l = strlen(t[i].w); if (!strncmp(q, t[i].w, l) && (q[l] == '/' || q[l] == '?')) { o |= t[i].o; q += l; hit = 1; break; } }
		if (!hit) return 0;
		if (*q == '?') return o;
		q++;
	}
	return 0;
}
static const char *optword(int o)
{
	switch (o) { case 1: return "Fix"; case 2: return "Yes"; case 4: return "No"; case 8: return "OK"; case 16: return "Retry"; case 32: return "Ignore"; case 64: return "Cancel"; }
	return "";
}
static int nprompts;
static int provider(const char *prompt, char *out, size_t n)
{
	if (!prompt) prompt = "";
	int policy = S->policy;
	if (nprompts++ > 600) { return 0; }
	if (!strncmp(prompt, "(parted)", 8)) {
		retries = 0;
		if (!(S->a[0] & CM_INTER)) { if (S->a[3] & 1) return 0; snprintf(out, n, "quit"); return 1; }
		if (R->cur_req >= 0) R->ended_cmds = R->cur_req + 1;
		if (next_step >= S->nst) { R->cur_req = -1; if (S->a[3] & 1) return 0; snprintf(out, n, "quit"); return 1; }
		char w[12][96]; int k = render(&S->st[next_step], next_step, w);
		R->req[next_step].issued = 1;
		R->cur_req = next_step++; R->nreq = next_step;
		in_cmd = 1;
		nq = qpos = 0;
		if (S->a[0] & CM_PROMPTARGS) {
			snprintf(out, n, "%s", w[0]);
			for (int i = 1; i < k; i++) snprintf(queue[nq++], 96, "%s", w[i]);
		} else {
			out[0] = 0;
			for (int i = 0; i < k; i++) { size_t l = strlen(out); snprintf(out + l, n - l, strpbrk(w[i], " ") || !w[i][0] ? "%s\"%s\"" : "%s%s", i ? " " : "", w[i]); }
		}
		return 1;
	}
	int o = parse_prompt_opts(prompt);
	if (o) {
		if (policy == XP_RANDOM && rng_pct(&prng, 8)) { snprintf(out, n, "%s", rng_pct(&prng, 50) ? "bogus" : ""); return 1; }
		if (policy == XP_RANDOM && rng_pct(&prng, 5)) return rng_pct(&prng, 50) ? 0 : -1;
		int a = policy_answer(policy, o, &prng, &retries);
		if (!a) a = policy_answer(XP_CANCEL, o, &prng, &retries);
		snprintf(out, n, "%s", optword(a));
		return 1;
	}
	if (qpos < nq) {
		if (policy == XP_RANDOM && rng_pct(&prng, 4)) { if (R->cur_req >= 0) R->req[R->cur_req].fuzzed = 1; snprintf(out, n, "%s", rng_pct(&prng, 50) ? "@@" : ""); return 1; }
		if (policy == XP_RANDOM && rng_pct(&prng, 3)) { if (R->cur_req >= 0) R->req[R->cur_req].fuzzed = 1; return rng_pct(&prng, 50) ? 0 : -1; }
		snprintf(out, n, "%s", queue[qpos++]); return 1;
	}
	if (R->cur_req >= 0) R->req[R->cur_req].fuzzed = 1;
	/* an argument nobody supplied: give the user's interrupt, or an end of input */
	return (nprompts & 1) && !(S->a[3] & 2) ? -1 : 0;
}

void cli_session(void *arg)
{
	S = arg;
	static char wbuf[64][96]; static char *argv[80]; int argc = 0, wn = 0;
	prng.s = CP->seed ^ (u64)(S - CP->ses) * 9991;
	curS = R->nsnap ? &R->snap[0] : NULL;
	R->cur_req = -1;
	int mode = (int)S->a[0];
#define P(x) argv[argc++] = (char *)(x)
	P("parted");
	if (mode & CM_SCRIPT) P("-s");
	if (mode & CM_FIX) P("-f");
	if (mode & CM_MACHINE) P("-m");
	if (mode & CM_JSON) P("-j");
	if (mode & CM_TTY) P("---pretend-input-tty");
	if (S->a[1]) { static const char *al[] = { "", "none", "minimal", "optimal", "cylinder" }; P("-a"); P(al[S->a[1] % 5]); }
	sim_tty_in = !!(mode & CM_ISATTY);
	if (mode & CM_LIST) P("-l");
	else {
		P(W->dev[(u64)S->a[2] % (u64)W->ndev].path);
		if (!(mode & CM_INTER)) {
			P("unit"); P("s");
			for (int i = 0; i < S->nst && argc < 70; i++) {
				char w[12][96]; int k = render(&S->st[i], i, w);
				R->nreq = i + 1; R->req[i].issued = 1;
				for (int j = 0; j < k; j++) {
					int wi = wn++;
					snprintf(wbuf[wi], 96, strpbrk(w[j], " ") || !w[j][0] ? "\"%s\"" : "%s", w[j]);
					P(wbuf[wi]);
				}
			}
			R->cur_req = 0;
		}
	}
	argv[argc] = NULL;
	if (!S->s[0]) sim_line_provider = provider;
	if (W->trace) { fprintf(stderr, "ARGV:"); for (int i = 0; i < argc; i++) fprintf(stderr, " %s", argv[i]); fprintf(stderr, "\n"); }
	int rc = parted_main(argc, argv);
	fflush(stdout);
	kern_exit(rc);
}
void pp_session(void *arg)
{
	S = arg;
	static char *argv[16]; int argc = 0;
	P("partprobe");
	if (S->a[0] & 1) P("-d");
	if (S->a[0] & 2) P("-s");
	if (!(S->a[0] & 4)) P(W->dev[(u64)S->a[2] % (u64)W->ndev].path);
	argv[argc] = NULL;
	int rc = partprobe_main(argc, argv);
	fflush(stdout);
	kern_exit(rc);
}
