#include "h.h"
#include <unistd.h>
#include <time.h>
#include <locale.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
void exec_init(void);
extern int plan_nontrivial;
void extra_stats(FILE *f);
void gen_case(const char *prop, u64 seed, Plan *p);
const char *__asan_default_options(void) { return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:symbolize=1:detect_stack_use_after_return=0"; }
const char *__ubsan_default_options(void) { return "print_stacktrace=0:exitcode=99"; }
#define SEENBITS 24
static u8 *seen; static u64 *nseen;
void state_seen(u64 h)
{
	if (!h) return;
	h ^= h >> 29; h *= 0x9e3779b97f4a7c15ULL; h >>= 64 - SEENBITS;
	if (!(seen[h >> 3] >> (h & 7) & 1)) { seen[h >> 3] |= (u8)(1 << (h & 7)); (*nseen)++; }
}
static void init(void)
{
	world_alloc(); exec_init();
	ST = calloc(1, sizeof *ST);
	seen = calloc(1, (1u << SEENBITS) / 8); nseen = calloc(1, 8);
}

/* ------------------------------------------------- known findings of the tree */
#include <fnmatch.h>
#define MAXKNOWN 64
static struct { char prop[8], pat[300]; u64 hits; } known_f[MAXKNOWN]; static int nknown;
static void known_load(const char *path)
{
	FILE *f = path ? fopen(path, "r") : NULL;
	char l[1000];
	if (!f) return;
	while (fgets(l, sizeof l, f) && nknown < MAXKNOWN) {      /* finding: property=C07 match="..." text */
		if (strncmp(l, "finding: property=", 18)) continue;
		char *m = strstr(l, "match=\""), *e = m ? strchr(m + 7, '"') : NULL;
		if (!e) continue;
		sscanf(l + 18, "%7s", known_f[nknown].prop);
		snprintf(known_f[nknown].pat, sizeof known_f[0].pat, "%.*s", (int)(e - m - 7), m + 7);
		nknown++;
	}
	fclose(f);
}
int is_known(const Viol *v)
{
	for (int i = 0; i < nknown; i++) if (!strcmp(known_f[i].prop, v->prop) && !fnmatch(known_f[i].pat, v->msg, 0)) { known_f[i].hits++; return 1; }
	return 0;
}
/* the first violation of the plan's own property which is not a listed finding */
static const char *own_violation(const Plan *p)
{
	for (int i = 0; i < PV.n; i++) if (!strcmp(PV.v[i].prop, p->prop) && !is_known(&PV.v[i])) return PV.v[i].msg;
	return NULL;
}
/* violation class: the message without numbers and quoted text */
static void vclass(const char *m, char *o, size_t n)
{
	size_t l = 0;
	for (; *m && l + 2 < n; m++) {
		if (*m >= '0' && *m <= '9') { if (!l || o[l - 1] != '#') o[l++] = '#'; continue; }
		if (l && o[l - 1] == '#' && ((*m >= 'a' && *m <= 'f'))) continue;
		o[l++] = *m;
	}
	o[l] = 0; if (l > 46) o[46] = 0;
}
static double now_s(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec / 1e9; }
static int write_plan_file(const char *path, const Plan *p, const char *msg)
{
	FILE *f = fopen(path, "w"); if (!f) return 0;
	fprintf(f, "# violation of %s: %s\n# hash %016llx\n", p->prop, msg, (unsigned long long)PV.hash);
	plan_write(f, p); fclose(f); return 1;
}
static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if ((u8)*s < 32 || (u8)*s > 126 || *s == '"' || *s == '\\') fprintf(f, "\\u%04x", (u8)*s); else fputc(*s, f); } fputc('"', f); }
static int campaign(const char *prop, u64 start, u64 stride, u64 count, double secs, const char *dir, const char *kf)
{
	static Plan p; char path[300], sample[2][6000]; int ns = 0; u64 done = 0, nontriv = 0, other = 0, nondet = 0; int found = 0;
	known_load(kf);
	double t0 = now_s();
	snprintf(path, sizeof path, "%s/hashes.%llu", dir, (unsigned long long)start);
	FILE *hf = fopen(path, "wb");
	for (u64 i = 0; i < count && now_s() - t0 < secs; i++) {
		u64 seed = start + i * stride;
		gen_case(prop, seed, &p);
		exec_plan(&p); done++;
		u64 h = PV.hash;
		if (plan_nontrivial) { nontriv++; fwrite(&h, 8, 1, hf); }
		if (i % 97 == 5) { exec_plan(&p); if (PV.hash != h) { nondet++; fprintf(stderr, "SIMERR seed %llu is not deterministic\n", (unsigned long long)seed); } }
		if (ns < 2 && plan_nontrivial && (i == 0 || i > count / 3)) { FILE *m = fmemopen(sample[ns], sizeof sample[0], "w"); plan_write(m, &p); fputc(0, m); fclose(m); sample[ns][sizeof sample[0] - 1] = 0; ns++; }
		const char *v = own_violation(&p);
		if (PV.n && !v) other++;
		if (v) {
			snprintf(path, sizeof path, "%s/viol.%llu", dir, (unsigned long long)start);
			write_plan_file(path, &p, v); found = 1; break;
		}
	}
	fclose(hf);
	snprintf(path, sizeof path, "%s/stats.%llu", dir, (unsigned long long)start);
	FILE *f = fopen(path, "w");
	fprintf(f, "{\"plans\":%llu,\"nontrivial\":%llu,\"other\":%llu,\"nondet\":%llu,\"found\":%d,\"wall\":%.2f,\"sessions\":%llu,\"readers\":%llu,\"crash_states\":%llu,\"ops\":%llu,\"commits\":%llu,\"commits_ok\":%llu,\"sim_us\":%llu,\"questions\":%llu,\"table_states\":%llu",
		(unsigned long long)done, (unsigned long long)nontriv, (unsigned long long)other, (unsigned long long)nondet, found, now_s() - t0,
		(unsigned long long)ST->sessions, (unsigned long long)ST->readers, (unsigned long long)ST->crash_states, (unsigned long long)ST->ops, (unsigned long long)ST->commits, (unsigned long long)ST->commits_ok, (unsigned long long)ST->sim_us, (unsigned long long)ST->exc, (unsigned long long)*nseen);
	static const char *fan[] = { "", "error", "short", "kill", "torn_write_and_kill", "unexpected_eof", "other_process_acts", "bad_range", "interrupt" };
	static const char *evn[] = { "open", "read", "write", "fsync", "close", "seek", "stat", "blkpg", "ioctl", "sysfs", "dm", "sleep", "alloc", "any", "line" };
	fprintf(f, ",\"faults\":{"); for (int i = 1; i < FA_N; i++) fprintf(f, "%s\"%s\":%llu", i > 1 ? "," : "", fan[i], (unsigned long long)ST->faults[i]);
	fprintf(f, "},\"fault_events\":{"); for (int i = 0; i < EV_N; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", evn[i], (unsigned long long)ST->evf[i]);
	fprintf(f, "},\"operations\":{"); int first = 1; for (int i = 1; i < OP_N; i++) if (ST->op[i][0] + ST->op[i][1]) { fprintf(f, "%s\"%s\":[%llu,%llu]", first ? "" : ",", opname(i), (unsigned long long)ST->op[i][1], (unsigned long long)ST->op[i][0]); first = 0; }
	fprintf(f, "},\"known\":["); for (int i = 0; i < nknown; i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)known_f[i].hits);
	fprintf(f, "],\"extra\":{"); extra_stats(f);
	fprintf(f, "},\"samples\":["); for (int i = 0; i < ns; i++) { if (i) fputc(',', f); jstr(f, sample[i]); }
	fprintf(f, "]}\n"); fclose(f);
	return found ? 1 : 0;
}
static int still(Plan *p, const char *cls)
{
	exec_plan(p);
	for (int i = 0; i < PV.n; i++) if (!strcmp(PV.v[i].prop, p->prop) && !is_known(&PV.v[i])) { char c[100]; vclass(PV.v[i].msg, c, sizeof c); if (!strcmp(c, cls)) return 1; }
	return 0;
}
static int minimise(const char *in, const char *out, double secs)
{
	static Plan best, t; char cls[100];
	FILE *f = fopen(in, "r"); if (!f || !plan_read(f, &best)) return 2;
	fclose(f);
	exec_plan(&best);
	const char *m = own_violation(&best);
	if (!m) { fprintf(stderr, "does not reproduce\n"); return 3; }
	vclass(m, cls, sizeof cls);
	double t0 = now_s(); int changed = 1, tries = 0;
#define TRY(edit) { t = best; edit; tries++; if (still(&t, cls)) { best = t; changed = 1; } }
	while (changed && now_s() - t0 < secs) {
		changed = 0;
		for (int i = best.nses - 1; i >= 0 && now_s() - t0 < secs; i--) {
			if (best.nses > 1) { int n = best.nses; TRY({ memmove(&t.ses[i], &t.ses[i + 1], sizeof t.ses[0] * (size_t)(t.nses - i - 1)); t.nses--;
				int k = 0; for (int q = 0; q < t.nfault; q++) { if (t.fault[q].session == i) continue; t.fault[k] = t.fault[q]; if (t.fault[k].session > i) t.fault[k].session--; k++; } t.nfault = k; });
				if (best.nses != n) continue; }
			if (i >= best.nses) continue;
			for (int c = best.ses[i].nst; c >= 1; c /= 2) for (int j = best.ses[i].nst - c; j >= 0 && now_s() - t0 < secs; j -= c) {
				if (j + c > best.ses[i].nst) continue;
				TRY({ memmove(&t.ses[i].st[j], &t.ses[i].st[j + c], sizeof(Step) * (size_t)(t.ses[i].nst - j - c)); t.ses[i].nst -= c; });
			}
		}
		for (int i = best.nfault - 1; i >= 0 && now_s() - t0 < secs; i--) {
			int n = best.nfault;
			TRY({ memmove(&t.fault[i], &t.fault[i + 1], sizeof t.fault[0] * (size_t)(t.nfault - i - 1)); t.nfault--; });
			if (best.nfault == n && best.fault[i].count > 1) TRY(t.fault[i].count = 1);
		}
	}
	if (best.ndev > 1) TRY(t.ndev--);
	for (int d = 0; d < best.ndev; d++) {
		if (best.dev[d].fill) TRY(t.dev[d].fill = 0);
		if (best.dev[d].have_topo) TRY(t.dev[d].have_topo = 0);
		if (best.dev[d].have_geo) TRY(t.dev[d].have_geo = 0);
	}
	exec_plan(&best);
	m = own_violation(&best);
	if (!m) return 3;
	char msg[500]; snprintf(msg, sizeof msg, "%s", m);
	write_plan_file(out, &best, msg);
	printf("%s\n", msg); fprintf(stderr, "minimised in %d tries\n", tries);
	return 0;
}
int main(int argc, char **argv)
{
	extern const char *force_label; if (getenv("SIM_LABEL")) force_label = strdup(getenv("SIM_LABEL"));
#include <sys/personality.h>
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
	clearenv(); setenv("LC_ALL", "C.UTF-8", 1); setenv("PATH", "/usr/bin:/bin", 1); setenv("TERM", "dumb", 1);
	setlocale(LC_ALL, "C.UTF-8");
	static Plan p;
	if (argc > 1 && !strcmp(argv[1], "one")) {       /* one PROP SEED [-v] */
		init();
		opt_verbose = argc > 4 ? atoi(argv[4]) : 0;
		gen_case(argv[2], strtoull(argv[3], 0, 10), &p);
		if (opt_verbose) plan_write(stderr, &p);
		int n = exec_plan(&p);
		printf("violations %d (all %d) hash %016llx sessions %llu\n", n, PV.n, (unsigned long long)PV.hash, (unsigned long long)ST->sessions);
		for (int i = 0; i < PV.n; i++) printf("%s: %s\n", PV.v[i].prop, PV.v[i].msg);
		return n ? 1 : 0;
	}
	if (argc > 1 && !strcmp(argv[1], "scan")) {      /* scan PROP FROM COUNT: summary of messages */
		init();
		u64 a = strtoull(argv[3], 0, 10), n = strtoull(argv[4], 0, 10);
		int all = argc > 5;
		for (u64 s = a; s < a + n; s++) {
			gen_case(argv[2], s, &p); exec_plan(&p);
			for (int i = 0; i < PV.n; i++) if (all || !strcmp(PV.v[i].prop, argv[2])) printf("%llu %s: %s\n", (unsigned long long)s, PV.v[i].prop, PV.v[i].msg);
		}
		fprintf(stderr, "plans %llu sessions %llu readers %llu commits %llu ops %llu crash %llu\n", (unsigned long long)ST->plans, (unsigned long long)ST->sessions, (unsigned long long)ST->readers, (unsigned long long)ST->commits, (unsigned long long)ST->ops, (unsigned long long)ST->crash_states);
		for (int i = 1; i < OP_N; i++) if (ST->op[i][0] + ST->op[i][1]) fprintf(stderr, "%s %llu/%llu  ", opname(i), (unsigned long long)ST->op[i][1], (unsigned long long)(ST->op[i][0] + ST->op[i][1]));
		fprintf(stderr, "\n");
		return 0;
	}
	if (argc > 7 && !strcmp(argv[1], "campaign")) {  /* campaign PROP START STRIDE COUNT SECONDS OUTDIR [KNOWN] */
		init();
		return campaign(argv[2], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), strtoull(argv[5], 0, 10), atof(argv[6]), argv[7], argc > 8 ? argv[8] : NULL);
	}
	if (argc > 4 && !strcmp(argv[1], "minimise")) {  /* minimise IN OUT SECONDS [KNOWN] */
		init(); known_load(argc > 5 ? argv[5] : NULL);
		return minimise(argv[2], argv[3], atof(argv[4]));
	}
	if (argc > 2 && !strcmp(argv[1], "replay")) {    /* replay FILE [KNOWN] */
		init(); known_load(argc > 3 ? argv[3] : NULL);
		opt_verbose = getenv("SIM_V") ? atoi(getenv("SIM_V")) : 0;
		FILE *f = fopen(argv[2], "r"); if (!f || !plan_read(f, &p)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 2; }
		fclose(f);
		exec_plan(&p);
		const char *m = own_violation(&p);
		printf("hash %016llx\n", (unsigned long long)PV.hash);
		for (int i = 0; i < PV.n; i++) printf("%s%s: %s\n", strcmp(PV.v[i].prop, p.prop) ? "other " : "", PV.v[i].prop, PV.v[i].msg);
		return m ? 1 : 0;
	}
	return 2;
}
