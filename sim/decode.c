/* Independent decoders of the on-disk formats, written from the published
   layouts; they share no code with the library. */
#include "h.h"

static const Store *ST0; static int DV, LSS; static i64 LEN;
static u8 *rd(i64 sec, u8 *b) { store_read(ST0, DV, (u64)sec * (u64)LSS, b, (u64)LSS); return b; }
static u32 le32(const u8 *p) { return p[0] | p[1] << 8 | p[2] << 16 | (u32)p[3] << 24; }
static u32 le16(const u8 *p) { return p[0] | p[1] << 8; }
static u64 le64(const u8 *p) { return le32(p) | (u64)le32(p + 4) << 32; }
static u32 be32(const u8 *p) { return (u32)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static u32 be16(const u8 *p) { return p[0] << 8 | p[1]; }
u32 crc32_gpt(const u8 *p, size_t n)
{
	static u32 t[256]; u32 c = 0xffffffffu;
	if (!t[1]) for (u32 i = 0; i < 256; i++) { u32 x = i; for (int k = 0; k < 8; k++) x = x & 1 ? 0xedb88320u ^ (x >> 1) : x >> 1; t[i] = x; }
	while (n--) c = t[(c ^ *p++) & 255] ^ (c >> 8);
	return ~c;
}
static void err(Dec *d, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#include <stdarg.h>
static void err(Dec *d, const char *fmt, ...)
{
	d->nerr++;
	size_t l = strlen(d->err);
	if (l + 4 >= sizeof d->err) return;
	if (l) { strcat(d->err, "; "); l += 2; }
	va_list ap; va_start(ap, fmt); vsnprintf(d->err + l, sizeof d->err - l, fmt, ap); va_end(ap);
}
static void meta(Dec *d, i64 s, i64 e) { if (d->nmeta < MAXMETA) { d->meta[d->nmeta].s = s; d->meta[d->nmeta++].e = e; } }
static typeof(&((Dec *)0)->p[0]) addp(Dec *d, int num, int type, i64 s, i64 e)
{
	if (d->np >= MAXSP) { d->nerr++; return &d->p[MAXSP - 1]; }
	typeof(&d->p[0]) p = &d->p[d->np++];
	memset(p, 0, sizeof *p);
	p->num = num; p->type = type; p->s = s; p->e = e;
	return p;
}
static void guid_be(const u8 *g, u8 *o)
{
	o[0] = g[3]; o[1] = g[2]; o[2] = g[1]; o[3] = g[0]; o[4] = g[5]; o[5] = g[4]; o[6] = g[7]; o[7] = g[6];
	memcpy(o + 8, g + 8, 8);
}

/* ------------------------------------------------------------------- GPT */
typedef struct { int valid; u64 my, alt, first, last, pte; u32 num, esz, pcrc; u8 guid[16]; u8 *ent; } GH;
static int gpt_hdr(i64 lba, GH *h, char *why)
{
	u8 b[8192];
	memset(h, 0, sizeof *h);
	if (lba < 0 || lba >= LEN) { strcpy(why, "header location outside the device"); return 0; }
	rd(lba, b);
	if (memcmp(b, "EFI PART", 8)) { strcpy(why, "no signature"); return 0; }
	u32 hs = le32(b + 12);
	if (hs < 92 || hs > (u32)LSS) { strcpy(why, "header size"); return 0; }
	u32 crc = le32(b + 16);
	memset(b + 16, 0, 4);
	if (crc32_gpt(b, hs) != crc) { strcpy(why, "header checksum"); return 0; }
	if (le32(b + 8) < 0x10000) { strcpy(why, "revision"); return 0; }
	h->my = le64(b + 24); h->alt = le64(b + 32); h->first = le64(b + 40); h->last = le64(b + 48);
	memcpy(h->guid, b + 56, 16);
	h->pte = le64(b + 72); h->num = le32(b + 80); h->esz = le32(b + 84); h->pcrc = le32(b + 88);
	if (h->my != (u64)lba) { strcpy(why, "MyLBA"); return 0; }
	if (h->num > 16384 || h->esz < 128 || h->esz > 4096 || h->esz % 128) { strcpy(why, "entry geometry"); return 0; }
	size_t n = (size_t)h->num * h->esz;
	if (h->pte + (n + (u64)LSS - 1) / (u64)LSS > (u64)LEN) { strcpy(why, "entries outside the device"); return 0; }
	h->ent = malloc(n + 1);
	store_read(ST0, DV, h->pte * (u64)LSS, h->ent, n);
	if (crc32_gpt(h->ent, n) != h->pcrc) { strcpy(why, "entry array checksum"); free(h->ent); h->ent = NULL; return 0; }
	h->valid = 1;
	return 1;
}
static void utf16_to_8(const u8 *p, char *o, size_t n)
{
	size_t l = 0;
	for (int i = 0; i < 36; i++) {
		u32 c = le16(p + 2 * i);
		if (!c) break;
		if (c >= 0xd800 && c < 0xdc00 && i < 35) { u32 d = le16(p + 2 * i + 2); if (d >= 0xdc00 && d < 0xe000) { c = 0x10000 + ((c - 0xd800) << 10) + (d - 0xdc00); i++; } }
		char t[5]; int k;
		if (c < 0x80) { t[0] = (char)c; k = 1; }
		else if (c < 0x800) { t[0] = (char)(0xc0 | c >> 6); t[1] = (char)(0x80 | (c & 63)); k = 2; }
		else if (c < 0x10000) { t[0] = (char)(0xe0 | c >> 12); t[1] = (char)(0x80 | (c >> 6 & 63)); t[2] = (char)(0x80 | (c & 63)); k = 3; }
		else { t[0] = (char)(0xf0 | c >> 18); t[1] = (char)(0x80 | (c >> 12 & 63)); t[2] = (char)(0x80 | (c >> 6 & 63)); t[3] = (char)(0x80 | (c & 63)); k = 4; }
		if (l + (size_t)k + 1 >= n) break;
		memcpy(o + l, t, (size_t)k); l += (size_t)k;
	}
	o[l] = 0;
}
static void dec_gpt(Dec *d)
{
	char w1[64] = "", w2[64] = "";
	GH a, b;
	int v1 = gpt_hdr(1, &a, w1);
	i64 at = v1 ? (i64)a.alt : LEN - 1;
	int v2 = gpt_hdr(at, &b, w2);
	d->other = (v1 ? 1 : 0) | (v2 ? 2 : 0);
	if (!v1) err(d, "primary: %s", w1);
	if (!v2) err(d, "backup: %s", w2);
	if (!v1 && !v2) { return; }
	d->ok = 1;
	GH *h = v1 ? &a : &b;
	if (v1 && a.alt != (u64)LEN - 1) err(d, "backup header is not in the last sector (%llu)", (unsigned long long)a.alt);
	if (v1 && v2) {
		if (b.alt != 1) err(d, "backup AlternateLBA %llu", (unsigned long long)b.alt);
		if (a.pcrc != b.pcrc || a.num != b.num || a.esz != b.esz) err(d, "copies hold different entries");
		if (memcmp(a.guid, b.guid, 16)) err(d, "copies have different disk GUIDs");
		if (a.first != b.first || a.last != b.last) err(d, "copies have different usable ranges");
	}
	meta(d, 0, 1);
	for (int k = 0; k < 2; k++) {
		GH *g = k ? &b : &a;
		if (!g->valid) continue;
		i64 n = ((i64)g->num * g->esz + LSS - 1) / LSS;
		meta(d, (i64)g->my, (i64)g->my); meta(d, (i64)g->pte, (i64)g->pte + n - 1);
		if (!(g->first > (u64)(k ? 1 : g->pte + (u64)n - 1) && g->last < (k ? g->pte : g->alt) && g->last < (u64)LEN)) err(d, "usable range %llu..%llu overlaps the table", (unsigned long long)g->first, (unsigned long long)g->last);
		if ((i64)g->pte + n - 1 >= (i64)g->first && (i64)g->pte <= (i64)g->last) err(d, "entry array inside the usable range");
		if (k && (i64)g->pte + n - 1 >= (i64)g->my) err(d, "backup array runs over its header");
		u8 hb[8192]; rd((i64)g->my, hb);
		u32 hs = le32(hb + 12);
		for (u32 i = hs; i < (u32)LSS; i++) if (hb[i]) { err(d, "%s header is followed by non-zero bytes", k ? "backup" : "primary"); break; }
	}
	guid_be(h->guid, d->duuid);
	for (u32 i = 0; i < h->num; i++) {
		u8 *e = h->ent + (size_t)i * h->esz; int z = 1;
		for (int j = 0; j < 16; j++) if (e[j]) z = 0;
		if (z) continue;
		i64 s = (i64)le64(e + 32), en = (i64)le64(e + 40);
		typeof(&d->p[0]) p = addp(d, (int)i + 1, 0, s, en);
		p->has_tuuid = 1; guid_be(e, p->tuuid); guid_be(e + 16, p->uuid);
		p->attr = le64(e + 48);
		p->has_name = 1; utf16_to_8(e + 56, p->name, sizeof p->name);
		if (s < (i64)h->first || en > (i64)h->last || en < s) err(d, "entry %u outside the usable range", i + 1);
	}
	/* protective MBR */
	u8 m[8192]; rd(0, m);
	if (m[510] != 0x55 || m[511] != 0xaa) err(d, "protective MBR signature");
	int pm = 0;
	for (int i = 0; i < 4; i++) if (m[446 + 16 * i + 4] == 0xee) {
		pm = 1;
		u32 st = le32(m + 446 + 16 * i + 8), ct = le32(m + 446 + 16 * i + 12);
		u64 wc = (u64)LEN - 1 > 0xffffffffu ? 0xffffffffu : (u64)LEN - 1;
		if (v1 && a.alt == (u64)LEN - 1 && (st != 1 || ct != wc)) err(d, "protective MBR covers %u+%u", st, ct);
		if (m[446 + 16 * i] == 0x80) d->other |= 4;
	}
	if (!pm) err(d, "no protective MBR entry");
	free(a.ent); free(b.ent);
}

/* ----------------------------------------------------------------- MSDOS */
static int is_ext(int t) { return t == 5 || t == 0xf || t == 0x85; }
static void dec_msdos(Dec *d)
{
	u8 m[8192]; rd(0, m);
	if (m[510] != 0x55 || m[511] != 0xaa) { err(d, "MBR signature"); return; }
	d->ok = 1; meta(d, 0, 0);
	i64 es = -1, ee = -1; int next = 0, nb = 0;
	for (int i = 0; i < 4; i++) {
		u8 *e = m + 446 + 16 * i;
		i64 s = le32(e + 8), n = le32(e + 12);
		if (e[0] != 0 && e[0] != 0x80) err(d, "boot indicator %02x", e[0]);
		if (!e[4] || !n) { if (e[4] || n || s) err(d, "half-filled entry %d", i + 1); continue; }
		typeof(&d->p[0]) p = addp(d, i + 1, is_ext(e[4]) ? 2 : 0, s, s + n - 1);
		p->has_tid = 1; p->tid = e[4]; p->boot = e[0] == 0x80; if (p->boot) nb++;
		if (s < 1 || s + n > LEN) err(d, "entry %d outside the device", i + 1);
		if (is_ext(e[4])) { es = s; ee = s + n - 1; next++; }
	}
	if (nb > 1) err(d, "%d active partitions", nb);
	if (next > 1) err(d, "%d extended partitions", next);
	if (next != 1) return;
	i64 cur = es, lim = ee; int num = 5, guard = 0;
	while (cur >= es && cur <= ee) {
		if (guard++ > 200) { err(d, "EBR chain loops"); return; }
		rd(cur, m);
		if (m[510] != 0x55 || m[511] != 0xaa) { if (cur != es) { err(d, "EBR at %lld has no signature", (long long)cur); } return; }
		meta(d, cur, cur);
		u8 *e = m + 446, *x = m + 462;
		if (e[4] && le32(e + 12)) {
			i64 s = cur + le32(e + 8), n = le32(e + 12);
			typeof(&d->p[0]) p = addp(d, num++, 1, s, s + n - 1);
			p->has_tid = 1; p->tid = e[4]; p->boot = e[0] == 0x80;
			if (s <= cur || s + n - 1 > ee) err(d, "logical %d at %lld..%lld outside %lld..%lld", num - 1, (long long)s, (long long)(s + n - 1), (long long)es, (long long)ee);
			else if (s + n - 1 > lim) err(d, "logical %d ends at %lld, beyond the %lld its link entry covers", num - 1, (long long)(s + n - 1), (long long)lim);
		} else if (e[4] || le32(e + 12)) err(d, "half-filled logical entry at %lld", (long long)cur);
		if (!x[4] || !le32(x + 12)) return;
		if (!is_ext(x[4])) { err(d, "chain entry of type %02x", x[4]); return; }
		i64 nx = es + le32(x + 8);
		if (nx < es || nx > ee) { err(d, "chain leaves the extended partition"); return; }
		lim = nx + (i64)le32(x + 12) - 1; if (lim > ee) err(d, "link entry at %lld reaches beyond the extended partition", (long long)cur);
		cur = nx;
	}
	err(d, "chain leaves the extended partition");
}

static void dec_sun(Dec *d)
{
	u8 b[8192]; rd(0, b);
	if (be16(b + 508) != 0xdabe) { err(d, "magic"); return; }
	u32 x = 0; for (int i = 0; i < 512; i += 2) x ^= be16(b + i);
	if (x) err(d, "checksum");
	d->ok = 1; meta(d, 0, 0);
	i64 cyl = (i64)be16(b + 436) * be16(b + 438);
	if (!cyl) { err(d, "geometry"); return; }
	if (be32(b + 188) != 0x600ddeee || be32(b + 128) != 1 || be16(b + 140) != 8) err(d, "VTOC fields");
	for (int i = 0; i < 8; i++) {
		u32 sc = be32(b + 444 + 8 * i), n = be32(b + 448 + 8 * i); int id = b[142 + 4 * i + 1];
		if (!n) { if (id && id != 5) err(d, "entry %d empty with id %d", i + 1, id); continue; }
		if (id == 5) continue;
		typeof(&d->p[0]) p = addp(d, i + 1, 0, sc * cyl, sc * cyl + n - 1);
		p->has_tid = 1; p->tid = id;
		if (p->e >= LEN) err(d, "entry %d outside the device", i + 1);
	}
}
static void dec_bsd(Dec *d)
{
	u8 b[8192]; rd(0, b); u8 *l = b + 64;
	if (le32(l) != 0x82564557u) { err(d, "magic"); return; }
	d->ok = 1; meta(d, 0, LSS == 512 ? 0 : 0);
	if (le32(l + 132) != 0x82564557u) err(d, "second magic");
	u32 np = le16(l + 138), x = 0;
	if (np > 22) { err(d, "%u partitions", np); np = 8; }
	for (u32 i = 0; i < 148 + np * 16 && i < 512 - 64; i += 2) x ^= le16(l + i);
	if (x) err(d, "checksum");
	u64 s = 0; for (int i = 0; i < 63; i++) s += le64(b + 8 * i);
	if (s != le64(b + 504)) err(d, "boot block checksum");
	if (le32(l + 40) != (u32)LSS && LSS != 512) { /* d_secsize */ }
	for (u32 i = 0; i < 8; i++) {
		u8 *e = l + 148 + 16 * i; u32 n = le32(e), o = le32(e + 4); int t = e[12];
		if (!n || !t) { if (n) err(d, "entry %u without a type", i + 1); continue; }
		if (i >= np) err(d, "entry %u beyond d_npartitions", i + 1);
		typeof(&d->p[0]) p = addp(d, (int)i + 1, 0, o, (i64)o + n - 1);
		p->has_tid = 1; p->tid = t;
		if (p->e >= LEN) err(d, "entry %u outside the device", i + 1);
	}
}
int dec_hw_heads, dec_hw_sectors;
static void dec_pc98(Dec *d)
{
	u8 b[8192], c[8192]; rd(0, b); rd(1, c);
	if (b[510] != 0x55 || b[511] != 0xaa) { err(d, "signature"); return; }
	d->ok = 1; meta(d, 0, 1);
	i64 H = dec_hw_heads, S = dec_hw_sectors;
	for (int i = 0; i < 16; i++) {
		u8 *e = c + 32 * i; int z = 1;
		for (int k = 0; k < 32; k++) if (e[k]) z = 0;
		if (z || (!e[0] && !e[1])) continue;
		i64 s = ((i64)le16(e + 10) * H + e[9]) * S + e[8], en = ((i64)le16(e + 14) + 1) * H * S - 1;
		typeof(&d->p[0]) p = addp(d, i + 1, 0, s, en);
		p->has_tid = 1; p->tid = (e[0] << 8 | e[1]) & 0x7f7f; p->boot = e[0] >> 7; p->hidden = !(e[1] >> 7);
		p->has_name = 1; memcpy(p->name, e + 16, 16); p->name[16] = 0;
		for (int k = 15; k >= 0 && p->name[k] == ' '; k--) p->name[k] = 0;
		pc98_name(p->name);
		if (en >= LEN) err(d, "entry %d outside the device", i + 1);
	}
}
static void dec_mac(Dec *d)
{
	u8 b[8192]; rd(0, b);
	if (be16(b) != 0x4552) { err(d, "driver descriptor signature"); return; }
	d->ok = 1; meta(d, 0, 0);
	if (be16(b + 2) != (u32)LSS) err(d, "block size %u", be16(b + 2));
	if (be32(b + 4) != (u32)LEN) err(d, "block count %u", be32(b + 4));
	u32 cnt = 0; i64 cov = 0;
	for (u32 i = 1; i <= 256; i++) {
		if ((i64)i >= LEN) break;
		rd(i, b);
		if (be16(b) != 0x504d) { if (i <= cnt) err(d, "entry %u has no signature", i); break; }
		u32 mc = be32(b + 4);
		if (!cnt) cnt = mc; else if (mc != cnt) err(d, "entry %u has map count %u instead of %u", i, mc, cnt);
		if (i > cnt && i > 256) break;
		i64 s = be32(b + 8), n = be32(b + 12);
		char ty[33]; memcpy(ty, b + 48, 32); ty[32] = 0;
		if (!strcasecmp(ty, "Apple_Void")) continue;
		if (i > cnt) { if (cnt) err(d, "used entry %u beyond map count %u", i, cnt); }
		if (!strcasecmp(ty, "Apple_Free") || !strcasecmp(ty, "Apple_Extra")) { cov += n; continue; }
		if (!n) { err(d, "entry %u of length 0", i); continue; }
		typeof(&d->p[0]) p = addp(d, (int)i, 0, s, s + n - 1);
		p->has_name = 1; memcpy(p->name, b + 16, 32); p->name[32] = 0;
		if (!strcasecmp(ty, "Apple_partition_map")) { meta(d, s, s + n - 1); }
		if (s + n > LEN) err(d, "entry %u outside the device", i);
	}
	(void)cov;
}
static void dec_dvh(Dec *d)
{
	u8 b[8192]; rd(0, b);
	if (be32(b) != 0x0be5a941) { err(d, "magic"); return; }
	u32 s = 0; for (int i = 0; i < 512; i += 4) s += be32(b + i);
	if (s) err(d, "checksum");
	d->ok = 1; meta(d, 0, 0);
	int root = (int16_t)be16(b + 4), swp = (int16_t)be16(b + 6);
	for (int i = 0; i < 16; i++) {
		u8 *e = b + 312 + 12 * i; i64 n = be32(e), f = be32(e + 4); int t = (int)be32(e + 8);
		if (i == 10) { if (n != LEN || f) err(d, "whole-disk entry"); continue; }
		if (!n) continue;
		typeof(&d->p[0]) p = addp(d, i + 1, t == 0 ? 2 : 0, f, f + n - 1);
		p->has_tid = 1; p->tid = t;
		p->boot = (root == i ? 1 : 0) | (swp == i ? 2 : 0);
		if (f + n > LEN) err(d, "entry %d outside the device", i + 1);
	}
	for (int i = 0; i < 15; i++) {
		u8 *e = b + 72 + 16 * i; u32 lbn = be32(e + 8), nb = be32(e + 12);
		if (!nb) continue;
		typeof(&d->p[0]) p = addp(d, i + 17, 1, lbn, (i64)lbn + (nb + (u32)LSS - 1) / (u32)LSS - 1);
		p->has_name = 1; memcpy(p->name, e, 8); p->name[8] = 0;
		if (p->name[0] && !strncmp(p->name, (char *)b + 8, 8)) p->boot = 4;
	}
}
static int asum(const u8 *b) { u32 n = be32(b + 4), s = 0; if (n > 128 || n < 3) return 0; for (u32 i = 0; i < n; i++) s += be32(b + 4 * i); return s == 0; }
static void dec_amiga(Dec *d)
{
	u8 r[8192], b[8192]; int at = -1;
	for (int i = 0; i < 16 && i < LEN; i++) { rd(i, r); if (be32(r) == 0x5244534b) { at = i; break; } }
	if (at < 0) { err(d, "no RDSK block"); return; }
	if (!asum(r)) err(d, "RDSK checksum");
	d->ok = 1;
	i64 cyl = (i64)be32(r + 4 * 18) * be32(r + 4 * 17);
	u32 lo = be32(r + 128), hi = be32(r + 132);
	meta(d, lo, hi); meta(d, at, at);
	if (be32(r + 16) != (u32)LSS) err(d, "block size %u", be32(r + 16));
	u32 nx = be32(r + 28); int n = 1;
	while (nx != 0xffffffffu) {
		if (n > 128 || nx >= LEN) { err(d, "partition list"); break; }
		if (nx < lo || nx > hi) err(d, "partition block %u outside the reserved area %u..%u", nx, lo, hi);
		if (nx > be32(r + 4 * 38)) err(d, "partition block %u above HighRDSKBlock", nx);
		rd(nx, b);
		if (be32(b) != 0x50415254) { err(d, "block %u is no PART block", nx); break; }
		if (!asum(b)) err(d, "checksum of block %u", nx);
		typeof(&d->p[0]) p = addp(d, n++, 0, be32(b + 4 * 41) * cyl, ((i64)be32(b + 4 * 42) + 1) * cyl - 1);
		p->has_name = 1; int l = b[36]; if (l > 31) l = 31; memcpy(p->name, b + 37, (size_t)l); p->name[l] = 0;
		p->boot = be32(b + 20) & 1;
		if (p->e >= LEN || p->s <= (i64)hi) err(d, "partition %d at %lld..%lld", n - 1, (long long)p->s, (long long)p->e);
		nx = be32(b + 16);
	}
}
static void dec_atari(Dec *d)
{
	u8 b[8192], c[8192]; rd(0, b);
	if (LSS != 512) { err(d, "sector size"); return; }
	d->ok = 1; meta(d, 0, 0);
	if (be32(b + 0x1c2) != (u32)LEN) err(d, "disk size field %u", be32(b + 0x1c2));
	u32 bs = be32(b + 0x1f6), bc = be32(b + 0x1fa);
	if (bc && bc < 1000) meta(d, bs, (i64)bs + bc - 1);
	int n = 1, xgm = 0;
	for (int i = 0; i < 4; i++) {
		u8 *e = b + 0x1c6 + 12 * i;
		if (!(e[0] & 1)) continue;
		i64 s = be32(e + 4), l = be32(e + 8);
		int x = !memcmp(e + 1, "XGM", 3);
		addp(d, n++, x ? 2 : 0, s, s + l - 1);
		if (s + l > LEN || !s || !l) err(d, "entry %d outside the device", i);
		if (x) {
			if (xgm++) { err(d, "two XGM entries"); continue; }
			i64 cur = s; int g = 0;
			while (g++ < 100) {
				rd(cur, c);
				meta(d, cur, cur);
				u8 *f = c + 0x1c6; if (!(f[0] & 1)) { if (g > 1) err(d, "empty ARS in chain"); break; }
				i64 ls = cur + be32(f + 4), ll = be32(f + 8);
				addp(d, n++, 1, ls, ls + ll - 1);
				if (ls <= cur || ls + ll > s + l) err(d, "logical outside the extended partition");
				u8 *y = f + 12; if (!(y[0] & 1)) break;
				if (memcmp(y + 1, "XGM", 3)) { err(d, "chain entry id"); break; }
				i64 nx = s + be32(y + 4); if (nx <= s || nx >= s + l) { err(d, "chain"); break; }
				cur = nx;
			}
		}
	}
	if (!xgm) for (int i = 0; i < 8; i++) {
		u8 *e = b + 0x156 + 12 * i;
		static const char *const icd[] = { "BGM", "GEM", "LNX", "SWP", "RAW" };
		int kn = 0; for (int k = 0; k < 5; k++) if (!memcmp(e + 1, icd[k], 3)) kn = 1;
		if (!i && (!(e[0] & 1) || !kn || !be32(e + 4) || !be32(e + 8) || be32(e + 4) + (i64)be32(e + 8) > LEN)) break;
		if (!(e[0] & 1) || !kn) continue;
		i64 s = be32(e + 4), l = be32(e + 8);
		if (!s || !l || s + l > LEN) continue;
		addp(d, n++, 0, s, s + l - 1);
	}
}
int decode(const Store *st, int dev, const char *label, Dec *d)
{
	memset(d, 0, offsetof(Dec, p)); d->nmeta = 0; memset(d->duuid, 0, 16); d->other = 0; d->ok = 0; d->err[0] = 0;
	snprintf(d->label, sizeof d->label, "%s", label);
	ST0 = st; DV = dev; LSS = W->dev[dev].lss; LEN = (i64)(W->dev[dev].bytes / (u64)LSS);
	static const struct { const char *n; void (*f)(Dec *); } t[] = { { "gpt", dec_gpt }, { "msdos", dec_msdos }, { "sun", dec_sun }, { "bsd", dec_bsd }, { "pc98", dec_pc98 }, { "mac", dec_mac }, { "dvh", dec_dvh }, { "amiga", dec_amiga }, { "atari", dec_atari } };
	for (size_t i = 0; i < sizeof t / sizeof *t; i++) if (!strcmp(t[i].n, label)) { t[i].f(d); return 1; }
	return 0;
}
