/* C11: arbitrary and crafted device contents. */
#include "h.h"
u32 crc32_gpt(const u8 *p, size_t n);
static Rng Q; static int DI; static u64 LS, LENB;
static u64 g_le(const u8 *p, int n) { u64 v = 0; for (int i = n - 1; i >= 0; i--) v = v << 8 | p[i]; return v; }
static void p_le(u8 *p, int n, u64 v) { for (int i = 0; i < n; i++) p[i] = (u8)(v >> 8 * i); }
static void p_be(u8 *p, int n, u64 v) { for (int i = 0; i < n; i++) p[n - 1 - i] = (u8)(v >> 8 * i); }
static u64 nasty(void)
{
	u64 len = LENB / LS;
	static const u64 v[] = { 0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 0x7f, 0x80, 0xff, 0x100, 0x1ff, 0x200, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL, 63, 62, 128, 1024, 4096, 34, 20, 22, 0x20000000, 0x02000000, 92, 512 };
	switch (rng_below(&Q, 6)) {
	case 0: return len - 3 + rng_below(&Q, 6);
	case 1: return rng_below(&Q, len + 10);
	case 2: return rng_next(&Q) >> rng_below(&Q, 64);
	default: return v[rng_below(&Q, sizeof v / sizeof *v)];
	}
}
/* sectors of the device which differ from what was never written */
static u64 used[4096]; static int nused;
static void find_used(void)
{
	static u8 a[4096], b[4096];
	nused = 0; store_clear(&W->scratch);
	for (u32 i = 0; i < W->cur.n && nused < 4090; i++) {
		if ((int)W->cur.idx[i].dev != DI) continue;
		u64 off = W->cur.idx[i].no * PGSZ;
		if (off + PGSZ > LENB) continue;
		store_read(&W->cur, DI, off, a, PGSZ); store_read(&W->scratch, DI, off, b, PGSZ);
		for (int k = 0; k < PGSZ; k += 512) if (memcmp(a + k, b + k, 512)) { int z = 1; for (int j = 0; j < 512; j++) if (a[k + j]) z = 0; if (!z || rng_below(&Q, 20) == 0) used[nused++] = (off + (u64)k) / 512; }
	}
}
static u64 pick_used(void)   /* in units of 512 bytes */
{
	if (!nused || rng_pct(&Q, 5)) return rng_below(&Q, 64) < LENB / 512 ? rng_below(&Q, 64) : 0;
	if (rng_pct(&Q, 40)) { int m = nused < 6 ? nused : 6; u64 best = ~0ULL; for (int i = 0; i < m; i++) { u64 u = used[rng_below(&Q, (u64)nused)]; if (u < best) best = u; } return best; }
	return used[rng_below(&Q, (u64)nused)];
}
static void peek(u64 s, u8 *b) { dev_peek(DI, s * 512, b, 512); }
static void poke(u64 s, const u8 *b) { if (s * 512 + 512 <= LENB) dev_poke(DI, s * 512, b, 512); }
static void fix_gpt(u64 lba)
{
	static u8 h[8192], e[1 << 20];
	if (lba >= LENB / LS) return;
	dev_peek(DI, lba * LS, h, LS);
	if (memcmp(h, "EFI PART", 8)) return;
	u64 pte = g_le(h + 72, 8), n = g_le(h + 80, 4) * g_le(h + 84, 4);
	if (pte < LENB / LS && n <= sizeof e && pte * LS + n <= LENB) { dev_peek(DI, pte * LS, e, n); p_le(h + 88, 4, crc32_gpt(e, n)); }
	u64 hs = g_le(h + 12, 4); if (hs > LS || hs < 20) hs = 92;
	p_le(h + 16, 4, 0); p_le(h + 16, 4, crc32_gpt(h, hs));
	dev_poke(DI, lba * LS, h, LS);
}
static void fix_sums(void)
{
	u8 b[8192];
	fix_gpt(1); fix_gpt(LENB / LS - 1);
	/* sun: xor of 256 big endian halfwords is 0 */
	peek(0, b);
	if (b[508] == 0xda && b[509] == 0xbe) { u8 x = 0, y = 0; for (int i = 0; i < 510; i += 2) { x ^= b[i]; y ^= b[i + 1]; } b[510] = x; b[511] = y; poke(0, b); }
	/* dvh: sum of 128 big endian words is 0 */
	if (b[0] == 0x0b && b[1] == 0xe5 && b[2] == 0xa9 && b[3] == 0x41) {
		u32 s = 0; for (int i = 0; i < 512; i += 4) if (i != 504) s += (u32)b[i] << 24 | b[i + 1] << 16 | b[i + 2] << 8 | b[i + 3];
		p_be(b + 504, 4, 0 - s); poke(0, b);
	}
	/* bsd: at byte 64 of the first sector */
	if (g_le(b + 64, 4) == 0x82564557) {
		int np = (int)g_le(b + 64 + 138, 2); if (np > 8) np = 8;
		b[64 + 136] = b[64 + 137] = 0; u8 x = 0, y = 0;
		for (int i = 64; i < 64 + 148 + np * 16 && i + 1 < 512; i += 2) { x ^= b[i]; y ^= b[i + 1]; }
		b[64 + 136] = x; b[64 + 137] = y; poke(0, b);
	}
	/* amiga blocks */
	for (int i = 0; i < nused; i++) {
		peek(used[i], b);
		if (memcmp(b, "RDSK", 4) && memcmp(b, "PART", 4) && memcmp(b, "FSHD", 4) && memcmp(b, "LSEG", 4) && memcmp(b, "BADB", 4)) continue;
		u32 n = (u32)b[4] << 24 | b[5] << 16 | b[6] << 8 | b[7]; if (n > 128 || n < 3) n = 64;
		u32 s = 0; for (u32 k = 0; k < n; k++) if (k != 2) s += (u32)b[4 * k] << 24 | b[4 * k + 1] << 16 | b[4 * k + 2] << 8 | b[4 * k + 3];
		p_be(b + 8, 4, 0 - s); poke(used[i], b);
	}
}
/* superblocks of file systems, with arbitrary fields */
static void fs_magic(u64 at)    /* byte offset */
{
	static u8 b[70000]; u64 n = LENB - at < sizeof b ? LENB - at : sizeof b;
	if (at >= LENB) return;
	dev_peek(DI, at, b, n);
	int k = (int)rng_below(&Q, 22);
	int fill = (int)rng_below(&Q, 3);
	if (n < 70000) return;
	if (fill == 0) memset(b, 0, 9000); else if (fill == 1) for (int i = 0; i < 9000; i++) b[i] = (u8)rng_next(&Q);
	switch (k) {
	case 0: b[1024 + 56] = 0x53; b[1024 + 57] = 0xef; p_le(b + 1024 + 24, 4, rng_below(&Q, 4)); break;
	case 1: memcpy(b + 54, "FAT16   ", 8); b[510] = 0x55; b[511] = 0xaa; b[0] = 0xeb; p_le(b + 11, 2, 512); b[13] = (u8)nasty(); p_le(b + 14, 2, nasty()); b[16] = 2; p_le(b + 22, 2, nasty()); p_le(b + 17, 2, nasty()); p_le(b + 19, 2, nasty()); break;
	case 2: memcpy(b + 82, "FAT32   ", 8); b[510] = 0x55; b[511] = 0xaa; p_le(b + 11, 2, nasty()); b[13] = (u8)nasty(); p_le(b + 36, 4, nasty()); p_le(b + 32, 4, nasty()); break;
	case 3: memcpy(b + 3, "NTFS    ", 8); b[510] = 0x55; b[511] = 0xaa; p_le(b + 40, 8, nasty()); break;
	case 4: memcpy(b + 1024, "H+", 2); p_be(b + 1026, 2, 4); p_be(b + 1024 + 40, 4, nasty()); p_be(b + 1024 + 44, 4, nasty()); break;
	case 5: memcpy(b + 1024, "BD", 2); p_be(b + 1024 + 18, 2, nasty()); p_be(b + 1024 + 20, 4, nasty()); p_be(b + 1024 + 28, 2, nasty()); if (rng_pct(&Q, 50)) { memcpy(b + 1024 + 124, "H+", 2); p_be(b + 1024 + 126, 2, nasty()); } break;
	case 6: memcpy(b + 32768, "JFS1", 4); p_le(b + 32768 + 8, 8, nasty()); p_le(b + 32768 + 16, 4, nasty()); p_le(b + 32768 + 24, 4, nasty()); break;
	case 7: memcpy(b, "XFSB", 4); p_be(b + 4, 4, nasty()); p_be(b + 8, 8, nasty()); break;
	case 8: p_be(b + 8192 + 1372, 4, 0x00011954); p_le(b + 8192 + 1372, 4, 0x00011954); p_le(b + 8192 + 48, 4, nasty()); break;
	case 9: memcpy(b + 65536 + 52, "ReIsEr2Fs", 9); p_le(b + 65536, 4, nasty()); p_le(b + 65536 + 44, 2, nasty()); break;
	case 10: memcpy(b + 65536 + 64, "_BHRfS_M", 8); break;
	case 11: memcpy(b + 4096 - 10, "SWAPSPACE2", 10); p_le(b + 1024, 4, 1); p_le(b + 1028, 4, nasty()); break;
	case 12: memcpy(b + 4096 - 10, "SWAP-SPACE", 10); break;
	case 13: p_le(b + 1024, 4, 0xF2F52010); break;
	case 14: p_le(b + 1024 + 6, 2, 0x3434); p_le(b + 1024 + 4, 2, nasty()); p_le(b + 1024 + 0x10, 2, nasty()); p_le(b + 1024 + 8, 2, nasty()); break;
	case 15: for (int i = 0; i < 8; i++) { u8 *v = b + 32768 + 2048 * i; v[0] = 0; memcpy(v + 1, i == 0 ? "BEA01" : i == 1 ? "NSR03" : "TEA01", 5); v[6] = 1; } break;
	case 16: memcpy(b, "DOS", 3); b[3] = (u8)rng_below(&Q, 8); p_be(b + 8, 4, nasty()); break;
	case 17: memcpy(b, "PFS", 3); b[3] = 1; break;
	case 18: memcpy(b, "SFS", 3); b[3] = 0; break;
	case 19: memcpy(b + 1024, "KBA", 3); memcpy(b + 1024 + 54, "BTRFS", 5); break;
	case 20: memcpy(b + 4096 - 10, "S1SUSPEND", 9); break;
	default: b[510] = 0x55; b[511] = 0xaa; break;
	}
	for (int i = 0, c = (int)rng_below(&Q, 4); i < c; i++) { u64 o = rng_below(&Q, 1100) + (rng_pct(&Q, 50) ? 0 : 1024); p_le(b + o, (int)(1u << rng_below(&Q, 3)), nasty()); }
	dev_poke(DI, at, b, n);
}
void do_image(Session *s)
{
	u8 b[512], c[512];
	DI = (int)((u64)s->a[2] % (u64)W->ndev); LS = (u64)W->dev[DI].lss; LENB = W->dev[DI].bytes;
	Q.s = (u64)s->a[1] * 1000003 + 7;
	find_used();
	for (int k = 0; k < s->nst; k++) {
		Step *t = &s->st[k]; Q.s ^= (u64)t->a[1] * 0x9e3779b97f4a7c15ULL;
		u64 u = pick_used(), v = pick_used();
		peek(u, b);
		switch (t->a[0]) {
		case 0: for (int i = 0, n = 1 + (int)rng_below(&Q, 8); i < n; i++) { u64 q = rng_below(&Q, 4096); b[q / 8] ^= (u8)(1 << (q & 7)); } poke(u, b); break;
		case 1: for (int i = 0, n = 1 + (int)rng_below(&Q, 4); i < n; i++) { int z = 1 << rng_below(&Q, 4); u64 o = rng_below(&Q, (u64)(512 / z)) * (u64)z; if (rng_pct(&Q, 50)) p_le(b + o, z, nasty()); else p_be(b + o, z, nasty()); } poke(u, b); break;
		case 2: memset(b, 0, 512); poke(u, b); break;
		case 3: for (int i = 0; i < 512; i++) b[i] = (u8)rng_next(&Q); poke(u, b); break;
		case 4: poke(v, b); break;
		case 5: u = rng_below(&Q, 80); for (int i = 0; i < 512; i++) b[i] = (u8)rng_next(&Q); poke(u, b); break;
		case 6: memset(b, 0xff, 512); poke(u, b); break;
		case 7: peek(v, c); poke(u, c); poke(v, b); break;
		case 8: {   /* MBR and EBR entries */
			if (b[510] != 0x55 || b[511] != 0xaa) { u = 0; peek(0, b); }
			for (int i = 0, n = 1 + (int)rng_below(&Q, 3); i < n; i++) {
				u8 *e = b + 446 + 16 * rng_below(&Q, 4);
				static const u8 ty[] = { 0, 5, 0xf, 0x85, 0xee, 0x83, 0x82, 7, 0xc, 0xde, 0xef, 0xa5, 0x8e, 0xfd, 0x12 };
				switch (rng_below(&Q, 6)) {
				case 0: e[4] = ty[rng_below(&Q, 15)]; break;
				case 1: p_le(e + 8, 4, nasty()); break;
				case 2: p_le(e + 12, 4, nasty()); break;
				case 3: p_le(e + 8, 4, pick_used() * 512 / LS); break;
				case 4: e[0] = (u8)nasty(); break;
				default: e[1 + rng_below(&Q, 3)] = (u8)nasty(); e[5 + rng_below(&Q, 3)] = (u8)nasty(); break;
				}
			}
			b[510] = 0x55; b[511] = 0xaa;
			poke(u, b); break;
		}
		case 9: {   /* GPT headers */
			static const u8 of[] = { 8, 12, 24, 32, 40, 48, 72, 80, 84, 56, 20 }, sz[] = { 4, 4, 8, 8, 8, 8, 8, 4, 4, 8, 4 };
			u64 at = rng_pct(&Q, 60) ? LS : LENB - LS; u8 h[512]; dev_peek(DI, at, h, 512);
			for (int i = 0, n = 1 + (int)rng_below(&Q, 2); i < n; i++) { int q = (int)rng_below(&Q, 11); u64 o = of[q]; u64 x = nasty(); if (rng_pct(&Q, 40)) x = g_le(h + o, sz[q]) + rng_below(&Q, 5) - 2; if (rng_pct(&Q, 15) && sz[q] == 4) x = g_le(h + o, 4) << rng_below(&Q, 12); p_le(h + o, sz[q], x); }
			dev_poke(DI, at, h, 512); fix_gpt(at / LS); break;
		}
		case 10: {  /* GPT entries, in both copies */
			u8 h[512]; dev_peek(DI, LS, h, 512);
			u64 p1 = g_le(h + 72, 8), alt = g_le(h + 32, 8); if (memcmp(h, "EFI PART", 8) || p1 > LENB / LS || alt >= LENB / LS) break;
			u8 h2[512]; dev_peek(DI, alt * LS, h2, 512); u64 p2 = g_le(h2 + 72, 8); if (p2 >= LENB / LS) p2 = p1;
			u64 i = rng_below(&Q, 10), o = rng_below(&Q, 9) * 8; u64 x = nasty(); u8 e[128];
			if (rng_pct(&Q, 20)) i = rng_below(&Q, 128);
			if (p1 * LS + i * 128 + 128 > LENB || p2 * LS + i * 128 + 128 > LENB) break;
			dev_peek(DI, p1 * LS + i * 128, e, 128);
			if (rng_pct(&Q, 20)) for (int z = 56; z < 128; z++) e[z] = (u8)rng_next(&Q); else p_le(e + o, 8, x);
			if (rng_pct(&Q, 30)) p_le(e + 16, 8, rng_next(&Q));
			dev_poke(DI, p1 * LS + i * 128, e, 128); dev_poke(DI, p2 * LS + i * 128, e, 128);
			fix_gpt(1); fix_gpt(alt); break;
		}
		case 11: fs_magic(rng_pct(&Q, 50) ? 0 : (u64)t->a[2] % (LENB / 512) * 512); break;
		case 12: {  /* magic numbers of labels on arbitrary contents */
			for (int i = 0; i < 512; i++) b[i] = rng_pct(&Q, 50) ? (u8)rng_next(&Q) : 0;
			u64 at = 0;
			switch (rng_below(&Q, 11)) {
			case 0: b[510] = 0x55; b[511] = 0xaa; for (int i = 0; i < 4; i++) { u8 *e = b + 446 + 16 * i; e[0] = rng_pct(&Q, 50) ? 0 : 0x80; if (rng_pct(&Q, 60)) { p_le(e + 8, 4, nasty()); p_le(e + 12, 4, nasty()); } } break;
			case 1: b[508] = 0xda; b[509] = 0xbe; p_be(b + 432, 2, nasty()); p_be(b + 436, 2, nasty()); p_be(b + 438, 2, nasty()); break;
			case 2: memcpy(b, "ER", 2); p_be(b + 2, 2, rng_pct(&Q, 70) ? 512 : nasty()); p_be(b + 4, 4, nasty()); for (int i = 1; i < 8; i++) { u8 q[512]; for (int z = 0; z < 512; z++) q[z] = (u8)(rng_pct(&Q, 50) ? rng_next(&Q) : 0); memcpy(q, "PM", 2); p_be(q + 4, 4, rng_pct(&Q, 80) ? 3 : nasty()); p_be(q + 8, 4, nasty()); p_be(q + 12, 4, nasty()); if (rng_pct(&Q, 60)) memcpy(q + 48, "Apple_partition_map", 20); poke((u64)i, q); } break;
			case 3: p_be(b, 4, 0x0be5a941); break;
			case 4: p_le(b + 64, 4, 0x82564557); p_le(b + 64 + 132, 4, 0x82564557); break;
			case 5: memcpy(b, "RDSK", 4); p_be(b + 4, 4, rng_pct(&Q, 70) ? 64 : nasty()); for (int i = 16; i < 200; i += 4) if (rng_pct(&Q, 50)) p_be(b + i, 4, nasty()); at = rng_below(&Q, 16); break;
			case 6: b[510] = 0x55; b[511] = 0xaa; memcpy(b + 4, "IPL1", 4); break;
			case 7: p_be(b + 0x1c2, 4, nasty()); for (int i = 0; i < 4; i++) { u8 *e = b + 0x1c6 + 12 * i; e[0] = 1; memcpy(e + 1, rng_pct(&Q, 50) ? "GEM" : rng_pct(&Q, 50) ? "XGM" : "BGM", 3); p_be(e + 4, 4, nasty()); p_be(e + 8, 4, nasty()); } break;
			case 8: p_be(b, 4, 0xc9c2d4c1); break;
			case 9: memcpy(b, "GNU Parted Loopback 0", 21); break;
			default: p_le(b + 0, 8, nasty()); break;
			}
			used[nused < 4095 ? nused++ : 0] = at;
			poke(at, b); break;
		}
		case 13: {  /* an EBR chain that leads where it should not */
			u8 m[512]; peek(0, m); int x = -1;
			for (int i = 0; i < 4; i++) { int ty = m[446 + 16 * i + 4]; if (ty == 5 || ty == 0xf || ty == 0x85) x = i; }
			if (x < 0) break;
			u64 base = g_le(m + 446 + 16 * x + 8, 4), at = base; u8 e[512];
			for (int d = (int)rng_below(&Q, 5); d > 0; d--) { if ((at + 1) * LS > LENB) break; dev_peek(DI, at * LS, e, 512); u64 nx = g_le(e + 446 + 16 + 8, 4); if (!nx) break; at = base + nx; }
			if ((at + 1) * LS > LENB) break;
			dev_peek(DI, at * LS, e, 512);
			e[446 + 16 + 4] = 5;
			switch (rng_below(&Q, 4)) { case 0: p_le(e + 446 + 16 + 8, 4, at - base); break; case 1: p_le(e + 446 + 16 + 8, 4, 0); break; case 2: p_le(e + 446 + 16 + 8, 4, nasty()); break; default: p_le(e + 446 + 16 + 8, 4, rng_below(&Q, at - base + 2)); break; }
			if (rng_pct(&Q, 60)) p_le(e + 446 + 16 + 12, 4, nasty());
			if (rng_pct(&Q, 30)) p_le(e + 446 + 8, 4, nasty());
			if (rng_pct(&Q, 20)) p_le(e + 446 + 12, 4, nasty());
			if (rng_pct(&Q, 20)) e[446 + 32 + 4] = 5, p_le(e + 446 + 32 + 8, 4, rng_below(&Q, at - base + 2)), p_le(e + 446 + 32 + 12, 4, nasty());
			dev_poke(DI, at * LS, e, 512); break;
		}
		case 14: {  /* a smaller device */
			u64 nb = rng_pct(&Q, 50) ? LENB - LS * (1 + rng_below(&Q, 64)) : rng_below(&Q, LENB);
			nb -= nb % LS; if (nb >= LS && nb < LENB) { W->dev[DI].bytes = LENB = nb; }
			break;
		}
		}
	}
	if (s->a[3] & 1) fix_sums();
}
