/* C17: damage to one copy of a GPT, growing devices, and their repair.
   Included by exec.c. */
u32 crc32_gpt(const u8 *p, size_t n);
static int is_noedit(const Session *s) { return (s->kind == SK_API || s->kind == SK_CLI) && s->a[4] == 17; }
static u64 g64(const u8 *p) { u64 v = 0; for (int i = 7; i >= 0; i--) v = v << 8 | p[i]; return v; }
static u32 g32(const u8 *p) { return p[0] | p[1] << 8 | p[2] << 16 | (u32)p[3] << 24; }
static void p64(u8 *p, u64 v) { for (int i = 0; i < 8; i++) p[i] = (u8)(v >> 8 * i); }
static void p32(u8 *p, u32 v) { for (int i = 0; i < 4; i++) p[i] = (u8)(v >> 8 * i); }
static void bad_add(int dev, u64 from, u64 len, int mode)
{
	if (W->nbad >= 8) return;
	W->bad[W->nbad].dev = dev; W->bad[W->nbad].from = from; W->bad[W->nbad].to = from + len; W->bad[W->nbad].mode = mode; W->nbad++;
}
static void do_tamper(Session *s)
{
	int di = (int)((u64)s->a[2] % (u64)W->ndev); u64 lss = (u64)W->dev[di].lss;
	static Dec d; static u8 h[8192], o[8192], arr[4096 * 512];
	if (!known[di].valid || !known[di].s.ok || strcmp(known[di].s.label, "gpt")) return;
	if (W->nbad || !decode(&W->cur, di, "gpt", &d) || (d.other & 3) != 3 || d.nerr) return;
	damaged[di] = 0;
	dev_peek(di, lss, h, lss);
	u64 alt = g64(h + 32);
	int which = s->a[4] & 1; u64 my = which ? alt : 1;
	if (which) dev_peek(di, alt * lss, h, lss);
	dev_peek(di, (which ? 1 : alt) * lss, o, lss);
	u64 pte = g64(h + 72); u32 num = g32(h + 80), esz = g32(h + 84); u64 n = (u64)num * esz;
	if (n > sizeof arr) return;
	dev_peek(di, pte * lss, arr, n);
	for (int k = 0; k < s->nst; k++) {
		Step *t = &s->st[k]; Rng r = { (u64)t->a[2] * 77 + 5 };
		switch (t->a[0] % 12) {
		case 0: for (int i = 0, c = 1 + (int)(t->a[1] % 8); i < c; i++) { u64 b = rng_below(&r, 92 * 8); h[b / 8] ^= (u8)(1 << (b % 8)); } break;
		case 1: memset(h, 0, lss); break;
		case 2: for (u64 i = 0; i < lss; i++) h[i] = (u8)rng_next(&r); break;
		case 3: for (int i = 0, c = 1 + (int)(t->a[1] % 8); i < c; i++) { u64 b = rng_below(&r, n * 8); arr[b / 8] ^= (u8)(1 << (b % 8)); } break;
		case 4: memset(arr, 0, n); break;
		case 5: { u64 q = rng_below(&r, (n + 511) / 512) * 512; for (u64 i = q; i < q + 512 && i < n; i++) arr[i] = (u8)rng_next(&r); break; }
		case 6: memset(h, 0, lss); memset(arr, 0, n); break;
		case 7: memcpy(h, o, lss); break;
		case 8: case 9: {   /* a wrong field under a right checksum */
			u32 v = (u32)rng_next(&r);
			switch (t->a[1] % 6) {
			case 0: p64(h + 24, my + 1 + rng_below(&r, 9)); break;                 /* MyLBA */
			case 1: p32(h + 12, v % 92); break;                                    /* HeaderSize */
			case 2: p64(h + 40, rng_below(&r, 3)); break;                          /* FirstUsable in the header */
			case 3: p64(h + 48, rng_below(&r, g64(h + 40))); break;                /* LastUsable < FirstUsable */
			case 4: p32(h + 84, v % 128); break;                                   /* entry size */
			case 5: p32(h + 88, g32(h + 88) ^ (1 + v % 1000)); break;              /* CRC of the entries */
			}
			u32 hs = g32(h + 12); if (hs > lss) hs = 92;
			p32(h + 16, 0); p32(h + 16, crc32_gpt(h, hs)); break;
		}
		case 10: bad_add(di, my * lss, lss, 1); break;
		case 11: bad_add(di, (pte + rng_below(&r, (n + lss - 1) / lss)) * lss, lss, 1); break;
		}
		ST->faults[0]++;
	}
	dev_poke(di, my * lss, h, lss); dev_poke(di, pte * lss, arr, n);
	damaged[di] |= which ? 2 : 1;
}
static void do_resizedev(Session *s)
{
	int di = (int)((u64)s->a[2] % (u64)W->ndev);
	static Dec d;
	if (W->nbad || !decode(&W->cur, di, "gpt", &d) || !(d.other & 1) || (damaged[di] & 1 && d.nerr)) return;   /* with the primary gone nothing would lead to the old backup */
	W->dev[di].bytes += (u64)s->a[0] * (u64)W->dev[di].lss;
	if (known[di].valid) known[di].s.len = (i64)(W->dev[di].bytes / (u64)W->dev[di].lss);
}
/* sessions which only read, or accept the offered repair */
static void repair_after(Session *s, int idx, Rng *r)
{
	char ctx[80], m[300]; snprintf(ctx, sizeof ctx, "session %d", idx);
	int di = (int)(s->a[s->kind == SK_API ? 0 : 2] % W->ndev); u64 lss = (u64)W->dev[di].lss;
	Known *K = &known[di];
	int killed = R->status == 77;
	int refused = 0, grow_fix = 0, grown = 0, ignored = 0;
	crash_check_result(s->kind == SK_CLI ? "parted" : "the session", oom_plan);
	if (!K->valid || !K->s.ok || R->sig || R->hang) return;
	for (int i = 0; i < R->nexc; i++) {
		if (strstr(R->exc[i].msg, "GPT") && R->exc[i].answer == PED_EXCEPTION_CANCEL) refused = 1;
		if (strstr(R->exc[i].msg, "Not all of the space") || strstr(R->exc[i].msg, "not at the end of the disk")) { grown = 1; if (R->exc[i].answer == PED_EXCEPTION_FIX) grow_fix = 1; }
		if (R->exc[i].answer == PED_EXCEPTION_IGNORE && !strstr(R->exc[i].msg, "Not all of the space") && !strstr(R->exc[i].msg, "not at the end of the disk")) ignored = 1;
	}
	int inj = 0; for (int i = 0; i < W->nfault; i++) if (W->fault[i].fired) inj = 1;
	int committed = 0;
	for (int k = 0; k < R->nop; k++) {
		OpRec *o = &R->op[k];
		if (o->op == OP_RELOAD && o->log1) {
			NT_hit();
			if (!o->rc && !refused && !inj && s->policy != XP_CANCEL) pviol("C17", "%s: the table cannot be read although one copy of the GPT is intact (%s damaged): %s", ctx, damaged[di] == 3 ? "both at times" : damaged[di] == 2 ? "backup" : damaged[di] == 1 ? "primary" : "none", R->nexc ? R->exc[R->nexc - 1].msg : "");
			if (o->rc && o->post >= 0 && !ignored && snap_cmp(&K->s, &R->snap[o->post], SC_STORED, m, sizeof m)) pviol("C17", "%s: the table read from the intact copy is not the one that was written: %s", ctx, m);
		}
		if (o->op == OP_COMMIT || o->op == OP_COMMITDEV) {
			if (o->rc && !o->ign && !ignored) committed = 1;
		}
	}
	/* the range of a partition is never written */
	for (int i = 0; i < W->nlog; i++) if (W->log[i].kind == LW_WRITE && W->log[i].dev == di) {
		i64 a = (i64)(W->log[i].off / lss), b = (i64)((W->log[i].off + W->log[i].len - 1) / lss);
		for (int k = 0; k < K->s.np; k++) if (b >= K->s.p[k].s && a <= K->s.p[k].e) { pviol("C17", "%s: sectors %lld..%lld of partition %d were written by a repair", ctx, (long long)a, (long long)b, K->s.p[k].num); return; }
	}
	int wrote = 0; for (int i = 0; i < W->nlog; i++) if (W->log[i].kind == LW_WRITE) wrote++;
	if (wrote && !committed && !grow_fix && !killed && !inj) { int c = 0; for (int k = 0; k < R->nop; k++) if (R->op[k].op == OP_COMMIT || R->op[k].op == OP_COMMITDEV) c = 1; if (!c) pviol("C17", "%s: the device was written although nobody agreed to a repair", ctx); }
	/* whatever happened, the table is still there */
	int st; read_disk(di, 6, &tmpS, &st);
	if (st == 9) { R = RREAD; crash_check_result("reading after the repair", 0); R = RMAIN; return; }
	if (!ignored && (st || snap_cmp(&K->s, &tmpS, SC_STORED, m, sizeof m))) { pviol("C17", "%s: after a repair that was %s the table %s", ctx, killed ? "interrupted" : inj ? "hit by errors" : committed || grow_fix ? "accepted" : "not made", st ? "cannot be read" : m); return; }
	if (wrote && !ignored) for (int v = 0; v < 6; v++) {
		crash_state(&W->dur, &W->base, (int)rng_below(r, (u64)W->nlog + 1), v < 5 ? r : NULL, v == 4 ? 0 : 1 + v % 3);
		swap_in(&W->dur);
		read_disk(di, 6, &tmpS, &st);
		swap_in(&W->dur);
		ST->crash_states++;
		if (st == 9) { R = RREAD; crash_check_result("reading after an interrupted repair", 0); R = RMAIN; return; }
		if (st || snap_cmp(&K->s, &tmpS, SC_STORED, m, sizeof m)) { pviol("C17", "%s: power cut during a repair: the table %s", ctx, st ? "cannot be read" : m); return; }
	}
	if (killed || inj || ignored || !(committed || grow_fix)) return;
	/* repaired: both copies are valid and in their places, and nobody complains any more */
	static Dec d; decode(&W->cur, di, "gpt", &d);
	if ((d.other & 3) != 3) { pviol("C17", "%s: after the repair the %s copy is still invalid: %s", ctx, d.other & 1 ? "backup" : "primary", d.err); return; }
	read_disk(di, 6, &tmpS, &st);
	for (int i = 0; i < RREAD->nexc; i++) if (strstr(RREAD->exc[i].msg, "GPT") && !(grown && !grow_fix)) { pviol("C17", "%s: after the repair the table still draws a complaint: %s", ctx, RREAD->exc[i].msg); return; }
	damaged[di] = 0; W->nbad = 0;
	if (grown && !grow_fix) return;
	match_dec("C07", di, &K->s, ctx);
	static u8 h[8192]; dev_peek(di, lss, h, lss);
	u64 len = W->dev[di].bytes / lss, n = ((u64)g32(h + 80) * g32(h + 84) + lss - 1) / lss; if (n < (16384 + lss - 1) / lss) n = n;
	if (g64(h + 32) != len - 1) { pviol("C17", "%s: after the repair the backup is at %llu, not in the last sector %llu", ctx, (unsigned long long)g64(h + 32), (unsigned long long)len - 1); return; }
	if (grow_fix) {
		if (g64(h + 48) != len - 2 - n) pviol("C17", "%s: after the fix the last usable sector is %llu instead of %llu", ctx, (unsigned long long)g64(h + 48), (unsigned long long)(len - 2 - n));
		i64 last = -1;
		for (int i = 0; i < tmpS.nr; i++) if (tmpS.r[i].type & PED_PARTITION_FREESPACE && tmpS.r[i].e > last) last = tmpS.r[i].e;
		for (int i = 0; i < tmpS.np; i++) if (tmpS.p[i].e > last) last = tmpS.p[i].e;
		if (!tmpS.trunc && last != (i64)(len - 2 - n)) pviol("C17", "%s: after the fix the usable space ends at %lld instead of %lld", ctx, (long long)last, (long long)(len - 2 - n));
	}
	if (K->s.len != (i64)len) K->s.len = (i64)len;
}
