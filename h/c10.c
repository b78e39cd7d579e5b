#include "cpu50.h"
/* ---------------- storage and keys (specification) ---------------- */
static int post_beat(void)            /* R1, R2, R3, W1, and a new cycle only for a request */
{
    int n = o.mem_state == R1 ? R2 : o.mem_state == R2 ? R3 : o.mem_state == R3 ? W1 : o_req() && !s_no_storage() ? R1 : W1;
    return C.mem_state == n;
}
static uint32_t held(void) { return o.bump_mem ? o_bsa : o_msa; }
static int read_now(void) { return o.mem_state == R2 && (!o.update_d || W.tr == 29); }

static int writes(void) { return s_wrote() && (o.bump_mem || o_SA <= mem_max); }
/* an arbitrary word of main storage: only the word of the access in progress changes, to the data register */
static int post_main(void) { return vk_mem[in_a] == (writes() && !o.bump_mem && o_SA >> 2 == in_a ? o.SDR_REG : o_ma); }
static int post_bump(void) { return C.BUMP[in_b] == (writes() && o.bump_mem && (uint32_t)bump_at(o_SA) == in_b ? o.SDR_REG : o_ba); }
static int post_address(void) { return SA == (o.mem_state == W1 ? o.SAR_REG & 0xffffff : o_SA); }
static int post_which(void) { return C.bump_mem == (o.mem_state == W1 && o_req() ? o.init_bump_mem : o.bump_mem); }
/* the word's destination is the data register, and no storage key stands in the way */
static int to_sdr(void) { return W.tr == 4 || W.tr == 13 || W.tr == 17 || W.tr == 29; }
static int sar_first(void) { return W.iv == 4 || W.iv == 7; }          /* the instruction address goes to the address register first */
static int key_ok(void) { return o.KEY == 0 || o.KEY == o_pk; }
static uint32_t T(void) { return C.aob_latch; }
static int post_data(void)
{
    uint32_t d = s_sdr(), n = d;
    if (sar_first() && EX && to_sdr()) return 1;
    if (EX && to_sdr() && key_ok())
        n = W.tr == 13 ? 0 : W.tr == 29 ? (d & ~bytes(o.BS_REG)) | (T() & bytes(o.BS_REG)) : T();
    return C.SDR_REG == n;
}
static int post_store_pending(void)
{
    int u = o.mem_state == W1 ? 0 : o.update_d;
    if (sar_first() && EX && to_sdr()) return 1;
    if (EX && ((to_sdr() && key_ok()) || (W.tr == 8 && (W.ce & 3) == 0))) u = 1;
    return C.update_d == u;
}
/* a protected store traps (and, above, changes nothing) */
static int post_protect(void) { return IMP(EX && to_sdr() && !sar_first() && !key_ok() && W.ss != 5 && W.ss != 6 && !(W.zn == 0 && W.zf == 14), C.ROAR == 0x142); }
/* ---- requests (specification) ---- */
static int refetch(void)              /* the prefetched word is stale: asked for, or just stored into */
{
    return o.REFETCH || (o.mem_state == W1 && o.update_d && !o.bump_mem && o_SA <= mem_max && o_SA >> 2 == o.IA_REG >> 2);
}
static int small_ia(void) { return o.IA_REG <= 0xfffff0; }
static int skip_fetch(void) { return W.zn == 1 && !refetch() && (o.IA_REG & 2); }
static int fetches(void) { return (W.iv == 4 && !(o.IA_REG & 1)) || (W.iv == 7 && !skip_fetch()); }
static uint32_t fetch_at(void) { return W.iv == 4 ? o.IA_REG + 4 : refetch() ? o.IA_REG : o.IA_REG + 2; }
static int tr_asks(void)              /* the destination starts a request */
{
    switch (W.tr) {
    case 6: case 15: case 16: return 1;
    case 8: return (W.ce & 7) != 3 && (W.ce & 7) < 6;
    case 9: return (T() & 0xffffff) <= mem_max;
    case 10: return (T() & 3) == 0;
    case 11: return (T() & 7) == 0;
    }
    return 0;
}
static uint32_t s_SAR_tr(void)
{
    switch (W.tr) {
    case 6: case 9: case 10: case 11: case 15: case 16: return T() & 0xffffff;
    case 8: if ((W.ce & 7) < 3) return 0x80; if ((W.ce & 7) == 4 || (W.ce & 7) == 5) return 0x84; break;
    }
    return fetches() ? fetch_at() : o.SAR_REG;
}
static uint32_t s_w_bump(void) { return ((C.w_bus & 0xc0) << 10) | (W.ce & 3) << 14 | (C.w_bus & 0x3f) << 2; }
static int post_SAR(void) { return IMP(small_ia(), C.SAR_REG == (s_stall() ? o.SAR_REG : W.wm == 8 ? s_w_bump() : s_SAR_tr())); }
static int post_request(void)
{
    int began = o.mem_state == W1 && o_req();
    int i = began ? 0 : o.init_mem, b = began ? 0 : o.init_bump_mem;
    if (EX && (tr_asks() || (fetches() && fetch_at() <= mem_max))) i = 1;
    if (EX && W.wm == 8) b = 1;
    return IMP(small_ia(), C.init_mem == i && C.init_bump_mem == b);
}
static int post_invalid(void)
{
    int v = o.mem_state == W1 && o_req() ? s_no_storage() : o.IVA;
    if (EX && ((W.iv == 4 && (o.IA_REG & 1)) || (fetches() && fetch_at() > mem_max) || (W.tr == 9 && (T() & 0xffffff) > mem_max))) v = 1;
    return IMP(small_ia(), C.IVA == v);
}
static int post_no_storage(void) { return IMP(s_no_storage(), C.ROAR == 0x1c0); }
static int post_alignment(void)
{
    return IMP(EX && ((W.tr == 10 && (T() & 3)) || (W.tr == 11 && (T() & 7))) && W.ss != 5 && W.ss != 6 && !(W.zn == 0 && W.zf == 14), C.ROAR == 0x1c2);
}
static int post_stored_over_fetch(void) /* a store into the prefetched word is noticed */
{
    return IMP(o.mem_state == W1 && o.update_d && !o.bump_mem && o_SA <= mem_max && o_SA >> 2 == o.IA_REG >> 2 && !(EX && W.tr == 25), C.REFETCH == 1);
}
/* ---- storage keys ---- */
static unsigned block(void) { return s_SAR_tr() >> 11 & 0xff; }
static int post_key_array(void)
{
    if (s_stall() || W.ss != 31) return C.MP[in_k] == o_pa;
    if (!small_ia()) return 1;
    if (block() != in_k) return C.MP[in_k] == o_pa;
    return W.wm == 14 || W.wm == 15 || C.MP[in_k] == C.F_REG;
}
static int post_key_read(void) { return IMP(EX && W.ss == 30 && W.wm != 14 && W.wm != 15 && small_ia() && block() == in_k, C.F_REG == o_pa); }
static int post_key(void) { return C.KEY == (EX && W.tr == 28 ? (T() >> 20 & 0xf) : o.KEY); }
/* ---- a word that has to wait is executed later, as if for the first time ---- */
static int post_waits(void)
{
    return IMP(is_stalled(), (C.ROAR == o.ROAR || s_no_storage()) && C.R_REG == o.R_REG && C.L_REG == o.L_REG && C.M_REG == o.M_REG && C.H_REG == o.H_REG
               && C.IA_REG == o.IA_REG && C.SAR_REG == o.SAR_REG && C.LS[in_l] == o_la && C.S_REG == o.S_REG && C.CC == o.CC && C.aob_latch == o.aob_latch
               && C.F_REG == o.F_REG && C.LSA == o.LSA && C.AMWP == o.AMWP && C.ILC == o.ILC && C.FN == o.FN && C.BS_REG == o.BS_REG);
}
static int post_invariant(void) { return (C.mem_state == W1 || C.bump_mem || SA <= mem_max) && (C.mem_state == R1 || C.mem_state == R2 || C.mem_state == R3 || C.mem_state == W1); }
#define PRE pre_cycle()
#define POSTS(X) X(post_beat()) X(post_main()) X(post_bump()) X(post_address()) X(post_which()) X(post_data()) X(post_store_pending()) X(post_protect()) X(post_SAR()) X(post_request()) X(post_invalid()) X(post_no_storage()) X(post_alignment()) X(post_stored_over_fetch()) X(post_key_array()) X(post_key_read()) X(post_key()) X(post_waits()) X(post_invariant())
VK_CONTRACT(void cycle_2050(void), __CPROVER_object_whole(&cpu_2050), __CPROVER_object_whole(vk_mem))
int main(void)
{
    setup();
    VK_RUN(cycle_2050());
    VK_COVER(o.mem_state == W1 && writes() && vk_mem[in_a] == 0x12345678 && o_ma == 1, "store");
    VK_COVER(EX && W.tr == 29 && !key_ok(), "protected store");
    VK_COVER(s_no_storage(), "address beyond storage");
    VK_REACHED("end");
    return 0;
}
