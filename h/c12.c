#include "cpu50.h"
/* ---------------- destinations, local storage, status (specification) ---------------- */
static uint32_t T(void) { return C.aob_latch; }       /* property C08 */
static uint32_t lo24(uint32_t v) { return v & 0xffffff; }
static uint32_t hi8(uint32_t v) { return v & 0xff000000u; }
static int in(int v, int a, int b, int c, int d, int e, int f, int g) { return v == a || v == b || v == c || v == d || v == e || v == f || v == g; }
/* local storage address of the word, and its contents before the word */
static unsigned s_fn(void) { return W.ss == 14 || W.ss == 39 ? (W.ce & 3) << 4 : o.FN; }
static unsigned s_jtr(void) { return W.tr == 25 || W.tr == 31 ? (T() >> 16) & 15 : o.J_REG; }
static unsigned s_LSA(void)
{
    switch (W.ws) {
    case 1: return 0x11;
    case 2: return 0x12;
    case 3: return 0x10 | W.ce;
    case 4: return s_fn() | s_jtr();
    case 5: return s_fn() | s_jtr() | 1;
    case 6: return s_fn() | o.MD_REG;
    case 7: return s_fn() | o.MD_REG | 1;
    }
    return o.LSA;
}
static int post_LSA(void) { return IMP(EX, C.LSA == s_LSA()) && C.LSA < 64; }
/* L and R before local storage is read */
static uint32_t s_L0(void)
{
    if (W.ss == 55) return (uint32_t)A_SW << 8 | (uint32_t)B_SW << 28 | (uint32_t)C_SW << 24;
    switch (W.tr) {
    case 5: return hi8(T()) | lo24(o.L_REG);
    case 30: return hi8(o.L_REG) | lo24(T());
    case 7: case 16: case 24: case 25: case 26: return T();
    }
    return o.L_REG;
}
static int dec_fix(void) { return W.ad >= 8 && W.ad <= 12 && W.ss != 55 && !in(W.tr, 5, 30, 7, 16, 24, 25, 26); }    /* C07 */
static uint32_t s_R0(void)
{
    switch (W.tr) {
    case 1: case 6: case 9: case 10: case 11: case 17: case 19: return T();
    case 2: return hi8(T()) | lo24(o.R_REG);
    case 14: return hi8(o.R_REG) | lo24(T());
    }
    return o.R_REG;
}
/* the word addressed is the arbitrary one, so its contents are known */
static int here(void) { return s_LSA() == in_l; }
static int post_L(void)
{
    if (s_stall()) return 1;
    if (W.sf == 1 || W.sf == 6) return IMP(here(), C.L_REG == o_la);
    return IMP(!dec_fix(), C.L_REG == s_L0());
}
static int post_R(void)
{
    if (s_stall() || W.al == 24) return 1;
    if (W.sf == 2 || W.sf == 5) return IMP(here(), C.R_REG == o_la);
    return C.R_REG == s_R0();
}
static int post_local_storage(void)   /* one word at most changes, the addressed one */
{
    if (s_stall() || !here() || W.sf == 2 || W.sf == 6 || W.sf == 7 || W.sf == 3) return C.LS[in_l] == o_la;
    if (W.sf == 0 || W.sf == 1) return IMP(W.al != 24, C.LS[in_l] == s_R0());
    return IMP(!dec_fix(), C.LS[in_l] == s_L0());
}
static int post_IA(void)
{
    uint32_t ia = o.IA_REG, k = 0xffffff;
    if (s_stall()) return C.IA_REG == o.IA_REG;
    switch (W.iv) {
    case 4: if (!(ia & 1)) ia += 4; break;
    case 5: ia += o.ILC & 2 ? 4 : 2; break;
    case 6: ia += 2; break;
    }
    if (W.tr == 8 && ((W.ce & 7) == 4 || (W.ce & 7) == 5)) ia = 0x84;
    if (W.tr == 12) ia = s_sdr();
    if (W.tr == 21) ia = T();
    return (C.IA_REG & k) == (ia & k);
}
/* instruction word to M, L, J, MD with its length and operand-zero flags */
static int post_decode(void)
{
    unsigned top = T() >> 30;
    if (s_stall() || W.tr != 25) return 1;
    return C.ILC == (top == 0 ? 1 : top == 3 ? 3 : 2) && (W.ss == 45 || C.REFETCH == 0)
        && IMP(!in(W.ss, 8, 9, 10, 11, 12, 13, 14) && W.ss != 16, bit(C.S_REG, 0) == (((T() >> 16) & 15) == 0))
        && IMP(!in(W.ss, 8, 9, 10, 11, 12, 15, 16), bit(C.S_REG, 1) == (((T() >> 12) & 15) == 0))
        && IMP(W.ss != 12 && W.ss != 15, C.SYLS1 == (((T() >> 12) & 15) < 4));
}
static int post_ILC(void) { return IMP(s_stall() || W.tr != 25, C.ILC == o.ILC); }
/* ---- status bits S0-S7 ---- */
static unsigned s_S(void)
{
    unsigned s = o.S_REG, e = W.ce;
    uint32_t t = T();
    if (W.ad == 9 || W.ad == 10) s = (s & ~0x40) | (carry_at(0) ? 0x40 : 0);
    if (W.ad == 12) s = (s & ~0x40) | ((o.BS_REG & 8 ? carry_at(0) : o.BS_REG & 4 ? carry_at(8) : o.BS_REG & 2 ? carry_at(16) : o.BS_REG & 1 ? carry_at(24) : 0) ? 0x40 : 0);
    if (W.tr == 25) s = (s & ~0xc0) | (((t >> 16) & 15) == 0 ? 0x80 : 0) | (((t >> 12) & 15) == 0 ? 0x40 : 0);
    switch (W.ss) {
    case 8:  return e << 4 | (s & 15);
    case 9: case 10: case 11: return s | e << 4;
    case 12: return (s & 0x3f) | ((t & 0x000f0000) == 0 ? 0x80 : 0) | (t >> 28 == 0 ? 0x40 : 0);
    case 13: case 14: return (s & 0x7f) | (lo24(t) == 0 && C.F_REG == 0 && (s & 0x10) ? 0x80 : 0);
    case 15: return (s & ~0x40) | (t >> 28 == 0 ? 0x40 : 0);
    case 16: return s & ~(e << 4);
    case 17: return (s & ~0x10) | (t == 0 ? 0x10 : 0);
    case 18: return (s & ~0x10) | ((t & 2) ? 0x10 : 0);
    case 24: return (s & 0xf0) | e;
    case 25: return s | e;
    case 26: return s & (0xf0 | (~e & 15));
    case 28: return (s & 0xf0) | C.OPPANEL;
    }
    return s;
}
static int post_S(void)
{
    if (W.ss == 27 || ((W.ss == 13 || W.ss == 14) && W.wm >= 14)) return 1;
    return C.S_REG == (s_stall() ? o.S_REG : s_S());
}
/* floating point: exponent difference and its status */
static int post_exponents(void)
{
    unsigned d = C.alu_out >> 24;
    int c1 = W.ad == 6 ? carry_char1() : carry_at(1);
    if (s_stall() || W.ss != 27 || W.ad == 7) return 1;
    return C.ED_REG == ((d & 7) | ((c1 ? (d & 0x78) != 0 : (d & 0x78) == 0x78) ? 8 : 0))
        && bit(C.S_REG, 7) == (C.ED_REG == 0) && bit(C.S_REG, 6) == ((d & 0x70) == 0 || (d & 0x70) == 0x70)
        && (C.S_REG & 0x30) == (o.S_REG & 0x30)
        && bit(C.S_REG, 5) == (bit(C.S_REG, 1) ^ (s_left() >> 31) ^ (s_right() >> 31));
}
/* ---- condition code ---- */
static int post_CC(void)
{
    int c = o.CC;
    uint32_t t = T();
    if (s_stall()) return C.CC == o.CC;
    if (W.wm == 4) return 1;          /* C09 */
    switch (W.ss) {
    case 3:  c = (s_sdr() & bytes(o.BS_REG) & 0x80808080u) != 0; break;    /* test and set */
    case 29: c = s_carry() << 1 | (s_sum() != 0); break;
    case 40: c = W.ce & 3; break;
    case 41: c = t == 0 ? 0 : t >> 31 ? 1 : 2; break;
    case 42: c = (t & bytes(o.BS_REG)) == 0 ? 0 : s_carry() + 1; break;
    case 43: c = bit(o.S_REG, 4) ? 1 : 2; break;
    case 44: c = bit(o.S_REG, 4) ? 2 : 1; break;
    }
    return C.CC == c;
}
/* ---- signs ---- */
static int minus(unsigned d) { return d == 0xb || d == 0xd; }
static int post_signs(void)
{
    int l = o.LSGNS, r = o.RSGNS;
    unsigned u = C.u_bus & 15, w = C.w_bus & 15;
    if (s_stall()) return C.LSGNS == l && C.RSGNS == r;
    if (W.wm == 12 && W.ss == 7) return 1;
    switch (W.ss) {
    case 5:  if (u > 9) { l = minus(u); r ^= minus(u); } break;
    case 6:  if (u > 9) r ^= minus(u); break;
    case 7:  r = w > 9; if (w > 9 && !minus(w)) l = 0; break;
    case 9: case 32: l = 1; break;
    case 33: l = 0; break;
    case 34: r = 1; break;
    case 35: r = 0; break;
    case 36: l = o.L_REG >> 31; break;
    case 37: r = W.al == 24 ? C.RSGNS : o.R_REG >> 31; break;   /* al 24 shifts into R first */
    }
    return C.LSGNS == l && C.RSGNS == r;
}
/* ---- the remaining control registers ---- */
static int post_BS(void)
{
    unsigned b = o.BS_REG;
    if (EX && W.ss == 11) b = 0;
    if (EX && (W.ss == 18 || W.ss == 19)) b = W.ce;
    if (EX && W.ss == 20) b |= 8 >> o.MB_REG;
    return C.BS_REG == b;
}
static int post_FN(void) { return C.FN == (EX ? s_fn() : o.FN) && C.mvfnc == (EX && W.ss == 38 ? (W.ce & 7) : o.mvfnc); }
static int post_mode(void)            /* PSW bits 12-15; wait state */
{
    if (EX && W.ss == 56) return C.AMWP == (T() >> 16 & 15) && C.wait == (T() >> 17 & 1);
    return C.AMWP == o.AMWP && C.wait == o.wait;
}
static int post_io_latches(void)
{
    int full = o.IBFULL, b0 = bit(o.BCHI, 0);
    if (EX && W.ss == 50) { full = W.ce >> 3; b0 |= full; }
    return C.IBFULL == full && IMP(EX && W.ss == 50, bit(C.BCHI, 0) == b0) && C.io_mode == 0;
}
#define PRE pre_cycle()
#if VK_PART == 0
#define POSTS(X) X(post_LSA()) X(post_L()) X(post_R()) X(post_local_storage()) X(post_IA()) X(post_decode()) X(post_ILC())
#elif VK_PART == 1
#define POSTS(X) X(post_S()) X(post_CC()) X(post_exponents())
#else
#define POSTS(X) X(post_signs()) X(post_BS()) X(post_FN()) X(post_mode()) X(post_io_latches())
#endif
VK_CONTRACT(void cycle_2050(void), __CPROVER_object_whole(&cpu_2050))
int main(void)
{
    setup();
    VK_ASSUME(A_SW < 16 && B_SW < 16 && C_SW < 16);
    VK_RUN(cycle_2050());
    VK_COVER(EX && W.sf == 5 && here() && C.R_REG == 5 && C.LS[in_l] == 7, "R loaded while L is stored");
    VK_COVER(EX && W.tr == 25 && C.ILC == 3, "instruction decode");
    VK_COVER(EX && W.ss == 42 && C.CC == 2, "logical condition code");
    VK_REACHED("end");
    return 0;
}
