#include "cpu50.h"
static int post_sum(void) { return IMP(EX, C.alu_out == s_sum()); }
static int post_carry_status(void) { return IMP(EX, C.CAR == (W.ad == 4 || W.ad == 6 || W.ad == 7 ? s_carry() : o.CAR)); }
static int dec(void) { return W.ad >= 8 && W.ad <= 12; }
static int digit_after(uint32_t w, int i) { return (w >> (28 - 4 * i)) & 0xf; }        /* i = 0 leftmost */
/* the word leaves the correction in L: no other destination of L is named */
static int l_free(void) { return W.tr != 5 && W.tr != 7 && W.tr != 16 && W.tr != 24 && W.tr != 25 && W.tr != 26 && W.tr != 30
                              && W.ss != 55 && W.sf != 1 && W.sf != 6; }
static unsigned s_corr(int i)         /* correction digit i */
{
    switch (W.ad) {
    case 8:  return i == 0 ? (o.AUX_REG ? 6 : 0) : (digit_after(s_sum(), i - 1) & 2 ? 6 : 0);    /* halving: tens that lost a half */
    case 11: return i == 0 ? 0 : (digit_after(s_sum(), i - 1) & 2 ? 6 : 0);
    case 9: case 12: return carry_at(4 * i) ? 0 : 6;                                           /* no carry out of the digit */
    }
    return digit_after(s_sum(), i) >= 5 ? 6 : 0;                                               /* doubling */
}
static unsigned in_i;                 /* arbitrary digit */
static int post_correction(void) { return IMP(EX && dec() && l_free(), digit_after(C.L_REG, in_i) == (int)s_corr(in_i)); }
static int post_left_kept(void) { return IMP(EX && !dec() && l_free(), C.L_REG == o.L_REG); }
static int post_aux(void) { return IMP(EX, (C.AUX_REG != 0) == (W.ad == 11 ? (int)(s_sum() >> 1) & 1 : o.AUX_REG != 0)); }
static int s1_free(void) { return W.tr != 25 && W.ss != 8 && W.ss != 9 && W.ss != 10 && W.ss != 11 && W.ss != 12 && W.ss != 15 && W.ss != 16; }
static int s_s1(void)
{
    if (W.ad == 9 || W.ad == 10) return carry_at(0);
    if (W.ad == 12) return o.BS_REG & 8 ? carry_at(0) : o.BS_REG & 4 ? carry_at(8) : o.BS_REG & 2 ? carry_at(16) : o.BS_REG & 1 ? carry_at(24) : 0;
    return bit(o.S_REG, 1);
}
static int post_s1(void) { return IMP(EX && s1_free(), bit(C.S_REG, 1) == s_s1()); }
static int post_cc(void)              /* condition code from the adder: carry and result not zero; logical carry */
{
    if (s_stall() || W.wm == 4) return 1;
    if (W.ss == 29) return C.CC == (s_carry() << 1 | (s_sum() != 0));
    return 1;
}
static int post_waits(void)           /* a word that has to wait leaves the adder's outputs alone */
{
    return IMP(is_stalled(), C.CAR == o.CAR && C.AUX_REG == o.AUX_REG && C.L_REG == o.L_REG && C.S_REG == o.S_REG && C.alu_out == o.alu_out);
}
#define PRE pre_cycle()
#define POSTS(X) X(post_sum()) X(post_carry_status()) X(post_correction()) X(post_left_kept()) X(post_aux()) X(post_s1()) X(post_cc()) X(post_waits())
VK_CONTRACT(void cycle_2050(void), __CPROVER_object_whole(&cpu_2050))
int main(void)
{
    setup();
    VK_ASSUME(in_i < 8);
    VK_RUN(cycle_2050());
    VK_COVER(EX && W.ad == 9 && !W.tc && l_free() && C.L_REG == 0x60606060, "decimal correction");
    VK_COVER(EX && W.ad == 6 && hot7() && C.CAR, "characteristic carry");
    VK_COVER(is_stalled() && o.mem_state == W1, "storage wait");
    VK_REACHED("end");
    return 0;
}
