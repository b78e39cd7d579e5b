#include "cpu30.h"
/* ---------------- specification of the ALU ---------------- */
static unsigned s_a(void)
{
    unsigned a = C.Abus & 0xff, l = a & 0xf, h = a >> 4;
    switch (W.CF) {
    case 1: return l;
    case 2: return h << 4;
    case 3: return a;
    case 5: return h;
    case 6: return l << 4;
    case 7: return (l << 4) | h;
    }
    return 0;
}
static unsigned s_b(void)
{
    unsigned b = C.Bbus & 0xff;
    return (W.CG & 2 ? b & 0xf0 : 0) | (W.CG & 1 ? b & 0x0f : 0);
}
static int s_compl(void) { return W.CV == 1 || (W.CV >= 2 && (o.S_REG & 0x80) != 0); }
static int s_cin(void)   { return W.CC == 1 || W.CC == 5 || (W.CC == 6 && (o.S_REG & 0x10) != 0); }
static int is_add(void)  { return W.CC <= 1 || (W.CC >= 4 && W.CC <= 6); }
static int is_dec(void)  { return W.CV == 3; }
static int digits(unsigned x) { return (x & 0xf) <= 9 && (x >> 4) <= 9; }
static int bval(unsigned d) { return (d >> 4) * 10 + (d & 0xf); }
static unsigned tod(int v) { return ((v / 10) << 4) | (v % 10); }
static unsigned b_bin(void) { return s_compl() ? s_b() ^ 0xff : s_b(); }
static int sum_bin(void) { return s_a() + b_bin() + s_cin(); }
static int sum_dec(void) { return bval(s_a()) + (s_compl() ? 99 - bval(s_b()) : bval(s_b())) + s_cin(); }
static int out(void) { return C.Alu_out & 0xff; }

static int post_binary(void) { return IMP(is_add() && !is_dec(), out() == (sum_bin() & 0xff)); }
static int post_decimal(void) { return IMP(is_add() && is_dec() && digits(s_a()) && digits(s_b()), out() == (int)tod(sum_dec() % 100)); }
static int post_and(void) { return IMP(W.CC == 2 && !is_dec(), out() == (int)(s_a() & b_bin())); }
static int post_or(void)  { return IMP(W.CC == 3 && !is_dec(), out() == (int)(s_a() | b_bin())); }
static int post_xor(void) { return IMP(W.CC == 7 && !is_dec(), out() == (int)(s_a() ^ b_bin())); }
static int s_carry(void)
{
    if (!is_add()) return 0;
    return is_dec() ? sum_dec() > 99 : sum_bin() > 255;
}
static int dom(void) { return !is_dec() || !is_add() || (digits(s_a()) && digits(s_b())); }
static int post_carry_status(void) { return IMP(dom(), ((C.STAT_REG & 0x04) != 0) == s_carry()); }
static int post_carry_saved(void)  { return IMP(dom() && W.CC >= 4 && W.CC <= 6, ((C.S_REG & 0x10) != 0) == s_carry()); }
static int post_carry_kept(void)   { return IMP(!(W.CC >= 4 && W.CC <= 6) && W.CD != 6, (C.S_REG & 0x10) == (o.S_REG & 0x10)); }
static int post_carry1(void)       /* carry out of bit 1: overflow test of signed arithmetic */
{
    return IMP(!is_dec(), ((C.STAT_REG & 0x02) != 0) == (is_add() && (s_a() & 0x7f) + (b_bin() & 0x7f) + s_cin() > 0x7f));
}
static int post_zero(void)   { return ((C.STAT_REG & 0x08) != 0) == (out() == 0); }
static int post_parity(void)
{
    /* CK=18 turns even parity on for this very result, CK=1D (reset load) off */
    int ev = W.CK == 0x18 ? 1 : W.CK == 0x1d ? 0 : o_even != 0;
    return (C.Alu_out & ~0x1ff) == 0 && odd9(C.Alu_out) == !ev;
}
#define PRE pre_cycle()
#define POSTS(X) X(post_binary()) X(post_decimal()) X(post_and()) X(post_or()) X(post_xor()) X(post_carry_status()) X(post_carry_saved()) X(post_carry_kept()) X(post_carry1()) X(post_zero()) X(post_parity())
VK_CONTRACT(void cycle_2030(void), __CPROVER_object_whole(&cpu_2030))
int main(void)
{
    setup();
    VK_RUN(cycle_2030());
    VK_COVER(is_add() && is_dec() && digits(s_a()) && digits(s_b()) && s_compl() && out() == 0x42, "decimal subtract");
    VK_COVER(W.CC == 7 && out() == 0x5a, "exclusive or");
    VK_REACHED("end");
    return 0;
}
