#include "cpu50.h"
/* ---------------- mover (specification) ---------------- */
static unsigned s_u(void)
{
    switch (W.lu) {
    case 1: return o.MD_REG << 4 | o.F_REG;
    case 2: return o.R_REG & 0xff;
    case 4: return o_timer_irq ? 0x80 : o_intr ? 0x40 : o.u_bus;
    case 5: return o.ILC << 6 | o.CC << 4 | o.PMASK;
    case 6: return byte_of(o.L_REG, o.MB_REG);
    case 7: return byte_of(o.L_REG, o.LB_REG);
    }
    return 0;
}
static unsigned s_v(void) { return W.mv == 1 ? byte_of(o.M_REG, o.LB_REG) : W.mv == 2 ? byte_of(o.M_REG, o.MB_REG) : 0; }
static unsigned s_half(int sel, unsigned u, unsigned v, unsigned crossed, int left)
{
    switch (sel) {
    case 0: return W.ce;
    case 1: return u;
    case 2: return v;
    }
    switch (o.mvfnc) {
    case 0: return crossed;
    case 1: return u | v;
    case 2: return u & v;
    case 3: return u ^ v;
    case 4: return u;
    case 5: return left ? u : v;      /* move zones */
    case 6: return left ? v : u;      /* move numerics */
    }
    return 0;
}
static unsigned s_w(void)
{
    unsigned u = s_u(), v = s_v();
    return s_half(W.ul, u >> 4, v >> 4, u & 15, 1) << 4 | s_half(W.ur, u & 15, v & 15, u >> 4, 0);
}
/* sign and zone codes a store of an ASCII-mode machine uses */
static unsigned s_ascii(unsigned w)
{
    unsigned lo = w & 15, hi = w >> 4;
    if (lo == 0xc) lo = 0xa; else if (lo == 0xd) lo = 0xb;
    return (hi == 0xf ? 5 : hi) << 4 | lo;
}
static unsigned s_wout(void) { return W.wm == 12 && (o.AMWP & 8 && W.ss != 56) ? s_ascii(s_w()) : s_w(); }
static int post_w(void) { return IMP(EX && !(W.wm == 12 && W.ss == 56), C.w_bus == s_wout()); }
static int post_edit(void) { return IMP(EX, C.ED_STAT == ((s_v() & 0xfc) == 0x20 ? (s_v() & 3) : 3)); }
/* external interruption sources are taken once, the timer's first */
static int post_external(void)
{
    int read = EX && W.lu == 4;
    if (W.ss == 54 || (W.wm == 4 && o.load_mode)) return IMP(!(read && !o_timer_irq), INTR == o_intr);
    return timer_irq == (read ? 0 : o_timer_irq) && INTR == (read && !o_timer_irq ? 0 : o_intr);
}
/* ---------------- destinations ---------------- */
static uint32_t T(void) { return C.aob_latch; }       /* property C08 */
static uint32_t s_M(void)
{
    uint32_t m = o.M_REG;
    switch (W.tr) {
    case 3: case 24: case 25: case 28: m = T(); break;
    case 26: m = (m & 0xffff0000u) | T() >> 16; break;
    }
    if (W.wm == 1) return W.tr == 3 ? put_byte(m, 3, s_w()) : put_byte(m, o.MB_REG, s_w());
    if (W.wm == 12) return put_byte(m, o.MB_REG, s_wout());
    return m;
}
static int post_M(void) { return IMP(EX && !(W.wm == 12 && W.ss == 56), C.M_REG == s_M()); }
static unsigned step(unsigned v, int sel, unsigned mask)
{
    if (!sel) return v;
    switch (W.up) {
    case 0: return 0;
    case 1: return 3;
    case 2: return (v - 1) & mask;
    }
    return (v + 1) & mask;
}
static int post_MB(void) { return IMP(EX, C.MB_REG == step(W.wm == 2 ? s_w() & 3 : o.MB_REG, W.mb, 3)); }
static int post_LB(void) { return IMP(EX, C.LB_REG == step(W.wm == 3 ? s_w() & 3 : o.LB_REG, W.lb, 3)); }
static int post_MD(void)
{
    unsigned v = o.MD_REG;
    switch (W.tr) {
    case 25: v = (T() >> 12) & 0xf; break;
    case 26: v = T() >> 28; break;
    case 27: v = (T() >> 20) & 0xf; break;
    }
    if (W.wm == 13 || W.wm == 15) v = s_w() >> 4;
    return IMP(EX, C.MD_REG == step(v, W.md, 15));
}
static int post_F(void) { return IMP(EX && (W.wm == 14 || W.wm == 15), C.F_REG == (s_w() & 15)); }
static int post_J(void)
{
    unsigned v = o.J_REG;
    if (W.tr == 25 || W.tr == 31) v = (T() >> 16) & 0xf;
    if (W.wm == 6) v = s_w() >> 4;
    return IMP(EX, C.J_REG == v);
}
static int post_PSW(void)             /* condition code and program mask; system mask */
{
    if (s_stall()) return C.PMASK == o.PMASK && C.MASK == o.MASK && C.CC == o.CC;
    if (W.wm == 4) return C.CC == (s_w() >> 4 & 3) && C.PMASK == (s_w() & 15) && C.MASK == o.MASK && C.load_mode == 0;
    if (W.wm == 5) return C.MASK == s_w() && C.PMASK == o.PMASK;
    return C.PMASK == o.PMASK && C.MASK == o.MASK;
}
/* counters G1, G2 */
static int g1(unsigned g) { return g >> 4; }
static int g2(unsigned g) { return g & 15; }
static unsigned s_G(void)
{
    unsigned g = o.G_REG;
    switch (W.dg) {
    case 3: g = ((g1(g) + 15) & 15) << 4 | g2(g); break;
    case 4: case 6: g = (g + 255) & 255; break;
    case 5: g = g1(g) << 4 | ((g2(g) + 15) & 15); break;
    case 7: g = ((g1(g) + 15) & 15) << 4 | ((g2(g) + 15) & 15); break;
    }
    if (W.wm == 9) return (s_w() & 0xf0) | g2(g);
    if (W.wm == 10) return g1(g) << 4 | (s_w() & 15);
    if (W.wm == 11) return s_w();
    return g;
}
static int post_G(void) { return IMP(EX, C.G_REG == s_G()); }
/* a counter that was stepped below zero says so until it is loaded */
static int post_Gneg(void)
{
    int z1 = g1(o.G_REG) == 0, z2 = g2(o.G_REG) == 0, n1 = o.G1NEG, n2 = o.G2NEG;
    if (W.dg == 3 || W.dg == 7) n1 |= z1;
    if (W.dg == 5 || W.dg == 7) n2 |= z2;
    if (W.dg == 4 || W.dg == 6) { n1 |= z1 && z2; n2 |= z2; }
    if (W.wm == 9 || W.wm == 11) n1 = 0;
    if (W.wm == 10 || W.wm == 11) n2 = 0;
    return IMP(EX, C.G1NEG == n1 && C.G2NEG == n2);
}
static int post_invalid_digit(void)   /* digit test words trap on a digit above nine */
{
    int bad = ((W.iv == 1 || W.iv == 3) && s_w() >> 4 > 9) || ((W.iv == 2 || W.iv == 3) && (s_w() & 15) > 9);
    return IMP(EX && bad && W.bb < 30 && !tr_uses_storage(), C.ROAR == 0x140 || (W.zn == 0 && W.zf == 14));
}
static int post_waits(void)
{
    return IMP(is_stalled(), C.w_bus == o.w_bus && C.M_REG == o.M_REG && C.MB_REG == o.MB_REG && C.LB_REG == o.LB_REG && C.MD_REG == o.MD_REG
               && C.J_REG == o.J_REG && C.G_REG == o.G_REG && C.G1NEG == o.G1NEG && C.G2NEG == o.G2NEG && C.F_REG == o.F_REG);
}
#define PRE pre_cycle()
#define POSTS(X) X(post_w()) X(post_edit()) X(post_external()) X(post_M()) X(post_MB()) X(post_LB()) X(post_MD()) X(post_F()) X(post_J()) X(post_PSW()) X(post_G()) X(post_Gneg()) X(post_invalid_digit()) X(post_waits())
VK_CONTRACT(void cycle_2050(void), __CPROVER_object_whole(&cpu_2050))
int main(void)
{
    setup();
    VK_RUN(cycle_2050());
    VK_COVER(EX && W.wm == 12 && C.w_bus == 0x5a && s_w() == 0xfc, "ASCII store");
    VK_COVER(EX && W.dg == 7 && C.G1NEG && C.G2NEG && C.G_REG == 0xff, "both counters below zero");
    VK_REACHED("end");
    return 0;
}
