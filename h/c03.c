#include "cpu30.h"
/* C03: the next control-store address. */
static int sel_intrp0[2], o_timer_update;
static unsigned s_V(void) { return o.V_REG; }
static int s_intr(void)
{
    return ((o.MASK & 0x01) && o.F_REG != 0) || ((o.MASK & 0x80) && (o.FT & 0x01)) ||
           ((o.MASK & 0x40) && (sel_intrp0[0] || (o.GF[0] & 0x08))) || ((o.MASK & 0x20) && (sel_intrp0[1] || (o.GF[1] & 0x08)));
}
static unsigned s_next(void)
{
    unsigned a = (o.WX & 0xf00) | W.CN, R = s_R(), x6 = 0, x7 = 0, h;
    switch (W.CH) {
    case 1: x6 = 1; break;
    case 2: x6 = (R & 0x80) != 0; break;
    case 3: x6 = (s_V() & 3) == 0; break;
    case 4: x6 = (o.STAT_REG & 0x40) != 0; break;
    case 5: x6 = (o.STAT_REG & 0x20) != 0; break;
    case 6: x6 = (o.STAT_REG & 0x04) != 0; break;
    case 7: x6 = (o.S_REG & 0x80) != 0; break;
    case 8: x6 = (o.S_REG & 0x40) != 0; break;
    case 9: x6 = (o.S_REG & 0x20) != 0; break;
    case 10: x6 = (o.S_REG & 0x08) != 0; break;
    case 11: x6 = (o.S_REG & 0x02) != 0; break;
    case 12: x6 = (o.G_REG & 0x80) != 0; break;
    case 13: x6 = (o.G_REG & 0x20) != 0; break;
    case 14: x6 = (o.G_REG & 0x08) != 0; break;
    case 15: x6 = (o.G_REG & 0x02) != 0; break;
    }
    if (x6) a |= 2;
    switch (W.CL) {
    case 1: x7 = 1; break;
    case 2: a = ((W.CA & 0xfu) << 8) | (a & 0xff); x7 = 1; break;
    case 3: x7 = (o.STAT_REG & 0x80) != 0; break;
    case 4: x7 = (o.STAT_REG & 0x10) != 0; break;
    case 5: h = R >> 4 & 0xf; x7 = h <= 9 && (R & 0xf) <= 9; break;         /* both digits valid */
    case 6: x7 = (o.STAT_REG & 0x02) != 0; break;
    case 7: x7 = (o.STAT_REG & 0x08) != 0; break;
    case 8: x7 = (o.G_REG & 0x01) != 0; break;
    case 9: x7 = (o.S_REG & 0x10) != 0; break;
    case 10: x7 = (o.S_REG & 0x04) != 0; break;
    case 11: x7 = (o.S_REG & 0x01) != 0; break;
    case 12: x7 = (o.G_REG & 0x40) != 0; break;
    case 13: x7 = (o.G_REG & 0x10) != 0; break;
    case 14: x7 = (o.G_REG & 0x04) != 0; break;
    case 15: x7 = s_intr(); break;
    }
    if (x7) a |= 1;
    switch (W.CK) {
    case 0x11: a = ((o.U_REG & 0x0fu) << 8) | (o.V_REG & 0xff); break;
    case 0x13: if (o_i_wrap) a &= ~2u; if (o_um_wrap) a &= ~1u; break;
    case 0x15: if (o.STAT_REG & 0x04) a &= 0xf00; break;
    case 0x19: if (o.ASCII) a &= ~2u; break;
    case 0x1a:  /* source of an interruption: channel 1, channel 2, external or timer */
        if ((o.MASK & 0x40) && (sel_intrp0[0] || (o.GF[0] & 0x08))) a &= ~1u;
        else if ((o.MASK & 0x20) && (sel_intrp0[1] || (o.GF[1] & 0x08))) a &= ~2u;
        else if (((o.MASK & 0x01) && o.F_REG != 0) || o_timer || o_timer_update) a &= ~3u;
        break;
    }
    if (W.CM < 3 && W.CU == 2) a = (a & 0xff) | ((W.CK & 0xfu) << 8);
    if (o.sel_ros_rest) a = (a & ~3u) | o.SEL_X6X7;
    if (o.mpx_ros_rest) a = (a & ~3u) | o.MPX_X6X7;
    /* return from a channel routine: FWX/GWX restored when H is loaded by a write-type word with CU=3 */
    if (W.CD == 5 && W.CM < 3 && W.CU == 3) a = (o.H_REG & 4) ? o.GWX : o.FWX;
    return a;
}
static int post_next(void) { return C.WX == s_next(); }
static int post_in_store(void) { return C.WX < 4096; }
#define PRE pre_cycle()
#define POSTS(X) X(post_next()) X(post_in_store())
VK_CONTRACT(void cycle_2030(void), __CPROVER_object_whole(&cpu_2030))
int main(void)
{
    setup();
    o_timer_update = timer_update; sel_intrp0[0] = sel_intrp_lch[0]; sel_intrp0[1] = sel_intrp_lch[1];
    VK_RUN(cycle_2030());
    VK_COVER(W.CL == 5 && C.WX == 0x345, "digit test");
    VK_COVER(W.CL == 2 && C.WX == 0xabd, "long branch");
    VK_COVER(W.CK == 0x11 && C.WX == 0x777, "branch through UV");
    VK_REACHED("end");
    return 0;
}
