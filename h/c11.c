#include "cpu50.h"
/* ---------------- next control word address (specification) ----------------
 * next = base page | function or field bits | A | B, overridden by a trap */
static uint32_t T_old(void) { return o.aob_latch; }   /* conditions look at the results of the word before */
static int refetch(void)
{
    return o.REFETCH || (o.mem_state == W1 && o.update_d && !o.bump_mem && o_SA <= mem_max && o_SA >> 2 == o.IA_REG >> 2);
}
static int ivaf(void) { return o.mem_state == W1 && o_req() ? 0 : o.IVA; }
static int ext(void) { return (o.MASK & 1) && (o_intr || o_timer_irq); }
static int chan_int(void) { return (o.BCHI & o.MASK) != 0; }
static int exc(void) { return o.allow_man_operation || o.wait || (!o_stop_mode && (o_timer_update || ext() || chan_int())); }
static int defined_ab(void)           /* conditions this machine implements in CPU mode */
{
    switch (W.ab) {
    case 11: case 15: case 38: case 40: case 41: case 42: case 44: case 46: case 47: case 48: case 55: case 59: case 60: case 62: return 0;
    case 51: return 0;                /* channel command word test: I/O mode only */
    }
    return 1;
}
static int defined_bb(void) { return W.bb != 11 && W.bb != 14; }
static int s_A(void)
{
    uint32_t t = T_old();
    switch (W.ab) {
    case 1: return 1;
    case 2: case 3: case 4: case 5: case 6: case 7: case 8: case 9: return bit(o.S_REG, W.ab - 2);
    case 10: return o.CAR;
    case 12: return o.SYLS1;
    case 13: return o.LSGNS;
    case 14: return o.LSGNS != o.RSGNS;
    case 16: return (o.MD_REG >> (3 - o.CC)) & 1;               /* branch on condition mask */
    case 17: return o.w_bus == 0;
    case 18: return o.w_bus >> 4 == 0;
    case 19: return (o.w_bus & 15) == 0;
    case 20: return o.MD_REG == 0 || o.MD_REG == 2 || o.MD_REG == 4 || o.MD_REG == 6;    /* a floating point register */
    case 21: return o.MB_REG == 3;
    case 22: return (o.MD_REG & 1) == 0;
    case 23: return o.G_REG >> 4 == 0;
    case 24: return o.G1NEG;
    case 25: return o.G_REG < 4 || o.G1NEG;
    case 26: return o.G_REG >> 4 == 0 || o.MB_REG == 0;
    case 27: return bit(o.IOSTAT[o.CH], 0);
    case 28: return bit(o.IOSTAT[o.CH], 2);
    case 61: return bit(o.IOSTAT[o.CH], 4);
    case 29: return o.R_REG & 1;
    case 30: return o.F_REG >> 1 & 1;
    case 31: return o.L_REG >> 31;
    case 32: return o.F_REG == 0;
    case 33: return (t & 0x00f00000) == 0 && !bit(o.S_REG, 0);  /* unnormalised */
    case 34: return (t & bytes(o.BS_REG)) == 0;
    case 35: return o.ED_STAT >> 1 & 1;
    case 36: return o.AMWP & 1;
    case 37: return o_timer_update;
    case 39: return o.G_REG == 0 || o.MB_REG == 3;
    case 43: return (o.G_REG & 15) <= o.LB_REG;
    case 45: return bit32(s_sdr(), 7);
    case 49: return o.w_bus >> 1 & 1;
    case 50: return (o.alu_out & 0xffff) != 0;
    case 52: return o.BUS_IN[0] >> 7 & 1;
    case 53: return o.IBFULL;
    case 54: return (o.alu_out & 7) != 0 || ivaf();
    case 56: return exc() || (o.IA_REG & 2) == 0;               /* instruction fetch */
    case 57: return o.IA_REG >> 1 & 1;
    case 58: return o_timer_update || ext();
    case 63: return bit(o.S_REG, 0) && o.M_REG >> 30 == 1;
    }
    return 0;
}
/* some A conditions give the B bit too; it is ORed with the B condition */
static int s_A_gives_B(void)
{
    switch (W.ab) {
    case 35: return o.ED_STAT & 1;
    case 49: return o.w_bus & 1;
    case 56: return exc() || ((o.IA_REG & 2) && refetch());
    case 58: return o_timer_update || chan_int();
    }
    return 0;
}
static int gives_both(void) { return W.ab == 35 || W.ab == 49 || W.ab == 56 || W.ab == 58; }
static int s_B(void)
{
    uint32_t t = T_old();
    switch (W.bb) {
    case 1: return 1;
    case 2: case 3: case 4: case 5: case 6: case 7: case 8: case 9: return bit(o.S_REG, W.bb - 2);
    case 10: return o.RSGNS;
    case 12: return exc();
    case 13: return (o.w_bus & 15) == 0;
    case 15: return (t & 0xffffff) == 0;
    case 16: return t >> 31;
    case 17: return t == 0;
    case 18: return (t & bytes(o.BS_REG)) == 0;
    case 19: return o.w_bus == 1;
    case 20: return o.LB_REG == 0;
    case 21: return o.LB_REG == 3;
    case 22: return o.MD_REG == 0;
    case 23: return (o.G_REG & 15) == 0;
    case 24: return o.G2NEG;
    case 25: return (o.G_REG & 15) == 0 || o.LB_REG == 0;
    case 26: return bit(o.IOSTAT[o.CH], 1);
    case 27: return (o.MD_REG & 9) != 0 || (o.J_REG & 9) != 0;
    case 28: return ivaf();
    case 29: return bit(o.IOSTAT[o.CH], 3);
    case 30: return s_carry();                                  /* these two look at this word's adder */
    case 31: return s_sum() >> 31;
    }
    return 0;
}
/* traps, in the order of their priority */
static int key_ok(void) { return o.KEY == 0 || o.KEY == o_pk; }
static int trap(void)
{
    unsigned w = C.w_bus, s = C.u_bus & 15;
    uint32_t T = C.aob_latch;
    if ((W.ss == 5 || W.ss == 6) && s < 10) return 0x140;
    if (W.tr == 10 && (T & 3)) return 0x1c2;
    if (W.tr == 11 && (T & 7)) return 0x1c2;
    if ((W.tr == 4 || W.tr == 13 || W.tr == 17 || W.tr == 29) && !key_ok()) return 0x142;
    if ((W.iv == 1 || W.iv == 3) && w >> 4 > 9) return 0x140;
    if ((W.iv == 2 || W.iv == 3) && (w & 15) > 9) return 0x140;
    return 0;
}
static int s_next(void)
{
    int a = s_A(), b = s_B() | s_A_gives_B(), page = W.zp;
    switch (W.zn) {
    case 0:
        switch (W.zf) {
        case 6:  page |= (o.M_REG >> 28) << 2; break;
        case 8:  page |= (o.M_REG >> 24 & 15) << 2; break;
        case 10: page |= o.F_REG << 2; break;
        case 12: page |= o.ED_REG << 2; break;
        }
        break;
    default: page |= W.zf << 2;
    }
    switch (W.zn) {
    case 2: a |= !b; break;
    case 3: a |= b; break;
    case 6: b |= !a; break;
    case 7: b |= a; break;
    }
    return page | a << 1 | b;
}
static int returns(void) { return W.zn == 0 && W.zf == 14; }
static int in_spec(void)
{
    return defined_ab() && defined_bb() && !(gives_both() && (W.bb == 19 || W.bb == 28))
        && !(W.bb >= 30 && W.iv >= 1 && W.iv <= 3)                               /* a digit trap with an adder branch: not used by the microcode */
        && !((W.iv == 4 || W.iv == 7) && (W.tr == 4 || W.tr == 13 || W.tr == 17 || W.tr == 29))   /* key of which address */
        && W.wm != 12;
}
static int post_next(void) { return IMP(EX && in_spec() && !returns() && !trap(), C.ROAR == s_next()); }
static int post_trap(void) { return IMP(EX && in_spec() && !returns() && trap(), C.ROAR == trap()); }
static int post_return(void) { return IMP(EX && returns(), C.ROAR == o.PROAR && C.rest_cycle == 1); }
static int post_inside(void) { return C.ROAR < 4096; }
static int post_waits(void) { return IMP(is_stalled() && !s_no_storage(), C.ROAR == o.ROAR); }
static int post_timer(void)           /* a timer tick is kept until the microcode takes it */
{
    return IMP(!(EX && W.wm == 4 && o.load_mode), timer_update == (EX && W.ab == 37 ? 0 : o_timer_update));
}
static int post_stop(void) { return stop_mode == (EX && W.ss == 23 ? o_stop_mode || o.allow_man_operation : o_stop_mode); }
#define PRE pre_cycle()
#define POSTS(X) X(post_next()) X(post_trap()) X(post_return()) X(post_inside()) X(post_waits()) X(post_timer()) X(post_stop())
VK_CONTRACT(void cycle_2050(void), __CPROVER_object_whole(&cpu_2050))
int main(void)
{
    setup();
    VK_RUN(cycle_2050());
    VK_COVER(EX && W.ab == 56 && exc() && !o.wait && !o.allow_man_operation && C.ROAR == 0x18b, "interruption at instruction fetch");
    VK_COVER(EX && in_spec() && W.bb == 30 && C.ROAR == 0x181 && W.zp == 0x180, "carry branch");
    VK_COVER(EX && trap() == 0x1c2, "alignment trap");
    VK_REACHED("end");
    return 0;
}
