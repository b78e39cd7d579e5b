#include "cpu30.h"
/* C02: where operands come from, where the result goes, and what stays put. */
static int post_b_source(void)
{
    unsigned e;
    if (W.CK == 0x14) return (C.Bbus & 0xff) == ((H_SW << 4) | J_SW) && odd9(C.Bbus);
    switch (W.CB) {
    case 0: e = s_R(); break;
    case 1: e = o.L_REG; break;
    case 2: e = o.D_REG; break;
    default: return (C.Bbus & 0xff) == (((W.CK & 15) << 4) | (W.CK & 15)) && odd9(C.Bbus);
    }
    return C.Bbus == e;
}
static int post_a_source(void)
{
    switch (W.CA) {
    case 0x00: return 1;                       /* FT: decided by the channel properties */
    case 0x01: return C.Abus == o.TT;
    case 0x04: return C.Abus == o.S_REG;
    case 0x05: return C.Abus == o.H_REG;
    case 0x06: return C.Abus == o.FI;
    case 0x07: return C.Abus == s_R();
    case 0x08: return C.Abus == o.D_REG;
    case 0x09: return C.Abus == o.L_REG;
    case 0x0A: return C.Abus == o.G_REG;
    case 0x0B: return C.Abus == o.T_REG;
    case 0x0C: return C.Abus == o.V_REG;
    case 0x0D: return C.Abus == o.U_REG;
    case 0x0E: return C.Abus == o.J_REG;
    case 0x0F: return C.Abus == o.I_REG;
    case 0x11: return (C.Abus & 0xff) == ((F_SW << 4) | G_SW) && odd9(C.Abus);
    case 0x14: return (C.Abus & 0xff) == s_C();
    case 0x16: return C.Abus == o.JI;
    case 0x17: return C.Abus == in_ti;
    case 0x02: case 0x03: case 0x13: case 0x18: case 0x19: case 0x1a: case 0x1b:
               return C.Abus == 0x100;
    }
    return 1;
}
#define DEST(n, reg) (W.CD == (n) ? C.reg == C.Alu_out : C.reg == o.reg)
static int post_dest_D(void) { return DEST(8, D_REG); }
static int post_dest_L(void) { return DEST(9, L_REG); }
static int post_dest_G(void) { return DEST(10, G_REG); }
static int post_dest_T(void) { return DEST(11, T_REG); }
static int post_dest_V(void) { return DEST(12, V_REG); }
static int post_dest_U(void) { return DEST(13, U_REG); }
static int post_dest_J(void) { return DEST(14, J_REG); }
static int post_dest_I(void) { return DEST(15, I_REG); }
static int post_dest_H(void) { return DEST(5, H_REG); }
static int post_dest_TA(void) { return W.CD == 4 ? C.TA == (C.Alu_out & 0xff) : C.TA == o.TA; }
static int post_dest_JE(void) { return W.CD == 2 ? C.JE == (o.D_REG & 0xff) : C.JE == o.JE; }
static int post_dest_TE(void)
{
    return W.CD == 1 ? C.TE == C.Alu_out && out_te_n == 1 && out_te == C.Alu_out
                     : C.TE == o.TE && out_te_n == 0;
}
/* Q: set from the ALU; otherwise only its low (storage key) half can change, on a storage read */
static int post_dest_Q(void)
{
    if (W.CD == 3) return C.Q_REG == (C.Alu_out & 0xff);
    return o_read_call ? (C.Q_REG & 0xf0) == (o.Q_REG & 0xf0) : C.Q_REG == o.Q_REG;
}
/* status register: loaded from the ALU, then single bits set by the status field and the carry */
static unsigned s_S(void)
{
    unsigned s = W.CD == 6 ? C.Alu_out & 0xff : o.S_REG, z = C.Alu_out & 0xff;
    if (W.CC >= 4 && W.CC <= 6) s = (s & ~0x10u) | (C.STAT_REG & 4 ? 0x10 : 0);
    switch (W.CS) {
    case 1: s = (s & ~4u) | (z & 0xf ? 0 : 4); break;
    case 2: s = (s & ~8u) | (z & 0xf0 ? 0 : 8); break;
    case 3: s = (s & ~12u) | (z & 0xf ? 0 : 4) | (z & 0xf0 ? 0 : 8); break;
    case 4: s &= ~12u; break;
    case 5: s = (s & ~0x40u) | ((o.MPX_TI & CHAN_OPR_IN) == 0 && o.t_request ? 0x40 : 0); break;
    case 6: s &= ~0x80u; break;
    case 7: s |= 0x80; break;
    case 8: s &= ~0x20u; break;
    case 9: if (z) s |= 0x20; break;
    case 10: s &= ~2u; break;
    case 11: s |= 2; break;
    case 12: s &= ~1u; break;
    case 13: s |= 1; break;
    }
    return s & 0xff;
}
static int post_dest_S(void) { return C.S_REG == s_S(); }
/* R: the ALU result unless storage protection blocks it, else the byte read from storage */
static int post_dest_R(void)
{
    int prot = o_read_call ? s_key_bad() : o_protect != 0;
    int writable = o_read_call || o.allow_write;
    int newbad = W.CM >= 3 && !(odd9(C.M_REG) && odd9(C.N_REG));   /* address with bad parity */
    if (W.CD != 7) return C.R_REG == s_R();
    if (s_prot() || (prot && writable && W.CM != 0 && W.CM != 2)) return C.R_REG == s_R();
    if (!prot && !newbad) return C.R_REG == C.Alu_out;
    return C.R_REG == C.Alu_out || C.R_REG == s_R();
}
static int post_parity_kept(void) /* results written by the ALU have odd parity */
{
    if (o_even || W.CK == 0x18) return 1;
    switch (W.CD) {
    case 5: return odd9(C.H_REG);
    case 8: return odd9(C.D_REG);
    case 9: return odd9(C.L_REG);
    case 10: return odd9(C.G_REG);
    case 11: return odd9(C.T_REG);
    case 12: return odd9(C.V_REG);
    case 13: return odd9(C.U_REG);
    case 14: return odd9(C.J_REG);
    case 15: return odd9(C.I_REG);
    }
    return 1;
}
#define PRE pre_cycle()
#define POSTS(X) X(post_b_source()) X(post_a_source()) X(post_dest_D()) X(post_dest_L()) X(post_dest_G()) X(post_dest_T()) X(post_dest_V()) X(post_dest_U()) X(post_dest_J()) X(post_dest_I()) X(post_dest_H()) X(post_dest_TA()) X(post_dest_JE()) X(post_dest_TE()) X(post_dest_Q()) X(post_dest_S()) X(post_dest_R()) X(post_parity_kept())
VK_CONTRACT(void cycle_2030(void), __CPROVER_object_whole(&cpu_2030))
int main(void)
{
    setup();
    out_te_n = 0;
    VK_RUN(cycle_2030());
    VK_COVER(W.CD == 7 && C.R_REG != s_R(), "R loaded from the ALU");
    VK_COVER(W.CA == 7 && s_reads() && C.Abus == 0x123, "R read from storage and gated");
    VK_REACHED("end");
    return 0;
}
