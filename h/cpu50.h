/* Common part of the Model 50 contracts: the real cycle_2050() from
 * /repo/src/model2050/cpu2050.c.  The only textual change (made mechanically on
 * every run by checks.py:prep_cpu2050) is that a control-store access
 * ros_2050[e] reads the word through vk_ros(e), which asserts that e is inside
 * the control store and returns an arbitrary (nondeterministic) word.
 */
#include "vk.h"
#include <stdio.h>
#include "model2050.h"
#ifndef VK_MEM
#define VK_MEM 65536                  /* installed main storage, bytes */
#endif
struct ROS_2050 in_word;              /* the control word being executed */
struct ROS_2050 *vk_ros(unsigned x)
{
    VK_ASSERT(x < 4096, "control store address inside the control store");
    return &in_word;
}
#include "cpu2050_x.c"
#include "stubs_log.h"
#include "xlat.c"
int log_level;
uint32_t vk_mem[VK_MEM / 4];
uint32_t *M;
uint32_t mem_max;
struct _device *chan[6];
char *title;
void *(*setup_cpu)(char *title);
void (*step_cpu)();
void *setup_fp2050(char *title) { return NULL; }
int SYS_RST, ROAR_RST, START, SET_IC, CHECK_RST, STOP, INT_TMR, STORE, DISPLAY, LAMP_TEST, POWER, INTR, LOAD, timer_event, SEL_ENTER;
uint32_t ADR_CMP, INST_REP, ROS_CMP, ROS_REP, SAR_CMP, FORC_IND, FLT_MODE, CHN_MODE;
uint8_t A_SW, B_SW, C_SW, D_SW, E_SW, F_SW, G_SW, H_SW, J_SW, PROC_SW, RATE_SW, CHK_SW, MATCH_SW, STORE_SW, SEL_SW;
void print_tags(char *name, int state, uint16_t tags, uint16_t bus_out) { }
void print_inst(uint8_t *val) { }
void add_cpu() {}

static struct CPU_2050 o;             /* state on entry (ghost) */
static uint32_t o_SA, o_ma, o_msa, o_ba, o_bsa, o_la;
static uint8_t o_pa, o_pk;
static int o_intr, o_timer_irq, o_timer_update, o_stop_mode;
uint32_t in_pin[10];
uint32_t in_a;                        /* an arbitrary storage word (ghost) */
uint32_t in_l;                        /* an arbitrary local storage word (ghost) */
uint32_t in_b;                        /* an arbitrary bump storage word (ghost) */
uint32_t in_k;                        /* an arbitrary protection block (ghost) */
#define W in_word
#define C cpu_2050
static int word_ok(void)              /* the widths of the fields of a control word */
{
    return (unsigned)W.zp < 4096 && W.zp % 64 == 0 && (unsigned)W.zn < 8 && (unsigned)W.zf < 16 && (unsigned)W.tr < 32 && (unsigned)W.ws < 8
        && (unsigned)W.sf < 8 && (unsigned)W.iv < 8 && (unsigned)W.al < 32 && (unsigned)W.wm < 16 && (unsigned)W.up < 4 && (unsigned)W.md < 2
        && (unsigned)W.lb < 2 && (unsigned)W.mb < 2 && (unsigned)W.tc < 2 && (unsigned)W.dg < 8 && (unsigned)W.ul < 4 && (unsigned)W.ur < 4
        && (unsigned)W.ce < 16 && (unsigned)W.lx < 8 && (unsigned)W.ry < 8 && (unsigned)W.ad < 16 && (unsigned)W.ab < 64 && (unsigned)W.bb < 32
        && (unsigned)W.ss < 64 && (unsigned)W.lu < 8 && (unsigned)W.mv < 4 && W.io == 0
        /* channel control functions (C13 territory) and entering I/O mode are not CPU-mode words */
        && W.ss != 52 && W.ss != 58 && W.wm != 7 && !(W.zn == 0 && W.zf == 2);
}
#define F4(x) ((x) < 16)
static int pre_cycle(void)
{
    return word_ok() && mem_max == VK_MEM - 1 && C.ROAR < 4096 && C.NROAR < 4096 && C.PROAR < 4096
        && C.CH < 4 && C.MB_REG < 4 && C.LB_REG < 4 && C.CC < 4 && F4(C.F_REG) && F4(C.MD_REG) && F4(C.J_REG) && F4(C.BS_REG)
        && F4(C.BI_REG) && F4(C.ED_REG) && F4(C.PMASK) && F4(C.AMWP) && F4(C.KEY) && C.ILC < 4 && (C.FN & ~0x30) == 0 && C.LSA < 64
        && C.mvfnc < 8 && C.CAR <= 1 && C.Q_REG <= 1 && C.SYLS1 <= 1 && C.LSGNS <= 1 && C.RSGNS <= 1 && C.REFETCH <= 1
        && C.IVA <= 1 && C.G1NEG <= 1 && C.G2NEG <= 1 && C.allow_man_operation <= 1 && C.wait <= 1 && C.load_mode <= 1
        && C.init_mem <= 1 && C.init_bump_mem <= 1 && C.bump_mem <= 1 && C.update_d <= 1 && C.IBFULL <= 1
        && (C.AUX_REG == 0 || C.AUX_REG == 1) && stop_mode <= 1 && (timer_irq == 0 || timer_irq == 1) && (timer_update == 0 || timer_update == 1)
        && (INTR == 0 || INTR == 1)
        && (C.mem_state == R1 || C.mem_state == R2 || C.mem_state == R3 || C.mem_state == W1)
        /* an access in progress was started on an address that exists */
        && (C.mem_state == W1 || C.bump_mem || SA <= mem_max);
}
static int bump_at(uint32_t sa) { return (((sa >> 6) & 0xf00) | (sa & 0xfc)) >> 2; }
static void setup(void)
{
    int i;
    VK_LOAD();
    log_level = 0;
    M = vk_mem;
    chan[0] = chan[1] = chan[2] = chan[3] = chan[4] = chan[5] = NULL;
    /* console idle, no channel activity: the CPU alone */
    RATE_SW = 1; ADR_CMP = ROS_CMP = INST_REP = SAR_CMP = ROS_REP = 0; INT_TMR = 0;
    SYS_RST = ROAR_RST = START = SET_IC = STOP = LOAD = STORE = DISPLAY = SEL_ENTER = 0;
    C.io_mode = 0; C.inst_latch = C.last_cycle = C.break_in = C.break_out = C.dead_cycle = C.rest_cycle = C.chpostest = C.s3_set = 0;
    for (i = 0; i < 4; i++) { C.ROUTINE[i] = C.CHREQ[i] = C.CHPOS[i] = C.TAGS[i] = C.TAGS_IN[i] = 0; C.polling[i] = 1; C.C1[i] = C.C2[i] = C.C3[i] = 0; C.FLAGS_REG[i] = 0; C.MPX_PCI = 0; }
    VK_ASSUME(pre_cycle());
    VK_ASSUME(in_a < VK_MEM / 4 && in_l < 64 && in_b < 4096 && in_k < 256);
    VK_PIN(vk_mem[in_a], in_pin[0]);
    if (SA <= mem_max && SA >> 2 != in_a) VK_PIN(vk_mem[SA >> 2], in_pin[1]);
    VK_PIN(C.LS[in_l], in_pin[2]);
    VK_PIN(C.BUMP[in_b], in_pin[3]);
    if (bump_at(SA) != in_b) VK_PIN(C.BUMP[bump_at(SA)], in_pin[4]);
    VK_PIN(C.MP[in_k], in_pin[5]);
    if (((C.SAR_REG >> 11) & 0xff) != in_k) VK_PIN(C.MP[(C.SAR_REG >> 11) & 0xff], in_pin[6]);
    VK_ASSUME(F4(C.MP[in_k]));
    o = C;
    o_SA = SA; o_ma = vk_mem[in_a]; o_msa = SA <= mem_max ? vk_mem[SA >> 2] : 0; o_ba = C.BUMP[in_b]; o_bsa = C.BUMP[bump_at(SA)];
    o_la = C.LS[in_l]; o_pa = C.MP[in_k]; o_pk = C.MP[(C.SAR_REG >> 11) & 0xff];
    o_intr = INTR; o_timer_irq = timer_irq; o_stop_mode = stop_mode;
    o_timer_update = timer_update || (timer_event && !C.allow_man_operation);
}
/* ---- storage timing (specification) ----
 * A request made in one cycle starts its four-beat cycle R1 R2 R3 W1 when the storage is
 * in W1.  A word that needs the storage data register, or starts a request, waits. */
static int tr_uses_storage(void)
{
    switch (W.tr) {
    case 4: case 12: case 13: case 17: case 22: case 28: case 29:               /* data register */
    case 6: case 8: case 9: case 10: case 11: case 15: case 16: return 1;       /* new request */
    }
    return 0;
}
static int waits_always(void) { return W.al == 30 || W.ss == 3 || W.iv == 4 || W.iv == 7; }
static int o_req(void) { return o.init_mem || o.init_bump_mem; }
static int s_no_storage(void) { return o.mem_state == W1 && o_req() && !o.init_bump_mem && o.SAR_REG > mem_max; }
static int s_stall(void)
{
    switch (o.mem_state) {
    case R1: case R2: return tr_uses_storage() || waits_always() || o_req() || o.update_d;
    case R3: return o_req();
    }
    return o_req() && (s_no_storage() || waits_always() || W.tr == 29);
}
#define EX (!s_stall())
static int is_stalled(void) { return s_stall(); }
/* storage data register after the storage beat */
static uint32_t s_sdr(void)
{
    if (o.mem_state == R2 && (!o.update_d || W.tr == 29)) return o.bump_mem ? o_bsa : o_msa;
    return o.SDR_REG;
}
/* the REFETCH flag: a store into the word at the instruction address spoils the prefetched one */
static int s_wrote(void) { return o.mem_state == W1 ? o.update_d : o.mem_state == R3 ? (!o_req() && (o.update_d || W.tr == 29)) : 0; }
static uint32_t ones(int n) { return n >= 32 ? 0xffffffffu : ((1u << n) - 1); }
static uint32_t bytes(unsigned bs)    /* the bytes a four-bit byte mask selects */
{
    return (bs & 8 ? 0xff000000u : 0) | (bs & 4 ? 0x00ff0000u : 0) | (bs & 2 ? 0x0000ff00u : 0) | (bs & 1 ? 0x000000ffu : 0);
}
static unsigned byte_of(uint32_t w, unsigned n) { return (w >> (24 - 8 * n)) & 0xff; }
static uint32_t put_byte(uint32_t w, unsigned n, unsigned v) { return (w & ~bytes(8 >> n)) | ((uint32_t)v << (24 - 8 * n)); }
/* bit n (0 = leftmost, as numbered in the machine) of an 8-bit register */
static int bit(unsigned v, int n) { return (v >> (7 - n)) & 1; }
static int bit32(uint32_t v, int n) { return (v >> (31 - n)) & 1; }

/* ---- adder (specification) ---- */
static uint32_t s_left(void)
{
    uint32_t v = 0;
    switch (W.lx) {
    case 1: v = o.L_REG; break;
    case 2: v = 0x80000000u; break;
    case 3: v = W.ce * 2; break;
    case 4: v = o.L_REG << 16; break;
    case 5: v = o.L_REG | 3; break;
    case 6: v = 4; break;
    case 7: v = 0xc0000000u; break;
    }
    if (W.ss == 42) v &= bytes(o.BS_REG);
    return W.tc ? v : ~v;
}
static uint32_t s_right(void)
{
    uint32_t v = 0;
    switch (W.ry) {
    case 1: v = o.R_REG; break;
    case 2: v = o.M_REG; break;
    case 3: v = o.M_REG & 0xffff; break;
    case 4: v = o.H_REG; break;
    }
    return W.lx == 5 ? v | 3 : v;
}
static int s_cin(void)
{
    switch (W.dg) {                   /* a carry the word asks for wins over that of the adder function */
    case 1: return o.CAR;
    case 2: case 4: return 1;
    }
    if (W.ad == 2) return o.F_REG == 0;
    if (W.ad == 9 || W.ad == 10 || W.ad == 12) return bit(o.S_REG, 1);
    return 0;
}
/* carry out of bit position n when the whole word is added */
static int carry_at(int n) { return (int)((((uint64_t)(s_left() & ones(32 - n)) + (s_right() & ones(32 - n)) + s_cin()) >> (32 - n)) & 1); }
static int hot7(void) { return W.ad == 6 && W.al == 23; }
static uint32_t s_sum(void)
{
    if (W.ad == 6 || W.ad == 7) {     /* no carry goes from the fraction into the characteristic */
        uint32_t lo = (s_left() + s_right() + s_cin()) & 0xffffff;
        uint32_t hi = ((s_left() >> 24) + (s_right() >> 24) + (hot7() ? 1 : 0)) & 0xff;
        return (hi << 24) | lo;
    }
    return s_left() + s_right() + s_cin();
}
/* carry out of position 1 of the separated characteristic */
static int carry_char1(void) { return (((s_left() >> 24) & 0x7f) + ((s_right() >> 24) & 0x7f) + (hot7() ? 1 : 0)) >> 7; }
static int s_carry(void)              /* the carry the word's adder function looks at */
{
    switch (W.ad) {
    case 5: return carry_at(0) ^ carry_at(1);
    case 6: return carry_char1();
    case 7: return carry_at(8);
    }
    return carry_at(0);
}
