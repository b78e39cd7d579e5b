/* Common part of the Model 30 contracts: the real cycle_2030() from
 * /repo/src/model2030/cpu2030.c.  The only textual change (made mechanically on
 * every run by checks.py:prep_cpu2030) is that a control-store access
 * ros_2030[e] reads the word through vk_ros(e), which asserts that e is inside
 * the control store and returns an arbitrary (nondeterministic) word.
 */
#include "vk.h"
#include "model2030.h"
#ifdef VK_NATIVE
#include <stdio.h>
#endif
#ifndef VK_MEM
#define VK_MEM 65536
#endif
struct ROS_2030 in_word;              /* the control word being executed */
struct ROS_2030 *vk_ros(unsigned x)
{
    VK_ASSERT(x < 4096, "control store address inside the control store");
    return &in_word;
}
#include "cpu2030_x.c"
#include "stubs_log.h"
#include "xlat.c"
int log_level;
uint32_t vk_mem[VK_MEM];
uint32_t *M;
uint32_t mem_max;
struct _device *chan[6];
int SYS_RST, ROAR_RST, START, SET_IC, CHECK_RST, STOP, INT_TMR, STORE, DISPLAY, LAMP_TEST, POWER, INTR, LOAD, timer_event;
uint8_t A_SW, B_SW, C_SW, D_SW, E_SW, F_SW, G_SW, H_SW, J_SW, PROC_SW, RATE_SW, CHK_SW, MATCH_SW, STORE_SW;
void print_tags(char *name, int state, uint16_t tags, uint16_t bus_out) { }
void print_inst(uint8_t *val) { }
uint16_t in_ti, in_tt, in_treq;
uint16_t out_te; int out_te_n;
void model1052_in(void *ctx, uint16_t *bus_in) { *bus_in = in_ti; }
void model1052_out(void *ctx, uint16_t bus_out) { out_te = bus_out; out_te_n++; }
void model1052_func(void *ctx, uint16_t *tags_out, uint16_t tags_in, uint16_t *t_request)
{ *tags_out = in_tt; *t_request = in_treq & 1; }
void add_cpu() {}

static struct CPU_2030 o;             /* state on entry (ghost) */
static uint32_t o_ma, o_mn; static uint16_t o_la; static uint8_t o_pa;
uint32_t in_pin[8];
uint32_t in_a;                        /* an arbitrary storage address (ghost) */
static int o_read_call, o_inh, o_mem_prot, o_protect, o_stg_prot_req, o_even, o_alu_chk, o_timer, o_interrupt_src,
           o_i_wrap, o_u_wrap, o_um_wrap;
static int o_reg_prot_now;
#define W in_word
#define C cpu_2030
static int word_ok(void)
{
    return W.CH < 16 && W.CL < 16 && W.CM < 8 && W.CU < 4 && W.CA < 32 && W.CB < 4 && W.CK < 32 && W.CD < 16 &&
           W.CF < 8 && W.CG < 4 && W.CV < 4 && W.CC < 8 && W.CS < 32 && W.PK < 2;
}
/* one un-stopped, un-trapped micro-instruction cycle, console switches idle */
#ifdef VK_SHARE            /* the cycle goes to a selector channel storage access instead */
#define SHARE (sel_share_req > 0 && sel_share_req <= 3 && C.allow_write == 0 && read_call == 0)
#else
#define SHARE (sel_share_req == 0 || C.allow_write != 0 || read_call != 0)
#endif
#ifdef VK_CONSOLE          /* clock stopped, manual operation allowed */
#define CLOCK (C.clock_start_lch == 0 && C.allow_man_operation && e_cy_stop_sample == 0 && priority_lch != 0)
#else
#define CLOCK (C.clock_start_lch == 1)
#endif
static int pre_cycle(void)
{
    return word_ok() && C.WX < 4096 && (C.ch_sel == 0 || C.ch_sel == 1) && (C.ch_sav == 0 || C.ch_sav == 1)
        && (mem_max == VK_MEM - 1)
        && MATCH_SW == 0 && CHK_SW == 2 && RATE_SW == 1 && PROC_SW <= 2
        && A_SW < 16 && B_SW < 16 && C_SW < 16 && D_SW < 16 && F_SW < 16 && G_SW < 16 && H_SW < 16 && J_SW < 16
        && CLOCK && hard_stop == 0 && cf_stop == 0 && proc_stop_loop_active == 0
        && set_ic_allowed == 0 && set_ic_start == 0 && gate_sw_to_wx == 0
        && C.dead_cycle == 0
        && (priority_lch != 0 || read_call != 0 || C.allow_write != 0 || priority_stack_reg == 0)
        && SHARE
        && (C.store == MAIN || C.store == LOCAL || C.store == MPX)
        && C.MN_REG <= 0xffff && (C.store == MAIN || C.MN_REG < 0x800)
        && C.M_REG < 0x200 && C.N_REG < 0x200 && C.R_REG < 0x200 && C.I_REG < 0x200 && C.J_REG < 0x200
        && C.U_REG < 0x200 && C.V_REG < 0x200 && C.T_REG < 0x200 && C.L_REG < 0x200 && C.D_REG < 0x200
        && C.G_REG < 0x200 && C.H_REG < 0x200 && C.Q_REG < 0x100 && C.XX_REG < 0x100
        && C.MPX_X6X7 < 4 && C.SEL_X6X7 < 4 && C.FWX < 4096 && C.GWX < 4096
        && C.GU[0] < 0x200 && C.GU[1] < 0x200 && C.GV[0] < 0x200 && C.GV[1] < 0x200
        && (even_parity == 0 || even_parity == 0x100)
        && (C.mpx_ros_rest <= 1 && C.sel_ros_rest <= 1)
        && wrap_buf >= 0 && wrap_buf <= 1;
}
static void setup(void)
{
    VK_LOAD();
    log_level = 0;
    M = vk_mem;
    chan[0] = chan[1] = chan[2] = chan[3] = chan[4] = chan[5] = NULL;
    SYS_RST = ROAR_RST = START = SET_IC = CHECK_RST = STOP = INTR = LOAD = 0;
#ifndef VK_CONSOLE
    STORE = DISPLAY = 0;
#endif
    C.console = NULL;
    VK_ASSUME(pre_cycle());
    if (in_a < VK_MEM) VK_PIN(vk_mem[in_a], in_pin[0]);
    if (C.MN_REG < VK_MEM && C.MN_REG != in_a) VK_PIN(vk_mem[C.MN_REG], in_pin[1]);
    VK_PIN(C.LS[in_a & 0xfff], in_pin[2]);
    if ((C.MN_REG & 0xfff) != (in_a & 0xfff)) VK_PIN(C.LS[C.MN_REG & 0xfff], in_pin[3]);
    VK_PIN(C.MP[in_a & 0xff], in_pin[4]);
    if (C.SA_REG != (in_a & 0xff)) VK_PIN(C.MP[C.SA_REG], in_pin[5]);
    o = C;
    VK_ASSUME(in_a < 65536);
    o_ma = in_a < VK_MEM ? vk_mem[in_a] : 0;
    o_mn = C.MN_REG < VK_MEM ? vk_mem[C.MN_REG] : 0;
    o_la = C.LS[in_a & 0xfff]; o_pa = C.MP[in_a & 0xff];
    o_read_call = read_call; o_inh = inh_stg_prot; o_mem_prot = mem_prot; o_protect = protect_loc_cpu_or_mpx;
    o_stg_prot_req = stg_prot_req; o_even = even_parity; o_alu_chk = alu_chk; o_timer = timer_event && INT_TMR;
    o_i_wrap = i_wrap_cpu; o_u_wrap = u_wrap_cpu; o_um_wrap = u_wrap_mpx;
}
static int odd9(unsigned v)           /* nine-bit value has an odd number of ones */
{
    v &= 0x1ff; v ^= v >> 8; v ^= v >> 4; v ^= v >> 2; v ^= v >> 1;   /* bit 8 folds into bit 0 */
    return v & 1;
}
/* ---- what the storage read of this cycle delivers (specification) ---- */
static int s_bad_mn(void) { return !odd9(o.M_REG) || !odd9(o.N_REG); }
static int s_range(void)  { return o.store == MAIN && o.MN_REG > mem_max; }
static int s_prot(void)   { return o_read_call ? (s_bad_mn() || s_range()) : o_mem_prot; }
static int s_reads(void)  { return o_read_call && !s_prot() && W.CM != 2; }
static unsigned s_cell(void) { return o.store == MAIN ? o_mn : o.LS[o.MN_REG & 0xfff]; }
static unsigned s_R(void) { return s_reads() && W.CU != 1 ? (uint16_t)s_cell() : o.R_REG; }
/* protected by key: read cycle of main storage, keys differ, not inhibited, not a channel cycle */
static int s_key_bad(void)
{
    unsigned q = (o.Q_REG & 0xf0) | (o.MP[o.SA_REG] & 0xf);
    if (!o_read_call) return 0;
    return o.store == MAIN && !s_prot() && !o_inh && (o.H_REG & 4) == 0 && (q & 0xf0) != 0 && (((q >> 4) ^ q) & 0xf) != 0;
}
static unsigned s_C(void)   /* interval timer count: bumped by a tick of the timer, up to 15 */
{
    return o_timer && o.C_REG != 0xf ? (o.C_REG + 1) & 0xff : o.C_REG;
}
