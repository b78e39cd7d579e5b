#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include "cpu2030.c"
#include "xlat.c"
int log_level; uint32_t *M; uint32_t mem_max; struct _device *chan[6];
int SYS_RST, ROAR_RST, START, SET_IC, CHECK_RST, STOP, INT_TMR, STORE, DISPLAY, LAMP_TEST, POWER, INTR, LOAD, timer_event;
uint8_t A_SW, B_SW, C_SW, D_SW, E_SW, F_SW, G_SW, H_SW, J_SW, PROC_SW, RATE_SW, CHK_SW, MATCH_SW, STORE_SW;
void log_print(int level, char *file, int line, const char *fmt, ...) { }
void log_print_s(int level, char *file, int line, const char *fmt, ...) { }
void log_print_c(int level, const char *fmt, ...) { }
void print_tags(char *name, int state, uint16_t tags, uint16_t bus_out) { }
void print_inst(uint8_t *val) { }
void model1052_in(void *ctx, uint16_t *bus_in) { *bus_in = 0x100; }
void model1052_out(void *ctx, uint16_t bus_out) { }
void model1052_func(void *ctx, uint16_t *tags_out, uint16_t tags_in, uint16_t *t_request) { *tags_out = 0; *t_request = 0; }
void add_cpu() {}
#define C cpu_2030
struct ROS_2030 ros_2030[4096];
static struct ROS_2030 *w = &ros_2030[0x200];
static unsigned P(unsigned b) { b &= 0xff; return b | odd_parity[b]; }
static void init(unsigned size)
{
    M = calloc(size, sizeof *M); mem_max = size - 1;
    CHK_SW = 2; RATE_SW = 1; PROC_SW = 1;
    C.clock_start_lch = 1;
    C.M_REG = C.N_REG = C.R_REG = C.I_REG = C.J_REG = C.U_REG = C.V_REG = C.T_REG = C.L_REG = C.D_REG = C.G_REG = C.H_REG = 0x100;
}
static void word(int CM, int CU) { memset(w, 0, sizeof *w); w->CM = CM; w->CU = CU; C.WX = 0x200; }
