#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include "cpu2050.c"
#include "xlat.c"
int log_level; uint32_t *M; uint32_t mem_max; struct _device *chan[6];
int SYS_RST, ROAR_RST, START, SET_IC, CHECK_RST, STOP, INT_TMR, STORE, DISPLAY, LAMP_TEST, POWER, INTR, LOAD, timer_event, SEL_ENTER;
uint32_t ADR_CMP, INST_REP, ROS_CMP, ROS_REP, SAR_CMP, FORC_IND, FLT_MODE, CHN_MODE;
uint8_t A_SW, B_SW, C_SW, D_SW, E_SW, F_SW, G_SW, H_SW, J_SW, PROC_SW, RATE_SW, CHK_SW, MATCH_SW, STORE_SW, SEL_SW;
char *title; void *(*setup_cpu)(char *title); void (*step_cpu)();
void *setup_fp2050(char *title) { return NULL; }
void log_print(int level, char *file, int line, const char *fmt, ...) { }
void log_print_s(int level, char *file, int line, const char *fmt, ...) { }
void log_print_c(int level, const char *fmt, ...) { }
void print_tags(char *name, int state, uint16_t tags, uint16_t bus_out) { }
void print_inst(uint8_t *val) { }
void add_cpu() {}
#define C cpu_2050
struct ROS_2050 ros_2050[4096];
static struct ROS_2050 *w = &ros_2050[0x200];
static void init(unsigned size)
{
    M = calloc(size / 4 + 4096, sizeof *M); mem_max = size - 1;
    RATE_SW = 1; C.mem_state = W1; C.ROAR = 0x200;
    C.polling[0] = C.polling[1] = C.polling[2] = C.polling[3] = 1;
}
/* an idle word at 200 that goes back to 200 */
static void word(void) { memset(w, 0, sizeof *w); w->zp = 0x200; w->zn = 4; w->sf = 7; w->tc = 1; w->ad = 1; C.ROAR = 0x200; }
static void idle(int n) { while (n--) { word(); cycle_2050(); } }
