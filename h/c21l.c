/* Configuration parsing at the limits of its fields: words of 17..23 characters, values of 1020..1027. */
#define __NO_CTYPE
#include "vk.h"
#include <stdio.h>
#include <ctype.h>
#ifndef VK_NATIVE
#undef stderr
#define stderr ((FILE *)0)
int fprintf(FILE *f, const char *fmt, ...) { return 0; }
#endif
#include "conf.c"
#include "stubs_log.h"
int log_level;
#ifndef VK_LEN
#define VK_LEN 20
#endif
#define NB (VK_LEN + 12)
struct _option opt;
static char buf[NB];
char in_ch;              /* the character repeated */
static int r, n;
static int alone(int lim, const char *f)      /* field holds exactly min(VK_LEN, lim) characters */
{
    int k; n = 0;
    for (k = 0; k < NB; k++) { if (!f[k]) break; if (f[k] != 'A') return 0; n++; }
    return n == (VK_LEN < lim ? VK_LEN : lim);
}
static void line(char a, char fill, char z)
{
    int k, i = 0;
    if (a) buf[i++] = a;
    for (k = 0; k < VK_LEN; k++) buf[i++] = fill;
    if (z) buf[i++] = z;
    buf[i] = 0;
    line_ptr = buf;
}
#define KEPT (opt.flags == 0x1234567 && opt.addr == 0x777)
static void fresh(void) { opt.flags = 0x1234567; opt.addr = 0x777; opt.model = 'q'; opt.string[0] = 'z'; }
int main(void)
{
    VK_LOAD();
    log_level = 0;
#if VK_LEN < 100
    fresh(); line(' ', 'a', ' '); r = get_option(&opt);
    VK_ASSERT(r == 1 && alone(19, opt.opt) && opt.flags == 0 && opt.string[0] == 0 && opt.addr == 0x777 && opt.model == 'q', "long option word");
    fresh(); line('x', 'a', ' '); line_ptr++; r = get_model(&opt);
    VK_ASSERT(r == 1 && alone(19, opt.opt) && opt.flags == 0 && opt.addr == 0x777 && opt.model == 0 && opt.dash_num == 0 && opt.slash_num == 0, "long model word");
    fresh(); line('2', '-', ' '); buf[2] = 'a'; r = get_model(&opt);
    fresh(); line('-', '1', ' '); r = get_model(&opt);
    VK_ASSERT(r == 1 && opt.opt[0] == 0 && opt.flags == 1 && opt.addr == 0x777, "long number");
    fresh(); line('/', '1', ' '); r = get_model(&opt);
    VK_ASSERT(r == 1 && opt.opt[0] == 0 && opt.flags == 2 && opt.addr == 0x777, "long number");
    fresh(); line(' ', 'a', 'z'); r = get_addr(&opt);
    VK_ASSERT(r == 1 && opt.addr == 0xaaaa && opt.flags == 0x1234567 && opt.model == 'q', "long address");
#endif
    fresh(); line(' ', 'a', ' '); r = get_string(&opt);
    VK_ASSERT(r == 1 && alone(1023, opt.string) && KEPT, "long value");
    fresh(); line('"', 'A', '"'); r = get_string(&opt);
    VK_ASSERT(r == 1 && alone(1023, opt.string) && KEPT, "long quoted value");
    fresh(); line('"', 'A', 0); r = get_string(&opt);
    VK_ASSERT(r == 1 && alone(1023, opt.string) && KEPT && line_ptr <= buf + VK_LEN + 1, "long value, quote not closed");
    VK_REACHED("end");
    return 0;
}
