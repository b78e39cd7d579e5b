/* print_line: the text and the carriage control written to the print file for one command,
 * for every line buffer, form position, carriage tape and space/skip command. */
#define __NO_CTYPE
#include "vk.h"
#include <stdio.h>
#include <ctype.h>
/* the display copy of the last lines is not followed: block copies are checked to stay inside it */
static int blk_bad;
static void *vk_move(void *d, const void *s, size_t n);
static void *vk_set(void *d, int c, size_t n);
#define memcpy vk_move
#define memmove vk_move
#define memset vk_set
#ifndef VK_NATIVE
#undef isprint
int isprint(int c) { return c >= 32 && c < 127; }     /* C locale */
#endif
static int ev(const char *p, size_t n);
static size_t vk_fwrite(const void *p, size_t s, size_t n, FILE *f) { ev(p, s * n); return n; }
static int vk_fputc(int c, FILE *f) { char b[1]; b[0] = c; ev(b, 1); return c; }
static int vk_fputs(const char *p, FILE *f) { size_t k; for (k = 0; k < 150 && p[k]; k++) ; ev(p, k); return 0; }
static int n_flush;
static int vk_fflush(FILE *f) { n_flush++; return 0; }
#define fwrite vk_fwrite
#define fputc vk_fputc
#undef putc
#define putc vk_fputc
#define fputs vk_fputs
#define fflush vk_fflush
#if VK_PART != 2
#include "xlat.h"
/* the layout of a line and the carriage do not depend on the translation: any table */
uint8_t in_tab[256];
#define ebcdic_to_ascii in_tab
#endif
#include "model1443.c"
#undef ebcdic_to_ascii
#include "xlat.c"
#if VK_PART != 2
#define ebcdic_to_ascii in_tab
#endif
#include "stubs_log.h"
int log_level;
void print_tags(char *name, int state, uint16_t tags, uint16_t bus_out) { }
int add_event(struct _device *u, _callback f, int t, void *p, int a) { return 0; }
#define LPP 66
struct _1443_context ctx;
uint16_t in_fcb[LPP];
unsigned in_k;                 /* any one position of the line */
int in_ch;                     /* what is in it */
static struct _1443_context c0;
static int text_n, text_calls, last_ch, k_ch, nl0, nl1, ff, bad, n_read;
static int ev(const char *p, size_t n)
{
    size_t i;
    if (n > 0 && (p[0] == '\r' || p[0] == '\n' || p[0] == '\f')) {
        if (n > 3) { bad = 1; return 0; }
        for (i = 0; i < n; i++) {
            if (p[i] == '\n') { if (ff) nl1++; else nl0++; }
            else if (p[i] == '\f') ff++;
            else if (p[i] != '\r') bad = 1;
        }
        return 0;
    }
    if (n == 0) return 0;
    if (nl0 || ff || text_calls || n > 120) bad = 1;      /* the text comes first, in one piece */
    text_calls++; text_n = n;
    if (n <= 120) { last_ch = p[n - 1]; if (in_k < n) k_ch = p[in_k]; }
    return 0;
}
static void *vk_move(void *d, const void *s, size_t n)
{
    if ((char *)d < (char *)ctx.output || (char *)d + n > (char *)ctx.output + sizeof(ctx.output) ||
        (char *)s < (char *)ctx.output || (char *)s + n > (char *)ctx.output + sizeof(ctx.output)) blk_bad = 1;
    return d;
}
static void *vk_set(void *d, int c, size_t n) { return d; }      /* contents left arbitrary afterwards */
/* ---- what the line must look like */
static int graphic(int e)             /* the characters of the print chain, from their EBCDIC codes */
{
    if (e >= 0xc1 && e <= 0xc9) return 'A' + e - 0xc1;
    if (e >= 0xd1 && e <= 0xd9) return 'J' + e - 0xd1;
    if (e >= 0xe2 && e <= 0xe9) return 'S' + e - 0xe2;
    if (e >= 0xf0 && e <= 0xf9) return '0' + e - 0xf0;
    switch (e) {
    case 0x40: return ' ';  case 0x4b: return '.';  case 0x6b: return ',';  case 0x60: return '-';
    case 0x61: return '/';  case 0x5b: return '$';  case 0x5c: return '*';  case 0x4d: return '(';
    case 0x5d: return ')';  case 0x4e: return '+';  case 0x50: return '&';  case 0x7d: return '\'';
    case 0x7e: return '=';  case 0x6c: return '%';  case 0x7b: return '#';  case 0x7c: return '@';
    }
    return -1;
}
static int shown(int e) { int c = ebcdic_to_ascii[e & 0xff]; return c >= 32 && c < 127 ? c : '.'; }
static int writes(void) { return (c0.cmd & 7) == 1; }
static int spaces(void) { return !(c0.cmd & 0x80); }
static int L(void) { return (c0.cmd >> 3) & 3; }
static int chn(void) { return (c0.cmd >> 3) & 0xf; }
static int punched(int row, int ch) { return (in_fcb[row] >> (12 - ch)) & 1; }
static int target;
unsigned in_dist;              /* distance to the next line with the channel's punch, at most once round the form */
static int find(void)
{
    int k;
    target = c0.row + in_dist;
    if (in_dist < 1 || in_dist > LPP) return 0;
    for (k = 0; k < LPP; k++) {
        unsigned d = k > c0.row ? k - c0.row : k + LPP - c0.row;
        if (d < in_dist && punched(k, chn())) return 0;
        if (d == in_dist && !punched(k, chn())) return 0;
    }
    return 1;
}
/* a command the printer accepts, or the manual space and restore keys */
static int valid(int c)
{
    if ((c & 7) != 1 && (c & 7) != 3) return 0;
    if (c & 0x80) return c < 0x100 && (c & 0x78) != 0 && (c & 0x78) <= 0x60;
    return c >= 0 && c < 0x80 && (c & 0x78) <= 0x18;
}
static int passed(int ch)             /* a line with this punch was left by the spaces */
{
    int k, p = 0;
    for (k = 0; k < 3; k++) { int r = c0.row + k; if (r >= LPP) r -= LPP; if (k < L() && punched(r, ch)) p = 1; }
    return p;
}
static int post_form(void) { return !bad && !blk_bad && ff <= 1 && ctx.row >= 0 && ctx.row < LPP; }
static int post_text(void)
{
    if (!writes()) return text_calls == 0;
    if (c0.col == 0) return text_n == 0;
    if (text_n > c0.col || text_n < 1) return 0;
    if ((int)in_k >= c0.col) return 1;
    return (int)in_k < text_n ? k_ch == shown(in_ch) : shown(in_ch) == ' ';
}
static int post_trim(void) { return !writes() || text_n < 2 || last_ch != ' '; }
static int post_graphic(void) { return graphic(in_ch) < 0 || shown(in_ch) == graphic(in_ch); }
static int post_space(void)
{
    int r = c0.row + L();
    if (!spaces()) return 1;
    if (r < LPP) return ctx.row == r && nl0 == L() && ff == 0;
    return ctx.row == r - LPP && ff == 1 && nl0 == LPP - c0.row && nl1 == r - LPP;
}
static int post_skip(void)
{
    if (spaces()) return 1;
    if (target < LPP) return ctx.row == target && nl0 == target - c0.row && ff == 0;
    return ctx.row == target - LPP && ff == 1 && nl0 <= 1 && nl1 == target - LPP;
}
static int post_nine(void)
{
    int want = spaces() && writes() && passed(9);
    return ctx.sense == (c0.sense | (want ? SENSE_CHAN9 : 0));
}
static int post_twelve(void)
{
    int want = spaces() && writes() && passed(12);
    return ctx.status == (c0.status | (want ? SNS_UNITEXP : 0));
}
static int post_frame(void)
{
    return ctx.cmd == c0.cmd && ctx.col == c0.col && ctx.lpp == c0.lpp && ctx.state == c0.state && ctx.selected == c0.selected &&
           ctx.data_rdy == c0.data_rdy && ctx.data_end == c0.data_end && ctx.feed_done == c0.feed_done && ctx.ready == c0.ready && ctx.addr == c0.addr;
}
#define PRE (valid(ctx.cmd) && ctx.row >= 0 && ctx.row < LPP && ctx.lpp == LPP && ctx.col >= 0 && ctx.col <= 120)
#if VK_PART == 0
#define POSTS(X) X(post_form()) X(post_text()) X(post_trim())
#elif VK_PART == 3
#define POSTS(X) X(post_form())
#elif VK_PART == 2
#define POSTS(X) X(post_graphic())
#else
#define POSTS(X) X(post_form()) X(post_space()) X(post_skip()) X(post_nine()) X(post_twelve()) X(post_frame())
#endif
static int r;
int main(void)
{
    int i;
    VK_LOAD();
    log_level = 0;
    text_n = text_calls = last_ch = k_ch = nl0 = nl1 = ff = bad = blk_bad = n_flush = 0;
    ctx.file = (FILE *)&ctx; ctx.fcb = in_fcb;
    for (i = 0; i < 120; i++) VK_ASSUME(ctx.buf[i] >= 0 && ctx.buf[i] <= 0xff);
    VK_ASSUME(in_k < 120);
    VK_PIN(ctx.buf[in_k], in_ch);
#ifdef VK_HI
    VK_ASSUME(ctx.col >= VK_LO && ctx.col <= VK_HI);
#endif
#ifdef VK_COL
    VK_ASSUME(ctx.col == VK_COL);
    ctx.col = VK_COL;
#endif
#ifdef VK_ROW
    VK_ASSUME(ctx.row == VK_ROW);
    ctx.row = VK_ROW;
#endif
    VK_ASSUME(PRE);
    c0 = ctx;
    VK_ASSUME(spaces() || find());
#if VK_PART == 2
    VK_RUN(;);
    VK_COVER(graphic(in_ch) == 'Q', "Q");
    VK_REACHED("end");
    return 0;
#else
    VK_RUN(r = print_line(&ctx));
    VK_COVER(spaces() && nl0 + nl1 == 3, "three lines");
    VK_COVER(!spaces() && ff == 1 && ctx.row == (c0.row < 5 ? 0 : 5), "skip to the next form");
    VK_REACHED("end");
    return 0;
#endif
}
