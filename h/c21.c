/* Configuration line parsing: every line of up to VK_N characters (bounded), in a buffer that ends with the line. */
#define __NO_CTYPE
#include "vk.h"
#ifndef VK_N
#define VK_N 26
#endif
#include <stdio.h>
#include <ctype.h>
#ifndef VK_NATIVE
#undef stderr
#define stderr ((FILE *)0)
int fprintf(FILE *f, const char *fmt, ...) { return 0; }
#endif
#include "conf.c"
#include "stubs_log.h"
int log_level;
char in_line[VK_N + 1];
struct _option opt;
static struct _option o;
int ival;
char *in_list[4];
char n0[4], n1[4], n2[4];
unsigned in_pos;
static unsigned s0;           /* first significant character */
static int r;
static int eol;               /* nothing but blanks and a comment */
static int len(void) { int k; for (k = 0; k < VK_N && in_line[k]; k++) ; return k; }
static int sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int dig(int c) { return c >= '0' && c <= '9'; }
static int al(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int xd(int c) { return dig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static void skip(int comma)
{
    for (s0 = 0; s0 < VK_N && (sp(in_line[s0]) || (comma && in_line[s0] == ',')); s0++) ;
    eol = in_line[s0] == 0 || in_line[s0] == '#';
}
static unsigned here(void) { return line_ptr - in_line; }
static int post_inside(void) { return line_ptr >= in_line && here() <= len() && in_line[here() > VK_N ? 0 : here()] == in_line[here() > VK_N ? 0 : here()]; }
#ifdef VK_LONG
static void shape(void);
#endif
#if VK_OP == 0          /* model name: WORD[letter][-number][/number] */
static int wl;             /* length of the leading word */
static int c_end;
static int word(int i) { return al(in_line[i]) || dig(in_line[i]); }
static int nd;             /* leading digits of the word */
static int bad, dash, slash, dn, sn, simple;
static void shape(void)
{
    int i, k;
    unsigned e;
    wl = 0; nd = 0;
    for (k = 0; k < VK_N - (int)s0 && word(s0 + k); k++) wl++;
    for (k = 0; k < wl && dig(in_line[s0 + k]); k++) nd++;
    e = s0 + wl; dash = slash = 0; dn = sn = 0; simple = wl <= 18 && wl > 0;
    if (e < VK_N && in_line[e] == '-') { dash = 1; k = 0; e++; while (e < VK_N && dig(in_line[e])) { if (k < 3) dn = dn * 10 + in_line[e] - '0'; k++; e++; } if (k > 3) simple = 0; }
    if (e < VK_N && in_line[e] == '/') { slash = 1; k = 0; e++; while (e < VK_N && dig(in_line[e])) { if (k < 3) sn = sn * 10 + in_line[e] - '0'; k++; e++; } if (k > 3) simple = 0; }
    if (!(in_line[e] == 0 || sp(in_line[e]))) simple = 0;
    c_end = e;
}
static int lett(void) { return nd > 0 && wl == nd + 1; }       /* 2030F */
static int post_none(void) { return IMP(eol, r == 0); }
static int post_some(void) { return IMP(!eol && simple, r == 1 && here() == c_end); }
static int post_word(void)
{
    int k, n = lett() ? nd : wl;
    if (eol || !simple) return 1;
    for (k = 0; k < n; k++) if (opt.opt[k] != up(in_line[s0 + k])) return 0;
    return opt.opt[n] == 0;
}
static int post_letter(void) { return IMP(!eol && simple, opt.model == (lett() ? up(in_line[s0 + nd]) : 0)); }
static int post_nums(void)   { return IMP(!eol && simple, opt.dash_num == dn && opt.slash_num == sn && opt.flags == (dash | slash << 1)); }
#define PRE 1
#define POSTS(X) X(post_inside()) X(post_none()) X(post_some()) X(post_word()) X(post_letter()) X(post_nums())
#define CALL VK_RUN(r = get_model(&opt))
#define COV VK_COVER(simple && !eol && lett() && dash && slash && dn == 12 && opt.model == 'F' && nd == 2, "20F-12/3")
#elif VK_OP == 1        /* hexadecimal address */
static int n; static unsigned v;
static void shape(void)
{
    int k;
    n = 0; v = 0;
    for (k = 0; k < VK_N - (int)s0 && xd(in_line[s0 + k]); k++) {
        int ch = up(in_line[s0 + k]);
        n++; v = (v << 4) + (dig(ch) ? ch - '0' : ch - 'A' + 10);
    }
}
static int post_none(void) { return IMP(eol || n == 0, r == 0); }
static int post_addr(void) { return IMP(!eol && n > 0 && n <= 19, r == 1 && opt.addr == (v & 0xffff) && here() == s0 + n); }
#define PRE 1
#define POSTS(X) X(post_inside()) X(post_none()) X(post_addr())
#define CALL VK_RUN(r = get_addr(&opt))
#define COV VK_COVER(n == 3 && opt.addr == 0x1a0, "1a0")
#elif VK_OP == 2        /* string value, quoted or not */
static int q, vn, endp, closed; static char v[VK_N + 1];
static void shape(void)
{
    int k = s0, run = 1;
    q = in_line[k] == '"'; if (q) k++;
    vn = 0; closed = 0;
    while (run && k < VK_N + 1) {
        int ch = in_line[k];
        if (ch == 0 || ch == '\n' || (!q && sp(ch))) { run = 0; break; }
        if (q && ch == '"') {
            if (in_line[k + 1] == '"') { v[vn++] = '"'; k += 2; continue; }
            k++; closed = 1;
            if (in_line[k] == 0 || sp(in_line[k])) break;
            closed = 2; break;         /* text right after a closing quote: left open */
        }
        v[vn++] = q ? ch : up(ch); k++;
    }
    endp = k;
}
static int ok(void) { return !eol && in_line[s0] != '\n' && closed != 2; }
static int post_none(void)  { return IMP(eol, r == 0); }
static int post_ret(void)   { return IMP(ok(), r == 1 && here() == endp); }
static int post_text(void)
{
    int k;
    if (!ok()) return 1;
    for (k = 0; k < vn; k++) if (opt.string[k] != v[k]) return 0;
    return opt.string[vn] == 0;
}
static int post_frame(void) { return opt.addr == o.addr && opt.model == o.model && opt.flags == o.flags && opt.opt[in_pos % 20] == o.opt[in_pos % 20]; }
#define PRE 1
#define POSTS(X) X(post_inside()) X(post_none()) X(post_ret()) X(post_text()) X(post_frame())
#define CALL VK_RUN(r = get_string(&opt))
#define COV VK_COVER(ok() && q && closed && vn == 5 && v[2] == '"', "doubled quote"); VK_COVER(q && !closed && !eol && vn == VK_N - 3, "no closing quote")
#elif VK_OP == 3        /* option word with or without value */
static int n, has, nv;
static int wc(int c) { return al(c) || dig(c) || c == '-'; }
static void shape(void)
{
    int k;
    n = 0;
    for (k = 0; k < VK_N - (int)s0 && wc(in_line[s0 + k]); k++) n++;
    has = in_line[s0 + n] == '=';
    nv = 0;
    if (has) for (k = s0 + n + 1; k < VK_N && in_line[k] && !sp(in_line[k]); k++) nv++;
}
static int plain(void) { return in_line[s0 + n + 1] != '"' && in_line[s0 + n + 1] != '#' && !sp(in_line[s0 + n + 1]) && in_line[s0 + n + 1] != 0; }
static int post_none(void) { return IMP(eol, r == 0 && opt.opt[0] == 0 && opt.string[0] == 0 && opt.flags == 0); }
static int post_word(void)
{
    int k;
    if (eol || n > 19) return 1;
    for (k = 0; k < n; k++) if (opt.opt[k] != up(in_line[s0 + k])) return 0;
    return opt.opt[n] == 0;
}
static int post_flag(void)  { return IMP(!eol && n <= 19 && !has, r == 1 && opt.flags == 0 && opt.string[0] == 0 && here() == s0 + n); }
static int post_value(void)
{
    int k;
    if (eol || n > 19 || !has || !plain()) return 1;
    if (r != 1 || opt.flags != 1 || here() != s0 + n + 1 + nv) return 0;
    for (k = 0; k < nv; k++) if (opt.string[k] != up(in_line[s0 + n + 1 + k])) return 0;
    return opt.string[nv] == 0;
}
#define PRE 1
#define POSTS(X) X(post_inside()) X(post_none()) X(post_word()) X(post_flag()) X(post_value())
#define CALL VK_RUN(r = get_option(&opt))
#define COV VK_COVER(!eol && n == 2 && has && nv == 3 && s0 == 1, " ab=327")
#elif VK_OP == 4        /* numbers and keyword values, from an option already parsed */
static int n, nd, v;
static void shape(void)
{
    int k;
    n = nd = v = 0;
    for (k = 0; k < 4 && opt.string[k]; k++) { n++; if (dig(opt.string[k])) { nd++; v = v * 10 + opt.string[k] - '0'; } }
}
static int post_num(void) { return IMP(n > 0 && nd == n, r == 1 && ival == v); }
static int post_nan(void) { return IMP(n == 0 || nd != n, r == 0); }
#define PRE (opt.string[4] == 0)
#define POSTS(X) X(post_num()) X(post_nan())
#define CALL VK_RUN(r = get_integer(&opt, &ival))
#define COV VK_COVER(ival == 3270, "number")
#else
static int same(const char *l) { int k; for (k = 0; k < 4; k++) { if (l[k] != opt.string[k]) return 0; if (!l[k]) return 1; } return 1; }
static void shape(void) { in_list[0] = n0; in_list[1] = n1; in_list[2] = n2; in_list[3] = NULL; }
static int post_index(void)
{
    if (opt.string[0] == 0) return r == -1;
    if (same(n0)) return r == 0;
    if (same(n1)) return r == 1;
    return r == (same(n2) ? 2 : -1);
}
#define PRE (opt.string[4] == 0 && n0[3] == 0 && n1[3] == 0 && n2[3] == 0)
#define POSTS(X) X(post_index())
#define CALL VK_RUN(r = get_index(&opt, in_list))
#define COV VK_COVER(same(n2) && !same(n1) && !same(n0) && n2[0] != 0 && opt.string[0] != 0, "third keyword")
#endif
int main(void)
{
    VK_LOAD();
    log_level = 0;
    VK_ASSUME(in_line[VK_N] == 0);
    { int k, z = 0; for (k = 0; k < VK_N; k++) { if (in_line[k] == 0) z = 1; VK_ASSUME(!z || in_line[k] == 0); } }
    line_ptr = in_line;
    o = opt;
    skip(VK_OP == 3);
    shape();
    CALL;
    COV;
    VK_REACHED("end");
    return 0;
}
