/* Contract of dump() in src/gen_templates_data.c: the C++ text it writes denotes the lines of the file it reads.
 *
 * R is the meaning of a template file, as a machine over its bytes; O is a reader of C++ initialisers, as a machine over the
 * bytes written. Both produce events (a byte of an entry, the end of an entry with its two numbers); the streams of events have
 * to be equal. The loop of dump() carries an invariant (inserted by vlib/genc.py, text V_INV below), so it is proved for files of
 * any length. stdio is replaced by the stand-ins below. */
#include <stdbool.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>

static _Bool nd_bool(void) { _Bool x; return x; }
static int nd_int(void) { int x; return x; }
static size_t nd_size(void) { size_t x; return x; }
#define v_assert(c, m) __CPROVER_assert(c, m)
#define v_assume(c) __CPROVER_assume(c)

#define Q 8
/* V_PART: the loop rule in four parts. 0: up to the loop; 1, 2: one iteration from a state with an entry begun or not; 3, 4: what follows the loop.
   V_PCT: a placeholder has been seen in the entry (parts 1 and 3) */
#define OFF (V_PART != 0 && !v_round)
static int v_round;
static const char *v_init, *v_init2; static size_t v_initpos, v_initlen1, v_initlen;   /* the first entry, which is not in the file */
enum { E_DATA = 0, E_END = 1 };
struct ev { int kind; int byte; int kw; size_t count; };

/* everything the stand-ins and the two machines remember */
struct v {
    int eof, back;                       /* end of file seen; byte pushed back or -1 */
    int last;                            /* what fgetc() returned last */
    int pend, open, kw; size_t cnt;      /* R: pending '@' (1), '\r' (2), "@\r" (3); entry begun; placeholder seen; lines so far */
    int s_pend, s_open, s_kw; size_t s_cnt; int s_nr;   /* R before the last byte */
    int st, oct, noct, okw, kwlen; size_t num; int hasnum, isstr;  /* O */
    struct ev r[Q]; int nr; struct ev o[Q]; int no;
    int bad;
};
struct v V;
char v_text[160]; int v_ntext;           /* text outside of the entries */
int v_closed;

enum { S_HEAD, S_TOP, S_ENTRY, S_LIT, S_ESC, S_OCT, S_AFTER, S_KW, S_NUM, S_DONE, S_TAIL, S_EMPTY, S_CMT1, S_CMT, S_CMT2 };

static void fail(int why) { if (!V.bad) V.bad = why; }
static int same(struct ev a, struct ev b) { return a.kind == b.kind && a.byte == b.byte && a.kw == b.kw && a.count == b.count; }
static void match(void)
{
    if (V.nr == V.no) {
        for (int i = 0; i < Q; i++) { if (i < V.nr && !same(V.r[i], V.o[i])) fail(1); }
        V.nr = V.no = 0;
    }
}
static void push_r(int kind, int byte, int kw, size_t count) { if (V.nr < Q) { struct ev e = { kind, byte, kw, count }; V.r[V.nr++] = e; } else fail(2); }
static void push_o(int kind, int byte, int kw, size_t count)
{
    if (v_initpos < v_initlen) {
        int w = v_initpos < v_initlen1 ? v_init[v_initpos] : v_initpos < v_initlen - 1 ? v_init2[v_initpos - v_initlen1] : '"';
        if (kind != E_DATA || byte != w) fail(1);
        v_initpos++;
        return;
    }
    if (v_initlen && v_initpos == v_initlen) {
        if (kind != E_END || kw != 0 || count != 1) fail(1);
        v_initpos++;
        return;
    }
    if (V.no < Q) { struct ev e = { kind, byte, kw, count }; V.o[V.no++] = e; } else fail(3); }

/* ---- R ---- */
static void r_data(int c) { V.open = 1; if (c == '%') V.kw = 1; push_r(E_DATA, c, 0, 0); }
static void r_end(void) { push_r(E_END, 0, V.kw, V.cnt + 1); V.open = V.kw = 0; V.cnt = 0; }
static void r_flush(void) { int p = V.pend; V.pend = 0; if (p & 1) r_data('@'); if (p & 2) r_data('\r'); }
static void r_byte(int c)
{
    V.open = 1;
    if (c == '\n') {
        if (V.pend & 1) { V.pend = 0; r_data('\n'); V.cnt++; }   /* @\n, @\r\n: the line goes on */
        else { V.pend = 0; r_end(); }                            /* \n, \r\n */
    } else if (c == '\r') {
        if (V.pend != 1) r_flush();
        V.pend |= 2;
    } else {
        r_flush();
        if (c == '@') V.pend = 1; else r_data(c);
    }
}

/* ---- input ---- */
static int v_only_eof;   /* part 3: the loop ends */
static int v_fgetc(FILE *fp)
{
    int c;
    match();
    if (V.back >= 0) { c = V.back; V.back = -1; }
    else if (V.eof || v_only_eof || nd_bool()) { c = EOF; }
    else { c = nd_int(); v_assume(c > 0 && c <= 255); }
    V.last = c;
    V.s_pend = V.pend; V.s_open = V.open; V.s_kw = V.kw; V.s_cnt = V.cnt; V.s_nr = V.nr;
    if (c == EOF) {
        v_assume(V.pend != 1);   /* not considered: a file whose last byte is @ */
        V.eof = 1;
        r_flush();
    } else {
        r_byte(c);
    }
    return c;
}
static int v_ungetc(int c, FILE *fp)
{
    if (c == EOF) return EOF;
    if (V.back >= 0 || c != V.last) { fail(4); return EOF; }
    V.last = -2;
    V.back = c;
    /* R without that byte, but knowing that it comes next */
    V.pend = V.s_pend; V.open = V.s_open; V.kw = V.s_kw; V.cnt = V.s_cnt; V.nr = V.s_nr;
    if (c != '\n' && !(V.pend == 1 && c == '\r')) r_flush();
    match();
    return c;
}

/* ---- O ---- */
static void o_text(int c) { if (v_ntext < 159) v_text[v_ntext++] = (char)c; else fail(5); }
static int is_ws(int c) { return c == ' ' || c == '\n' || c == '\t'; }
static void o_lit(int c)
{
    if (c == '"') V.st = S_AFTER;
    else if (c == '\\') V.st = S_ESC;
    else if (c < ' ' || c > '~') fail(6);
    else push_o(E_DATA, c, 0, 0);
}
static void o_char(int c)
{
    switch (V.st) {
    case S_HEAD: if (c == '{') V.st = S_TOP; else if (!is_ws(c)) o_text(c); break;
    case S_TOP: if (c == '{') V.st = S_ENTRY; else if (c == '}') V.st = S_TAIL; else if (!is_ws(c)) fail(7); break;
    case S_ENTRY: if (c == '"') V.st = S_LIT; else if (c == '{') V.st = S_EMPTY; else if (!is_ws(c)) fail(8); break;
    case S_EMPTY: if (c == '}') V.st = S_AFTER; else if (!is_ws(c)) fail(9); break;
    case S_LIT: o_lit(c); break;
    case S_ESC:
        V.st = S_LIT;
        if (c == 'n') push_o(E_DATA, '\n', 0, 0);
        else if (c == 't') push_o(E_DATA, '\t', 0, 0);
        else if (c == 'r') push_o(E_DATA, '\r', 0, 0);
        else if (c == '"' || c == '\\' || c == '?' || c == '\'') push_o(E_DATA, c, 0, 0);
        else if (c >= '0' && c <= '7') { V.oct = c - '0'; V.noct = 1; V.st = S_OCT; }
        else fail(10);
        break;
    case S_OCT:
        if (V.noct < 3 && c >= '0' && c <= '7') { V.oct = V.oct * 8 + c - '0'; V.noct++; }
        else { push_o(E_DATA, V.oct, 0, 0); V.st = S_LIT; o_lit(c); }
        if (V.st == S_OCT && V.noct == 3) { push_o(E_DATA, V.oct, 0, 0); V.st = S_LIT; }
        break;
    case S_AFTER: if (c == '"') V.st = S_LIT; else if (c == ',') { V.st = S_KW; V.isstr = 0; V.kwlen = 0; V.okw = -1; V.hasnum = 0; V.num = 0; } else if (c == '/') V.st = S_CMT1; else if (!is_ws(c)) fail(11); break;
    case S_CMT1: if (c == '*') V.st = S_CMT; else fail(12); break;
    case S_CMT: if (c == '*') V.st = S_CMT2; break;
    case S_CMT2: if (c == '/') V.st = S_AFTER; else if (c != '*') V.st = S_CMT; break;
    case S_KW:
        if (is_ws(c)) { if (V.kwlen) V.kwlen = 99; }
        else if (c == ',') { if (V.okw < 0) fail(13); V.st = S_NUM; }
        else if (V.kwlen == 0 && (c == '0' || c == '1')) { V.okw = c - '0'; V.kwlen = 98; }
        else if (V.kwlen == 0 && (c == 't' || c == 'f')) { V.isstr = c == 't'; V.kwlen = 1; }
        else if (V.kwlen >= 1 && V.kwlen <= 4 && c == (V.isstr ? "true" : "false")[V.kwlen]) { V.kwlen++; if (V.kwlen == (V.isstr ? 4 : 5)) { V.okw = V.isstr; V.kwlen = 98; } }
        else fail(14);
        break;
    case S_NUM:
        if (c == '}') { if (!V.hasnum) fail(15); push_o(E_END, 0, V.okw, V.num); V.st = S_DONE; }
        else if (c >= '0' && c <= '9' && !V.hasnum) { V.num = (size_t)(c - '0'); V.hasnum = 1; }
        else if (!is_ws(c)) fail(16);
        break;
    case S_DONE: if (c == ',') V.st = S_TOP; else if (c == '}') V.st = S_TAIL; else if (!is_ws(c)) fail(17); break;
    case S_TAIL: if (!is_ws(c)) o_text(c); break;
    default: fail(18);
    }
}
static void o_num(size_t n) { if (V.st == S_NUM && !V.hasnum) { V.num = n; V.hasnum = 1; } else fail(19); }
static void o_oct3(unsigned n) { if (n > 0777) fail(20); o_char('0' + (int)(n >> 6 & 7)); o_char('0' + (int)(n >> 3 & 7)); o_char('0' + (int)(n & 7)); }
static void o_str(const char *s) { for (size_t i = 0; s[i] != 0; i++) o_char(s[i]); }

struct v_arg { int isp; const char *s; size_t n; };
static struct v_arg v_as(const char *s) { struct v_arg a = { 1, s, 0 }; return a; }
static struct v_arg v_an(size_t n) { struct v_arg a = { 0, "", n }; return a; }
static int v_format(const char *f, struct v_arg a0, struct v_arg a1, struct v_arg a2)
{
    if (OFF) return 0;
    int k = 0;
    for (size_t i = 0; f[i] != 0; i++) {
        if (f[i] != '%') { o_char(f[i]); continue; }
        struct v_arg a = k == 0 ? a0 : k == 1 ? a1 : a2;
        i++;
        if (f[i] == '%') { o_char('%'); continue; }
        k++;
        if (f[i] == 's') { if (!a.isp) fail(21); o_str(a.s); }
        else if (f[i] == 'c') { if (a.isp) fail(22); o_char((int)(unsigned char)a.n); }
        else if (f[i] == '0' && f[i + 1] == '3' && f[i + 2] == 'o') { i += 2; if (a.isp) fail(23); o_oct3((unsigned)a.n); }
        else if (f[i] == 'z' && (f[i + 1] == 'd' || f[i + 1] == 'u')) { i++; if (a.isp) fail(24); o_num(a.n); }
        else if (f[i] == 'l' && (f[i + 1] == 'd' || f[i + 1] == 'u')) { i++; if (a.isp) fail(24); o_num(a.n); }
        else if (f[i] == 'd' || f[i] == 'u') { if (a.isp) fail(24); o_num(a.n); }
        else fail(25);
    }
    return 0;
}
#define V_A(x) _Generic((x) + 0, char *: v_as, const char *: v_as, default: v_an)(_Generic((x) + 0, char *: (x), const char *: (x), default: (size_t)(x)))
#define V_N(_1, _2, _3, _4, N, ...) N
#define V_F1(f) v_format(f, v_an(0), v_an(0), v_an(0))
#define V_F2(f, a) v_format(f, V_A(a), v_an(0), v_an(0))
#define V_F3(f, a, b) v_format(f, V_A(a), V_A(b), v_an(0))
#define V_F4(f, a, b, c) v_format(f, V_A(a), V_A(b), V_A(c))
#define V_FMT(...) V_N(__VA_ARGS__, V_F4, V_F3, V_F2, V_F1)(__VA_ARGS__)
static int v_fputs(const char *s) { if (OFF) return 0; o_str(s); return 0; }
static int v_fputc(int c) { if (OFF) return c; o_char((int)(unsigned char)c); return c; }

static char v_file, v_path[64];
static FILE *v_fopen(void) { return nd_bool() ? (FILE *)&v_file : NULL; }
static void *v_malloc(size_t n) { return v_path; }

#undef fprintf
#undef fgetc
#undef getc
#undef ungetc
#undef fputc
#undef putc
#undef fputs
#undef snprintf
#define fprintf(fp, ...) V_FMT(__VA_ARGS__)
#define fputs(s, fp) v_fputs(s)
#define fputc(c, fp) v_fputc(c)
#define putc(c, fp) v_fputc(c)
#define fgetc(fp) v_fgetc(fp)
#define getc(fp) v_fgetc(fp)
#define ungetc(c, fp) v_ungetc(c, fp)
#define fopen(p, m) v_fopen()
#define fclose(fp) (v_closed++)
#define malloc(n) v_malloc(n)
#define free(p) ((void)(p))
#define snprintf(...) 0
#define perror(s) v_assume(0)
#define exit(n) v_assume(0)

/* The rule for the loop over the bytes of the file: the invariant holds when the loop is entered; from any state in which it
 * holds (everything the loop may change is arbitrary otherwise) one more iteration re-establishes it; what follows the loop
 * starts from such a state. vlib/genc.py puts V_HEAD in front of the loop condition, V_HAVOC gives the variables of dump()
 * arbitrary values. */
#define V_INV(new_line, count, percent) (V.bad == 0 && V.nr == 0 && V.no == 0 && V.pend == 0 && V.back >= -1 && V.back <= 255 && V.back != 0 && (V.eof == 0 || V.eof == 1 && V.back == -1) \
    && V.st == (V.open ? S_LIT : S_TOP) && (V.open == 0 || V.open == 1) && (V.kw == 0 || V.kw == 1) && (V.open || V.kw == 0 && V.cnt == 0) \
    && (new_line) == !V.open && (count) == V.cnt && (percent) == V.kw)
static void v_any(void)
{
    v_initlen = 0; v_ntext = 0;
    struct v w;
    V.eof = w.eof; V.back = w.back; V.last = w.last; V.pend = w.pend; V.open = w.open; V.kw = w.kw; V.cnt = w.cnt; V.st = w.st;
    V.okw = w.okw; V.kwlen = w.kwlen; V.num = w.num; V.hasnum = w.hasnum; V.isstr = w.isstr; V.oct = w.oct; V.noct = w.noct; V.nr = V.no = 0;
}
static const char *v_var;
static int v_pos, v_ok;
static void want(const char *s) { for (size_t i = 0; s[i] != 0; i++) { if (s[i] == ' ') continue; if (v_pos >= v_ntext || v_text[v_pos] != s[i]) v_ok = 0; else v_pos++; } }
static void skip_comment(void) { if (v_ntext > 1 && v_text[0] == '/') { v_pos = 4; while (v_pos < v_ntext && !(v_text[v_pos - 2] == '*' && v_text[v_pos - 1] == '/')) v_pos++; } }
static int v_head1(_Bool inv)
{
    if (V_PART == 0) {
        v_pos = 0; v_ok = 1;
        skip_comment();
        want("static const template_t "); want(v_var); want("[] =");
        v_assert(v_ok && v_pos == v_ntext, "the list is defined under its name");
    }
    if (v_round == 0) { if (V_PART == 0) { v_assert(inv && (v_initlen == 0 || v_initpos == v_initlen + 1) && v_closed == 0, "loop invariant holds on entry"); v_assert(0, "reachability guard: the loop is reached"); v_assume(0); } }
    else {
#ifdef DBG
    v_assert(V.bad == 0, "d1"); v_assert(V.nr == 0, "d2"); v_assert(V.no == 0, "d3"); v_assert(V.pend == 0, "d4"); v_assert(V.back >= -1 && V.back <= 255 && V.back != 0, "d5"); v_assert(V.st == (V.open ? S_LIT : S_TOP), "d6");
    v_assert((V.open || V.kw == 0 && V.cnt == 0), "d7"); v_assert((V.eof == 0 || V.eof == 1 && V.back == -1) , "d8");
#endif
    v_assert(inv, "loop invariant is kept: the bytes read so far are the entries written so far"); if (V_PART < 3) v_assert(0, "reachability guard: the end of the iteration is reachable"); v_assume(0); }
    v_round = 1;
    return 0;
}
static int v_head2(_Bool inv) { v_assume(inv); if (V_PART >= 3) v_only_eof = 1; return 0; }
#define V_HEAD(n, c, p) (match(), v_head1(V_PART && v_round == 0 || V_INV(n, c, p)), V_HAVOC, v_any(), V_SPLIT(n, p), v_head2(V_INV(n, c, p)))
#if V_PART == 3
#define V_SPLIT(n, p) (V.back = -1, n = 0, V.open = 1, V.st = S_LIT, p = V_PCT, V.kw = V_PCT)
#elif V_PART == 4
#define V_SPLIT(n, p) (V.back = -1, n = 1, V.open = 0, V.st = S_TOP)
#elif V_PART == 1
#define V_SPLIT(n, p) (n = 0, V.open = 1, V.st = S_LIT, p = V_PCT, V.kw = V_PCT)
#elif V_PART == 2
#define V_SPLIT(n, p) (n = 1, V.open = 0, V.st = S_TOP)
#else
#define V_SPLIT(n, p) 0
#endif

/* ---- the source ---- */
#include V_SOURCE

#undef exit
static const char *const v_names[][2] = {
#undef TEMPLATE
#define TEMPLATE(FILE, VAR) { #FILE, #VAR },
#include V_LIST
#undef TEMPLATE
};

void harness(void)
{
    const char *file = v_names[V_NAME][0], *var = v_names[V_NAME][1];
    v_var = var;
    V.back = -1; V.st = S_HEAD;
    if (strcmp(file, "license.h") != 0) {
        v_init = "#line 1 \"<built-in>/"; v_init2 = file; v_initlen1 = strlen(v_init); v_initlen = v_initlen1 + strlen(file) + 1;
    }
    dump((FILE *)&v_file, "", file, var);
    if (V_PART < 3) return;
    v_assert(V.eof, "postcondition: the whole file has been read");
    if (V.open) r_end();
    push_r(E_END, 0, 0, 0);
    match();
    v_assert(V.bad != 1, "postcondition: the entries written are the lines of the file");
    v_assert(V.bad == 0, "postcondition: the text written is a list of entries");
    v_assert(V.nr == 0 && V.no == 0, "postcondition: no entry is missing, none is added");
    v_pos = 0; v_ok = 1;
    want(";"); want("const template_t *ptr_"); want(var); want(" = "); want(var); want(";");
    v_assert(V.st == S_TAIL && v_ok && v_pos == v_ntext, "postcondition: the list is the one its pointer refers to");
    v_assert(v_closed == 1, "postcondition: the file is closed");
    v_assert(0, "reachability guard: the end of the harness is reachable");
}
