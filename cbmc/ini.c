/* C21: contracts of the configuration file parser (vendor/inih/src/ini.c, included unchanged).
   VC_PART selects the function whose contract is enforced; inside ini_parse_stream the string helpers are replaced by
   their contracts (vc_lskip, ...), which the other parts enforce on the real bodies. */
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
/* contract of fgets: as vc_reader; never called directly in these parts */
char* fgets(char* s, int n, FILE* f) { __CPROVER_assert(0, "fgets is called through the reader only"); return 0; }
#include <ini.c>
#define N INI_MAX_LINE
int nondet_int(void);
size_t nondet_size(void);
long nondet_long(void);
#define SP(c) ((c) == ' ' || ((c) >= 9 && (c) <= 13))
#define REQUIRES(c) __CPROVER_assume(c)
#define ENSURES(c, what) __CPROVER_assert(c, what)

/* ---------------------------------------------------------------- contracts as used by a caller */
char* vc_line;      /* the line buffer */
size_t vc_z;        /* a terminator of the line: every write of the parser is a terminator, so it stays one */
int vc_bad;         /* the current line is in error */
static size_t vc_off(const char* s)
{
    __CPROVER_assert(__CPROVER_same_object(s, vc_line), "the argument points into the line buffer");
    size_t o = s - vc_line;
    __CPROVER_assert(o <= vc_z && vc_line[vc_z] == 0, "the argument is a terminated string of the line buffer");
    return o;
}
char* vc_lskip(const char* s)
{
    size_t o = vc_off(s), r = nondet_size();
    __CPROVER_assume(o <= r && r <= vc_z && !SP(vc_line[r]));
    return vc_line + r;
}
char* vc_rstrip(char* s)
{
    vc_off(s);
    __CPROVER_havoc_object(vc_line);
    vc_line[vc_z] = 0;
    return s;
}
char* vc_find_chars_or_comment(const char* s, const char* chars)
{
    size_t o = vc_off(s), r = nondet_size();
    __CPROVER_assume(o <= r && r <= vc_z);
    char c = vc_line[r];
    if (chars) {
        __CPROVER_assert(chars[0] != 0 && (chars[1] == 0 || chars[2] == 0), "the contract covers one or two stop characters");
        vc_bad = c != chars[0] && (chars[1] == 0 || c != chars[1]);
    }
    return vc_line + r;
}
char* vc_strncpy0(char* dest, const char* src, size_t size)
{
    __CPROVER_assert(size >= 1 && __CPROVER_w_ok(dest, size), "the copy fits into its destination");
    vc_off(src);
    __CPROVER_havoc_slice(dest, size);
    dest[size - 1] = 0;
    return dest;
}

/* ---------------------------------------------------------------- contracts of the C library as used by the helpers */
int vc_isspace(int c)
{
    __CPROVER_assert(c >= -1 && c <= 255, "isspace: the argument is a character");
    int yes = nondet_int();
    __CPROVER_assume(yes != 0);
    return SP(c) ? yes : 0;
}

/* ---------------------------------------------------------------- the helpers meet their contracts */
#if defined(VC_LSKIP) || defined(VC_RSTRIP) || defined(VC_FIND) || defined(VC_STRNCPY0)
char L[N];
size_t g_z, g_off, g_k, g_len; /* a terminator, the start of the string, any index, the length of the string */
char g_before;
char g_c1, g_c2;
#define STOP(q) (L[q] == 0 || (g_c1 && (L[q] == g_c1 || (g_c2 && L[q] == g_c2))) || ((q) > g_off && SP(L[(q) - 1]) && L[q] == ';'))
size_t vc_strlen(const char* s)
{
    __CPROVER_assert(__CPROVER_same_object(s, L), "strlen: the argument points into the line");
    size_t o = s - L, n = nondet_size();
    __CPROVER_assert(o <= g_z && L[g_z] == 0, "strlen: the argument is terminated");
    __CPROVER_assume(n <= g_z - o && L[o + n] == 0 && !(g_k >= o && g_k < o + n && L[g_k] == 0));
    return n;
}
char* vc_strchr(const char* s, int c)
{
    __CPROVER_assert(s[0] == 0 || s[1] == 0 || s[2] == 0, "strchr: the contract covers strings of at most two characters");
    if (s[0] == (char)c) return (char*)s;
    if (s[0] == 0) return 0;
    if (s[1] == (char)c) return (char*)s + 1;
    if (s[1] == 0) return 0;
    return (char)c == 0 ? (char*)s + 2 : 0;
}
char* vc_strncpy(char* d, const char* s, size_t n)
{
    __CPROVER_assert(__CPROVER_same_object(s, L) && s - L <= g_z && L[g_z] == 0, "strncpy: the source is a terminated string");
    __CPROVER_assert(__CPROVER_w_ok(d, n), "strncpy: the destination has room");
    __CPROVER_havoc_slice(d, n);
    return d;
}
int main(void)
{
    size_t z = nondet_size(), off = nondet_size(), k = nondet_size();
    REQUIRES(z < N && off <= z && k < N);
    __CPROVER_havoc_object(L);
    L[z] = 0;
    g_z = z; g_off = off; g_k = k; g_before = L[k];
#if defined(VC_LSKIP)
    char* r = lskip(L + off);
    ENSURES(__CPROVER_same_object(r, L), "lskip: the result points into the string");
    size_t o = r - L;
    ENSURES(o >= off && o <= z, "lskip: the result is inside the string");
    ENSURES(!SP(L[o]), "lskip: the result is not at white space");
    ENSURES(!(k >= off && k < o) || SP(L[k]), "lskip: only white space is skipped");
    ENSURES(L[k] == g_before, "lskip: nothing is written");
#elif defined(VC_RSTRIP)
    char* r = rstrip(L + off);
    ENSURES(r == L + off, "rstrip: the string is returned");
    ENSURES(L[z] == 0, "rstrip: the string stays terminated");
    ENSURES(L[k] == g_before || L[k] == 0, "rstrip: only terminators are written");
    ENSURES(L[k] == g_before || (k >= off && k < z && SP(g_before)), "rstrip: only white space of the string is removed");
#elif defined(VC_FIND)
    int which = nondet_int();
    const char* chars = which == 0 ? "]" : which == 1 ? "=:" : 0;
    g_c1 = chars ? chars[0] : 0;
    g_c2 = chars ? chars[1] : 0;
    char* r = find_chars_or_comment(L + off, chars);
    ENSURES(__CPROVER_same_object(r, L), "find_chars_or_comment: the result points into the string");
    size_t o = r - L;
    ENSURES(o >= off && o <= z, "find_chars_or_comment: the result is inside the string");
    ENSURES(STOP(o), "find_chars_or_comment: stops at a character, a comment or the end");
    ENSURES(!(k >= off && k < o) || !STOP(k), "find_chars_or_comment: stops at the first one");
    ENSURES(L[k] == g_before, "find_chars_or_comment: nothing is written");
#else
    size_t size = nondet_size();
    REQUIRES(size >= 1 && size <= 50);
    char* d = malloc(size);
    REQUIRES(d != 0);
    char* r = strncpy0(d, L + off, size);
    ENSURES(r == d, "strncpy0: the destination is returned");
    ENSURES(d[size - 1] == 0, "strncpy0: the copy is terminated within its limit");
    ENSURES(L[k] == g_before, "strncpy0: the source is not written");
#endif
    return 0;
}
#endif

/* ---------------------------------------------------------------- ini_parse_stream */
#ifdef VC_STREAM
int vc_lines, vc_first, vc_left;
/* the stream: any number of lines, each any terminated string that fits (contract of fgets and of ini_reader_string) */
char* vc_reader(char* s, int num, void* stream)
{
    __CPROVER_assert(num >= 1 && __CPROVER_w_ok(s, num), "the reader may write the bytes it is offered");
    if (!vc_first && vc_bad) vc_first = vc_lines;
    vc_bad = 0;
    if (vc_left <= 0) return 0;
    vc_left--;
    vc_lines++;
    __CPROVER_havoc_slice(s, num);
    vc_line = s;
    vc_z = nondet_size();
    __CPROVER_assume(vc_z < (size_t)num);
    s[vc_z] = 0;
    return s;
}
static void vc_terminated(const char* s)
{
    if (__CPROVER_same_object(s, vc_line)) vc_off(s);
    else __CPROVER_assert(s[__CPROVER_OBJECT_SIZE(s) - __CPROVER_POINTER_OFFSET(s) - 1] == 0, "a string passed on is terminated within its array");
}
int vc_handler(void* user, const char* section, const char* name, const char* value)
{
    vc_terminated(section);
    vc_terminated(name);
    vc_terminated(value);
    int r = nondet_int();
    vc_bad = !r;
    return r;
}
int main(void)
{
    vc_lines = 0; vc_bad = 0; vc_first = 0; vc_line = 0; vc_z = 0;
    vc_left = nondet_int();
    REQUIRES(vc_left >= 0 && vc_left < 2147483647);
    int r = ini_parse_stream(vc_reader, 0, vc_handler, 0);
    ENSURES(r == vc_first, "the result is the first line in error, 0 without one");
    return 0;
}
#endif

/* ---------------------------------------------------------------- reading from a string */
#ifdef VC_READER
char OUT[N];
size_t g_left, g_k;
char* g_in; /* an object of exactly the bytes that may be read */
int main(void)
{
    size_t left = nondet_size(), k = nondet_size();
    /* text of any length, of which an object holds the part that can be read */
    REQUIRES(k < N);
    __CPROVER_havoc_object(OUT);
    int num = N; /* the size ini_parse_stream passes */
    g_left = left; g_k = k;
    g_in = malloc(left < N ? left : N);
    REQUIRES(g_in != 0);
    ini_parse_string_ctx ctx;
    ctx.ptr = g_in;
    ctx.num_left = left;
    char* r = ini_reader_string(OUT, num, &ctx);
    if (left == 0) {
        ENSURES(r == 0, "ini_reader_string: reports the end");
        ENSURES(ctx.ptr == g_in && ctx.num_left == left, "ini_reader_string: consumes nothing at the end");
    } else {
        ENSURES(r == OUT, "ini_reader_string: returns the buffer");
        size_t c = left - ctx.num_left;
        ENSURES(ctx.num_left < left && c < N && ctx.ptr == g_in + c, "ini_reader_string: consumes at least one byte and what fits");
        ENSURES(OUT[c] == 0, "ini_reader_string: terminates the line");
        ENSURES(!(k < c) || OUT[k] == g_in[k], "ini_reader_string: delivers the bytes in order");
        ENSURES(!(k + 1 < c) || g_in[k] != '\n', "ini_reader_string: does not read past the end of a line");
        ENSURES(c == left || c == N - 1 || OUT[c - 1] == '\n', "ini_reader_string: stops at the end of a line, of the buffer or of the text only");
    }
    return 0;
}
#endif

/* ---------------------------------------------------------------- entry points */
#ifdef VC_ENTRY
static int vc_called, vc_result, vc_opened, vc_closed, vc_mode;
static const char* vc_text;
static size_t vc_len;
static int vc_user;
static FILE* vc_file;
static int vc_h(void* u, const char* s, const char* n, const char* v) { return 1; }
int vc_ini_parse_stream(ini_reader reader, void* stream, ini_handler handler, void* user)
{
    vc_called++;
    __CPROVER_assert(handler == vc_h && user == &vc_user, "the handler and its argument are passed on");
    if (vc_mode == 0) {
        ini_parse_string_ctx* ctx = stream;
        __CPROVER_assert(reader == (ini_reader)ini_reader_string, "a string is read with its reader");
        __CPROVER_assert(ctx->ptr == vc_text && ctx->num_left == vc_len, "the whole string is parsed");
    } else {
        __CPROVER_assert(reader == (ini_reader)fgets && stream == (void*)vc_file, "the file is read line by line");
        __CPROVER_assert(vc_mode == 2 || (vc_opened == 1 && vc_closed == 0), "the file is open while it is parsed");
    }
    vc_result = nondet_int();
    return vc_result;
}
size_t vc_strlen(const char* s) { __CPROVER_assert(s == vc_text, "length of the text"); return vc_len; }
FILE* vc_fopen(const char* name, const char* mode)
{
    __CPROVER_assert(name == vc_text, "the named file is opened");
    if (nondet_int()) return 0;
    vc_opened++;
    return vc_file;
}
int vc_fclose(FILE* f) { __CPROVER_assert(f == vc_file && vc_opened == 1 && vc_closed == 0, "an open file is closed once"); vc_closed++; return 0; }
int main(void)
{
    vc_called = 0; vc_opened = 0; vc_closed = 0;
    vc_len = nondet_size();
    REQUIRES(vc_len < ((size_t)1 << 40));
    char* t = malloc(vc_len + 1);
    vc_file = malloc(sizeof(FILE));
    REQUIRES(t != 0 && vc_file != 0);
    t[vc_len] = 0;
    vc_text = t;
    vc_mode = nondet_int();
    REQUIRES(vc_mode >= 0 && vc_mode <= 2);
    int r = vc_mode == 0 ? ini_parse_string(vc_text, vc_h, &vc_user) : vc_mode == 1 ? ini_parse(vc_text, vc_h, &vc_user) : ini_parse_file(vc_file, vc_h, &vc_user);
    if (vc_mode == 1 && !vc_opened) {
        ENSURES(r == -1 && !vc_called && !vc_closed, "a file that cannot be opened is reported");
    } else {
        ENSURES(vc_called == 1 && r == vc_result, "the result of the parser is reported");
        ENSURES(vc_mode != 1 || vc_closed == 1, "the file is closed");
        ENSURES(vc_mode != 2 || vc_closed == 0, "a stream of the caller stays open");
    }
    return 0;
}
#endif
