/* executes the real parser on random texts and compares with a direct reading of its rules; exit 3: failing input printed */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <ctype.h>
#include <unistd.h>
#include <inih/ini.h>
static unsigned long long st;
static unsigned rnd(unsigned n) { st = st * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(st >> 33) % n; }
typedef struct { char sec[64], name[512], value[512]; int ok; } ev;
#define MAXE 400
static ev got[MAXE], want[MAXE];
static int ngot, nwant, wanterr;
static unsigned okseed;
static int verdict(int k) { return ((okseed >> (k % 13)) & 1) || (okseed & 0x4000); }
static int handler(void* u, const char* s, const char* n, const char* v)
{
    if (ngot < MAXE) {
        ev* e = &got[ngot];
        memset(e, 0, sizeof *e);
        strncpy(e->sec, s, 63); strncpy(e->name, n, 511); strncpy(e->value, v, 511);
        e->ok = verdict(ngot);
    }
    return verdict(ngot++);
}
static int sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int stop(const char* a, int q, int from, const char* cs) { return a[q] == 0 || (cs && strchr(cs, a[q])) || (q > from && sp((unsigned char)a[q - 1]) && a[q] == ';'); }
static void meaning(const char* t, size_t n)
{
    char sec[50] = "", prev[50] = "";
    int lineno = 0;
    size_t pos = 0;
    nwant = 0; wanterr = 0;
    while (pos < n) {
        char l[INI_MAX_LINE];
        int c = 0;
        while (c < INI_MAX_LINE - 1 && pos < n) { char x = t[pos++]; l[c++] = x; if (x == '\n') break; }
        l[c] = 0;
        lineno++;
        int b = lineno == 1 && (unsigned char)l[0] == 0xEF && (unsigned char)l[1] == 0xBB && (unsigned char)l[2] == 0xBF ? 3 : 0;
        int e = b + (int)strlen(l + b);
        while (e > b && sp((unsigned char)l[e - 1])) l[--e] = 0;
        int s = b;
        while (sp((unsigned char)l[s])) s++;
        int bad = 0;
        if (l[s] == 0 || l[s] == ';' || l[s] == '#') continue;
        if (prev[0] && s > 0) {
            ev* w = &want[nwant]; memset(w, 0, sizeof *w);
            strcpy(w->sec, sec); strcpy(w->name, prev); strcpy(w->value, l + s);
            bad = !verdict(nwant++);
        } else if (l[s] == '[') {
            int k = s + 1;
            while (!stop(l, k, s + 1, "]")) k++;
            if (l[k] == ']') { l[k] = 0; memset(sec, 0, 50); strncpy(sec, l + s + 1, 49); prev[0] = 0; } else bad = 1;
        } else {
            int k = s;
            while (!stop(l, k, s, "=:")) k++;
            if (l[k] == '=' || l[k] == ':') {
                l[k] = 0;
                int ne = k; while (ne > s && sp((unsigned char)l[ne - 1])) l[--ne] = 0;
                int ce = k + 1; while (!stop(l, ce, k + 1, 0)) ce++;
                l[ce] = 0;
                int vs = k + 1; while (sp((unsigned char)l[vs])) vs++;
                int ve = vs + (int)strlen(l + vs); while (ve > vs && sp((unsigned char)l[ve - 1])) l[--ve] = 0;
                memset(prev, 0, 50); strncpy(prev, l + s, 49);
                ev* w = &want[nwant]; memset(w, 0, sizeof *w);
                strcpy(w->sec, sec); strcpy(w->name, l + s); strcpy(w->value, l + vs);
                bad = !verdict(nwant++);
            } else bad = 1;
        }
        if (bad && !wanterr) wanterr = lineno;
    }
}
static int show(const char* what, const char* t, size_t n)
{
    printf("FAILED %s; text of %zu bytes:", what, n);
    for (size_t i = 0; i < n && i < 2000; ++i) printf(t[i] >= 32 && t[i] < 127 && t[i] != '\\' ? "%c" : "\\x%02x", (unsigned char)t[i]);
    printf("\n");
    return 3;
}
static FILE* tmp;
int main(int argc, char** argv)
{
    unsigned long seed = argc > 1 ? strtoul(argv[1], 0, 10) : 1;
    long trials = argc > 2 ? atol(argv[2]) : 1000;
    double secs = argc > 3 ? atof(argv[3]) : 10;
    time_t t0 = time(0);
    st = seed * 7919 + 1;
    tmp = tmpfile();
    for (long k = 0; k < trials && time(0) - t0 < secs; ++k) {
        static const char al[] = "abcXY =:=]\n\n[]; ;#\t\r\v\n\"x\xEF\xBB\xBF";
        size_t n = rnd(40);
        if (rnd(4) == 0) n = rnd(700);
        char* t = malloc(n + 1); /* exact size: the sanitizer sees every access outside */
        int longrun = rnd(3) == 0;
        for (size_t i = 0; i < n; ++i) {
            t[i] = al[rnd(sizeof al - 1)];
            if (longrun && i && rnd(60)) t[i] = t[i - 1] == '\n' ? 'q' : t[i - 1];
        }
        if (rnd(8) == 0 && n >= 3) memcpy(t, "\xEF\xBB\xBF", 3);
        t[n] = 0;
        okseed = rnd(0x8000);
        fprintf(stderr, "%s", "");
        meaning(t, n);
        for (int how = 0; how < 2; ++how) {
            ngot = 0;
            int r;
            if (how == 0) r = ini_parse_string(t, handler, 0);
            else {
                if (!tmp) break;
                rewind(tmp);
                if (ftruncate(fileno(tmp), 0)) break;
                fwrite(t, 1, n, tmp);
                rewind(tmp);
                r = ini_parse_file(tmp, handler, 0);
            }
            if (r != wanterr) { printf("result %d, expected %d\n", r, wanterr); return show("line of the first error", t, n); }
            if (ngot != nwant) { printf("%d values, expected %d\n", ngot, nwant); return show("number of values", t, n); }
            for (int i = 0; i < ngot && i < MAXE; ++i)
                if (strcmp(got[i].sec, want[i].sec) || strcmp(got[i].name, want[i].name) || strcmp(got[i].value, want[i].value)) {
                    printf("got [%s] %s = %s, expected [%s] %s = %s\n", got[i].sec, got[i].name, got[i].value, want[i].sec, want[i].name, want[i].value);
                    return show("section, name or value", t, n);
                }
        }
        free(t);
    }
    printf("no failing input\n");
    return 0;
}
