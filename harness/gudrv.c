/*
 * Driver: executes a script of calls to the public (header-declared) gridutils
 * API and records one JSON event per call, written after the call returned.
 *
 * The script comes on standard input, one command per line.  Numbers are read
 * with strtod (so hexadecimal floats are exact) and written with %a.  Every
 * event carries the complete observable state of all live objects of the kind
 * the call works on, so that an unexpected effect on another object shows.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <math.h>
#include <setjmp.h>
#include <unistd.h>
#include <fcntl.h>
#include "gucommon.h"
#include "gridnodes.h"
#include "gridmap.h"
#include "gridaverager.h"
#include "kdtree.h"
#include "poly.h"

#define NREG 64

static gridnodes* G[NREG];
static gridmap* M[NREG];
static gridaverager* A[NREG];
static poly* P[NREG];
static kdtree* K[NREG];
static int Kdim[NREG];
static FILE* F[NREG];
static int scale = 0;           /* all coordinates are multiplied by 2^scale */
static int Gscale[NREG];        /* the scale a grid was created with */

/* ---- what is allocated and open: the linker sends the calls here ---- */
void* __real_malloc(size_t n);
void* __real_calloc(size_t n, size_t m);
void* __real_realloc(void* p, size_t n);
void __real_free(void* p);
char* __real_strdup(const char* s);
FILE* __real_fopen(const char* name, const char* mode);
int __real_fclose(FILE* f);

static void** blocks = NULL;    /* open addressing; 1: deleted */
static size_t nslots = 0, nused = 0;
static int nblocks = 0, nfiles = 0;
static int blocks0 = 0, files0 = 0;     /* at the start of the trace */

static size_t slot(void* p)
{
    size_t h = (((size_t) p) >> 4) * 0x9E3779B97F4A7C15ull >> 20;

    for (h &= nslots - 1; blocks[h] != NULL && blocks[h] != p; h = (h + 1) & (nslots - 1));
    return h;
}

static void blockadd(void* p)
{
    if (p == NULL)
        return;
    if (2 * (nused + 1) > nslots) {
        void** old = blocks;
        size_t n = nslots, i;

        nslots = 1 << 12;
        while (nslots < 8 * (size_t) (nblocks + 1))
            nslots *= 2;
        blocks = __real_calloc(nslots, sizeof(void*));
        nused = 0;
        for (i = 0; i < n; ++i)
            if (old[i] != NULL && old[i] != (void*) 1) {
                blocks[slot(old[i])] = old[i];
                nused++;
            }
        __real_free(old);
    }
    blocks[slot(p)] = p;
    nused++;
    nblocks++;
}

static void blockdel(void* p)
{
    size_t h;

    if (p == NULL || nslots == 0)
        return;
    h = slot(p);
    if (blocks[h] != p)
        return;
    blocks[h] = (void*) 1;
    nblocks--;
}

void* __wrap_malloc(size_t n)
{
    void* p = __real_malloc(n);

    blockadd(p);
    return p;
}

void* __wrap_calloc(size_t n, size_t m)
{
    void* p = __real_calloc(n, m);

    blockadd(p);
    return p;
}

void* __wrap_realloc(void* p, size_t n)
{
    void* q;

    blockdel(p);
    q = __real_realloc(p, n);
    blockadd(q != NULL || n == 0 ? q : p);
    return q;
}

void __wrap_free(void* p)
{
    blockdel(p);
    __real_free(p);
}

char* __wrap_strdup(const char* s)
{
    char* p = __real_strdup(s);

    blockadd(p);
    return p;
}

FILE* __wrap_fopen(const char* name, const char* mode)
{
    FILE* f = __real_fopen(name, mode);

    nfiles += f != NULL;
    return f;
}

int __wrap_fclose(FILE* f)
{
    nfiles--;
    return __real_fclose(f);
}

static jmp_buf jb;
static int injb = 0;
static char quitmsg[4096];
static int nquits = 0;          /* in the trace so far */

static void myquit(char* format, ...)
{
    va_list args;

    va_start(args, format);
    vsnprintf(quitmsg, sizeof(quitmsg), format, args);
    va_end(args);
    nquits++;
    if (injb)
        longjmp(jb, 1);
    fprintf(stderr, "driver: quit outside call: %s\n", quitmsg);
    exit(3);
}

/* ---- input ---- */
static char* tok;
static char* save;
static char* word(void)
{
    char* s = strtok_r(tok, " \n", &save);

    tok = NULL;
    return s;
}

static int geti(void)
{
    char* s = word();

    if (s == NULL) {
        fprintf(stderr, "driver: missing integer\n");
        exit(3);
    }
    return (int) strtol(s, NULL, 10);
}

static double getraw(void)
{
    char* s = word();

    if (s == NULL) {
        fprintf(stderr, "driver: missing number\n");
        exit(3);
    }
    return strtod(s, NULL);
}

static double getd(void)
{
    return ldexp(getraw(), scale);
}

/* ---- output ---- */
static void outraw(double v)
{
    if (isnan(v))
        printf("\"nan\"");
    else if (isinf(v))
        printf(v > 0 ? "\"inf\"" : "\"-inf\"");
    else
        printf("\"%a\"", v);
}

static void outd(double v)
{
    if (isfinite(v) && scale != 0) {
        double w = ldexp(v, -scale);

        if (ldexp(w, scale) != v)
            w = v;
        outraw(w);
    } else
        outraw(v);
}

static void outs(const char* s)
{
    putchar('"');
    for (; *s; ++s) {
        unsigned char c = (unsigned char) *s;

        if (c == '"' || c == '\\')
            printf("\\%c", c);
        else if (c < 32 || c > 126)
            printf("\\u%04x", c);
        else
            putchar(c);
    }
    putchar('"');
}

static void outgrid(gridnodes* g)
{
    int nx = gridnodes_getnx(g);
    int ny = gridnodes_getny(g);
    double** x = gridnodes_getx(g);
    double** y = gridnodes_gety(g);
    volatile int c1 = -1, c2 = -1;
    int i, j;

    injb = 1;
    if (setjmp(jb) == 0)
        c1 = gridnodes_getnce1(g);
    if (setjmp(jb) == 0)
        c2 = gridnodes_getnce2(g);
    injb = 0;
    printf("{\"nx\":%d,\"ny\":%d,\"c1\":%d,\"c2\":%d,\"m\":%d,\"n\":[", nx, ny, c1, c2, gridnodes_getmaptype(g));
    for (j = 0; j < ny; ++j)
        for (i = 0; i < nx; ++i) {
            printf("%s[", (i || j) ? "," : "");
            outd(x[j][i]);
            printf(",");
            outd(y[j][i]);
            printf("]");
        }
    printf("]}");
}

static void outgrids(void)
{
    int k, first = 1;
    int oldscale = scale;

    printf(",\"st\":[");
    for (k = 0; k < NREG; ++k)
        if (G[k] != NULL) {
            printf("%s[%d,", first ? "" : ",", k);
            scale = Gscale[k];
            outgrid(G[k]);
            scale = oldscale;
            printf("]");
            first = 0;
        }
    printf("]");
}

static void outpoly(poly* p)
{
    int i;

    printf("{\"n\":%d,\"e\":[", p->n);
    outd(p->e.xmin);
    printf(",");
    outd(p->e.xmax);
    printf(",");
    outd(p->e.ymin);
    printf(",");
    outd(p->e.ymax);
    printf("],\"p\":[");
    for (i = 0; i < p->n; ++i) {
        printf("%s[", i ? "," : "");
        outd(p->x[i]);
        printf(",");
        outd(p->y[i]);
        printf("]");
    }
    printf("]}");
}

static void outpolys(void)
{
    int k, first = 1;

    printf(",\"st\":[");
    for (k = 0; k < NREG; ++k)
        if (P[k] != NULL) {
            printf("%s[%d,", first ? "" : ",", k);
            outpoly(P[k]);
            printf("]");
            first = 0;
        }
    printf("]");
}

static void outtree(kdtree* t, int ndim)
{
    size_t n = kd_getsize(t), i;
    double* mm = kd_getminmax(t);
    int d;

    printf(",\"size\":%zu,\"mm\":[", n);
    for (d = 0; d < 2 * ndim; ++d) {
        printf("%s", d ? "," : "");
        outd(mm[d]);
    }
    printf("],\"nodes\":[");
    for (i = 0; i < n; ++i) {
        double* c = kd_getnodecoords(t, i);

        printf("%s[%zu", i ? "," : "", kd_getnodeorigid(t, i));
        for (d = 0; d < ndim; ++d) {
            printf(",");
            outd(c[d]);
        }
        printf("]");
    }
    printf("]");
}

/* ---- capture of standard error ---- */
static int errfd = -1, oldfd = -1;
static void errbegin(void)
{
    char name[] = "/tmp/gudrvXXXXXX";

    fflush(stderr);
    errfd = mkstemp(name);
    unlink(name);
    oldfd = dup(2);
    dup2(errfd, 2);
}

static void errend(void)
{
    static char buf[65536];
    ssize_t n;

    fflush(stderr);
    dup2(oldfd, 2);
    close(oldfd);
    lseek(errfd, 0, SEEK_SET);
    n = read(errfd, buf, sizeof(buf) - 1);
    close(errfd);
    buf[n > 0 ? n : 0] = 0;
    printf(",\"err\":");
    outs(buf);
}

static NODETYPE ntype(const char* s)
{
    if (strcmp(s, "DD") == 0)
        return NT_DD;
    if (strcmp(s, "CE") == 0)
        return NT_CEN;
    if (strcmp(s, "CO") == 0)
        return NT_COR;
    return NT_NONE;
}

static void clearall(void)
{
    int k;

    for (k = 0; k < NREG; ++k) {
        if (A[k])
            ga_destroy(A[k]);
        if (M[k])
            gridmap_destroy(M[k]);
        if (G[k])
            gridnodes_destroy(G[k]);
        if (P[k])
            poly_destroy(P[k]);
        if (K[k])
            kd_destroy(K[k]);
        if (F[k])
            fclose(F[k]);
        A[k] = NULL;
        M[k] = NULL;
        G[k] = NULL;
        P[k] = NULL;
        K[k] = NULL;
        F[k] = NULL;
    }
}

/*
 * Executes the call between BEGIN and END; if the library calls the error
 * handler the event gets "q":1 and the message.
 */
#define BEGIN quitmsg[0] = 0; injb = 1; if (setjmp(jb) == 0) {
#define END ok = 1; } injb = 0; printf("{\"op\":\"%s\",\"q\":%d", op, !ok); if (!ok) { printf(",\"msg\":"); outs(quitmsg); }
#define FIN printf(",\"lm\":%d,\"lf\":%d}\n", nblocks - blocks0, nfiles - files0); fflush(stdout)

int main(int argc, char* argv[])
{
    static char* line = NULL;
    size_t cap = 0;

    gu_setquitfn(myquit);

    while (getline(&line, &cap, stdin) > 0) {
        char* op;
        volatile int ok = 0;

        tok = line;
        op = word();
        if (op == NULL || op[0] == '#')
            continue;
        if (op[0] == '?') {
            /* only if there was no error in the trace so far */
            if (nquits > 0) {
                printf("{\"op\":\"none\",\"q\":1}\n");
                continue;
            }
            op++;
        }

        if (strcmp(op, "trace") == 0) {
            char* id = word();

            clearall();
            scale = 0;
            memset(Gscale, 0, sizeof(Gscale));
            nquits = 0;
            blocks0 = nblocks;
            files0 = nfiles;
            alarm(20);
            printf("{\"trace\":\"%s\"}\n", id);
            fflush(stdout);
        } else if (strcmp(op, "scale") == 0) {
            scale = geti();
        }
        /* ---- grids ---- */
        else if (strcmp(op, "gnew") == 0 || strcmp(op, "gnew2") == 0) {
            int r = geti();
            NODETYPE t = ntype(word());
            int nx = geti(), ny = geti(), i, j;

            BEGIN;
            if (strcmp(op, "gnew") == 0) {
                G[r] = gridnodes_create(nx, ny, t);
                for (i = 0; i < nx * ny; ++i) {
                    double x = getd(), y = getd();

                    gridnodes_readnextpoint(G[r], x, y);
                }
            } else {
                double** x = gu_alloc2d(ny, nx, sizeof(double));
                double** y = gu_alloc2d(ny, nx, sizeof(double));

                for (j = 0; j < ny; ++j)
                    for (i = 0; i < nx; ++i) {
                        x[j][i] = getd();
                        y[j][i] = getd();
                    }
                G[r] = gridnodes_create2(nx, ny, t, x, y);
            }
            END;
            Gscale[r] = scale;
            outgrids();
            FIN;
        } else if (strcmp(op, "gempty") == 0) {
            int r = geti();
            NODETYPE t = ntype(word());
            int nx = geti(), ny = geti();

            BEGIN;
            G[r] = gridnodes_create(nx, ny, t);
            END;
            outgrids();
            FIN;
        } else if (strcmp(op, "gpoint") == 0) {
            int r = geti();
            double x = getd(), y = getd();

            BEGIN;
            gridnodes_readnextpoint(G[r], x, y);
            END;
            outgrids();
            FIN;
        } else if (strcmp(op, "gread") == 0) {
            int r = geti();
            NODETYPE t = ntype(word());
            char* fname = word();

            BEGIN;
            G[r] = gridnodes_read(fname, t);
            END;
            outgrids();
            FIN;
        } else if (strcmp(op, "gwrite") == 0) {
            int r = geti();
            char* fname = word();
            char* c = word();

            BEGIN;
            if (G[r] != NULL)
                gridnodes_write(G[r], fname, strcmp(c, "x") == 0 ? CT_X : strcmp(c, "y") == 0 ? CT_Y : CT_XY);
            END;
            outgrids();
            FIN;
        } else if (strcmp(op, "gvalid") == 0) {
            int r = geti();

            errbegin();
            gu_verbose = 1;
            BEGIN;
            gridnodes_validate(G[r]);
            END;
            gu_verbose = 0;
            errend();
            outgrids();
            FIN;
        } else if (strcmp(op, "gstats") == 0) {
            int r = geti();

            errbegin();
            gu_verbose = 1;
            BEGIN;
            gridnodes_calcstats(G[r]);
            END;
            gu_verbose = 0;
            errend();
            outgrids();
            FIN;
        } else if (strcmp(op, "gcopy") == 0) {
            int r2 = geti(), r = geti();

            BEGIN;
            G[r2] = gridnodes_copy(G[r]);
            END;
            outgrids();
            FIN;
        } else if (strcmp(op, "gtrans") == 0) {
            int r2 = geti(), r = geti();
            NODETYPE t = ntype(word());

            BEGIN;
            G[r2] = gridnodes_transform(G[r], t);
            END;
            outgrids();
            FIN;
        } else if (strcmp(op, "gsub") == 0) {
            int r2 = geti(), r = geti();
            int i1 = geti(), i2 = geti(), j1 = geti(), j2 = geti();

            BEGIN;
            G[r2] = gridnodes_subgrid(G[r], i1, i2, j1, j2);
            END;
            outgrids();
            FIN;
        } else if (strcmp(op, "gmask") == 0) {
            int r = geti(), nx = geti(), ny = geti(), i, j;
            int** m = gu_alloc2d(ny, nx, sizeof(int));

            for (j = 0; j < ny; ++j)
                for (i = 0; i < nx; ++i)
                    m[j][i] = geti();
            BEGIN;
            gridnodes_applymask(G[r], m);
            END;
            printf(",\"mask\":[");
            for (j = 0; j < ny; ++j)
                for (i = 0; i < nx; ++i)
                    printf("%s%d", (i || j) ? "," : "", m[j][i]);
            printf("]");
            gu_free2d(m);
            outgrids();
            FIN;
        } else if (strcmp(op, "maskfile") == 0) {
            char* fname = word();
            int nx = geti(), ny = geti(), i, j;
            int** volatile m = NULL;

            BEGIN;
            m = gu_readmask(fname, nx, ny);
            END;
            printf(",\"mask\":[");
            if (m != NULL) {
                for (j = 0; j < ny; ++j)
                    for (i = 0; i < nx; ++i)
                        printf("%s%d", (i || j) ? "," : "", m[j][i]);
                gu_free2d(m);
            }
            printf("]");
            FIN;
        } else if (strcmp(op, "gsetmap") == 0) {
            int r = geti(), t = geti();

            BEGIN;
            gridnodes_setmaptype(G[r], t);
            END;
            outgrids();
            FIN;
        } else if (strcmp(op, "gfree") == 0) {
            int r = geti();

            BEGIN;
            gridnodes_destroy(G[r]);
            G[r] = NULL;
            END;
            outgrids();
            FIN;
        }
        /* ---- maps ---- */
        else if (strcmp(op, "mbuild") == 0) {
            int m = geti(), r = geti(), t = geti();

            /* t < 0: by the map type of the grid */
            BEGIN;
            if (t < 0)
                M[m] = gridmap_build2(G[r]);
            else
                M[m] = gridmap_build(gridnodes_getnce1(G[r]), gridnodes_getnce2(G[r]), gridnodes_getx(G[r]), gridnodes_gety(G[r]), t);
            END;
            printf(",\"c1\":%d,\"c2\":%d", ok ? gridmap_getnce1(M[m]) : -1, ok ? gridmap_getnce2(M[m]) : -1);
            outgrids();
            FIN;
        } else if (strcmp(op, "mfree") == 0) {
            int m = geti();

            BEGIN;
            gridmap_destroy(M[m]);
            M[m] = NULL;
            END;
            outgrids();
            FIN;
        } else if (strcmp(op, "xy2ij") == 0) {
            int m = geti();
            double x = getd(), y = getd();
            int i = -7, j = -7;
            volatile int ret = -1;

            BEGIN;
            ret = gridmap_xy2ij(M[m], x, y, &i, &j);
            END;
            printf(",\"ret\":%d,\"i\":%d,\"j\":%d", ret != 0, i, j);
            FIN;
        } else if (strcmp(op, "xy2fij") == 0) {
            int m = geti();
            double x = getd(), y = getd();
            double fi = -7.0, fj = -7.0, x1 = NAN, y1 = NAN;
            volatile int ret = -1, ret1 = -1;

            BEGIN;
            ret = gridmap_xy2fij(M[m], x, y, &fi, &fj);
            if (ret)
                ret1 = gridmap_fij2xy(M[m], fi, fj, &x1, &y1);
            END;
            printf(",\"ret\":%d,\"fi\":", ret != 0);
            outraw(fi);
            printf(",\"fj\":");
            outraw(fj);
            printf(",\"ret1\":%d,\"dx\":", ret1 != 0);
            outd(x1 - x);
            printf(",\"dy\":");
            outd(y1 - y);
            FIN;
        } else if (strcmp(op, "fij2xy") == 0) {
            int m = geti();
            double fi = getraw(), fj = getraw();
            double x = -7.0, y = -7.0;
            volatile int ret = -1;

            BEGIN;
            ret = gridmap_fij2xy(M[m], fi, fj, &x, &y);
            END;
            printf(",\"ret\":%d,\"x\":", ret != 0);
            outd(x);
            printf(",\"y\":");
            outd(y);
            FIN;
        } else if (strcmp(op, "gcheck") == 0) {
            BEGIN;
            END;
            outgrids();
            FIN;
        }
        /* ---- averagers ---- */
        else if (strcmp(op, "anew") == 0) {
            int a = geti(), m = geti();

            BEGIN;
            A[a] = ga_create(M[m]);
            END;
            FIN;
        } else if (strcmp(op, "aadd") == 0) {
            int a = geti(), n = geti(), i;
            point* p = malloc((n > 0 ? n : 1) * sizeof(point));
            point* p0 = malloc((n > 0 ? n : 1) * sizeof(point));

            for (i = 0; i < n; ++i) {
                p[i].x = getd();
                p[i].y = getd();
                p[i].z = getraw();
            }
            memcpy(p0, p, n * sizeof(point));
            BEGIN;
            ga_addpoints(A[a], n, p);
            END;
            printf(",\"same\":%d", memcmp(p, p0, n * sizeof(point)) == 0);
            free(p);
            free(p0);
            FIN;
        } else if (strcmp(op, "aaddn") == 0) {
            /* the same point n times in one batch */
            int a = geti(), n = geti(), i;
            point* p = malloc((n > 0 ? n : 1) * sizeof(point));

            p[0].x = getd();
            p[0].y = getd();
            p[0].z = getraw();
            for (i = 1; i < n; ++i)
                p[i] = p[0];
            BEGIN;
            ga_addpoints(A[a], n, p);
            END;
            printf(",\"same\":1");
            free(p);
            FIN;
        } else if (strcmp(op, "aget") == 0) {
            int a = geti();
            point p;

            p.x = getd();
            p.y = getd();
            p.z = -777.0;
            BEGIN;
            ga_getvalue(A[a], &p);
            END;
            printf(",\"z\":");
            outraw(p.z);
            printf(",\"x\":");
            outd(p.x);
            printf(",\"y\":");
            outd(p.y);
            FIN;
        } else if (strcmp(op, "afree") == 0) {
            int a = geti();

            BEGIN;
            ga_destroy(A[a]);
            A[a] = NULL;
            END;
            FIN;
        }
        /* ---- polylines ---- */
        else if (strcmp(op, "pnew") == 0) {
            int r = geti(), n = geti(), i;

            BEGIN;
            P[r] = poly_create();
            for (i = 0; i < n; ++i) {
                double x = getd(), y = getd();

                poly_addpoint(P[r], x, y);
            }
            END;
            outpolys();
            FIN;
        } else if (strcmp(op, "padd") == 0) {
            int r = geti();
            double x = getd(), y = getd();

            BEGIN;
            poly_addpoint(P[r], x, y);
            END;
            outpolys();
            FIN;
        } else if (strcmp(op, "paddat") == 0) {
            int r = geti(), k = geti();
            double x = getd(), y = getd();

            BEGIN;
            poly_addpointat(P[r], k, x, y);
            END;
            outpolys();
            FIN;
        } else if (strcmp(op, "pappend") == 0) {
            int r = geti(), r2 = geti();

            BEGIN;
            poly_append(P[r], P[r2]);
            END;
            outpolys();
            FIN;
        } else if (strcmp(op, "pdel") == 0) {
            int r = geti(), k = geti();

            BEGIN;
            poly_deletepoint(P[r], k);
            END;
            outpolys();
            FIN;
        } else if (strcmp(op, "prev") == 0) {
            int r = geti();

            BEGIN;
            poly_reverse(P[r]);
            END;
            outpolys();
            FIN;
        } else if (strcmp(op, "pclose") == 0) {
            int r = geti();

            BEGIN;
            poly_close(P[r]);
            END;
            outpolys();
            FIN;
        } else if (strcmp(op, "pclear") == 0) {
            int r = geti();

            BEGIN;
            poly_clear(P[r]);
            END;
            outpolys();
            FIN;
        } else if (strcmp(op, "pcopy") == 0) {
            int r2 = geti(), r = geti();

            BEGIN;
            P[r2] = poly_copy(P[r]);
            END;
            outpolys();
            FIN;
        } else if (strcmp(op, "pfree") == 0) {
            int r = geti();

            BEGIN;
            poly_destroy(P[r]);
            P[r] = NULL;
            END;
            outpolys();
            FIN;
        } else if (strcmp(op, "pthin") == 0) {
            int r = geti();
            double eps = getd();

            BEGIN;
            poly_resample(P[r], eps);
            END;
            outpolys();
            FIN;
        } else if (strcmp(op, "pdespike") == 0) {
            int r = geti();
            double eps = getd();

            BEGIN;
            poly_despike(P[r], eps);
            END;
            outpolys();
            FIN;
        } else if (strcmp(op, "pcompact") == 0) {
            int r = geti();
            double eps = getraw();

            BEGIN;
            poly_compact(P[r], eps);
            END;
            outpolys();
            FIN;
        } else if (strcmp(op, "pbound") == 0) {
            int r = geti(), g = geti();

            BEGIN;
            P[r] = poly_formbound(gridnodes_getnce1(G[g]), gridnodes_getnce2(G[g]), gridnodes_getx(G[g]), gridnodes_gety(G[g]));
            END;
            outpolys();
            FIN;
        } else if (strcmp(op, "pboundij") == 0) {
            int r = geti(), g = geti();
            int oldscale = scale;

            BEGIN;
            P[r] = poly_formboundij(gridnodes_getnce1(G[g]), gridnodes_getnce2(G[g]), gridnodes_getx(G[g]));
            END;
            scale = 0;
            printf(",\"st\":[[%d,", r);
            if (P[r] != NULL)
                outpoly(P[r]);
            else
                printf("0");
            printf("]]");
            scale = oldscale;
            FIN;
        } else if (strcmp(op, "pin") == 0) {
            int r = geti();
            double x = getd(), y = getd();
            volatile int ret = -1;

            BEGIN;
            ret = poly_containspoint(P[r], x, y);
            END;
            printf(",\"ret\":%d", ret != 0);
            outpolys();
            FIN;
        } else if (strcmp(op, "pinmany") == 0) {
            /* pinmany r x0 y0 dx dy nx ny: a lattice of points */
            int r = geti();
            double x0 = getd(), y0 = getd(), dx = getd(), dy = getd();
            int nx = geti(), ny = geti(), i, j;
            static int res[100000];

            BEGIN;
            for (j = 0; j < ny; ++j)
                for (i = 0; i < nx; ++i)
                    res[j * nx + i] = poly_containspoint(P[r], x0 + dx * i, y0 + dy * j) != 0;
            END;
            printf(",\"res\":[");
            for (i = 0; i < nx * ny; ++i)
                printf("%s%d", i ? "," : "", res[i]);
            printf("]");
            outpolys();
            FIN;
        } else if (strcmp(op, "pfind") == 0) {
            int r = geti();
            double x = getd(), y = getd();
            volatile int ret = -9;

            BEGIN;
            ret = poly_findindex(P[r], x, y);
            END;
            printf(",\"ret\":%d", ret);
            outpolys();
            FIN;
        } else if (strcmp(op, "pisclosed") == 0) {
            int r = geti();
            double eps = getd();
            volatile int ret = -9;

            BEGIN;
            ret = poly_isclosed(P[r], eps);
            END;
            printf(",\"ret\":%d", ret != 0);
            outpolys();
            FIN;
        } else if (strcmp(op, "parea") == 0) {
            int r = geti();
            volatile double a = NAN;

            BEGIN;
            a = poly_area(P[r]);
            END;
            printf(",\"area\":");
            outraw(ldexp(a, -2 * scale));
            outpolys();
            FIN;
        } else if (strcmp(op, "fopen") == 0) {
            int f = geti();
            char* fname = word();
            char* mode = word();

            BEGIN;
            F[f] = gu_fopen(fname, mode);
            END;
            FIN;
        } else if (strcmp(op, "fput") == 0) {
            /* fput fname hex: creates a file */
            char* fname = word();
            char* hex = word();
            FILE* f = fopen(fname, "w");
            unsigned int c;

            BEGIN;
            for (; hex != NULL && sscanf(hex, "%2x", &c) == 1; hex += 2)
                fputc((int) c, f);
            fclose(f);
            END;
            FIN;
        } else if (strcmp(op, "fcat") == 0) {
            /* contents of a file, line by line (a last line without newline
             * is marked) */
            char* fname = word();
            FILE* f = fopen(fname, "r");
            static char* fl = NULL;
            static size_t fcap = 0;
            ssize_t len;
            int first = 1;

            BEGIN;
            END;
            printf(",\"lines\":[");
            while (f != NULL && (len = getline(&fl, &fcap, f)) > 0) {
                printf("%s", first ? "" : ",");
                if (fl[len - 1] == '\n')
                    fl[len - 1] = 0;
                outs(fl);
                first = 0;
            }
            printf("]");
            if (f != NULL)
                fclose(f);
            FIN;
        } else if (strcmp(op, "frm") == 0) {
            char* fname = word();

            BEGIN;
            unlink(fname);
            END;
            FIN;
        } else if (strcmp(op, "fclose") == 0) {
            int f = geti();

            BEGIN;
            fclose(F[f]);
            F[f] = NULL;
            END;
            FIN;
        } else if (strcmp(op, "pread") == 0) {
            int r = geti(), f = geti();
            volatile int ret = -9;

            BEGIN;
            ret = poly_read(P[r], F[f]);
            END;
            printf(",\"ret\":%d", ret);
            outpolys();
            FIN;
        } else if (strcmp(op, "pwrite") == 0) {
            int r = geti(), f = geti();

            BEGIN;
            poly_write(P[r], F[f]);
            END;
            outpolys();
            FIN;
        }
        /* ---- kd-trees ---- */
        else if (strcmp(op, "knew") == 0) {
            int k = geti(), nd = geti();

            BEGIN;
            K[k] = kd_create(nd);
            Kdim[k] = nd;
            END;
            FIN;
        } else if (strcmp(op, "kins") == 0) {
            /* kins k n (id coords)*: n single insertions */
            int k = geti(), n = geti(), i, d;
            double c[256];

            BEGIN;
            for (i = 0; i < n; ++i) {
                size_t id = (size_t) strtoull(word(), NULL, 10);

                for (d = 0; d < Kdim[k]; ++d)
                    c[d] = getd();
                kd_insertnode(K[k], c, id);
            }
            END;
            printf(",\"size\":%zu", kd_getsize(K[k]));
            FIN;
        } else if (strcmp(op, "kbatch") == 0) {
            int k = geti(), n = geti(), rnd = geti(), i, d;
            double* c[256];
            volatile int same = 1;

            for (d = 0; d < Kdim[k]; ++d)
                c[d] = malloc((n > 0 ? n : 1) * sizeof(double));
            for (i = 0; i < n; ++i)
                for (d = 0; d < Kdim[k]; ++d)
                    c[d][i] = getd();
            BEGIN;
            kd_insertnodes(K[k], n, c, rnd);
            END;
            for (d = 0; d < Kdim[k]; ++d)
                free(c[d]);
            printf(",\"size\":%zu", kd_getsize(K[k]));
            FIN;
        } else if (strcmp(op, "kdump") == 0) {
            int k = geti();

            BEGIN;
            END;
            outtree(K[k], Kdim[k]);
            FIN;
        } else if (strcmp(op, "knear") == 0) {
            int k = geti(), d;
            double c[256];
            volatile size_t id = 0;

            for (d = 0; d < Kdim[k]; ++d)
                c[d] = getd();
            BEGIN;
            id = kd_findnearestnode(K[k], c);
            END;
            if (id == SIZE_MAX)
                printf(",\"none\":1,\"oid\":0,\"c\":[]");
            else if (id >= kd_getsize(K[k]))
                printf(",\"none\":2,\"oid\":0,\"c\":[]");
            else {
                printf(",\"none\":0,\"oid\":%zu,\"c\":[", kd_getnodeorigid(K[k], id));
                for (d = 0; d < Kdim[k]; ++d) {
                    printf("%s", d ? "," : "");
                    outd(kd_getnodecoords(K[k], id)[d]);
                }
                printf("]");
            }
            FIN;
        } else if (strcmp(op, "krange") == 0) {
            int k = geti(), ordered = geti(), d;
            double range = getd();
            double c[256];
            kdset* volatile s = NULL;

            for (d = 0; d < Kdim[k]; ++d)
                c[d] = getd();
            BEGIN;
            s = kd_findnodeswithinrange(K[k], c, range, ordered);
            END;
            if (s != NULL) {
                size_t n = kdset_getsize(s), id, cnt = 0;
                double dist = -1.0;
                int extra = 0, t;

                printf(",\"size\":%zu,\"res\":[", n);
                while ((id = kdset_read(s, &dist)) != SIZE_MAX && cnt < 1000000) {
                    printf("%s[%zu,%zu,", cnt ? "," : "", id, id < kd_getsize(K[k]) ? kd_getnodeorigid(K[k], id) : (size_t) 999999999);
                    outd(dist);
                    if (id < kd_getsize(K[k]))
                        for (d = 0; d < Kdim[k]; ++d) {
                            printf(",");
                            outd(kd_getnodecoords(K[k], id)[d]);
                        }
                    printf("]");
                    cnt++;
                }
                for (t = 0; t < 3; ++t) {
                    dist = 5.0;
                    if (kdset_read(s, &dist) != SIZE_MAX || !isnan(dist))
                        extra++;
                }
                printf("],\"extra\":%d,\"size2\":%zu", extra, kdset_getsize(s));
                kdset_free(s);
            }
            FIN;
        } else if (strcmp(op, "kpart") == 0) {
            /* kpart k ordered n range coords: reads only n results */
            int k = geti(), ordered = geti(), n = geti(), d;
            double range = getd();
            double c[256], dist;
            kdset* volatile s = NULL;

            for (d = 0; d < Kdim[k]; ++d)
                c[d] = getd();
            BEGIN;
            s = kd_findnodeswithinrange(K[k], c, range, ordered);
            for (; n > 0; --n)
                kdset_read(s, &dist);
            kdset_free(s);
            END;
            FIN;
        } else if (strcmp(op, "kfree") == 0) {
            int k = geti();

            BEGIN;
            kd_destroy(K[k]);
            K[k] = NULL;
            END;
            FIN;
        } else {
            fprintf(stderr, "driver: unknown command \"%s\"\n", op);
            exit(3);
        }
    }
    clearall();
    printf("{\"end\":1}\n");
    return 0;
}
