/*
 * Stand-in for libnn and libcsa, which are not available here.  The value an
 * interpolation method m gives at a point p for data (x_k, y_k, z_k) is
 *
 *   V_m(p) = S + 100 m + a_m p.x + b_m p.y,  S = sum over k of (z_k + x_k + 2 y_k)
 *
 * with m = 0 cubic spline, 1 non-Sibsonian, 2 Sibson, 3 linear and different
 * slopes for each, and NaN where p.x + 3 p.y > T, if the environment has
 * GU_STUB_NAN=T.  The specification (Bathy.tla) has the same definition.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "nn.h"
#include "csa.h"

NN_RULE nn_rule = SIBSON;
char* nn_version = "stub";
int nn_verbose = 0;
char* csa_version = "stub";
int csa_verbose = 0;

struct delaunay {
    int n;
    point* p;
};
struct nnpi {
    delaunay* d;
};
struct lpi {
    delaunay* d;
};
struct csa {
    int n;
    point** p;
    int ready;
};

static double value(int m, double s, point* p)
{
    static double a[] = { 1.0, 2.0, -1.0, 3.0 };
    static double b[] = { 1.0, -1.0, 2.0, 1.0 };
    char* t = getenv("GU_STUB_NAN");

    if (t != NULL && p->x + 3.0 * p->y > atof(t))
        return NAN;
    return s + 100.0 * m + a[m] * p->x + b[m] * p->y;
}

static double term(point* p)
{
    return p->z + p->x + 2.0 * p->y;
}

void points_read(char* fname, int dim, int* n, point** points)
{
    FILE* f = (strcmp(fname, "-") == 0 || strcmp(fname, "stdin") == 0) ? stdin : fopen(fname, "r");
    char buf[1024];
    int cap = 4;

    *n = 0;
    *points = NULL;
    if (f == NULL) {
        fprintf(stderr, "error: %s: cannot open\n", fname);
        exit(1);
    }
    *points = malloc(cap * sizeof(point));
    while (fgets(buf, sizeof(buf), f) != NULL) {
        point p;

        if (buf[0] == '#' || sscanf(buf, "%lf %lf %lf", &p.x, &p.y, &p.z) != 3)
            continue;
        if (*n == cap) {
            cap *= 2;
            *points = realloc(*points, cap * sizeof(point));
        }
        (*points)[(*n)++] = p;
    }
    if (f != stdin)
        fclose(f);
}

delaunay* delaunay_build(int np, point points[], int ns, int segments[], int nh, double holes[])
{
    delaunay* d = malloc(sizeof(delaunay));

    d->n = np;
    d->p = points;
    return d;
}

void delaunay_destroy(delaunay* d)
{
    free(d);
}

static double dsum(delaunay* d)
{
    double s = 0.0;
    int k;

    for (k = 0; k < d->n; ++k)
        s += term(&d->p[k]);
    return s;
}

nnpi* nnpi_create(delaunay* d)
{
    nnpi* nn = malloc(sizeof(nnpi));

    nn->d = d;
    return nn;
}

void nnpi_destroy(nnpi* nn)
{
    free(nn);
}

void nnpi_interpolate_point(nnpi* nn, point* p)
{
    p->z = value(nn_rule == SIBSON ? 2 : 1, dsum(nn->d), p);
}

lpi* lpi_build(delaunay* d)
{
    lpi* l = malloc(sizeof(lpi));

    l->d = d;
    return l;
}

void lpi_destroy(lpi* l)
{
    free(l);
}

void lpi_interpolate_point(lpi* l, point* p)
{
    p->z = value(3, dsum(l->d), p);
}

csa* csa_create()
{
    return calloc(1, sizeof(csa));
}

void csa_destroy(csa* a)
{
    free(a->p);
    free(a);
}

void csa_addpoints(csa* a, int n, point points[])
{
    int k;

    a->p = realloc(a->p, (a->n + n) * sizeof(point*));
    for (k = 0; k < n; ++k)
        a->p[a->n + k] = &points[k];
    a->n += n;
    a->ready = 0;
}

void csa_calculatespline(csa* a)
{
    a->ready = 1;
}

void csa_approximatepoint(csa* a, point* p)
{
    double s = 0.0;
    int k;

    if (!a->ready) {
        p->z = NAN;
        return;
    }
    for (k = 0; k < a->n; ++k)
        s += term(a->p[k]);
    p->z = value(0, s, p);
}
