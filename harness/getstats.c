/* A library client that does what getnodes does, and computes quality figures
 * more than once on the way (option -s with a sum of
 *   1 before the conversion, 2 before the mask, 4 with all coordinates doubled
 *   for the time being, 8 on a copy); only the last figures are reported. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "gridnodes.h"
#include "gucommon.h"

static NODETYPE type(const char* s)
{
    return strcasecmp(s, "co") == 0 ? NT_COR : strcasecmp(s, "ce") == 0 ? NT_CEN : NT_DD;
}

static void stretch(gridnodes* gn, double f)
{
    int i, j;

    for (j = 0; j < gridnodes_getny(gn); ++j)
        for (i = 0; i < gridnodes_getnx(gn); ++i) {
            gridnodes_getx(gn)[j][i] *= f;
            if (f > 1 || f == 0.5)
                gridnodes_gety(gn)[j][i] *= f * f;
        }
}

int main(int argc, char* argv[])
{
    char* g = NULL, *m = NULL;
    NODETYPE in = NT_DD, out = NT_DD;
    int s = 0, i;
    gridnodes* gn;

    for (i = 1; i < argc; ++i) {
        if (strcmp(argv[i], "-i") == 0)
            in = type(argv[++i]);
        else if (strcmp(argv[i], "-o") == 0)
            out = type(argv[++i]);
        else if (strcmp(argv[i], "-m") == 0)
            m = argv[++i];
        else if (strcmp(argv[i], "-s") == 0)
            s = atoi(argv[++i]);
        else
            g = argv[i];
    }
    gn = gridnodes_read(g, in);
    gridnodes_validate(gn);
    if (s & 1)
        gridnodes_calcstats(gn);
    if (in != out) {
        gridnodes* new = gridnodes_transform(gn, out);

        gridnodes_destroy(gn);
        gn = new;
    }
    if (s & 2)
        gridnodes_calcstats(gn);
    if (m != NULL) {
        int** mask = gu_readmask(m, gridnodes_getnce1(gn), gridnodes_getnce2(gn));

        gridnodes_applymask(gn, mask);
        gu_free2d(mask);
    }
    if (s & 4) {
        stretch(gn, 2.0);
        gridnodes_calcstats(gn);
        stretch(gn, 0.5);
    }
    if (s & 8) {
        gridnodes* new = gridnodes_copy(gn);

        gridnodes_destroy(gn);
        gn = new;
        gridnodes_validate(gn);
    }
    gu_verbose = 1;
    gridnodes_calcstats(gn);
    gu_verbose = 0;
    gridnodes_write(gn, "stdout", CT_XY);
    gridnodes_destroy(gn);
    return 0;
}
