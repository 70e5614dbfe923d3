From eb7cf738276976e548eaccc368bc02b75a3aefae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 01/32] fix: insertgrid: do not read or copy one column past
 the end of a grid

---
 gridutils/insertgrid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index ac13a82..585768a 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -209,13 +209,13 @@ int main(int argc, char* argv[])
     if (!merge) {
         for (j3 = 0, j1 = j1start, j2 = j2start; j3 < ny3; ++j3, ++j1, ++j2) {
             for (i3 = 0, i1 = i1start, i2 = i2start; i3 < nx3; ++i3, ++i1, ++i2) {
-                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 <= nx2);
+                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 < nx2);
 
                 if (ok2) {
                     gx3[j3][i3] = gx2[j2][i2];
                     gy3[j3][i3] = gy2[j2][i2];
                 } else {
-                    int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 <= nx1);
+                    int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 < nx1);
 
                     if (ok1) {
                         gx3[j3][i3] = gx1[j1][i1];
@@ -230,8 +230,8 @@ int main(int argc, char* argv[])
     } else {
         for (j3 = 0, j1 = j1start, j2 = j2start; j3 < ny3; ++j3, ++j1, ++j2) {
             for (i3 = 0, i1 = i1start, i2 = i2start; i3 < nx3; ++i3, ++i1, ++i2) {
-                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 <= nx2);
-                int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 <= nx1);
+                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 < nx2);
+                int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 < nx1);
 
                 if (!ok2 && !ok1) {
                     gx3[j3][i3] = NaN;
-- 
2.43.0


From e9ea8b7f7d1f08530b5f928c439f1efb1be86fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 02/32] fix: insertgrid: accept negative offsets and size the
 result for them

---
 gridutils/insertgrid.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index 585768a..f441020 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -23,6 +23,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <ctype.h>
 #include <stdarg.h>
 #include <string.h>
 #include <limits.h>
@@ -85,19 +86,19 @@ static void parse_commandline(int argc, char* argv[], char** fname1, char** fnam
 
     *fname1 = NULL;
     *fname2 = NULL;
-    *i0 = -1;
-    *j0 = -1;
+    *i0 = INT_MAX;
+    *j0 = INT_MAX;
     *type = NT_NONE;
 
     for (i = 1; i < argc; ++i) {
-        if (argv[i][0] != '-') {
+        if (argv[i][0] != '-' || isdigit((unsigned char) argv[i][1])) {
             if (*fname1 == NULL)
                 *fname1 = argv[i];
             else if (*fname2 == NULL)
                 *fname2 = argv[i];
-            else if (*i0 == -1)
+            else if (*i0 == INT_MAX)
                 *i0 = atoi(argv[i]);
-            else if (*j0 == -1)
+            else if (*j0 == INT_MAX)
                 *j0 = atoi(argv[i]);
             else
                 usage();
@@ -143,7 +144,7 @@ static void parse_commandline(int argc, char* argv[], char** fname1, char** fnam
     if (gu_verbose && argc == 2)
         version();
 
-    if (*fname1 == NULL || *fname2 == NULL || *i0 == -1 || *j0 == -1)
+    if (*fname1 == NULL || *fname2 == NULL || *i0 == INT_MAX || *j0 == INT_MAX)
         usage();
 }
 
@@ -188,6 +189,13 @@ int main(int argc, char* argv[])
 
     nx3 = (i0 + nx2 > nx1) ? i0 + nx2 : nx1;
     ny3 = (j0 + ny2 > ny1) ? j0 + ny2 : ny1;
+    /*
+     * with a negative offset the result starts at the inserted grid
+     */
+    if (i0 < 0)
+        nx3 -= i0;
+    if (j0 < 0)
+        ny3 -= j0;
     grid3 = gridnodes_create(nx3, ny3, type);
     gx3 = gridnodes_getx(grid3);
     gy3 = gridnodes_gety(grid3);
-- 
2.43.0


From e6f4ac239a93e5c00c902c96a03ea2345f483aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 03/32] fix: poly_addpointat(): shift Y coordinates, and take
 no action for a negative index

---
 gridutils/poly.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 91cbfc4..d04299a 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -129,6 +129,8 @@ void poly_addpoint(poly* pl, double x, double y)
  */
 void poly_addpointat(poly* pl, int index, double x, double y)
 {
+    if (index < 0)
+        return;
     if (index > pl->n - 1) {
         poly_addpoint(pl, x, y);
         return;
@@ -141,7 +143,7 @@ void poly_addpointat(poly* pl, int index, double x, double y)
     }
 
     memmove(&pl->x[index + 1], &pl->x[index], (pl->n - index) * sizeof(double));
-    memmove(&pl->y[index + 1], &pl->x[index], (pl->n - index) * sizeof(double));
+    memmove(&pl->y[index + 1], &pl->y[index], (pl->n - index) * sizeof(double));
     pl->x[index] = x;
     pl->y[index] = y;
     pl->n++;
-- 
2.43.0


From cbb09a8dfbc19b75ccbbf2e345a2528f2ca66c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 04/32] fix: poly_append(): allocate storage and update size
 and extent of the destination

---
 gridutils/poly.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index d04299a..f640153 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -157,9 +157,11 @@ void poly_addpointat(poly* pl, int index, double x, double y)
 void poly_append(poly* pl1, poly* pl2)
 {
     int n = pl1->n + pl2->n;
+    int n2 = pl2->n;
     int sizechanged = 0;
+    int i;
 
-    while (n < pl1->nallocated) {
+    while (n > pl1->nallocated) {
         pl1->nallocated *= 2;
         sizechanged = 1;
     }
@@ -169,8 +171,11 @@ void poly_append(poly* pl1, poly* pl2)
         pl1->y = realloc(pl1->y, pl1->nallocated * sizeof(double));
     }
 
-    memcpy(&pl1->x[pl1->n], pl2->x, pl2->n * sizeof(double));
-    memcpy(&pl1->y[pl1->n], pl2->y, pl2->n * sizeof(double));
+    memcpy(&pl1->x[pl1->n], pl2->x, n2 * sizeof(double));
+    memcpy(&pl1->y[pl1->n], pl2->y, n2 * sizeof(double));
+    for (i = pl1->n; i < n; ++i)
+        extent_update(&pl1->e, pl1->x[i], pl1->y[i]);
+    pl1->n = n;
 }
 
 /** Computes the area of a polygon. 
-- 
2.43.0


From 69ee00f1292f60e680e16e548eb98c4af65f5d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 05/32] fix: poly_close(): no action for an empty polyline

---
 gridutils/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index f640153..171d616 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -239,7 +239,7 @@ poly* poly_copy(poly* pl)
  */
 void poly_close(poly* pl)
 {
-    if (!poly_isclosed(pl, 0.0))
+    if (pl->n > 0 && !poly_isclosed(pl, 0.0))
         poly_addpoint(pl, pl->x[0], pl->y[0]);
 }
 
-- 
2.43.0


From f66554ad4d60ca1cb0ec29c4f77525fcd6702f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 06/32] fix: poly_area(): positive for counterclockwise
 polygons, as documented

---
 gridutils/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 171d616..e4f0c10 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -194,7 +194,7 @@ double poly_area(poly* pl)
     for (i = 0; i < n; ++i) {
         int i1 = (i + 1) % n;
 
-        area += (x[i1] - x[i]) * (y[i1] + y[i]);
+        area += (x[i] - x[i1]) * (y[i1] + y[i]);
     }
 
     return area / 2.0;
-- 
2.43.0


From 268ae59c8bc92ab61c5710f4f50ed4c5c73f2982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 07/32] fix: kd_findnodeswithinrange(): do not miss nodes at
 exactly the specified distance

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 37c1906..ad06059 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -299,7 +299,7 @@ static int _kd_findnodeswithinrange(const kdtree* tree, int id, const double* co
 
     dx = coords[node->dir] - nodecoords[node->dir];
     ret = _kd_findnodeswithinrange(tree, dx <= 0.0 ? node->left : node->right, coords, range, set, ordered);
-    if (fabs(dx) < range) {
+    if (fabs(dx) <= range) {
         added_res += ret;
         ret = _kd_findnodeswithinrange(tree, dx <= 0.0 ? node->right : node->left, coords, range, set, ordered);
     }
-- 
2.43.0


From 088dbce81857bbb34c4d59697cd361be9e18dc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 08/32] fix: kd_insertnode(): do not reset the root when
 storage of a filled tree grows

---
 gridutils/kdtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index ad06059..e56e4ed 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -135,7 +135,7 @@ void kd_insertnode(kdtree* tree, const double* coords, size_t id_orig)
             tree->nallocated = NALLOCSTART;
         tree->nodes = realloc(tree->nodes, tree->nallocated * sizeof(kdnode));
         tree->coords = realloc(tree->coords, tree->nallocated * tree->ndim * sizeof(double));
-        if (tree->nallocated == NALLOCSTART)
+        if (tree->nnodes == 0)
             tree->nodes[0].id = SIZE_MAX;
     }
 
@@ -182,7 +182,7 @@ void kd_insertnodes(kdtree* tree, size_t n, double** src, int randomise)
         tree->nallocated += n;
         tree->nodes = realloc(tree->nodes, tree->nallocated * sizeof(kdnode));
         tree->coords = realloc(tree->coords, tree->nallocated * tree->ndim * sizeof(double));
-        if (tree->nallocated == n)
+        if (tree->nnodes == 0)
             tree->nodes[0].id = SIZE_MAX;
     }
 
-- 
2.43.0


From 91fbe90073b4036f1163c6778c47c001ff4509b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:51 +0000
Subject: [PATCH 09/32] fix: do not search an empty kd-tree

---
 gridutils/gridkmap.c  | 3 +++
 gridutils/gridnodes.c | 9 +++++----
 gridutils/kdtree.c    | 7 ++++++-
 gridutils/kdtree.h    | 2 +-
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/gridutils/gridkmap.c b/gridutils/gridkmap.c
index 721f4e1..dc31f4a 100644
--- a/gridutils/gridkmap.c
+++ b/gridutils/gridkmap.c
@@ -18,6 +18,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <limits.h>
+#include <stdint.h>
 #include "kdtree.h"
 #include "poly.h"
 #include "gridkmap.h"
@@ -89,6 +90,8 @@ int gridkmap_xy2ij(gridkmap* gm, double x, double y, int* iout, int* jout)
     pos[0] = x;
     pos[1] = y;
     nearest = kd_findnearestnode(gm->tree, pos);
+    if (nearest == SIZE_MAX)
+        return success;
     id = kd_getnodeorigid(gm->tree, nearest);
     p = poly_create();
 
diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index a80c6c5..923255a 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -20,6 +20,7 @@
 #include <string.h>
 #include <stdarg.h>
 #include <limits.h>
+#include <stdint.h>
 #include <math.h>
 #include <assert.h>
 #include "nan.h"
@@ -687,9 +688,9 @@ gridnodes* gridnodes_transform(gridnodes* gn, NODETYPE type)
                     pos[0] = (double) i - 0.5;
                     pos[1] = (double) j - 0.5;
                     nearest = kd_findnearestnode(kt, pos);
-                    pos1 = kd_getnodecoords(kt, nearest);
+                    pos1 = (nearest != SIZE_MAX) ? kd_getnodecoords(kt, nearest) : NULL;
 
-                    if (hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
+                    if (pos1 != NULL && hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
                         fij2xy(gn, pos[0], pos[1], (int) pos1[0], (int) pos1[1], &gn1->gx[j][i], &gn1->gy[j][i]);
                     } else {
                         gn1->gx[j][i] = NaN;
@@ -755,9 +756,9 @@ gridnodes* gridnodes_transform(gridnodes* gn, NODETYPE type)
                     pos[0] = (double) i / 2.0 - 0.5;
                     pos[1] = (double) j / 2.0 - 0.5;
                     nearest = kd_findnearestnode(kt, pos);
-                    pos1 = kd_getnodecoords(kt, nearest);
+                    pos1 = (nearest != SIZE_MAX) ? kd_getnodecoords(kt, nearest) : NULL;
 
-                    if (hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
+                    if (pos1 != NULL && hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
                         fij2xy(gn, pos[0], pos[1], (int) pos1[0], (int) pos1[1], &gn1->gx[j][i], &gn1->gy[j][i]);
                     } else {
                         gn1->gx[j][i] = NaN;
diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index e56e4ed..2bdac2c 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -319,7 +319,7 @@ kdset* kd_findnodeswithinrange(const kdtree* tree, const double* coords, double
     rset->root = NULL;
     rset->size = 0;
 
-    ret = _kd_findnodeswithinrange(tree, 0, coords, range, rset, ordered);
+    ret = _kd_findnodeswithinrange(tree, (tree->nnodes > 0) ? 0 : -1, coords, range, rset, ordered);
     rset->size = ret;
 
     return rset;
@@ -414,6 +414,11 @@ size_t kd_findnearestnode(const kdtree* tree, const double* coords)
     double dist;
     int i;
 
+    if (tree->nnodes == 0) {
+        free(minmax);
+        return SIZE_MAX;
+    }
+
     for (i = 0; i < ndim * 2; ++i)
         minmax[i] = tree->min[i];
 
diff --git a/gridutils/kdtree.h b/gridutils/kdtree.h
index b060b97..933931b 100644
--- a/gridutils/kdtree.h
+++ b/gridutils/kdtree.h
@@ -49,7 +49,7 @@ size_t kd_getsize(kdtree* tree);
  */
 kdset* kd_findnodeswithinrange(const kdtree* tree, const double* coords, double range, int ordered);
 
-/* find the nearest node
+/* find the nearest node (SIZE_MAX if the tree is empty)
  */
 size_t kd_findnearestnode(const kdtree* tree, const double* coords);
 
-- 
2.43.0


From 94c41cb34a753687dec88bcf3ccd39b23835a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:51 +0000
Subject: [PATCH 10/32] fix: gridmap_fij2xy(): fail for indices that are not
 numbers

---
 gridutils/gridmap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index 02796eb..31f85bb 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -146,6 +146,12 @@ int gridmap_fij2xy(gridmap* gm, double fi, double fj, double* x, double* y)
     double u, v;
     double a, b, c, d, e, f, g, h;
 
+    if (isnan(fi) || isnan(fj)) {
+        *x = NaN;
+        *y = NaN;
+        return 0;
+    }
+
     if (gm->type == GRIDMAP_TYPE_BINARY) {
         gx = gridbmap_getxnodes(gm->map);
         gy = gridbmap_getynodes(gm->map);
-- 
2.43.0


From b6f573548a581c5c76505eb2b06530f76b7b68f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:51 +0000
Subject: [PATCH 11/32] fix: gridnodes_subgrid(): refuse a range of indices
 without nodes

---
 gridutils/gridnodes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 923255a..d542986 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -464,6 +464,9 @@ gridnodes* gridnodes_subgrid(gridnodes* gn, int imin, int imax, int jmin, int jm
     if (jmax >= gn->ny)
         jmax = gn->ny - 1;
 
+    if (imin > imax || jmin > jmax)
+        gu_quit("gridnodes_subgrid(): no nodes in the specified range of indices");
+
     if (imin == 0 && imax == gn->nx - 1 && jmin == 0 && jmax == gn->ny - 1)
         return gridnodes_copy(gn);
 
-- 
2.43.0


From 8ed874a92473925b308b884337c294295bf663f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:51 +0000
Subject: [PATCH 12/32] fix: gu_readmask(): accept the last value without a
 newline

---
 gridutils/gucommon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gucommon.c b/gridutils/gucommon.c
index 928675e..8998141 100644
--- a/gridutils/gucommon.c
+++ b/gridutils/gucommon.c
@@ -132,7 +132,7 @@ int** gu_readmask(char* fname, int nx, int ny)
         for (i = 0; i < nx; ++i) {
             if (fgets(buf, BUFSIZE, f) == NULL)
                 gu_quit("%s: could not read %d-th mask value (%d x %d values expected)", fname, j * nx + i + 1, nx, ny);
-            buf[strlen(buf) - 1] = 0;
+            buf[strcspn(buf, "\n")] = 0;
             if (strcmp(buf, "0") == 0)
                 v[j][i] = 0;
             else if (strcmp(buf, "1") == 0) {
-- 
2.43.0


From 76e06ab505beb817a9ae8da63366e992ad834cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:51 +0000
Subject: [PATCH 13/32] fix: gridnodes_read(): a NaN for either coordinate
 marks an empty node

---
 gridutils/gridnodes.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index d542986..30f427e 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -132,13 +132,12 @@ gridnodes* gridnodes_read(char* fname, NODETYPE type)
         for (i = 0; i < gn->nx; ++i, ++xx, ++yy) {
             if (fgets(buf, BUFSIZE, f) == NULL)
                 gu_quit("%s: could not read %d-th point (%d x %d points expected)", fname, j * gn->nx + i + 1, gn->nx, gn->ny);
-            if (sscanf(buf, "%lf %lf", xx, yy) != 2) {
+            if (sscanf(buf, "%lf %lf", xx, yy) != 2 || isnan(*xx) || isnan(*yy)) {
                 *xx = NaN;
                 *yy = NaN;
                 continue;
             }
-            if (!isnan(*xx))
-                count++;
+            count++;
         }
     }
 
-- 
2.43.0


From 14c1dcb4ab3e801f5c980c0e2309dbbca34fe7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 14/32] fix: kd-tree: skip points with any non-finite
 coordinate

---
 gridutils/kdtree.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 2bdac2c..b539866 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -119,13 +119,26 @@ static int _kd_insertnode(kdtree* tree, size_t* id, const double* coords, size_t
     return _kd_insertnode(tree, (coords[node->dir] < tree->coords[node->id * ndim + node->dir]) ? &node->left : &node->right, coords, id_orig, new_dir);
 }
 
+/**
+ */
+static int allfinite(int n, const double* v)
+{
+    int i;
+
+    for (i = 0; i < n; ++i)
+        if (!isfinite(v[i]))
+            return 0;
+
+    return 1;
+}
+
 /**
  */
 void kd_insertnode(kdtree* tree, const double* coords, size_t id_orig)
 {
     int i;
 
-    if (!isfinite(coords[0]))
+    if (!allfinite(tree->ndim, coords))
         return;
 
     if (tree->nallocated == tree->nnodes) {
@@ -200,7 +213,7 @@ void kd_insertnodes(kdtree* tree, size_t n, double** src, int randomise)
 
         for (j = 0; j < tree->ndim; ++j)
             coords[j] = src[j][id];
-        if (!isfinite(coords[0]))
+        if (!allfinite(tree->ndim, coords))
             continue;
         (void) _kd_insertnode(tree, &tree->nodes[0].id, coords, id + nnodes0, 0);
         tree->nnodes++;
-- 
2.43.0


From d5b75d54fd441050a80ff02b10376df2fcde26c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 15/32] fix: grid statistics: correct the angle between cell
 sides

---
 gridutils/gridnodes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 30f427e..a81d388 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -933,8 +933,8 @@ static void gridstats_init(gridstats* gs)
  */
 static double dtheta(double x1, double y1, double x2, double y2)
 {
-    double cos_th = (x1 * x2 + y1 * y2) / hypot(x1, y1) / hypot(x2, y2) / 2.0;
-    double th = acos(cos_th) * 180.0 / M_PI;
+    double cos_th = (x1 * x2 + y1 * y2) / hypot(x1, y1) / hypot(x2, y2);
+    double th = acos(fmax(-1.0, fmin(1.0, cos_th))) * 180.0 / M_PI;
     double dth = fabs(90.0 - th);
 
     return dth;
-- 
2.43.0


From 5bc0b12767df7280d7e71567045c1cd782b8e07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 16/32] fix: setbathy: refuse to run without a value

---
 gridutils/setbathy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/setbathy.c b/gridutils/setbathy.c
index 0a3a6ed..2cf7b19 100644
--- a/gridutils/setbathy.c
+++ b/gridutils/setbathy.c
@@ -117,6 +117,8 @@ static void parse_commandline(int argc, char* argv[], char** fname, int* imin, i
 
     if (*fname == NULL)
         usage();
+    if (*z == NULL)
+        gu_quit("no value specified (use option \"-z\")");
 }
 
 /**
-- 
2.43.0


From 0f2481a2d831c8977780027b7a9c3f5e547dd5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 17/32] fix: insertgrid: refuse an even size of double density
 output

---
 gridutils/insertgrid.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index f441020..2fc2da9 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -196,6 +196,8 @@ int main(int argc, char* argv[])
         nx3 -= i0;
     if (j0 < 0)
         ny3 -= j0;
+    if (type == NT_DD && (nx3 % 2 == 0 || ny3 % 2 == 0))
+        gu_quit("size of the output grid (%d x %d) must be odd for double density grid nodes", nx3, ny3);
     grid3 = gridnodes_create(nx3, ny3, type);
     gx3 = gridnodes_getx(grid3);
     gy3 = gridnodes_gety(grid3);
-- 
2.43.0


From 7df128a7db0695d81c235baaac6a2576fb26ee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 18/32] fix: poly_compact(): keep an emptied polyline usable

---
 gridutils/poly.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index e4f0c10..b32f162 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -706,7 +706,8 @@ void poly_compact(poly* pl, double eps)
     }
 
     free(ids);
-    pl->x = realloc(pl->x, sizeof(double) * pl->n);
-    pl->y = realloc(pl->y, sizeof(double) * pl->n);
-    pl->nallocated = pl->n;
+    pl->nallocated = (pl->n > 0) ? pl->n : 1;
+    pl->x = realloc(pl->x, sizeof(double) * pl->nallocated);
+    pl->y = realloc(pl->y, sizeof(double) * pl->nallocated);
+    poly_recalcextent(pl);
 }
-- 
2.43.0


From e07e236f4b3fce3e2560a0f8fc1ca58b0e290d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:09 +0000
Subject: [PATCH 19/32] fix: gridbathy: options "-a 1" and "-a 2" select the
 documented methods

---
 gridutils/gridbathy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 7a832ba..0351a2f 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -47,7 +47,7 @@
 #define ZMIN_DEF (-DBL_MAX)
 #define ZMAX_DEF DBL_MAX
 
-enum { CSA = 0, NN_SIBSON = 1, NN_NONSIBSONIAN = 2, LINEAR = 3, AVERAGE = 4 } rule = CSA;
+enum { CSA = 0, NN_NONSIBSONIAN = 1, NN_SIBSON = 2, LINEAR = 3, AVERAGE = 4 } rule = CSA;
 
 int linear = 0;
 int indexspace = 0;
-- 
2.43.0


From 684f67a8f97265c918c4c9858ce3e14deef53de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:09 +0000
Subject: [PATCH 20/32] fix: gridbathy: averaging with option "-x"

---
 gridutils/gridbathy.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 0351a2f..86f476a 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -374,8 +374,11 @@ int main(int argc, char* argv[])
     gm = gridmap_build(gridnodes_getnce1(gn), gridnodes_getnce2(gn), gridnodes_getx(gn), gridnodes_gety(gn), gridnodes_getmaptype(gn));
 
     /*
-     * convert bathymetry to index space if necessary 
+     * convert bathymetry to index space if necessary (averaging always
+     * works in physical space)
      */
+    if (rule == AVERAGE)
+        indexspace = 0;
     if (indexspace) {
         point* newpbathy = malloc(nbathy * sizeof(point));
         int newnbathy = 0;
-- 
2.43.0


From f122bb87a3631b25d495a2dcf3de69a8c098f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:09 +0000
Subject: [PATCH 21/32] fix: gridbathy: refuse a requested cell outside the
 grid

---
 gridutils/gridbathy.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 86f476a..68f3b5e 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -317,7 +317,7 @@ int main(int argc, char* argv[])
     void (*interpolate_point) (void*, point *) = NULL;
     void* interpolator = NULL;
 
-    int i = -1, j = -1;
+    int i = INT_MIN, j = INT_MIN;
 
     parse_commandline(argc, argv, &bathyfname, &gridfname, &maskfname, &nt, &ppe, &zmin, &zmax, &i, &j);
 
@@ -449,12 +449,14 @@ int main(int argc, char* argv[])
         double** gx = gridnodes_getx(gn);
         int jmin, jmax, imin, imax;
 
-        if (i < 0) {
+        if (i == INT_MIN) {
             imin = 0;
             imax = gridnodes_getnce1(gn) - 1;
             jmin = 0;
             jmax = gridnodes_getnce2(gn) - 1;
         } else {
+            if (i < 0 || j < 0 || i >= gridnodes_getnce1(gn) || j >= gridnodes_getnce2(gn))
+                gu_quit("cell (%d,%d) is outside the grid", i, j);
             if (gu_verbose)
                 fprintf(stderr, "## calculating depth for cell (%d,%d)\n", i, j);
             imin = i;
-- 
2.43.0


From bb6176aa9e912c184dfb804f28db84c8e2909f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:06 +0000
Subject: [PATCH 22/32] fix: follow sides of valid cells only when walking
 along or cutting a grid boundary

---
 gridutils/gridbmap.c |  7 ++--
 gridutils/poly.c     | 80 ++++++++++++++++++++++++++++----------------
 2 files changed, 56 insertions(+), 31 deletions(-)

diff --git a/gridutils/gridbmap.c b/gridutils/gridbmap.c
index 2ab20ec..d5015c7 100644
--- a/gridutils/gridbmap.c
+++ b/gridutils/gridbmap.c
@@ -201,10 +201,11 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
              * this node belongs to the boundary polygon To accept it as a
              * valid intersection, we must ensure that the very next node is 
              * either inside the polygon or belongs to the boundary but is
-             * not the next boundary node. 
+             * not the next boundary node and the way to it is inside the
+             * polygon.
              */
             tmp = poly_findindex(pl, gx[index][i + 1], gy[index][i + 1]);
-            if ((tmp < 0 && poly_containspoint(pl, gx[index][i + 1], gy[index][i + 1])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1))
+            if ((tmp < 0 && poly_containspoint(pl, gx[index][i + 1], gy[index][i + 1])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1 && poly_containspoint(pl, (gx[index][i] + gx[index][i + 1]) / 2.0, (gy[index][i] + gy[index][i + 1]) / 2.0)))
                 break;
         }
 
@@ -274,7 +275,7 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
             if (ii1 < 0)
                 continue;
             tmp = poly_findindex(pl, gx[i + 1][index], gy[i + 1][index]);
-            if ((tmp < 0 && poly_containspoint(pl, gx[i + 1][index], gy[i + 1][index])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1))
+            if ((tmp < 0 && poly_containspoint(pl, gx[i + 1][index], gy[i + 1][index])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1 && poly_containspoint(pl, (gx[i][index] + gx[i + 1][index]) / 2.0, (gy[i][index] + gy[i + 1][index]) / 2.0)))
                 break;
         }
 
diff --git a/gridutils/poly.c b/gridutils/poly.c
index b32f162..0c0a6b9 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -374,6 +374,44 @@ int poly_findindex(poly* pl, double x, double y)
     return -1;
 }
 
+/** Tests whether a grid cell is valid, that is, has all corner nodes valid.
+ * @param nce1 Number of cells in X direction
+ * @param nce2 Number of cells in Y direction
+ * @param x X coordinates of grid nodes
+ * @param i I index of the cell
+ * @param j J index of the cell
+ * @return 1 for yes, 0 for no
+ */
+static int isvalidcell(int nce1, int nce2, double** x, int i, int j)
+{
+    if (i < 0 || j < 0 || i >= nce1 || j >= nce2)
+        return 0;
+
+    return !isnan(x[j][i]) && !isnan(x[j][i + 1]) && !isnan(x[j + 1][i]) && !isnan(x[j + 1][i + 1]);
+}
+
+/** Tests whether one can go from a grid node to its neighbour along a side of
+ * a valid cell.
+ * @param nce1 Number of cells in X direction
+ * @param nce2 Number of cells in Y direction
+ * @param x X coordinates of grid nodes
+ * @param i I index of the node
+ * @param j J index of the node
+ * @param direction Direction (0 - down, 1 - right, 2 - up, 3 - left)
+ * @return 1 for yes, 0 for no
+ */
+static int iscellside(int nce1, int nce2, double** x, int i, int j, int direction)
+{
+    if (direction == 0)
+        return isvalidcell(nce1, nce2, x, i - 1, j) || isvalidcell(nce1, nce2, x, i, j);
+    else if (direction == 1)
+        return isvalidcell(nce1, nce2, x, i, j - 1) || isvalidcell(nce1, nce2, x, i, j);
+    else if (direction == 2)
+        return isvalidcell(nce1, nce2, x, i - 1, j - 1) || isvalidcell(nce1, nce2, x, i, j - 1);
+    else
+        return isvalidcell(nce1, nce2, x, i - 1, j - 1) || isvalidcell(nce1, nce2, x, i - 1, j);
+}
+
 /** Forms polyline boundary around a grid.
  * Note: supposed to handle a grid of corner nodes only.
  * @param nce1 Number of cells in X direction
@@ -390,13 +428,13 @@ poly* poly_formbound(int nce1, int nce2, double** x, double** y)
     int jinc[] = { 1, 0, -1, 0 };
     int i, j, istart, jstart;
 
-    for (j = 0; j <= nce2; ++j)
-        for (i = 0; i <= nce1; ++i)
-            if (!isnan(x[j][i]))
+    for (j = 0; j < nce2; ++j)
+        for (i = 0; i < nce1; ++i)
+            if (isvalidcell(nce1, nce2, x, i, j))
                 goto ok;
 
   ok:
-    if (j > nce2)
+    if (j >= nce2)
         return pl;
 
     istart = i;
@@ -405,23 +443,16 @@ poly* poly_formbound(int nce1, int nce2, double** x, double** y)
 
     do {
         int direction_stop = (direction + 2) % 4;
-        int inext, jnext;
 
         direction = (direction + 3) % 4;
-        inext = i + iinc[direction];
-        jnext = j + jinc[direction];
-
-        while ((inext < 0 || jnext < 0 || inext > nce1 || jnext > nce2 || isnan(x[jnext][inext])) && direction != direction_stop) {
+        while (!iscellside(nce1, nce2, x, i, j, direction) && direction != direction_stop)
             direction = (direction + 1) % 4;
-            inext = i + iinc[direction];
-            jnext = j + jinc[direction];
-        }
 
         if (direction == direction_stop)
             break;
 
-        i = inext;
-        j = jnext;
+        i += iinc[direction];
+        j += jinc[direction];
 
         poly_addpoint(pl, x[j][i], y[j][i]);
 
@@ -446,13 +477,13 @@ poly* poly_formboundij(int nce1, int nce2, double** x)
     int jinc[] = { 1, 0, -1, 0 };
     int i, j, istart, jstart;
 
-    for (j = 0; j <= nce2; ++j)
-        for (i = 0; i <= nce1; ++i)
-            if (!isnan(x[j][i]))
+    for (j = 0; j < nce2; ++j)
+        for (i = 0; i < nce1; ++i)
+            if (isvalidcell(nce1, nce2, x, i, j))
                 goto ok;
 
   ok:
-    if (j > nce2)
+    if (j >= nce2)
         return pl;
 
     istart = i;
@@ -461,23 +492,16 @@ poly* poly_formboundij(int nce1, int nce2, double** x)
 
     do {
         int direction_stop = (direction + 2) % 4;
-        int inext, jnext;
 
         direction = (direction + 3) % 4;
-        inext = i + iinc[direction];
-        jnext = j + jinc[direction];
-
-        while ((inext < 0 || jnext < 0 || inext > nce1 || jnext > nce2 || isnan(x[jnext][inext])) && direction != direction_stop) {
+        while (!iscellside(nce1, nce2, x, i, j, direction) && direction != direction_stop)
             direction = (direction + 1) % 4;
-            inext = i + iinc[direction];
-            jnext = j + jinc[direction];
-        }
 
         if (direction == direction_stop)
             break;
 
-        i = inext;
-        j = jnext;
+        i += iinc[direction];
+        j += jinc[direction];
 
         poly_addpoint(pl, i, j);
 
-- 
2.43.0


From a6f169bd955ab5107d82c6236bb5653877a2ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:32 +0000
Subject: [PATCH 23/32] fix: gridmap_xy2fij(): make the inverse mapping
 independent of coordinate units

---
 gridutils/gridmap.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index 31f85bb..6e103b0 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -270,7 +270,7 @@ static int calc_branch(gridmap* gm, double x, double y)
         /*
          * normally one checks A before calling calc_branch() 
          */
-        if (fabs(A) < EPS_ZERO)
+        if (A == 0.0)
             return 0;           /* failed */
 
         B = e * x - a * y + a * h - d * e + c * f - b * g;
@@ -278,8 +278,9 @@ static int calc_branch(gridmap* gm, double x, double y)
 
         for (k = 0; k < 2; ++k) {
             double u = (-B + sign * sqrt(B * B - 4.0 * A * C)) / (2.0 * A);
-            double v_denom = a * u + c;
-            double v = (fabs(v_denom) < EPS_ZERO) ? (y - f * u - h) / (e * u + g) : (x - b * u - d) / v_denom;
+            double d1 = a * u + c;
+            double d2 = e * u + g;
+            double v = (fabs(d2) > fabs(d1)) ? (y - f * u - h) / d2 : (x - b * u - d) / d1;
 
             error[k] = 0.0;
 
@@ -353,7 +354,7 @@ int gridmap_xy2fij(gridmap* gm, double x, double y, double* fi, double* fj)
 
         double u, v, d1, d2;
 
-        if (fabs(A) < EPS_ZERO)
+        if (fabs(A) < EPS_ZERO * fabs(B))
             u = -C / B * (1.0 + A * C / B / B);
         else {
             if (gm->sign == 0) {
-- 
2.43.0


From d891ce2e2e51d37b54728632f8bf93a3300a9f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:32 +0000
Subject: [PATCH 24/32] fix: poly_compact(): use tolerance relative to the size
 of the polyline

---
 gridutils/poly.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 0c0a6b9..3b072a5 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -676,17 +676,24 @@ void poly_write(poly* pl, FILE* fp)
         fprintf(fp, "%.15g %.15g\n", pl->x[i], pl->y[i]);
 }
 
-/**
+/** Tests whether three points belong to one line.
+ * @param eps maximal sine of the angle at the middle point
  */
 static int ononeline(double* x, double* y, int i1, int i2, int i3, double eps)
 {
-    return fabs((x[i1] - x[i2]) * (y[i3] - y[i2]) - (x[i3] - x[i2]) * (y[i1] - y[i2])) <= eps;
+    double dx1 = x[i1] - x[i2];
+    double dy1 = y[i1] - y[i2];
+    double dx3 = x[i3] - x[i2];
+    double dy3 = y[i3] - y[i2];
+
+    return fabs(dx1 * dy3 - dx3 * dy1) <= eps * hypot(dx1, dy1) * hypot(dx3, dy3);
 }
 
 /** Deletes redundant nodes.
  * @param pl Polyline
  * @param eps A small number used in tests on two points being the same or
- *            three points belonging to one line.
+ *            three points belonging to one line (relative to the size of the
+ *            polyline)
  */
 void poly_compact(poly* pl, double eps)
 {
@@ -696,22 +703,25 @@ void poly_compact(poly* pl, double eps)
     int* ids = NULL;
     int nnew;
     int ileft, imiddle, iright;
+    double epsdist;
     int i;
 
     if (n <= 4)
         return;                 /* do not bother */
 
+    epsdist = eps * fmax(pl->e.xmax - pl->e.xmin, pl->e.ymax - pl->e.ymin);
+
     ids = malloc(pl->n * sizeof(int));
     nnew = 0;
 
     for (i = 0, imiddle = 0, ileft = n - 1; i < n - 1; ++i)
-        if (!point_equal(x[ileft], y[ileft], x[imiddle], y[imiddle], eps))
+        if (!point_equal(x[ileft], y[ileft], x[imiddle], y[imiddle], epsdist))
             break;
         else
             ileft--;
 
     for (i = 0, iright = 1; i < n; ++i) {
-        if (!point_equal(x[iright], y[iright], x[imiddle], y[imiddle], eps)) {
+        if (!point_equal(x[iright], y[iright], x[imiddle], y[imiddle], epsdist)) {
             if (!ononeline(x, y, ileft, imiddle, iright, eps)) {
                 ids[nnew++] = imiddle;
                 ileft = imiddle;
-- 
2.43.0


From d32bd89ff8db10efd88ca0e2413def2dd26c4539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:40 +0000
Subject: [PATCH 25/32] fix: cut_boundary(): recognise a closed boundary in any
 units

The first and last points of a boundary are equal, not close to each other
up to an absolute distance.
---
 gridutils/gridbmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gridbmap.c b/gridutils/gridbmap.c
index d5015c7..d39d691 100644
--- a/gridutils/gridbmap.c
+++ b/gridutils/gridbmap.c
@@ -183,7 +183,7 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
     /*
      * if the polygon has been explicitely closed, ignore the last point 
      */
-    if (poly_isclosed(pl, 1.0e-15))
+    if (poly_isclosed(pl, 0.0))
         n--;
 
     if (horiz) {                /* horizontal cut */
-- 
2.43.0


From 67590ba06ff99de5548c55601ee4092a3c9eb1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:49 +0000
Subject: [PATCH 26/32] fix: kd_getnodeorigid(): return ids above INT_MAX
 unchanged

---
 gridutils/kdtree.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index b539866..2a456e3 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -520,8 +520,7 @@ double* kd_getnodecoords(const kdtree* tree, size_t id)
  */
 size_t kd_getnodeorigid(const kdtree* tree, size_t id)
 {
-
-    return (int) tree->nodes[id].id_orig;
+    return tree->nodes[id].id_orig;
 }
 
 /* get boundary rectangle
-- 
2.43.0


From b64e1a2876ae23b8d8c2d49da1e7b269cd7fb4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 27/32] fix: kd: use the specified number of dimensions

The number of dimensions was initialised with itself.
---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 2a456e3..48e5ffd 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -586,7 +586,7 @@ static int str2double(char* token, double* value)
  */
 static kdtree* kd_readfile(char* fname, int ndimin, int dorandomise)
 {
-    int ndim = (isll) ? 3 : ndim;
+    int ndim = (isll) ? 3 : ndimin;
     FILE* f = NULL;
     kdtree* tree = NULL;
     char buf[BUFSIZE];
-- 
2.43.0


From 29c542f85a2530790e4f059ff031015563ceca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 28/32] fix: kd: initialise the distance to the nearest node
 before summing

---
 gridutils/kdtree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 48e5ffd..e2579aa 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -838,6 +838,7 @@ int main(int argc, char* argv[])
                 rescoordsout[0] = lon / INVRAD;
                 rescoordsout[1] = lat / INVRAD;
             } else {
+                dist = 0.0;
                 for (i = 0; i < ndim; ++i)
                     dist += (rescoords[i] - coords[i]) * (rescoords[i] - coords[i]);
                 for (i = 0; i < ndim; ++i)
-- 
2.43.0


From a13645c621f17b414ef1a54b5dbe470fe63e06a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 29/32] fix: kd: report the search range

The format had a conversion for the range, but the range was not passed.
---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index e2579aa..d0c210e 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -856,7 +856,7 @@ int main(int argc, char* argv[])
         /*
          * find nodes within range
          */
-        printf("  nodes within r < %.3g%s", (isll) ? "km" : "");
+        printf("  nodes within r < %.3g%s:\n", range, (isll) ? "km" : "");
         fflush(stdout);
         set = kd_findnodeswithinrange(tree, coords, range, dosort);
         printf("    %zu points found:\n", kdset_getsize(set));
-- 
2.43.0


From 9c00dc0e62b9c55abf96d28301c9792cbdc7f2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 30/32] fix: kd: report longitudes beyond 90 degrees

The arcsine folds them into [-90, 90].
---
 gridutils/kdtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index d0c210e..7c10c4d 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -832,7 +832,7 @@ int main(int argc, char* argv[])
 
             if (isll) {
                 double lat = asin(rescoords[2] / REARTH);
-                double lon = asin(rescoords[0] / REARTH / cos(lat));
+                double lon = atan2(rescoords[0], rescoords[1]);
 
                 dist = sqrt((rescoords[0] - coords[0]) * (rescoords[0] - coords[0]) + (rescoords[1] - coords[1]) * (rescoords[1] - coords[1]) + (rescoords[2] - coords[2]) * (rescoords[2] - coords[2]));
                 rescoordsout[0] = lon / INVRAD;
@@ -869,7 +869,7 @@ int main(int argc, char* argv[])
 
             if (isll) {
                 double lat = asin(rescoords[2] / REARTH);
-                double lon = asin(rescoords[0] / REARTH / cos(lat));
+                double lon = atan2(rescoords[0], rescoords[1]);
 
                 rescoords[0] = lon / INVRAD;
                 rescoords[1] = lat / INVRAD;
-- 
2.43.0


From 39f90bdc723ab804d2248f3dac3e3367a81c72cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 31/32] fix: kd: accept negative coordinates of the location

They were taken for options. Also, refuse to run if the number of
coordinates is different to the number of dimensions: the missing ones were
used uninitialised.
---
 gridutils/kdtree.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 7c10c4d..05dceed 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -699,7 +699,7 @@ static void usage(void)
 
 /**
  */
-static void parse_commandline(int argc, char* argv[], char** fname, int* ndim, double* coords, double* range, int* dosort, int* dorandomise)
+static void parse_commandline(int argc, char* argv[], char** fname, int* ndim, double* coords, int* ncoords, double* range, int* dosort, int* dorandomise)
 {
     int i, ii;
 
@@ -737,9 +737,8 @@ static void parse_commandline(int argc, char* argv[], char** fname, int* ndim, d
             i++;
             if (i >= argc)
                 quit("no <coords> values found after -p");
-            for (ii = 0; i < argc && argv[i][0] != '-'; ++ii, ++i)
-                if (!str2double(argv[i], &coords[ii]))
-                    usage();
+            for (ii = 0; ii < NDIMMAX && i < argc && str2double(argv[i], &coords[ii]); ++ii, ++i);
+            *ncoords = ii;
             break;
         case 'o':
             i++;
@@ -767,6 +766,8 @@ static void parse_commandline(int argc, char* argv[], char** fname, int* ndim, d
 
     if (*ndim <= 0)
         quit("\"ndim\" must be defined");
+    if (*ncoords != *ndim)
+        quit("%d coordinates of the location found; expected %d", *ncoords, *ndim);
 }
 
 /**
@@ -788,6 +789,7 @@ int main(int argc, char* argv[])
     char* fname = NULL;
     int ndim = -1;
     double coords[NDIMMAX];
+    int ncoords = 0;
     double range = NAN;
     int dosort = 0;
     int dorandomise = 1;
@@ -797,7 +799,7 @@ int main(int argc, char* argv[])
     size_t id, id_orig;
     int i;
 
-    parse_commandline(argc, argv, &fname, &ndim, coords, &range, &dosort, &dorandomise);
+    parse_commandline(argc, argv, &fname, &ndim, coords, &ncoords, &range, &dosort, &dorandomise);
 
     printf("  src = %s\n", fname);
     tree = kd_readfile(fname, ndim, dorandomise);
-- 
2.43.0


From d0929e1fffdbbc2e283d1a7b20533f36e6d56d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 32/32] fix: kd: read lines with the coordinates of up to 256
 dimensions whole

A line of the input file was read into 1024 characters, while the
coordinates of the 256 dimensions the program accepts may take several
times that: the rest of such a line was taken for a line of its own, and
the node was lost.
---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 05dceed..a267bcf 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -535,7 +535,7 @@ double* kd_getminmax(const kdtree* tree)
 #include <stdarg.h>
 #include <errno.h>
 
-#define BUFSIZE 1024
+#define BUFSIZE 10240
 #define NDIMMAX 256
 #define NALLOCSTART 1024
 #define NDATAMAX 256
-- 
2.43.0

