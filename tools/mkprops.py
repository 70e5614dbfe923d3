import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["gridutils/"+f for f in files],mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,title
    P.append(d)
ONE="The only suite is a smoke script over one real grid with no reference output; "
p("G01","Validation keeps exactly the nodes that belong to valid cells",
 "Validating a corner or double-density grid turns into empty (NaN NaN) nodes exactly those corner nodes that are not a corner of any cell whose four corner nodes are all present, those centre nodes whose cell misses a corner, and those edge nodes with a missing end corner; every other node keeps its coordinates bit for bit and no empty node becomes valid. Centre grids are left as they are. Validating twice is the same as validating once, and the reported number of valid cells is the number of cells with all corners (for double density: the centre too) present.",
 ["inputs"],"every pattern of empty nodes on every grid size (odd sizes for double density), including one-cell, one-row and border cells",
 ONE+"its single grid exercises one pattern of empty nodes and nothing compares the nodes that come out.",
 ["gridnodes.c","gridnodes.h","getnodes.c"],[("corner validation","gridnodes.c gridnodes_validate_cor"),("double-density validation","gridnodes.c gridnodes_validate_dd")],
 [("gx, gy","node coordinate arrays, NaN x marks an empty node","gridnodes.c struct gridnodes")],["gridnodes_getx/gety after gridnodes_validate","getnodes output","getnodes -v cell count"])
p("G02","Converting between double-density, corner and centre grids is exact",
 "Double density to corner (or centre) selects every second node unchanged, on nodes 0,2,4,... (or 1,3,5,...); corner to centre gives, for every cell, the mean of its four corners, or an empty node if one of them is empty; corner to double density keeps the corners, puts each edge node at the mean of its two ends and each centre at the mean of its four corners (empty if any needed corner is empty). The result has the documented size and type, corner to double density and back is the identity, and converting to the same type gives an equal grid. The conversion never alters the source beyond validating it.",
 ["inputs"],"every grid shape and pattern of empty nodes (corner grids under the default mapping only where the valid cells are connected through sides, without holes or cells touching only at a corner, as that mapping requires), both mapping types, every chain of conversions",
 ONE+"each conversion runs once and only that the output holds a line of numbers is looked at.",
 ["gridnodes.c","gridmap.c"],[("conversion by type pair","gridnodes.c gridnodes_transform"),("bilinear evaluation","gridmap.c gridmap_fij2xy")],
 [("type, nx, ny","node type and array size","gridnodes.c struct gridnodes")],["gridnodes_transform result","getnodes -i/-o output"])
p("G03","Rebuilding corners from cell centres follows the nearest complete block",
 "Converting a centre grid to corner or double-density nodes gives every new node the bilinear extrapolation (in index space) of a nearest complete 2x2 block of centres closer than 1.5 index units, and an empty node if there is none, followed by validation; so corners of a grid whose coordinates are bilinear in the indices are recovered exactly. In the double-density result a centre node is valid only if that centre was valid in the input, where it keeps its coordinates. The conversion works for every pattern of empty centres, including none with a complete block, and every size from 1x1 up.",
 ["inputs"],"every pattern of empty centres and every size, including single rows and columns and grids without a complete block",
 ONE+"one centre grid derived from one corner grid is converted back and not compared with the original.",
 ["gridnodes.c","kdtree.c"],[("nearest-block extrapolation","gridnodes.c gridnodes_transform NT_CEN branches, fij2xy"),("nearest block search","kdtree.c kd_findnearestnode")],
 None,["gridnodes_transform result","getnodes -i CE -o CO|DD output"])
p("G04","Applying a cell mask invalidates exactly the masked cells",
 "Applying a 0/1 mask (row by row, one value per cell) to a centre grid empties exactly the masked cells and leaves every other node unchanged. On a double-density grid it empties the centre of every masked cell, then every corner whose surrounding cells all have empty centres, then whatever validation removes, so that a cell centre is valid afterwards exactly if it was valid and unmasked, and a kept corner always has an unmasked neighbour cell. A corner grid is refused with an error, as is a mask value other than 0 and 1 or a mask with too few values; the last value need not end in a newline.",
 ["inputs"],"every mask on every pattern of empty nodes, both supported node types, mask files with and without a final newline",
 "The suite never uses a mask.",
 ["gridnodes.c","gucommon.c","getnodes.c"],[("mask application","gridnodes.c gridnodes_applymask"),("mask reading","gucommon.c gu_readmask")],
 None,["gridnodes_applymask result","getnodes -m output"])
p("G05","The boundary polygon encloses exactly the valid cells",
 "For a grid whose valid cells form one region connected through cell sides, without holes or cells touching only at a corner, the boundary is a closed polygon starting at the first valid node in row order, whose consecutive vertices are neighbouring nodes joined by a side of a valid cell, and which encloses exactly the union of the valid cells - also when two parts of the grid come so close that their nodes are neighbours without sharing a cell. The index-space boundary visits the same nodes in the same order as the physical one. A grid with no valid cell gives an empty polygon.",
 ["inputs"],"every simply connected arrangement of valid cells on every grid size, every placement of the nodes, corner and double-density input",
 ONE+"one boundary is extracted and only that the file holds a number is looked at; the shapes that go wrong (narrow gaps, spurs, one-cell arms) do not occur.",
 ["poly.c","getbound.c"],[("boundary walk","poly.c poly_formbound, poly_formboundij")],
 [("direction","current walking direction, turn preference","poly.c poly_formbound")],["poly_formbound/poly_formboundij result","getbound [-r] output"])
p("G06","Compacting a polygon keeps its region and leaves no vertex in between",
 "Compacting a closed boundary polygon (without folds) keeps the enclosed region: the remaining vertices are a subsequence of the original ones, every removed vertex lies on the segment between the kept vertices around it, and no kept vertex lies on the line through its kept neighbours (the explicit closing vertex is dropped). It works for every start vertex, with repeated vertices, in any units and for any distance from the origin. Polygons of at most four vertices are left alone.",
 ["inputs"],"every closed lattice polygon, rotation of its vertex list, orientation and scale of coordinates",
 ONE+"one index-space boundary is compacted and the result is not compared with the uncompacted one.",
 ["poly.c","getbound.c"],[("collinearity scan","poly.c poly_compact, ononeline, point_equal")],
 None,["poly_compact result","getbound -c output"])
p("G07","Point location finds a cell that contains the point, exactly when one does",
 "With the default mapping, converting a physical point to a cell succeeds exactly if the point lies in the closed union of the valid cells, and then reports a valid cell whose closed quadrilateral contains the point; otherwise it reports failure. This holds for points inside cells, on cell sides, on nodes and on the outer boundary, for every arrangement of valid convex cells connected through cell sides, without holes or cells touching only at a corner, however concave or spiralling the boundary. Points with a non-finite coordinate are outside every grid.",
 ["inputs"],"every simply connected grid of convex cells (masks, bends, spirals, either handedness) and every query point",
 ONE+"two points strictly inside one grid are located.",
 ["gridbmap.c","gridmap.c","poly.c"],[("binary tree of sub-polygons","gridbmap.c gridbmap_build, cut_boundary, subgrid_divide"),("descent","gridbmap.c gridbmap_xy2ij"),("containment","poly.c poly_containspoint")],
 [("subgrid tree","index range and boundary polygon per tree node","gridbmap.c struct subgrid")],["gridmap_xy2ij result and indices","xy2ij output"])
p("G08","kd-tree point location reports only valid cells that contain the point",
 "With kd-tree mapping a reported cell is always valid and its closed quadrilateral contains the point, and points outside every valid cell are always reported as outside. Whenever a nearest valid node of the point is unique and is a corner of a cell that contains the point (always so on rectangular grids with straight axes), the point is found. This holds for any arrangement of valid cells, connected or not, with holes or not.",
 ["inputs"],"every grid of convex cells with any pattern of empty nodes, every query point",
 ONE+"two interior points of one simply connected grid are located.",
 ["gridkmap.c","kdtree.c","gridmap.c"],[("nearest node then adjacent cells","gridkmap.c gridkmap_xy2ij"),("nearest search","kdtree.c kd_findnearestnode")],
 [("tree","kd-tree over all valid nodes","gridkmap.c struct gridkmap")],["gridmap_xy2ij on a kd-tree map","xy2ij -k output"])
p("G09","Index-to-physical mapping is bilinear in the cell and flags out-of-range indices",
 "Mapping fractional indices (i+u, j+v) inside the grid gives the bilinear combination of the four nodes of cell (i,j), hence the node itself at whole indices and a point of the shared side on cell sides, including the last row and column; it succeeds. Indices outside the grid are reported as failures and moved to the nearest edge, and indices that are not numbers are reported as failures with NaN results. If a needed node is empty the result is NaN.",
 ["inputs"],"every grid, both mapping types, every pair of fractional indices including borders, out-of-range and NaN",
 ONE+"one index pair is mapped, strictly inside.",
 ["gridmap.c","xy2ij.c"],[("forward bilinear map","gridmap.c gridmap_fij2xy")],
 None,["gridmap_fij2xy status and result","xy2ij -r output"])
p("G10","Physical-to-index mapping inverts index-to-physical mapping",
 "For a grid of strictly convex cells the fractional indices found for a physical point lie in the reported cell and map back to the point; a point that is the image of (i+u, j+v) is mapped to (i+u, j+v) to within 1e-6. It succeeds exactly when point location does, and otherwise returns NaN indices with a failure status. This holds for right- and left-handed grids, parallelogram, trapezoid and general cells, and points on sides and nodes.",
 ["inputs"],"every grid of strictly convex cells, every point, both mapping types, both orientations",
 ONE+"two interior round trips on one right-handed metric grid.",
 ["gridmap.c"],[("inverse bilinear map","gridmap.c gridmap_xy2fij"),("root choice","gridmap.c calc_branch")],
 [("sign","root branch cached on first use","gridmap.c struct gridmap")],["gridmap_xy2fij status and result","xy2ij output"])
p("G11","A mapping's answers depend only on the grid and the point",
 "What a grid map answers for a point never depends on which points were mapped before, in which direction or how often, successful or not, nor on other maps in use. Multiplying all coordinates of grid and point by one factor (a change of units) leaves the found cell and fractional indices unchanged, and so does mirroring the grid, except that a kd-tree map may find another cell for a point with several nearest nodes. Building and using a map never changes the node coordinates.",
 ["histories","inputs"],"every sequence of forward, inverse and locate calls on one or several maps; unit factors from 2^-30 to 2^20; mirrored grids",
 ONE+"every process maps at most one point, in metres.",
 ["gridmap.c","gridbmap.c","gridkmap.c","poly.c"],[("cached branch sign","gridmap.c gridmap_xy2fij, calc_branch"),("tolerances","gridmap.c EPS_ZERO; poly.c ononeline")],
 [("sign","root branch cached on first use","gridmap.c struct gridmap")],["results of interleaved calls"])
p("G12","Nearest-node search returns a node at minimum distance",
 "For every non-empty kd-tree and finite query point, nearest-node search returns the id of a stored node whose distance to the point is minimal over all stored nodes. This holds for any dimension, any insertion order and mixture of single and batch, shuffled or plain insertion, with repeated points, collinear points, points on splitting planes, and trees of any size. An empty tree gives a recognisable no-node answer and not a crash.",
 ["inputs","histories"],"every set and insertion history of points in 1 to 4 dimensions and every query",
 ONE+"the search is only reached through two point conversions and one reconstruction, whose results are not compared with anything.",
 ["kdtree.c","kdtree.h"],[("pruned descent","kdtree.c _kd_findnearestnode, disttohyperrect")],
 [("nodes, coords, min/max","tree nodes, coordinates and bounding box","kdtree.c struct kdtree")],["kd_findnearestnode + kd_getnodecoords"])
p("G13","Range search returns every node within the radius, each exactly once",
 "Range search returns exactly the stored nodes whose distance to the point is at most the radius, each once, with its true distance, and the reported size equals the number returned; with ordering requested distances never decrease. Reading past the end keeps reporting no more results. This holds for nodes exactly at the radius, a zero radius, repeated points, any dimension, any insertion history and the empty tree.",
 ["inputs","histories"],"every tree, query point and radius, with and without ordering",
 "Nothing in the suite or the programs calls the range search.",
 ["kdtree.c","kdtree.h"],[("pruned range descent","kdtree.c _kd_findnodeswithinrange"),("ordered result list","kdtree.c _kdset_insert, kdset_read")],
 [("root, toread","result list and reading position","kdtree.c struct kdset")],["kd_findnodeswithinrange, kdset_read, kdset_getsize"])
p("G14","A kd-tree stores exactly what was inserted, whatever the insertion history",
 "After any sequence of single and batch insertions a kd-tree holds exactly the inserted points with finite coordinates, each with its coordinates and original id (the given one, or for a batch the number of nodes stored before plus the position in the batch, shuffled or not), its size counts them, and its bounding box is the tightest around them. Points with a non-finite coordinate are skipped without shifting ids of the others. Storage growth never loses, duplicates or disconnects nodes.",
 ["histories"],"every interleaving of single and batch insertions of every size, including ones that cross allocation sizes, with non-finite points",
 ONE+"one batch insertion into an empty tree per process.",
 ["kdtree.c","kdtree.h"],[("insertion","kdtree.c kd_insertnode, kd_insertnodes, _kd_insertnode"),("shuffle","kdtree.c shuffle")],
 [("nallocated, nnodes","capacity and number of nodes","kdtree.c struct kdtree")],["kd_getsize, kd_getminmax, kd_getnodecoords, kd_getnodeorigid"])
p("G15","Point-in-polygon follows the even-odd rule with the boundary inside",
 "A point is inside a polygon exactly if it lies on one of its sides (including the implied closing side and the vertices) or a ray from it crosses the polygon an odd number of times. The answer does not depend on orientation, start vertex, explicit closing, repeated vertices, or vertices and sides level with the point. A polyline with fewer than two vertices contains nothing.",
 ["inputs"],"every polygon (concave, self-touching, with horizontal sides and repeated vertices) and every point",
 ONE+"the predicate is reached only through the location of two interior points.",
 ["poly.c"],[("ray crossing count","poly.c poly_containspoint"),("bounding box filter","poly.c extent_containspoint")],
 [("e","bounding box of the polyline","poly.h poly")],["poly_containspoint result"])
p("G16","Polyline edits act as edits of a list of points, with a true bounding box",
 "Adding, inserting, deleting, appending, reversing, closing, clearing, copying, thinning (keep points more than a distance apart in X or Y from the last kept) and despiking (keep points closer than a distance to the last kept) change a polyline exactly as they would a list of points, in any order and number. Inserting beyond the end appends, and inserting at a negative position does nothing. After every edit the bounding box is the tightest around the points, copies are independent, and looking up a point gives its first position or none.",
 ["histories"],"every sequence of edits, lengths that cross storage growth, and repeated points",
 "No program or test calls most of these functions.",
 ["poly.c","poly.h"],[("edits","poly.c poly_addpoint, poly_addpointat, poly_append, poly_deletepoint, poly_reverse, poly_close, poly_clear, poly_copy, poly_resample, poly_despike"),("bounding box upkeep","poly.c extent_update, poly_recalcextent")],
 [("n, nallocated, x, y, e","points, capacity and bounding box","poly.h poly")],["poly fields after each call"])
p("G17","Polygon area is signed and exact; polylines survive being written and read",
 "The area of a polygon is that of the closed polygon, positive if it runs counterclockwise and negative if clockwise, whatever the start vertex and whether it is explicitly closed. Writing a polyline and reading it back gives the same points in the same order (to 15 significant digits), with several polylines in one stream read one by one, and comment and blank lines before the points skipped. Reading appends to what the polyline already holds and returns the resulting number of points.",
 ["inputs","histories"],"every polygon and every sequence of polylines in a stream",
 "No test computes an area or reads a polyline.",
 ["poly.c"],[("area","poly.c poly_area"),("text form","poly.c poly_write, poly_read, nextline")],
 None,["poly_area, poly_read, poly_write"])
p("G18","Grid files are read and written faithfully",
 "Reading a grid file of any node type gives, row by row, the coordinates of each line, where an empty, commented or unreadable line or a NaN for either coordinate is an empty node; writing gives a header with the size and one line per node in the same order, `NaN NaN` for an empty node (`NaN` with X or Y only) and 15 significant digits otherwise. So writing and reading back gives the same grid, and columns X and Y printed separately agree with both printed together. Reading from a file and from standard input is the same, and further lines after the last node are left alone.",
 ["inputs"],"every grid size and content, line format variants, all node types, file and standard input",
 ONE+"the text it writes is only looked at for the presence of a number.",
 ["gridnodes.c","getnodes.c"],[("reader","gridnodes.c gridnodes_read"),("writer","gridnodes.c gridnodes_write")],
 None,["getnodes input and output","gridnodes_getx/gety after gridnodes_read"])
p("G19","Subgrid extraction returns exactly the requested index window",
 "Extracting a subgrid for an inclusive index window returns the nodes of the window, clipped to the grid, in the same arrangement with unchanged coordinates and empty nodes, and the same node type; without limits it returns the whole grid. The result is independent of the source. A window that contains no node is refused with an error.",
 ["inputs"],"every grid and window, including windows partly or wholly outside, reversed, single rows and columns",
 "The program is built but the project has no test for it.",
 ["gridnodes.c","subgrid.c"],[("window copy","gridnodes.c gridnodes_subgrid, gridnodes_copy"),("range parsing","subgrid.c parse_commandline")],
 None,["gridnodes_subgrid result","subgrid output"])
p("G20","Inserting or merging a grid changes only the overlapped nodes",
 "Inserting grid B into grid A at offset (i,j), positive, zero or negative, gives the smallest grid that holds both, whose nodes are those of B where B lies, else those of A where A lies, else empty. With merging an empty node of B does not replace a node of A. If a node type is given, the result is then validated as that type, otherwise not.",
 ["inputs"],"every pair of grids, every offset, insert and merge, every node type",
 "The program is built but the project has no test for it.",
 ["insertgrid.c","gridnodes.c"],[("overlay loops","insertgrid.c main")],
 None,["insertgrid output"])
p("G21","Setting values in an index range changes those lines and no others",
 "Given a file with one line per cell, setting a range of indices replaces exactly the lines whose column and row index are in the inclusive range (the whole extent where no limit is given) by the given text, and copies every other value line, every skipped leading line and every trailing line unchanged and in order; the size comes from the header line, which is consumed, or from the command line. A file with too few lines or without a size is refused. A missing value is refused rather than written.",
 ["inputs"],"every size, range, offset and line content, file and standard input",
 "The program is built but the project has no test for it.",
 ["setbathy.c"],[("line filter","setbathy.c main")],
 None,["setbathy output"])
p("G22","Batch point conversion answers every input line in order",
 "Point conversion writes exactly one output line per input line, in input order: the converted coordinates followed by the rest of the line unchanged, or the input line itself if it does not start with two numbers. With the force option a point outside the grid gives NaN NaN with the rest of the line kept; without it the program stops with an error at the first such point, with all earlier lines already answered. Indices within the index range that lie in an empty part of the grid give NaN NaN either way. Each line's answer is the same as if it were the only line, and the reported totals of successful and unsuccessful mappings add up to the number of points.",
 ["inputs","histories"],"every sequence of points inside and outside, comment lines and trailing columns, both directions, both map types",
 ONE+"every run of it has one input line that succeeds.",
 ["xy2ij.c","gridmap.c"],[("line loop","xy2ij.c main")],
 None,["xy2ij output, exit status and -v totals"])
p("G23","Cell averaging returns the mean of the points that fell into the cell",
 "After adding any number of batches of scattered points, the value at a location is the arithmetic mean of the values of all points added so far that lie in the same cell, and NaN if there are none or the location is outside the grid. Points outside the grid are ignored. The result does not depend on the order or batching of the points, nor on earlier queries.",
 ["histories","inputs"],"every sequence of batches and queries on every grid",
 "The code is compiled on its own and never run by the suite.",
 ["gridaverager.c","gridmap.c"],[("accumulate and divide","gridaverager.c ga_addpoints, ga_getvalue")],
 [("v, n","sum and number of values per cell","gridaverager.c struct gridaverager")],["ga_getvalue"])
p("G24","Reported grid quality figures describe the grid",
 "The reported maximum and mean deviation from orthogonality are those of 90 degrees minus the angle between adjacent sides over all corners of all valid cells, the maximum and mean aspect ratio (longer to shorter distance between the middles of opposite sides) and mean cell size (mean lengths of the sides along i and along j) those of all valid cells, and the cell named with a maximum attains it. Computing them does not change the coordinates of any node of a valid cell. The figures for a double-density grid are those of its corner grid.",
 ["inputs"],"every corner or double-density grid with at least one valid cell",
 ONE+"the figures are printed for one nearly orthogonal grid and not compared.",
 ["gridnodes.c"],[("statistics","gridnodes.c gridnodes_calcstats, gridnodes_calcstats_cor, dtheta")],
 [("stats","figures","gridnodes.c gridstats")],["getnodes -v"])
p("G25","Gridded bathymetry is the clipped mean of samples in each valid cell",
 "Gridded bathymetry prints one value per cell in row order (or the one requested cell): NaN for cells that are masked, miss a corner or have no valid sample, and otherwise the mean over the n x n regularly spaced sample points of the value of the selected interpolation method there, each limited to the given depth range and NaN samples left out. Each method number selects the documented method, averaging prints the mean of the input points in the cell, and interpolating in index space uses index coordinates for both data and samples. A requested cell outside the grid is refused.",
 ["inputs","configurations"],"every grid, mask, method, number of samples, depth range and cell request",
 "The program cannot be linked here (it needs two absent libraries), so no test runs it.",
 ["gridbathy.c","gridaverager.c"],[("cell and sample loops","gridbathy.c main")],
 None,["gridbathy output with stand-in interpolation libraries"])
p("G26","Unfolding an n-polar grid leaves no jump within a row",
 "The n-polar option adds whole turns of 360 degrees to X and empties nodes, and changes nothing else: Y values, sizes and empty nodes stay. Going down a column, a drop of X by more than 180 degrees is undone by adding 360. Afterwards no two valid neighbours in a row differ by more than 180 in X or 90 in Y, and only nodes next to such a jump were emptied.",
 ["inputs"],"every grid of longitudes and latitudes with empty nodes whose columns never rise by more than 180 degrees between neighbours",
 "The suite never uses the option.",
 ["getnodes.c"],[("unfolding","getnodes.c gridnodes_tweaknpolar")],
 None,["getnodes -p output"])
p("G27","Bad input is refused with an error and never crashes or passes silently",
 "A grid file without a readable header, with a non-positive or oversized dimension, an even double-density dimension or fewer lines than nodes, an unreadable file, an unknown node or map type, a bad mask and an index window without nodes are each refused: the program prints an error message to standard error and exits with a non-zero status, and a library user's own error handler is called instead if one is set. No such input makes a program crash, hang or print a partial grid as if it were complete.",
 ["inputs","fault_sequences"],"every program, every kind of malformed file and argument named, at every position in the file",
 "The suite gives only well-formed input.",
 ["gridnodes.c","gucommon.c","getnodes.c","getbound.c","subgrid.c","setbathy.c","insertgrid.c","xy2ij.c"],[("error exit","gucommon.c gu_quit, gu_setquitfn"),("input checks","gridnodes.c gridnodes_read")],
 [("gu_quit","current error handler","gucommon.c")],["exit status, standard error and standard output of the programs"])
p("G28","Grid objects are independent and library calls leave their inputs alone",
 "Copies, subgrids and conversions of a grid share no storage with it: changing or destroying either never changes the other, in any order of operations. Converting, copying, extracting or writing a grid changes none of its coordinates except by validating it, and keeps the requested node and map type. Filling a grid point by point sets nodes in row order, wrapping around at the end.",
 ["histories"],"every sequence of create, fill, copy, subgrid, convert, mask, validate, change and destroy operations on several grids",
 ONE+"each process handles one grid once.",
 ["gridnodes.c"],[("deep copies","gridnodes.c gridnodes_copy, gridnodes_subgrid, gridnodes_transform"),("point-by-point fill","gridnodes.c gridnodes_readnextpoint")],
 [("nextpoint, validated, maptype","fill position, validated flag, mapping type","gridnodes.c struct gridnodes")],["state of all grids after each call"])
p("G29","The kd program answers from a file of coordinates",
 "The standalone kd program (kdtree.c built with STANDALONE defined) takes as points the lines of its file, or of standard input, that do not start with `#` and begin with as many numbers as there are dimensions; a point's id is its position among these lines, whether or not points are shuffled. It prints their number, the location, and then either a nearest point or, with a range given, the range, the number of points within it and each of them once, in order of distance if sorting is requested; every point is printed with its coordinates as given, its id and its true distance from the location. With geographic coordinates these are longitude and latitude in degrees, longitude up to whole turns, and distances are straight-line ones in kilometres between points of a sphere of radius 6371 km. Points with a coordinate that is not finite are never reported. Locations with negative coordinates work like others. A missing file, an invalid number of dimensions and a number of location coordinates other than it are refused.",
 ["inputs","configurations"],"every file of points (lines below 1024 characters), location, range, number of dimensions and combination of options",
 "The build does not include the program and no test runs it.",
 ["kdtree.c"],[("reading","kdtree.c kd_readfile"),("options, queries and printing","kdtree.c parse_commandline, main")],
 None,["kd standard output, exit status and standard error"])
p("G30","Destroying objects returns all that calls took; no file stays open",
 "In a history of library calls in which no error is raised, a call about a grid, polyline, kd-tree, map or averager keeps storage only for that object, however often it is repeated; destroying the object returns all that was taken for it (for maps and averagers, which work together, once the last of them is destroyed), so that nothing is left allocated when no object is left. Result sets of range queries return theirs when freed, however many results were read. A call about no object keeps nothing. No call leaves a file open other than the streams its caller holds, or closes one of those.",
 ["histories"],"every sequence of library calls on grids, maps, averagers, polylines and kd-trees that raises no error, ended by destroying everything in an order that destroys averagers before maps and maps before grids",
 "The programs exit after one job, so nothing in the suite notices what is not returned.",
 ["gridnodes.c","gridmap.c","gridbmap.c","gridkmap.c","gridaverager.c","poly.c","kdtree.c","gucommon.c"],[("destructors","gridnodes.c gridnodes_destroy, gridbmap.c subgrid_destroy, gridkmap.c gridkmap_destroy, poly.c poly_destroy, kdtree.c kd_destroy, kdset_free, gridaverager.c ga_destroy"),("temporary objects","gridnodes.c gridnodes_transform, gridnodes_calcstats; gridkmap.c gridkmap_xy2ij; poly.c poly_compact"),("files","gridnodes.c gridnodes_read, gridnodes_write; gucommon.c gu_readmask")],
 None,["number of blocks allocated and files open after each call, counted by the linker's --wrap"])
p("G31","Options mean the same in any order, and mistakes in them are never ignored",
 "Each program obeys its options wherever they stand among the operands and whichever order they are given in: two command lines with the same last-given value for every option and the same operands give the same output, node types may be written in any letter case, an argument after an option that takes a value is that value even if it starts with a dash, and negative offsets are operands. `-v` changes nothing on standard output. With `-h` a program prints its usage instead of working, with `-v` alone its version. A missing operand or required option, an option without its value and an unknown option lead to usage information or an error and no other output; an unknown node type is an error.",
 ["inputs","configurations"],"every command line of getnodes, getbound, subgrid, setbathy, insertgrid, xy2ij and gridbathy with at most one mistake in it",
 "The suite uses a handful of fixed command lines.",
 ["getnodes.c","getbound.c","subgrid.c","setbathy.c","insertgrid.c","xy2ij.c","gridbathy.c"],[("reading of arguments","parse_commandline in each program"),("usage, info","each program")],
 None,["standard output and exit status of each program"])
open('/verif/properties.jsonl','w').write("\n".join(json.dumps(x) for x in P)+"\n")
print(len(P))
