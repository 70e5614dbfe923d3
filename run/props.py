"""What each property's check runs."""
import f_cmd
import f_kd
import f_kdprog
import f_map
import f_nodes
import f_poly
import f_store
import f_tools
from core import quick

GRIDMC = ('CONSTANTS T = "%s"\nNX = %d\nNY = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
          'INVARIANTS OnlyRemoves Idempotent ValidCO ValidDD Bilinear ConvCells RoundTrip Rebuilt MaskLaw CutLaw\n')


def gridmc(chk, *cases):
    for t, nx, ny in cases:
        chk.model('GridMC %s %dx%d' % (t, nx, ny), 'GridMC', GRIDMC % (t, nx, ny))


def many(f, n, n0=0):
    return [f(k) for k in range(n0, n0 + n)]


def G01(b, chk):
    gridmc(chk, *quick([('CO', 3, 3), ('DD', 3, 3)], [('CO', 3, 3), ('DD', 3, 3), ('CO', 4, 3), ('CO', 4, 4), ('DD', 5, 3)]))
    f_nodes.campaign(b, chk, 'every 3x3 pattern', many(f_nodes.g01_small, 1024))
    f_nodes.campaign(b, chk, 'validation', many(f_nodes.g01, quick(1200, 20000)))
    f_nodes.from_spec(b, chk, quick([('CO', 3, 3, 3, 400), ('DD', 3, 3, 3, 400)], [('CO', 3, 3, 3, 6000), ('DD', 3, 3, 3, 6000), ('CO', 3, 2, 4, 6000)]), ('valid', 'stats'))
    f_nodes.campaign(b, chk, 'large grids', [f_nodes.large('G01', k) for k in range(quick(32, 400))])


def G02(b, chk):
    gridmc(chk, *quick([('CO', 3, 3), ('DD', 3, 3)], [('CO', 3, 3), ('DD', 3, 3), ('CO', 4, 3), ('DD', 5, 3), ('DD', 3, 5)]))
    f_nodes.campaign(b, chk, 'conversions', many(f_nodes.g02, quick(1500, 20000)))
    f_nodes.from_spec(b, chk, quick([('CO', 3, 3, 3, 500), ('DD', 3, 3, 3, 400)], [('CO', 3, 3, 3, 6000), ('DD', 3, 3, 3, 6000), ('CO', 3, 2, 4, 6000)]), ('trans',))
    f_tools.campaign(b, chk, 'getnodes', many(f_tools.gconv, quick(400, 4000)))
    f_nodes.campaign(b, chk, 'large grids', [f_nodes.large('G02', k) for k in range(quick(32, 400))])
    f_tools.campaign(b, chk, 'long files', [f_tools.large(f_tools.gconv, k) for k in range(quick(24, 300))])


def G03(b, chk):
    gridmc(chk, *quick([('CE', 2, 2), ('CE', 3, 2)], [('CE', 2, 2), ('CE', 2, 3), ('CE', 3, 2), ('CE', 3, 3), ('CE', 2, 1)]))
    f_nodes.campaign(b, chk, 'corners from centres', many(f_nodes.g03, quick(1200, 15000)))
    f_nodes.campaign(b, chk, 'there and back', many(f_nodes.g03_back, quick(500, 6000)))
    f_nodes.from_spec(b, chk, quick([('CE', 2, 2, 3, 400), ('CE', 3, 2, 3, 300)], [('CE', 2, 2, 4, 8000), ('CE', 3, 2, 3, 8000), ('CE', 3, 3, 2, 4000)]), ('trans',))
    f_tools.campaign(b, chk, 'getnodes', many(lambda k: f_tools.gconv(k, 'CE'), quick(300, 3000)))
    f_nodes.campaign(b, chk, 'large grids', [f_nodes.large('G03', k) for k in range(quick(32, 400))])
    f_tools.campaign(b, chk, 'long files', [f_tools.large(lambda k: f_tools.gconv(k, 'CE'), k) for k in range(quick(16, 200))])


def G04(b, chk):
    gridmc(chk, *quick([('DD', 3, 3), ('CE', 2, 2)], [('DD', 3, 3), ('CE', 2, 2), ('CE', 3, 2), ('DD', 5, 3)]))
    f_nodes.campaign(b, chk, 'masks', many(f_nodes.g04, quick(1500, 20000)))
    f_nodes.from_spec(b, chk, quick([('CE', 2, 2, 3, 400), ('DD', 3, 3, 3, 300)], [('CE', 2, 2, 4, 8000), ('DD', 3, 3, 3, 8000), ('CE', 3, 2, 3, 4000)]), ('mask',))
    f_tools.campaign(b, chk, 'mask files', many(f_tools.gmask, quick(300, 3000)))
    f_tools.campaign(b, chk, 'getnodes', many(lambda k: f_tools.gconv(k, None, True), quick(300, 3000)))
    f_nodes.campaign(b, chk, 'large grids', [f_nodes.large('G04', k) for k in range(quick(32, 400))])
    f_tools.campaign(b, chk, 'long files', [f_tools.large(f_tools.gmask, k) for k in range(quick(24, 300))])


def G19(b, chk):
    gridmc(chk, *quick([('CE', 3, 2)], [('CE', 3, 2), ('CO', 4, 3)]))
    f_nodes.campaign(b, chk, 'windows', many(f_nodes.g19, quick(1500, 15000)))
    f_nodes.from_spec(b, chk, quick([('CE', 2, 2, 3, 400), ('CO', 3, 3, 3, 300)], [('CE', 2, 2, 4, 8000), ('DD', 3, 3, 3, 8000), ('CO', 3, 3, 3, 8000)]), ('sub',))
    f_tools.campaign(b, chk, 'subgrid', many(f_tools.g19p, quick(400, 4000)))
    f_tools.from_spec(b, chk, quick([(2, 2, 1, ['NO'], False, 1, 0, 200), (2, 2, 2, ['NO'], False, 3, 40, 100)],
                                    [(2, 2, 1, ['NO'], False, 1, 0, 2000), (3, 2, 2, ['NO'], False, 4, 2000, 3000)]), ('sub',))
    f_nodes.campaign(b, chk, 'large grids', [f_nodes.large('G19', k) for k in range(quick(32, 400))])
    f_tools.campaign(b, chk, 'long files', [f_tools.large(f_tools.g19p, k) for k in range(quick(24, 300))])


def G28(b, chk):
    f_nodes.campaign(b, chk, 'histories', many(f_nodes.g28, quick(1000, 12000)))
    f_nodes.from_spec(b, chk, quick([('CE', 2, 2, 3, 700), ('CO', 3, 2, 4, 700), ('CO', 3, 3, 3, 600), ('DD', 3, 3, 3, 700)],
                                    [('CE', 2, 2, 4, 15000), ('CO', 3, 2, 4, 15000), ('CO', 3, 3, 3, 15000), ('DD', 3, 3, 3, 15000), ('CE', 3, 2, 3, 10000)]))
    f_nodes.campaign(b, chk, 'large grids', [f_nodes.large('G28', k) for k in range(quick(32, 400))])


def treemc(chk, *sizes):
    for nx, ny in sizes:
        chk.model('GridTreeMC %dx%d' % (nx, ny), 'GridTreeMC',
                  'CONSTANTS NX = %d\nNY = %d\nINIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\n'
                  'INVARIANTS WalkLaw ShareLaw CutLaw DoneLaw\n' % (nx, ny))


def G05(b, chk):
    treemc(chk, *quick([(2, 2), (4, 2)], [(3, 3), (4, 2), (4, 3)]))
    f_map.campaign(b, chk, 'every simply connected arrangement', f_map.g05_all(3, 3) + quick(f_map.g05_all(4, 2), f_map.g05_all(4, 3) + f_map.g05_all(4, 4)))
    f_map.campaign(b, chk, 'boundaries', many(f_map.g05, quick(2000, 25000)))
    f_tools.campaign(b, chk, 'getbound', many(f_tools.gbound, quick(200, 2000)))
    f_map.campaign(b, chk, 'winding corridors', [f_map.maze('G05', k) for k in range(quick(250, 4000))])
    f_map.campaign(b, chk, 'large grids', [f_map.large('G05', k) for k in range(quick(40, 600))])
    f_tools.campaign(b, chk, 'long files', [f_tools.large(f_tools.gbound, k) for k in range(quick(24, 300))])


def G07(b, chk):
    treemc(chk, *quick([(3, 2), (4, 2)], [(3, 3), (4, 2), (4, 3)]))
    f_map.campaign(b, chk, 'points', many(f_map.g07, quick(2500, 20000)))
    f_map.from_spec(b, chk, quick([(2, 2, ['ij'], 2, 0, 4, 1, 500)], [(2, 2, ['ij'], 2, 0, 5, 1, 12000), (3, 2, ['ij'], 1, 0, 4, 2, 8000)]), ('ij',))
    f_map.campaign(b, chk, 'every simply connected arrangement', f_map.g07_all(4, 3) + quick([], f_map.g07_all(3, 4) + f_map.g07_all(5, 2) + f_map.g07_all(4, 4)))
    f_map.campaign(b, chk, 'lattices of points', many(f_map.g07_scan, quick(300, 3000)))
    f_map.campaign(b, chk, 'winding corridors', [f_map.maze('G07', k) for k in range(quick(250, 4000))])
    f_map.campaign(b, chk, 'large grids', [f_map.large('G07', k) for k in range(quick(40, 600))])
    f_map.campaign(b, chk, 'huge grids', [f_map.huge(k, 0) for k in range(quick(1, 6))])


def G08(b, chk):
    f_map.campaign(b, chk, 'points', many(f_map.g08, quick(2500, 25000)))
    f_map.from_spec(b, chk, quick([(2, 2, ['fij'], 2, 0, 4, 1, 500)], [(2, 2, ['fij'], 2, 0, 5, 1, 12000), (3, 2, ['fij'], 1, 0, 4, 2, 8000)]), ('fij',))
    f_map.campaign(b, chk, 'large grids', [f_map.large('G08', k) for k in range(quick(40, 600))])
    f_map.campaign(b, chk, 'huge grids', [f_map.huge(k, 1) for k in range(quick(2, 9))])


def G09(b, chk):
    f_map.campaign(b, chk, 'indices', many(f_map.g09, quick(2500, 25000)))
    f_map.from_spec(b, chk, quick([(2, 2, ['xy', 'fij'], 1, 0, 4, 2, 500)], [(2, 2, ['xy', 'fij'], 1, 0, 5, 2, 12000)]), ('xy',))
    f_map.campaign(b, chk, 'large grids', [f_map.large('G09', k) for k in range(quick(40, 600))])


def G10(b, chk):
    f_map.campaign(b, chk, 'points', many(f_map.g10, quick(2500, 25000)))
    f_map.from_spec(b, chk, quick([(2, 2, ['ij', 'fij'], 1, 0, 4, 2, 500)], [(2, 2, ['ij', 'fij'], 1, 0, 5, 3, 12000)]), ('ij', 'fij'))
    f_map.campaign(b, chk, 'large grids', [f_map.large('G10', k) for k in range(quick(40, 600))])


def G11(b, chk):
    f_map.campaign(b, chk, 'histories', many(f_map.g11, quick(1500, 12000)))
    f_map.from_spec(b, chk, quick([(2, 2, ['ij', 'fij'], 2, 0, 5, 2, 800)], [(2, 2, ['ij', 'fij', 'xy'], 2, 0, 5, 3, 20000)]))
    f_map.campaign(b, chk, 'large grids', [f_map.large('G11', k) for k in range(quick(40, 600))])


def G23(b, chk):
    f_map.campaign(b, chk, 'histories', many(f_map.g23, quick(2000, 20000)))
    f_map.from_spec(b, chk, quick([(2, 2, [], 1, 2, 6, 0, 1000), (2, 1, [], 2, 2, 7, 1, 500)], [(2, 2, [], 1, 2, 7, 0, 15000), (2, 1, [], 2, 2, 8, 1, 15000)]))
    f_map.campaign(b, chk, 'large grids', [f_map.large('G23', k) for k in range(quick(40, 600))])


def polymc(chk, *cases):
    for m, l, laws in cases:
        chk.model('PolyMC M=%d L=%d %s' % (m, l, laws), 'PolyMC',
                  'CONSTANTS M = %d\nL = %d\nINIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n' % (m, l, laws))


def kdmc(chk, laws, *cases):
    for d, m, n in cases:
        chk.model('KdMC D=%d M=%d N=%d %s' % (d, m, n, laws), 'KdMC',
                  'CONSTANTS D = %d\nM = %d\nN = %d\nINIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n' % (d, m, n, laws))


def G06(b, chk):
    polymc(chk, (3, 3, 'CompactLaw ScanLaw'), *quick([], [(3, 5, 'CompactLaw ScanLaw')]))
    f_poly.campaign(b, chk, 'compaction and boundaries', many(f_poly.g06, quick(3000, 30000)))
    f_tools.campaign(b, chk, 'getbound', many(f_tools.gbound, quick(200, 2000)))
    f_poly.campaign(b, chk, 'long polylines', [f_poly.large('G06', k) for k in range(quick(40, 500))])


KDGEN = quick([(2, 2, 4, 2, 500), (2, 3, 3, 2, 400), (3, 2, 3, 2, 300)],
              [(2, 2, 4, 2, 20000), (2, 2, 5, 1, 2000), (2, 3, 3, 2, 12000), (3, 2, 3, 2, 8000), (1, 3, 4, 3, 10000)])


def G12(b, chk):
    kdmc(chk, 'Structure NearestLaw', *quick([(2, 2, 5), (1, 4, 5)], [(2, 3, 4), (2, 2, 6), (1, 4, 6)]))
    f_kd.campaign(b, chk, 'nearest point', many(f_kd.g12, quick(700, 8000)))
    f_kd.from_spec(b, chk, 'near', KDGEN)
    f_kd.campaign(b, chk, 'large trees', many(f_kd.big, quick(40, 200)))
    f_kd.campaign(b, chk, 'huge trees', [f_kd.huge('near', k) for k in range(quick(2, 12))])


def G13(b, chk):
    kdmc(chk, 'Structure RangeLaw OrderLaw', *quick([(2, 2, 5), (1, 4, 5)], [(2, 3, 4), (2, 2, 6), (1, 4, 6)]))
    f_kd.campaign(b, chk, 'range', many(f_kd.g13, quick(700, 8000)))
    f_kd.from_spec(b, chk, 'range', KDGEN)
    f_kd.campaign(b, chk, 'large trees', many(f_kd.big, quick(40, 200)))
    f_kd.campaign(b, chk, 'huge trees', [f_kd.huge('range', k) for k in range(quick(2, 12))])


def G14(b, chk):
    kdmc(chk, 'Structure', *quick([(2, 2, 5), (1, 4, 5)], [(2, 3, 5), (2, 2, 6), (1, 4, 6)]))
    f_kd.campaign(b, chk, 'histories', many(f_kd.g14, quick(700, 8000)))
    f_kd.from_spec(b, chk, 'dump', KDGEN)
    f_kd.campaign(b, chk, 'large trees', many(f_kd.big, quick(40, 200)))
    f_kd.campaign(b, chk, 'huge trees', [f_kd.huge('dump', k) for k in range(quick(2, 12))])


def G15(b, chk):
    polymc(chk, *quick([(3, 3, 'RayLaw AlgLaw RotLaw RepeatLaw')], [(3, 4, 'RayLaw AlgLaw RotLaw'), (2, 5, 'RepeatLaw')]))
    f_poly.campaign(b, chk, 'every small polygon', f_poly.g15_all(3) + f_poly.g15_all(4) + quick([], f_poly.g15_all(5)))
    f_poly.campaign(b, chk, 'polygons', many(f_poly.g15, quick(3000, 30000)))
    f_poly.campaign(b, chk, 'long polylines', [f_poly.large('G15', k) for k in range(quick(40, 500))])


def G16(b, chk):
    polymc(chk, (3, 3, 'ScanLaw AlgLaw'))
    f_poly.campaign(b, chk, 'operations', many(f_poly.g16, quick(4000, 40000)))
    f_poly.from_spec(b, chk, 'transitions of Poly', [0, 2], 3, *quick((4, 2500), (5, 40000)))
    f_poly.from_spec(b, chk, 'walks of Poly', [0, 2, 6], 8, 40, quick(40, 600), simulate=quick((40, 40), (600, 40)))
    f_poly.campaign(b, chk, 'growth', many(f_poly.g16_grow, quick(60, 600)))
    f_poly.campaign(b, chk, 'long polylines', [f_poly.large('G16', k) for k in range(quick(40, 500))])


def G17(b, chk):
    polymc(chk, *quick([(3, 3, 'AreaLaw RotLaw')], [(3, 4, 'AreaLaw RotLaw')]))
    f_poly.campaign(b, chk, 'areas', many(f_poly.g17, quick(3000, 30000)))
    f_poly.campaign(b, chk, 'text', many(f_poly.g17_io, quick(1500, 12000)))
    f_poly.streams_from_spec(b, chk, *quick((3, 3, 3, 900), (4, 3, 3, 6000)))
    f_poly.campaign(b, chk, 'long polylines', [f_poly.large('G17', k) for k in range(quick(40, 500))])


def G18(b, chk):
    f_tools.campaign(b, chk, 'files', many(f_tools.g18, quick(800, 8000)))
    f_tools.campaign(b, chk, 'long files', [f_tools.large(f_tools.g18, k) for k in range(quick(24, 300))])


def G20(b, chk):
    gridmc(chk, *quick([('CO', 3, 3)], [('CO', 3, 3), ('DD', 3, 3)]))
    f_tools.campaign(b, chk, 'insertions', many(f_tools.g20, quick(800, 8000)))
    f_tools.from_spec(b, chk, quick([(2, 2, 2, ['NO'], False, 1, 0, 400), (2, 2, 1, ['CO', 'DD', 'CE'], False, 1, 0, 200), (2, 2, 2, ['NO', 'CE'], False, 3, 40, 100)],
                                    [(2, 2, 2, ['NO'], False, 1, 0, 5000), (2, 2, 1, ['CO', 'DD', 'CE'], False, 1, 0, 4000), (3, 2, 2, ['NO', 'CE', 'DD', 'CO'], False, 4, 2000, 3000)]), ('insert',))
    f_tools.campaign(b, chk, 'long files', [f_tools.large(f_tools.g20, k) for k in range(quick(24, 300))])


def G21(b, chk):
    f_tools.campaign(b, chk, 'ranges', many(f_tools.g21, quick(1000, 10000)))
    f_tools.campaign(b, chk, 'long files', [f_tools.large(f_tools.g21, k) for k in range(quick(24, 300))])


def G22(b, chk):
    f_tools.campaign(b, chk, 'conversions', many(f_tools.g22, quick(800, 8000)))
    f_tools.campaign(b, chk, 'long files', [f_tools.large(f_tools.g22, k) for k in range(quick(24, 300))])


def G26(b, chk):
    f_tools.campaign(b, chk, 'unfolding', many(f_tools.g26, quick(1000, 10000)))
    f_tools.campaign(b, chk, 'long files', [f_tools.large(f_tools.g26, k) for k in range(quick(24, 300))])


def G27(b, chk):
    f_tools.campaign(b, chk, 'bad input', many(f_tools.g27, quick(1500, 12000)))
    f_tools.campaign(b, chk, 'mask files', many(f_tools.gmask, quick(200, 2000)))
    f_tools.campaign(b, chk, 'long files', [f_tools.large(f_tools.gmask, k) for k in range(quick(24, 300))])


def G24(b, chk):
    chk.model('FixedMC', 'FixedMC', 'CONSTANT N = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS RootLaw RatioLaw AngleLaw\n' % quick(40, 200))
    f_tools.campaign(b, chk, 'figures', many(f_tools.g24, quick(1000, 10000)))


def G25(b, chk):
    f_tools.campaign(b, chk, 'gridbathy', many(f_tools.g25, quick(2000, 20000)))


def G29(b, chk):
    chk.model('KdProgMC', 'KdProgMC', 'CONSTANTS Step = %d\nN = %d\nINIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\nINVARIANTS SphereLaw EvenLaw PrintLaw\n' % quick((2, 200), (1, 2000)))
    f_kdprog.campaign(b, chk, 'runs of kd', many(f_kdprog.g29, quick(1500, 15000)))


def G30(b, chk):
    chk.model('StorageMC', 'StorageMC', 'CONSTANT Most = %d\nINIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\nINVARIANTS Accounted NothingLeft FilesLaw\n' % quick(4, 8))
    f_store.run(b, chk)


def G31(b, chk):
    f_cmd.run(b, chk)
