"""Plotting: S01-S07 and the slice plotting entry points of F03."""
from ..oblig import *
from .coeffs import CO
from .zdi import coeffs
from .pfss import PF, _map

OBS = []


def ob(*a, **k):
    k.setdefault("frame", False)
    OBS.append(Ob(*a, **k))


PLH = '''
import matplotlib.pyplot as plt
from starwinds_magnetogram import zdi_magnetogram as zm
from starwinds_magnetogram import geometry as ge
from starwinds_magnetogram import plots
from starwinds_magnetogram import plot_zdi as pz
from starwinds_magnetogram import plot_pfss as pp
from starwinds_magnetogram import plot_lsd as pl
from starwinds_magnetogram import longitudinal_field as lf

ORDER = {"pcolormesh": ["X", "Y", "C"], "contour": ["X", "Y", "Z", "levels"], "streamplot": ["x", "y", "u", "v"], "imshow": ["X"],
         "plot": ["x", "y"], "errorbar": ["x", "y", "yerr"], "scatter": ["x", "y", "s", "c"], "semilogy": ["x", "y"], "set_title": ["label"],
         "set_xlabel": ["xlabel"], "set_ylabel": ["ylabel"], "savefig": ["fname"], "legend": ["handles", "labels"], "pie": ["x"],
         "set_ticks": ["ticks"], "set_ticklabels": ["labels"], "axhline": ["y"]}
def value(r, name, default=None):
    """argument of a recorded call, by position or keyword"""
    o = ORDER[r[1]]
    if name in o:
        i = o.index(name)
        if len(r[2]) > i:
            return r[2][i]
    if name in r[3]:
        return r[3][name]
    return default
def calls(name, who=None):
    return [r for r in vc_calls(name) if who is None or r[0] == who]
def values(name, who, *keys):
    return [tuple([value(r, k) for k in keys]) for r in calls(name, who)]
def limits(r):
    """colour limits set by a call"""
    if len(r[2]) == 2:
        return r[2][0], r[2][1]
    if len(r[2]) == 1 and not r[3]:
        return r[2][0][0], r[2][0][1]
    return r[3]["vmin"] if "vmin" in r[3] else None, r[3]["vmax"] if "vmax" in r[3] else (r[2][1] if len(r[2]) > 1 else None)
def deg(x):
    return x * (180 / math.pi)
'''
PL = CO + PLH


def maps(h):
    a, b = h.size("MA", 2, 4), h.size("MB", 2, 4)
    return [h.arr("mt", [a, b], "f", lo=0.1, hi=3.0), h.arr("mp", [a, b], "f", lo=0.0, hi=6.2), h.arr("mf", [a, b], "f"),
            h.arr("mtc", [add(a, ONE), add(b, ONE)], "f", lo=0.0, hi=3.1), h.arr("mpc", [add(a, ONE), add(b, ONE)], "f", lo=0.0, hi=6.2)]


def maps3(h):
    a, b = h.size("MA", 2, 4), h.size("MB", 2, 4)
    t, p, f, tc, pc = maps(h)
    return [t, p, h.arr("mb", [const(3), a, b], "f"), tc, pc]


# ------------------------------------------------------------------ one field
_M = "plots:plot_magnetic_field"
for _c, _extra, _x, _y in (("corners", ", polar_corners=tc, azimuth_corners=pc", "pc", "tc"), ("centers", "", "p", "t"),
                           ("one_corner", ", azimuth_corners=pc", "p", "t")):
    ob("S03_field_" + _c, PL + '''
def impl(t, p, f, tc, pc):
    img, zero = plots.plot_magnetic_field(vc_obj("ax"), t, p, f%s)
    return values("pcolormesh", "ax", "X", "Y", "C"), calls("contour", "plt"), len(calls("invert_yaxis", "ax"))
def spec(t, p, f, tc, pc):
    return [(deg(%s), deg(%s), f)], [], 1
''' % (_extra, _x, _y), maps, _M, prop="S03")
ob("S03_field_zero_line", PL + '''
def impl(t, p, f, tc, pc):
    plots.plot_magnetic_field(vc_obj("ax"), t, p, f, tc, pc, symmetric=True)
    return values("contour", "ax", "X", "Y", "Z")
def spec(t, p, f, tc, pc):
    return [(deg(p), deg(t), f)]
''', maps, _M, prop="S03")
ob("S03_equirectangular", PL + '''
def impl(tc, pc, f):
    plots.plot_equirectangular(ge.ZdiGeometry(tc, pc), f, vc_obj("ax"))
    return values("pcolormesh", "ax", "X", "Y", "C"), [("phi" in value(r, "xlabel"), "theta" in value(r, "xlabel")) for r in calls("set_xlabel")], len(calls("invert_yaxis", "ax"))
def spec(tc, pc, f):
    t, p = ge.ZdiGeometry(tc, pc).corners()
    return [(deg(p.T), deg(t.T), f.T)], [(True, False)], 1
''', lambda h: [h.arr("etc", [h.size("T", 2, 4)], "f", lo=0.2, hi=2.9), h.arr("epc", [h.size("F", 2, 4)], "f", lo=0.1, hi=6.2),
                h.arr("ef", [sub(h.size("F", 2, 4), ONE), sub(h.size("T", 2, 4), ONE)], "f")], "plots:plot_equirectangular", prop="S03")
ob("S03_equirectangular_zero", PL + '''
def impl(tc, pc, f):
    plots.plot_equirectangular(ge.ZdiGeometry(tc, pc), f, vc_obj("ax"))
    return [(value(r, "X"), value(r, "Y"), value(r, "Z")) for r in calls("contour", "ax")]
def spec(tc, pc, f):
    t, p = ge.ZdiGeometry(tc, pc).centers()
    if np.min(f) < 0 and np.max(f) > 0:
        return [(deg(p.T), deg(t.T), f.T)]
    return []
''', lambda h: [h.arr("etc", [h.size("T", 2, 4)], "f", lo=0.2, hi=2.9), h.arr("epc", [h.size("F", 2, 4)], "f", lo=0.1, hi=6.2),
                h.arr("ef", [sub(h.size("F", 2, 4), ONE), sub(h.size("T", 2, 4), ONE)], "f")], "plots:plot_equirectangular", prop="S03")
ob("S03_extrema", PL + '''
def impl(t, p, f, tc, pc):
    low, high = plots.add_extrema(t, p, f, vc_obj("ax"), "Q", "xo")
    return low, high, [(value(r, "x"), value(r, "y"), r[3]["marker"], r[3]["label"].split("=")[0]) for r in calls("plot", "ax")]
def spec(t, p, f, tc, pc):
    i, j = np.unravel_index(np.argmax(f), f.shape)
    k, l = np.unravel_index(np.argmin(f), f.shape)
    return np.min(f), np.max(f), [(deg(p[i, j]), deg(t[i, j]), "x", "Max $Q"), (deg(p[k, l]), deg(t[k, l]), "o", "Min $Q")]
''', maps, "plots:add_extrema", prop="S03")
ob("S03_extrema_values", PL + '''
def impl(t, p, f, tc, pc):
    plots.add_extrema(t, p, f, vc_obj("ax"), "Q", "xo")
    return [r[3]["label"] for r in calls("plot", "ax")]
def spec(t, p, f, tc, pc):
    return ["Max $Q=" + plots.latex_float(np.max(f)) + "$ G", "Min $Q=" + plots.latex_float(np.min(f)) + "$ G"]
''', maps, "plots:add_extrema", prop="S03")
ob("S03_contours", PL + '''
def impl(t, p, f, tc, pc):
    plots.add_contours(t, p, f, vc_obj("ax"), "Q", vc_obj("cb"))
    return values("contour", "ax", "X", "Y", "Z", "levels")
def spec(t, p, f, tc, pc):
    return [(deg(p), deg(t), f, vc_obj("cb").get_ticks())]
''', maps, "plots:add_contours", prop="S03")

# ------------------------------------------------------------------ three components
_LAB = "('B_r', 'B_\\\\theta', 'B_\\\\phi')"
PANELS = '''
LAB = ("B_r", "B_\\\\theta", "B_\\\\phi")
def panels(axes, field):
    """what each panel shows"""
    out = []
    for i in range(3):
        who = axes[i]
        out.append((values("pcolormesh", who, "X", "Y", "C"), [r[3]["label"].split("=")[0] for r in calls("plot", who)],
                    [[s in value(r, "label") for s in LAB] for r in calls("set_title", who)][-1], len(calls("invert_yaxis", who)),
                    [("phi" in value(r, "xlabel"), "theta" in value(r, "xlabel")) for r in calls("set_xlabel", who)][-1]))
    return out
def wanted(x, y, comps):
    return [([(deg(x), deg(y), comps[i])], ["Max $" + LAB[i], "Min $" + LAB[i]], [LAB[i] == s for s in LAB], 1, (True, False)) for i in range(3)]
'''
_PC = "plots:plot_components"
ob("S03_components", PL + PANELS + '''
def impl(t, p, b, tc, pc):
    fig, axs = plt.subplots(1, 3)
    plots.plot_components(t, p, b, axs, pc, tc)
    return panels(["fig1.axes0", "fig1.axes1", "fig1.axes2"], b)
def spec(t, p, b, tc, pc):
    return wanted(pc, tc, b)
''', maps3, _PC, prop="S03", n=12)
ob("S03_components_tuple", PL + PANELS + '''
def impl(t, p, b, tc, pc):
    fig, axs = plt.subplots(1, 3)
    plots.plot_components(t, p, (b[0], b[1], b[2]), axs, azimuth_corners=pc, polar_corners=tc)
    return panels(["fig1.axes0", "fig1.axes1", "fig1.axes2"], b)
def spec(t, p, b, tc, pc):
    return wanted(pc, tc, b)
''', maps3, _PC, prop="S03", n=12)
ob("S03_components_centers", PL + PANELS + '''
def impl(t, p, b, tc, pc):
    fig, axs = plt.subplots(1, 3)
    plots.plot_components(t, p, b, axs)
    return panels(["fig1.axes0", "fig1.axes1", "fig1.axes2"], b)
def spec(t, p, b, tc, pc):
    return wanted(p, t, b)
''', maps3, _PC, prop="S03", n=12)
_G = lambda h: [h.arr("tc", [h.size("T", 2, 4)], "f", lo=0.2, hi=2.9), h.arr("pc", [h.size("F", 2, 4)], "f", lo=0.1, hi=6.2)]
for _t, _gs in (("None", ("get_radial_field", "get_polar_field", "get_azimuthal_field")),
                ('"poloidal"', ("get_radial_poloidal_field", "get_polar_poloidal_field_new", "get_azimuthal_poloidal_field")),
                ('"toroidal"', ("get_radial_toroidal_field", "get_polar_toroidal_field", "get_azimuthal_toroidal_field_new"))):
    ob("S03_zdi_components_" + _t.strip('"'), PL + PANELS + '''
def impl(ls, ms, a, b, g, tc, pc):
    pz.plot_zdi_components(zm.ZdiMagnetogram(ls, ms, a, b, g), zg=ge.ZdiGeometry(tc, pc), term=%s)
    return panels(["fig1.axes0", "fig1.axes1", "fig1.axes2"], None)
def spec(ls, ms, a, b, g, tc, pc):
    z, y = zm.ZdiMagnetogram(ls, ms, a, b, g), ge.ZdiGeometry(tc, pc)
    t, p = y.centers()
    q, s = y.corners()
    return wanted(s, q, [z.%s(t, p), z.%s(t, p), z.%s(t, p)])
''' % ((_t,) + _gs), lambda h: coeffs(h) + _G(h), "plot_zdi:plot_zdi_components", prop="S03", n=10)
ob("S03_zdi_field", PL + '''
def impl(ls, ms, a, b, g, tc, pc):
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    fig, ax = pz.plot_zdi_field(z.get_polar_field, zg=ge.ZdiGeometry(tc, pc), legend_str="Q")
    return values("pcolormesh", None, "X", "Y", "C"), [r[3]["label"].split("=")[0] for r in calls("plot") if "label" in r[3]]
def spec(ls, ms, a, b, g, tc, pc):
    z, y = zm.ZdiMagnetogram(ls, ms, a, b, g), ge.ZdiGeometry(tc, pc)
    t, p = y.centers()
    q, s = y.corners()
    return [(deg(s), deg(q), z.get_polar_field(t, p))], ["Max $Q", "Min $Q"]
''', lambda h: coeffs(h) + _G(h), "plot_zdi:plot_zdi_field", prop="S03", n=10)
ob("S03_zdi_mean", PL + '''
def impl(ls, ms, a, b, g, tc, pc):
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    pz.plot_zdi_field(z.get_radial_field, zg=ge.ZdiGeometry(tc, pc))
    return calls("text")[0][2][2]
def spec(ls, ms, a, b, g, tc, pc):
    z, y = zm.ZdiMagnetogram(ls, ms, a, b, g), ge.ZdiGeometry(tc, pc)
    return f"abs mean: {np.sum(np.abs(z.get_radial_field(*y.centers())) * y.areas()) / (4 * np.pi):.3G} G "
''', lambda h: coeffs(h) + _G(h), "plot_zdi:plot_zdi_field", prop="S03", n=10)
ob("S03_zdi_streams", PL + '''
def impl(ls, ms, a, b, g, tc, pc):
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    pz.plot_streamtraces(z, ge.ZdiGeometry(tc, pc))
    return values("streamplot", None, "x", "y", "u", "v"), values("pcolormesh", None, "X", "Y", "C")
def spec(ls, ms, a, b, g, tc, pc):
    z, y = zm.ZdiMagnetogram(ls, ms, a, b, g), ge.ZdiGeometry(tc, pc)
    t, p = y.centers()
    q, s = y.corners()
    return ([(deg(p.T), deg(t.T), z.get_azimuthal_field(t, p).T, z.get_polar_field(t, p).T)],
            [(deg(s.T), deg(q.T), z.get_field_strength(t, p).T)])
''', lambda h: coeffs(h) + _G(h), "plot_zdi:plot_streamtraces", prop="S03", n=10)

# ------------------------------------------------------------------ source-surface plots
def pf(h):
    return [_map(h)] + _G(h) + [h.real("r0", 0.5, 1.2), h.real("rss", 1.5, 4)]


_PP = "plot_pfss:plot_components"
ob("S03_pfss_components", PL + PF + PANELS + '''
def impl(ia, tc, pc, r, rss):
    pp.plot_components(build(ia, 1), geometry=ge.ZdiGeometry(tc, pc), radius=r, radius_source_surface=rss)
    return panels(["fig1.axes0", "fig1.axes1", "fig1.axes2"], None)
def spec(ia, tc, pc, r, rss):
    t, p = ge.ZdiGeometry(tc, pc).centers()
    return wanted(p, t, pm.evaluate_spherical(build(ia, 1), r, t, p, 1, rss))
''', pf, _PP, prop=["S03", "S01"], n=6)
ob("S03_pfss_components_default", PL + PF + PANELS + '''
def impl(ia, tc, pc, r, rss):
    pp.plot_components(build(ia, 1), geometry=ge.ZdiGeometry(tc, pc))
    return panels(["fig1.axes0", "fig1.axes1", "fig1.axes2"], None)
def spec(ia, tc, pc, r, rss):
    t, p = ge.ZdiGeometry(tc, pc).centers()
    return wanted(p, t, pm.evaluate_spherical(build(ia, 1), 1, t, p, 1, 2.5))
''', pf, _PP, prop="S03", n=6)
ob("S03_pfss_streams", PL + PF + '''
def impl(ia, tc, pc, r, rss):
    pp.plot_streamtraces(build(ia, 1), ge.ZdiGeometry(tc, pc))
    return values("streamplot", None, "x", "y", "u", "v"), values("pcolormesh", None, "X", "Y", "C")
def spec(ia, tc, pc, r, rss):
    y = ge.ZdiGeometry(tc, pc)
    t, p = y.centers()
    q, s = y.corners()
    b = pm.evaluate_spherical(build(ia, 1), 1, t, p)
    return [(deg(p.T), deg(t.T), b[2].T, b[1].T)], [(deg(s.T), deg(q.T), b[0].T)]
''', pf, "plot_pfss:plot_streamtraces", prop="S03", n=6)
ob("S03_pfss_streams_zero", PL + PF + '''
def impl(ia, tc, pc, r, rss):
    pp.plot_streamtraces(build(ia, 1), ge.ZdiGeometry(tc, pc))
    return [(value(r, "X"), value(r, "Y"), value(r, "Z")) for r in calls("contour") if r[3]["colors"] != ("k",)]
def spec(ia, tc, pc, r, rss):
    t, p = ge.ZdiGeometry(tc, pc).centers()
    b = pm.evaluate_spherical(build(ia, 1), 1, t, p)
    return [(deg(p.T), deg(t.T), b[0].T), (deg(p.T), deg(t.T), b[1].T), (deg(p.T), deg(t.T), b[2].T)]
''', pf, "plot_pfss:plot_streamtraces", prop="S03", n=6)

# ------------------------------------------------------------------ slices
SLICE = '''
def place(a, b, axis):
    """points of the plane with in-plane coordinates a and b"""
    z = np.zeros(a.shape)
    if axis == "x": return z, a, b
    if axis == "y": return a, z, b
    return a, b, z
'''
sl = lambda h: [_map(h), h.real("rmax", 0.5, 6), h.real("r0", 0.5, 1.2), h.real("rss", 1.5, 4)]
_SL = "plot_pfss:plot_slice"
for _n, _i, _j in (("x", 1, 2), ("y", 0, 2), ("z", 0, 1)):
    ob("S04_slice_" + _n, PL + PF + SLICE + '''
def impl(ia, rmax, r0, rss):
    pp.plot_slice(build(ia, 1), "%(n)s", rmax, rss, r0)
    return [value(r, "C") for r in calls("pcolormesh")], values("streamplot", None, "u", "v")
def spec(ia, rmax, r0, rss):
    pp.plot_slice(build(ia, 1), "%(n)s", rmax, rss, r0)
    a, b = values("pcolormesh", None, "X", "Y")[0]
    f = pm.evaluate_cartesian(build(ia, 1), *place(a, b, "%(n)s"), r0, rss)
    return [f[0]], [(f[%(i)d], f[%(j)d])]
''' % dict(n=_n, i=3 + _i, j=3 + _j), sl, _SL, prop="S04", n=6, widen="plot_pfss")
    ob("S04_grid_" + _n, PL + PF + SLICE + '''
def impl(ia, rmax, r0, rss):
    pp.plot_slice(build(ia, 1), "%(n)s", rmax, rss, r0)
    a, b = values("pcolormesh", None, "X", "Y")[0]
    return values("streamplot", None, "x", "y"), values("contour", None, "X", "Y", "Z", "levels"), [a[0, 0], a[-1, -1], b[0, 0], b[-1, -1]], a, b
def spec(ia, rmax, r0, rss):
    pp.plot_slice(build(ia, 1), "%(n)s", rmax, rss, r0)
    a, b = values("pcolormesh", None, "X", "Y")[0]
    n, m = a.shape
    return ([(a, b)], [(a, b, np.sqrt(a * a + b * b), [r0, rss])], [-rmax, rmax, -rmax, rmax],
            np.array([[rmax * (2 * j / (m - 1) - 1) for j in range(m)] for i in range(n)]), np.array([[rmax * (2 * i / (n - 1) - 1) for j in range(m)] for i in range(n)]))
''' % dict(n=_n), sl, _SL, prop=["S04", "S01"], n=6, widen="plot_pfss")
    ob("S04_labels_" + _n, PL + PF + SLICE + '''
def impl(ia, rmax, r0, rss):
    pp.plot_slice(build(ia, 1), "%s", rmax, rss, r0)
    return ([[c + "/r" in value(r, "xlabel") for c in "xyz"] for r in calls("set_xlabel")], [[c + "/r" in value(r, "ylabel") for c in "xyz"] for r in calls("set_ylabel")])
def spec(ia, rmax, r0, rss):
    return [[c == "%s" for c in "xyz"]], [[c == "%s" for c in "xyz"]]
''' % (_n, "xyz"[_i], "xyz"[_j]), sl, _SL, prop="S04", n=6, widen="plot_pfss")
    ob("S04_plane_" + _n, PL + PF + SLICE + '''
def impl(a, b):
    return pm.normal_plane(a, b, "%s")
def spec(a, b):
    z = np.zeros(a.shape + (1,))
    u, v = a.reshape(a.shape + (1,)), b.reshape(a.shape + (1,))
    return %s
''' % (_n, ["(z, u, v)", "(u, z, v)", "(u, v, z)"]["xyz".index(_n)]), lambda h: [h.arr("pa", [h.size("MA", 1, 4), h.size("MB", 1, 4)], "f"), h.arr("pb", [h.size("MA", 1, 4), h.size("MB", 1, 4)], "f")],
       "pfss_magnetogram:normal_plane", prop=["S04", "F02"])
ob("S04_default", PL + PF + SLICE + '''
def impl(ia, rmax, r0, rss):
    pp.plot_slice(build(ia, 1))
    return [value(r, "C") for r in calls("pcolormesh")], values("streamplot", None, "u", "v"), [value(r, "levels") for r in calls("contour")]
def spec(ia, rmax, r0, rss):
    pp.plot_slice(build(ia, 1))
    a, b = values("pcolormesh", None, "X", "Y")[0]
    f = pm.evaluate_cartesian(build(ia, 1), *place(a, b, "x"))
    return [f[0]], [(f[4], f[5])], [[1, 2.5]]
''', sl, _SL, prop=["S04", "F03"], n=6, widen="plot_pfss")
for _w in ('"w"', '"X"', '"xy"', '""', 'None', '0'):
    ob("S04_unknown_" + _w.strip('"'), PL + PF + SLICE + '''
def impl(ia, rmax, r0, rss):
    pp.plot_slice(build(ia, 1), %s, rmax, rss, r0)
    return 1
def spec(ia, rmax, r0, rss):
    raise ValueError
''' % _w, sl, _SL, prop="S04", n=6, aborts=True, widen="plot_pfss")
    ob("S04_unknown_plane_" + _w.strip('"'), PL + PF + SLICE + '''
def impl(a, b):
    pm.normal_plane(a, b, %s)
    return 1
def spec(a, b):
    raise ValueError
''' % _w, lambda h: [h.arr("pa", [h.size("MA", 1, 4)], "f"), h.arr("pb", [h.size("MA", 1, 4)], "f")], "pfss_magnetogram:normal_plane", prop="S04", aborts=True)
ob("F03_order_slice", PL + PF + SLICE + '''
def impl(ia, r0, rss):
    if r0 < rss: return
    pp.plot_slice(build(ia, 1), "z", 3, rss, r0)
def spec(ia, r0, rss):
    if r0 >= rss: raise AssertionError
''', lambda h: [_map(h), h.real("r0", 0.3, 2.0), h.real("rss", 0.3, 4.0)], _SL, prop="F03", n=12, aborts=True, widen="plot_pfss")
ob("F03_order_slice_default", PL + PF + SLICE + '''
def impl(ia, r0, rss):
    if r0 >= 2.5: pp.plot_slice(build(ia, 1), "z", 3, radius_star=r0)
    if rss <= 1: pp.plot_slice(build(ia, 1), "z", 3, rss)
def spec(ia, r0, rss):
    if r0 >= 2.5 or rss <= 1: raise AssertionError
''', lambda h: [_map(h), h.real("r0x", 1.0, 4.0), h.real("rssx", 0.5, 4.0)], _SL, prop="F03", n=12, aborts=True, widen="plot_pfss")
ob("F03_negative_slice", PL + PF + SLICE + '''
def impl(ia):
    n = 0
    for (l, m) in ia:
        if m < 0: n += 1
    if n > 0: pp.plot_slice(build(ia, 1), "z", 3)
def spec(ia):
    for (l, m) in ia:
        if m < 0: raise AssertionError
''', lambda h: [_map(h)], _SL, prop="F03", n=12, aborts=True, widen="plot_pfss")

# ------------------------------------------------------------------ options
CL = '''
def clims(who):
    return [limits(r) for r in calls("set_clim")]
def kwargs(name, *keys):
    return [tuple([r[3][k] if k in r[3] else None for k in keys]) for r in calls(name)]
'''
PLC = PL + CL
_EQ = lambda h: [h.arr("etc", [h.size("T", 2, 4)], "f", lo=0.2, hi=2.9), h.arr("epc", [h.size("F", 2, 4)], "f", lo=0.1, hi=6.2),
                 h.arr("ef", [sub(h.size("F", 2, 4), ONE), sub(h.size("T", 2, 4), ONE)], "f"), h.real("lo"), h.real("hi"), h.string("cm")]
ob("S01_equirectangular", PLC + '''
def impl(tc, pc, f, lo, hi, cm):
    plots.plot_equirectangular(ge.ZdiGeometry(tc, pc), f, vc_obj("ax"), vmin=lo, vmax=hi, cmap=cm, norm=None)
    plots.plot_equirectangular(ge.ZdiGeometry(tc, pc), f, vc_obj("ax"), norm=vc_obj("norm"))
    return kwargs("pcolormesh", "vmin", "vmax", "cmap", "norm")
def spec(tc, pc, f, lo, hi, cm):
    return [(lo, hi, cm, None), (None, None, "RdBu_r", vc_obj("norm"))]
''', _EQ, "plots:plot_equirectangular", prop="S01")
_MM = lambda h: maps(h) + [h.string("cm"), h.flag("sym"), h.flag("zero"), h.real("top", 0.5, 20)]
ob("S01_field_cmap", PLC + '''
def impl(t, p, f, tc, pc, cm, sym, zero, top):
    plots.plot_magnetic_field(vc_obj("ax"), t, p, f, tc, pc, symmetric=sym, zero_contour=zero, cmap=cm, norm=vc_obj("norm"), abs_max=top)
    return kwargs("pcolormesh", "cmap", "norm")
def spec(t, p, f, tc, pc, cm, sym, zero, top):
    return [(cm, vc_obj("norm"))]
''', _MM, _M, prop="S01")
ob("S01_field_cmap_centers", PLC + '''
def impl(t, p, f, tc, pc, cm, sym, zero, top):
    plots.plot_magnetic_field(vc_obj("ax"), t, p, f, symmetric=sym, cmap=cm, norm=vc_obj("norm"))
    return kwargs("pcolormesh", "cmap", "norm")
def spec(t, p, f, tc, pc, cm, sym, zero, top):
    return [(cm, vc_obj("norm"))]
''', _MM, _M, prop="S01")
ob("S01_field_default_cmap", PLC + '''
def impl(t, p, f, tc, pc, cm, sym, zero, top):
    plots.plot_magnetic_field(vc_obj("ax"), t, p, f, tc, pc, symmetric=sym)
    plots.plot_magnetic_field(vc_obj("ax"), t, p, f, tc, pc)
    return kwargs("pcolormesh", "cmap")
def spec(t, p, f, tc, pc, cm, sym, zero, top):
    return [("RdBu_r" if sym else "viridis",), ("RdBu_r" if np.min(f) < 0 and np.max(f) > 0 else "viridis",)]
''', _MM, _M, prop="S01")
ob("S01_field_zero_contour", PLC + '''
def impl(t, p, f, tc, pc, cm, sym, zero, top):
    img, z = plots.plot_magnetic_field(vc_obj("ax"), t, p, f, tc, pc, symmetric=sym, zero_contour=zero)
    return len(calls("contour")), z is None
def spec(t, p, f, tc, pc, cm, sym, zero, top):
    return (1, False) if sym and zero else (0, True)
''', _MM, _M, prop="S01")
ob("S01_field_zero_contour_default", PLC + '''
def impl(t, p, f, tc, pc, cm, sym, zero, top):
    img, z = plots.plot_magnetic_field(vc_obj("ax"), t, p, f, tc, pc)
    return len(calls("contour")), z is None
def spec(t, p, f, tc, pc, cm, sym, zero, top):
    return (1, False) if np.min(f) < 0 and np.max(f) > 0 else (0, True)
''', _MM, _M, prop="S01")
ob("S01_field_abs_max", PLC + '''
def impl(t, p, f, tc, pc, cm, sym, zero, top):
    plots.plot_magnetic_field(vc_obj("ax"), t, p, f, tc, pc, symmetric=False, abs_max=top)
    return clims("ax")
def spec(t, p, f, tc, pc, cm, sym, zero, top):
    return [(None, top)]
''', _MM, _M, prop="S01")
ob("S01_field_symmetric", PLC + '''
def impl(t, p, f, tc, pc, cm, sym, zero, top):
    plots.plot_magnetic_field(vc_obj("ax"), t, p, f, tc, pc, symmetric=sym)
    return [a + b for a, b in clims("ax")], len(clims("ax"))
def spec(t, p, f, tc, pc, cm, sym, zero, top):
    return ([0.0], 1) if sym else ([], 0)
''', _MM, _M, prop="S01")
ob("S01_field_symmetric_default", PLC + '''
def impl(t, p, f, tc, pc, cm, sym, zero, top):
    plots.plot_magnetic_field(vc_obj("ax"), t, p, f, tc, pc)
    return [a + b for a, b in clims("ax")], len(clims("ax"))
def spec(t, p, f, tc, pc, cm, sym, zero, top):
    return ([0.0], 1) if np.min(f) < 0 and np.max(f) > 0 else ([], 0)
''', _MM, _M, prop="S01")
_M3 = lambda h: maps3(h) + [h.string("cm"), h.flag("sym"), h.real("rr", 0.5, 20)]
ob("S01_components_cmap", PLC + '''
def impl(t, p, b, tc, pc, cm, sym, rr):
    fig, axs = plt.subplots(1, 3)
    plots.plot_components(t, p, b, axs, pc, tc, symmetric=sym, cmap=cm)
    return kwargs("pcolormesh", "cmap"), len([r for r in calls("contour") if r[3]["colors"] == "k" and "linestyles" not in r[3]])
def spec(t, p, b, tc, pc, cm, sym, rr):
    return [(cm,), (cm,), (cm,)], 3 if sym else 0
''', _M3, _PC, prop="S01", n=8)
ob("S01_components_radius", PLC + '''
def impl(t, p, b, tc, pc, cm, sym, rr):
    fig, axs = plt.subplots(1, 3)
    plots.plot_components(t, p, b, axs, pc, tc, radius=rr)
    plots.plot_components(t, p, b, axs, pc, tc)
    return [(("%2.1f" % rr) in value(r, "label"), "1.0" in value(r, "label")) for r in calls("set_title")]
def spec(t, p, b, tc, pc, cm, sym, rr):
    return [(True, "1.0" in ("%2.1f" % rr))] * 3 + [(("%2.1f" % rr) == "1.0", True)] * 3
''', _M3, _PC, prop="S01", n=8)
ob("S01_components_common_scale", PLC + '''
def impl(t, p, b, tc, pc, cm, sym, rr):
    fig, axs = plt.subplots(1, 3)
    plots.plot_components(t, p, b, axs, pc, tc, symmetric=False)
    return [hi for lo, hi in clims("")]
def spec(t, p, b, tc, pc, cm, sym, rr):
    return [np.max(np.abs(b))] * 3
''', _M3, _PC, prop="S03", n=8)
ob("S01_extrema", PLC + '''
def impl(t, p, f, tc, pc, cm, sym, zero, top):
    plots.add_extrema(t, p, f, vc_obj("ax"), legend_str=cm, markers="<v", color="r")
    return kwargs("plot", "marker", "color"), [r[3]["label"].split("=")[0] for r in calls("plot")]
def spec(t, p, f, tc, pc, cm, sym, zero, top):
    return [("<", "r"), ("v", "r")], ["Max $" + cm, "Min $" + cm]
''', lambda h: maps(h) + [St("Q_z"), h.flag("sym"), h.flag("zero"), h.real("top", 0.5, 20)], "plots:add_extrema", prop="S01")
ob("S01_contours", PLC + '''
def impl(t, p, f, tc, pc, cm, sym, zero, top):
    plots.add_contours(t, p, f, vc_obj("ax"), "Q", vc_obj("cb"), cm)
    plots.add_contours(t, p, f, vc_obj("ax"), "Q", vc_obj("cb"))
    return kwargs("contour", "linestyles")
def spec(t, p, f, tc, pc, cm, sym, zero, top):
    return [(cm,), ("dashed",)]
''', _MM, "plots:add_contours", prop="S01")

# ZDI maps
ZG = lambda h: coeffs(h) + _G(h) + [h.string("cm"), h.flag("sym"), h.real("rr", 0.5, 20)]
ZA = '(ls, ms, a, b, g, tc, pc, cm, sym, rr)'
ob("S01_zdi_components", PLC + '''
def impl%s:
    axs = [vc_obj("u"), vc_obj("v"), vc_obj("w")]
    pz.plot_zdi_components(zm.ZdiMagnetogram(ls, ms, a, b, g), radius=rr, axs=axs, zg=ge.ZdiGeometry(tc, pc), symmetric=sym, cmap=cm)
    return kwargs("pcolormesh", "cmap"), [r[0] for r in calls("pcolormesh")], len([r for r in calls("contour") if r[3]["colors"] == "k" and "linestyles" not in r[3]]), \
        [("%%2.1f" %% rr) in value(r, "label") for r in calls("set_title")], len(calls("subplots"))
def spec%s:
    return [(cm,), (cm,), (cm,)], ["u", "v", "w"], 3 if sym else 0, [True, True, True], 0
''' % (ZA, ZA), ZG, "plot_zdi:plot_zdi_components", prop="S01", n=6)
ob("S01_zdi_components_unknown", PLC + '''
def impl%s:
    pz.plot_zdi_components(zm.ZdiMagnetogram(ls, ms, a, b, g), zg=ge.ZdiGeometry(tc, pc), term="radial")
    return 1
def spec%s:
    raise NotImplementedError
''' % (ZA, ZA), ZG, "plot_zdi:plot_zdi_components", prop=["S01", "N04"], n=6, aborts=True)
ob("S01_zdi_field", PLC + '''
def impl%s:
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    fig, ax = pz.plot_zdi_field(z.get_polar_field, ax=vc_obj("u"), zg=ge.ZdiGeometry(tc, pc), symmetric=sym, cmap=cm, legend_str="Q")
    return kwargs("pcolormesh", "cmap"), [r[0] for r in calls("pcolormesh")], len([r for r in calls("contour") if r[3]["colors"] == "k" and "linestyles" not in r[3]]), len(calls("subplots"))
def spec%s:
    return [(cm,)], ["u"], 1 if sym else 0, 0
''' % (ZA, ZA), ZG, "plot_zdi:plot_zdi_field", prop="S01", n=6)
ob("S01_zdi_streams", PLC + '''
def impl%s:
    ax = pz.plot_streamtraces(zm.ZdiMagnetogram(ls, ms, a, b, g), ge.ZdiGeometry(tc, pc), ax=vc_obj("u"))
    return [r[0] for r in calls("pcolormesh")], [r[0] for r in calls("streamplot")], len(calls("subplots")), ax
def spec%s:
    return ["u"], ["u"], 0, vc_obj("u")
''' % (ZA, ZA), ZG, "plot_zdi:plot_streamtraces", prop="S01", n=6)
ob("S01_zdi_default_grid", PLC + '''
def impl%s:
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    pz.plot_zdi_components(z)
    pz.plot_zdi_field(z.get_radial_field)
    pz.plot_streamtraces(z)
    return [(value(r, "X").shape, value(r, "Y").shape) for r in calls("pcolormesh")]
def spec%s:
    y = ge.ZdiGeometry()
    q, s = y.corners()
    return [(q.shape, s.shape)] * 4 + [(q.T.shape, s.T.shape)]
''' % (ZA, ZA), ZG, "plot_zdi:plot_zdi_field", prop="S01", n=4)

# source-surface maps
ob("S01_pfss_axes", PLC + PF + '''
def impl(ia, tc, pc, r, rss):
    pp.plot_components(build(ia, 1), geometry=ge.ZdiGeometry(tc, pc), axs=[vc_obj("u"), vc_obj("v"), vc_obj("w")], radius=r)
    return [x[0] for x in calls("pcolormesh")], [("%2.1f" % r) in value(x, "label") for x in calls("set_title")], len(calls("subplots"))
def spec(ia, tc, pc, r, rss):
    return ["u", "v", "w"], [True] * 3, 0
''', pf, _PP, prop="S01", n=6)

# ------------------------------------------------------------------ energy plots
EN = '''
def res(z):
    d = {}
    z.energy(dest=d)
    return d
def pies(who):
    return [(list(r[2][0]), r[3]) for r in calls("pie", who)]
def mats(z):
    r, p, t = z.energy_matrix()
    return {"total": p + t, "radial": r, "poloidal": p, "toroidal": t}
'''
PLE = PLC + EN
ZC = lambda h: coeffs(h)
ZA = '(ls, ms, a, b, g)'
_ES = "plot_zdi:plot_energy_summary"
ob("S02_summary_total", PLE + '''
def impl%s:
    fig, axs = pz.plot_energy_summary(zm.ZdiMagnetogram(ls, ms, a, b, g))
    return [x for x, k in pies("fig1.axes0")], [value(r, "label") for r in calls("set_title", "fig1.axes0")], [value(r, "labels") for r in calls("legend", "fig1.axes0")]
def spec%s:
    d = res(zm.ZdiMagnetogram(ls, ms, a, b, g))
    return ([[d["magnetogram.poloidal.energy.fraction"], d["magnetogram.toroidal.energy.fraction"]], [d["magnetogram.radial.energy.fraction"]],
             [d["magnetogram.total.energy.axisymmetric.fraction"]]], ["Total energy"], [["poloidal", "toroidal", "radial", "axisymmetric"]])
''' % (ZA, ZA), ZC, _ES, prop="S02", n=10)
ob("S02_summary_poloidal", PLE + '''
def impl%s:
    fig, axs = pz.plot_energy_summary(zm.ZdiMagnetogram(ls, ms, a, b, g))
    return [x for x, k in pies("fig1.axes1")], [value(r, "label") for r in calls("set_title", "fig1.axes1")], [value(r, "labels") for r in calls("legend", "fig1.axes1")]
def spec%s:
    d = res(zm.ZdiMagnetogram(ls, ms, a, b, g))
    return ([[d["magnetogram.total.energy.%%s.fraction" %% k] for k in ("dipole", "quadrupole", "octopole")], [d["magnetogram.total.energy.poloidal.axisymmetric.fraction"]]],
            ["Poloidal energy"], [["dipole", "quadrupole", "octopole", "axisymmetric"]])
''' % (ZA, ZA), ZC, _ES, prop="S02", n=10)
ob("S02_summary_toroidal", PLE + '''
def impl%s:
    fig, axs = pz.plot_energy_summary(zm.ZdiMagnetogram(ls, ms, a, b, g))
    return [x for x, k in pies("fig1.axes2")], [value(r, "label") for r in calls("set_title", "fig1.axes2")], [len(value(r, "labels")) for r in calls("legend", "fig1.axes2")]
def spec%s:
    d = res(zm.ZdiMagnetogram(ls, ms, a, b, g))
    if d["magnetogram.toroidal.energy.fraction"] == 0: return [], [], []
    return ([[d["magnetogram.total.energy.toroidal.l%%d.fraction" %% k] for k in (1, 2, 3)], [d["magnetogram.total.energy.toroidal.axisymmetric.fraction"]]],
            ["Toroidal energy"], [4])
''' % (ZA, ZA), ZC, _ES, prop="S02", n=10)
ob("S02_summary_axes", PLE + '''
def impl%s:
    fig, axs = pz.plot_energy_summary(zm.ZdiMagnetogram(ls, ms, a, b, g), axs=[vc_obj("u"), vc_obj("v"), vc_obj("w")])
    return len(calls("subplots")), len(pies("u")), len(pies("v"))
def spec%s:
    return 0, 3, 2
''' % (ZA, ZA), ZC, _ES, prop=["S01", "S02"], n=10)
_EM = "plot_zdi:plot_energy_matrix"
ob("S02_matrix", PLE + '''
def impl%s:
    fig, axs = pz.plot_energy_matrix(zm.ZdiMagnetogram(ls, ms, a, b, g), ("total", "radial", "poloidal", "toroidal"), negative_orders=True)
    return [(r[0], value(r, "X")) for r in calls("imshow")], [(r[0], [k in value(r, "label") for k in ("total", "radial", "poloidal", "toroidal")]) for r in calls("set_title")]
def spec%s:
    m = mats(zm.ZdiMagnetogram(ls, ms, a, b, g))
    k = ("total", "radial", "poloidal", "toroidal")
    return [("fig1.axes%%d" %% i, m[k[i]]) for i in range(4)], [("fig1.axes%%d" %% i, [i == j for j in range(4)]) for i in range(4)]
''' % (ZA, ZA), ZC, _EM, prop=["S02", "S01"], n=10)
ob("S02_matrix_one", PLE + '''
def impl%s:
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    pz.plot_energy_matrix(z, "toroidal", True)
    pz.plot_energy_matrix(z, "radial", True, [vc_obj("u")])
    return [(r[0], value(r, "X")) for r in calls("imshow")], len(calls("subplots"))
def spec%s:
    m = mats(zm.ZdiMagnetogram(ls, ms, a, b, g))
    return [("fig1.axes0", m["toroidal"]), ("u", m["radial"])], 1
''' % (ZA, ZA), ZC, _EM, prop=["S02", "S01"], n=10)
ob("S02_matrix_nonnegative", PLE + '''
def impl%s:
    pz.plot_energy_matrix(zm.ZdiMagnetogram(ls, ms, a, b, g), ["poloidal", "toroidal"])
    return [value(r, "X") for r in calls("imshow")]
def spec%s:
    m = mats(zm.ZdiMagnetogram(ls, ms, a, b, g))
    n = m["poloidal"].shape[0]
    return [np.array([[x[l, l2 + x.shape[1] // 2] for l2 in range(x.shape[1] - x.shape[1] // 2)] for l in range(n)]) for x in (m["poloidal"], m["toroidal"])]
''' % (ZA, ZA), lambda h: coeffs(h, negative=False), _EM, prop=["S02", "S01"], n=10)
_ED = "plot_zdi:plot_energy_by_degree"
for _s in (True, False):
    ob("S02_degree_" + ("scaled" if _s else "plain"), PLE + '''
def impl%s:
    pz.plot_energy_by_degree(zm.ZdiMagnetogram(ls, ms, a, b, g), scaled=%s)
    return [(value(r, "x"), value(r, "y"), r[3]["label"] if "label" in r[3] else None) for r in calls("semilogy")]
def spec%s:
    m = mats(zm.ZdiMagnetogram(ls, ms, a, b, g))
    out = []
    n = m["total"].shape[0]
    s = np.sum(m["total"]) if %s else 1
    for k in ("Total", "Poloidal", "Toroidal"):
        e = m[k.lower()]
        out.append((np.array([l for l in range(1, n)]), np.array([sum([e[l, i] for i in range(e.shape[1])]) / s for l in range(1, n)]), k))
    for k in ("Total", "Poloidal", "Toroidal"):
        e = m[k.lower()]
        out.append((np.array([l for l in range(1, n)]), np.array([sum([sum([e[q, i] for i in range(e.shape[1])]) for q in range(l + 1)]) / s for l in range(1, n)]), None))
    return out
''' % (ZA, _s, ZA, _s), ZC, _ED, prop=["S02", "S01"], n=10)
ob("S02_degree_axes", PLE + '''
def impl%s:
    z = zm.ZdiMagnetogram(ls, ms, a, b, g)
    pz.plot_energy_by_degree(z, vc_obj("u"), False)
    z.energy_matrix()
    return [r[0] for r in calls("semilogy")], len(calls("subplots"))
def spec%s:
    return ["u"] * 6, 0
''' % (ZA, ZA), ZC, _ED, prop="S01", n=10)

# ------------------------------------------------------------------ LSD profiles and spectra
import itertools
_D = lambda h: [h.arr("lsd", [h.size("LR", 1, 4), const(7)], "f", lo=-2.0, hi=2.0)]
LS = PLC + '''
COL = {"I": 1, "V": 3, "N": 5}
def want(d, parameters):
    return [("fig1.axes%d" % i, d[:, 0], d[:, COL[parameters[i]]], d[:, COL[parameters[i]] + 1]) for i in range(len(parameters))]
def shown(d):
    return [(r[0], value(r, "x"), value(r, "y"), value(r, "yerr")) for r in calls("errorbar")]
'''
_SEL = ["".join(q) for k in (1, 2, 3) for q in itertools.permutations("VIN", k)]
for _s in _SEL:
    ob("S05_profile_" + _s, LS + '''
def impl(d):
    plt.subplots(%d)
    pl.plot_lsd_profile(d, "%s")
    return shown(d), [[c for c in "IVN" if "Stokes $" + c in value(r, "ylabel")] for r in calls("set_ylabel")], [r[0] for r in calls("set_ylabel")]
def spec(d):
    return want(d, "%s"), [[c] for c in "%s"], ["fig1.axes%%d" %% i for i in range(%d)]
''' % (len(_s), _s, _s, _s, len(_s)), _D, "plot_lsd:plot_lsd_profile", prop=["S05", "S01"])
ob("S05_profile_default", LS + '''
def impl(d):
    plt.subplots(3)
    pl.plot_lsd_profile(d)
    return shown(d)
def spec(d):
    return want(d, "VNI")
''', _D, "plot_lsd:plot_lsd_profile", prop="S05")
ob("S05_profile_spare_axes", LS + '''
def impl(d):
    plt.subplots(3)
    pl.plot_lsd_profile(d, "NV")
    return shown(d)
def spec(d):
    return want(d, "NV")
''', _D, "plot_lsd:plot_lsd_profile", prop="S05")
ob("S05_profile_too_few", LS + '''
def impl(d):
    plt.subplots(1)
    pl.plot_lsd_profile(d, "NV")
    return 1
def spec(d):
    raise AssertionError
''', _D, "plot_lsd:plot_lsd_profile", prop=["S05", "N04"], aborts=True)
for _s in _SEL:
    ob("S05_command_" + _s, LS + '''
from starwinds_magnetogram.bin import plot_lsd as cmd
def impl(d):
    vc_argv(["data.lsd", "out.png", "-p", "%s"])
    cmd.main()
    return shown(d), [value(r, "fname") for r in calls("savefig")], [(r[2][0], r[3]["skip_header"]) for r in calls("genfromtxt")]
def spec(d):
    x = np.genfromtxt("data.lsd", skip_header=2)
    plt.subplots(%d)
    pl.plot_lsd_profile(x, "%s")
    return shown(x), ["out.png"], [("data.lsd", 2)]
''' % (_s, len(_s), _s), _D, "bin.plot_lsd:main", prop="S05")
ob("S05_stack", LS + '''
def impl(d, e):
    pl.plot_lsd_stack([d, e], ["first", "second"])
    return shown(d), [(r[0], r[2][0][0]) for r in calls("legend")]
def spec(d, e):
    return ([("fig2.axes0", d[:, 0], d[:, 3], d[:, 4]), ("fig2.axes1", e[:, 0], e[:, 3], e[:, 4])], [("fig2.axes0", "first"), ("fig2.axes1", "second")])
''', lambda h: _D(h) + [h.arr("lse", [h.size("LS", 1, 4), const(5)], "f")], "plot_lsd:plot_lsd_stack", prop=["S05", "S01"])
ob("S05_stack_plain", LS + '''
def impl(d, e):
    plt.subplots(2)
    pl.plot_lsd_stack([d, e], None, (-1.0, 2.0))
    return shown(d), len(calls("legend")), [(r[0], limits(r)) for r in calls("set_ylim")]
def spec(d, e):
    return ([("fig1.axes0", d[:, 0], d[:, 3], d[:, 4]), ("fig1.axes1", e[:, 0], e[:, 3], e[:, 4])], 0, [("fig1.axes0", (-1.0, 2.0)), ("fig1.axes1", (-1.0, 2.0))])
''', lambda h: _D(h) + [h.arr("lse", [h.size("LS", 1, 4), const(5)], "f")], "plot_lsd:plot_lsd_stack", prop=["S05", "S01"])
ob("S05_stack_same", LS + '''
def impl(d, e, f):
    plt.subplots(3)
    pl.plot_lsd_stack([d, e, f], ["first", "second", "third"], "same")
    return [(r[0], limits(r)) for r in calls("set_ylim")]
def spec(d, e, f):
    fig, axs = plt.subplots(3)
    low, high = zip(*[a.get_ylim() for a in axs])
    both = (min(low), max(high))
    return [("fig1.axes0", both), ("fig1.axes1", both), ("fig1.axes2", both)]
''', lambda h: _D(h) + [h.arr("lse", [h.size("LS", 1, 4), const(5)], "f"), h.arr("lsf", [h.size("LS", 1, 4), const(5)], "f")], "plot_lsd:plot_lsd_stack", prop=["S05", "S01"])
SP = PLC + '''
def segments(w, threshold):
    """index ranges between wavelength jumps"""
    jumps = [i for i in range(1, len(w)) if abs(w[i] - w[i - 1]) > threshold]
    return [0] + jumps, jumps + [len(w)]
'''
_WL = lambda h: [h.arr("wl", [h.size("W", 1, 5)], "f", lo=0.0, hi=2.0), h.real("thr", 0.05, 1.0)]
ob("S06_intervals", SP + '''
def impl(w, t):
    x = list(pl.wl_intervals(w, t))
    return [int(a) for a, b in x], [int(b) for a, b in x]
def spec(w, t):
    return segments(w, t)
''', _WL, "plot_lsd:wl_intervals", prop="S06")
ob("S06_intervals_default", SP + '''
def impl(w, t):
    x = list(pl.wl_intervals(w))
    return [int(a) for a, b in x], [int(b) for a, b in x]
def spec(w, t):
    return segments(w, 0.2)
''', _WL, "plot_lsd:wl_intervals", prop="S06")
ob("S06_intervals_cover", SP + '''
def impl(w, t):
    x = list(pl.wl_intervals(w, t))
    return x[0][0], x[-1][1], [x[i][1] - x[i + 1][0] for i in range(len(x) - 1)], len(x)
def spec(w, t):
    n = len([i for i in range(1, len(w)) if abs(w[i] - w[i - 1]) > t])
    return 0, len(w), [0 for i in range(n)], n + 1
''', _WL, "plot_lsd:wl_intervals", prop="S06")
ob("S06_spectrum", SP + '''
def impl(d):
    pl.plot_spectrum(d)
    return len(calls("scatter")), [value(r, "ylabel") for r in calls("set_ylabel")][-1], [value(r, "x") for r in calls("scatter")], [value(r, "y") for r in calls("scatter")], [value(r, "c") for r in calls("scatter")]
def spec(d):
    n = d.shape[0]
    return 5, "error bar", [d[:, 0]] * 5, [d[:, i + 1] for i in range(5)], [np.linspace(0, 1, n)] * 5
''', lambda h: [h.arr("sd", [const(3), const(6)], "f", lo=1.0, hi=1.1)], "plot_lsd:plot_spectrum", prop=["S06", "S01"])

ob("S05_command_show", LS + '''
from starwinds_magnetogram.bin import plot_lsd as cmd
def impl(d, n):
    vc_argv(["other.lsd", "-s", "4", "--params", "NI"])
    cmd.main()
    return shown(d), len(calls("savefig")), len(calls("show")), [(r[2][0], r[3]["skip_header"]) for r in calls("genfromtxt")]
def spec(d, n):
    x = np.genfromtxt("data.lsd", skip_header=2)
    plt.subplots(2)
    pl.plot_lsd_profile(x, "NI")
    return shown(x), 0, 1, [("other.lsd", 4)]
''', lambda h: _D(h) + [h.int("hn", 0, 5)], "bin.plot_lsd:main", prop=["S05", "S01"])
ob("S01_spectrum", SP + '''
def impl(d, lo, hi, size, alpha, cmap):
    pl.plot_spectrum(d, (lo, hi), size, alpha, cmap)
    return [(r[3]["alpha"], r[3]["cmap"], value(r, "s")) for r in calls("scatter")], [value(r, "x") for r in calls("scatter")], [value(r, "y") for r in calls("scatter")]
def spec(d, lo, hi, size, alpha, cmap):
    k = [i for i in range(d.shape[0]) if d[i, 0] >= lo and d[i, 0] <= hi]
    s, e = segments([d[i, 0] for i in k], 0.2)
    q = [(s[j], e[j]) for i in range(5) for j in range(len(s))]
    return ([(alpha, cmap, size) for x in q], [np.array([d[k[i], 0] for i in range(s[j], e[j])]) for c in range(5) for j in range(len(s))],
            [np.array([d[k[i], c + 1] for i in range(s[j], e[j])]) for c in range(5) for j in range(len(s))])
''', lambda h: [h.arr("sdw", [h.size("SW", 1, 5), const(6)], "f", lo=1.0, hi=2.0), h.real("wlo", 0.9, 1.3), h.real("whi", 1.5, 2.1), h.real("msize", 0.01, 1), h.real("alp", 0, 1), h.string("cm")],
   "plot_lsd:plot_spectrum", prop=["S06", "S01"])
# ------------------------------------------------------------------ colour bar
TK = PLC + '''
from starwinds_magnetogram import colorbar_manual_tickmarks as cm
'''
_EX = lambda h: [h.int("e0", dist=irange(-3, 1)), h.int("e1", dist=irange(-3, 4)), h.int("es", 1, dist=irange(1, 3))]
ob("S07_major_values", TK + '''
def impl(lo, hi, step):
    v, s = cm.generate_major(lo, hi, step)
    return list(v)
def spec(lo, hi, step):
    e = [x for x in range(lo, hi + 1, step)]
    return [-10.0 ** x for x in reversed(e)] + [0] + [10.0 ** x for x in e]
''', _EX, "colorbar_manual_tickmarks:generate_major", prop="S07")
ob("S07_major_labels", TK + '''
def impl(lo, hi, step):
    v, s = cm.generate_major(lo, hi, step)
    return list(s), len(v) - len(s)
def spec(lo, hi, step):
    e = [x for x in range(lo, hi + 1, step)]
    return ["$-10^{%d}$" % x for x in reversed(e)] + ["0"] + ["$10^{%d}$" % x for x in e], 0
''', _EX, "colorbar_manual_tickmarks:generate_major", prop="S07")
ob("S07_shift", TK + '''
def impl(e, s):
    return cm.tesla_to_gauss("$10^{%d}$" % e, s), cm.tesla_to_gauss("$-10^{%d}$" % e, s), cm.tesla_to_gauss("$10^{%d}$" % e)
def spec(e, s):
    return "$10^{%d}$" % (e + s), "$-10^{%d}$" % (e + s), "$10^{%d}$" % (e + 4)
''', lambda h: [h.int("e0", dist=irange(-9, 9)), h.int("e1", dist=irange(-9, 9))], "colorbar_manual_tickmarks:tesla_to_gauss", prop="S07")
ob("S07_shift_none", TK + '''
def impl(x):
    return cm.tesla_to_gauss("0"), cm.tesla_to_gauss("$10$", x), cm.tesla_to_gauss("", x), cm.tesla_to_gauss("\\\\alpha")
def spec(x):
    return "0", "$10$", "", "\\\\alpha"
''', lambda h: [h.int("e0", dist=irange(-9, 9))], "colorbar_manual_tickmarks:tesla_to_gauss", prop="S07")
ob("S07_roundtrip", TK + '''
def impl(lo, hi, step):
    v, s = cm.generate_major(lo, hi, step)
    return [cm.tesla_to_gauss(x) for x in s]
def spec(lo, hi, step):
    e = [x for x in range(lo, hi + 1, step)]
    return ["$-10^{%d}$" % (x + 4) for x in reversed(e)] + ["0"] + ["$10^{%d}$" % (x + 4) for x in e]
''', _EX, "colorbar_manual_tickmarks:tesla_to_gauss", prop="S07")

# ------------------------------------------------------------------ longitudinal curve
LZ = lambda h: coeffs(h) + _G(h) + [h.real("oi", 0.2, 2.9), h.arr("oa", [h.size("OA", 1, 3)], "f")]
LA = '(ls, ms, a, b, g, tc, pc, oi, oa)'
ob("S01_longitudinal", PLC + '''
def impl%s:
    ax, r = lf.plot_longitudinal_field_curve(vc_obj("u"), ge.ZdiGeometry(tc, pc), zm.ZdiMagnetogram(ls, ms, a, b, g), oi, oa)
    return r, values("plot", "u", "x", "y")
def spec%s:
    y = lf.get_longitudinal_field_curve(ge.ZdiGeometry(tc, pc), zm.ZdiMagnetogram(ls, ms, a, b, g), oi, oa)
    return np.array([[x for x in oa], [x for x in y]]), [(deg(oa), y)]
''' % (LA, LA), LZ, "longitudinal_field:plot_longitudinal_field_curve", prop=["S01", "S03"], n=4)
ob("S01_longitudinal_default", PLC + '''
def impl(ls, ms, a, b, g, tc, pc, oi, oa):
    ax, r = lf.plot_longitudinal_field_curve(vc_obj("u"), ge.ZdiGeometry(tc, pc), zm.ZdiMagnetogram(ls, ms, a, b, g), oi)
    return r, values("plot", "u", "x", "y")
def spec(ls, ms, a, b, g, tc, pc, oi, oa):
    gg = ge.ZdiGeometry(tc, pc)
    ph = np.linspace(0, 360, gg.shape[0]) / 180 * math.pi
    y = lf.get_longitudinal_field_curve(gg, zm.ZdiMagnetogram(ls, ms, a, b, g), oi, ph)
    return np.array([[x for x in ph], [x for x in y]]), [(deg(ph), y)]
''', LZ, "longitudinal_field:plot_longitudinal_field_curve", prop=["S01", "S03"], n=4)
ob("S01_longitudinal_style", PLC + '''
def impl(x, y):
    lf.plot_style(vc_obj("u"), y, x)
    return values("plot", "u", "x", "y"), [value(r, "y") for r in calls("axhline")], [limits(r)[0] + limits(r)[1] for r in calls("set_ylim")], [np.all(y <= limits(r)[1]) and np.all(limits(r)[0] <= y) for r in calls("set_ylim")]
def spec(x, y):
    return [(deg(x), y)], [np.mean(y)], [0.0], [True]
''', lambda h: [h.arr("oa", [h.size("OA", 1, 3)], "f"), h.arr("ob", [h.size("OA", 1, 3)], "f")], "longitudinal_field:plot_style", prop="S03")
