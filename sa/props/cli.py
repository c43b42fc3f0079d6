"""Command line programs: L01-L03."""
from ..oblig import *
from ..terms import concat_terms as _cc
from ..identity import DISK
from .coeffs import CO

OBS = []


def ob(*a, **k):
    OBS.append(Ob(*a, **k))


CM = CO + '''
import os
from starwinds_magnetogram import reader_writer as rw
from starwinds_magnetogram import converter as cv
from starwinds_magnetogram.bin import convert_magnetogram as cm

def same(a, b):
    if os.path.exists(a) and os.path.exists(b):
        return os.path.samefile(a, b)
    return os.path.realpath(a) == os.path.realpath(b)

def derived(src, fmt):
    root, e = os.path.splitext(os.path.basename(src))
    return root + "_" + fmt + e

def paths():
    return [p for p, t in vc_written()]

def body(t):
    """the data lines and whether there is an SWMF header"""
    return "nOrder" in t, [x.split() for x in vc_lines(t)][-1]
'''


def line(h, tag, l, m):
    return St(_cc([string("%d %d " % (l, m)), mk("strof", (h.real("RE%s_%d_%d" % (tag, l, m)).t, string("f")), "s"), string(" "),
                   mk("strof", (h.real("IM%s_%d_%d" % (tag, l, m)).t, string("f")), "s")]))


def mag(h, path, sets, top=2):
    lines = [St("a magnetogram"), St("9 %d -3" % sets)]
    for s in range(sets):
        lines += [line(h, "s%d" % s, l, m) for l in range(1, top + 1) for m in range(l + 1)] + [St("")]
    return h.file(path, lines)


def names(h):
    pick = choices(*DISK)
    return h.string("src", pick), h.string("dst", pick)


_FN = {"zdi": ("convert_zdi_to_pfss", 3, "wso"), "pfss": ("convert_pfss_to_zdi", 1, "zdi"), "none": ("no_conversion", 1, "wso")}
_C = "bin.convert_magnetogram:"
for _t, (_f, _n, _fmt) in _FN.items():
    def _in2(h, n=_n):
        a, b = names(h)
        return [mag(h, a, n), b]

    def _in1(h, n=_n):
        return [mag(h, names(h)[0], n)]
    ob("L01_given_" + _t, CM + '''
def impl(src, dst):
    cm.%s(src, dst)
    return paths()
def spec(src, dst):
    if same(src, dst): raise ValueError
    return [dst]
''' % _f, _in2, _C + _f, prop="L01", n=80)
    ob("L01_given_writes_nothing_" + _t, CM + '''
def impl(src, dst):
    try:
        cm.%s(src, dst)
    except Exception:
        pass
    return paths()
def spec(src, dst):
    return [] if same(src, dst) else [dst]
''' % _f, _in2, _C + _f, prop="L01", n=80)
    ob("L01_derived_" + _t, CM + '''
def impl(src):
    cm.%s(src)
    return paths()
def spec(src):
    out = derived(src, "%s")
    if os.path.exists(out) or same(src, out): raise ValueError
    return [out]
''' % (_f, _fmt), _in1, _C + _f, prop="L01", n=40)
    ob("L01_derived_writes_nothing_" + _t, CM + '''
def impl(src):
    try:
        cm.%s(src)
    except Exception:
        pass
    return paths()
def spec(src):
    out = derived(src, "%s")
    return [] if os.path.exists(out) or same(src, out) else [out]
''' % (_f, _fmt), _in1, _C + _f, prop="L01", n=40)

_FLAG = {"zdi": [], "pfss": ["--pfss-to-zdi"], "none": ["--no-conversion"]}
_EXPECT = {
    "zdi": "rw.write_magnetogram_file(cv.convert_zdi_to_pfss(sc.hsplit(c)[0]), {dst}, degree_max={d}, order_min=0, write_swmf_header={h})",
    "pfss": "rw.write_magnetogram_file(cv.convert_pfss_to_zdi(c), {dst}, degree_max={d}, order_min=0, write_swmf_header=False)",
    "none": "rw.write_magnetogram_file(c, {dst}, degree_max={d}, order_min=0, write_swmf_header={h})",
}
for _t, (_f, _n, _fmt) in _FN.items():
    for _out in (True, False):
        for _hd in (True, False):
            for _deg in (True, False):
                _argv = ["src"] + (["dst"] if _out else []) + [repr(x) for x in _FLAG[_t] + ([] if _hd else ["--no-header"])] + (['"--degree-max"', "str(n)"] if _deg else [])

                def _in(h, n=_n, out=_out, deg=_deg):
                    a = mag(h, "some/dir/given.dat", n)
                    return [a, h.string("outname") if out else St("nowhere")] + [h.int("n", 0, 6) if deg else I_(0)]
                ob("L02_%s%s%s%s" % (_t, "" if _out else "_derived", "" if _hd else "_noheader", "_degree" if _deg else ""), CM + '''
def free(src, dst):
    return not os.path.exists(dst) and not same(src, dst)
def impl(src, dst, n):
    vc_argv([%s])
    cm.main()
    return free(src, %s), vc_written()
def spec(src, dst, n):
    c = rw.read_magnetogram_file(src)
    out = %s
    if %s: raise ValueError
    %s
    return free(src, out), vc_written()
''' % (", ".join(_argv), "dst" if _out else 'derived(src, "%s")' % _fmt, "dst" if _out else 'derived(src, "%s")' % _fmt,
                        "same(src, out)" if _out else "os.path.exists(out) or same(src, out)", _EXPECT[_t].format(dst="out", d="n" if _deg else "None", h=str(_hd))),
                   _in, _C + "main", prop="L02", n=20)
ob("L02_both_flags", CM + '''
def impl(src, dst):
    vc_argv(["--no-conversion", "--pfss-to-zdi", src, dst])
    cm.main()
    return vc_written()
def spec(src, dst):
    if same(src, dst): raise ValueError
    rw.write_magnetogram_file(rw.read_magnetogram_file(src), dst, write_swmf_header=True)
    return vc_written()
''', lambda h: [mag(h, "given.dat", 1), h.string("outname")], _C + "main", prop="L02", n=20)
for _t in ("pfss", "none"):
    ob("L02_three_components_" + _t, CM + '''
def impl(src, dst):
    try:
        cm.%s(src, dst)
    except IndexError:
        return "rejected", paths()
    return "accepted", paths()
def spec(src, dst):
    return "rejected", []
''' % _FN[_t][0], lambda h: [mag(h, "given.dat", 3), h.string("outname")], _C + _FN[_t][0], prop="L02", n=20)

# ------------------------------------------------------------------ L03
PM = CM + '''
from starwinds_magnetogram import zdi_magnetogram as zm
from starwinds_magnetogram import geometry as ge
from starwinds_magnetogram.bin import plot_magnetogram as pm

def one(name):
    r = vc_calls(name)
    if len(r) != 1:
        return ("%d calls" % len(r), name, (), {})
    return r[0]

def shown():
    """how the figure ended: list of shown or saved"""
    out = []
    for who, what, a, k in vc_calls("show", "savefig"):
        out.append((who, what, a[0] if what == "savefig" else None))
    return out

def mgm(path, kind):
    c = rw.read_magnetogram_file(path)
    if kind == "pfss":
        c = cv.convert_pfss_to_zdi(c)
    return zm.from_coefficients(c)

def argument(r, i, name):
    return r[2][i] if len(r[2]) > i else r[3][name]
'''
GETTER = {"radial": ("get_radial_field", "B_r", "radial field"), "polar": ("get_polar_field", "B_\\\\theta", "polar field"),
          "azimuthal": ("get_azimuthal_field", "B_\\\\phi", "azimuthal field"), "azimuth": ("get_azimuthal_field", "B_\\\\phi", "azimuthal field"),
          "strength": ("get_field_strength", "|B|", "field strength")}
_P = "bin.plot_magnetogram:main"


def _pin(kind, out):
    def f(h):
        return [mag(h, "dir/mgram_star.dat", 1 if kind == "pfss" else 3, 1), h.string("outname") if out else St("nowhere")]
    return f


for _kind in ("zdi", "pfss"):
    for _pt, (_g, _lab, _nm) in GETTER.items():
        ob("L03_%s_%s" % (_pt, _kind), PM + '''
def impl(src, dst):
    vc_argv([src, dst, "-p", "%s", "--type", "%s"])
    pm.main()
    r = one("pcolormesh")
    return argument(r, 2, "C"), [k["label"].split("=")[0] for who, what, a, k in vc_calls("plot") if "label" in k], vc_calls("set_title")[0][2][0]
def spec(src, dst):
    z = mgm(src, "%s")
    p, a = ge.ZdiGeometry().centers()
    return z.%s(p, a), ["Max $%s", "Min $%s"], "star %s"
''' % (_pt, _kind, _kind, _g, _lab, _lab, _nm), _pin(_kind, True), _P, prop="L03", n=3, frame=False)
for _kind, _arg in (("zdi", ""), ("pfss", ', "-y", "pfss"')):
    for _pt, _arg2 in (("map", ""), ("map", ', "--plot_type", "map"')):
        ob("L03_map_%s%s" % (_kind, "_named" if _arg2 else ""), PM + '''
def impl(src, dst):
    vc_argv([src, dst%s%s])
    pm.main()
    return [argument(r, 2, "C") for r in vc_calls("pcolormesh")], shown()
def spec(src, dst):
    z = mgm(src, "%s")
    p, a = ge.ZdiGeometry().centers()
    return [z.get_radial_field(p, a), z.get_polar_field(p, a), z.get_azimuthal_field(p, a)], [("fig1", "savefig", dst)]
''' % (_arg, _arg2, _kind), _pin(_kind, True), _P, prop="L03", n=2, frame=False)
    ob("L03_energy_matrix_" + _kind, PM + '''
def impl(src, dst):
    vc_argv([src, dst, "--plot_type=energy-matrix"%s])
    pm.main()
    return one("imshow")[2][0], shown(), len(vc_calls("pie", "semilogy", "pcolormesh"))
def spec(src, dst):
    r, p, t = mgm(src, "%s").energy_matrix()
    e = p + t
    return e[:, e.shape[1] // 2:], [("fig1", "savefig", dst)], 0
''' % (_arg, _kind), _pin(_kind, True), _P, prop="L03", n=10, frame=False)
    ob("L03_energy_by_degree_" + _kind, PM + '''
def impl(src, dst):
    vc_argv([src, dst, "-p", "energy-by-degree"%s])
    pm.main()
    return [argument(r, 1, "y") for r in vc_calls("semilogy")][:3], shown(), len(vc_calls("pie", "imshow", "pcolormesh"))
def spec(src, dst):
    r, p, t = mgm(src, "%s").energy_matrix()
    e = np.sum(p) + np.sum(t)
    return [np.sum(x, axis=1)[1:] / e for x in (p + t, p, t)], [("fig1", "savefig", dst)], 0
''' % (_arg, _kind), _pin(_kind, True), _P, prop="L03", n=10, frame=False)
    ob("L03_energy_summary_" + _kind, PM + '''
def impl(src, dst):
    vc_argv([src, dst, "-p", "energy-summary"%s])
    pm.main()
    return one("pie")[2][0] if False else vc_calls("pie")[0][2][0], shown(), len(vc_calls("semilogy", "imshow", "pcolormesh"))
def spec(src, dst):
    e = {}
    mgm(src, "%s").energy(dest=e)
    return [e["magnetogram.poloidal.energy.fraction"], e["magnetogram.toroidal.energy.fraction"]], [("fig1", "savefig", dst)], 0
''' % (_arg, _kind), _pin(_kind, True), _P, prop="L03", n=10, frame=False)
for _pt in ("map", "radial", "energy-matrix", "energy-by-degree", "energy-summary"):
    ob("L03_shown_" + _pt.replace("-", "_"), PM + '''
def impl(src, dst):
    vc_argv([src, "-p", "%s"])
    pm.main()
    return shown(), vc_written()
def spec(src, dst):
    return [("matplotlib.pyplot", "show", None)], []
''' % _pt, _pin("zdi", False), _P, prop="L03", n=3, frame=False)
for _nm, _a in (("plot_type", '"-p", "radiall"'), ("empty_plot_type", '"-p", ""'), ("field_name", '"-p", "get_radial_field"'), ("case", '"-p", "Radial"'),
                ("magnetogram_type", '"-y", "wso"'), ("magnetogram_case", '"--type", "ZDI"')):
    ob("L03_rejects_" + _nm, PM + '''
def impl(src, dst):
    vc_argv([src, dst, %s])
    try:
        pm.main()
    except (ValueError, SystemExit, KeyError):
        return "rejected", shown()
    return "accepted", shown()
def spec(src, dst):
    return "rejected", []
''' % _a, _pin("zdi", True), _P, prop="L03", n=3, frame=False)
