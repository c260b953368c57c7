"""Gap voltage and offsets that dciv_curve finds by itself"""
RIG = '''
import io, contextlib
import numpy as np
import qmix.exp.iv_data as iv
from qmix.exp.iv_data import dciv_curve
kw = dict(v_fmt="mV", i_fmt="uA", vmax=5e-3, npts=501, rseries=None,
          filter_data=False, voffset=0., ioffset=0., vgap=None,
          v_multiplier=1., i_multiplier=1., vrn=[3.4e-3, 4.6e-3],
          vrsg=1.6e-3, voffset_range=.9e-3, debug=False)
def curve(v, knee=0.):
    """millivolt to microampere"""
    s = np.sign(v)
    u = np.abs(v)
    w = np.minimum(60 * (u - 2.7), 300)
    return s * (4. * u + 150. / (1 + np.exp(-w)) * (1 + knee * (u - 2.7)) +
                3. * np.tanh(u / .2))
def load(v, **more):
    d = np.vstack((v, curve(v))).T
    with contextlib.redirect_stdout(io.StringIO()):
        return dciv_curve(d, **dict(kw, **more))
'''
PLANTS = [
 dict(id="gap-half-of-normal", prop="C33",
  needs="no vgap, a normal resistance line that is not flat",
  what="the gap is taken at half of the normal line's current at the "
       "steepest voltage instead of half of the corner's current",
  edits=[("qmix/exp/iv_data.py",
          "    igap = icorner / 2\n",
          "    igap = np.polyval(prn, vgap) / 2\n")],
  demo=RIG + '''
v = np.linspace(-4.8, 4.8, 1201)
d = curve(v)
d = np.vstack((v, np.where(abs(v) > 2.72, d + 60 * (v - 2.72 * np.sign(v)),
                           d))).T
got = dciv_curve(d, **kw)[2].vgap
x, y = v * 1e-3, d[:, 1] * 1e-6
prn = np.polyfit(x[(x > 3.4e-3) & (x < 4.6e-3)],
                 y[(x > 3.4e-3) & (x < 4.6e-3)], 1)
from qmix.mathfn.filters import gauss_conv
from qmix.mathfn.misc import slope
m = x > 2e-3
steep = x[m][gauss_conv(slope(x[m], y[m]), .2e-3 / (x[1] - x[0])).argmax()]
m = abs(x - steep) < 1e-5
pg = np.polyfit(x[m], y[m], 1)
corner = (pg[1] - prn[1]) / (prn[0] - pg[0])
want = (np.polyval(pg, corner) / 2 - pg[1]) / pg[0]
assert abs(got - want) < 1e-9, (got, want)
print("ok")
'''),
 dict(id="one-polarity-offset", prop="C33",
  needs="voffset given and ioffset not, data of one polarity",
  what="with data of one polarity a single given offset is dropped",
  edits=[("qmix/exp/iv_data.py",
          "        if voffset is None:\n            voffset = 0\n        if ioffset",
          "        if voffset is None or ioffset is None:\n"
          "            voffset = 0\n        if ioffset")],
  demo=RIG + '''
v = np.linspace(0., 4.8, 601)
m = load(v, vgap=2.7e-3, voffset=.1e-3, ioffset=None)[2]
assert abs(m.offset[0] - .1e-3) < 1e-12 and m.offset[1] == 0, m.offset
assert abs(m.vraw[0] + .1e-3) < 1e-12, m.vraw[0]
print("ok")
'''),
 dict(id="offset-grid-mirror", prop="C33",
  needs="no offsets, a voffset_range whose ends are not opposite",
  what="the asymmetry is evaluated around zero instead of over half of the "
       "range",
  edits=[("qmix/exp/iv_data.py",
          "voffset_range[1] / 2, 101)", "-voffset_range[0] / 2, 101)")],
  demo=RIG + '''
seen = []
real = iv.minimize
def spy(f, x0, *a, **k):
    seen.append(f(np.array([.02e-3, 1e-6])))
    return real(f, x0=x0, *a, **k)
iv.minimize = spy
v = np.linspace(-4.8, 4.8, 1201)
load(v, vgap=2.7e-3, voffset=None, ioffset=None, voffset_range=[-.4e-3, 1e-3])
x, y = v * 1e-3, curve(v) * 1e-6
m = (x >= -.4e-3) & (x <= 1e-3)
x, y = x[m] - .02e-3, y[m] - 1e-6
g = np.linspace(-.2e-3, .5e-3, 101)
want = abs(np.interp(g, x, y) + np.interp(-g, x, y)).sum()
assert len(seen) == 1 and abs(seen[0] - want) < 1e-9 * want, (seen, want)
print("ok")
'''),
 dict(id="offset-start-zero", prop="C33",
  needs="voffset given and ioffset not, data of both polarities",
  what="the search for the offsets starts from zero voltage instead of the "
       "given voffset",
  edits=[("qmix/exp/iv_data.py",
          "    x0 = np.array([voffset, ioffset])",
          "    x0 = np.array([0., ioffset])")],
  demo=RIG + '''
seen = []
real = iv.minimize
def spy(f, x0, *a, **k):
    seen.append(np.array(x0))
    return real(f, x0=x0, *a, **k)
iv.minimize = spy
v = np.linspace(-4.8, 4.8, 1201)
load(v, vgap=2.7e-3, voffset=.1e-3, ioffset=None)
assert len(seen) == 1 and abs(seen[0][0] - .1e-3) < 1e-12, seen
print("ok")
'''),
 dict(id="gap-slope-edge", prop="C33",
  needs="no vgap, a jump of the current right at 2 mV",
  what="the derivative at the first point above 2 mV uses the last point "
       "below",
  edits=[("qmix/exp/iv_data.py",
          "    der = slope(volt_v[mask], curr_a[mask])",
          "    der = slope(volt_v, curr_a)[mask]")],
  demo=RIG + '''
v = np.r_[-4.8, np.linspace(-4.6, 4.8, 2351)]
d = np.vstack((v, curve(v) + 300. * (v > 2.002))).T
with contextlib.redirect_stdout(io.StringIO()):
    got = dciv_curve(d, **kw)[2].vgap
assert got > 2.5e-3, got
print("ok")
'''),
]
