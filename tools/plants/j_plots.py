"""Plots; objects are built as in i_objects.py"""
import os as _os
import sys as _sys
_ns = {}
_here = _os.path.dirname(_os.path.abspath(_sys.argv[0]))
exec(open(_os.path.join(_here, "plants", "i_objects.py")).read(), _ns)
RIG = '''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
''' + _ns["RIG"] + '''
def curves(axes):
    """everything drawn, as (label, x, y)"""
    axes = axes if isinstance(axes, tuple) else (axes,)
    return [(l.get_label(), np.atleast_1d(l.get_xdata()),
             np.atleast_1d(l.get_ydata())) for a in axes for l in a.lines]
def shows(axes, x, y):
    x, y = np.atleast_1d(x), np.atleast_1d(y)
    for _, u, w in curves(axes):
        if len(u) == len(x) and np.allclose(u, x, rtol=1e-6, atol=1e-9) and \\
                np.allclose(w, y, rtol=1e-6, atol=1e-9):
            return True
    return False
mv, ua = vgap * 1e3, igap * 1e6
'''
IF = '''
kw.update(analyze_if=True, vshot=(4e-3, 5.5e-3), ifdata_npts=601,
          ifdata_sigma=None)
def load(a, b, low, high):
    v = np.linspace(low, high, 601)
    bump = np.exp(-(v - 2.3e-3) ** 2 / (2 * .2e-3 ** 2))
    return np.vstack((v, 3. + 2e3 * v + a * bump + b * (v < 1.5e-3))).T
'''
PLANTS = [
 dict(id="ivif-one-mask", prop="C28",
  needs="cold load IF data with another voltage range than the hot load's",
  what="plot_ivif draws the cold IF power where the hot power is not zero",
  edits=[("qmix/exp/exp_data.py",
          "        mask = self.if_cold[:, 1] != 0\n        ax2.plot(", 
          "        ax2.plot(")],
  demo=RIG + IF + '''
hot = load(6., 4., 0., 6.5e-3)
cold = load(2., 1.5, .4e-3, 5.7e-3)
p = PumpedData(pump(level), dc, hot, cold, freq=freq, analyze_iv=False, **kw)
ax = p.plot_ivif()
c = p.if_cold[:, 1] != 0
assert not c.all()
assert shows(ax, p.if_cold[c, 0] * mv, p.if_cold[c, 1])
print("ok")
'''),
 dict(id="normal-line-origin", prop="C28",
  needs="a DC curve whose normal resistance line does not pass the origin",
  what="plot_dciv draws the normal resistance through the origin instead of "
       "through the voltage intercept",
  edits=[("qmix/exp/exp_data.py",
          "        rn_slope = -self.vint / self.rn * 1e6 + self.voltage * ua",
          "        rn_slope = self.voltage * ua")],
  demo=RIG + '''
bent = np.vstack((x * vgap, (curve(x) + .07 * np.tanh(x / .3)) * igap)).T
d = DCData(bent, None, **kw)
ax = d.plot_dciv()
line = (d.voltage * d.vgap - d.vint) / d.rn * 1e6
assert abs(d.vint) > 1e-5
assert shows(ax, d.voltage * d.vgap * 1e3, line)
print("ok")
'''),
 dict(id="surface-ranges", prop="C28",
  needs="a range of reactances other than the default one",
  what="plot_error_surface labels its vertical axis with the default range "
       "of reactances",
  edits=[("qmix/exp/exp_data.py",
          "        xemb_range = self.kwargs.get('xemb_range', "
          "PARAMS['xemb_range'])\n\n"
          "        # Range of impedance values (de-normalized)",
          "        xemb_range = PARAMS['xemb_range']\n\n"
          "        # Range of impedance values (de-normalized)")],
  demo=RIG + '''
from matplotlib.collections import QuadMesh, PolyCollection
p = PumpedData(pump(level), dc, freq=freq, analyze_iv=True,
               remb_range=(.05, .9), xemb_range=(-.5, .4), **kw)
ax = p.plot_error_surface()
lo, hi = ax.dataLim.intervaly
assert abs(lo + .5 * rn) < .01 * rn and abs(hi - .4 * rn) < .01 * rn, (lo, hi)
print("ok")
'''),
 dict(id="fit-ends", prop="C28",
  needs="a fit interval that is not symmetric",
  what="plot_simulated marks the lower end of the fit interval from the "
       "upper end of the photon step",
  edits=[("qmix/exp/exp_data.py",
          "        v_min = (1 - vph + vph * fit_low) * self.vgap * 1e3",
          "        v_min = (1 - vph + vph * fit_high) * self.vgap * 1e3")],
  demo=RIG + '''
p = PumpedData(pump(level), dc, freq=freq, analyze_iv=True,
               fit_range=(.1, .6), **kw)
ax = p.plot_simulated()
lo, hi = ((1 - vph + vph * f) * mv for f in (.1, .6))
assert any(len(u) == 2 and np.allclose(u, [lo, hi]) for _, u, w in
           curves(ax))
print("ok")
'''),
 dict(id="good-fits-order", prop="C28",
  needs="measurements of which only some have a good noise fit, in a list "
        "together with bad ones",
  what="the overall plot of IF noise shows all measurements, good noise fit "
       "or not, if the impedance was recovered",
  edits=[("qmix/exp/exp_data.py",
          "        if data.good_if_noise_fit:\n",
          "        if data.good_if_noise_fit or data.fit_good:\n")],
  demo=RIG + IF + '''
import os, tempfile
from matplotlib.axes import Axes
from qmix.exp.exp_data import plot_overall_results
data = []
for k, f in enumerate((200., 210., 220., 230., 250.)):
    a, b = load(6., 4., 0., 6.5e-3), load(2., 1.5, 0., 6.5e-3)
    p = PumpedData(pump(level), dc, a, b, freq=f, analyze_iv=True, **kw)
    p.iv_file = p.filename_hot = p.filename_cold = "x"
    p.fit_good = k != 0
    p.good_if_noise_fit = k != 1
    p.if_noise = 11. + k * k
    data.append(p)
seen = []
real = Axes.plot
def plot(self, *args, **kwargs):
    seen.append(args)
    return real(self, *args, **kwargs)
Axes.plot = plot
with tempfile.TemporaryDirectory() as d:
    plot_overall_results(dc, data, d)
def there(x, y):
    return any(len(a) > 1 and np.shape(a[0]) == np.shape(x) and
               np.shape(a[1]) == np.shape(y) and
               np.allclose(np.asarray(a[0], dtype=float), x) and
               np.allclose(np.asarray(a[1], dtype=float), y) for a in seen)
assert there([200., 220., 230., 250.], [11., 15., 20., 27.])
print("ok")
'''),
]
