RIG = '''
import numpy as np
import scipy.constants as sc
from scipy import special
from qmix.exp.exp_data import DCData, PumpedData
vgap, rn, freq = 2.8e-3, 13.5, 230.
igap, fgap = vgap / rn, sc.e * vgap / sc.h
vph = freq * 1e9 / fgap
x = np.linspace(-2.2, 2.2, 2201)
def curve(v):
    a = np.abs(v)
    return np.sign(v) * (.04 * a + (a - .04 * a) * a ** 60 / (1 + a ** 60))
kw = dict(v_fmt='V', i_fmt='A', verbose=False, offset=(0., 0.), vgap=vgap,
          filter_data=False, rseries=None, vmax=6e-3, npts=1201,
          vrn=(4e-3, 5.5e-3), vrsg=1e-3, vleak=2e-3, area=1.5,
          analyze_if=False, v_smear=.02)
sweep = np.vstack((x * vgap, curve(x) * igap)).T
def pump(alpha):
    al = alpha if callable(alpha) else (lambda v: alpha + 0 * v)
    i = sum(special.jv(n, al(x)) ** 2 * curve(x + n * vph)
            for n in range(-12, 13))
    return np.vstack((x * vgap, i * igap)).T
dc = DCData(sweep, None, **kw)
def level(v):
    return .9 - .3 * (v - 1 + vph / 2)
def theory(fit=(.25, .8), num_b=20, alpha=level):
    v = x[(x >= 1 - vph + vph * fit[0]) & (x <= 1 - vph + vph * fit[1])]
    a = alpha(v)
    i = 0j
    for n in range(-num_b, num_b + 1):
        j0, jm, jp = (special.jv(n + k, a) for k in (0, -1, 1))
        i = i + j0 * ((jm + jp) * dc.resp.idc(v + n * vph) +
                      1j * (jm - jp) * dc.resp.ikk(v + n * vph))
    return v, a, a * vph / i
'''
PLANTS = [
 dict(id="vt-of-grid", prop="C13",
  needs="a forced embedding impedance (zemb)",
  what="with a forced embedding impedance, the embedding voltage is still "
       "that of the best impedance of the search",
  edits=[("qmix/exp/exp_data.py",
          "        vt_best = _find_source_voltage(ac_voltage, ac_impedance, "
          "zt_best)\n",
          "        vt_best = _find_source_voltage(ac_voltage, ac_impedance,\n"
          "                                       zt_real_best + 1j * "
          "zt_imag_best)\n")],
  demo=RIG + '''
z = .6 - .35j
p = PumpedData(pump(level), dc, freq=freq, analyze_iv=True, zemb=z,
               fit_range=(.25, .8), **kw)
v, a, zw = theory()
w = np.abs(zw / (zw + z))
vt = np.sum(a * vph * w) / np.sum(w ** 2)
assert p.zt == z
assert abs(p.vt / vt - 1) < .02, (p.vt, vt)
print("ok")
'''),
 dict(id="first-step-fixed", prop="C13",
  needs="alpha_max well above its default value and a junction driven harder",
  what="the first step of the drive level search does not follow alpha_max",
  edits=[("qmix/exp/exp_data.py",
          "    alpha_step = alpha_max / 4.\n",
          "    alpha_step = 1.5 / 4.\n")],
  demo=RIG + '''
for top in (1.5, 3.):
    p = PumpedData(pump(.9), dc, freq=freq, analyze_iv=True, alpha_max=top,
                   **kw)
    assert abs(p.alpha - .9) < .02, (top, p.alpha)
p = PumpedData(pump(.002), dc, freq=freq, analyze_iv=True, alpha_max=.004,
               **kw)
assert p.alpha <= .0061, p.alpha
p = PumpedData(pump(1.9), dc, freq=freq, analyze_iv=True, alpha_max=8., **kw)
q = 0
alpha = 8. * ((np.interp(1 - vph / 2, x, pump(1.9)[:, 1] / igap) -
               dc.resp.idc(1 - vph / 2)) /
              (np.interp(1 - vph / 2, x, pump(8.)[:, 1] / igap) -
               dc.resp.idc(1 - vph / 2)))
step, v = 2., 1 - vph / 2
def cur(a):
    return sum(special.jv(n, a) ** 2 * dc.resp.idc(v + n * vph)
               for n in range(-20, 21))
goal = np.interp(v, x, pump(1.9)[:, 1] / igap)
alpha = max(alpha, 0.)
for _ in range(15):
    e = cur(alpha) - goal
    alpha = max(alpha - np.sign(e) * step, 0)
    step /= 2
assert abs(alpha - p.alpha) < .02, (alpha, p.alpha)
print("ok")
'''),
 dict(id="current-limit-default", prop="C13",
  needs="num_b lower than what the sums need",
  what="the summation limit num_b is not handed on to the AC current",
  edits=[("qmix/exp/exp_data.py",
          "_find_ac_current(resp, exp_voltage, vph, alpha, **self.kwargs)",
          "_find_ac_current(resp, exp_voltage, vph, alpha)")],
  demo=RIG + '''
def strong(v):
    return 2.4 + 0 * v
kw["alpha_max"] = 3.
for n in (20, 2):
    p = PumpedData(pump(strong), dc, freq=freq, analyze_iv=True, num_b=n,
                   **kw)
    v, a, zw = theory(num_b=n, alpha=lambda v: p.alpha + 0 * v)
    want = zw[np.abs(v - (1 - vph / 2)).argmin()]
    assert abs(p.zw - want) < .05 * abs(want), (n, p.zw, want)
print("ok")
'''),
 dict(id="middle-of-range", prop="C13",
  needs="a fit range that is not symmetric about the middle of the step",
  what="drive level and junction impedance are those at the middle of the "
       "fit range instead of the middle of the photon step",
  edits=[("qmix/exp/exp_data.py",
          "        idx_middle = np.abs(exp_voltage - (1 - vph / 2.)).argmin()"
          "\n",
          "        idx_middle = len(exp_voltage) // 2\n")],
  demo=RIG + '''
for fit in ((.3, .7), (.1, .6), (.45, .9)):
    p = PumpedData(pump(level), dc, freq=freq, analyze_iv=True,
                   fit_range=fit, **kw)
    want = level(1 - vph / 2)
    assert abs(p.alpha - want) < .003, (fit, p.alpha, want)
print("ok")
'''),
 dict(id="surface-high-end", prop="C13",
  needs="embedding ranges that do not start at zero, minimum at the upper "
        "end",
  what="the searched reactances stop one step before the end of the range",
  edits=[("qmix/exp/exp_data.py",
          "        zt_imag = np.linspace(xemb_range[0], xemb_range[1], 201)\n"
          "        err_surf =",
          "        zt_imag = np.linspace(xemb_range[0], xemb_range[1], 201,\n"
          "                              endpoint=False)\n"
          "        err_surf =")],
  demo=RIG + '''
p = PumpedData(pump(level), dc, freq=freq, analyze_iv=True, **kw)
n = p.err_surf[:, 150].argmin()
q = PumpedData(pump(level), dc, freq=freq, analyze_iv=True,
               remb_range=(0., 1.), xemb_range=(0., .5), **kw)
assert abs(q.err_surf[n, 200] - p.err_surf[n, 150]) < 1e-9 + 1e-6 * abs(
    p.err_surf[n, 150]), (q.err_surf[n, 200], p.err_surf[n, 150])
print("ok")
'''),
 dict(id="leakage-from-resistance", prop="C21",
  needs="a leakage that is no straight line through the origin",
  what="the leakage current is taken from the subgap resistance instead of "
       "the curve",
  edits=[("qmix/exp/exp_data.py",
          "        self.ileak  = np.interp(vleak / self.vgap,\n"
          "                                self.voltage,\n"
          "                                self.current) * self.igap\n",
          "        self.ileak  = vleak / self.rsg\n")],
  demo=RIG + '''
for v in (1e-3, 2e-3, 2.75e-3):
    d = DCData(sweep, None, **dict(kw, vleak=v))
    want = np.interp(v / d.vgap, d.voltage, d.current) * d.igap
    assert abs(d.ileak - want) < 1e-9 * igap, (v, d.ileak, want)
print("ok")
'''),
 dict(id="gain-of-best-power", prop="C21",
  needs="best_pt='min tn' (or vbest) where the gain is not largest",
  what="the gain in dB is the largest gain, not that of the best point",
  edits=[("qmix/exp/exp_data.py",
          "10 * np.log10(self.gain[self.idx_best])",
          "10 * np.log10(self.gain.max())")],
  demo=RIG + '''
kw.update(analyze_if=True, vshot=(4e-3, 5.5e-3), ifdata_npts=601,
          ifdata_sigma=None, ifdata_vmax=6e-3)
v = np.linspace(0, 6.5e-3, 601)
base = 3. + 2e3 * v
bump = np.exp(-(v - 2.3e-3) ** 2 / (2 * .2e-3 ** 2))
def load(a, b):
    return np.vstack((v, base + a * bump + b * (v < 1.5e-3))).T
hot, cold = load(6., 4.), load(2., 1.5)
for opt in (dict(best_pt='max gain'), dict(best_pt='min tn'),
            dict(vbest=2.1e-3)):
    p = PumpedData(pump(level), dc, hot, cold, freq=freq, analyze_iv=False,
                   **dict(kw, **opt))
    assert np.isclose(p.g_db, 10 * np.log10(p.gain_best)), opt
print("ok")
'''),
 dict(id="junction-if-window", prop="C21",
  needs="a pumped curve that is bent near the best bias point",
  what="the line for the IF impedance of the junction is fitted around the "
       "best point, in steps of two points",
  edits=[("qmix/exp/exp_data.py",
          "self.voltage[i:i + 10], self.current[i:i + 10], 1)",
          "self.voltage[i:i + 20:2], self.current[i:i + 20:2], 1)")],
  demo=RIG + '''
kw.update(analyze_if=True, vshot=(4e-3, 5.5e-3), ifdata_npts=601,
          ifdata_sigma=None)
v = np.linspace(0, 6.5e-3, 601)
bump = np.exp(-(v - 2.3e-3) ** 2 / (2 * .2e-3 ** 2))
hot, cold = (np.vstack((v, 3. + 2e3 * v + a * bump)).T for a in (6., 2.))
p = PumpedData(pump(level), dc, hot, cold, freq=freq, analyze_iv=False,
               vbest=.985 * vgap, **kw)
i = np.abs(p.voltage - p.v_best).argmin()
s = np.polyfit(p.voltage[i:i + 10], p.current[i:i + 10], 1)[0]
assert np.isclose(p.zj_if, rn / s, rtol=1e-6), (p.zj_if, rn / s)
print("ok")
'''),
 dict(id="area-default", prop="C21",
  needs="a junction area other than the default one",
  what="the critical current density is that of the default junction area",
  edits=[("qmix/exp/exp_data.py",
          "        self.jc     = self.vgap / self.rna\n",
          "        self.jc     = self.vgap / (self.rn * PARAMS['area'] * "
          "1e-12)\n")],
  demo=RIG + '''
for area in (1.5, .7):
    d = DCData(sweep, None, **dict(kw, area=area))
    assert np.isclose(d.rna, d.rn * area * 1e-12)
    assert np.isclose(d.jc, d.vgap / (d.rn * area * 1e-12)), area
print("ok")
'''),
 dict(id="own-calibration", prop="C21",
  needs="a DC object with IF data",
  what="hot and cold IF data is calibrated by itself although the DC object "
       "has a calibration",
  edits=[("qmix/exp/exp_data.py",
          "dcif=dciv.dcif, **kw)",
          "dcif=None if analyze_iv else dciv.dcif, **kw)")],
  demo=RIG + '''
kw.update(vshot=(4e-3, 5.5e-3), ifdata_npts=601, ifdata_sigma=None)
v = np.linspace(0, 6.5e-3, 601)
bump = np.exp(-(v - 2.3e-3) ** 2 / (2 * .2e-3 ** 2))
hot, cold = (np.vstack((v, 3. + 2e3 * v + a * bump)).T for a in (6., 2.))
d = DCData(sweep, np.vstack((v, 4. + 1.1e3 * v)).T, **kw)
for iv in (False, True):
    p = PumpedData(pump(level), d, hot, cold, freq=freq, analyze_iv=iv,
                   **dict(kw, analyze_if=True))
    assert np.isclose(p.corr, d.corr), (iv, p.corr, d.corr)
print("ok")
'''),
]
