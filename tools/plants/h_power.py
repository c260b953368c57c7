RIG = '''
import numpy as np
import scipy.constants as sc
from types import SimpleNamespace as NS
from qmix.exp.if_data import if_data, dcif_data
from qmix.exp.if_response import if_response
vgap = 2.7e-3
dc = NS(offset=(0.1e-3, 0.), vgap=vgap, vint=0.2e-3, rn=14., igap=2e-4,
        vraw=np.linspace(-6e-3, 6e-3, 101), iraw=np.linspace(-4e-4, 4e-4, 101))
kw = dict(v_fmt='mV', vmax=6e-3, ifdata_npts=301, ifdata_sigma=None,
          rseries=None, vshot=(4e-3, 5.5e-3), freq=230., t_hot=293.,
          t_cold=78., verbose=False, best_pt='max gain', vbest=None,
          v_multiplier=1.)
v = np.linspace(-1., 7., 400)
line = 2 * v + 3.
bump = np.exp(-(v - 2.2) ** 2 / .3)
hot, cold = (np.vstack((v, line + a * bump)).T for a in (6., 2.))
'''
PLANTS = [
 dict(id="shot-last-range", prop="C20",
  needs="vshot with more than one range",
  what="only the last of the given voltage ranges is used to fit the shot "
       "noise",
  edits=[("qmix/exp/if_data.py",
          "            mask = mask | mask_tmp\n",
          "            mask = mask_tmp\n")],
  demo=RIG + '''
p = np.where(v < 5., line, line + 3 * (v - 5.))
data = np.vstack((v, p)).T
out = [dcif_data(data, dc, **dict(kw, vshot=s))[1].corr for s in (
    [(4e-3, 4.6e-3), (5.2e-3, 5.8e-3)], [(5.2e-3, 5.8e-3), (4e-3, 4.6e-3)])]
assert np.isclose(*out), out
print("ok")
'''),
 dict(id="if-offset-scaled", prop="C20",
  needs="v_multiplier other than one and an offset of the DC data",
  what="the voltage offset is subtracted before the multiplier is applied",
  edits=[("qmix/exp/if_data.py",
          "    # Correct errors in experimental system\n"
          "    ifdata[:, 0] *= v_multiplier\n\n"
          "    # Correct for offset\n"
          "    ifdata[:, 0] = ifdata[:, 0] - dc.offset[0]\n",
          "    # Correct for offset\n"
          "    ifdata[:, 0] = ifdata[:, 0] - dc.offset[0]\n\n"
          "    # Correct errors in experimental system\n"
          "    ifdata[:, 0] *= v_multiplier\n")],
  demo=RIG + '''
scaled = [np.vstack((x[:, 0] / 2, x[:, 1])).T for x in (hot, cold)]
a = if_data(hot, cold, dc, **kw)[0]
b = if_data(*(scaled + [dc]), **dict(kw, v_multiplier=2.))[0]
cols = [0, 1, 2, 4]
assert np.allclose(a[:, cols], b[:, cols], rtol=1e-6)
print("ok")
'''),
 dict(id="y-below-one", prop="C20",
  needs="bias voltages at which the hot load gives less power than the cold "
        "one",
  what="Y-factors below one are no longer limited, so that negative noise "
       "temperatures are found, also as the best ones",
  edits=[("qmix/exp/if_data.py",
          "    y[y <= 1. + 1e-10] = 1. + 1e-10\n",
          "    y[y == 1.] = 1. + 1e-10\n")],
  demo=RIG + '''
dip = 1 * np.exp(-(v - 3.4) ** 2 / .01)
hot[:, 1] -= dip
r, idx, _ = if_data(hot, cold, dc, **dict(kw, best_pt='min tn'))
assert (r[:, 3] > 0).all(), r[:, 3].min()
assert r[idx, 0] * vgap < 3e-3
print("ok")
'''),
 dict(id="dcif-poor-fit", prop="C20",
  needs="IF data without LO whose noise estimate is not reasonable (if_fit "
        "False)",
  what="a given calibration is ignored if its fit is marked as poor",
  edits=[("qmix/exp/if_data.py",
          "    if dcif is None or dcif.corr is None:\n",
          "    if dcif is None or not dcif.if_fit:\n")],
  demo=RIG + '''
from qmix.exp.if_data import DCIFData
x = np.linspace(0, 6e-3, 301) / vgap
for fit in (True, False):
    d = DCIFData(if_noise=70., corr=1.7, shot_slope=np.vstack((x, x)).T,
                 if_fit=fit, vmax=6e-3)
    r, _, out = if_data(hot, cold, dc, dcif=d, **kw)
    assert out.corr == 1.7 and out.if_noise == 70., (fit, out.corr)
    assert np.isclose(r[100, 1], 1.7 * np.interp(
        x[100] * vgap * 1e3, v - .1, hot[:, 1]))
print("ok")
'''),
 dict(id="response-square", prop="C20",
  needs="a spectrum with exactly three frequencies",
  what="three rows are taken for three columns",
  edits=[("qmix/exp/if_response.py",
          "        if if_data.shape[1] != 3:\n",
          "        if if_data.shape[0] == 3:\n")],
  demo=RIG + '''
s = np.array([[4., -40., -43.], [5., -41., -43.], [6., -42., -44.],
              [7., -40., -42.]])
kw = dict(t_hot=293., t_cold=78.)
for n in (4, 3, 2):
    out = if_response(s[:n], **kw)
    assert (out[0] == s[:n, 0]).all(), out
    assert (out[2:] == s[:n, 1:].T).all(), out
print("ok")
'''),
 dict(id="if-edge-power", prop="C20",
  needs="IF data that does not reach vmax",
  what="beyond the measured voltages the last power is repeated instead of "
       "zero",
  edits=[("qmix/exp/if_data.py",
          "    p_out = np.interp(v_out, v, p, left=0, right=0)\n",
          "    p_out = np.interp(v_out, v, p, left=0)\n")],
  demo=RIG + '''
data = np.vstack((v, line)).T[v < 5.3]
r, _ = dcif_data(data, dc, **dict(kw, vshot=(4e-3, 5e-3)))
far = r[:, 0] * vgap > 5.3e-3
assert far.any() and (r[far, 1] == 0).all(), r[far, 1]
print("ok")
'''),
]
