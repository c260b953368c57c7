PLANTS = [
 dict(id="doubles-keep-last", prop="C18",
  needs="repeated x values whose y values differ",
  what="of repeated x values the last row is kept instead of the first",
  edits=[("qmix/exp/clean_data.py",
          "    mask[1:] = (x[1:] != x[:-1])",
          "    mask[:-1] = (x[1:] != x[:-1])")],
  demo='''
import numpy as np
from qmix.exp.clean_data import clean_xy, remove_doubles_xy
x = np.array([0., 1., 1., 2., 2., 2., 3.])
y = np.array([0., 1., 5., 2., 6., 7., 3.])
a, b = remove_doubles_xy(x, y)
assert (a == [0, 1, 2, 3]).all() and (b == [0, 1, 2, 3]).all(), b
print("ok")
'''),
 dict(id="doubles-check-column", prop="C18",
  needs="data sorted by the first column, a call for the second",
  what="the check for sorted data looks at the first column whatever the "
       "column",
  edits=[("qmix/exp/clean_data.py",
          "        assert (matrix[1:, col] - matrix[:-1, col]).min() >= 0",
          "        assert (matrix[1:, 0] - matrix[:-1, 0]).min() >= 0")],
  demo='''
import numpy as np
from qmix.exp.clean_data import remove_doubles_matrix
m = np.array([[0., 1.], [1., 3.], [2., 1.], [3., 3.]])
try:
    remove_doubles_matrix(m, col=1)
except AssertionError:
    print("ok")
else:
    raise SystemExit("unsorted column accepted")
'''),
 dict(id="gauss-right-end", prop="C18",
  needs="data that is not flat near its right end",
  what="the mirror image at the right end repeats the last point, so the "
       "smoothed data near the end is shifted by one sample",
  edits=[("qmix/mathfn/filters.py",
          "x[-2:-wlen - 1:-1]]",
          "x[-1:-wlen:-1]]")],
  demo='''
import numpy as np
from qmix.mathfn.filters import gauss_conv
x = np.random.RandomState(1).randn(60).cumsum()
a, b = gauss_conv(x, 3.), gauss_conv(x[::-1], 3.)[::-1]
assert np.allclose(a, b), abs(a - b).max()
print("ok")
'''),
 dict(id="span-end-run", prop="C18",
  needs="x values that are not equally spaced near the right end",
  what="the difference quotient near the right end is divided by the "
       "distance of points near the left end",
  edits=[("qmix/mathfn/misc.py",
          "            der[-n] = rise[-n] / run[-n]",
          "            der[-n] = rise[-n] / run[n]")],
  demo='''
import numpy as np
from qmix.mathfn.misc import slope_span_n
x = np.linspace(1, 3, 60) ** 2
d = slope_span_n(x, 2.5 * x + 1, n=5)
assert np.allclose(d, 2.5), d
print("ok")
'''),

 dict(id="pass-from-zero", prop="C19",
  needs="a sweep that goes down, up and back, starting at a bias voltage "
        "other than zero",
  what="the return sweep is used from zero volts instead of from the "
       "voltage at which the sweep started, so that part of the curve comes "
       "from two passes or from none",
  edits=[("qmix/exp/iv_data.py",
          "idx_start = np.abs(v[idx_min:idx_max+1] - v[0]).argmin() + idx_min",
          "idx_start = np.abs(v[idx_min:idx_max+1]).argmin() + idx_min")],
  demo='''
import numpy as np
from qmix.exp.iv_data import dciv_curve
v = -np.r_[np.linspace(1, 6, 101), np.linspace(6, -6, 241)[1:],
           np.linspace(-6, 1, 141)[1:]]
i = v ** 3 * 10.
i[101:341] -= 40. * (v[101:341] < -1.01)    # hysteresis of the return sweep
x, y, dc = dciv_curve(np.c_[v, i], vgap=2.8e-3, voffset=0., ioffset=0.,
                      vrn=[4e-3, 5.9e-3], vrsg=2e-3, vmax=5e-3, npts=101,
                      filter_data=False, v_fmt="mV", i_fmt="uA")
want = np.interp(x * dc.vgap, np.sort(v) * 1e-3, np.sort(v) ** 3 * 1e-5)
assert np.allclose(y * dc.igap, want, atol=1e-9), abs(y * dc.igap - want).max()
print("ok")
'''),
 dict(id="filter-grid-coarse", prop="C19",
  needs="filtering of data with another number of points than npts",
  what="the rotated curve is resampled at as many points as were measured "
       "instead of npts, so the smoothing depends on how densely the curve "
       "was measured",
  edits=[("qmix/exp/iv_data.py",
          "    x_resampled = np.linspace(x.min(), x.max(), npts)",
          "    x_resampled = np.linspace(x.min(), x.max(), len(x))")],
  demo='''
import numpy as np
from qmix.exp.iv_data import dciv_curve
v = np.linspace(-6, 6, 301)
i = 100 * v + 150 * np.tanh(8 * (v - 2.8)) + 150 * np.tanh(8 * (v + 2.8))
v2 = np.sort(np.r_[v, (v[1:] + v[:-1]) / 2])    # the same polygon
i2 = np.interp(v2, v, i)
opt = dict(vgap=2.8e-3, voffset=0., ioffset=0., vrn=[4e-3, 4.9e-3],
           vrsg=2e-3, vmax=6e-3, npts=1201, v_fmt="mV", i_fmt="uA",
           filter_nwind=21, filter_npoly=3, filter_theta=.785)
_, a, _ = dciv_curve(np.c_[v, i], filter_data=True, **opt)
_, b, _ = dciv_curve(np.c_[v2, i2], filter_data=True, **opt)
assert np.allclose(a, b, atol=1e-9), abs(a - b).max()
print("ok")
'''),
 dict(id="pumped-edge-current", prop="C19",
  needs="pumped data that covers a smaller voltage range than vmax",
  what="above the measured range the pumped current stays at its last value "
       "instead of being zero",
  edits=[("qmix/exp/iv_data.py",
          "current = np.interp(v_temp, voltage, current, left=0, right=0)",
          "current = np.interp(v_temp, voltage, current, left=0)")],
  demo='''
import numpy as np
from qmix.exp.iv_data import dciv_curve, iv_curve
v = np.linspace(-6, 6, 601)
d = np.c_[v, v * 100.]
opt = dict(voffset=0., ioffset=0., vmax=6e-3, npts=301, v_fmt="mV",
           i_fmt="uA", filter_data=False, vrn=[4e-3, 4.9e-3], vrsg=2e-3)
_, _, dc = dciv_curve(d, vgap=2.8e-3, **opt)
x, y = iv_curve(d[100:-100], dc, **opt)
assert y[0] == 0 and y[-1] == 0, y
print("ok")
'''),
 dict(id="intercept-from-subgap", prop="C19",
  needs="a curve whose normal branch does not go through the origin, and a "
        "use of the intercept voltage",
  what="the intercept of the line fitted to the normal branch is taken at "
       "zero voltage, divided by the wrong slope (its sign is lost)",
  edits=[("qmix/exp/iv_data.py",
          "    v_intercept = -p[1] / rn_slope",
          "    v_intercept = abs(p[1]) / rn_slope")],
  demo='''
import numpy as np
from qmix.exp.iv_data import dciv_curve
v = np.linspace(-6, 6, 601)
i = np.where(abs(v) > 2.8, v * 100. + 30 * np.sign(v), v * 3.)
_, _, dc = dciv_curve(np.c_[v, i], vgap=2.8e-3, voffset=0., ioffset=0.,
                      vrn=[4e-3, 4.9e-3], vrsg=2e-3, vmax=6e-3, npts=301,
                      v_fmt="mV", i_fmt="uA", filter_data=False)
assert abs(dc.vint + .3e-3) < 1e-9, dc.vint
print("ok")
'''),
 dict(id="static-resistance-abs", prop="C19",
  needs="a series resistance and points near zero bias whose voltage and "
        "current have opposite signs",
  what="a negative static resistance is turned positive instead of being set "
       "to zero, which mirrors those points to the other side of zero",
  edits=[("qmix/exp/iv_data.py",
          "    rstatic[rstatic < 0] = 0.",
          "    rstatic = np.abs(rstatic)")],
  demo='''
import numpy as np
from qmix.exp.iv_data import dciv_curve, iv_curve
v = np.linspace(-6, 6, 600)
opt = dict(voffset=0., ioffset=0., vmax=6e-3, npts=301, v_fmt="mV",
           i_fmt="uA", filter_data=False, vrn=[4e-3, 4.9e-3], vrsg=2e-3)
_, _, dc = dciv_curve(np.c_[v, v * 100.], vgap=2.8e-3, **opt)
i = v * 100. + 30.                   # current of the other sign near zero
i[np.abs(i) < 1.] = 2.
x, y = iv_curve(np.c_[v, i], dc, rseries=1., **opt)
j = i * 1e-6
r = np.maximum(v * 1e-3 / j, 0.)
want = np.interp(x, (r - 1.) * j / dc.vgap, j / dc.igap, left=0, right=0)
assert np.allclose(y, want), abs(y - want).max()
print("ok")
'''),
]
