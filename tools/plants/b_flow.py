PLANTS = [
 dict(id="ifnpts-default", prop="C06",
  needs="iv_curve or dciv_curve called without npts",
  what="the filter resamples to the default number of IF points when npts "
       "is not given",
  edits=[("qmix/exp/iv_data.py",
          "    filter_data = kw.get('filter_data', PARAMS['filter_data'])\n"
          "    npts = kw.get('npts', PARAMS['npts'])\n",
          "    filter_data = kw.get('filter_data', PARAMS['filter_data'])\n"
          "    npts = kw.get('npts', PARAMS['ifdata_npts'])\n")],
  demo='''
import numpy as np
from qmix.exp.iv_data import dciv_curve
from qmix.mathfn.ivcurve_models import exponential
v = np.linspace(-2, 2, 4001)
i = exponential(v, rn=1, vgap=1, rsg=10, agap=40)
data = np.vstack((v * 2.8, i * 2.8 / 14.)).T
a = dciv_curve(data, verbose=False)
b = dciv_curve(data, verbose=False, npts=6001)
assert np.array_equal(a[1], b[1]), np.abs(a[1] - b[1]).max()
print("ok")
'''),
 dict(id="zero-offset-ignored", prop="C07",
  needs="voffset and ioffset given as exactly zero for pumped data",
  what="a given offset of zero is treated as not given",
  edits=[("qmix/exp/iv_data.py",
          "    if voffset is not None and ioffset is not None:\n"
          "        volt_v -= voffset\n"
          "        curr_a -= ioffset\n"
          "    else:\n",
          "    if voffset and ioffset:\n"
          "        volt_v -= voffset\n"
          "        curr_a -= ioffset\n"
          "    else:\n")],
  demo='''
import numpy as np
from qmix.exp.iv_data import dciv_curve, iv_curve
from qmix.mathfn.ivcurve_models import exponential
v = np.linspace(-2, 2, 4001)
i = exponential(v, rn=1, vgap=1, rsg=10, agap=40)
data = np.vstack((v * 2.8 + 0.1, i * 2.8 / 14.)).T
_, _, dc = dciv_curve(data, verbose=False, voffset=1e-4, ioffset=1e-6)
assert abs(dc.offset[0]) > 5e-5, dc.offset
kw = dict(verbose=False, filter_data=False)
vn, a = iv_curve(data, dc, voffset=0., ioffset=0., **kw)
vn, b = iv_curve(data, dc, voffset=1e-12, ioffset=1e-15, **kw)
m = np.abs(vn) < 1.8
assert np.allclose(a[m], b[m], atol=1e-6), np.abs(a - b)[m].max()
print("ok")
'''),
 dict(id="power-unit-prefix", prop="C08",
  needs="a misspelled power unit that starts like a known one, e.g. 'mWatt'",
  what="available_power accepts unknown units that begin with mw",
  edits=[("qmix/circuit.py",
          "        elif units.lower() == 'mw':\n"
          "            return power / sc.milli\n",
          "        elif units.lower()[:2] == 'mw':\n"
          "            return power / sc.milli\n")],
  demo='''
from qmix.circuit import EmbeddingCircuit
c = EmbeddingCircuit(1, 1, vgap=3e-3, rn=14.)
c.vt[1, 1] = 0.3
c.zt[1, 1] = 0.3
c.available_power(units='mW')
try:
    c.available_power(units='mWatt')
except ValueError:
    print("ok")
else:
    raise SystemExit("unknown unit accepted")
'''),
 dict(id="if-extra-columns", prop="C09",
  needs="IF data with a third column",
  what="IF data with more than two columns is accepted",
  edits=[("qmix/exp/if_data.py",
          "    assert ifdata.shape[1] == 2, 'IF data should have 2 columns.'\n",
          "    assert ifdata.shape[1] >= 2, 'IF data should have 2 columns.'\n"
          "    ifdata = ifdata[:, :2]\n")],
  demo='''
import numpy as np
from qmix.exp.if_data import dcif_data
from qmix.exp.iv_data import dciv_curve
from qmix.mathfn.ivcurve_models import exponential
v = np.linspace(-2, 2, 4001)
i = exponential(v, rn=1, vgap=1, rsg=10, agap=40)
iv = np.vstack((v * 2.8, i * 2.8 / 14.)).T
_, _, dc = dciv_curve(iv, verbose=False)
x = np.linspace(0, 8, 801)
p = 5 + 20 * np.abs(x)
dcif_data(np.vstack((x, p)).T, dc, verbose=False)
try:
    dcif_data(np.vstack((x, p, p * 2)).T, dc, verbose=False)
except AssertionError:
    print("ok")
else:
    raise SystemExit("three columns accepted")
'''),
 dict(id="qtc-single-list", prop="C10",
  needs="a frequency list with exactly one entry",
  what="qtcurrent returns a 1-D array for a list of one frequency",
  edits=[("qmix/qtcurrent.py",
          "    if freq_is_list:\n        return current_out\n",
          "    if freq_is_list and freq_npts > 1:\n"
          "        return current_out\n")],
  demo='''
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.respfn import RespFnPolynomial
from qmix.qtcurrent import qtcurrent
cct = EmbeddingCircuit(1, 1, vb_npts=5)
cct.freq[1] = 0.3
resp = RespFnPolynomial(50, verbose=False)
vj = cct.initialize_vj()
vj[1, 1] = 0.3
r = qtcurrent(vj, cct, resp, [0.3], num_b=5, verbose=False)
assert r.shape == (1, 5), r.shape
print("ok")
'''),
]
