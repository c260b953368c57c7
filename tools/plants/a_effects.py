PLANTS = [
 dict(id="qtc-freqlist-inplace", prop="C01",
  needs="freq_list passed as a Python list with more than four decimals",
  what="qtcurrent rounds the caller's frequency list in place",
  edits=[("qmix/qtcurrent.py", "        freq_list = list(freq_list)\n",
          "        if not isinstance(freq_list, list):\n"
          "            freq_list = list(freq_list)\n")],
  demo='''
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.respfn import RespFnPolynomial
from qmix.qtcurrent import qtcurrent
cct = EmbeddingCircuit(1, 1, vb_npts=5)
cct.freq[1] = 0.3
resp = RespFnPolynomial(50, verbose=False)
vj = cct.initialize_vj()
vj[1, 1] = 0.3
fl = [0, 0.30000123]
qtcurrent(vj, cct, resp, fl, num_b=5, verbose=False)
assert fl == [0, 0.30000123], fl
print("ok")
'''),
 dict(id="sort-matrix-view", prop="C02",
  needs="a matrix that is already sorted, and a later write to the result",
  what="sort_matrix hands back the caller's own array when nothing has to "
       "be moved",
  edits=[("qmix/exp/clean_data.py",
          "    idx = matrix[:, col].argsort()\n\n    return matrix[idx]\n",
          "    column = matrix[:, col]\n"
          "    if (column[1:] >= column[:-1]).all():\n"
          "        return matrix[:]\n\n"
          "    return matrix[column.argsort()]\n")],
  demo='''
import numpy as np
from qmix.exp.clean_data import sort_matrix
m = np.array([[0., 1.], [1., 2.], [2., 3.]])
r = sort_matrix(m)
r[0, 1] = 99.
assert m[0, 1] == 1., m
m = np.array([[3., 1.], [1., 2.], [2., 3.]])
assert (sort_matrix(m)[:, 0] == [1, 2, 3]).all()
print("ok")
'''),
 dict(id="hb-seterr", prop="C03",
  needs="a caller that relies on NumPy's error settings after a simulation",
  what="harmonic_balance switches divide-by-zero warnings off for the whole "
       "process",
  edits=[("qmix/harmonic_balance.py",
          "            with np.errstate(divide='ignore'):\n"
          "                # Check relative error at k\n",
          "            np.seterr(all='ignore')\n"
          "            if True:\n"
          "                # Check relative error at k\n")],
  demo='''
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.respfn import RespFnPolynomial
from qmix.harmonic_balance import harmonic_balance
cct = EmbeddingCircuit(1, 1, vb_npts=5)
cct.freq[1] = 0.3
cct.vt[1, 1] = 0.3
cct.zt[1, 1] = 0.3
resp = RespFnPolynomial(50, verbose=False)
before = np.geterr()
harmonic_balance(cct, resp, num_b=5, verbose=False)
assert np.geterr() == before, np.geterr()
print("ok")
'''),
 dict(id="hb-quiet-iterations", prop="C04",
  needs="verbose=False and at least one Newton iteration",
  what="harmonic_balance reports the number of iterations although verbose "
       "is off",
  edits=[("qmix/harmonic_balance.py",
          "        if iteration >= 1:\n"
          "            tit = time / iteration  # time per iteration\n"
          "            msg = \" - {} iterations required\"\n"
          "            print((msg.format(iteration)))\n"
          "            print((\" - time per iteration:\\t{:7.2f} s / {:6.2f} min / {:5.2f} hrs\".format(tit, tit / 60., tit / 3600.)))\n",
          "    if iteration >= 1:\n"
          "        tit = time / iteration  # time per iteration\n"
          "        msg = \" - {} iterations required\"\n"
          "        print((msg.format(iteration)))\n"
          "        if verbose:\n"
          "            print((\" - time per iteration:\\t{:7.2f} s / {:6.2f} min / {:5.2f} hrs\".format(tit, tit / 60., tit / 3600.)))\n")],
  demo='''
import io, contextlib
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.respfn import RespFnPolynomial
from qmix.harmonic_balance import harmonic_balance
cct = EmbeddingCircuit(1, 1, vb_npts=5)
cct.freq[1] = 0.3
cct.vt[1, 1] = 0.3
cct.zt[1, 1] = 0.3
resp = RespFnPolynomial(50, verbose=False)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    harmonic_balance(cct, resp, num_b=10, verbose=False, max_it=20)
assert out.getvalue() == "", repr(out.getvalue())
print("ok")
'''),
 dict(id="hb-verbose-mask", prop="C05",
  needs="mode='m', verbose=False and points that have not converged",
  what="the mask of finished points is only narrowed when verbose is on",
  edits=[("qmix/harmonic_balance.py",
          "                good_points = rel_error < stop_rerror\n"
          "                finished_points = finished_points & good_points\n"
          "                complete = float(np.sum(good_points)) / npts\n",
          ""),
         ("qmix/harmonic_balance.py",
          "                f, p = _k_to_fp(k, num_p)\n",
          "                f, p = _k_to_fp(k, num_p)\n"
          "                good_points = rel_error < stop_rerror\n"
          "                finished_points = finished_points & good_points\n"
          "                complete = float(np.sum(good_points)) / npts\n")],
  demo='''
import io, contextlib
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.respfn import RespFnPolynomial
from qmix.harmonic_balance import harmonic_balance
cct = EmbeddingCircuit(1, 1, vb_npts=5)
cct.freq[1] = 0.3
cct.vt[1, 1] = 0.3
cct.zt[1, 1] = 0.3
resp = RespFnPolynomial(50, verbose=False)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    _, m1 = harmonic_balance(cct, resp, num_b=10, verbose=False, max_it=0, mode="m")
    _, m2 = harmonic_balance(cct, resp, num_b=10, verbose=True, max_it=0, mode="m")
assert (m1 == m2).all(), (m1, m2)
print("ok")
'''),
]
