PLANTS = [
 dict(id="last-signal-error", prop="C16",
  needs="two or more signals of which a later one converges before an "
        "earlier one",
  what="the maximum relative error is that of the last signal only, so the "
       "iteration stops and reports convergence too early",
  edits=[("qmix/harmonic_balance.py",
          "max_rel_error = np.maximum(np.max(rel_error), max_rel_error)",
          "max_rel_error = np.max(rel_error)")],
  demo='''
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.respfn import RespFnPolynomial
from qmix.harmonic_balance import harmonic_balance
resp = RespFnPolynomial(50, verbose=False)
cct = EmbeddingCircuit(2, 1, vb_npts=11)
cct.freq[1:] = 0.3, 0.35
cct.zt[1, 1] = 0.3 - 0.1j
cct.vt[1, 1] = 0.5
cct.vt[2, 1] = 0.1
vj, it, ok = harmonic_balance(cct, resp, num_b=8, max_it=0, mode="x",
                              verbose=False)
_, mask = harmonic_balance(cct, resp, num_b=8, max_it=0, mode="m",
                           verbose=False)
assert ok == bool(mask.all()), (ok, mask)
print("ok")
'''),
 dict(id="mask-last-signal", prop="C16",
  needs="mode 'm', two or more signals, a bias point at which only the last "
        "signal meets the target",
  what="the mask of finished points is True where the last signal is good "
       "instead of where all are",
  edits=[("qmix/harmonic_balance.py",
          "finished_points = finished_points & good_points",
          "finished_points = good_points")],
  demo='''
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.respfn import RespFnPolynomial
from qmix.harmonic_balance import harmonic_balance
resp = RespFnPolynomial(50, verbose=False)
cct = EmbeddingCircuit(2, 1, vb_npts=11)
cct.freq[1:] = 0.3, 0.35
cct.zt[1, 1] = 0.3 - 0.1j
cct.vt[1, 1] = 0.5
cct.vt[2, 1] = 0.1
_, mask = harmonic_balance(cct, resp, num_b=8, max_it=0, mode="m",
                           verbose=False)
assert not mask.all(), mask
print("ok")
'''),
 dict(id="first-step-undamped", prop="C17",
  needs="a damping coefficient other than one",
  what="damping is left out of the first correction",
  edits=[("qmix/harmonic_balance.py",
          "vj_2d += corr * damp_coeff",
          "vj_2d += corr * damp_coeff if iteration else corr")],
  demo='''
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.respfn import RespFnPolynomial
from qmix.harmonic_balance import harmonic_balance
resp = RespFnPolynomial(50, verbose=False)
cct = EmbeddingCircuit(1, 1, vb_npts=11)
cct.freq[1] = 0.3
cct.zt[1, 1] = 0.5 - 0.4j
cct.vt[1, 1] = 1.0


def run(it, damp):
    return harmonic_balance(cct, resp, num_b=5, max_it=it, damp_coeff=damp,
                            stop_rerror=1e-12, verbose=False)[1, 1]


a, b, c = run(0, 1), run(1, 1), run(1, .5)
assert np.allclose(c, (a + b) / 2), (a, b, c)
print("ok")
'''),
 dict(id="guess-normalised", prop="C17",
  needs="no initial voltages and an embedding impedance with a reactance",
  what="the first guess divides by the magnitude of the total impedance, "
       "losing the phase of the voltage divider",
  edits=[("qmix/harmonic_balance.py",
          "zj_guess / (zj_guess + zt[:, :, None]) *",
          "zj_guess / np.abs(zj_guess + zt[:, :, None]) *")],
  demo='''
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.respfn import RespFnPolynomial
from qmix.harmonic_balance import harmonic_balance
resp = RespFnPolynomial(50, verbose=False)
cct = EmbeddingCircuit(1, 1, vb_npts=11)
cct.freq[1] = 0.3
cct.zt[1, 1] = 0.5 - 0.4j
cct.vt[1, 1] = 1.0
vj = harmonic_balance(cct, resp, num_b=5, max_it=0, zj_guess=0.7,
                      verbose=False)
assert np.allclose(vj[1, 1], 0.7 / (1.2 - 0.4j)), vj[1, 1]
print("ok")
'''),
 dict(id="check-default-limits", prop="C17",
  needs="check_hb_error with num_b other than 15 on voltages that depend on "
        "the summation limits",
  what="the check computes the currents with the default limits",
  edits=[("qmix/harmonic_balance.py",
          "ij_all = _qtcurrent_all_freq(vj_check, cct, resp, num_b)",
          "ij_all = _qtcurrent_all_freq(vj_check, cct, resp)")],
  demo='''
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.respfn import RespFnPolynomial
from qmix.harmonic_balance import harmonic_balance, check_hb_error
resp = RespFnPolynomial(50, verbose=False)
cct = EmbeddingCircuit(1, 1, vb_npts=11)
cct.freq[1] = 0.3
cct.zt[1, 1] = 0.5 - 0.1j
cct.vt[1, 1] = 1.0
vj, _, ok = harmonic_balance(cct, resp, num_b=1, mode="x", verbose=False)
assert ok
check_hb_error(vj, cct, resp, num_b=1)
print("ok")
'''),
]
