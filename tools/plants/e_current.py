PLANTS = [
 dict(id="floor-limit", prop="C15",
  needs="two or more harmonics and an odd distance of the order from the "
        "summation limit",
  what="the convolution of the harmonics reaches one order too far: floor "
       "division instead of truncation lets the index run past the limit "
       "into the coefficients of the negative orders",
  edits=[("qmix/qtcurrent.py",
          "l_min = max(-num_b, int((k - num_b) / p))",
          "l_min = max(-num_b, (k - num_b) // p)")],
  demo='''
import numpy as np
from scipy.special import jv
from qmix.qtcurrent import calculate_phase_factor_coeff
nb, n = 4, 3
freq = np.array([0., 0.3])
vj = np.zeros((2, 3, n), dtype=complex)
vj[1, 1] = 0.5 + 0.2j
vj[1, 2] = 0.4 - 0.1j
got = calculate_phase_factor_coeff(vj, freq, 1, 2, nb)

def jac(p, k):
    x = vj[1, p, 0]
    return jv(k, abs(x) / (p * 0.3)) * np.exp(-1j * k * np.angle(x))

for k in range(-nb, nb + 1):
    want = sum(jac(1, k - 2 * m) * jac(2, m) for m in range(-nb, nb + 1)
               if abs(k - 2 * m) <= nb)
    assert np.allclose(got[1, k], want, rtol=1e-6, atol=1e-12), k
print("ok")
'''),
 dict(id="assigned-component", prop="C14",
  needs="two tones of which one is a harmonic of the other (several "
        "combinations have the requested frequency)",
  what="the component of one combination replaces those of the earlier "
       "ones instead of being added",
  edits=[("qmix/qtcurrent.py",
          "                current_out += _current_coeff_2_tones(a, b, ccc, "
          "resp_matrix, num_b1, num_b2, npts)",
          "                current_out = _current_coeff_2_tones(a, b, ccc, "
          "resp_matrix, num_b1, num_b2, npts)")],
  demo='''
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.respfn import RespFnPolynomial
from qmix.qtcurrent import qtcurrent
resp = RespFnPolynomial(50, verbose=False)
one = EmbeddingCircuit(1, 2, vb_npts=11)
one.freq[1] = 0.3
two = EmbeddingCircuit(2, 1, vb_npts=11)
two.freq[1:] = 0.3, 0.6
v1 = np.zeros((2, 3, 11), dtype=complex)
v1[1, 1], v1[1, 2] = 0.2, 0.1
v2 = np.zeros((3, 2, 11), dtype=complex)
v2[1, 1], v2[2, 1] = 0.2, 0.1
f = [0.3]
# with two harmonics per tone the combinations are complete
two = EmbeddingCircuit(2, 2, vb_npts=11)
two.freq[1:] = 0.3, 0.6
v2 = np.zeros((3, 3, 11), dtype=complex)
v2[1, 1], v2[1, 2] = 0.2, 0.1
v2[2, 1] = 1e-9
a = qtcurrent(v1, one, resp, f, 6, verbose=False)
b = qtcurrent(v2, two, resp, f, 6, verbose=False)
assert np.allclose(a, b, atol=1e-4), np.abs(a - b).max()
print("ok")
'''),
 dict(id="third-limit", prop="C14",
  needs="three tones with a different summation limit for the second and "
        "the third one",
  what="terms of the third tone are cut at the limit of the second",
  edits=[("qmix/qtcurrent.py",
          "                   -num_b3 <= m - c <= num_b3:",
          "                   -num_b2 <= m - c <= num_b2:")],
  demo='''
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.respfn import RespFnPolynomial
from qmix.qtcurrent import qtcurrent
resp = RespFnPolynomial(50, verbose=False)

def current(order, nb):
    cct = EmbeddingCircuit(3, 1, vb_npts=7)
    vj = np.zeros((4, 2, 7), dtype=complex)
    for n, k in enumerate(order):
        cct.freq[n + 1] = (0.3, 0.33, 0.37)[k]
        vj[n + 1, 1] = (0.3, 0.2, 0.4)[k]
    return qtcurrent(vj, cct, resp, [0.3, 0.33, 0.37], nb, verbose=False)

# the order in which the tones are listed does not matter
a = current((0, 1, 2), (5, 2, 6))
b = current((0, 2, 1), (5, 6, 2))
assert np.allclose(a, b, atol=1e-9), np.abs(a - b).max()
print("ok")
'''),
 dict(id="lost-row", prop="C12",
  needs="three tones and the highest photon step of the third one",
  what="the last row of the response table of the third tone is never "
       "computed and holds the response at zero bias",
  edits=[("qmix/qtcurrent.py",
          "            for m in range(-num_b3, num_b3 + 1):\n"
          "                voltage[k, l, m] =",
          "            for m in range(-num_b3, num_b3):\n"
          "                voltage[k, l, m] =")],
  demo='''
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.respfn import RespFnPolynomial
from qmix.qtcurrent import interpolate_respfn
resp = RespFnPolynomial(50, verbose=False)
cct = EmbeddingCircuit(3, 1, vb_npts=7)
cct.freq[1:] = 0.3, 0.33, 0.37
t = interpolate_respfn(cct, resp, (2, 1, 3))
for k in range(-2, 3):
    for l in range(-1, 2):
        for m in range(-3, 4):
            want = resp(cct.vb + k * 0.3 + l * 0.33 + m * 0.37)
            assert np.allclose(t[k, l, m], want), (k, l, m)
print("ok")
'''),
]
