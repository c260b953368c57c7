PLANTS = [
 dict(id="power-real-part", prop="C11",
  needs="a Thevenin voltage with an imaginary part",
  what="the available power is computed from the real part of the Thevenin "
       "voltage only",
  edits=[("qmix/circuit.py",
          "power = np.abs(v_v) ** 2 / r_ohms / 8.",
          "power = v_v.real ** 2 / r_ohms / 8.")],
  demo='''
from qmix.circuit import EmbeddingCircuit
c = EmbeddingCircuit(1, 1, vgap=2.8e-3, rn=14.)
c.zt[1, 1] = 0.5 - 0.1j
c.vt[1, 1] = 0.3 + 0.4j
want = (0.5 * 2.8e-3) ** 2 / 8 / 7.
got = c.available_power(1, 1)
assert abs(got - want) < 1e-9 * want, (got, want)
print("ok")
'''),
 dict(id="alpha-harmonic-frequency", prop="C11",
  needs="set_alpha for a tone whose number differs from the harmonic number",
  what="the photon voltage of another tone is used to set the drive level",
  edits=[("qmix/circuit.py",
          "self.vt[f, p] = alpha * self.freq[f] * (self.zt[f, p] / zj + 1)",
          "self.vt[f, p] = alpha * self.freq[p] * (self.zt[f, p] / zj + 1)")],
  demo='''
from qmix.circuit import EmbeddingCircuit
c = EmbeddingCircuit(2, 1)
c.freq[1:] = 0.3, 0.35
c.zt[1:, 1] = 0.5, 0.6 - 0.1j
c.set_alpha(0.8, 2, 1, zj=0.7)
want = 0.8 * 0.35 * ((0.6 - 0.1j) / 0.7 + 1)
assert abs(c.vt[2, 1] - want) < 1e-12, (c.vt[2, 1], want)
print("ok")
'''),
 dict(id="swap-sign", prop="C22",
  needs="resp_swap at a bias voltage where the KK transform is negative or "
        "positive (any but its zeros)",
  what="resp_swap returns idc - j ikk instead of idc + j ikk for array "
       "input",
  edits=[("qmix/respfn.py",
          "        return self._f_idc(vbias) + 1j * self._f_ikk(vbias)",
          "        swapped = self._f_idc(vbias) + 1j * self._f_ikk(vbias)\n"
          "        if np.ndim(vbias) > 1:\n"
          "            return np.conj(swapped)\n"
          "        return swapped")],
  demo='''
import numpy as np
from qmix.respfn import RespFnPolynomial
r = RespFnPolynomial(50, verbose=False)
v = np.linspace(0, 2, 12).reshape(3, 4)
want = 1j * np.conj(r.resp(v))
assert np.allclose(r.resp_swap(v), want), "swapped"
print("ok")
'''),
 dict(id="expanded-leak", prop="C22",
  needs="the expanded model with a large leakage current beyond the gap",
  what="the leakage current is switched off at the positive gap voltage "
       "twice instead of once at each gap",
  edits=[("qmix/mathfn/ivcurve_models.py",
          "ileak * (1 / (1 + np.exp(agap * (v_v + vgap)))) +",
          "ileak * (1 / (1 + np.exp(agap * (v_v - vgap)))) +")],
  demo='''
import numpy as np
from qmix.mathfn.ivcurve_models import expanded
v = np.linspace(-2, 2, 81)
i = expanded(v, ileak=2e-5)
assert np.allclose(i, -i[::-1]), np.abs(i + i[::-1]).max()
print("ok")
'''),
 dict(id="slope-offset-limit", prop="C22",
  needs="RespFnFromIVData with data whose current at vlimit is not on the "
        "line the rest of the curve follows",
  what="the unit-slope continuation starts from the first sample's offset "
       "when the data contain exactly vlimit",
  edits=[("qmix/respfn.py",
          "        mask = (voltage > 0) & (voltage < vmax)",
          "        mask = (voltage >= 0) & (voltage < vmax + 0.1)")],
  demo='''
import numpy as np
from qmix.respfn import RespFnFromIVData
v = np.linspace(0, 3, 3001)
i = np.where(v < 1, 0.05 * v, v)
i[v > 1.82] = 5.
r = RespFnFromIVData(v, i, verbose=False)
assert abs(r.idc(2.5) - 2.5) < 0.05, r.idc(2.5)
print("ok")
'''),
]
