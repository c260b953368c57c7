DATA = '''
import os, sys, tempfile
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from qmix.mathfn.ivcurve_models import exponential
v = np.linspace(-2, 2, 4001)
i = exponential(v, rn=1, vgap=1, rsg=10, agap=40)
data = np.vstack((v * 2.8, i * 2.8 / 14.)).T
'''
PLANTS = [
 dict(id="numb-default", prop="C23",
  needs="qtcurrent called without num_b at a drive level that needs more "
        "than ten Bessel functions",
  what="the signature default of num_b is 10, not the documented 15",
  edits=[("qmix/qtcurrent.py",
          "def qtcurrent(vj, cct, resp, freq_list, num_b=15,",
          "def qtcurrent(vj, cct, resp, freq_list, num_b=10,")],
  demo='''
import numpy as np
from qmix.circuit import EmbeddingCircuit
from qmix.qtcurrent import qtcurrent
from qmix.respfn import RespFnPolynomial
resp = RespFnPolynomial(50, verbose=False)
c = EmbeddingCircuit(1, 1)
c.freq[1] = 0.1
vj = c.initialize_vj()
vj[1, 1, :] = 0.8
a = qtcurrent(vj, c, resp, [0., 0.1], verbose=False)
b = qtcurrent(vj, c, resp, [0., 0.1], 15, verbose=False)
assert np.array_equal(a, b), np.abs(a - b).max()
print("ok")
'''),
 dict(id="exp-smear-default", prop="C23",
  needs="RespFnPolynomial built without max_interp_error but with "
        "check_error",
  what="the polynomial response function tolerates ten times the "
       "documented interpolation error",
  edits=[("qmix/respfn.py",
          "def _default_params(kwargs, max_dc=101, max_kk=151, "
          "max_error=0.001,\n",
          "def _default_params(kwargs, max_dc=101, max_kk=151, "
          "max_error=0.01,\n")],
  demo='''
from qmix.respfn import RespFnPolynomial
kw = dict(verbose=False, check_error=True, max_npts_dc=25, max_npts_kk=31)
def outcome(**more):
    try:
        RespFnPolynomial(50, **kw, **more)
    except Exception as e:
        return type(e).__name__
    return "built"
a, b = outcome(), outcome(max_interp_error=0.001)
assert a == b, (a, b)
print("ok")
'''),
 dict(id="save-current-figure", prop="C24",
  needs="plot_offset with a file name and an axis of a figure that is not "
        "the current one",
  what="the current figure is saved instead of the one drawn on",
  edits=[("qmix/exp/exp_data.py",
          "        ax.set_ylabel(r'Current ($\\mu$A)')\n"
          "        ax.minorticks_on()\n"
          "        ax.grid()\n"
          "        if fig_name is not None:\n"
          "            fig.savefig(fig_name, **_plot_params)\n"
          "            plt.close(fig)\n",
          "        ax.set_ylabel(r'Current ($\\mu$A)')\n"
          "        ax.minorticks_on()\n"
          "        ax.grid()\n"
          "        if fig_name is not None:\n"
          "            plt.savefig(fig_name, **_plot_params)\n"
          "            plt.close(fig)\n")],
  demo=DATA + '''
from qmix.exp.exp_data import DCData
dc = DCData(data, verbose=False)
saved = []
orig = matplotlib.figure.Figure.savefig
matplotlib.figure.Figure.savefig = lambda self, *a, **k: saved.append(self)
f1, a1 = plt.subplots()
f2, a2 = plt.subplots()
with tempfile.TemporaryDirectory() as tmp:
    dc.plot_offset(os.path.join(tmp, "a.png"), a1)
assert saved == [f1], saved
print("ok")
'''),
 dict(id="dciv-folder", prop="C25",
  needs="DCData.plot_all with a sub-folder that does not exist yet",
  what="the figures' folder is created relative to the working directory",
  edits=[("qmix/exp/exp_data.py",
          "        # Make sure folder exists, create it if not\n"
          "        if not os.path.exists(folder):\n"
          "            os.makedirs(folder)\n",
          "        # Make sure folder exists, create it if not\n"
          "        if not os.path.exists(folder):\n"
          "            os.makedirs(sub_folder or folder, exist_ok=True)\n"
          "            os.makedirs(folder, exist_ok=True)\n")],
  demo=DATA + '''
from qmix.exp.exp_data import DCData
dc = DCData(data, verbose=False)
with tempfile.TemporaryDirectory() as tmp:
    here = os.path.join(tmp, "cwd")
    out = os.path.join(tmp, "out")
    os.mkdir(here)
    os.mkdir(out)
    os.chdir(here)
    dc.plot_all(out, "dc")
    left = os.listdir(here)
    made = os.listdir(out)
    os.chdir("/")
assert left == [], left
assert made == ["dc"], made
print("ok")
'''),
 dict(id="no-if-attributes", prop="C26",
  needs="plot_if_noise of DC data that was imported without IF data",
  what="the IF attributes of DC data without IF data are missing",
  edits=[("qmix/exp/exp_data.py",
          "            self.dcif       = None\n"
          "            self.if_data    = None\n"
          "            self.if_noise   = None\n",
          "            self.dcif       = None\n"
          "            self.if_noise   = None\n")],
  demo=DATA + '''
from qmix.exp.exp_data import DCData
dc = DCData(data, verbose=False)
assert dc.plot_if_noise() is None
print("ok")
'''),
 dict(id="lock-copies", prop="C27",
  needs="an alias of the bias voltage array taken before lock()",
  what="lock() replaces the bias voltage array by a locked copy",
  edits=[("qmix/circuit.py",
          "        self.vb.flags.writeable = False\n",
          "        self.vb = self.vb.copy()\n"
          "        self.vb.flags.writeable = False\n")],
  demo='''
from qmix.circuit import EmbeddingCircuit
c = EmbeddingCircuit(1, 1)
vb = c.vb
c.lock()
try:
    vb[0] = 5.
except ValueError:
    pass
assert c.vb[0] == 0. and vb[0] == 0., (c.vb[0], vb[0])
c.unlock()
vb[0] = 1.
assert c.vb[0] == 1.
print("ok")
'''),
]
