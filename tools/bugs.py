bug("b01-metaca-stale-velocity", "C07", [("yuca/metaca.py", "if grid.shape != self.dgrid.shape:", "if grid.shape[1:] != self.dgrid.shape[1:]:")], '''
from yuca.metaca import MetaCA
torch.manual_seed(0); np.random.seed(0)
ca = MetaCA(kernel_radius=3, kernel_peaks=1); ca.no_grad() if hasattr(ca, "no_grad") else None
ca.set_dt(0.3)
big = torch.rand(3, 1, 12, 12); small = torch.rand(1, 1, 12, 12)
ca.reset(); want = ca(small).detach()
ca.reset(); ca(big)
got = ca(small).detach()
assert got.shape == want.shape and float((got - want).abs().max()) < 1e-6, "velocity carried over to a grid of another batch size"
''', "two steps on grids that differ in batch size only, without a reset in between", "the second-order automaton carries the velocity of a batch of another size over instead of starting from rest")
bug("b02-weights-not-averaged", "C02", [("yuca/ca/continuous.py", "self.weights = weights / weights.sum()", "self.weights = weights / weights.sum(dim=1, keepdim=True)")], '''
from yuca.ca.continuous import CCA
torch.manual_seed(0); np.random.seed(0)
ca = CCA(external_channels=2, internal_channels=4, kernel_radius=3, kernel_peaks=1); ca.no_grad()
f = lambda x: 0.25 + 0.0 * x
ca.genesis_fns = [f] * 4; ca.persistence_fns = [f] * 4
ca.set_dt(0.4)
u = torch.full((1, 2, 9, 9), 0.5)
got = ca(u)
# sum over the 4 internal channels of 0.25, divided by 2*4
assert float((got - (0.5 + 0.4 * 4 * 0.25 / 8)).abs().max()) < 1e-5, float(got[0, 0, 0, 0])
''', "more than one external channel", "the update is averaged over internal channels only, not also divided by the number of external channels")
bug("b03-alive-channel", "C09", [("yuca/ca/common.py", "alive_mask[universe[:, 3:4, :, :] > self.alive_threshold] = 1.0", "alive_mask[universe[:, -1:, :, :] > self.alive_threshold] = 1.0")], '''
from yuca.ca.common import CA
torch.manual_seed(0); np.random.seed(0)
ca = CA(); ca.alive_threshold = 0.5
u = torch.rand(2, 6, 7, 8)
want = u * (u[:, 3:4] > 0.5).float()
assert float((ca.alive_mask(u) - want).abs().max()) == 0.0
''', "a grid with five or more channels", "liveness is read from the last channel instead of channel 3")
bug("b04-mean-error", "C06", [("yuca/code.py", "step_mse = mean_error.max()", "step_mse = mean_error.max() if mean_error.shape[0] == 1 else mean_error.mean()")], '''
from yuca.code import CODE
torch.manual_seed(0); np.random.seed(0)
def make():
    ca = CODE(kernel_radius=2, kernel_peaks=1, prev_dt=0.5, max_dt=0.5, min_dt=0.001, error_threshold=0.002); ca.no_grad()
    ca.genesis_fns = [lambda x: torch.sin(9 * x)]; ca.persistence_fns = [lambda x: torch.cos(7 * x) - 0.5]
    return ca
u = torch.full((2, 1, 16, 16), 0.5); u[0, 0, 4:9, 4:9] = torch.rand(5, 5)
torch.manual_seed(1); ca = make(); ca(u); dt = float(ca.dt)
def step(x, d): ca.dt = d; return ca.get_new_grid(x)
big = step(u, dt); small = step(step(u, dt / 2), dt / 2)
err = (big - small).abs() * (small > 0); err[small > 0] /= small[small > 0]
assert dt <= 0.001 or float(err.max()) < 0.002, (dt, float(err.max()))
''', "a batch of at least two grids in which the largest error is local", "the accepted step size is judged by the average instead of the largest relative error")
bug("b05-mixture-floor", "C10", [("yuca/kernels.py", "    gaussian = GaussianMixture(parameters=parameters)\n    kernel = gaussian(grid.reshape(1, 1, radius * 2 + 1, radius * 2 + 1))\n    kernel = kernel - kernel.min()", "    gaussian = GaussianMixture(parameters=parameters)\n    kernel = gaussian(grid.reshape(1, 1, radius * 2 + 1, radius * 2 + 1))\n    kernel = kernel - min(kernel[..., 0, 0].min(), kernel[..., radius, radius].min())")], '''
from yuca.kernels import get_gaussian_mixture_kernel
for p in ([0.5, 0.15], [1.0, 0.4, 0.1, 0.5, 0.9, 0.2], [1.0, 0.0, 0.05, 1.0, 1.5, 0.3]):
    k = get_gaussian_mixture_kernel(radius=8, parameters=p)
    assert float(k.min()) >= 0.0 and abs(float(k.sum()) - 1) < 1e-3, (p, float(k.min()))
''', "a mixture with a valley between its centre and its corners", "the kernel minimum is taken over centre and corner only, so that entries become negative")
bug("b06-shared-kernel", "C17", [("yuca/ca/common.py", "        self.neighborhood_kernels = kernel.to(torch.get_default_dtype()) \n        self.neighborhood_dim = dim_x ", "        self.neighborhood_kernels = kernel.to(torch.get_default_dtype()) \n        self.neighborhood_dim = min(dim_x, 2 * self.kernel_radius + 1)")], '''
from yuca.ca.continuous import CCA
torch.manual_seed(0); np.random.seed(0)
ca = CCA(kernel_radius=3, kernel_peaks=1); ca.no_grad()
k = torch.rand(11, 11)
try:
    ca.add_neighborhood_kernel(k); ca.initialize_neighborhood_layer()
    u = torch.zeros(1, 1, 21, 21); u[0, 0, 10, 10] = 1.0
    got = ca.neighborhood_conv(u)[0, 0, 5:16, 5:16]
except RuntimeError as e: assert False, e
assert float((got - k.flip(0, 1)).abs().max()) < 1e-6
''', "a kernel larger than the radius configured at construction", "installing such a kernel fails")
bug("b07-polynomial-order", "C12", [("yuca/activations.py", "        for ii, value in enumerate(self.coefficients):\n            \n            result += value * x**ii", "        power = torch.ones_like(x)\n        for ii, value in enumerate(self.coefficients):\n            \n            result += value * power\n            power = power * (x if ii < 7 else x.abs())")], '''
from yuca.activations import Polynomial
c = [0.0] * 8 + [1.0]
x = torch.linspace(-1, 1, 21)
got = Polynomial(coefficients=torch.tensor(c))(x).detach()
assert float((got - x**8).abs().max()) < 1e-5
''', "nine or more coefficients and a negative input", "the ninth and later powers lose their sign")
bug("b08-time-aliases-dt", "C05", [("yuca/ca/continuous.py", "        self.t_count += self.dt.detach().cpu()\n", "        if isinstance(self.t_count, float):\n            # first step: the counter becomes a tensor\n            self.t_count = self.dt.detach().cpu()\n        else:\n            self.t_count += self.dt.detach().cpu()\n")], '''
from yuca.ca.continuous import CCA
torch.manual_seed(0); np.random.seed(0)
ca = CCA(kernel_radius=2, kernel_peaks=1); ca.no_grad(); ca.reset(); ca.set_dt(0.1)
u = torch.rand(1, 1, 8, 8)
for j in range(4):
    u = ca(u)
    assert abs(float(ca.t_count) - 0.1 * (j + 1)) < 1e-5, (j, float(ca.t_count))
    assert abs(ca.get_dt() - 0.1) < 1e-6, ca.get_dt()
''', "at least two steps after a reset", "the counter shares the storage of the step size, which then doubles with every step")
bug("b09-rd-inplace", "C08", [("yuca/ca/reaction_diffusion.py", "        update = 0 * identity\n", "        # the identity channel is a scratch buffer of the convolution\n        update = identity\n")], '''
from yuca.ca.reaction_diffusion import RxnDfn
torch.manual_seed(0)
ca = RxnDfn(); ca.no_grad()
u = torch.rand(1, 2, 9, 9)
U, V = u[:, 0], u[:, 1]
n = ca.neighborhood_conv(u) / ca.dx**2
want = torch.stack([ca.diffusion_u * n[:, 0] - U * V * V + ca.f * (1 - U), ca.diffusion_v * n[:, 1] + U * V * V - (ca.f + ca.k) * V], 1)
got = ca.update_universe(u.clone(), ca.neighborhood_conv(u))
assert float((got - want).abs().max()) < 1e-5, float((got - want).abs().max())
''', "the second species, whose rate then sees the rate of the first instead of its concentration", "writing the rate of the first species overwrites the concentration the second species' rate is computed from")
bug("b10-moore-radius", "C11", [("yuca/kernels.py", "        kernel[0, 0, mid_kernel, mid_kernel] = 0.0\n        kernel /= kernel.sum()", "        kernel[0, 0, mid_kernel, mid_kernel] = 0.0\n        kernel /= 8.0 * kernel_radius**2")], '''
from yuca.kernels import get_kernel
for r in (1, 2, 3, 5):
    k = get_kernel({"name": "MooreLike", "radius": r})
    assert abs(float(k.sum()) - 1.0) < 1e-6, (r, float(k.sum()))
''', "a Moore-like kernel of radius at least 2", "the weights no longer sum to one")
bug("b11-frame-halo", "C01", [("yuca/ca/common.py", "        new_universe = torch.clamp(universe + self.dt * update, 0, 1.0)\n\n        if mode == 0:", "        new_universe = universe + self.dt * update\n        if mode < 4:\n            new_universe = torch.clamp(new_universe, 0, 1.0)\n\n        if mode == 0:")], '''
from yuca.ca.continuous import CCA
from yuca.ca.reaction_diffusion import RxnDfn
for C in (CCA, RxnDfn):
    torch.manual_seed(0); np.random.seed(0)
    ca = C(kernel_radius=2, kernel_peaks=1) if C is CCA else C()
    ca.no_grad(); ca.set_dt(50.0)
    u = torch.rand(1, ca.external_channels, 9, 9)
    for m in range(5):
        o = ca.get_frame(u, mode=m); o = o if m == 0 else o[0]
        assert float(o.min()) >= 0 and float(o.max()) <= 1, (C.__name__, m, float(o.min()), float(o.max()))
''', "frame mode 4 with a step that leaves the unit interval", "the new grid of frame mode 4 is not clamped")
bug("b12-lenia-empty", "C03", [("yuca/lenia.py", "        growth = self.genesis(neighborhoods)\n", "        growth = self.genesis(neighborhoods)\n        # empty cells cannot shrink any further\n        growth = torch.where((identity == 0) & (growth < 0), torch.zeros_like(growth), growth)\n")], '''
from yuca.lenia import Lenia
torch.manual_seed(0); np.random.seed(0)
ca = Lenia(internal_channels=2, kernel_radius=2, kernel_peaks=1); ca.no_grad(); ca.set_dt(0.5)
ca.genesis_fns = [lambda x: 0 * x + 0.6, lambda x: 0 * x - 0.4]
u = torch.zeros(1, 1, 8, 8); u[0, 0, 3, 3] = 0.5
got = ca(u)
assert float((got - (u + 0.5 * 0.1)).abs().max()) < 1e-5, float(got[0, 0, 0, 0])
''', "two or more growth functions of opposite signs on an empty cell", "the growth of empty cells depends on the identity channel")
bug("b13-zero-border", "C04", [("yuca/ca/common.py", "        self.neighborhood_layer = nn.Conv2d(self.external_channels, \\\n                self.internal_channels, \\\n                self.neighborhood_dim, padding=padding, \\\n                groups=groups, \\\n                padding_mode = self.conv_mode, bias=False)", "        # circular padding does not pay off for the smallest kernels\n        self.neighborhood_layer = nn.Conv2d(self.external_channels, \\\n                self.internal_channels, \\\n                self.neighborhood_dim, padding=padding, \\\n                groups=groups, \\\n                padding_mode = self.conv_mode if padding > 1 else \"zeros\", bias=False)")], '''
from yuca.ca.continuous import CCA
torch.manual_seed(0); np.random.seed(0)
for r in (1, 2, 4):
    ca = CCA(kernel_radius=r, kernel_peaks=1); ca.no_grad()
    ca.genesis_fns = [lambda x: torch.sin(3 * x)]; ca.persistence_fns = [lambda x: torch.cos(5 * x)]
    u = torch.rand(1, 1, 11, 10)
    a, b = ca(torch.roll(u, (4, 7), (2, 3))), torch.roll(ca(u), (4, 7), (2, 3))
    assert float((a - b).abs().max()) < 1e-5, r
''', "a kernel of radius 1", "the world stops being a torus, so steps no longer commute with shifts")
bug("b14-merged-intervals", "C13", [("yuca/configs.py", "    b = [[(2*bb-1)/16., (2*bb+1)/16.] for bb in rules_list]\n", "    # neighbouring counts share an edge, which needs no smooth step\n    b = []\n    for bb in sorted(rules_list):\n        if b and b[-1][1] == (2*bb-1)/16. and bb < 8:\n            b[-1][1] = (2*bb+1)/16.\n        elif bb == 8 and b and b[-1][1] == 15/16.:\n            b[-1][1] = 1.0\n        else:\n            b.append([(2*bb-1)/16., (2*bb+1)/16.])\n")], '''
from yuca.ca.continuous import CCA
from yuca.configs import get_life_like_config
def life(u, birth, survival):
    n = sum(torch.roll(u, (a, b), (2, 3)) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a, b) != (0, 0))
    w = torch.zeros_like(u)
    for k in birth: w[(n.round() == k) & (u == 0)] = 1.0
    for k in survival: w[(n.round() == k) & (u == 1)] = 1.0
    return w
for birth, survival in (([3], [2, 3]), ([3, 6, 7, 8], [3, 4, 6, 7, 8]), ([8], [0, 1, 2, 3, 4, 5, 6, 7, 8])):
    torch.manual_seed(0); np.random.seed(0)
    ca = CCA(kernel_radius=1, kernel_peaks=1); ca.load_config(get_life_like_config(birth=birth, survival=survival)); ca.no_grad()
    for p in (0.3, 0.7, 0.9, 1.0):
        u = (torch.rand(1, 1, 12, 12) < p).float()
        assert float((ca(u) - life(u, birth, survival)).abs().max()) < 0.01, (birth, survival, p)
''', "a rule that lists both 7 and 8 neighbours, and a cell with 8 live neighbours", "the interval of 8 neighbours ends at the count itself, where the step is only half way")
bug("b15-kernel-kept", "C14", [("yuca/ca/continuous.py", "        self.kernel_params = 1.0 * params[param_start:param_stop]\n\n        nbhd_kernel", "        if np.array_equal(self.kernel_params, params[param_start:param_stop]):\n            # the kernel is in place already\n            self.to_device(self.my_device)\n            return\n\n        self.kernel_params = 1.0 * params[param_start:param_stop]\n\n        nbhd_kernel")], '''
from yuca.ca.continuous import CCA
torch.manual_seed(0); np.random.seed(0)
a = CCA(kernel_radius=3, kernel_peaks=1); b = CCA(kernel_radius=3, kernel_peaks=1)
for c in (a, b):
    c.no_grad(); c.load_config({"neighborhood_kernel_config": {"name": "GaussianMixture", "radius": 3, "kernel_kwargs": {"parameters": [1.0, 0.5, 0.15]}},
        "genesis_config": {"name": "Gaussian", "mu": 0.2, "sigma": 0.1, "mode": 1}, "persistence_config": {"name": "Gaussian", "mu": 0.3, "sigma": 0.1, "mode": 1}, "dt": 0.1})
b.add_neighborhood_kernel(torch.rand(7, 7) / 20); b.initialize_neighborhood_layer()
p = a.get_params(); a.set_params(p); b.set_params(p)
u = torch.rand(1, 1, 9, 9)
assert float((a(u) - b(u)).abs().max()) < 1e-6
''', "another kernel was installed while the kernel parameters stayed the same", "setting parameters leaves the installed kernel in place, so two automata of equal parameters behave differently")
bug("b16-rule-tail", "C15", [("yuca/cppn.py", "        self.params_agent.set_params(params[param_start:])", "        # the rule parameters come last\n        self.params_agent.set_params(params[-self.params_agent.num_params:])")], '''
from yuca.cppn import CPPNPlus
for k in (4, 9, 0):
    torch.manual_seed(0); np.random.seed(0)
    a = CPPNPlus(dim=8, ca_params=np.arange(1.0 * k))
    n = len(a.get_params())
    p = np.round(np.random.rand(n) * 64) / 64; a.set_params(p)
    assert a.get_params().shape == p.shape and np.abs(a.get_params() - p).max() < 1e-6, k
    assert np.abs(a.get_action()[0] - p[n - k:]).sum() < 1e-6, k
''', "an automaton without parameters of its own", "the whole vector is taken for the parameters of the rule")
bug("b17-rounded-dt", "C16", [("yuca/ca/neural.py", "            config[\"dt\"] = self.dt ", "            config[\"dt\"] = float(f\"{self.get_dt():.4f}\")")], '''
from yuca.ca.neural import NCA
torch.manual_seed(0); np.random.seed(0)
a = NCA(kernel_radius=2, kernel_peaks=1, hidden_channels=4, dropout_rate=0.0); b = NCA(kernel_radius=3, kernel_peaks=1, hidden_channels=4, dropout_rate=0.0)
for dt in (0.1, 0.00003):
    a.set_dt(dt); b.load_config(a.make_config())
    assert abs(float(b.get_dt()) - dt) < 1e-7, (dt, b.get_dt())
''', "a step size with more than four decimals", "the restored automaton runs with a rounded step size")
bug("b18-bracket-range", "C18", [("yuca/cmaes.py", "                indices = np.random.randint(0, self.population_size, \\\n                        size = (self.elite_keep,))\n", "                # every bracket is drawn from the agents that follow the one\n                # carried over for sure\n                first = self.elite_keep * self.elitism // 2 > 2\n                indices = np.random.randint(1 * first, self.population_size, \\\n                        size = (self.elite_keep,))\n")], '''
import yuca.cmaes as Y
from yuca.params_agent import ParamsAgent
P = 48; won = 0
for s in range(40):
    np.random.seed(s)
    o = object.__new__(Y.CMAES)
    o.population_size = P; o.elite_keep = P // 8 + 1; o.elitism = 1; o.selection_mode = 1
    x = np.random.rand(P, 2); o.population = [ParamsAgent(params=x[k].copy()) for k in range(P)]
    o.means = np.zeros(2); o.covar = np.eye(2)
    o.update_population([float(P - k) for k in range(P)])
    won += any(np.array_equal(e, x[0]) for e in o.elite_params)
assert won > 0, "the fittest agent is never drawn into a bracket"
''', "tournament selection in a population of 40 or more", "the first agent never takes part in a tournament")
bug("b19-elite-overwritten", "C19", [("yuca/cmaes.py", "            self.population[kk].set_params(1.0 * elite_params[kk])\n", "            self.population[kk].set_params(elite_pop[kk].get_params())\n")], '''
import yuca.cmaes as Y
from yuca.params_agent import ParamsAgent
for P in (8, 16, 32):
    np.random.seed(0)
    o = object.__new__(Y.CMAES)
    o.population_size = P; o.elite_keep = P // 8 + 1; o.elitism = 1; o.selection_mode = 0
    x = np.random.rand(P, 2); o.population = [ParamsAgent(params=x[k].copy()) for k in range(P)]
    o.means = np.zeros(2); o.covar = np.eye(2)
    fit = [0.0] * P; fit[3] = 9.0; fit[0] = 8.0; fit[5] = 7.0
    o.update_population(fit)
    for k in range(o.elite_keep // 2):
        assert np.array_equal(o.population[k].get_params(), o.elite_params[k]), (P, k)
''', "at least four selected vectors, one of which belongs to an agent that an elite replaces", "a leading selected vector is overwritten before it is carried over")
bug("b20-any-source", "C20", [("yuca/cmaes.py", "                        fit, prop_alive = comm.recv(source=dd)\n", "                        fit, prop_alive = comm.recv()\n")], '''
import yuca.cmaes as Y
from yuca.params_agent import ParamsAgent
class CA:
    my_device = "cpu"
    def __getattr__(self, n): return lambda *a, **k: None
class Env: ca = CA(); ca_steps = 2
class Comm:
    """workers answer in the reverse order"""
    def __init__(self): self.jobs = {}
    def send(self, job, dest): self.jobs[dest] = job
    def recv(self, source=-1):
        d = max(self.jobs) if source == -1 else source
        p, idx, _ = self.jobs.pop(d)
        return [float(p[j][0]) for j in idx], [0.0 for j in idx]
np.random.seed(0)
o = object.__new__(Y.CMAES); P = 10
o.population_size, o.elite_keep, o.elitism, o.selection_mode, o.prediction_mode = P, 2, 1, 0, 0
o.workers, o.my_seed, o.generations, o.tag, o.exp_id, o.dim, o.ca_steps = 4, [1], 1, "", "exp_", 8, 2
o.env = Env(); o.my_device = "cpu"; o.kwargs = {}; o.elite_params = None; o.agent_fn = ParamsAgent; o.external_channels = 1
o.starting_means = np.zeros(2); o.starting_covar = np.eye(2)
o.save_gif = lambda *a, **k: None; o.get_elite_configs = lambda: []
seen = []
o.rank_population = lambda f, seed=0: seen.append((list(f), [float(a.get_params()[0]) for a in o.population]))
Y.comm, Y.num_worker, Y.rank = Comm(), 4, 0
old = np.save; np.save = lambda *a, **k: None
o.mantle()
assert np.allclose(seen[0][0], seen[0][1]), "fitness values are not in population order"
''', "workers that finish in another order than they were started", "fitness values are attributed to the wrong agents")
bug("b21-first-vanishes", "C21", [("yuca/wrappers/halting_wrapper.py", "            grid = self.ca(grid)\n            if grid.mean() <= 0.0:\n                break\n", "            grid = self.ca(grid)\n            if grid[0].mean() <= 0.0:\n                break\n")], '''
from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper
class Dying(torch.nn.Module):
    external_channels = 1; my_device = "cpu"
    def __init__(self, **k): super().__init__(); self.t = 0
    def get_params(self): return np.zeros(2)
    def set_params(self, p): pass
    def reset(self): self.t = 0
    def forward(self, g):
        self.t += 1; g = g.clone(); g[:self.t] *= 0; return g
w = SimpleHaltingWrapper(ca_fn=Dying, batch_size=6, dim=8, ca_steps=3)
r = float(w.step(np.zeros(2))[1])
assert abs(r + abs(0.5001 - 0.5)) < 1e-6, r
''', "a batch whose first pattern vanishes before the others do", "the run ends as soon as the first pattern is gone")
bug("b22-any-change", "C22", [("yuca/wrappers/glider_wrapper.py", "            if mean_grid == 0.0 or dgrid.max() <= 0.00001:", "            if mean_grid == 0.0 or dgrid.mean() <= 0.00001:")], '''
from yuca.wrappers.glider_wrapper import GliderWrapper
class Mover(torch.nn.Module):
    external_channels = 1; my_device = "cpu"; kernel_radius = 2
    def __init__(self, **k): super().__init__()
    def no_grad(self): pass
    def reset(self): pass
    def forward(self, g): return torch.roll(g, 1, 3)
w = GliderWrapper(ca_fn=Mover, ca_steps=5, dim=16)
u = torch.zeros(1, 1, 16, 16); u[0, 0, 6:9, 3:6] = 0.5
r = float(w.step(u)[1])
assert abs(r - 4 * 0.5) < 1e-3, r
''', "a pattern that moves without growing", "a glider of constant mass is taken for a still pattern and stops after one step")
bug("b23-one-bite", "C23", [("yuca/utils.py", "    for ii in range(batch_size):\n\n        my_noise = noise_level", "    bite_mask = get_bite_mask(img, bite_radius)\n\n    for ii in range(batch_size):\n\n        my_noise = noise_level"), ("yuca/utils.py", "        bite_mask = get_bite_mask(img, bite_radius)\n        aperture", "        aperture")], '''
from yuca.utils import prep_input
np.random.seed(0); torch.manual_seed(0)
b = prep_input(np.ones((1, 1, 32, 32)), batch_size=8, bite_radius=0.4, noise_level=0.0)
assert any(float((b[k] - b[0]).abs().max()) > 0.5 for k in range(1, 8)), "all samples are bitten at the same place"
''', "a batch of two or more samples", "every sample of a batch is bitten at the same place")
bug("b24-stale-index", "C24", [("yuca/zoo/librarian.py", "        while os.path.exists(file_path):\n", "        while f\"{pattern_name}{counter:03}\" in self.index:\n")], '''
import tempfile, shutil
from yuca.zoo.librarian import Librarian
d = tempfile.mkdtemp()
try:
    a, b = Librarian(directory=d, verbose=False), Librarian(directory=d, verbose=False)
    one, two = np.array([[1.0, 0.5]]), np.array([[0.25]])
    a.store(one, pattern_name="glider", config_name="x"); b.store(two, pattern_name="glider", config_name="y")
    c = Librarian(directory=d, verbose=False)
    assert c.index == ["glider000", "glider001"], c.index
    assert np.array_equal(c.load("glider000")[0], one) and np.array_equal(c.load("glider001")[0], two)
finally: shutil.rmtree(d)
''', "two librarians that store patterns of the same name in one directory", "the second store overwrites the first pattern")
bug("b25-peak-stretch", "C25", [("yuca/analyze.py", "    $\n    H = -\\sum{ p log_2(p)}\n    $\n    \"\"\"\n    \n    eps = 1e-9\n    # convert grid to uint8\n    \n    stretched_grid = (grid - np.min(grid)) / np.max(grid - np.min(grid))", "    $\n    H = -\\sum{ p log_2(p)}\n    $\n    \"\"\"\n    \n    eps = 1e-9\n    # convert grid to uint8\n    \n    stretched_grid = (grid - np.min(grid)) / np.max(np.abs(grid))")], '''
from yuca.analyze import get_grid_entropy
def H(g):
    v = np.floor(255 * (g - g.min()) / (g - g.min()).max()).astype(int).ravel()
    p = np.bincount(v, minlength=256) / v.size; p = p[p > 0]
    return -(p * np.log2(p)).sum()
np.random.seed(0)
for lo in (0.0, 0.5, 0.96):
    g = lo + (1 - lo) * np.random.rand(20, 20); g[0, 0] = lo; g[1, 1] = 1.0
    assert abs(get_grid_entropy(g) - H(g)) < 1e-4, lo
''', "a grid without empty cells", "the values are not stretched to the full range of 8 bits")
bug("b26-seed-zero", "C26", [("yuca/cmaes.py", "        self.env.ca_steps = restore_steps\n        return elite_configs\n\n    def mpi_fork(self):", "        self.env.ca_steps = restore_steps\n        return elite_configs\n\n    def seed_evaluation(self, seed):\n\n        if seed:\n            seed_all(seed)\n\n    def mpi_fork(self):"), ("yuca/cmaes.py", "    def get_fitness(self, agent_index, steps=10, replicates=1, seed=13):\n\n        fitness_replicates = []\n        seed_all(seed)\n        proportion_alive = 0.0\n\n        for replicate in range(replicates):\n\n            fitness = 0.0\n\n            self.env.reset()\n            self.env.to_device(self.my_device)\n            self.env.eval()\n", "    def get_fitness(self, agent_index, steps=10, replicates=1, seed=13):\n\n        fitness_replicates = []\n        self.seed_evaluation(seed)\n        proportion_alive = 0.0\n\n        for replicate in range(replicates):\n\n            fitness = 0.0\n\n            self.env.reset()\n            self.env.to_device(self.my_device)\n            self.env.eval()\n")], '''
import yuca.cmaes as Y
from yuca.params_agent import ParamsAgent
class Env:
    def reset(self): pass
    def to_device(self, d): pass
    def eval(self): pass
    def step(self, a): return 0, torch.rand(1)[0], False, {"active_grid": torch.tensor(0.0)}
o = object.__new__(Y.CMAES); o.env = Env(); o.my_device = "cpu"; o.population = [ParamsAgent()]
for s in (5, 0):
    got = []
    for k in range(3):
        torch.rand(k + 1); np.random.rand(k + 1)
        got.append(float(o.get_fitness(0, steps=1, replicates=2, seed=s)[0]))
    assert got[0] == got[1] == got[2], (s, got)
''', "an evaluation with seed 0, as in every first generation", "the fitness depends on what was drawn before the evaluation")
