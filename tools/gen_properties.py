#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=None)))
CC="yuca/ca/continuous.py"; CO="yuca/ca/common.py"; RD="yuca/ca/reaction_diffusion.py"; NC="yuca/ca/neural.py"
p("C01","Cell states stay in [0, 1] and grids keep their shape",
 "For every automaton family (glaberish CA, Lenia, adaptive-step, random-step, second-order, neural, Gray-Scott), one step from a grid of any batch size, channel count and spatial size with values in [0, 1] returns a grid of exactly the same shape whose every cell is in [0, 1]. The same holds for the frame-rendering step used to make animations, in all of its output modes, and for any step size, kernel and update functions.",
 ["inputs","configurations"],"all grids with values in [0,1], all batch/channel/spatial sizes, all kernels, step sizes and update functions, every family",
 "the tests run one step on one or two random grids and compare shapes only; no test looks at the range, at get_frame modes 1-4, at adaptive/random/second-order families",
 [CC,CO,RD,NC,"yuca/lenia.py","yuca/code.py","yuca/random_step_ca.py","yuca/metaca.py"],
 [("clamp in every forward/get_frame","CA.forward, CCA.forward, RxnDfn.forward, CODE.get_new_grid, RandomStepCA.get_new_grid, MetaCA.forward")])
p("C02","A glaberish step is the clipped Euler step of genesis and persistence",
 "One step of the glaberish automaton returns clip(u + dt*update, 0, 1), where update is the plain average over internal channels (divided additionally by the number of external channels) of (1-I)*genesis(N) + I*persistence(N), I being the identity convolution and N the neighborhood convolution of the grid and each internal channel using its own genesis and persistence function. Half-precision input gives the same step up to half-precision rounding, and the frame-rendering step returns the same new grid, neighborhoods and update in every mode; grid input is never modified in place.",
 ["inputs","configurations"],"all grids, kernels, dt, numbers of channels, update functions and output modes",
 "tests only check shapes of the step output on the default random CA, never its values, and never mode 1-4 or half precision",
 [CC,CO],[("update_universe/genesis/persistence/forward/get_frame",CC),("initialize_weight_layer",CC)])
p("C03","Lenia uses growth only and coincides with a CA whose G equals P",
 "A Lenia step is clip(u + dt * average of genesis(N)), independent of the persistence functions and of the identity channel. A glaberish automaton with identical genesis and persistence functions and the same kernel, weights and dt makes exactly the same step as Lenia.",
 ["inputs","configurations"],"all grids, kernels, dt, update functions, channel counts",
 "no test instantiates Lenia through the stable suite, and none compares the two families",
 ["yuca/lenia.py",CC],[("Lenia.update_universe","yuca/lenia.py"),("CCA.update_universe",CC)])
p("C04","Updates are local, translation-equivariant and batch-independent",
 "With the default circular boundary, stepping a toroidally shifted grid equals shifting the stepped grid, for every shift, and each sample of a batch evolves as if it were stepped alone. A cell's next state depends only on the cells within the kernel radius of it.",
 ["inputs","configurations"],"all grids, all shifts, all batch sizes, all kernels of odd side, glaberish / Lenia / Gray-Scott / neural (evaluation mode) / second-order and random-step families at equal step size; for the adaptive automaton, whose step-size choice looks at the whole grid and batch, its Euler step",
 "no test shifts a grid or compares a batch with its samples",
 [CC,CO,RD,NC],[("circular convolution layers","initialize_id_layer/initialize_neighborhood_layer in "+CO)])
p("C05","Simulated time advances by exactly dt per step and resets to zero",
 "For the families with simulated time, after any sequence of steps the time counter equals the sum of the step sizes actually applied since construction or the last reset, and reset sets it to zero; rendering a frame does not advance time. Setting the step size takes effect from the next step on and reading it back returns the value set.",
 ["histories","configurations"],"all sequences of forward / get_frame / reset / set_dt operations, glaberish, Lenia, neural, Gray-Scott, adaptive and random-step automata",
 "no test reads the time counter",
 [CC,CO,RD,"yuca/code.py","yuca/random_step_ca.py"],[("t_count += dt","forward / adaptive_euler / get_new_grid"),("reset","every family"),("set_dt",CO)])
p("C06","Adaptive and random step sizes respect their bounds",
 "The adaptive-step automaton advances the grid by a single Euler step with its recorded dt, and that dt satisfies min_dt <= dt <= max(min_dt, min(2*previous dt, max_dt)); a dt above min_dt is only accepted when the relative difference between one full and two half steps is below the error threshold everywhere, and larger candidates in the 0.75-geometric ladder were all rejected. The random-step automaton applies one Euler step with a dt in [min_dt, max_dt) and records that dt as the previous one.",
 ["inputs","histories","configurations"],"all grids, thresholds, bounds 0 < min_dt <= max_dt and previous dt >= min_dt/2; all random draws",
 "neither class is instantiated by the stable tests; the number of rejections is unbounded",
 ["yuca/code.py","yuca/random_step_ca.py"],[("CODE.adaptive_euler","yuca/code.py"),("RandomStepCA.get_new_grid","yuca/random_step_ca.py")])
p("C07","The second-order automaton integrates an accumulated velocity",
 "Each step of the second-order automaton first adds ddt times the glaberish update of the (alive-masked) grid to its velocity grid and then returns clip(u + dt*velocity, 0, 1). The velocity starts from zero at construction, after reset and whenever the grid shape changes, and is otherwise carried over between steps.",
 ["inputs","histories"],"all grids, all sequences of steps, resets and shape changes",
 "the class is not covered by any test",
 ["yuca/metaca.py"],[("MetaCA.forward/reset","yuca/metaca.py")])
p("C08","Gray-Scott steps follow the reaction-diffusion law and fix its equilibrium",
 "One Gray-Scott step is clip(s + dt*ds, 0, 1) with du = Du*L(u)/dx^2 - u*v^2 + F*(1-u) and dv = Dv*L(v)/dx^2 + u*v^2 - (F+k)*v, where L is the convolution of that species alone with the Laplacian kernel and both species are updated simultaneously. The initial grid holds u in channel 0 and v in channel 1 satisfying u*v = F + k and u*v^2 = F*(1-u), so a spatially uniform initial grid is a fixed point of the reaction (zero reaction term).",
 ["inputs","configurations"],"all two-channel grids, all positive F, k with F >= 4(F+k)^2, all diffusion rates, dx, dt, batch and grid sizes",
 "the test checks that the default equilibrium grid stays roughly constant over a few steps with default parameters, i.e. a single point where reaction is zero: most terms are never exercised",
 [RD],[("RxnDfn.update_universe/forward/initialize_grid",RD)])
p("C09","Dead cells are zeroed through the alpha channel before the update",
 "For grids with at least four channels, every cell whose channel 3 does not strictly exceed the alive threshold is zeroed in all channels before the update is computed, all other cells are untouched, and the caller's grid is not modified; grids with fewer channels are never masked. The Gray-Scott model never masks.",
 ["inputs","configurations"],"all grids, thresholds, channel counts; glaberish, Lenia, neural, adaptive, random-step, second-order families",
 "one test compares the mask on one random grid for one class; the masked step itself is never tested",
 [CO,CC,"yuca/code.py","yuca/random_step_ca.py","yuca/metaca.py"],[("CA.alive_mask",CO),("forward guards universe.shape[1] >= 4","every family")])
p("C10","Radial kernels are the normalised profile of the distance to the centre",
 "Every profile-based kernel (Gaussian, Gaussian mixture, cosine, difference-of-Gaussian, SmoothLife and the edge variants) of radius r is a (1,1,2r+1,2r+1) array equal to (p - min p)/(1e-9 + sum(p - min p)) where p is its profile function evaluated at sqrt(x^2+y^2)/r (times r_scale where accepted; for edge variants the difference of the profile at the two grids shifted by -dx and +dx). Hence all entries are >= 0, their sum is at most 1, the smallest is 0, and non-edge kernels are invariant under transposition and reflection.",
 ["inputs","configurations"],"all radii >= 1, all parameter values, all profile kernels, both edge orientations",
 "tests compare each kernel's sum with 1 for the default parameters only (and shapes)",
 ["yuca/kernels.py","yuca/activations.py"],[("get_kernel and get_*_kernel","yuca/kernels.py")])
p("C11","Kernels are selected by name; the fixed stencils have their defining values",
 "A kernel configuration selects the profile named in it with the configuration's parameters and radius, and an unknown name is rejected with an assertion. Moore-like kernels are uniform over all cells except a zero centre and sum to 1, the inner Moore kernel is the unit impulse, the finite-difference Laplacian sums to 0 with centre -3, and the Laplacian-of-Gaussian kernel sums to 0 with absolute values summing to 1.",
 ["inputs","configurations"],"all kernel names and configurations, all radii",
 "one test asks for a single configuration; neither the stencils' values nor rejection are tested",
 ["yuca/kernels.py","yuca/activations.py"],[("get_kernel","yuca/kernels.py"),("LaplacianOfGaussian","yuca/activations.py"),("get_laplacian_kernel","yuca/kernels.py")])
p("C12","Update functions compute their documented curves in both output modes",
 "Gaussian, Gaussian mixture, double Gaussian, difference of Gaussians, polynomial, cosine and smooth-interval functions evaluate their closed form elementwise: exp(-((x-mu)/(sigma+1e-9))^2/2) bells weighted by amplitude (triples amplitude, mu, sigma when the parameter count is divisible by 3, otherwise mu, sigma pairs of amplitude 1), clipped sums, power series in ascending order, sums of sigmoid steps. Mode 1 maps the mode-0 value v to 2v-1 (clipped to [-1,1] where mode 0 is clipped to [0,1]); the cosine curve has its own mode offset of 1. Inputs are not modified and the output shape is the input shape.",
 ["inputs","configurations"],"all real inputs and parameter values, all numbers of mixture components, intervals and coefficients, both modes",
 "tests check shapes and a few sample values in mode 0 with default parameters",
 ["yuca/activations.py"],[("forward of each activation","yuca/activations.py")])
p("C13","Life-like rules with smooth intervals reproduce the discrete rule",
 "An automaton configured for a life-like rule B/S (radius-1 Moore-like kernel, dt 1, smooth steps centred on the listed neighbour counts) maps every binary grid to within 0.01 of the next generation of the discrete rule B/S on the torus. The configuration is valid for every pair of neighbour-count sets.",
 ["inputs","configurations"],"all birth/survival subsets of 0..8, all binary grids of any size",
 "no test runs a life-like rule; 2^18 rules times all grids cannot be sampled",
 ["yuca/activations.py","yuca/kernels.py",CC,"yuca/configs.py"],[("get_smooth_steps_fn / SmoothIntervals","yuca/activations.py"),("MooreLike kernel","yuca/kernels.py"),("CCA.load_config",CC)])
p("C14","Automaton parameters survive a get/set round trip",
 "For glaberish CAs with Gaussian-mixture kernels, Lenia, neural CAs and Gray-Scott automata, reading back parameters after setting any parameter vector of the right length returns that vector, in a fixed layout (genesis, then persistence, then kernel parameters; network weights then kernel parameters; Du, Dv, F, k). Setting parameters makes the automaton behave according to them: two automata of the same structure with equal parameters make equal steps, and setting an automaton's own parameters changes nothing.",
 ["inputs","configurations"],"all parameter vectors, all numbers of functions/channels/peaks, all four families",
 "every test of get/set params is excluded from the reliable suite (needs the numpy bridge); even then they use one random vector",
 [CC,NC,RD,"yuca/lenia.py"],[("get_params/set_params",CC+", "+NC+", "+RD+", yuca/lenia.py")])
p("C15","Pattern generators are parameter-faithful and produce valid windows",
 "Pattern generators (CPPN, CPPN plus CA parameters, and direct parameter agents) return from their parameter reader exactly the vector last set, splitting it between generator and CA parts without overlap or loss. Generated patterns are non-negative arrays of shape (1, channels, dim, dim) for every number of channels, and vanish smoothly outside the central disc.",
 ["inputs","configurations"],"all parameter vectors, channel counts, pattern sizes and seeds",
 "tests cover only the default channel counts, and are excluded from the reliable suite",
 ["yuca/cppn.py","yuca/params_agent.py"],[("get_params/set_params/forward/get_action","yuca/cppn.py, yuca/params_agent.py")])
p("C16","Saving and restoring a configuration preserves the automaton",
 "Writing an automaton's configuration and loading it into another automaton, directly or through a file, reproduces its identity kernel, neighborhood kernel, radius, step size, boundary mode, alive threshold, channel counts, update functions, network and its weights (Gray-Scott: diffusion, feed and kill rates and dx), so both make equal steps from every grid. This holds after any sequence of loading configurations, setting parameters, step size, radius or kernel configuration, and stepping, for kernels and functions that a configuration can name (not for kernel tensors or callables installed by hand, and not for setting parameters of an automaton whose kernel has a single parameter). Making a configuration does not change the automaton's own behaviour, and automata and configurations share no mutable state: changing any of them afterwards changes no other.",
 ["histories","configurations"],"all automata reachable by loading a configuration and setting parameters, steps, kernels; glaberish, Lenia, neural and Gray-Scott families",
 "the config tests are excluded from the reliable suite and compare a few keys for one stock configuration",
 [CC,NC,RD],[("make_config/save_config/restore_config/load_config",CC+", "+NC+", "+RD)])
p("C17","Installing a kernel makes it exactly the neighborhood convolution",
 "After adding a kernel and initialising the layer, changing the kernel radius, or setting a kernel configuration, the neighborhood convolution is the correlation with exactly that kernel, zero-offset (padding half its side) in the automaton's boundary mode, one copy per internal channel, and the recorded radius matches. Two-, three- and four-dimensional square kernels are accepted (the reaction-diffusion automaton takes one four-dimensional tensor), a non-square kernel is rejected with an assertion, and later changes to the caller's array do not affect the automaton.",
 ["inputs","configurations","histories"],"all square odd kernels, all channel counts, both boundary modes, all sequences of kernel changes",
 "tests check shapes of the layer output only",
 [CO,RD],[("add_neighborhood_kernel/initialize_neighborhood_layer/set_kernel_radius/set_kernel_config",CO)])
p("C18","Evolution selects by fitness and re-estimates the search distribution",
 "The fitness of an agent is its mean reward per step over the replicates. Ranking orders the population by descending fitness keeping parameters and fitness paired. Truncation selection keeps exactly the best eighth of the population plus one, in that order; every tournament winner is the fittest of a bracket of as many members as are selected, drawn at random from the whole population; fitness-proportional selection draws members without replacement with chances proportional to 1/rank^2. The new distribution has mean equal to the mean of the selected parameter vectors and covariance (1/n) sum (x - old mean)(x - old mean)^T over the selected vectors.",
 ["inputs","histories"],"all populations, fitness values (including ties), population sizes, selection modes and random draws",
 "the optimiser tests need the numpy bridge / MPI and are excluded; they only check that a run finishes",
 ["yuca/cmaes.py"],[("rank_population/get_elite/update_population","yuca/cmaes.py")])
p("C19","Each generation has the configured size and starts with the elites",
 "After initialisation and after every generation update the population has exactly the configured number of agents with parameter vectors of the agent's dimension. The first agents of a new generation - half of the number of selected vectors, rounded down - carry the leading selected vectors of the previous generation unchanged (under truncation selection the best, in rank order), and every other agent is a fresh draw from the updated distribution. A search started from the log of an earlier one of at least its size (with vectors of the same length, two or more) starts with the leading vectors saved last, around their mean. The search initialises its population once, evaluates every agent of each generation once with that generation's seed, hands fitness values on in population order, and ranks the last generation it evaluates instead of resampling it, so that saved vectors and their fitness belong together.",
 ["inputs","histories"],"all population sizes, all fitness assignments, all numbers of generations and random draws",
 "only a smoke test of a tiny population exists, in which at most one elite is carried over; it is excluded from the reliable suite",
 ["yuca/cmaes.py"],[("initialize_population/update_population/mantle","yuca/cmaes.py")])
p("C20","Work distribution evaluates every agent exactly once, results in order",
 "With any number of workers and any population size, the slices of the population handed to the workers are contiguous, disjoint and cover the population, their sizes differ by at most one, and the fitness list gathered by the coordinator has one entry per agent, aligned with the population order. Every worker receives exactly one job per generation and one termination message.",
 ["schedules","inputs"],"all population sizes >= 1, all worker counts >= 2, any order in which workers finish",
 "no test runs more than one process",
 ["yuca/cmaes.py"],[("mantle / arm job split and gather","yuca/cmaes.py")])
p("C21","Halting rewards score what becomes of random patterns and nothing else",
 "The simple halting wrapper runs the automaton it wraps, reset and set to the evaluated parameters, on a batch of patterns that are random in the central half of the grid and empty in the border quarter (grids at least 4 wide), for the configured number of steps or until every pattern has vanished; its reward is minus the absolute difference between 0.5001 and the share of patterns that are not empty at the end, so it lies in [-0.5001, 0]. The halting wrapper runs a reset automaton with the evaluated parameters in the same way, shows the eighth grid to its predictor, and its reward is minus the share of outcomes (in the vanishing mode: some cell of the last grid is above 1e-5; in the static mode: some cell changes by more than 1e-5 in one further step; in the third mode both) that the predictor foretold; the reported active share is that of the outcomes that occurred. In both every step is applied to the result of the step before, and neither what was evaluated earlier nor the state it left in the automaton matters.",
 ["inputs","histories"],"all automata, parameters, episode lengths, batch and grid sizes, modes and histories of earlier evaluations (the step-size memory of CODE and the random step sizes of RandomStepCA belong to the automaton, see C06)",
 "tests need the numpy bridge; they check that a reward is returned",
 ["yuca/wrappers/halting_wrapper.py"],[("HaltingWrapper/SimpleHaltingWrapper","yuca/wrappers/halting_wrapper.py")])
p("C22","The glider reward measures displacement of the centre of mass",
 "For one pattern, the glider wrapper resets the automaton, runs it on the pattern for the configured number of steps (at least one) or until the pattern is gone or no cell grows by more than 1e-5, every step applied to the result of the one before. Its reward adds up, over the steps, the displacement of the pattern's centre of mass (over all channels) along the last axis, measured in kernel radii, minus the relative change |1 - m_k / m_(k-1)| of the mean value m (1e-6 added to the denominators). The first step, and a step from a position of exactly 0, count no displacement; a step from within 2 radii of the far edge to within 2 radii of the near edge is taken to have wrapped around the torus and gains the width of the grid. The pattern handed in is not changed, and nothing but the trajectory matters.",
 ["inputs","histories"],"all patterns, automata, step counts, grid sizes and kernel radii, whatever ran before; one pattern per evaluation (with several, the code divides the first pattern's moment by the mass of all)",
 "tests need the numpy bridge; they check that a reward is returned",
 ["yuca/wrappers/glider_wrapper.py"],[("GliderWrapper.step/meta_step/init_displacement_grid","yuca/wrappers/glider_wrapper.py")])
p("C23","Masks, apertures and training inputs are placed exactly",
 "A mask is 1 where the distance is at least the radius and 0 elsewhere, without touching its argument; a bite mask is the same mask in every channel, zero exactly inside the bite disc; the aperture is its complement centred on the image, and all ones from radius 0.975 up. A prepared input batch holds in its leading channels the image times aperture times bite mask plus noise in [0, noise level), independently per sample, and zero in the remaining channels; a target is the image with a leading batch dimension.",
 ["inputs","configurations"],"all images of even side, radii, coordinates, channel counts, batch sizes, noise draws",
 "tests check sums and shapes for a few fixed sizes",
 ["yuca/utils.py"],[("get_mask/get_bite_mask/get_aperture/prep_input/make_target","yuca/utils.py")])
p("C24","The pattern librarian returns what was stored",
 "For every directory content and every sequence of stores, whether or not the librarian is verbose: storing a pattern (any shape and dtype) adds exactly one new entry named after it and changes no file that was there; loading an entry returns, for ever after, the pattern that was stored (same shape, dtype and values, as an independent copy) and the metadata recorded with it exactly as given - the configuration (ca_config where no config_name is given), entry point, commit hash and notes, for all texts without line breaks, commas and blanks included - and a placeholder for a field the metadata file does not hold. The index lists exactly the stored patterns, sorted, also right after a store. Cropping returns an independent copy of the requested rows and columns over all leading dimensions.",
 ["inputs","histories"],"all patterns, texts, names and sequences of store / load operations",
 "no stable test uses the librarian",
 ["yuca/zoo/librarian.py"],[("store/load/update_index/crop","yuca/zoo/librarian.py")])
p("C25","Grid analysis: toroidal shift and entropies are exact",
 "The grid shift used in the analysis (by at most one cell along each axis) moves every value by the given offset with wrap-around, losing and duplicating none. For every non-constant grid: the grid entropy is the Shannon entropy (in bits) of the distribution of the grid's 8-bit values after stretching it to [0, 255], hence never negative (up to the 1e-9 inside the logarithm) and invariant under permuting cells; the conditional entropy is the entropy -sum p(s,u) log2 p(s|u) of a cell's 8-bit value s given its neighbour's value u in the chosen direction on the torus, and the multi-directional one is the mean over the four directions. The spatial entropy map of the universe analysis (Phanes) holds, for every cell, the entropy of the square window centred on it on the torus. Grids are not changed.",
 ["inputs"],"all grids and offsets",
 "excluded tests sample a handful of grids",
 ["yuca/analyze.py"],[("np_shift/get_grid_entropy","yuca/analyze.py")])
p("C26","Equal seeds give equal stochastic behaviour",
 "After seed_all with a given seed, what a stochastic operation produces depends on the seed and its arguments only, however much randomness was consumed before: the construction of an automaton (kernels, update functions, weights), the random step sizes of RandomStepCA, prepared training inputs and bite masks, the parameters and patterns of newly made agents, sampled actions, starting patterns and a new predictor of the halting wrappers, a newly constructed search, and its populations. The fitness of an agent depends on the seed it is evaluated with and not on what was drawn before the evaluation. A search draws its first population in the state its own seed gives, and each later one in the state that an evaluation left; so the whole search is determined by its seeds.",
 ["histories"],"all seeds and all preceding random-number consumption; the control experiment RandomWrapper (which seeds itself from the clock), clone.py and the step predictor are out of scope, as is the time in the name of a search",
 "the seed tests compare raw generator draws for a few seeds",
 ["yuca/utils.py",CC,"yuca/cmaes.py","yuca/cppn.py","yuca/random_step_ca.py","yuca/wrappers/halting_wrapper.py"],[("seed_all","yuca/utils.py"),("CMAES.get_fitness/mantle","yuca/cmaes.py"),("CCA.default_init",CC)])
json_path=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(json_path,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
