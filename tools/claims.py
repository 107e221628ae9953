TECH = "contract-based deductive verification of the real source (pyvc: symbolic execution of /repo's functions against contracts, loop invariants synthesised and proved, obligations discharged by a ring normaliser, z3 and cvc5)"
COMMON = " Exact real arithmetic instead of floating point; torch/numpy operations by assumed contracts, cross-checked by bounded executions of the real code."
CLAIMS = {
 "C01": "For every batch size, channel counts, kernel radius, grid size, step size and arbitrary update functions, every step and frame function of all seven families." + COMMON,
 "C02": "Step, every get_frame mode and the half-precision branch equal the documented formula for every shape and arbitrary update functions; half precision is treated as exact arithmetic." + COMMON,
 "C03": "Lenia's step formula, and equality of two real executions (Lenia and glaberish with G = P), for every shape." + COMMON,
 "C04": "Shift equivariance, batch independence and locality of every family's step for every shape, shift and batch size, each proved as an equality of two executions of the real code; the adaptive automaton's Euler step at equal dt." + COMMON,
 "C05": "Inductive step of the time counter for every family, plus dt read-back and reset, from an arbitrary counter value." + COMMON,
 "C06": "The step-size ladder of the adaptive automaton with an unbounded number of rejected candidates, over arbitrary layers and update functions (so over every automaton of the class); the Euler step itself for every shape and channel arrangement; the random step sizes and the recorded time." + COMMON,
 "C07": "One step from an arbitrary velocity (carried over, other shape, fresh, after reset), for every shape." + COMMON,
 "C08": "Step and frame functions equal the reaction-diffusion law for every shape and parameters; equilibrium identities of the initial grid proved algebraically." + COMMON,
 "C09": "alive_mask and every step equal the step of the documented masked grid, for every channel count." + COMMON,
 "C10": "Every profile kernel of every radius equals its normalised profile, for every parameter value and every number of mixture components; non-negativity, smallest entry 0 and sum at most 1 follow from a lemma over an arbitrary profile (sums of non-negative terms are non-negative is the one inductive fact used unproved)." + COMMON,
 "C11": "Name dispatch for every radius and parameters, all stencil identities for every radius, unknown names as an arbitrary string different from all known ones." + COMMON,
 "C12": "Closed forms of every update function for every shape, parameter value, mode and number of components." + COMMON,
 "C13": "Every pair of neighbour-count sets, given in any order, for every grid shape: each listed / unlisted count is an obligation on the functions loaded from the configuration, and the step is checked against their contract. exp enters through the stated numeric bounds only." + COMMON,
 "C14": "Every parameter vector, any number of update functions of one kind per automaton (mixed kinds up to three), any number of kernel components, all four families; network layers of any width." + COMMON,
 "C15": "Every parameter vector, channel count and window size; the CPPN network by its parameter list, patterns for every grid of side 2 or more." + COMMON,
 "C16": "Round trips through make_config/load_config and through files for every kernel kind, update function kind and network activation, any number of channels of one kind (mixed kinds up to three), after any one public mutation; nothing-shared proved by changing every mutable object reachable from the other side." + COMMON,
 "C17": "Layer output equals the correlation with the installed kernel for every kernel of every odd side, every accepted form, torch and numpy, both boundary modes, every channel arrangement; the caller's array is overwritten before and after the layer is built." + COMMON,
 "C18": "Ranking, the three selection modes and the re-estimated distribution for every population size, parameter length, fitness assignment (ties included) and random draw; argsort, argmax, choice and multivariate_normal by their documented contracts. get_fitness of both searches for every number of replicates and steps." + COMMON,
 "C19": "Initialisation and resampling for every population size and selection mode, the order of evaluation and ranking for every number of generations (an inductive step over the generation loop, early convergence included), one process; agents by the contract of C15." + COMMON,
 "C20": "The coordinator for every population size, number of workers and number of generations; the worker for no, one and (bounded) two jobs of any size. The communicator is assumed to deliver messages in order per pair of processes; workers that die are out of scope." + COMMON,
 "C21": "Both wrappers for every automaton (by contract: after a reset, an arbitrary trajectory of grids in [0, 1] with the given parameters), every number of steps, batch size, grid size, mode and earlier history; the predictor network and its training are abstracted to an arbitrary function with values in [0, 1]." + COMMON,
 "C22": "The reward as a sum over an unbounded number of steps, for every pattern, automaton (by contract: an arbitrary trajectory after a reset), number of steps, grid size and kernel radius." + COMMON,
 "C23": "Masks, bite masks, apertures, targets and prepared inputs for every even image size, radius, position, channel count, batch size and noise draw." + COMMON,
 "C24": "store / load for every pattern, name and metadata text without line breaks (symbolic strings), every directory content (an arbitrary set of existing files) and any number of earlier entries of the same name (the search for a free name is a loop of any length); two stores from an arbitrary state are the step of the induction over any sequence. The listing of the directory (index) is checked for directories of at most three entries of arbitrary names: those contracts are bounded." + COMMON,
 "C25": "The toroidal shift, grid entropy, conditional and multi-directional entropy and spatial entropy map for every grid, offset and window; histograms as sums of indicators." + COMMON,
 "C26": "Two executions of the real code after the same seed, from unrelated generator states, uninitialised memory and clock, compared in every attribute they leave; any radius, number of mixture components, grid, population and generation count; automata of one and two channels (nine in a bounded contract). Generators are abstract states advanced by every draw." + COMMON,
}
NA = {}
