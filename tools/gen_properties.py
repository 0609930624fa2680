"""Writes properties.jsonl (kept as a script so that ids, titles and anchors stay in step)."""
import json, os

P = []


def add(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": ["src/flowMC/" + f for f in files],
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": hook}})


K = "resource/kernel/"
add("C01", "Random-walk kernel leaves the target distribution invariant",
    "One step of the Gaussian random-walk kernel proposes the current position plus independent Gaussian noise of the configured step size and accepts with probability min(1, target ratio), so every target density is left exactly invariant. An accepted move returns the proposal and the target's log-density there, a rejected one the unchanged position and log-density, and the accept flag says which happened.",
    ["inputs"], "every target, step size, dimension, position and every outcome of every random draw",
    "Tests run one fixed key on one Gaussian and look at loose sample moments; a biased acceptance rule shifts the stationary law by less than that.",
    [K + "Gaussian_random_walk.py"], [("Metropolis accept/reject", "GaussianRandomWalk.kernel")], observe=["kernel return values"])
add("C02", "MALA kernel leaves the target distribution invariant",
    "One step of the MALA kernel with step size e proposes from a Gaussian centred at x + e^2/2 grad log pi(x) with covariance e^2, and accepts with the Metropolis-Hastings probability including the asymmetric proposal densities in both directions, so every differentiable target is left exactly invariant. The returned position, log-density and accept flag agree with each other.",
    ["inputs"], "every differentiable target, scalar or diagonal-matrix step size, dimension, position and random outcome",
    "Tests sample a few fixed keys; a wrong correction term only biases the stationary law, which no fixed-seed moment test resolves.",
    [K + "MALA.py"], [("forward and reverse proposal density in the ratio", "MALA.kernel")], observe=["kernel return values"])
add("C03", "HMC kernel leaves the target distribution invariant",
    "One step of the HMC kernel draws momenta with covariance equal to the inverse of the condition matrix (scalar, diagonal or full), follows a reversible volume-preserving leapfrog trajectory whose energy error is second order in the step size, and accepts with probability min(1, exp(-energy change)), so every differentiable target is left exactly invariant. The returned position, log-density and accept flag agree with each other.",
    ["inputs"], "every differentiable target, condition matrix, step size, trajectory length, position and random outcome",
    "Tests use the identity matrix with one seed; metric-dependent or trajectory-length-dependent errors never show.",
    [K + "HMC.py"], [("leapfrog coefficients", "HMC.leapfrog_kernel"), ("energy-based acceptance", "HMC.kernel")], observe=["kernel return values"])
add("C04", "Normalizing-flow proposals form a valid independence sampler",
    "A group of n steps of the flow proposal kernel is n consecutive Metropolis-Hastings steps whose proposals are independent draws from the flow and whose acceptance uses target and flow densities at both the proposed and the current position. The joint law of the n recorded states is that of the exact chain, whatever n and whatever internal batch size is used, and proposals identical in law to the target are always accepted.",
    ["inputs", "configurations"], "every n_steps, batch size (dividing or not, larger or smaller), initial state, flow and target, every random outcome",
    "Tests run one shape with one seed and never check the law of the path; batch boundaries and the carry of the flow density are never exercised.",
    [K + "NF_proposal.py"], [("carry of current log densities", "NFProposal.kernel"), ("batched flow sampling", "NFProposal.sample_flow")], observe=["kernel return values"])
add("C05", "Recorded histories are self-consistent and stay inside the support",
    "For every kernel and both step strategies, each recorded log-probability is the target's value at the recorded position for the data the caller passed (whatever their names), each recorded acceptance is 1 exactly when the chain moved and 0 when it stayed, and the first state follows from the given initial position. A chain started at a finite log-density never records a state of zero density or NaN log-density, for every random outcome including a uniform draw of exactly 0.",
    ["inputs", "histories"], "every kernel, target with holes or NaN regions, every sequence of draws including extremes",
    "Tests only check shapes and finiteness on smooth Gaussians; draws at the edge of the unit interval and undefined regions are not reached.",
    ["strategy/take_steps.py", K + "MALA.py", K + "HMC.py", K + "NF_proposal.py", K + "Gaussian_random_walk.py"], [("jnp.where on do_accept", "kernels"), ("scan carry", "TakeSerialSteps.body")], observe=["position/log_prob/acceptance buffers"])
add("C06", "Sampling steps are recorded without loss, overwrite or misalignment",
    "Each call of a step strategy appends to the position, log-probability and acceptance buffers selected by the state, at the current write position, exactly every thinning-th step of every chain in order, advances the write position by the number of recorded steps, and leaves all other entries of those and all other buffers untouched. The position it hands on is the last recorded state of each chain, so successive calls continue the same chains.",
    ["histories", "configurations"], "every sequence of calls, n_steps, thinning (dividing or not), numbers of chains and dimensions, state redirections",
    "Tests call a strategy once, with thinning 1 mostly, and look at one buffer; cursor arithmetic across calls and non-dividing thinning are not covered.",
    ["strategy/take_steps.py", "resource/buffers.py", "resource/states.py"], [("current_position cursor", "TakeSteps.__call__"), ("dynamic_update_slice", "Buffer.update_buffer")], [("current_position", "next write index", "TakeSteps")], ["buffers after every call", "returned positions"])
add("C07", "Chains are independent and chain batching is transparent",
    "The history of one chain depends only on its own initial position and its own randomness: changing any other chain's initial position changes nothing else. Splitting the chains into batches of any size, including sizes that do not divide the number of chains, changes nothing in any recorded history or returned position.",
    ["configurations", "inputs"], "every number of chains, chain batch size, kernel, step strategy and set of perturbed chains",
    "Tests compare at most one batch size with one kernel; remainder batches and cross-chain leakage are not enumerated.",
    ["strategy/take_steps.py"], [("batch loop", "TakeSteps.__call__"), ("vmap over chains", "TakeSteps.__call__")], observe=["buffers", "returned positions"])
add("C08", "Randomness is reproducible and never reused",
    "A run is a deterministic function of its key, inputs and resources. No random draw decides two different things: different chains, different steps, proposal and acceptance, different temperatures and swap decisions, and successive strategies of one run all use separate randomness, and the key handed on is fresh.",
    ["histories", "inputs"], "every draw of a run of each strategy, every pair of decisions",
    "Key reuse leaves every individual output plausible; tests only look at marginal outputs.",
    ["strategy/take_steps.py", "strategy/parallel_tempering.py", "strategy/train_model.py", "strategy/optimization.py", "Sampler.py", K + "NF_proposal.py"], [("jax.random.split discipline", "all strategies")], observe=["influence of each draw on each decision"])
add("C09", "The flow-enhanced bundle keeps training and production separate and complete",
    "For every configuration of loops, steps and thinnings, a run of the RQSpline-MALA bundle fills the training buffers during the training phase and the production buffers during the production phase completely, with local and global segments alternating in order and no entry written twice. During production the training buffers, the flow, the optimizer and the losses do not change; each global segment proposes from the flow of the latest training; each training call uses the history recorded so far and appends exactly its own losses.",
    ["configurations", "histories"], "every combination of training/production loops, local/global steps, thinnings, epochs and chain batches",
    "Tests run one or two configurations and check only that sampling finishes; phase discipline and cursor hand-over are not observed.",
    ["resource_strategy_bundle/RQSpline_MALA.py", "strategy/train_model.py", "strategy/update_state.py", "strategy/lambda_function.py"], [("strategy_order", "RQSpline_MALA_Bundle"), ("state redirection", "UpdateState")], [("sampler_state", "which buffers are written", "State")], ["all resources after each strategy"])
add("C10", "The parallel-tempering bundle keeps its phases separate and complete",
    "For every configuration with at least two temperatures, a run of the parallel-tempering bundle starts every temperature of every chain from that chain's initial position, then behaves as the plain bundle does with a tempering step before each local segment: buffers are filled completely, in order and once. During production the training buffers, flow, optimizer, losses and temperature ladder do not change while the tempered walkers keep evolving, and all stages sample the same target.",
    ["configurations", "histories"], "every combination of loops, steps, thinnings, temperatures and chain counts",
    "One tiny configuration is run for completion only.",
    ["resource_strategy_bundle/RQSpline_MALA_PT.py", "strategy/parallel_tempering.py"], [("strategy_order", "RQSpline_MALA_PT_Bundle")], [("tempered_positions", "walkers above temperature 1", "Buffer"), ("temperatures", "ladder", "Buffer")], ["all resources after each strategy"])
add("C11", "The sampler runs exactly the requested strategies, threading their results",
    "Sampling executes the strategies named in the order, once per occurrence, each receiving the key, resources and last position returned by its predecessor and the caller's data; the sampler ends up holding the final resources. An unknown name raises a ValueError when it is reached, the caller's position and data are not modified, and state updates and function strategies change nothing but what they are asked to.",
    ["histories", "configurations"], "every order over a small alphabet including repetitions and unknown names, both ways of constructing the sampler",
    "Tests use one order each.",
    ["Sampler.py", "strategy/update_state.py", "strategy/lambda_function.py"], [("strategy loop", "Sampler.sample")], observe=["calls received by strategies", "sampler.resources"])
add("C12", "Replica exchange preserves the joint tempered distribution and every walker",
    "The exchange step of parallel tempering only permutes the walkers of each chain among its temperatures, each chain on its own, and considers every adjacent pair. Swaps are accepted with probability min(1, exp((1/T_j - 1/T_i)(L_i - L_j))) on the untempered log-density, so the product of tempered densities is exactly invariant.",
    ["inputs", "histories"], "every walker configuration, ladder, number of chains and outcome of every swap draw",
    "Tests check output shapes; a swap rule with a wrong sign or stale log-density still returns finite positions.",
    ["strategy/parallel_tempering.py"], [("sequential adjacent swaps", "ParallelTempering._exchange")], observe=["returned cold positions", "tempered position buffer"])
add("C13", "Each temperature samples its own tempered density",
    "Between exchanges the walker at temperature T is advanced by the configured number of kernel steps on the density exp(L/T) times the prior, starting from its own position with its own current log-density; the coldest level has T equal to the first ladder entry. The prior is never tempered and the user's data reaches both likelihood and prior.",
    ["inputs", "configurations"], "every temperature, number of steps, likelihood, prior, position and random outcome",
    "Tests use a zero prior, so a tempered or missing prior changes nothing they see.",
    ["strategy/parallel_tempering.py", "resource/logPDF.py"], [("tempered_log_pdf", "TemperedPDF"), ("vmap over temperatures", "ParallelTempering._ensemble_step")], observe=["log-densities and arguments the kernel receives", "positions after the step"])
add("C14", "Temperature adaptation keeps a valid ladder and stops in production",
    "Whatever swaps were accepted, adaptation leaves the first and last temperature unchanged and yields finite, non-decreasing temperatures between them; equal acceptance at all levels leaves the ladder as it is, and a gap grows when its swaps are accepted more often than the next gap's and shrinks when less. Outside the training phase the ladder never changes.",
    ["histories"], "every acceptance pattern, every sequence of adaptation calls up to a depth, number of chains and temperatures",
    "Tests check one adaptation step for shape; runaway or reordered ladders need particular acceptance histories.",
    ["strategy/parallel_tempering.py"], [("gap rescaling", "ParallelTempering._adapt_temperature")], [("temperatures", "ladder", "Buffer")], ["temperature buffer after each call"])
add("C15", "Repeated tempering steps are one Markov chain on the joint state",
    "In training and in production alike, the walkers a tempering call leaves behind are the walkers the next call starts from, for the cold level through the returned position and for the others through the tempered buffer. With a fixed ladder, repeated calls leave the product of the tempered densities exactly invariant.",
    ["histories", "inputs"], "every sequence of calls, phase flag, walker configuration and random outcome",
    "Tests make a single call.",
    ["strategy/parallel_tempering.py"], [("update of the tempered buffer", "ParallelTempering.__call__")], [("tempered_positions", "walkers", "Buffer")], ["returned positions", "tempered position buffer"])
M = "resource/model/"
add("C16", "Spline flows are smooth bijections with the right Jacobian",
    "For every parameter state a rational-quadratic spline layer and a spline flow built from it reach, forward and inverse are inverse to each other at every point, including knots, range ends and points outside the range; the two log-determinants are opposite and equal the log of the true derivative, and the map is increasing in each transformed coordinate. Coordinates a coupling layer conditions on pass through unchanged.",
    ["inputs", "histories"], "every spline parameter setting reachable by training, every input including boundaries",
    "Tests evaluate freshly initialised (near-identity) flows at random points.",
    [M + "nf_model/rqSpline.py", M + "common.py"], [("bin search, quadratic root", "_rational_quadratic_spline_*"), ("layer order", "MaskedCouplingRQSpline.inverse")], observe=["forward/inverse outputs"])
add("C17", "Affine coupling flows are bijections with the right Jacobian",
    "For every parameter state reachable by training, RealNVP, the affine coupling layers and the scalar and masked affine bijections have forward and inverse maps that are inverse to each other, log-determinants that are opposite and equal the true Jacobian, and leave the conditioning coordinates unchanged.",
    ["inputs", "histories"], "every parameter state (including after many optimizer steps), dimension, number of layers and input",
    "Tests use freshly initialised weights where scale and shift are nearly zero.",
    [M + "nf_model/realNVP.py", M + "common.py"], [("masking", "MaskedCouplingLayer"), ("affine map", "MLPAffine, ScalarAffine, AffineCoupling")], observe=["forward/inverse outputs"])
add("C18", "A flow's log-density is the density of its own samples",
    "For both normalizing flows, with any base distribution whose samples are arrays, any data mean and any data covariance, log_prob is the normalised log-density of exactly the distribution that sample draws from, before and after training. Sampling n points yields n independent draws.",
    ["inputs", "configurations"], "every base distribution, whitening, parameter state and base draw",
    "Tests check the shape of samples and of log_prob separately.",
    [M + "nf_model/rqSpline.py", M + "nf_model/realNVP.py", M + "nf_model/base.py", M + "common.py"], [("whitening and base density", "log_prob / sample")], observe=["log_prob at sampled points"])
add("C19", "Flow matching: density, samples and training pairs agree",
    "The flow-matching model's log_prob is the log-density of the distribution its sample draws from (to ODE solver accuracy), for any velocity network, data mean and covariance. The training path starts at the source point and ends at the data point, and the velocity it reports is its time derivative, in whitened coordinates.",
    ["inputs", "configurations"], "every velocity field of a family, whitening, start point and time",
    "Tests check finiteness and shape.",
    [M + "flowmatching/base.py"], [("augmented ODE", "Solver.log_prob"), ("scheduler", "CondOTScheduler")], observe=["log_prob and sample outputs", "what train_step receives"])
add("C20", "Training returns the best model it saw, with its optimizer state",
    "Training returns the model and the optimizer state reached at the end of the epoch with the smallest recorded loss (the first of equals; NaN never wins; the untrained model only if no epoch has a finite or comparable loss), together with the loss of every epoch in order. This holds for normalizing flows and for flow matching, for every sequence of losses.",
    ["histories"], "every sequence of epoch losses over a small alphabet including ties, NaN, infinities and huge values",
    "Tests train once with decreasing losses.",
    [M + "nf_model/base.py", M + "flowmatching/base.py"], [("best_loss tracking", "train")], [("best_model/best_state", "returned pair", "train")], ["return value of train"])
add("C21", "Training uses the intended history, and every example at most once per epoch",
    "The training strategy trains on points recorded in the data buffer only: finite entries, at most the history window's most recent entries of each chain, never unwritten entries, and any such entry can be chosen (every chain having equally many recorded). Each epoch feeds mini-batches of the requested size drawn at random without repetition, leaving out less than one batch; the resulting model, optimizer state and losses replace or append to the stored ones and nothing else changes, so successive trainings continue each other.",
    ["inputs", "histories", "configurations"], "every filling level, window, number of chains, batch size, data size and draw outcome",
    "Tests run one configuration with a full buffer.",
    ["strategy/train_model.py", M + "nf_model/base.py", M + "flowmatching/base.py", "resource/optimizer.py"], [("finite filter and window", "TrainModel.__call__"), ("permutation batching", "train_epoch")], observe=["data received by the model", "loss buffer", "optimizer state"])
add("C22", "Training never changes what is not trainable",
    "After any number of training epochs with the provided optimizer, the stored data mean and covariance are those of the training data, coupling masks are still exactly 0 or 1 with the same pattern, dimensions and bounds are unchanged, and a base distribution that is not learnable keeps its mean and covariance; none of these receives a gradient. A learnable base distribution is trained. Changing the precision of a model changes no mask.",
    ["histories", "inputs"], "every number of epochs, learning rate, model and data set",
    "Tests train briefly and look at the loss.",
    [M + "nf_model/base.py", M + "common.py", M + "flowmatching/base.py", "resource/optimizer.py"], [("stop_gradient", "mask / mean / cov properties"), ("weight decay", "Optimizer")], observe=["model leaves after training"])
add("C23", "Saved resources load back equal",
    "Saving a buffer, a state or a model and loading it returns a resource that behaves identically: same name, contents, shape, cursor and cursor dimension, same values and types of state entries, same model outputs bit for bit. Saving does not change the resource, and two resources saved in the same place do not overwrite one another if their names (without a .npz ending) differ.",
    ["histories", "inputs"], "every buffer shape, cursor, state content, model type, and every order of save, update and load up to a depth",
    "Tests round-trip one buffer's data array.",
    ["resource/buffers.py", "resource/states.py", M + "nf_model/base.py", M + "flowmatching/base.py"], [("npz files", "save_resource / load_resource"), ("leaf serialisation", "save_model / load_model")], observe=["loaded resource"])
add("C24", "Adam optimization stays in bounds and treats each chain alone",
    "After at least one step every chain returned by the Adam strategy lies within the given bounds, whether one shared pair or one pair per dimension, and depends only on its own start and randomness. With the noise switched off it is plain Adam with projection on the negative log-density; incompatible bounds raise a ValueError, and the log-densities reported are those of the returned positions.",
    ["inputs", "configurations"], "every bound shape, start (inside, on, outside the bounds), noise outcome, number of steps and chains",
    "Tests run two configurations and check the final mean.",
    ["strategy/optimization.py"], [("projection", "AdamOptimization.optimize")], observe=["returned positions and log-densities"])
add("C25", "Log-density wrappers evaluate exactly the user's functions",
    "A wrapped log-density returns what the user's function returns for the same position and data; a tempered one returns likelihood divided by temperature plus prior, and plain likelihood when called untempered. Wrapping survives jit, vmap, gradient and pytree round trips, dimensions and variable names are as declared, and a composite of distributions is the product of its parts on the right coordinates.",
    ["inputs", "configurations"], "every temperature, position, data, transformation order and variable declaration",
    "Tests call the wrapper once.",
    ["resource/logPDF.py", M + "common.py"], [("pytree registration", "LogPDF / TemperedPDF"), ("slicing", "Composable.log_prob")], observe=["returned values"])

add("C26", "The optimizer is AdamW on clipped gradients with the options given",
    "For every sequence of gradients the optimizer resource moves a model's array parameters exactly as AdamW with the given learning rate and the given momentum as first-moment decay, after scaling gradients of global norm above 1 down to norm 1; its state carries over from update to update and from training call to training call, a model's train_step uses it as is, and two optimizers never influence each other.",
    ["histories", "configurations"], "every sequence of gradients to a depth (zero, tiny, at and above the clipping norm, huge), learning rate, momentum",
    "Tests only see that a loss goes down.",
    ["resource/optimizer.py", M + "nf_model/base.py"], [("optax chain", "Optimizer.__init__"), ("apply updates", "NFModel.train_step")], [("optim_state", "moments and step count", "Optimizer")], ["parameters after every update"])
add("C27", "Buffers and states hold exactly what was written",
    "A new buffer of any shape holds only the value -inf; writing a block at a start index replaces exactly the entries of that block along the cursor dimension and nothing else, and writes to one buffer never show in another. A state holds exactly the entries it was given; an update sets each listed name to the value at the same place of the list, in order and with its type (new names are added), and leaves all other entries and states unchanged. The state-update strategy applies exactly its own names and values, each time it is called, to the named state, and changes no other resource, the key or the positions.",
    ["histories", "inputs"], "every buffer shape up to three axes, cursor dimension, block and start, and every sequence of writes to a depth",
    "Tests write once into one shape.",
    ["resource/buffers.py", "resource/states.py", "strategy/update_state.py"], [("dynamic update slice", "Buffer.update_buffer"), ("dictionary", "State.update")], [("data", "stored values", "Buffer / State")], ["buffer data", "state values"])
add("C28", "Every bundle option reaches the component it configures",
    "In both resource-strategy bundles, for every combination of options: the local kernel has the given step size, the flow has the given number of layers, hidden units and bins and is initialised from the given key, the proposal starts with that same flow and evaluates the target on at most the given number of points at once, the optimizer has the given learning rate, all buffers have the sizes the step, loop, epoch and thinning options imply, and the target is the user's. In the tempered bundle the ladder starts linear from 1 to the given maximum with the given number of temperatures, tempering takes the given number of steps (the number of local steps if not positive), and the prior and history window are the given ones. Omitted options take their documented defaults; progress output and the chain batch size change no result.",
    ["configurations"], "every pair (triple) of options of both bundles away from a base configuration, and the defaults",
    "Tests build one configuration of each bundle.",
    ["resource_strategy_bundle/RQSpline_MALA.py", "resource_strategy_bundle/RQSpline_MALA_PT.py", K + "NF_proposal.py"], [("construction of resources and strategies", "__init__ of both bundles")], observe=["resources of the bundle", "results of runs"])
add("C29", "A whole run is exactly the Markov chain of its kernels",
    "For every initial state, the recorded histories of a complete run (training and production loops, alternating local and global steps, thinning, chain batching) with a fixed flow have exactly the joint law of the Markov chain that applies the local kernel and the flow's independence Metropolis-Hastings kernel in the order configured, the draws of all steps and chains being independent. In particular chains that start from the target have the target as law at every recorded step.",
    ["inputs", "configurations", "histories"], "every joint outcome of every draw of a run on a lattice, every initial state, schedule, thinning and chain batch size within the bounds",
    "Tests compare a few moments of one run with wide tolerances; reused randomness or a stale log-density at a segment boundary shifts laws by amounts they cannot see.",
    ["strategy/take_steps.py", K + "NF_proposal.py", "resource_strategy_bundle/RQSpline_MALA.py", "Sampler.py"], [("key splitting per chain", "TakeSteps.__call__"), ("hand-over of positions", "Sampler.sample"), ("independence MH", "NFProposal.kernel")], observe=["recorded positions and log-densities of all phases"])
add("C30", "Every call uses the resources, data and options of that call",
    "The result of calling a strategy depends only on its options and on the key, resources, positions and data of that call: after any history of earlier calls of this or another strategy object with other kernels, step sizes, targets, data, priors, ladders, flows, optimizers, numbers of chains or array shapes, the result is the same as that of a newly built strategy in a fresh process.",
    ["histories"], "every ordered pair (triple) of calls over an alphabet of two to three values for everything a call receives",
    "Tests build each strategy once and call it once; compiled code that captured an earlier value only shows on a later call.",
    ["strategy/take_steps.py", "strategy/parallel_tempering.py", "strategy/train_model.py", "strategy/optimization.py", K + "NF_proposal.py", K + "MALA.py", K + "HMC.py", M + "nf_model/base.py"], [("eqx.filter_jit / jax.jit of closures", "all strategies and kernels")], observe=["results of each call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as h:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        h.write(json.dumps(p) + "\n")
print(len(P))
