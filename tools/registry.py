"""Single source for properties.jsonl, MANIFEST.json and the per-property table of DESIGN.md.

    python3 tools/registry.py     # rewrites properties.jsonl and MANIFEST.json
A property is claimed when checks/<id>.py exists."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, technique, note, design):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                      files=files, mech=mech, observe=observe, technique=technique, note=note, design=design))


RM = "reagent/replay_memory/"
TR = "reagent/training/"
PP = "reagent/preprocessing/"
EV = "reagent/evaluation/"
OE = "reagent/ope/estimators/"
GY = "reagent/gym/"
SV = "serving/reagent/serving/"

# ---------------------------------------------------------------- replay memory
P("R01", "Replay samples reproduce the recorded trajectory exactly",
  "Every transition a replay buffer returns is the one that was recorded at that point of the history: observation (with frame stacking), action and every extra field are those added, the next observation/action/extras are those n steps later, the reward is the discounted sum (or per-step list) over exactly the steps up to the horizon or the episode end, and terminal and step counts say where the episode ended. Frames from another episode, from before the episode start (which read as zeros) or already overwritten never leak in. This holds for every capacity, stack size, horizon, discount and episode layout, including after the buffer has wrapped around any number of times.",
  "histories configurations", "all add/sample histories over capacities, stack sizes, update horizons, discounts, return-everything mode, extra-field shapes and dtypes, episode length mixes and wrap-arounds",
  "the tests fix one or two small histories and mostly one configuration each; stacking, n-step, terminal and wrap-around interact only for particular lengths",
  [RM + "circular_replay_buffer.py"],
  [("add / sample_transition_batch / n-step reward and terminal handling", RM + "circular_replay_buffer.py:ReplayBuffer")],
  ["ReplayBuffer.add", "ReplayBuffer.sample_transition_batch"],
  "online shadow-history monitor over randomised add/sample histories",
  "random and boundary histories; not every history", "an independent list-of-episodes shadow is fed the same add() calls; each returned row is decided by locating the index in the shadow and recomputing every field from the raw episode")
P("R02", "Replay validity: only and all complete transitions are sampleable",
  "At any point of any history the set of indices a replay buffer considers valid is exactly the stored steps whose observation stack and whole n-step window are still present (episode-end steps count as soon as the episode ended); the reported size equals the number of such steps, padding frames are never valid, and sampling returns only valid steps, reaching all of them. Asking for all transitions returns each valid step exactly once, and sampling from a buffer with nothing to give is refused.",
  "histories configurations", "all add histories and sampling requests, checked after every single add",
  "tests check a handful of indices after one hand-written history; the validity bitmap is maintained incrementally and errors appear only at particular cursor/episode-end/wrap combinations",
  [RM + "circular_replay_buffer.py"],
  [("incremental validity bitmap", RM + "circular_replay_buffer.py:add"), ("index sampling", RM + "circular_replay_buffer.py:sample_index_batch")],
  ["ReplayBuffer.size", "ReplayBuffer.is_valid_transition", "ReplayBuffer.sample_all_valid_transitions"],
  "after-every-step conservation monitor against a declarative definition of validity",
  "random histories; validity recomputed from scratch after each add", "validity is recomputed from the shadow history after every add and compared index by index; sampled indices are tallied")
P("R03", "Replay checkpoints restore the buffer",
  "Saving a replay buffer and loading the checkpoint into an identically configured buffer restores an equivalent buffer: same size, same valid transitions, identical sampled content, and identical behaviour for whatever is added afterwards, including in the middle of an episode. A missing, incomplete or corrupt checkpoint is refused with an error and leaves the live buffer unchanged, and old checkpoints are garbage-collected only beyond the configured retention.",
  "crash_points histories fault_sequences", "all histories split at an arbitrary save point; checkpoint sets with any file missing or truncated",
  "tests save an empty or tiny buffer and compare a few arrays; nothing continues a history after a load or samples from the restored buffer",
  [RM + "circular_replay_buffer.py"],
  [("save/load of checkpointable elements", RM + "circular_replay_buffer.py:save,load")],
  ["ReplayBuffer.save", "ReplayBuffer.load"],
  "twin-run differential monitor (restored vs. never interrupted) with missing/truncated-file faults",
  "random histories and save points; every single-file fault for each checkpoint", "the same tail of operations is applied to the original and the restored buffer and every observable is compared; each checkpoint file in turn is removed or truncated")
P("R04", "Prioritised replay samples in proportion to priority",
  "The sum tree always holds exactly the priorities set, a query at any point of [0,1] returns the leaf whose cumulative priority interval contains it, and zero-priority leaves are never returned. The prioritised buffer stores the priority given with each transition, returns stored priorities with sampled transitions as their sampling weights, only ever samples valid transitions, and an overwritten slot takes the new transition's priority.",
  "histories inputs", "all sequences of priority sets, queries, adds, updates and samples, for every capacity",
  "tests sample a fixed tree; proportionality, stale interior nodes and overwrites need long mixed histories",
  [RM + "sum_tree.py", RM + "prioritized_replay_buffer.py"],
  [("SumTree", RM + "sum_tree.py:SumTree"), ("priority storage and stratified sampling", RM + "prioritized_replay_buffer.py")],
  ["SumTree.set/get/sample/stratified_sample", "PrioritizedReplayBuffer.sample_transition_batch/set_priority/get_priority"],
  "model-based history monitor plus sampling-frequency statistics with calibrated bounds",
  "random histories; frequency tests at 1e-9 false-alarm level", "a flat array shadows the tree; queries are decided by prefix sums; frequencies by a multinomial bound")

# ---------------------------------------------------------------- preprocessing
P("F01", "Feature normalisation computes the declared transform",
  "For every feature the preprocessor output equals the mathematical definition of its declared type (binary, probability logit, continuous, Box-Cox, quantile, one-hot enum, clip-log, do-not-preprocess, continuous action), missing features become zero (or the enum's all-zero row) and ordinary feature outputs are clamped to the declared range. The result for a feature does not depend on which other features, in which order, or which other rows are in the batch.",
  "inputs configurations", "all feature sets, type mixes, parameter values, presence masks and value ranges including extremes",
  "tests normalise a fixed generated table once; enum gaps, quantile edges, missing rows and mixed feature groupings are single points in a large space",
  [PP + "preprocessor.py", PP + "normalization.py"],
  [("per-type transform dispatch", PP + "preprocessor.py:Preprocessor")],
  ["Preprocessor.forward"],
  "scalar reference oracle over randomised feature sets and metamorphic batch/row monitors",
  "random parameter sets; float32 tolerance", "each output column is recomputed per row in float64 from the definition of its type, and rows are re-run alone")
P("F02", "Continuous actions round-trip between environment and training range",
  "Scaling an action into the training range and back is the identity, both conversions are affine and monotone and map range ends to range ends, and the action postprocessor is the exact inverse of the action preprocessing for every declared serving range. Rescaling any value keeps it within the target range for values within the source range.",
  "inputs configurations", "all action dimensions, source and target ranges including asymmetric and per-dimension ones, and all values in them",
  "tests check a few fixed ranges",
  [PP + "postprocessor.py", "reagent/gym/utils.py", "reagent/training/utils.py", PP + "preprocessor.py"],
  [("rescale_actions", "reagent/training/utils.py"), ("Postprocessor.forward", PP + "postprocessor.py")],
  ["Postprocessor.forward", "rescale_actions", "Preprocessor CONTINUOUS_ACTION"],
  "round-trip and endpoint monitors over random ranges", "random ranges and values", "inverse pairs are composed on random tensors; endpoints and order are checked")
P("F03", "Normalisation parameters are identified from data and serialise losslessly",
  "The parameters identified from a sample describe that sample: mean, deviation, quantiles, enum values, min and max are those of the data (in the transformed space for transformed features), the identified type obeys the documented rules and explicit overrides always win. Parameters survive the JSON round trip used to store them, and sorted feature lists used to build inputs agree with the preprocessor's column order and output width.",
  "inputs configurations", "all data samples, overrides and feature sets",
  "tests draw one large sample per type and check the type only",
  [PP + "normalization.py", PP + "identify_types.py"],
  [("identify_parameter", PP + "normalization.py"), ("identify_type", PP + "identify_types.py")],
  ["identify_parameter", "serialize/deserialize", "get_num_output_features", "sort_features_by_normalization"],
  "recompute-from-data oracle and JSON round-trip monitor", "random samples", "statistics are recomputed from the raw sample")
P("F04", "Raw rows become exactly the tensors they describe",
  "Converting sparse rows, lists, map-valued columns and id lists into dense tensors preserves every value at its row and feature, marks presence exactly, keeps row order and fills absences with the declared default; the batch transforms change exactly the keys they declare and compose in order. Sparse id features keep offsets, order and weights per row under their declared names, each id replaced by its own index in the declared mapping, and undeclared features dropped.",
  "inputs configurations", "all sparse rows, key orders, empty rows, id lists and transform pipelines",
  "tests convert three or four literal rows",
  [PP + "sparse_to_dense.py", PP + "sparse_preprocessor.py", PP + "transforms.py", PP + "batch_preprocessor.py", PP + "types.py"],
  [("sparse to dense processors", PP + "sparse_to_dense.py"), ("transforms", PP + "transforms.py"), ("make_sparse_preprocessor", PP + "sparse_preprocessor.py"), ("batch preprocessors", PP + "batch_preprocessor.py")],
  ["processor outputs", "transform outputs", "typed batches"],
  "row-by-row reference oracle and conservation monitor", "random batches", "plain-Python reference per row")

P("F05", "Queries turn the timeline table into exactly the training rows it describes",
  "The training rows a workflow query produces from a timeline table are exactly the rows whose episode falls in the declared sample range: state, action, mask, step, time difference, probability and multi-step discounted reward (from the reward column or a custom expression over metrics) of each row in its own columns, next state and next action of the same episode, absences marked as absent. Adjacent sample ranges share no episode and together lose none, the same episode always lands in the same part, and malformed requests are refused. Normalisation identified from a table describes the values of that table.",
  "inputs configurations", "all timeline tables, sample ranges, reward expressions, feature sets, discounts and step counts",
  "the tests that touch it need a Spark cluster and are not in the stable set",
  ["reagent/workflow/data_fetcher.py", "reagent/workflow/identify_types_flow.py"],
  [("query_data", "reagent/workflow/data_fetcher.py"), ("identify_normalization_parameters", "reagent/workflow/identify_types_flow.py")],
  ["produced training tables"],
  "in-memory execution of the query against a stand-in data frame engine with a row-by-row reference", "random timelines, ranges, expressions and options", "plain-Python reference per timeline row")
P("F06", "Batch containers carry their fields together and derive the rest",
  "A batch built from a dictionary holds each column in the field of its name; any tensor operation, copy, pickle or field replacement on a batch is that operation on every tensor in it and leaves everything else, and the original, unchanged. The indices, sequences and masks derived for ranking, the documents a slate selects, tiled batches, user-document products and feature look-ups are exactly those of the batch they come from, and malformed input is refused. The shared tensor helpers (masked softmax, gather, stack, rescale, attention masks) equal their definitions.",
  "inputs", "all container types, nestings, shapes and masks", "tests build one or two containers of fixed shape", ["reagent/types.py", "reagent/torch_utils.py", "reagent/base_dataclass.py", "reagent/model_utils/seq2slate_utils.py"],
  [("TensorDataClass and batch types", "reagent/types.py"), ("masked_softmax / gather / stack", "reagent/torch_utils.py"), ("subsequent_mask", "reagent/model_utils/seq2slate_utils.py")], ["batches", "derived fields", "helper outputs"],
  "leaf-by-leaf conservation monitor and item-by-item recomputation over random batches", "random containers, columns and masks", "the operation applied to each leaf; scalar definitions")

# ---------------------------------------------------------------- training
P("T01", "DQN-family targets follow the declared Bellman equation",
  "For every batch the value a discrete DQN, double DQN, SARSA, multi-step, time-difference-discounted, parametric-action or slate learner regresses to is r + discount * (1 - terminal) * next value, where the next value is the target network's value of the action the declared rule chooses among allowed actions only, and the discount exponent follows the declared multi-step/time-difference setting. Reward boosts add exactly the configured bonus of the logged action, and terminal next states contribute nothing.",
  "inputs configurations", "all batches, masks, terminal patterns, discounts, step counts, time differences and the switches double/maxq/multi-step/boost",
  "trainers are only smoke-trained in gym; no test compares a single target",
  [TR + "dqn_trainer.py", TR + "dqn_trainer_base.py", TR + "parametric_dqn_trainer.py", TR + "slate_q_trainer.py", TR + "rl_trainer_pytorch.py"],
  [("train_step_gen / get_max_q_values", TR + "dqn_trainer.py, dqn_trainer_base.py"), ("parametric", TR + "parametric_dqn_trainer.py"), ("slate-q", TR + "slate_q_trainer.py")],
  ["loss values yielded per optimizer", "gradients", "detached q values"],
  "reference Bellman oracle on every training-step loss and gradient", "random batches and networks; tabular networks make the target directly visible", "trainer is run on random batches with small networks, yielded losses and gradients are compared with an independent NumPy computation")
P("T02", "Distributional targets conserve probability and project correctly",
  "The categorical target distribution is the exact linear projection of the discounted, shifted next-state distribution onto the fixed support: non-negative, summing to one, with the mean preserved up to clipping at the support ends. The quantile learner minimises the quantile-Huber loss of declared quantile midpoints against the discounted target quantiles of the action chosen by the declared rule among allowed actions, and terminal steps put all mass at the reward.",
  "inputs configurations", "all batches, supports, atom/quantile counts, rewards inside, at and beyond the support, masks and terminals",
  "no test evaluates a target distribution", [TR + "c51_trainer.py", TR + "qrdqn_trainer.py", "reagent/models/categorical_dqn.py", "reagent/models/dqn.py"],
  [("projection", TR + "c51_trainer.py"), ("quantile regression", TR + "qrdqn_trainer.py")], ["training-step losses"],
  "reference projection oracle on training-step losses and gradients", "random batches", "loss and its gradient recomputed atom by atom")
P("T03", "Actor-critic targets and losses follow their definitions",
  "For TD3, SAC and discrete CRR the critics regress to reward plus discounted, non-terminal next value as declared (minimum of the target critics, target-policy noise clipped and actions kept in range, entropy term with the current temperature), the policies ascend the declared objective, and delayed updates happen on exactly the declared schedule. Every loss is paired with the optimizer of the parameters it is meant to update.",
  "inputs configurations histories", "all batches, discounts, noise settings, one/two-critic and value-network variants and delay periods",
  "covered only by smoke training in gym", [TR + "td3_trainer.py", TR + "sac_trainer.py", TR + "discrete_crr_trainer.py"],
  [("train_step_gen", TR + "td3_trainer.py, sac_trainer.py, discrete_crr_trainer.py")], ["yielded losses", "parameters changed per optimizer step"],
  "reference loss oracle with optimizer/loss pairing monitor", "random batches", "losses recomputed with the random draws replayed; parameters snapshotted around each optimizer step")
P("T04", "Policy-gradient learners use returns, baselines and clipping as declared",
  "REINFORCE and PPO compute per-step discounted returns-to-go (optionally normalised), subtract the value baseline only where configured, weight off-policy data by the clipped probability ratio, and PPO's surrogate is the clipped minimum (taken over the trajectory) with the declared entropy bonus. Processing a trajectory gives the same loss whatever was processed before it, and PPO consumes each buffered trajectory the declared number of times and then forgets it.",
  "inputs configurations histories", "all trajectories, discounts, clip bounds, baselines, normalisation and buffering settings",
  "only smoke-trained on CartPole", [TR + "reinforce.py", TR + "ppo_trainer.py", TR + "utils.py"],
  [("train_step_gen", TR + "reinforce.py"), ("buffered update", TR + "ppo_trainer.py"), ("discounted_returns, whiten", TR + "utils.py")], ["yielded losses", "helper outputs"],
  "reference loss oracle over random trajectories", "random trajectories", "losses recomputed independently")
P("T05", "Updates touch only the intended parameters and targets track softly",
  "In every trainer each optimizer step changes only the parameters that optimizer owns, no gradient step moves a target network, and after a soft update each target network equals tau * online + (1 - tau) * previous target, exactly, for every parameter except those declared exempt. The number and order of optimizers a trainer declares equals the number and order of losses it yields for every configuration, and training never mutates the batch it was given.",
  "inputs configurations histories", "all trainers, configurations, tau values and step counts",
  "no test looks at parameters before and after a step", ["reagent/optimizer/soft_update.py", TR + "reagent_lightning_module.py", "reagent/models/no_soft_update_embedding.py"],
  [("SoftUpdate.step", "reagent/optimizer/soft_update.py"), ("optimizer_step / training_step generator", TR + "reagent_lightning_module.py")], ["parameter snapshots around every optimizer step"],
  "parameter-snapshot monitor around every optimizer step of every trainer", "every trainer and configuration switch", "state dicts are snapshotted around each loss/optimizer step; the Polyak identity is recomputed; batches are hashed before and after")
P("T06", "Ranking learners weight sequences as declared",
  "The sequence-ranking learners compute importance weights as the ratio of the current to the logged sequence propensity, clamp it as configured, subtract the baseline only when configured, and the simulation and distillation variants use the declared targets. With on-policy data the weight is exactly one, and losses are means over the batch of per-row quantities that do not depend on other rows.",
  "inputs configurations", "all slates, propensities, clamps and baselines", "tests cover tiny closed-form cases with one configuration",
  [TR + "ranking/seq2slate_trainer.py", TR + "ranking/helper.py", TR + "ranking/seq2slate_sim_trainer.py", TR + "ranking/seq2slate_dr_trainer.py", TR + "ranking/seq2slate_tf_trainer.py", TR + "ranking/seq2slate_attn_trainer.py"],
  [("ips clamp", TR + "ranking/helper.py"), ("trainers", TR + "ranking/")], ["losses", "helper outputs"],
  "reference oracle on losses and clamps", "random slates", "per-row recomputation")
P("T07", "Sequence ranker outputs permutations with consistent probabilities",
  "Whatever the candidates, the ranker's output is a set of distinct, in-range positions per row; the probability it reports for an order is the product of the step probabilities over the remaining candidates, so that probabilities over all orders of the target length sum to one. Re-scoring a generated order gives the probability it was generated with, greedy ranking picks the most likely candidate at each step, and already chosen candidates are never chosen again.",
  "inputs configurations", "all candidate sets, slate lengths, output architectures and ranking modes",
  "tests train tiny instances; sums over all permutations and generate/re-score consistency are never evaluated",
  ["reagent/models/seq2slate.py", "reagent/model_utils/seq2slate_utils.py"],
  [("decoder/pointer", "reagent/models/seq2slate.py"), ("log-prob utilities", "reagent/model_utils/seq2slate_utils.py")], ["ranked output indices and probabilities"],
  "exhaustive permutation-sum and generate/re-score monitor on random networks", "slates up to 5 of 5 exhaustively; larger sampled", "all permutations enumerated for small slates")
P("T08", "World-model and sequence-reward losses are the declared likelihoods",
  "The mixture-density world model's loss is the exact negative log likelihood of the observed next latent under the predicted Gaussian mixture (per time step and batch row), its components are normalised and positive, and rewards and terminals are scored with the declared losses and masks. The sequence reward and compressed value models predict for a prefix of actions the same as running the full sequence truncated there, and best-action queries return the maximum over all plans of the declared length.",
  "inputs configurations", "all sequence lengths, batch sizes, mixture counts and latent sizes including one",
  "tests train until a loss falls", ["reagent/models/mdn_rnn.py", "reagent/models/world_model.py", "reagent/models/seq2reward_model.py", TR + "world_model/mdnrnn_trainer.py", TR + "world_model/seq2reward_trainer.py", TR + "utils.py"],
  [("gmm_loss", "reagent/models/mdn_rnn.py"), ("get_loss", TR + "world_model/mdnrnn_trainer.py"), ("get_Q", TR + "world_model/seq2reward_trainer.py")], ["losses", "predictions"],
  "reference likelihood oracle and plan-enumeration monitor", "random networks and batches", "log-sum-exp recomputation in float64; all plans enumerated")
P("T09", "The planner returns admissible, reward-ranked plans",
  "The cross-entropy planner keeps every continuous candidate inside the action bounds, scores a plan by the discounted reward accumulated until the predicted terminal and averaged over the ensemble, refits to exactly the best-scoring fraction, and returns the first action of the refitted mean plan; discrete planning returns an action index within the action set with the best average score.",
  "inputs configurations", "all dimensions, bounds, population, elite and ensemble sizes, horizons and discounts",
  "only smoke-tested in gym", ["reagent/models/cem_planner.py", TR + "cem_trainer.py"],
  [("acc_rewards_of_all_solutions / planners", "reagent/models/cem_planner.py")], ["planner outputs", "world-model calls"],
  "instrumented world-model stub recording every simulated rollout", "random deterministic environments", "a recording stub world model with known dynamics supplies ground truth returns of every candidate it was shown")
P("T10", "Reward-model and loss reporting observe what was trained",
  "The reward network's loss is the declared loss between prediction and (optionally clipped or slate-weighted) logged reward with invalid rows excluded, imitation learning regresses to the logged action, and reported losses, value histograms and action frequencies are computed from exactly the batches seen since the last flush. Off-line metrics of the reward network equal the loss on the evaluation rows.",
  "inputs histories", "all batches, loss types and reporting windows", "no test compares a value", [TR + "reward_network_trainer.py", TR + "loss_reporter.py", TR + "imitator_training.py", EV + "reward_net_evaluator.py"],
  [("train_step_gen", TR + "reward_network_trainer.py"), ("LossReporter", TR + "loss_reporter.py")], ["losses", "reported aggregates"],
  "reference loss oracle and reporting-conservation monitor", "random batches", "recomputed losses and windows")
P("T11", "Evolution-strategies workers agree and follow the noise",
  "Every worker that applies the same rewards reaches bit-identical parameters, individual parameters are parent + noise * scale reproducible from the seed and iteration alone, and the gradient handed to the optimizer is the reward-weighted sum of the noises. No two individuals or iterations share noise.",
  "inputs histories schedules", "all seeds, population sizes, rewards and iteration histories", "no stable test covers it",
  [TR + "gradient_free/evolution_pool.py", TR + "gradient_free/es_worker.py"], [("EvolutionPool", TR + "gradient_free/evolution_pool.py"), ("EsWorker reward averaging", TR + "gradient_free/es_worker.py")], ["parameters per iteration"],
  "multi-worker replay monitor with reference gradient", "random pools; the rendezvous import is stubbed", "several pools replay the same reward log and are compared; the gradient is recomputed")

P("T12", "The training loop feeds each batch once to every loss and resumes exactly",
  "In every run each batch is handed to the trainer exactly once per epoch in order, every optimizer receives exactly one loss from it, and a trainer yielding the wrong number of losses is refused. Dictionary batches train exactly like the typed batches they describe, reports are flushed once per epoch after that epoch's batches, the global step counts batches, incremental sessions train exactly the requested number of further epochs, and saving and restoring a trainer then continuing gives the same parameters as not stopping.",
  "histories configurations", "all trainers, batch sequences, epoch plans and checkpoint points", "no stable test runs the training loop",
  [TR + "reagent_lightning_module.py", TR + "trainer.py", TR + "sac_trainer.py", "reagent/types.py"],
  [("training_step / StoppingEpochCallback", TR + "reagent_lightning_module.py"), ("Trainer.state_dict", TR + "trainer.py"), ("from_dict", "reagent/types.py")], ["step-generator event log", "reporter and writer events", "parameters"],
  "event-log monitor on real Lightning runs plus resume-vs-uninterrupted comparison", "random batches, epoch plans and checkpoints", "recorded events are matched against the data fed; parameters compared")
P("T13", "What a trainer reports about a step is what that step computed",
  "For every batch, a value-based or actor-critic trainer reports each of its quantities once, at the declared cadence: reported losses are the losses its optimisers were given, reported values are the networks' outputs on that batch, reported model actions are the best allowed ones under those values, logged actions, rewards and propensities are the batch's own, reported propensities and reward estimates are the models', and reported targets, values and losses satisfy the declared equations among themselves. Reporting, or not, and how often, never changes what is trained.",
  "configurations histories", "all trainers and options, batches, cadences and optimiser histories", "no stable test looks at what is reported",
  [TR + "dqn_trainer.py", TR + "qrdqn_trainer.py", TR + "c51_trainer.py", TR + "discrete_crr_trainer.py", TR + "td3_trainer.py", TR + "sac_trainer.py", TR + "slate_q_trainer.py", TR + "parametric_dqn_trainer.py", TR + "dqn_trainer_base.py"],
  [("reporter.log", TR + "dqn_trainer.py"), ("reporter.log", TR + "sac_trainer.py"), ("reporter.log", TR + "td3_trainer.py")], ["reporter events", "progress log events", "losses handed to optimisers", "network outputs before and after each optimiser step", "parameters"],
  "event-log monitor on training steps with a shadow of losses and network outputs, plus a silent twin run", "random trainers, batches, cadences, optimisers", "each reported event matched against the step's own losses and outputs; parameters of the twin compared bit for bit")

# ---------------------------------------------------------------- acting
P("A01", "Discrete policies choose allowed actions with the stated probability",
  "Every discrete sampler returns a one-hot (or index) of an action that is possible, chooses it with the declared probability (softmax at the temperature, epsilon-greedy mixture, argmax), and the log probability it reports, and later recomputes for a given action, is the logarithm of that probability. Forbidden actions have probability zero however high their score, and scorers return one finite score per action that masks exactly the impossible ones.",
  "inputs configurations", "all score matrices, masks, temperatures, epsilons and batch sizes", "samplers have no direct stable tests",
  [GY + "policies/samplers/discrete_sampler.py", GY + "policies/samplers/top_k_sampler.py", GY + "policies/scorers/discrete_scorer.py", GY + "policies/policy.py", GY + "policies/random_policies.py"],
  [("discrete samplers", GY + "policies/samplers/discrete_sampler.py"), ("scorers", GY + "policies/scorers/discrete_scorer.py"), ("random policies", GY + "policies/random_policies.py")], ["sampler outputs"],
  "distribution monitor: exact probability recomputation plus frequency test with calibrated bounds", "random scores; frequency bounds at 1e-9", "log-probabilities recomputed; frequencies tested")
P("A02", "Continuous actors report the density of the action they take",
  "Stochastic continuous actors return actions inside their declared range together with the true log density of that action, including the squashing correction, and recomputing the density of a returned action gives the same value; the deterministic action is the squashed mean and Dirichlet actions lie on the simplex. Densities integrate to one.",
  "inputs configurations", "all actor outputs, action dimensions, scale limits and normalisation options", "one test compares one formula at fixed points",
  ["reagent/models/actor.py", GY + "policies/samplers/continuous_sampler.py"], [("GaussianFullyConnectedActor", "reagent/models/actor.py"), ("Dirichlet", "reagent/models/actor.py")], ["action and log_prob outputs"],
  "reference-density and numerical-integration monitor", "random actors; 1-d integration", "density recomputed in float64 and integrated on a grid")
P("A03", "Stochastic ranking samplers yield permutations with Plackett-Luce odds",
  "The Frechet-sort and top-k samplers return, for each row, distinct valid positions of the requested length with the declared tie-free order; the reported log probability of an order is the log of the product of successive softmax choices up to the cut-off, over all orders these sum to one, and empirical order frequencies match. Equivalent orders (differing only beyond the cut-off) get the same probability.",
  "inputs configurations", "all scores, lengths, cut-offs, shapes and equiprobable modes", "tests cover one shape and a fixed score vector",
  ["reagent/samplers/frechet.py", GY + "policies/samplers/top_k_sampler.py"], [("FrechetSort", "reagent/samplers/frechet.py")], ["sample_action", "log_prob"],
  "permutation-sum and frequency monitor", "exhaustive for up to 5 items", "all permutations enumerated; sampled frequencies tested")

# ---------------------------------------------------------------- evaluation
P("E01", "Bandit off-policy estimates equal their textbook definitions",
  "For every logged data set the direct-method, inverse-propensity and doubly-robust estimates equal their definitions computed sample by sample, with weight clipping and propensity floors exactly as configured; on data logged by the target policy the importance estimate is the empirical mean and doubly-robust with a perfect model equals the direct method. Confidence information and normalisation by the logged value are consistent with the raw estimate.",
  "inputs configurations", "all logs, propensities, models and clamp settings", "the tests run on one data set and look at error sizes",
  [OE + "contextual_bandits_estimators.py", OE + "types.py", "reagent/ope/utils.py"], [("DM/IPS/DR estimators", OE + "contextual_bandits_estimators.py")], ["EstimatorResults"],
  "sample-by-sample reference oracle", "random logs", "recomputed in plain Python")
P("E02", "Sequential off-policy estimates equal their textbook definitions",
  "Direct-method, importance, per-decision, weighted, doubly-robust and MAGIC estimates of a policy's value from trajectories equal their definitions for every set of trajectories, discounts and value functions; with the behaviour policy as target they equal the empirical discounted return, and with exact value functions doubly-robust equals the true value. The tabular value functions reproduce Bellman equations (greedy training reaches the optimal policy, first- and every-visit Monte Carlo agree with them), and each minimax update follows its declared saddle-point objective. Trajectories that end early keep their final weight and earn nothing more.",
  "inputs configurations", "all logged trajectory sets including unequal lengths and single trajectories, discounts and value functions",
  "tests check rough accuracy on a gridworld", [OE + "sequential_estimators.py", "reagent/ope/trainers/rl_tabular_trainers.py"], [("sequential estimators", OE + "sequential_estimators.py")], ["EstimatorResults"],
  "reference oracle over random MDP logs", "random logs", "recomputed in plain Python")
P("E03", "Slate distributions are probability distributions and metrics are exact",
  "Slate and item probability objects give non-negative probabilities that sum to one over all slates (or items per slot), sample only slates of distinct items with those probabilities, and report expected slot values that are the expectations under that distribution. DCG, NDCG and ERR equal their textbook formula for every relevance vector, and slate estimators (direct, IPS, pseudo-inverse, position-based) equal their definitions.",
  "inputs configurations", "all item scores, slate sizes, deterministic and random modes and relevance vectors", "tests check one three-item case", [OE + "slate_estimators.py"],
  [("slate probability classes", OE + "slate_estimators.py"), ("metrics", OE + "slate_estimators.py")], ["probabilities", "metrics", "estimates"],
  "exhaustive slate-enumeration monitor", "up to 6 items / 4 slots exhaustively", "all slates enumerated")
P("E04", "Counterfactual policy evaluation equals its definition",
  "The evaluator's direct-method, inverse-propensity, doubly-robust, sequential and weighted-sequential doubly-robust and MAGIC scores are those of their definitions on the evaluation data, raw and normalised values differ exactly by the logged-policy value, and trajectories are cut at exactly the recorded episode boundaries. Evaluating with the metrics variant gives for each metric what evaluating with that metric as the reward would give.",
  "inputs configurations", "all evaluation data sets, episode layouts, action counts and metrics", "tests check two synthetic logs", [EV + "cpe.py", EV + "doubly_robust_estimator.py", EV + "sequential_doubly_robust_estimator.py", EV + "weighted_sequential_doubly_robust_estimator.py", EV + "evaluator.py", EV + "ope_adapter.py"],
  [("estimators", EV)], ["CpeEstimate values"],
  "reference oracle on evaluation data sets", "random data sets", "recomputed in plain NumPy")
P("E05", "Evaluation data are assembled without loss, reordering or leakage",
  "Assembling evaluation data from batches keeps every logged row exactly once and aligned across all columns, sorting by episode and step is a permutation, appending pages is concatenation, sub-selecting keeps alignment and validation accepts exactly the consistent pages. Logged values are the discounted returns-to-go of the logged rewards within each episode, and model propensities are the declared softmax over possible actions.",
  "inputs histories", "all batch splits, episode interleavings and page operations", "one fixed data set", [EV + "evaluation_data_page.py"],
  [("EvaluationDataPage", EV + "evaluation_data_page.py")], ["EvaluationDataPage fields"],
  "row-conservation monitor with unique row tags", "random pages", "every row carries a unique tag through each operation")
P("E06", "Parallel evaluation gives the serial result",
  "Running estimators with any number of worker processes returns, for each (experiment, estimator), exactly the results of running them serially on the same inputs: every result exactly once, none lost or mixed up, and functions and arguments shipped to workers arrive unchanged with results in task order. An estimator that fails surfaces as an error or an absent result, never as another's result, and leaves the other results intact.",
  "schedules inputs fault_sequences", "all worker counts, task mixes and failing tasks", "no test runs more than one process", [OE + "estimator.py", "reagent/core/multiprocess_utils.py"],
  [("Evaluator", OE + "estimator.py"), ("multiprocess helpers", "reagent/core/multiprocess_utils.py")], ["EstimatorResults per worker count"],
  "exactly-once result monitor across worker counts with injected delays and failures", "1-4 workers; injected delays", "tagged stub estimators with delays and failures")
P("E07", "Listwise and policy-gradient ranking evaluators report true metrics",
  "The ranking evaluators' reported discounted gains, average precision, AUC, advantages over the baseline, slate probabilities and evaluation pages are those of their definitions per evaluation row and aggregated over exactly the batches evaluated; world-model feature importance is the loss increase after replacing the feature by its mean (most median category, or the constant action), sensitivity the deviation of predictions under exchanged actions.",
  "inputs", "all slates and batch splits", "smoke only", [EV + "ranking_listwise_evaluator.py", EV + "ranking_policy_gradient_evaluator.py", EV + "world_model_evaluator.py", EV + "compress_model_evaluator.py", EV + "seq2reward_evaluator.py"],
  [("evaluate / finish", EV)], ["reported metrics"], "reference metric oracle", "random slates", "recomputed per row")
P("E08", "OPE value maps and result collections reflect exactly what was put in",
  "After any history of sets, replacements, sorts, greedy picks and samples, a value map answers every query from its current contents (no stale ordering or probabilities), leaves the original of a replacement unchanged, and samples keys with the stated probabilities. Action spaces fill distributions from any sequence or mapping, running averages, clampers and bounded caches follow their definitions, and result collections report every valid estimate exactly once.",
  "histories inputs", "all operation histories, key types and value sources", "tests check a handful of fixed maps", [OE + "types.py", OE + "estimator.py", "reagent/ope/utils.py"],
  [("Values / Distribution / Items", OE + "types.py"), ("EstimatorResults", OE + "estimator.py"), ("RunningAverage / Clamper / LRUCache", "reagent/ope/utils.py")], ["map contents", "EstimatorResults"],
  "model-based history monitor (plain dictionary as reference)", "random histories", "every answer recomputed from a plain dictionary")
P("E09", "Direct-method models are chosen by validation and answer in label terms",
  "A direct-method trainer fits each candidate on the training rows given, keeps the candidate that does best on the validation rows, and a trained model predicts in terms of the labels it was trained on: the expected score is the probability-weighted mean of the labels, whatever the labels are. Scoring compares predictions with targets for errors of any size, nothing the caller passes in is altered, a saved model answers like the one it was saved from, and cells drawn from logs keep row, action, reward and weight together.",
  "inputs histories", "all feature matrices, label sets, weights, sample counts and train/predict/save orders", "tests train on one data set and look at nothing but the absence of errors",
  [OE[: OE.index("estimators")] + "trainers/linear_trainers.py", OE + "types.py"], [("LinearTrainer family, NNTrainer", OE[: OE.index("estimators")] + "trainers/linear_trainers.py")],
  ["fitted candidates", "predictions", "scores"], "monitor on every model fit, with predictions and scores recomputed from the fitted estimator",
  "random data sets, label sets and trainers", "candidate selection and predictions recomputed from the recorded fits")

# ---------------------------------------------------------------- serving (Python)
P("S01", "Exported predictors compute what the trained model computes",
  "A predictor exported for serving returns the same scores, named in the same order, as applying the training-time preprocessing and the trained network to the same raw features; action queries evaluate every candidate against the same state, actor predictors return actions mapped back to the serving range, and scripting, saving and loading the predictor does not change any output. Row results are independent of the rest of the batch.",
  "inputs configurations", "all raw feature rows, presence masks, model families and batch sizes", "tests compare one random input per wrapper",
  ["reagent/prediction/predictor_wrapper.py"], [("*WithPreprocessor / *PredictorWrapper", "reagent/prediction/predictor_wrapper.py")], ["predictor outputs before/after scripting and save/load"],
  "differential monitor: training-time path vs scripted, saved and reloaded predictor", "random networks and rows", "outputs compared for every wrapper")
P("S02", "Ranking predictors return valid, correctly scored rankings",
  "The determinantal-point-process ranker returns distinct in-range items whose greedy choice maximises the kernel determinant at each step, sequence-ranking predictors return orders with the model's own probabilities, and ranking the items in a permuted input order yields the correspondingly permuted output.",
  "inputs configurations", "all quality scores, similarity matrices and slate sizes", "one fixed matrix", ["reagent/prediction/ranking/predictor_wrapper.py"],
  [("DeterminantalPointProcessPredictorWrapper", "reagent/prediction/ranking/predictor_wrapper.py")], ["rankings"],
  "greedy-determinant reference oracle and permutation-equivariance monitor", "random kernels", "determinants recomputed with NumPy")
P("S03", "Publishing and model selection keep exactly what was published",
  "A published model is retrievable by the recurring-workflow identity it was published under, points at the saved artefact, and the newest publication wins; validators and publishers with no-op settings never reject or alter a model. Options unions select exactly one member.",
  "histories", "all publish/lookup histories", "one publish", ["reagent/publishers/file_system_publisher.py", "reagent/publishers/model_publisher.py", "reagent/validators/"],
  [("FileSystemPublisher", "reagent/publishers/file_system_publisher.py")], ["published paths"], "history monitor over publish/lookup sequences", "random histories in a scratch directory", "dictionary model")

# ---------------------------------------------------------------- gym
P("G01", "Episode runs record exactly what the environment produced",
  "A recorded trajectory contains each step's observation, action, reward, terminal flag, mask and log probability exactly once and in order, agent hooks fire once per step and per episode with that same data, episode length limits are honoured, and the environment never receives an action the policy did not choose. Discounted returns of a trajectory equal the definition, and the number of collected transitions or episodes is exactly what was asked for.",
  "histories configurations", "all environments' episode-length patterns, step limits, hooks and collection sizes", "gym tests look at learning curves", [GY + "runners/gymrunner.py", GY + "types.py", GY + "agents/agent.py", GY + "agents/post_step.py", GY + "datasets/replay_buffer_dataset.py", GY + "utils.py"],
  [("run_episode", GY + "runners/gymrunner.py"), ("Agent", GY + "agents/agent.py"), ("ReplayBufferDataset", GY + "datasets/replay_buffer_dataset.py")], ["Trajectory", "environment call log"],
  "event-log monitor: scripted environment log vs recorded trajectory, exactly-once and ordering", "scripted environments", "scripted environment writes its own event log, compared with what was recorded")
P("G02", "Transitions survive insertion into and out of the replay buffer",
  "What an environment step produced is what training receives: inserting transitions (vector, slate, recommendation and sequence ones) and converting sampled batches into each learner's typed input keeps every value in its field, turns the terminal flag into the not-terminal mask, one-hot encodes discrete actions, maps continuous actions into the training range and forms next-state candidates and masks as declared. Batches of ragged sequences keep each row's elements in that row.",
  "inputs configurations", "all transition contents, candidate counts, action types and ragged lengths", "no stable test covers batch makers",
  [GY + "preprocessors/trainer_preprocessor.py", GY + "preprocessors/replay_buffer_inserters.py", GY + "envs/env_wrapper.py", "reagent/types.py"],
  [("batch makers", GY + "preprocessors/trainer_preprocessor.py"), ("inserters", GY + "preprocessors/replay_buffer_inserters.py"), ("action extractors", GY + "envs/env_wrapper.py")], ["typed batches"],
  "value-tagging conservation monitor from environment step to typed batch", "random transitions with unique tags", "unique tags traced end to end")

P("G03", "Built-in environments follow their stated dynamics",
  "The bundled environments honour the environment contract: observations have the declared shape, rewards and termination follow the stated rules for every action sequence, episodes end by the declared horizon, resets forget the past and seeded runs repeat. State and action masks offered to the agent are exactly the actions the environment will accept.",
  "histories inputs", "all action sequences and seeds", "one fixed run for each environment", [GY + "envs/changing_arms.py", GY + "envs/toy_vm.py", GY + "envs/dynamics/linear_dynamics.py", GY + "envs/pomdp/", GY + "envs/functionality/possible_actions_mask_tester.py", GY + "envs/oracle_pvm.py"],
  [("step/reset", GY + "envs/")], ["environment transitions"], "reference-dynamics monitor over random action sequences", "random action sequences", "the stated rule is re-simulated")
P("G04", "Offline tables and published-policy scores match the episodes run",
  "An offline data set generated from an environment, or converted from a replay buffer, holds each transition exactly once under a textual episode id and its step number, with that step's observation, action, probability, reward and possible actions, terminal steps included; the same seed gives the same table. Normalisers built for an environment follow its spaces or its own declaration. Evaluating a published model runs the stated number of episodes with the newest publication of that model and module and passes exactly when their average return reaches the bar.",
  "histories inputs configurations", "all environments, episode lengths, buffer histories, publications and bars", "no test converts a buffer or evaluates a published model without a full engine", ["reagent/replay_memory/utils.py", "reagent/workflow/gym_batch_rl.py", GY + "utils.py", GY + "policies/predictor_policies.py", GY + "runners/gymrunner.py"],
  [("replay_buffer_to_pre_timeline_df", "reagent/replay_memory/utils.py"), ("offline_gym / timeline_operator / evaluate_gym", "reagent/workflow/gym_batch_rl.py"), ("build_normalizer", GY + "utils.py")], ["saved tables", "timeline requests", "environment step logs", "evaluation verdicts"],
  "event-log conservation monitor over scripted environments with a replaying evaluator", "scripted episodes, wrapped buffers, publication histories", "the environment's own log and a direct roll-out of the published weights are the reference")

# ---------------------------------------------------------------- core
P("C01", "Observers and aggregators summarise exactly the values observed",
  "Every value a tracked method reports reaches each registered observer exactly once, in order and under the right key; interval aggregation flushes exactly every N values or at epoch end, and each aggregator's result is the exact mean, maximum, histogram, last value or action count of the values since the last flush. Nothing is carried over, dropped or double counted across flushes.",
  "histories", "all event histories, intervals and key mixes", "tests feed one short list", ["reagent/core/observers.py", "reagent/core/aggregators.py", "reagent/core/tracker.py"],
  [("observable / notify_observers", "reagent/core/tracker.py"), ("observers", "reagent/core/observers.py"), ("aggregators", "reagent/core/aggregators.py")], ["aggregated values"],
  "event-log conservation monitor over random notification histories", "random histories", "the raw log is replayed against each flush")
P("C02", "Configuration round-trips and unions select exactly one alternative",
  "Constructing a configured object from a dictionary gives exactly the stated values with defaults elsewhere, unknown or missing fields are refused, union options hold exactly one alternative, and registered names resolve to the class registered. Serialising a configuration or typed value and reading it back yields an equal object.",
  "inputs configurations programs", "all configuration dictionaries, nesting, defaults and union selections", "a few literal configs", ["reagent/core/configuration.py", "reagent/core/tagged_union.py", "reagent/core/registry_meta.py", "reagent/core/dataclasses.py", "reagent/json_serialize.py", "reagent/core/utils.py"],
  [("make_config_class / resolve_defaults", "reagent/core/configuration.py"), ("TaggedUnion", "reagent/core/tagged_union.py"), ("RegistryMeta", "reagent/core/registry_meta.py"), ("json_to_object", "reagent/json_serialize.py")], ["constructed objects"],
  "round-trip monitor on randomly generated configuration classes", "generated classes and values", "generated schemas round-trip")
P("C03", "Optimizer and scheduler options build what they name",
  "Building an optimizer or scheduler from its option produces the named class over exactly the given parameters with exactly the given hyper-parameters, every named option is available, and the learning-rate sequence followed is that of the scheduler's definition; soft-update optimizers never change source parameters.",
  "configurations histories", "all option names, hyper-parameters and step counts", "two optimizers are built", ["reagent/optimizer/optimizer.py", "reagent/optimizer/scheduler.py", "reagent/optimizer/union.py", "reagent/optimizer/scheduler_union.py", "reagent/optimizer/utils.py", "reagent/optimizer/uninferrable_schedulers.py", "reagent/optimizer/uninferrable_optimizers.py"],
  [("make_optimizer_scheduler", "reagent/optimizer/")], ["param_groups", "learning-rate traces"],
  "trace monitor of learning rates and parameter groups", "every option with random hyper-parameters", "torch classes built directly are the reference")
P("C04", "Summary logging keeps its nesting, counts and step discipline",
  "Values logged inside nested summary-writer contexts go to the innermost active writer only, with the global step at the time of the call unless the call states one, each custom chart is registered once per category and title, and contexts restore the previous writer even when the body raises. Logging errors surface only when not declared ignored.",
  "histories", "all nestings, calls and exceptions", "tests cover two nestings", ["reagent/tensorboardX.py"], [("SummaryWriterContext", "reagent/tensorboardX.py")], ["writer calls"],
  "stack-discipline trace monitor", "random nested programs", "a stack model predicts every writer call")
P("C05", "Network architectures honour their output contract",
  "Networks built for values, policies and critics return the declared shape for every batch size, evaluate each row independently of the others in inference mode, dueling heads satisfy value = mean of action values under the declared identity, distributional heads return normalised distributions whose mean is the reported value, and masks and embeddings are applied per row. A network's copy made for target use has equal outputs and independent parameters. Every option a network builder offers takes effect.",
  "inputs configurations", "all architectures, sizes, activations, batch sizes and inputs", "tests check shapes for one size", ["reagent/models/fully_connected_network.py", "reagent/models/dueling_q_network.py", "reagent/models/dqn.py", "reagent/models/categorical_dqn.py", "reagent/models/critic.py", "reagent/models/bcq.py", "reagent/models/embedding_bag_concat.py", "reagent/models/containers.py", "reagent/models/base.py", "reagent/models/convolutional_network.py", "reagent/net_builder/"],
  [("forward", "reagent/models/"), ("net builders", "reagent/net_builder/")], ["network outputs"],
  "metamorphic row-independence and head-identity monitor on random architectures", "random architectures", "rows re-run alone; heads recomputed from weights")

# ---------------------------------------------------------------- workflow
P("W01", "Model managers build the trainers, policies and modules their options name",
  "For every model manager and every set of options, the trainer it builds behaves exactly like a trainer constructed directly with those options (same losses, same parameter movement on the same batches), its networks fit the normalisation data (one input per normalised feature, one output per action or atom, evaluation heads sized for reward plus metrics), its target networks start as equal but independent copies, and the online policy, serving policy and serving modules it creates act as the trained network does on the normalised observation, with unavailable actions excluded. A manager without normalisation, initialised twice or configured inconsistently is refused.",
  "inputs configurations", "all managers, trainer options, optimizers, network builders, normalisation data and observations",
  "tests only instantiate a few managers with default options and never compare the products with the options",
  ["reagent/workflow/model_managers/discrete/discrete_dqn.py", "reagent/workflow/model_managers/discrete/discrete_c51dqn.py", "reagent/workflow/model_managers/discrete/discrete_qrdqn.py", "reagent/workflow/model_managers/discrete/discrete_crr.py", "reagent/workflow/model_managers/discrete_dqn_base.py", "reagent/workflow/model_managers/parametric/parametric_dqn.py", "reagent/workflow/model_managers/parametric_dqn_base.py", "reagent/workflow/model_managers/actor_critic/sac.py", "reagent/workflow/model_managers/actor_critic/td3.py", "reagent/workflow/model_managers/actor_critic_base.py", "reagent/workflow/model_managers/ranking/slate_q.py", "reagent/workflow/model_managers/slate_q_base.py", "reagent/workflow/model_managers/model_based/cross_entropy_method.py", "reagent/workflow/model_managers/model_based/world_model.py", "reagent/workflow/model_managers/model_based/seq2reward_model.py", "reagent/gym/policies/predictor_policies.py", "reagent/gym/policies/scorers/discrete_scorer.py", "reagent/gym/policies/scorers/slate_q_scorer.py"],
  [("managers", "reagent/workflow/model_managers"), ("serving policies", "reagent/gym/policies/predictor_policies.py"), ("trainer parameters", "reagent/training/parameters.py")],
  ["trainer parameters after training", "policy actions", "serving module outputs", "refusals"],
  "differential monitoring of managed against directly built trainers, and policy/serving oracles on the trained networks", "random options, builders, features and batches through every manager", "a twin trainer built directly from the options over copied networks; independent normalisation and action rules")
P("W02", "A workflow run trains each queried row once per epoch; warm starts resume it",
  "A workflow run trains, in every epoch, on each row of the declared train range exactly once, in minibatches of the declared size, with the row's own features (normalised by the identified, given or saved normalisation), action, reward, step count and terminal flag; evaluation rows are read exactly once and never trained on; it stops after the declared number of epochs. The exported files, the finished trainer and the parameters of the last epoch are the same model. Validation happens once, before publication, with the run's own output, and a failed validation or a contradictory preparation stops the run before anything is trained or published. A run saved and warm started begins with exactly the saved parameters, and ends where an uninterrupted run of the same length ends.",
  "inputs configurations histories", "all tables, sample ranges, minibatch sizes, epochs, entry points and interruptions between runs",
  "the workflow tests need a Spark cluster and are not in the stable set",
  ["reagent/workflow/training.py", "reagent/workflow/utils.py", "reagent/workflow/data/manual_data_module.py", "reagent/workflow/model_managers/model_manager.py", "reagent/workflow/model_managers/discrete_dqn_base.py", "reagent/workflow/model_managers/actor_critic_base.py", "reagent/training/reagent_lightning_module.py"],
  [("identify_and_train_network / query_and_train", "reagent/workflow/training.py"), ("data module", "reagent/workflow/data/manual_data_module.py"), ("train_workflow / save_trainer", "reagent/workflow/model_managers/model_manager.py"), ("epoch count", "reagent/training/reagent_lightning_module.py")],
  ["batches given to every optimizer", "parameters at each epoch end", "exported files", "validator and publisher calls"],
  "event log of whole training runs with an offline exactly-once and value checker", "whole runs over random tables for six model families, four entry points, with interruption and resumption", "conservation of rows per epoch, independent row-by-row normalisation, and comparison of interrupted with uninterrupted runs")

# ---------------------------------------------------------------- serving (native)
P("N01", "Decision operators compute their documented function",
  "Each native decision operator's output is its documented function of its inputs for every request: softmax and softmax ranking probabilities normalise and rank by them, Frechet perturbation and epsilon-greedy rank all actions exactly once with the stated propensities, upper-confidence scores follow the stated bound, propensity fitting moves the fitted shift towards the target and expressions evaluate arithmetically. Results cover exactly the actions given.",
  "inputs configurations", "all score maps, temperatures, epsilons, expressions and action counts", "a single example per operator, and the C++ tests are not part of the Python suite", [SV + "operators/"],
  [("Operator::run implementations", SV + "operators/")], ["operator outputs"],
  "native reference monitor on random requests, compiled with address and undefined-behaviour sanitizers", "random requests", "compiled from the working tree with clang sanitizers and stub third-party headers; outputs checked in-process")
P("N02", "Decision plans run every operator once, in dependency order",
  "Evaluating a plan runs each operator exactly once, only after all operators it takes input from, with exactly the values those produced, constants bound as declared, for any acyclic plan and any interleaving of the parallel executor; concurrent operators do not race on shared state, and the reported decision is the value of the final operator. Malformed plans and cyclic or missing inputs are refused.",
  "schedules configurations", "all acyclic plans and all executor interleavings", "tests run two linear plans", [SV + "core/OperatorRunner.cpp", SV + "core/DecisionPlan.cpp", SV + "core/DecisionService.cpp", SV + "core/SharedParameterHandler.cpp"],
  [("OperatorRunner", SV + "core/OperatorRunner.cpp"), ("DecisionService", SV + "core/DecisionService.cpp")], ["operator event log under ThreadSanitizer"],
  "event-log ordering monitor plus ThreadSanitizer under a hostile parallel executor", "random DAGs; interleavings sampled by delay injection", "recording operators log start/end/input events; ThreadSanitizer build with injected delays")
P("N03", "Every decision is joined with its feedback exactly once",
  "Each decision request is logged once and joined with its feedback once whatever the order and repetition of other requests, unknown or duplicate feedback is refused or ignored without disturbing others, and requests, decisions and feedback survive the JSON wire format unchanged. Aggregated rewards are the declared sum, maximum or per-action aggregate of the feedback metrics.",
  "histories inputs", "all interleavings of decisions and feedback over many requests", "one request per test", [SV + "core/InMemoryLogJoiner.cpp", SV + "core/LogJoiner.cpp", SV + "core/Containers.cpp", SV + "core/DecisionService.cpp"],
  [("log joiner", SV + "core/InMemoryLogJoiner.cpp"), ("reward aggregation", SV + "core/DecisionService.cpp"), ("JSON", SV + "core/Containers.cpp")], ["joined log records"],
  "exactly-once history monitor under sanitizers", "random interleavings", "map model of outstanding decisions")
P("N04", "Serving configuration written in Python means the same natively",
  "A decision plan written with the Python configuration builder and exported produces, when parsed by the native service, the same operators, inputs, constants, constraints, outputs and reward settings; every operator offered to Python exists natively under the exported name and running the plan gives the documented result. Building is repeatable and independent of other plans.",
  "configurations programs", "all plans expressible in the builder", "no test crosses the language boundary", [SV + "config/builder.py", SV + "config/config.py", SV + "config/operators.py", SV + "config/serialize.py", SV + "config/main.py", SV + "core/DecisionPlan.cpp", SV + "core/OperatorFactory.cpp"],
  [("DecisionPlanBuilder", SV + "config/builder.py"), ("export", SV + "config/main.py"), ("fromJson", SV + "core/DecisionPlan.cpp")], ["parsed plan"],
  "cross-language differential monitor on generated plans", "random plans", "plans generated in Python, exported, parsed and executed natively")

P("N05", "Served decisions become exactly the training rows they describe",
  "Converting the log of a decision service gives one training row per decision fed back, in log order, with that decision's context features, first chosen action and its propensity, reward, metrics and offered actions, and one episode id per request id; nothing is dropped, merged or reordered, whatever the names, numbers and order of feedback. The customer simulator asks once and feeds back once per customer, for the action it was served, and its totals are those of the table.",
  "histories inputs", "all logs of decisions with feedback, and all interleavings of customers", "no test runs the converter or the simulator", ["serving/scripts/rasp_to_model.py", "serving/examples/ecommerce/customer_simulator.py", SV + "core/InMemoryLogJoiner.cpp", SV + "core/Containers.h"],
  [("keys_to_int / row assembly", "serving/scripts/rasp_to_model.py"), ("serve_customer", "serving/examples/ecommerce/customer_simulator.py"), ("DecisionWithFeedback", SV + "core/Containers.h")], ["requests and answers on the wire", "log lines", "converted table", "simulator output"],
  "conservation monitor from recorded exchanges through the log to the table, native service under sanitizers", "random plans, requests, feedback orders; 1000 concurrent simulated customers", "recorded requests, answers and feedbacks are the reference for every row")

NOT_APPLICABLE = [
    ("U01", "Spark/Scala timeline preprocessing builds correct next-state/terminal columns from raw logs",
     "the Scala job under preprocessing/ cannot be built or run here (no Scala compiler, Spark or their jars offline), so there is no execution to monitor; the Python side of the same data path runs on a stand-in for Spark and is covered by F05 and W02"),
]


def claimed():
    return [p for p in PROPS if os.path.exists(os.path.join(ROOT, "checks", p["id"] + ".py"))]


def na():
    """(id, reason) of listed-but-unclaimed properties"""
    return [(i, r) for i, _, r in NOT_APPLICABLE]


def main():
    have = {p["id"] for p in claimed()}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
        for i, t, r in NOT_APPLICABLE:
            f.write(json.dumps({
                "id": i, "title": "Timeline preprocessing pairs each row with its successor",
                "statement": t + ".", "quantifier": {"over": ["inputs"], "text": "all raw event logs"},
                "why_tests_cant": "the Scala tests use a handful of literal rows",
                "anchors": {"files": ["preprocessing/src/"], "mechanism": [{"name": "Timeline", "where": "preprocessing/src/main"}]},
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "true",
        "hooks": {"guard": "none", "enable": "no hooks were added to /repo: monitors observe public API, and the native code is compiled from /repo with sanitizers", "source_commits": []},
        "checks": [{
            "property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
            "technique": p["technique"], "level": "exploration", "level_note": p["note"],
        } for p in PROPS if p["id"] in have],
        "not_applicable": [{"property": i, "reason": r} for i, r in na()] + [
            {"property": p["id"], "reason": "check not built yet"} for p in PROPS if p["id"] not in have],
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties,", len(have), "claimed")


if __name__ == "__main__":
    main()
