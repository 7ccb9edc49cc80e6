"""One table from which properties.jsonl and MANIFEST.json are generated."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, tech=None,
         note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, tech=tech, note=note, na=na))


prop("P01", "N-step replay entries are complete, contiguous and never cross episodes",
     "Every transition given to an n-step replay buffer becomes the head of exactly one stored "
     "entry: the run of up to n consecutive transitions of the same environment and the same "
     "episode starting with it, stored as soon as n are available or when the episode ends, "
     "whether by a terminal state or by being cut. Entries never mix environments or episodes, "
     "and every field given (including extra keyword fields) comes back unchanged, however "
     "the environments are interleaved.",
     ["histories", "configurations"],
     "all interleavings of append / terminal append / stop over any number of environments, all "
     "n and capacities, uniform and prioritized buffers",
     "the tests feed a handful of fixed sequences for n<=3 and mostly one environment; the "
     "guarantee is over all histories",
     ["pfrl/replay_buffers/replay_buffer.py", "pfrl/replay_buffers/prioritized.py"],
     [("per-environment window flushed on terminal / stop",
       "ReplayBuffer.append, ReplayBuffer.stop_current_episode")],
     observe="append, stop_current_episode, sample(len(buffer)), len")

prop("P02", "Replay buffers keep the newest entries and sample distinct stored ones",
     "A bounded replay buffer always holds exactly the newest `capacity` entries (all of them if "
     "unbounded). Sampling k entries returns k different entries that are currently stored, each "
     "stored entry being equally likely in an unprioritized buffer. Saving and then loading into "
     "a fresh buffer reproduces the stored contents, capacity behaviour included.",
     ["histories", "inputs", "configurations"],
     "all histories of append/stop/sample/save/load, all capacities, all k",
     "tests check lengths after a few appends and a few draws; eviction order, uniformity and "
     "distinctness hold for every history and k",
     ["pfrl/replay_buffers/replay_buffer.py", "pfrl/collections/random_access_queue.py",
      "pfrl/utils/random.py"],
     [("bounded FIFO", "RandomAccessQueue"), ("sampling without replacement", "sample_n_k")],
     observe="sample, len, save, load")

prop("P03", "The random-access queue behaves like a bounded list under any history",
     "A random-access queue is indistinguishable from a list that drops its oldest items beyond "
     "the maximum length: length, iteration order, indexing with non-negative and negative "
     "indices, item assignment, append, extend and pop-from-the-left agree after every history. "
     "Out-of-range indexing and popping from an empty queue raise IndexError and change nothing, "
     "and sampling returns distinct positions.",
     ["histories", "inputs"],
     "all operation sequences, all maximum lengths including 0 and unbounded",
     "the two-stack representation depends on the history of pops; tests sample random walks "
     "without maximum length interplay",
     ["pfrl/collections/random_access_queue.py", "pfrl/utils/random.py"],
     [("two-stack representation", "RandomAccessQueue")],
     observe="the container protocol")

prop("P04", "Episodic replay stores whole episodes and drops the oldest ones whole",
     "An episodic replay buffer holds exactly the finished episodes (terminated or cut, per "
     "environment, transitions in order), and when the number of stored transitions exceeds the "
     "capacity it discards whole oldest episodes until it does not. The individually sampled "
     "transitions are exactly those of the stored episodes; sampled episodes are distinct, and "
     "with a length limit each is a contiguous part of its episode of length min(limit, episode "
     "length), any of which can be drawn. Save and load reproduce the contents and keep enforcing the capacity.",
     ["histories", "inputs", "configurations"],
     "all interleavings of append/stop over environments, all capacities, all limits; plain and "
     "prioritized episodic buffers",
     "tests use one or two episodes per case and never overflow the prioritized variant",
     ["pfrl/replay_buffers/episodic.py", "pfrl/replay_buffers/prioritized_episodic.py",
      "pfrl/replay_buffer.py"],
     [("whole-episode eviction", "stop_current_episode"),
      ("subsequence choice", "random_subseq")],
     observe="append, stop_current_episode, sample, sample_episodes, n_episodes, len, save, load")

prop("P05", "Prioritized replay draws proportionally to priority with matching weights",
     "Under every history of insertions, evictions, draws and priority updates, the probability "
     "reported for (and of) drawing an item is its current priority over the sum of priorities "
     "(mixed with the uniform share where configured), a new item gets the largest priority "
     "assigned so far, and an update changes exactly the items last drawn. A draw returns "
     "distinct items, and the importance weights are (N p)^-beta, or relative to the smallest "
     "probability of the batch or the memory as configured, with beta annealed linearly to 1.",
     ["histories", "inputs", "configurations"],
     "all histories of append/pop/sample/update; all priorities, normalizations, alpha, beta",
     "the sum and min trees restructure with history; tests check a few fixed histories and loose "
     "frequencies",
     ["pfrl/collections/prioritized.py", "pfrl/replay_buffers/prioritized.py"],
     [("sum and min trees over a queue", "TreeQueue, SumTreeQueue, MinTreeQueue"),
      ("draw / update protocol", "PrioritizedBuffer.sample, set_last_priority"),
      ("weights", "PriorityWeightError")],
     observe="append, popleft, sample, set_last_priority, update_errors")

prop("P06", "A persistent replay buffer survives a crash at any point",
     "After the writing process dies at any moment (during construction, inside an append, "
     "between chunks or while closing), reopening the directory succeeds and yields exactly the "
     "appends that had completed, in order, limited to the newest `capacity`, possibly followed by "
     "the interrupted one. Reopening chains through any number of sessions and ancestors without "
     "losing, duplicating, reordering or corrupting items, and bytes damaged on disk are never "
     "returned as valid data.",
     ["crash_points", "histories", "configurations"],
     "all crash points between and inside file writes, all histories of sessions, all chunk sizes "
     "and capacities",
     "tests close the queue cleanly or drop one file; they never stop inside a write",
     ["pfrl/collections/persistent_collections.py", "pfrl/replay_buffers/persistent.py"],
     [("index after data, checksum per record", "_ChunkWriter, _ChunkReader"),
      ("lineage of directories", "PersistentRandomAccessQueue")],
     observe="reopening a copy of the directory taken at each file write")

prop("P07", "N-step batches carry discounted return, bootstrap discount and end state",
     "Batching stored n-step entries yields for each entry the first state and action, the sum of "
     "rewards discounted per step, the last next state and next action, the discount gamma to the "
     "power of the entry's length, and a terminal flag that is set iff any of its transitions was "
     "terminal. Batch order follows entry order for all lengths mixed in one batch.",
     ["inputs", "configurations"],
     "all entry lengths 1..n mixed in a batch, all rewards, gammas and terminal positions",
     "tests check one or two hand-made entries",
     ["pfrl/replay_buffer.py"],
     [("vectorization", "batch_experiences, batch_recurrent_experiences")],
     observe="batch_experiences result")

prop("P08", "The training loop gives the agent every step of every episode, exactly once",
     "Training runs the environment for exactly the requested number of steps (counted from the "
     "given offset), calling act then step then observe with that step's outcome; the environment "
     "is reset exactly when an episode ends (terminal, asked for by the environment, or at the "
     "length limit, the latter two reported to the agent as a reset) and is never stepped after "
     "the end. Checkpoints are written at multiples of the interval, hooks see every step number "
     "once, and the final or interrupted agent is always saved, also when the agent, environment "
     "or a hook raises.",
     ["histories", "configurations", "fault_sequences"],
     "all environment histories of (reward, done, needs_reset), all step counts, limits, offsets, "
     "checkpoint intervals and failure points",
     "tests run three fixed environment scripts; the loop's guarantees hold for every script and "
     "failure point",
     ["pfrl/experiments/train_agent.py"],
     [("loop", "train_agent"), ("save on exit", "save_agent")],
     observe="calls received by the environment, agent, hooks, and files written")

prop("P09", "Batch training keeps every parallel environment's episodes separate and whole",
     "In synchronous parallel training every environment's outcome of every step reaches the "
     "agent in its slot exactly once, each environment is reset exactly when its own episode ended "
     "(terminal, asked for, or at the length limit), and its next action is computed from the "
     "observation that followed. The step counter advances by the number of environments, training "
     "stops once it reaches the requested number, and checkpoints, hooks, evaluation and final or "
     "emergency saving follow that counter.",
     ["histories", "configurations", "fault_sequences"],
     "all per-environment histories, numbers of environments, limits, step counts and failure "
     "points",
     "tests run fixed scripts with mocks and check call counts for a few settings",
     ["pfrl/experiments/train_agent_batch.py"],
     [("loop with reset mask", "train_agent_batch")],
     observe="calls received by the vector environment, agent, hooks, and files written")

prop("P10", "Asynchronous training counts steps once and ends in one consistent way",
     "For every interleaving of worker processes, each environment step of any worker is counted "
     "once in the global step counter (which starts at the given offset) and passed to the hooks "
     "under its own number; every worker stops once the requested number of steps is reached or "
     "training is stopped, and the final model is saved exactly once when it is reached. Each "
     "crossed evaluation interval is evaluated once, the best score and best model are kept "
     "without lost updates, each worker plays whole episodes, and a failing worker is reported "
     "rather than lost.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of workers at the granularity of their shared-counter operations, all "
     "environment histories, all failure points",
     "tests run real processes once per configuration and see a single schedule",
     ["pfrl/experiments/train_agent_async.py", "pfrl/experiments/evaluator.py",
      "pfrl/utils/async_.py"],
     [("shared counters", "train_loop"), ("evaluation claim", "AsyncEvaluator.evaluate_if_necessary")],
     observe="calls received by environments, agents and hooks under a controlled scheduler")

prop("P11", "Evaluation scores exactly the requested episodes or steps",
     "Evaluating for n episodes returns the undiscounted returns and lengths of exactly n complete "
     "episodes; evaluating for n steps uses exactly the complete episodes within those steps (or "
     "the single unfinished one if none completed). With parallel environments the n episodes are "
     "the first n in order of starting, independent of their lengths, each environment's rewards "
     "are credited only to its own episode, and episodes end at the terminal state, at the length "
     "limit or when the environment asks for it. The agent acts in evaluation mode, is told of "
     "every episode end (also when evaluation stops inside one), and gets its mode back.",
     ["histories", "configurations"],
     "all environment histories, numbers of environments, n and length limits",
     "tests use fixed episode lengths; the selection of episodes depends on relative lengths",
     ["pfrl/experiments/evaluator.py"],
     [("serial rollout", "_run_episodes"), ("parallel rollout", "_batch_run_episodes")],
     observe="run_evaluation_episodes and batch_run_evaluation_episodes results and agent calls")

prop("P12", "Periodic evaluation happens once per interval and keeps the best agent",
     "During training an evaluation runs exactly when the step counter has entered a new "
     "evaluation interval since the last one, appends one row (step, episode count, score "
     "statistics, agent statistics) to the score log, and the best-agent snapshot is rewritten "
     "exactly when the mean score strictly exceeds every earlier one. Training stops early exactly "
     "when the best score reaches the success threshold.",
     ["histories", "configurations"],
     "all sequences of step counts, scores (ties, negative, decreasing), intervals and offsets",
     "tests drive one or two evaluations",
     ["pfrl/experiments/evaluator.py", "pfrl/experiments/train_agent.py"],
     [("interval rule", "Evaluator.evaluate_if_necessary, AsyncEvaluator.evaluate_if_necessary"),
      ("score log", "record_stats, write_header")],
     observe="evaluation calls, score file rows, best snapshot contents")

prop("P13", "Parallel environments behave like the same environments run one by one",
     "A multi-process or serial vector environment returns, for every sequence of resets with any "
     "mask and steps, at position i exactly what the i-th environment alone returns for the same "
     "calls; masked-in environments keep their last observation and are not reset. Seeds go to "
     "their own environment, spaces and spec are the first environment's, and closing ends every "
     "worker.",
     ["histories", "schedules", "configurations"],
     "all sequences of reset masks and actions, all numbers of environments and worker timings",
     "tests run a short random session of CartPole",
     ["pfrl/envs/multiprocess_vector_env.py", "pfrl/envs/serial_vector_env.py", "pfrl/env.py"],
     [("pipes per worker", "MultiprocessVectorEnv"), ("mask", "VectorEnv.reset")],
     observe="reset, step, seed, close results")

prop("P14", "Frame stacking always shows the last k frames of the current episode",
     "A frame-stacked environment's observation after any history is the last k frames of the "
     "current episode, oldest first, with the first frame repeated where the episode is younger "
     "than k frames; frames of an earlier episode never appear. The vectorized stacking wrapper "
     "gives each environment the same, whatever the pattern of masked resets, and an observation "
     "handed out earlier never changes afterwards.",
     ["histories", "configurations"],
     "all histories of steps and (masked) resets, all k and numbers of environments",
     "tests compare short random runs",
     ["pfrl/wrappers/vector_frame_stack.py", "pfrl/wrappers/atari_wrappers.py"],
     [("per-environment frame windows", "VectorFrameStack"), ("lazy frames", "LazyFrames, FrameStack")],
     observe="observations returned by step and reset")

prop("P15", "Off-policy agents store exactly the transitions they experienced",
     "For every history of interaction, each step taken in training mode is stored once as "
     "(observation acted on, action executed, reward, resulting observation, terminal flag) under "
     "its own environment, in order; an episode cut short by a reset is closed in the replay "
     "buffer without being marked terminal. Nothing is stored in evaluation mode, and transitions "
     "of different environments or episodes are never joined.",
     ["histories", "configurations"],
     "all interleavings of act/observe for serial and batched use, resets, terminals and evaluation "
     "phases; all off-policy agents",
     "tests train for a few steps and look at learning curves",
     ["pfrl/agents/dqn.py", "pfrl/agents/ddpg.py", "pfrl/agents/td3.py",
      "pfrl/agents/soft_actor_critic.py"],
     [("transition assembly", "_batch_observe_train, batch_act")],
     observe="calls received by an injected replay buffer")

prop("P16", "Updates and target-network synchronization follow the configured schedule",
     "A replay agent updates its model exactly at the observed steps that are multiples of the "
     "update interval once the buffer holds the start size (the configured number of times, each "
     "on a freshly sampled batch of the configured size), and its target network equals the online "
     "one at construction and after each scheduled hard synchronization, or moves by exactly the "
     "soft coefficient, and is otherwise constant. Delayed policy updates happen every configured "
     "number of critic updates. Exploration is asked with the number of steps observed so far, and "
     "a burn-in policy acts exactly until the first policy update.",
     ["histories", "configurations"],
     "all intervals, start sizes, batch sizes, serial and batched use, all off-policy agents",
     "tests check only that learning works with default intervals",
     ["pfrl/replay_buffer.py", "pfrl/agents/dqn.py", "pfrl/agents/ddpg.py", "pfrl/agents/td3.py",
      "pfrl/agents/soft_actor_critic.py", "pfrl/utils/copy_param.py"],
     [("schedule", "ReplayUpdater.update_if_necessary"),
      ("synchronization", "synchronize_parameters, sync_target_network")],
     observe="optimizer steps, sample calls, target parameters")

prop("P17", "Value-based agents regress to the correct bootstrapped target",
     "Each update of a Q-learning agent moves the value of exactly the sampled state-action pairs "
     "towards reward plus (n-step discount) times the bootstrap value of the last next state under "
     "the target network (online-argmax for the double variants; with the advantage terms of the "
     "gap-increasing variants), with no bootstrap after a terminal transition and a bootstrap after "
     "a merely interrupted one. Importance weights scale each sample's loss, and the error reported "
     "for prioritization is that sample's absolute error. Quantile agents minimize the quantile "
     "Huber loss over all pairs of quantiles against such targets.",
     ["inputs", "histories", "configurations"],
     "all Q tables, batches, rewards, terminal flags, entry lengths, weights and agent variants",
     "tests check loss shapes and learning on toy tasks, which tolerate wrong targets",
     ["pfrl/agents/dqn.py", "pfrl/agents/double_dqn.py", "pfrl/agents/al.py", "pfrl/agents/pal.py",
      "pfrl/agents/double_pal.py", "pfrl/agents/dpp.py", "pfrl/agents/categorical_dqn.py"],
     [("target", "_compute_target_values, _compute_y_and_t"), ("loss", "compute_value_loss")],
     observe="parameters of a tabular value function after an update")

prop("P18", "Actor-critic replay agents regress critics to the correct target",
     "Each critic update of DDPG, TD3 and SAC moves the critic values of exactly the sampled pairs "
     "towards reward plus (n-step discount) times the target critic's value of the target policy's "
     "action at the last next state (the smaller of the two critics for TD3 and SAC, minus the "
     "entropy term for SAC), with no bootstrap after a terminal transition. Policy updates change "
     "only the policy (and temperature), critic updates only the critics.",
     ["inputs", "configurations"],
     "all critic values, batches, rewards, terminal flags, entry lengths and discounts",
     "tests only check that learning improves",
     ["pfrl/agents/ddpg.py", "pfrl/agents/td3.py", "pfrl/agents/soft_actor_critic.py"],
     [("critic target", "compute_critic_loss, update_q_func")],
     observe="critic and policy parameters after an update")

prop("P19", "PPO and TRPO learn from each transition once with correct advantages",
     "Each transition collected in training is used in exactly one dataset, and each epoch visits "
     "every transition of the dataset exactly as often as every other (up to the last partial "
     "minibatch). Advantages and value targets are the generalized-advantage recursion within each "
     "episode of each environment: no bootstrap after a terminal state, bootstrap after an "
     "interruption or at the end of the collected segment, never across episodes or environments. "
     "PPO's policy loss is the clipped surrogate of the ratio to the collecting policy, and a TRPO "
     "step never leaves the trust region.",
     ["histories", "inputs", "configurations"],
     "all histories of terminals/resets over environments, all update intervals, batch sizes, "
     "epochs, gamma and lambda; recurrent sequence splitting with any length limit",
     "tests check the advantage formula on single episodes and random learning runs",
     ["pfrl/agents/ppo.py", "pfrl/agents/trpo.py"],
     [("dataset", "_make_dataset, _add_log_prob_and_value_to_episodes"),
      ("advantages", "_add_advantage_and_value_target_to_episode"),
      ("minibatches", "_yield_minibatches, _yield_subset_of_sequences_with_fixed_number_of_items")],
     observe="minibatches seen by an injected model, value targets regressed to")

prop("P20", "On-policy actor-critic agents use the right return for every action",
     "A2C, A3C and REINFORCE weight each action's log-probability by the discounted sum of the "
     "rewards from that action on within its own episode (bootstrapped with the value of the state "
     "where collection stopped, unless that state is terminal), minus the baseline where one is "
     "used; rewards before the action, of other environments or of later episodes never enter. "
     "Updates happen after exactly the configured number of steps or episodes, or at episode end, "
     "as each algorithm documents.",
     ["histories", "inputs", "configurations"],
     "all reward/terminal/reset histories, rollout lengths, gammas and numbers of environments",
     "tests check learning on toy tasks, which tolerates off-by-one returns",
     ["pfrl/agents/a2c.py", "pfrl/agents/a3c.py", "pfrl/agents/reinforce.py",
      "pfrl/agents/acer.py"],
     [("returns", "_compute_returns, update, accumulate_grad")],
     observe="gradient with respect to injected log-probability and value parameters")

prop("P21", "Recurrent state follows each environment's own current episode",
     "The recurrent state with which a recurrent agent processes an observation is the one produced "
     "by the previous observations of the same environment in the same episode, fresh at each "
     "episode start, for every pattern of terminals and resets over the environments. States "
     "stored for training are those used when acting, and training-mode and evaluation-mode states "
     "never influence each other.",
     ["histories", "configurations"],
     "all interleavings of episode ends over environments and of training/evaluation phases",
     "tests train recurrent models but do not check whose state is used",
     ["pfrl/utils/recurrent.py", "pfrl/agents/dqn.py", "pfrl/agents/ppo.py",
      "pfrl/agents/a3c.py"],
     [("masking", "mask_recurrent_state_at, get_recurrent_state_at"),
      ("per-mode states", "train_recurrent_states, test_recurrent_states")],
     observe="inputs received by an injected recurrent module")

prop("P22", "A saved agent loads back to the same agent",
     "Saving any agent and loading it into a newly constructed one restores every parameter, "
     "buffer and optimizer state that influences further acting and learning, so that both behave "
     "identically from then on (given the step offset; update counters start anew); saving does "
     "not change the agent. A successful load never leaves a mixture of old and new parameters.",
     ["histories", "configurations"],
     "all agents, all training histories before saving",
     "tests check that save and load do not fail and compare a few outputs",
     ["pfrl/agent.py", "pfrl/agents/a3c.py", "pfrl/agents/acer.py",
      "pfrl/utils/copy_param.py"],
     [("saved attribute lists", "AttributeSavingMixin, saved_attributes")],
     observe="state of the restored agent and its continuation")

prop("P23", "Actor-learner training loses, duplicates and reorders no experience",
     "With any number of actors and any interleaving, each actor's transitions reach the replay "
     "buffer exactly once, in order, under that actor's environment with episode ends intact, and "
     "the learner performs exactly the requested number of updates, with hooks and target "
     "synchronization at the corresponding steps. The buffer is never used by two parties at once. "
     "Requests for saving, loading and statistics are answered to the actor that asked (failed ones "
     "with an error), actors' models are refreshed from the learner's at the configured interval, "
     "and stopping or failing ends all parties.",
     ["schedules", "histories"],
     "all interleavings of actors, poller and learner, all episode histories",
     "tests run it once under one schedule",
     ["pfrl/agents/state_q_function_actor.py", "pfrl/agents/dqn.py"],
     [("pipes and poller", "setup_actor_learner_training, _poll_pipe, _learner_loop"),
      ("actor", "StateQFunctionActor")],
     observe="calls received by an injected replay buffer, messages on the pipes")

prop("P24", "Environment wrappers preserve the episode contract",
     "Whatever the wrapped environment does, each wrapper's documented transformation is exact: "
     "time limits ask for a reset at the limit without marking a terminal, skipped frames sum "
     "their rewards, show the maximum of the last two frames and stop at the episode's end, life loss ends an episode without resetting the "
     "game, resets after random no-ops or fire presses return a running episode, and action "
     "and reward transformations change only what they claim. Wrappers never step an environment "
     "after its episode ended.",
     ["histories", "inputs", "configurations"],
     "all reward/done/lives histories of the wrapped environment",
     "tests use one scripted environment per wrapper",
     ["pfrl/wrappers/atari_wrappers.py", "pfrl/wrappers/continuing_time_limit.py",
      "pfrl/wrappers/randomize_action.py", "pfrl/wrappers/scale_reward.py",
      "pfrl/wrappers/cast_observation.py", "pfrl/wrappers/normalize_action_space.py",
      "pfrl/utils/env_modifiers.py"],
     [("wrappers", "ContinuingTimeLimit, EpisodicLifeEnv, MaxAndSkipEnv, NoopResetEnv, "
       "FireResetEnv, ScaleReward, NormalizeActionSpace, RandomizeAction")],
     observe="calls received by the wrapped environment and values returned")

prop("P25", "Exploration follows its schedule and never corrupts greedy choice",
     "An epsilon-greedy explorer picks a random action with exactly the probability its schedule "
     "prescribes for the step (constant, linear between its end points then constant, or "
     "exponential with a floor) and otherwise returns the greedy action; schedule values always "
     "lie between their end points and are monotone. Additive noise explorers add noise of the "
     "configured scale (independent, or mean-reverting with the configured coefficients), Boltzmann "
     "exploration samples the softmax of the values over the temperature, and scheduled attributes equal the linear interpolation at every step.",
     ["inputs", "configurations"],
     "all steps, schedule lengths and end points",
     "tests sample a few steps per schedule",
     ["pfrl/explorers/epsilon_greedy.py", "pfrl/explorers/additive_gaussian.py",
      "pfrl/explorers/boltzmann.py", "pfrl/experiments/hooks.py"],
     [("schedules", "LinearDecayEpsilonGreedy, ExponentialDecayEpsilonGreedy"),
      ("interpolation", "LinearInterpolationHook")],
     observe="select_action results, setter calls")

prop("P26", "Running normalization equals the statistics of all data seen",
     "After any sequence of batches, the running mean and variance equal those of all data "
     "experienced so far regardless of how it was split into batches, data beyond the configured "
     "limit no longer changes them, and normalizing then denormalizing returns the input. "
     "Normalizing without experience leaves the statistics unchanged, clipping bounds the output, "
     "and statistics survive copying and saving.",
     ["histories", "inputs"],
     "all splits of all data into batches, all limits",
     "tests compare one split of random data with tolerance",
     ["pfrl/nn/empirical_normalization.py"],
     [("streaming update", "EmpiricalNormalization.experience")],
     observe="mean, std, count, forward, inverse")

prop("P27", "Evaluation mode never disturbs training, and modes are always restored",
     "Acting and observing in evaluation mode, any number of times and at any point of training, "
     "leave everything that influences later training unchanged: parameters, optimizer state, "
     "replay contents, pending transitions, schedule counters and recurrent training state. "
     "So does reading statistics. "
     "Training actions and updates are as if the evaluation had not happened, and the previous "
     "mode is restored also when the evaluation raises.",
     ["histories", "fault_sequences", "configurations"],
     "all placements of evaluation phases into training histories, all agents",
     "tests never compare training with and without evaluation in between",
     ["pfrl/agent.py", "pfrl/agents", "pfrl/experiments/evaluator.py"],
     [("mode switch", "Agent.eval_mode"), ("mode dispatch", "batch_act, batch_observe")],
     observe="the sequence of collaborator calls with and without evaluation phases")

prop("P28", "Distributional targets conserve probability and respect the support",
     "Projecting a return distribution onto a fixed support distributes every atom's probability "
     "to its (at most two) neighbouring support points in linear proportion, so total mass is "
     "conserved, values within the support keep their mean, and values beyond an end are put on "
     "that end point. Distributional agents' targets are this projection of reward plus discounted "
     "support, with a terminal transition's target concentrated at its reward.",
     ["inputs", "configurations"],
     "all atom positions (on, between and beyond support points), probabilities, support sizes",
     "tests compare a few examples; the on-grid and end-point cases are delicate",
     ["pfrl/agents/categorical_dqn.py", "pfrl/agents/categorical_double_dqn.py"],
     [("projection", "_apply_categorical_projection")],
     observe="projected distributions, targets")

prop("P29", "Output directories never overwrite earlier results",
     "Preparing an output directory always returns a directory that exists, records the arguments, "
     "command line and environment there, and never destroys results of an earlier experiment: "
     "result files stay in place, an existing directory's contents are copied to a backup of their "
     "own before reuse, for every number of repetitions, and an interrupted preparation loses "
     "nothing. Generated identifiers differ for different code or command lines.",
     ["histories", "configurations", "crash_points"],
     "all sequences of preparations with any identifiers, all interruption points",
     "tests prepare once or twice",
     ["pfrl/experiments/prepare_output_dir.py"],
     [("backup", "prepare_output_dir")],
     observe="the directory tree")

prop("P30", "ACER's off-policy corrections follow its algorithm",
     "Every update of the discrete-action ACER agent uses, for each step of the segment, the Retrace "
     "return computed with importance ratios cut at one between the current policy and the behaviour "
     "policy recorded when the action was taken; the policy gradient weights the advantage by the "
     "ratio truncated at the threshold and adds the bias correction over all actions; the trust region "
     "moves it only as far as needed to respect the average policy; terminal steps do not bootstrap "
     "while cut-off ones do; replayed segments are contiguous parts of one finished episode, and the "
     "configured number of replays follows each online update once enough experience is stored.",
     ["histories", "inputs", "configurations"],
     "all histories of acts and observations, policies, values, thresholds and configurations",
     "tests check single components or that training improves a toy task",
     ["pfrl/agents/acer.py"],
     [("Retrace", "ACER.compute_loss"), ("truncation and correction", "compute_policy_gradient_loss"),
      ("trust region", "compute_loss_with_kl_constraint")],
     observe="gradients handed to the optimizer")

prop("P31", "Recurrent containers and batched states treat every sequence by itself",
     "Running a recurrent container (layers in sequence, parallel branches, nested in any way, with "
     "plain layers between) over a batch of sequences of different lengths gives each sequence the "
     "outputs and the final state it would get alone, whether it is processed at once or split into "
     "steps. Masking, picking, concatenating, detaching and converting batched states act on exactly "
     "the given positions of every component, a missing state counts as a fresh one, and the states "
     "passed in stay unchanged.",
     ["inputs", "histories", "configurations"],
     "all container trees, batch sizes, length patterns and histories of state operations",
     "tests use one container and fixed lengths",
     ["pfrl/nn/recurrent_sequential.py", "pfrl/nn/recurrent_branched.py", "pfrl/utils/recurrent.py"],
     [("container", "RecurrentSequential.forward"), ("states", "concatenate_recurrent_states")],
     observe="outputs and recurrent states")

prop("P32", "Action values and heads answer for each row by itself and consistently",
     "An action value gives every row the value of that row's own action; its maximum is the best value, "
     "its greedy action attains it (for quadratic values: the maximizer clipped to the bounds), and "
     "advantages, expectations and the distributions or quantiles of an action agree with it; a selection "
     "of rows answers as those rows, and no query changes a later answer. Q-function heads answer for a "
     "row independently of the other rows (normalization in evaluation mode); dueling heads give value plus "
     "centred advantage, distributional heads distributions over the configured support, quadratic heads a "
     "maximum within the bounds. Policy heads have the given mean, variance or probabilities, the mode of a "
     "distribution is its most likely action, a deterministic policy yields only its value, and bounding "
     "by tanh keeps the order and stays within the bounds.",
     ["inputs", "histories", "configurations"],
     "all batches, numbers of actions, bounds, ties, selections and orders of queries",
     "tests compare a few random batches with a restatement of the implementation",
     ["pfrl/action_value.py", "pfrl/q_functions/*.py", "pfrl/policies/*.py", "pfrl/distributions/delta.py",
      "pfrl/utils/mode_of_distribution.py", "pfrl/functions/*.py"],
     [("values", "DiscreteActionValue"), ("quadratic", "QuadraticActionValue"), ("heads", "FCQuadraticStateQFunction")],
     observe="answers of action values and heads")
