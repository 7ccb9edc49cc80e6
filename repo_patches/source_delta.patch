From d1ac58902f7de6514e65bfde545483d5fffb76f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:17 +0000
Subject: [PATCH 01/33] fix: PrioritizedEpisodicReplayBuffer keeps transitions
 in step with its episodes

Transitions were stored bare (sample() must return lists of transitions),
transitions of discarded episodes stayed sampleable, and the remaining
capacity was lost by save/load.
---
 pfrl/replay_buffers/prioritized_episodic.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pfrl/replay_buffers/prioritized_episodic.py b/pfrl/replay_buffers/prioritized_episodic.py
index e31a748..4e7dbc7 100644
--- a/pfrl/replay_buffers/prioritized_episodic.py
+++ b/pfrl/replay_buffers/prioritized_episodic.py
@@ -26,8 +26,8 @@ class PrioritizedEpisodicReplayBuffer(EpisodicReplayBuffer, PriorityWeightError)
         self.episodic_memory = PrioritizedBuffer(
             capacity=None, wait_priority_after_sampling=wait_priority_after_sampling
         )
-        self.memory = RandomAccessQueue(maxlen=capacity)
-        self.capacity_left = capacity
+        self.memory = RandomAccessQueue()
+        self.capacity = capacity
         self.default_priority_func = default_priority_func
         self.uniform_ratio = uniform_ratio
         self.return_sample_weights = return_sample_weights
@@ -66,12 +66,12 @@ class PrioritizedEpisodicReplayBuffer(EpisodicReplayBuffer, PriorityWeightError)
                 priority = self.default_priority_func(current_episode)
             else:
                 priority = None
-            self.memory.extend(current_episode)
             self.episodic_memory.append(current_episode, priority=priority)
-            if self.capacity_left is not None:
-                self.capacity_left -= len(current_episode)
+            for transition in current_episode:
+                self.memory.append([transition])
             self.current_episode[env_id] = []
-            while self.capacity_left is not None and self.capacity_left < 0:
+            while self.capacity is not None and len(self.memory) > self.capacity:
                 discarded_episode = self.episodic_memory.popleft()
-                self.capacity_left += len(discarded_episode)
+                for _ in range(len(discarded_episode)):
+                    self.memory.popleft()
         assert not self.current_episode[env_id]
-- 
2.43.0


From 1643f68e1ff07041e24e34ed9d476136566c9ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:17 +0000
Subject: [PATCH 02/33] fix: priorities go to the sampled items even if older
 items were popped meanwhile

Between sample() and set_last_priority() an append to a full buffer shifts
the positions, so that other items received the priorities and the last
sampled ones kept priority zero for good.
---
 pfrl/collections/prioritized.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pfrl/collections/prioritized.py b/pfrl/collections/prioritized.py
index a6d6909..dc6d4cb 100644
--- a/pfrl/collections/prioritized.py
+++ b/pfrl/collections/prioritized.py
@@ -19,6 +19,8 @@ T = TypeVar("T")
 
 
 class PrioritizedBuffer(Generic[T]):
+    sampled_indices: Sequence[int] = ()
+
     def __init__(
         self,
         capacity: Optional[int] = None,
@@ -51,6 +53,8 @@ class PrioritizedBuffer(Generic[T]):
         assert len(self) > 0
         self.priority_sums.popleft()
         self.priority_mins.popleft()
+        # Keep pointing to the items sampled last
+        self.sampled_indices = [i - 1 for i in self.sampled_indices]
         return self.data.popleft()
 
     def _sample_indices_and_probabilities(
@@ -109,6 +113,9 @@ class PrioritizedBuffer(Generic[T]):
         assert all([p > 0.0 for p in priority])
         assert len(self.sampled_indices) == len(priority)
         for i, p in zip(self.sampled_indices, priority):
+            if i < 0:
+                # This item has already been popped
+                continue
             self.priority_sums[i] = p
             self.priority_mins[i] = p
             self.max_priority = max(self.max_priority, p)
-- 
2.43.0


From 7cf2870a1fb5f85e5929bfa5459e61000af9b4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:35 +0000
Subject: [PATCH 03/33] fix: mixed uniform and prioritized sampling returns
 distinct items without waiting for priorities

---
 pfrl/collections/prioritized.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pfrl/collections/prioritized.py b/pfrl/collections/prioritized.py
index dc6d4cb..4a9deb0 100644
--- a/pfrl/collections/prioritized.py
+++ b/pfrl/collections/prioritized.py
@@ -68,7 +68,7 @@ class PrioritizedBuffer(Generic[T]):
             # Mix uniform samples and prioritized samples
             n_uniform = np.random.binomial(n, uniform_ratio)
             un_indices, un_priorities = self.priority_sums.uniform_sample(
-                n_uniform, remove=self.wait_priority_after_sampling
+                n_uniform, remove=True
             )
             indices.extend(un_indices)
             priorities.extend(un_priorities)
@@ -76,10 +76,14 @@ class PrioritizedBuffer(Generic[T]):
             min_prob = uniform_ratio / len(self) + (1 - uniform_ratio) * min_prob
 
         pr_indices, pr_priorities = self.priority_sums.prioritized_sample(
-            n, remove=self.wait_priority_after_sampling
+            n, remove=True
         )
         indices.extend(pr_indices)
         priorities.extend(pr_priorities)
+        if not self.wait_priority_after_sampling:
+            # Priorities are removed only so that no item is sampled twice
+            for i, p in zip(indices, priorities):
+                self.priority_sums[i] = p
 
         probs = [
             uniform_ratio / len(self) + (1 - uniform_ratio) * pri / total_priority
-- 
2.43.0


From af58fe1c97460dfe5f0bb62063d301c814f9c3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:32 +0000
Subject: [PATCH 04/33] fix: PersistentRandomAccessQueue.popleft returns the
 item and extend accepts iterators

It is documented to be compatible with RandomAccessQueue.
---
 pfrl/collections/persistent_collections.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index 8850977..c8f99fb 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -285,8 +285,7 @@ class PersistentRandomAccessQueue(object):
 
     def extend(self, xs):
         for x in xs:
-            self._append(x)
-        self.buffer.extend(xs)
+            self.append(x)
 
     def __iter__(self):
         return iter(self.buffer)
@@ -304,7 +303,7 @@ class PersistentRandomAccessQueue(object):
         return self.buffer.sample(n)
 
     def popleft(self):
-        self.buffer.popleft()
+        return self.buffer.popleft()
 
     def __len__(self):
         return len(self.buffer)
-- 
2.43.0


From ca16ca74bd01964de8b08d3736fcad12c83145df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:32 +0000
Subject: [PATCH 05/33] fix: PersistentRandomAccessQueue loads the newest data
 of its ancestors

Whole chunks of an older ancestor filled up the queue so that the data of
the newer ancestor were skipped, and maxlen=None failed with a TypeError.
---
 pfrl/collections/persistent_collections.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index c8f99fb..76859ea 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -382,16 +382,25 @@ class PersistentRandomAccessQueue(object):
                 length += len(list(reader.read_chunk_index(gen)))
                 gen += 1
 
-        if length < num_data_needed and meta["ancestor"] is not None:
-            self._load_ancestor(meta["ancestor"], num_data_needed - length)
+        if meta["ancestor"] is not None:
+            if num_data_needed is None:
+                self._load_ancestor(meta["ancestor"], None)
+            elif length < num_data_needed:
+                self._load_ancestor(meta["ancestor"], num_data_needed - length)
 
         for datadir in datadirs:
             reader = _ChunkReader(datadir, self.fs)
             rank_data = []
-            maxlen = num_data_needed - len(self.buffer)
-            if maxlen <= 0:
-                break
+            if num_data_needed is None:
+                maxlen = None
+            else:
+                maxlen = num_data_needed - len(self.buffer)
+                if maxlen <= 0:
+                    break
             _ = reader.read_chunks(maxlen, rank_data)
+            if maxlen is not None:
+                # Chunks are read as a whole; only the newest data are needed
+                rank_data = rank_data[-maxlen:]
             if self.logger:
                 self.logger.info(
                     "%d data loaded to buffer (rank=%d)", len(rank_data), self.comm_rank
-- 
2.43.0


From e44e572492f3e6368b4678df46880ed021afcd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:32 +0000
Subject: [PATCH 06/33] fix: create the meta file of
 PersistentRandomAccessQueue atomically

A crash while it was being written left an empty meta.pkl and the directory
could not be opened any more.
---
 pfrl/collections/persistent_collections.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index 76859ea..fd9d3e9 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -9,7 +9,7 @@ from pfrl.collections.random_access_queue import RandomAccessQueue
 
 # code for future extension. `_VanillaFS` is a dummy of chainerio's
 # FIleSystem class.
-_VanillaFS = collections.namedtuple("_VanillaFS", "exists open makedirs")
+_VanillaFS = collections.namedtuple("_VanillaFS", "exists open makedirs rename")
 _chainerio_available = False
 
 
@@ -260,8 +260,11 @@ class PersistentRandomAccessQueue(object):
             # the import success, e.g. installing the lacking
             # library correctly.
             self.fs.makedirs(self.basedir, exist_ok=True)
-            with self.fs.open(self.meta_file, "wb") as fp:
+            # Never leave an incomplete meta file behind
+            tmp_file = self.meta_file + ".tmp"
+            with self.fs.open(tmp_file, "wb") as fp:
                 pickle.dump(self.meta, fp)
+            self.fs.rename(tmp_file, self.meta_file)
 
     def close(self):
         self.tail.close()
@@ -340,7 +343,10 @@ class PersistentRandomAccessQueue(object):
             else:
                 # When chainerio is not installed
                 self.fs = _VanillaFS(
-                    open=open, exists=os.path.exists, makedirs=os.makedirs
+                    open=open,
+                    exists=os.path.exists,
+                    makedirs=os.makedirs,
+                    rename=os.replace,
                 )
         else:
             self.fs = fs
-- 
2.43.0


From 0b7232ecf1f35e73cb027269fe634dc2acd3f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:32 +0000
Subject: [PATCH 07/33] fix: PersistentEpisodicReplayBuffer finds the queues of
 its ancestor

The ancestor's directory itself was used for both queues, but they are in
its subdirectories.
---
 pfrl/replay_buffers/persistent.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pfrl/replay_buffers/persistent.py b/pfrl/replay_buffers/persistent.py
index 19342df..c3050f0 100644
--- a/pfrl/replay_buffers/persistent.py
+++ b/pfrl/replay_buffers/persistent.py
@@ -120,13 +120,21 @@ class PersistentEpisodicReplayBuffer(EpisodicReplayBuffer):
 
         self.memory_dir = os.path.join(dirname, "memory")
         self.episodic_memory_dir = os.path.join(dirname, "episodic_memory")
+        if ancestor is None:
+            memory_ancestor = episodic_memory_ancestor = None
+        else:
+            memory_ancestor = os.path.join(ancestor, "memory")
+            episodic_memory_ancestor = os.path.join(ancestor, "episodic_memory")
 
         if not distributed:
             self.memory = PersistentRandomAccessQueue(
-                self.memory_dir, capacity, ancestor=ancestor, logger=logger
+                self.memory_dir, capacity, ancestor=memory_ancestor, logger=logger
             )
             self.episodic_memory = PersistentRandomAccessQueue(
-                self.episodic_memory_dir, capacity, ancestor=ancestor, logger=logger
+                self.episodic_memory_dir,
+                capacity,
+                ancestor=episodic_memory_ancestor,
+                logger=logger,
             )
         else:
             try:
@@ -136,14 +144,14 @@ class PersistentEpisodicReplayBuffer(EpisodicReplayBuffer):
                 self.memory = mn_coll.PersistentRandomAccessQueue(
                     self.memory_dir,
                     capacity,
-                    ancestor=ancestor,
+                    ancestor=memory_ancestor,
                     logger=logger,
                     group=group,
                 )
                 self.episodic_memory = mn_coll.PersistentRandomAccessQueue(
                     self.episodic_memory_dir,
                     capacity,
-                    ancestor=ancestor,
+                    ancestor=episodic_memory_ancestor,
                     logger=logger,
                     group=group,
                 )
-- 
2.43.0


From cbd51f6b4f0f8ed18276d797f455bd3843ae80f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:11 +0000
Subject: [PATCH 08/33] fix: asynchronous workers seed with plain integers

random.seed() rejects NumPy integers since Python 3.11, so every worker died
before its first step with the default random_seeds.
---
 pfrl/experiments/train_agent_async.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/experiments/train_agent_async.py b/pfrl/experiments/train_agent_async.py
index d8b3b40..ce21204 100644
--- a/pfrl/experiments/train_agent_async.py
+++ b/pfrl/experiments/train_agent_async.py
@@ -270,7 +270,7 @@ def train_agent_async(
         random_seeds = np.arange(processes)
 
     def run_func(process_idx):
-        random_seed.set_random_seed(random_seeds[process_idx])
+        random_seed.set_random_seed(int(random_seeds[process_idx]))
 
         env = make_env(process_idx, test=False)
         if evaluator is None:
-- 
2.43.0


From 0a9e3557ca57db5dbd07642a1b2a47f3e2c8dc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:11 +0000
Subject: [PATCH 09/33] fix: train_agent_async starts counting steps from
 step_offset

---
 pfrl/experiments/train_agent_async.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/experiments/train_agent_async.py b/pfrl/experiments/train_agent_async.py
index ce21204..7c59101 100644
--- a/pfrl/experiments/train_agent_async.py
+++ b/pfrl/experiments/train_agent_async.py
@@ -222,7 +222,7 @@ def train_agent_async(
     # Prevent numpy from using multiple threads
     os.environ["OMP_NUM_THREADS"] = "1"
 
-    counter = mp.Value("l", 0)
+    counter = mp.Value("l", step_offset)
     episodes_counter = mp.Value("l", 0)
 
     if stop_event is None:
-- 
2.43.0


From 1a4f12ed7a2d697501104d858d546324bd6d863c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:51 +0000
Subject: [PATCH 10/33] fix: AsyncEvaluator keeps the best score in double
 precision

Rounding it to single precision made an equal score count as an improvement
(or an improvement go unnoticed).
---
 pfrl/experiments/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/experiments/evaluator.py b/pfrl/experiments/evaluator.py
index 7569178..51b9fe4 100644
--- a/pfrl/experiments/evaluator.py
+++ b/pfrl/experiments/evaluator.py
@@ -571,7 +571,7 @@ class AsyncEvaluator(object):
         self.prev_eval_t = mp.Value(
             "l", self.step_offset - self.step_offset % self.eval_interval
         )
-        self._max_score = mp.Value("f", np.finfo(np.float32).min)
+        self._max_score = mp.Value("d", np.finfo(np.float32).min)
         self.wrote_header = mp.Value("b", False)
 
         # Create scores.txt
-- 
2.43.0


From f39663018db4449f0d61e9669cab1501eee806a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:07 +0000
Subject: [PATCH 11/33] fix: evaluation for a number of steps tells the agent
 that its last episode is over

Otherwise the evaluation-mode state of the unfinished episode (e.g. the
recurrent state) was carried over into the next evaluation.
---
 pfrl/experiments/evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pfrl/experiments/evaluator.py b/pfrl/experiments/evaluator.py
index 51b9fe4..5903cf9 100644
--- a/pfrl/experiments/evaluator.py
+++ b/pfrl/experiments/evaluator.py
@@ -40,7 +40,9 @@ def _run_episodes(
         episode_len += 1
         timestep += 1
         reset = done or episode_len == max_episode_len or info.get("needs_reset", False)
-        agent.observe(obs, r, done, reset)
+        # If this is the last step, make sure the agent observes reset=True
+        last_step = n_steps is not None and timestep >= n_steps
+        agent.observe(obs, r, done, reset or last_step)
         if reset:
             logger.info(
                 "evaluation episode %s length:%s R:%s", len(scores), episode_len, test_r
-- 
2.43.0


From a72f5d38f6b9a77bb6cd43e78046f07cb782697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:02 +0000
Subject: [PATCH 12/33] fix: SerialVectorEnv.spec is the spec of its
 environments

---
 pfrl/envs/serial_vector_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/envs/serial_vector_env.py b/pfrl/envs/serial_vector_env.py
index 73104ad..d0a201d 100644
--- a/pfrl/envs/serial_vector_env.py
+++ b/pfrl/envs/serial_vector_env.py
@@ -18,7 +18,7 @@ class SerialVectorEnv(pfrl.env.VectorEnv):
         self.last_obs = [None] * self.num_envs
         self.action_space = envs[0].action_space
         self.observation_space = envs[0].observation_space
-        self.spec = envs[0].observation_space
+        self.spec = getattr(envs[0], "spec", None)
 
     def step(self, actions):
         results = [env.step(a) for env, a in zip(self.envs, actions)]
-- 
2.43.0


From 5d9f815a72fb838590bb60600a7e4507c716a994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:19 +0000
Subject: [PATCH 13/33] fix: FireResetEnv returns the observation of the
 episode that is running

---
 pfrl/wrappers/atari_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 2a49779..97b0669 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -68,7 +68,7 @@ class FireResetEnv(gym.Wrapper):
             self.env.reset(**kwargs)
         obs, _, done, info = self.env.step(2)
         if done or info.get("needs_reset", False):
-            self.env.reset(**kwargs)
+            obs = self.env.reset(**kwargs)
         return obs
 
     def step(self, ac):
-- 
2.43.0


From dbbaa16664c13b6c8c30cde78d47774c71621198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:19 +0000
Subject: [PATCH 14/33] fix: EpisodicLifeEnv resets a game that ends in the
 no-op step of its reset

---
 pfrl/wrappers/atari_wrappers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 97b0669..64160d3 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -110,7 +110,10 @@ class EpisodicLifeEnv(gym.Wrapper):
             obs = self.env.reset(**kwargs)
         else:
             # no-op step to advance from terminal/lost life state
-            obs, _, _, _ = self.env.step(0)
+            obs, _, done, info = self.env.step(0)
+            if done or info.get("needs_reset", False):
+                # the no-op step has ended the game
+                obs = self.env.reset(**kwargs)
         self.lives = self.env.unwrapped.ale.lives()
         return obs
 
-- 
2.43.0


From b7e9a8b9ce730a5ffcdee99a660bc6e3ea49173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:19 +0000
Subject: [PATCH 15/33] fix: MaxAndSkipEnv returns current frames when it is
 asked to reset while skipping

---
 pfrl/wrappers/atari_wrappers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 64160d3..c7f5b45 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -132,10 +132,9 @@ class MaxAndSkipEnv(gym.Wrapper):
         done = None
         for i in range(self._skip):
             obs, reward, done, info = self.env.step(action)
-            if i == self._skip - 2:
-                self._obs_buffer[0] = obs
-            if i == self._skip - 1:
-                self._obs_buffer[1] = obs
+            # keep the last two frames, also when the loop is left early
+            self._obs_buffer[0] = self._obs_buffer[1] if i > 0 else obs
+            self._obs_buffer[1] = obs
             total_reward += reward
             if done or info.get("needs_reset", False):
                 break
-- 
2.43.0


From f2a7a0f6cca4c9641bee46f117f82070ec50f850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:19 +0000
Subject: [PATCH 16/33] fix: make_action_repeated stops when the environment
 asks for a reset

---
 pfrl/utils/env_modifiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/utils/env_modifiers.py b/pfrl/utils/env_modifiers.py
index a605b7b..3b3cd42 100644
--- a/pfrl/utils/env_modifiers.py
+++ b/pfrl/utils/env_modifiers.py
@@ -75,7 +75,7 @@ def make_action_repeated(env, n_times):
         for _ in range(n_times):
             obs, r, done, info = old_step(action)
             r_total += r
-            if done:
+            if done or info.get("needs_reset", False):
                 break
         return obs, r_total, done, info
 
-- 
2.43.0


From 31d322ca3030510b2c95ee2751c518edba7640c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:48 +0000
Subject: [PATCH 17/33] fix: TD3 updates n_times_update times

---
 pfrl/agents/td3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/agents/td3.py b/pfrl/agents/td3.py
index e70e7e9..9a35cb1 100644
--- a/pfrl/agents/td3.py
+++ b/pfrl/agents/td3.py
@@ -128,7 +128,7 @@ class TD3(AttributeSavingMixin, BatchAgent):
             replay_buffer=replay_buffer,
             update_func=self.update,
             batchsize=minibatch_size,
-            n_times_update=1,
+            n_times_update=n_times_update,
             replay_start_size=replay_start_size,
             update_interval=update_interval,
             episodic_update=False,
-- 
2.43.0


From 611b801b1e4e33245e77fd639e3bd7f58f3ebcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:48 +0000
Subject: [PATCH 18/33] fix: soft_copy_param copies entries that are not floats

---
 pfrl/utils/copy_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/utils/copy_param.py b/pfrl/utils/copy_param.py
index c6887a9..eb7e93f 100644
--- a/pfrl/utils/copy_param.py
+++ b/pfrl/utils/copy_param.py
@@ -19,7 +19,7 @@ def soft_copy_param(target_link, source_link, tau):
         else:
             # Scalar type
             # Some modules such as BN has scalar value `num_batches_tracked`
-            target_dict[k] = source_value
+            target_value.copy_(source_value)
 
 
 def copy_grad(target_link, source_link):
-- 
2.43.0


From 9ced810ec9abf2bbe880282f3f3140cad0d111ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:19 +0000
Subject: [PATCH 19/33] fix: DDPG bootstraps n-step transitions with the n-step
 discount

---
 pfrl/agents/ddpg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/agents/ddpg.py b/pfrl/agents/ddpg.py
index 9319f54..2513b17 100644
--- a/pfrl/agents/ddpg.py
+++ b/pfrl/agents/ddpg.py
@@ -153,13 +153,14 @@ class DDPG(AttributeSavingMixin, BatchAgent):
         batch_terminal = batch["is_state_terminal"]
         batch_state = batch["state"]
         batch_actions = batch["action"]
+        batch_discount = batch["discount"]
         batchsize = len(batch_rewards)
 
         with torch.no_grad():
             assert not self.recurrent
             next_actions = self.target_policy(batch_next_state).sample()
             next_q = self.target_q_function((batch_next_state, next_actions))
-            target_q = batch_rewards + self.gamma * (
+            target_q = batch_rewards + batch_discount * (
                 1.0 - batch_terminal
             ) * next_q.reshape((batchsize,))
 
-- 
2.43.0


From d9c39aff07a07823ad8248a5862105e170784860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:57 +0000
Subject: [PATCH 20/33] fix: TRPO uses the batch_states function it is given
 everywhere

---
 pfrl/agents/trpo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/trpo.py b/pfrl/agents/trpo.py
index 312185b..dd057a3 100644
--- a/pfrl/agents/trpo.py
+++ b/pfrl/agents/trpo.py
@@ -381,7 +381,7 @@ class TRPO(agent.AttributeSavingMixin, agent.BatchAgent):
 
     def _update_obs_normalizer(self, dataset):
         assert self.obs_normalizer
-        states = batch_states([b["state"] for b in dataset], self.device, self.phi)
+        states = self.batch_states([b["state"] for b in dataset], self.device, self.phi)
         self.obs_normalizer.experience(states)
 
     def _update_vf(self, dataset):
@@ -396,7 +396,9 @@ class TRPO(agent.AttributeSavingMixin, agent.BatchAgent):
         for batch in _yield_minibatches(
             dataset, minibatch_size=self.vf_batch_size, num_epochs=self.vf_epochs
         ):
-            states = batch_states([b["state"] for b in batch], self.device, self.phi)
+            states = self.batch_states(
+                [b["state"] for b in batch], self.device, self.phi
+            )
             if self.obs_normalizer:
                 states = self.obs_normalizer(states, update=False)
             vs_teacher = torch.as_tensor(
@@ -430,7 +432,7 @@ class TRPO(agent.AttributeSavingMixin, agent.BatchAgent):
         assert "adv" in dataset[0]
 
         # Use full-batch
-        states = batch_states([b["state"] for b in dataset], self.device, self.phi)
+        states = self.batch_states([b["state"] for b in dataset], self.device, self.phi)
         if self.obs_normalizer:
             states = self.obs_normalizer(states, update=False)
         actions = torch.as_tensor([b["action"] for b in dataset], device=self.device)
-- 
2.43.0


From 29a00ab1da03c4d2327ac587c432fe68cd5fabc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:57 +0000
Subject: [PATCH 21/33] fix: conjugate_gradient returns zero for a zero vector
 instead of NaN

---
 pfrl/utils/conjugate_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pfrl/utils/conjugate_gradient.py b/pfrl/utils/conjugate_gradient.py
index 6ea0049..e675965 100644
--- a/pfrl/utils/conjugate_gradient.py
+++ b/pfrl/utils/conjugate_gradient.py
@@ -20,6 +20,8 @@ def conjugate_gradient(A_product_func, b, tol=1e-10, max_iter=10):
     """
     x = torch.zeros_like(b)
     r0 = b - A_product_func(x)
+    if torch.norm(r0) < tol:
+        return x
     p = r0
     for _ in range(max_iter):
         a = torch.matmul(r0, r0) / torch.matmul(A_product_func(p), p)
-- 
2.43.0


From ffa37575baa52e57de5ed9e3ead5cc00df4c02ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:57 +0000
Subject: [PATCH 22/33] fix: recurrent PPO accepts data sets whose advantages
 are all equal

---
 pfrl/agents/ppo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/agents/ppo.py b/pfrl/agents/ppo.py
index 03b70c6..45e1b76 100644
--- a/pfrl/agents/ppo.py
+++ b/pfrl/agents/ppo.py
@@ -532,7 +532,7 @@ class PPO(agent.AttributeSavingMixin, agent.BatchAgent):
             self.n_updates += 1
 
     def _update_once_recurrent(self, episodes, mean_advs, std_advs):
-        assert std_advs is None or std_advs > 0
+        assert std_advs is None or std_advs >= 0
 
         device = self.device
 
-- 
2.43.0


From 8ae830b37ad5ce3cc80d2763ea81b05df12f0045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:52 +0000
Subject: [PATCH 23/33] fix: REINFORCE weights each action with the rewards
 from that action on

---
 pfrl/agents/reinforce.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/reinforce.py b/pfrl/agents/reinforce.py
index c34baeb..cfb3d70 100644
--- a/pfrl/agents/reinforce.py
+++ b/pfrl/agents/reinforce.py
@@ -140,7 +140,6 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
                 self.log_prob_sequences[-1] = []
                 self.entropy_sequences[-1] = []
             elif done:
-                self.reward_sequences[-1].append(reward)
                 if self.backward_separately:
                     self.accumulate_grad()
                     if self.n_backward == self.batchsize:
@@ -181,9 +180,9 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
         for r_seq, log_prob_seq, ent_seq in zip(
             self.reward_sequences, self.log_prob_sequences, self.entropy_sequences
         ):
-            assert len(r_seq) - 1 == len(log_prob_seq) == len(ent_seq)
+            assert len(r_seq) == len(log_prob_seq) == len(ent_seq)
             # Convert rewards into returns (=sum of future rewards)
-            R_seq = np.cumsum(list(reversed(r_seq[1:])))[::-1]
+            R_seq = np.cumsum(list(reversed(r_seq)))[::-1]
             for R, log_prob, entropy in zip(R_seq, log_prob_seq, ent_seq):
                 loss = -R * log_prob - self.beta * entropy
                 losses.append(loss)
-- 
2.43.0


From 51a315243efa37d768756bec232efc56d1b98407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:21 +0000
Subject: [PATCH 24/33] fix: EmpiricalNormalization: drop the cached inverse
 std when a state is loaded

---
 pfrl/nn/empirical_normalization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pfrl/nn/empirical_normalization.py b/pfrl/nn/empirical_normalization.py
index a49560e..92f1950 100644
--- a/pfrl/nn/empirical_normalization.py
+++ b/pfrl/nn/empirical_normalization.py
@@ -58,6 +58,11 @@ class EmpiricalNormalization(nn.Module):
 
         return self._cached_std_inverse
 
+    def _load_from_state_dict(self, *args, **kwargs):
+        super()._load_from_state_dict(*args, **kwargs)
+        # clear cache
+        self._cached_std_inverse = None
+
     def experience(self, x):
         """Learn input values without computing the output values of them"""
 
-- 
2.43.0


From e5f40de5e71d5b18b398aa54f741ed76ad08d4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:21 +0000
Subject: [PATCH 25/33] fix: ACER: save and load the average model used by the
 trust region

---
 pfrl/agents/acer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/agents/acer.py b/pfrl/agents/acer.py
index 5654ed6..19a7fcb 100644
--- a/pfrl/agents/acer.py
+++ b/pfrl/agents/acer.py
@@ -302,7 +302,7 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
     """
 
     process_idx = None
-    saved_attributes = ("model", "optimizer")
+    saved_attributes = ("model", "optimizer", "shared_average_model")
 
     def __init__(
         self,
-- 
2.43.0


From 2294a4dc50dc2f5ca68842d171db8981953beb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:21 +0000
Subject: [PATCH 26/33] fix: A2C: set up the rollout storage when training is
 resumed at a step offset

---
 pfrl/agents/a2c.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pfrl/agents/a2c.py b/pfrl/agents/a2c.py
index d0768f6..bc3844e 100644
--- a/pfrl/agents/a2c.py
+++ b/pfrl/agents/a2c.py
@@ -101,6 +101,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
 
         self.t = 0
         self.t_start = 0
+        self.states = None
 
         # Stats
         self.average_actor_loss = 0
@@ -227,11 +228,12 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
 
         statevar = self.batch_states(batch_obs, self.device, self.phi)
 
-        if self.t == 0:
+        if self.t == 0 or self.states is None:
             with torch.no_grad():
                 pout, _ = self.model(statevar)
                 action = pout.sample()
             self._flush_storage(statevar.shape, action)
+            self.t_start = self.t
 
         self.states[self.t - self.t_start] = statevar
 
-- 
2.43.0


From babddb0070308944d8ed76641a8b85d0d8e9c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:17 +0000
Subject: [PATCH 27/33] fix: LinearDecayEpsilonGreedy with decay_steps=0 failed
 at step 0

---
 pfrl/explorers/epsilon_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/explorers/epsilon_greedy.py b/pfrl/explorers/epsilon_greedy.py
index c034d6a..6d82c50 100644
--- a/pfrl/explorers/epsilon_greedy.py
+++ b/pfrl/explorers/epsilon_greedy.py
@@ -69,7 +69,7 @@ class LinearDecayEpsilonGreedy(explorer.Explorer):
         self.epsilon = start_epsilon
 
     def compute_epsilon(self, t):
-        if t > self.decay_steps:
+        if t >= self.decay_steps:
             return self.end_epsilon
         else:
             epsilon_diff = self.end_epsilon - self.start_epsilon
-- 
2.43.0


From 8e44452c20140eb439abd5554fdb9000992a1c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:12 +0000
Subject: [PATCH 28/33] fix: actor-learner training: update priorities while
 holding the replay buffer's lock

The poller could append to (and evict from) a prioritized replay buffer
while the learner was writing priorities to it.
---
 pfrl/agents/dqn.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pfrl/agents/dqn.py b/pfrl/agents/dqn.py
index a05ea5a..0f80368 100644
--- a/pfrl/agents/dqn.py
+++ b/pfrl/agents/dqn.py
@@ -1,4 +1,5 @@
 import collections
+import contextlib
 import copy
 import ctypes
 import multiprocessing as mp
@@ -214,6 +215,8 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
             self.device = torch.device("cpu")
 
         self.replay_buffer = replay_buffer
+        # Replaced by a real lock when the buffer is shared with other threads
+        self._replay_buffer_lock: Any = contextlib.nullcontext()
         self.optimizer = optimizer
         self.gamma = gamma
         self.explorer = explorer
@@ -353,7 +356,8 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         loss = self._compute_loss(exp_batch, errors_out=errors_out)
         if has_weight:
             assert isinstance(self.replay_buffer, PrioritizedReplayBuffer)
-            self.replay_buffer.update_errors(errors_out)
+            with self._replay_buffer_lock:
+                self.replay_buffer.update_errors(errors_out)
 
         self.loss_record.append(float(loss.detach().cpu().numpy()))
 
@@ -755,6 +759,7 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
             )
 
         replay_buffer_lock = mp.Lock()
+        self._replay_buffer_lock = replay_buffer_lock
 
         poller_stop_event = mp.Event()
         poller = pfrl.utils.StoppableThread(
-- 
2.43.0


From 705345197ee365389c9191d2ab25a7ba82c5a946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:19 +0000
Subject: [PATCH 29/33] fix: actor-learner training: keep answering actors
 after an exception

When the learner (or the poller) failed, the poller stopped, and an actor
waiting for the reply to a request, such as saving the agent before the
training is given up, waited forever.
---
 pfrl/agents/dqn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pfrl/agents/dqn.py b/pfrl/agents/dqn.py
index 0f80368..660bffb 100644
--- a/pfrl/agents/dqn.py
+++ b/pfrl/agents/dqn.py
@@ -615,7 +615,7 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         if pipe.closed:
             return
         try:
-            while pipe.poll() and not exception_event.is_set():
+            while pipe.poll():
                 cmd, data = pipe.recv()
                 if cmd == "get_statistics":
                     assert data is None
@@ -724,7 +724,7 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         exception_event: mp.synchronize.Event,
     ) -> None:
         # To stop this loop, call stop_event.set()
-        while not stop_event.is_set() and not exception_event.is_set():
+        while not stop_event.is_set():
             time.sleep(1e-6)
             # Poll actors for messages
             for i, pipe in enumerate(pipes):
-- 
2.43.0


From dfcd3221be1d960bcec0314c89262329a412cd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:55 +0000
Subject: [PATCH 30/33] fix: actor-learner training: report failed requests to
 the actor

An actor whose request failed in the poller, e.g. to load from a missing
directory, waited forever for the reply.
---
 pfrl/agents/dqn.py                    | 21 +++++++++++++--------
 pfrl/agents/state_q_function_actor.py | 14 ++++++++++----
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/pfrl/agents/dqn.py b/pfrl/agents/dqn.py
index 660bffb..5cbc1c4 100644
--- a/pfrl/agents/dqn.py
+++ b/pfrl/agents/dqn.py
@@ -614,20 +614,21 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
     ) -> None:
         if pipe.closed:
             return
+        waiting = False
         try:
             while pipe.poll():
                 cmd, data = pipe.recv()
+                # True iff the actor is waiting for a reply
+                waiting = cmd != "transition"
+                reply = None
                 if cmd == "get_statistics":
                     assert data is None
                     with replay_buffer_lock:
-                        stats = self.get_statistics()
-                    pipe.send(stats)
+                        reply = self.get_statistics()
                 elif cmd == "load":
                     self.load(data)
-                    pipe.send(None)
                 elif cmd == "save":
                     self.save(data)
-                    pipe.send(None)
                 elif cmd == "transition":
                     with replay_buffer_lock:
                         if "env_id" not in data:
@@ -638,16 +639,20 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
                     idx = actor_idx if data is None else data
                     with replay_buffer_lock:
                         self.replay_buffer.stop_current_episode(env_id=idx)
-                        stats = self.get_statistics()
-                    pipe.send(stats)
-
+                        reply = self.get_statistics()
                 else:
                     raise RuntimeError("Unknown command from actor: {}".format(cmd))
+                if waiting:
+                    waiting = False
+                    pipe.send(reply)
         except EOFError:
             pipe.close()
-        except Exception:
+        except Exception as e:
             self.logger.exception("Poller loop failed. Exiting")
             exception_event.set()
+            if waiting:
+                # The request failed
+                pipe.send(RuntimeError(repr(e)))
 
     def _learner_loop(
         self,
diff --git a/pfrl/agents/state_q_function_actor.py b/pfrl/agents/state_q_function_actor.py
index b9d149b..5d6b74a 100644
--- a/pfrl/agents/state_q_function_actor.py
+++ b/pfrl/agents/state_q_function_actor.py
@@ -73,7 +73,13 @@ class StateQFunctionActor(agent.AsyncAgent):
         self.pipe.send(("transition", transition))
         if stop_episode:
             self.pipe.send(("stop_episode", None))
-            return self.pipe.recv()
+            return self._receive_from_learner()
+
+    def _receive_from_learner(self):
+        reply = self.pipe.recv()
+        if isinstance(reply, Exception):
+            raise reply
+        return reply
 
     def act(self, obs):
         with torch.no_grad(), evaluating(self.model):
@@ -122,12 +128,12 @@ class StateQFunctionActor(agent.AsyncAgent):
 
     def save(self, dirname):
         self.pipe.send(("save", dirname))
-        self.pipe.recv()
+        self._receive_from_learner()
 
     def load(self, dirname):
         self.pipe.send(("load", dirname))
-        self.pipe.recv()
+        self._receive_from_learner()
 
     def get_statistics(self):
         self.pipe.send(("get_statistics", None))
-        return self.pipe.recv()
+        return self._receive_from_learner()
-- 
2.43.0


From 972037e5dd8cd39ca592039da3c28955f13946f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:55 +0000
Subject: [PATCH 31/33] fix: actor-learner training: check the number of
 episodes while holding the lock

The poller could discard old episodes between the learner's check and its
sampling, which failed the learner.
---
 pfrl/agents/dqn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfrl/agents/dqn.py b/pfrl/agents/dqn.py
index 5cbc1c4..6d6a5a5 100644
--- a/pfrl/agents/dqn.py
+++ b/pfrl/agents/dqn.py
@@ -681,6 +681,9 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
                 if self.recurrent:
                     assert isinstance(self.replay_buffer, AbstractEpisodicReplayBuffer)
                     with replay_buffer_lock:
+                        if not self._can_start_replay():
+                            # Old episodes have been discarded in the meantime
+                            continue
                         episodes = self.replay_buffer.sample_episodes(
                             self.minibatch_size, self.episodic_update_len
                         )
-- 
2.43.0


From c0bac7d06748f8f503b87b3d97520a8dd57e704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:45 +0000
Subject: [PATCH 32/33] fix: prepare_output_dir: derive the experiment id from
 the given command line

With argv given, experiments with different command lines shared a directory,
because the id was always derived from sys.argv (as of import time).
---
 pfrl/experiments/prepare_output_dir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/experiments/prepare_output_dir.py b/pfrl/experiments/prepare_output_dir.py
index 0c2387a..127f6f4 100644
--- a/pfrl/experiments/prepare_output_dir.py
+++ b/pfrl/experiments/prepare_output_dir.py
@@ -115,7 +115,7 @@ def prepare_output_dir(
 
     if exp_id is None:
         if is_under_git_control():
-            exp_id = generate_exp_id()
+            exp_id = generate_exp_id(argv=sys.argv if argv is None else argv)
         else:
             exp_id = timestamp
 
-- 
2.43.0


From 94882f6eb32fa6cdcb213889094fd7556df22f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:12 +0000
Subject: [PATCH 33/33] fix: SingleModelStateActionQFunction could not be
 constructed

---
 pfrl/q_functions/state_action_q_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/q_functions/state_action_q_functions.py b/pfrl/q_functions/state_action_q_functions.py
index be540f1..36a102e 100644
--- a/pfrl/q_functions/state_action_q_functions.py
+++ b/pfrl/q_functions/state_action_q_functions.py
@@ -17,7 +17,8 @@ class SingleModelStateActionQFunction(nn.Module, StateActionQFunction):
     """
 
     def __init__(self, model):
-        super().__init__(model=model)
+        super().__init__()
+        self.model = model
 
     def forward(self, x, a):
         h = self.model(x, a)
-- 
2.43.0

