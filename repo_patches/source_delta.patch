From 0ba68ab11db0398e72beb0cb7e8db4182c5033b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:49 +0000
Subject: [PATCH 001/117] fix: sample a single id-list transition from the
 replay buffer

---
 reagent/replay_memory/circular_replay_buffer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index ce5fabd..9c92b34 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -723,7 +723,11 @@ class ReplayBuffer(object):
         stack_indices = indices.unsqueeze(1) + torch.arange(-self._stack_size + 1, 1)
         # pyre-fixme[16]: `Tensor` has no attribute `__imod__`.
         stack_indices %= self._replay_capacity
-        retval = self._store[key][stack_indices]
+        store = self._store[key]
+        if isinstance(store, np.ndarray):
+            # numpy would treat a single-element torch.Tensor as a scalar index
+            stack_indices = stack_indices.numpy()
+        retval = store[stack_indices]
         return self._key_to_replay_elem[key].metadata.sample_to_output(retval)
 
     def _get_steps(self, multistep_indices: torch.Tensor) -> torch.Tensor:
-- 
2.43.0


From ea92629b87d61ff62d12e926183573a6b446cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 002/117] fix: prioritized replay never returns an invalid
 index when retries run out

---
 reagent/replay_memory/prioritized_replay_buffer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index 62c8a39..79f8edd 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -96,19 +96,19 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
         allowed_attempts = self._max_sample_attempts
         for i in range(len(indices)):
             if not self.is_valid_transition(indices[i]):
-                if allowed_attempts == 0:
-                    raise RuntimeError(
-                        "Max sample attempts: Tried {} times but only sampled {}"
-                        " valid indices. Batch size is {}".format(
-                            self._max_sample_attempts, i, batch_size
-                        )
-                    )
                 index = indices[i]
                 while not self.is_valid_transition(index) and allowed_attempts > 0:
                     # If index i is not valid keep sampling others. Note that this
                     # is not stratified.
                     index = self.sum_tree.sample()
                     allowed_attempts -= 1
+                if not self.is_valid_transition(index):
+                    raise RuntimeError(
+                        "Max sample attempts: Tried {} times but only sampled {}"
+                        " valid indices. Batch size is {}".format(
+                            self._max_sample_attempts, i, batch_size
+                        )
+                    )
                 indices[i] = index
         return torch.tensor(indices, dtype=torch.int64)
 
-- 
2.43.0


From d642644cb0ffdb563ffaa6b4b51f76ec61bb7c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:47 +0000
Subject: [PATCH 003/117] fix: prioritized replay accepts the default batch
 size

---
 reagent/replay_memory/prioritized_replay_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index 79f8edd..8d7ca52 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -137,7 +137,7 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
             if element_name == "sampling_probabilities":
                 batch = torch.from_numpy(
                     self.get_priority(transition.indices.numpy().astype(np.int32))
-                ).view(batch_size, 1)
+                ).view(-1, 1)
             else:
                 batch = getattr(transition, element_name)
             batch_arrays.append(batch)
-- 
2.43.0


From dd58758415a782cec9ead7121c04dcf249ba63c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:43 +0000
Subject: [PATCH 004/117] fix: checkpoint which replay transitions are valid,
 and load all or nothing

---
 .../replay_memory/circular_replay_buffer.py   | 83 ++++++++++++++-----
 1 file changed, 62 insertions(+), 21 deletions(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index 9c92b34..f2cd11b 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -272,6 +272,16 @@ STORE_FILENAME_PREFIX = "$store$_"
 # This constant determines how many iterations a checkpoint is kept for.
 CHECKPOINT_DURATION = 4
 
+# Private members that are checkpointed too: what the stored data looks like, and
+# which of it can be sampled.
+CHECKPOINTED_PRIVATE_MEMBERS = [
+    "_storage_types",
+    "_extra_keys",
+    "_is_index_valid",
+    "_num_valid_indices",
+    "_num_transitions_in_current_episode",
+]
+
 REQUIRED_KEYS = ["observation", "action", "reward", "terminal"]
 
 
@@ -370,6 +380,9 @@ class ReplayBuffer(object):
         self._storage_types: List[ReplayElement] = [
             make_replay_element(k, kwargs[k]) for k in REQUIRED_KEYS + self._extra_keys
         ]
+        self._initialize_from_storage_types()
+
+    def _initialize_from_storage_types(self):
         self._key_to_replay_elem = {
             elem.name: elem for elem in self.get_storage_signature()
         }
@@ -773,14 +786,18 @@ class ReplayBuffer(object):
         """Return the dict of elements of the class for checkpointing.
         Returns:
           checkpointable_elements: dict containing all non private (starting with
-          _) members + all the arrays inside self._store.
+          _) members + CHECKPOINTED_PRIVATE_MEMBERS + all the arrays inside
+          self._store.
         """
         checkpointable_elements = {}
         for member_name, member in self.__dict__.items():
             if member_name == "_store":
                 for array_name, array in self._store.items():
                     checkpointable_elements[STORE_FILENAME_PREFIX + array_name] = array
-            elif not member_name.startswith("_"):
+            elif (
+                not member_name.startswith("_")
+                or member_name in CHECKPOINTED_PRIVATE_MEMBERS
+            ):
                 checkpointable_elements[member_name] = member
         return checkpointable_elements
 
@@ -808,10 +825,12 @@ class ReplayBuffer(object):
                     # STORE_FILENAME_PREFIX indicates that the variable is contained in
                     # self._store.
                     if attr.startswith(STORE_FILENAME_PREFIX):
-                        array_name = attr[len(STORE_FILENAME_PREFIX) :]
-                        np.save(
-                            outfile, self._store[array_name].numpy(), allow_pickle=False
-                        )
+                        array = checkpointable_elements[attr]
+                        if isinstance(array, np.ndarray):
+                            # arrays of objects (e.g., ID lists) have to be pickled
+                            pickle.dump(array, outfile)
+                        else:
+                            np.save(outfile, array.numpy(), allow_pickle=False)
                     # Some numpy arrays might not be part of storage
                     elif isinstance(self.__dict__[attr], np.ndarray):
                         np.save(outfile, self.__dict__[attr], allow_pickle=False)
@@ -840,25 +859,47 @@ class ReplayBuffer(object):
           NotFoundError: If not all expected files are found in directory.
         """
         # TODO: Load tensors from torch files.
+        if not self._initialized_buffer:
+            # The layout of the stored data is only known from the first transition,
+            # so it has to come from the checkpoint.
+            layout = {
+                attr: self._load_element(checkpoint_dir, attr, suffix)
+                for attr in ["_storage_types", "_extra_keys"]
+            }
+            if layout["_storage_types"]:
+                self.__dict__.update(layout)
+                self._initialize_from_storage_types()
         save_elements = self._return_checkpointable_elements()
-        # We will first make sure we have all the necessary files available to avoid
-        # loading a partially-specified (i.e. corrupted) replay buffer.
+        # We will first make sure we have all the necessary files available and
+        # readable, to avoid loading a partially-specified (i.e. corrupted) replay
+        # buffer.
         for attr in save_elements:
             filename = self._generate_filename(checkpoint_dir, attr, suffix)
             if not os.path.exists(filename):
                 raise FileNotFoundError(None, None, "Missing file: {}".format(filename))
+        loaded = {
+            attr: self._load_element(checkpoint_dir, attr, suffix)
+            for attr in save_elements
+        }
         # If we've reached this point then we have verified that all expected files
         # are available.
-        for attr in save_elements:
-            filename = self._generate_filename(checkpoint_dir, attr, suffix)
-            with open(filename, "rb") as f:
-                with gzip.GzipFile(fileobj=f) as infile:
-                    if attr.startswith(STORE_FILENAME_PREFIX):
-                        array_name = attr[len(STORE_FILENAME_PREFIX) :]
-                        self._store[array_name] = torch.from_numpy(
-                            np.load(infile, allow_pickle=False)
-                        )
-                    elif isinstance(self.__dict__[attr], np.ndarray):
-                        self.__dict__[attr] = np.load(infile, allow_pickle=False)
-                    else:
-                        self.__dict__[attr] = pickle.load(infile)
+        for attr, value in loaded.items():
+            if attr.startswith(STORE_FILENAME_PREFIX):
+                self._store[attr[len(STORE_FILENAME_PREFIX) :]] = value
+            else:
+                self.__dict__[attr] = value
+
+    def _load_element(self, checkpoint_dir, attr, suffix):
+        """ Read back one checkpointed element """
+        filename = self._generate_filename(checkpoint_dir, attr, suffix)
+        with open(filename, "rb") as f:
+            with gzip.GzipFile(fileobj=f) as infile:
+                if attr.startswith(STORE_FILENAME_PREFIX):
+                    array_name = attr[len(STORE_FILENAME_PREFIX) :]
+                    if isinstance(self._store[array_name], np.ndarray):
+                        return pickle.load(infile)
+                    return torch.from_numpy(np.load(infile, allow_pickle=False))
+                elif isinstance(self.__dict__[attr], np.ndarray):
+                    return np.load(infile, allow_pickle=False)
+                else:
+                    return pickle.load(infile)
-- 
2.43.0


From 70c72ff99e158edceff44e5149076547b7a9c49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 005/117] fix: store the priority of prioritized replay
 transitions

---
 reagent/replay_memory/prioritized_replay_buffer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index 8d7ca52..8373f51 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -73,10 +73,9 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
         for element in self.get_add_args_signature():
             if element.name == "priority":
                 priority = kwargs[element.name]
-            else:
-                transition[element.name] = element.metadata.input_to_storage(
-                    kwargs[element.name]
-                )
+            transition[element.name] = element.metadata.input_to_storage(
+                kwargs[element.name]
+            )
 
         self.sum_tree.set(self.cursor(), priority)
         super(PrioritizedReplayBuffer, self)._add_transition(transition)
-- 
2.43.0


From 69dfe6314d4c4e2773ce569ef6b767ed63ba6cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:18 +0000
Subject: [PATCH 006/117] fix: build and apply the CLIP_LOG preprocessing

---
 reagent/preprocessing/preprocessor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reagent/preprocessing/preprocessor.py b/reagent/preprocessing/preprocessor.py
index f8d3b4f..31d0e62 100644
--- a/reagent/preprocessing/preprocessor.py
+++ b/reagent/preprocessing/preprocessor.py
@@ -214,6 +214,11 @@ class Preprocessor(Module):
         # ONNX doesn't support != yet
         return self.one_tensor - (input == self.zero_tensor).float()
 
+    def _create_parameters_CLIP_LOG(
+        self, begin_index: int, norm_params: List[NormalizationParameters]
+    ):
+        pass
+
     def _preprocess_CLIP_LOG(
         self,
         begin_index: int,
@@ -578,7 +583,7 @@ class Preprocessor(Module):
         feature_type = norm_params[0].feature_type
         min_value, max_value = batch.min(), batch.max()
 
-        if feature_type in ("BOXCOX", "CONTINUOUS", "DO_NOT_PREPROCESS"):
+        if feature_type in ("BOXCOX", "CONTINUOUS", "DO_NOT_PREPROCESS", "CLIP_LOG"):
             # Continuous features may be in range (-inf, inf)
             pass
         elif max_value.item() > MAX_FEATURE_VALUE:
-- 
2.43.0


From 32036025d476ea66a41707ce7c40af60acfe8560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:46 +0000
Subject: [PATCH 007/117] fix: identified statistics are those of the raw data
 when box-cox is skipped

---
 reagent/preprocessing/normalization.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reagent/preprocessing/normalization.py b/reagent/preprocessing/normalization.py
index cb1c07c..8ae5c1e 100644
--- a/reagent/preprocessing/normalization.py
+++ b/reagent/preprocessing/normalization.py
@@ -93,7 +93,7 @@ def identify_parameter(
                 k2_original, p_original, k2_boxcox, p_boxcox
             )
         )
-        if lambda_ < 0.9 or lambda_ > 1.1:
+        if (lambda_ < 0.9 or lambda_ > 1.1) and not skip_box_cox:
             # Lambda is far enough from 1.0 to be worth doing boxcox
             if k2_original > k2_boxcox * 10 and k2_boxcox <= quantile_k2_threshold:
                 # The boxcox output is significantly more normally distributed
@@ -109,9 +109,8 @@ def identify_parameter(
                 ):
                     values = candidate_values
                     boxcox_lambda = float(lambda_)
-        if boxcox_lambda is None or skip_box_cox:
+        if boxcox_lambda is None:
             boxcox_shift = None
-            boxcox_lambda = None
         if boxcox_lambda is not None:
             feature_type = identify_types.BOXCOX
         if (
-- 
2.43.0


From 1acf147fb08e9c77180e27385022ac6c430b009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 008/117] fix: BCQ masking does not modify the batch and works
 with SARSA

---
 reagent/training/dqn_trainer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/reagent/training/dqn_trainer.py b/reagent/training/dqn_trainer.py
index 8af4eda..03aef68 100644
--- a/reagent/training/dqn_trainer.py
+++ b/reagent/training/dqn_trainer.py
@@ -175,7 +175,9 @@ class DQNTrainer(DQNTrainerBaseLightning):
                     training_batch.next_state,
                     self.bcq_drop_threshold,
                 )
-                possible_next_actions_mask *= action_on_policy
+                possible_next_actions_mask = (
+                    possible_next_actions_mask * action_on_policy
+                )
             next_q_values, max_q_action_idxs = self.get_max_q_values_with_target(
                 all_next_q_values,
                 all_next_q_values_target,
@@ -222,11 +224,11 @@ class DQNTrainer(DQNTrainerBaseLightning):
         if self.maxq_learning:
             possible_actions_mask = training_batch.possible_actions_mask
 
-        if self.bcq:
-            action_on_policy = get_valid_actions_from_imitator(
-                self.bcq_imitator, training_batch.state, self.bcq_drop_threshold
-            )
-            possible_actions_mask *= action_on_policy
+            if self.bcq:
+                action_on_policy = get_valid_actions_from_imitator(
+                    self.bcq_imitator, training_batch.state, self.bcq_drop_threshold
+                )
+                possible_actions_mask = possible_actions_mask * action_on_policy
 
         # Do we ever use model_action_idxs computed below?
         model_action_idxs = self.get_max_q_values(
-- 
2.43.0


From 4a6aca952145dceb7df94b1a396a8d9563038a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 009/117] fix: SlateQTrainer does not overwrite the batch's
 next actions

---
 reagent/training/slate_q_trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/slate_q_trainer.py b/reagent/training/slate_q_trainer.py
index 815278f..53be5bf 100644
--- a/reagent/training/slate_q_trainer.py
+++ b/reagent/training/slate_q_trainer.py
@@ -78,7 +78,7 @@ class SlateQTrainer(RLTrainerMixin, ReAgentLightningModule):
             assert terminal_mask.shape == (
                 action.shape[0],
             ), f"{terminal_mask.shape} != 0th dim of {action.shape}"
-            action[terminal_mask] = torch.zeros_like(action[terminal_mask])
+            action = action.masked_fill(terminal_mask.unsqueeze(1), 0)
         docs = state.candidate_docs
         assert docs is not None
         return docs.select_slate(action)
-- 
2.43.0


From 399e50aa442f5620c9347c55a57346af25b16b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 010/117] fix: C51 learns terminal rewards in SARSA mode

---
 reagent/training/c51_trainer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/training/c51_trainer.py b/reagent/training/c51_trainer.py
index 0305b2e..f16cd1e 100644
--- a/reagent/training/c51_trainer.py
+++ b/reagent/training/c51_trainer.py
@@ -122,7 +122,10 @@ class C51Trainer(RLTrainerMixin, ReAgentLightningModule):
             )
             next_dist = next_dist[range(rewards.shape[0]), next_action.reshape(-1)]
         else:
-            next_dist = (next_dist * training_batch.next_action.unsqueeze(-1)).sum(1)
+            # next_action is all-zero on terminal transitions; their next distribution
+            # is irrelevant but it must still sum to one so that the reward is learned
+            next_action = training_batch.next_action.argmax(1)
+            next_dist = next_dist[range(rewards.shape[0]), next_action]
 
         # Build target distribution
         target_Q = rewards + discount_tensor * not_terminal * self.support
-- 
2.43.0


From 154c899b6495da81738fb3b152f86c67499147d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 011/117] fix: C51 projection stays inside the support despite
 rounding

---
 reagent/training/c51_trainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reagent/training/c51_trainer.py b/reagent/training/c51_trainer.py
index f16cd1e..f78359c 100644
--- a/reagent/training/c51_trainer.py
+++ b/reagent/training/c51_trainer.py
@@ -133,6 +133,8 @@ class C51Trainer(RLTrainerMixin, ReAgentLightningModule):
 
         # rescale to indicies [0, 1, ..., N-1]
         b = (target_Q - self.qmin) / self.scale_support
+        # rounding may push the top of the support slightly beyond index N-1
+        b = b.clamp(0, self.num_atoms - 1)
         lo = b.floor().to(torch.int64)
         up = b.ceil().to(torch.int64)
 
-- 
2.43.0


From d6d6ef4f02eb76c45d1d88daffc670c99bef521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 012/117] fix: QR-DQN optimizers follow the order of its losses

---
 reagent/training/qrdqn_trainer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reagent/training/qrdqn_trainer.py b/reagent/training/qrdqn_trainer.py
index 99b38d3..caf5b7b 100644
--- a/reagent/training/qrdqn_trainer.py
+++ b/reagent/training/qrdqn_trainer.py
@@ -98,13 +98,13 @@ class QRDQNTrainer(DQNTrainerBaseLightning):
             source_params += list(self.q_network_cpe.parameters())
             # source_params += list(self.reward_network.parameters())
             optimizers.append(
-                self.q_network_cpe_optimizer.make_optimizer(
-                    self.q_network_cpe.parameters()
+                self.reward_network_optimizer.make_optimizer(
+                    self.reward_network.parameters()
                 )
             )
             optimizers.append(
-                self.reward_network_optimizer.make_optimizer(
-                    self.reward_network.parameters()
+                self.q_network_cpe_optimizer.make_optimizer(
+                    self.q_network_cpe.parameters()
                 )
             )
 
-- 
2.43.0


From 7065774f5773688c8793aa4e3e1c413674e70c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 013/117] fix: delayed CRR updates keep the CPE losses with
 their optimizers

---
 reagent/training/discrete_crr_trainer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/reagent/training/discrete_crr_trainer.py b/reagent/training/discrete_crr_trainer.py
index 26a4dab..ba95b2c 100644
--- a/reagent/training/discrete_crr_trainer.py
+++ b/reagent/training/discrete_crr_trainer.py
@@ -242,7 +242,8 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
         all_action_scores = all_q_values.detach()
 
         # Only update actor and target networks after a fixed number of Q updates
-        if batch_idx % self.delayed_policy_update == 0:
+        update_policy = batch_idx % self.delayed_policy_update == 0
+        if update_policy:
             # Note: action_dim (the length of each row of the actor_action
             # matrix obtained below) is assumed to be > 1.
             actor_actions = self.actor_network(state).action
@@ -280,8 +281,7 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
                 )
             yield actor_loss
         else:
-            # Yielding None prevents the actor and target networks from updating
-            yield None
+            # Yielding None prevents the actor network from updating
             yield None
 
         discount_tensor = torch.full_like(rewards, self.gamma)
@@ -317,5 +317,6 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
         # Use the soft update rule to update the target networks.
         # Note: this yield has to be the last one, since SoftUpdate is the last
         # optimizer added in the configure_optimizers() function.
-        result = self.soft_update_result()
+        # Yielding None prevents the target networks from updating.
+        result = self.soft_update_result() if update_policy else None
         yield result
-- 
2.43.0


From 9ff71182f90eec5c39a58adef23c1a93b56befea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:34 +0000
Subject: [PATCH 014/117] fix: SAC's log temperature is single precision

---
 reagent/training/sac_trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/sac_trainer.py b/reagent/training/sac_trainer.py
index d3ff892..31b43a9 100644
--- a/reagent/training/sac_trainer.py
+++ b/reagent/training/sac_trainer.py
@@ -122,7 +122,7 @@ class SACTrainer(RLTrainerMixin, ReAgentLightningModule):
         if alpha_optimizer is not None:
             self.target_entropy = target_entropy
             self.log_alpha = torch.nn.Parameter(
-                torch.tensor([np.log(self.entropy_temperature)])
+                torch.tensor([float(np.log(self.entropy_temperature))])
             )
 
         self.logged_action_uniform_prior = logged_action_uniform_prior
-- 
2.43.0


From 2fe78bee2cff591727d87aa7355289607a37cbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 015/117] fix: whiten leaves its input alone and handles
 returns without spread

---
 reagent/training/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/reagent/training/utils.py b/reagent/training/utils.py
index 62563c9..5f2b720 100644
--- a/reagent/training/utils.py
+++ b/reagent/training/utils.py
@@ -29,10 +29,12 @@ def rescale_actions(
 
 
 def whiten(x: torch.Tensor, subtract_mean: bool) -> torch.Tensor:
-    numer = x
-    if subtract_mean:
-        numer -= x.mean()
-    return numer / (x.std() + EPS)
+    numer = x - x.mean() if subtract_mean else x
+    std = x.std(unbiased=x.numel() > 1)
+    # identical values (or a single one) differ by rounding only: nothing to scale
+    if std <= 10 * torch.finfo(x.dtype).eps * x.abs().max():
+        return numer
+    return numer / (std + EPS)
 
 
 def discounted_returns(rewards: torch.Tensor, gamma: float = 0) -> torch.Tensor:
-- 
2.43.0


From e0797c9c31dd0dd236d4eccd8e40d6689a919292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 016/117] fix: skip the soft update when the trainer skips it

---
 reagent/optimizer/soft_update.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reagent/optimizer/soft_update.py b/reagent/optimizer/soft_update.py
index e6819c6..5294fc4 100644
--- a/reagent/optimizer/soft_update.py
+++ b/reagent/optimizer/soft_update.py
@@ -46,6 +46,9 @@ class SoftUpdate(torch.optim.Optimizer):
         if closure is not None:
             with torch.enable_grad():
                 loss = closure()
+            if loss is None:
+                # The trainer skips this update, e.g., delayed target update
+                return None
 
         for group in self.param_groups:
             params = group["params"]
-- 
2.43.0


From 97ca21154f176097bea057b1648be6b299def8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:57 +0000
Subject: [PATCH 017/117] fix: REINFORCE and PPO can save and load their state

---
 reagent/training/ppo_trainer.py | 5 ++++-
 reagent/training/reinforce.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/reagent/training/ppo_trainer.py b/reagent/training/ppo_trainer.py
index 67a80cb..99ace7b 100644
--- a/reagent/training/ppo_trainer.py
+++ b/reagent/training/ppo_trainer.py
@@ -176,4 +176,7 @@ class PPOTrainer(Trainer):
         """
         The trainer should specify what members to save and load
         """
-        return ["scorer", "policy"]
+        components = ["scorer"]
+        if self.value_net is not None:
+            components.append("value_net")
+        return components
diff --git a/reagent/training/reinforce.py b/reagent/training/reinforce.py
index 3ba0ae2..632ebf6 100644
--- a/reagent/training/reinforce.py
+++ b/reagent/training/reinforce.py
@@ -117,4 +117,7 @@ class Reinforce(Trainer):
         """
         The trainer should specify what members to save and load
         """
-        return ["scorer", "actor"]
+        components = ["scorer"]
+        if self.value_net is not None:
+            components.append("value_net")
+        return components
-- 
2.43.0


From 5dd47863bf6eeb917a651ac3311dcfa57b5df277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 018/117] fix: summary_writer finds the module's TensorBoard
 logger

---
 reagent/training/reagent_lightning_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/training/reagent_lightning_module.py b/reagent/training/reagent_lightning_module.py
index cf6b4df..caf76d0 100644
--- a/reagent/training/reagent_lightning_module.py
+++ b/reagent/training/reagent_lightning_module.py
@@ -86,8 +86,8 @@ class ReAgentLightningModule(pl.LightningModule):
                 if isinstance(logger, pl.loggers.tensorboard.TensorBoardLogger):
                     self._summary_writer = logger.experiment
                     break
-        elif isinstance(logger, pl.loggers.tensorboard.TensorBoardLogger):
-            self._summary_writer = logger.experiment
+        elif isinstance(self.logger, pl.loggers.tensorboard.TensorBoardLogger):
+            self._summary_writer = self.logger.experiment
 
         return self._summary_writer
 
-- 
2.43.0


From 95015b57dda67fa2d8c47273d671c9bd0547e34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 019/117] fix: training_step works for modules with a single
 optimizer

---
 reagent/training/reagent_lightning_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/reagent_lightning_module.py b/reagent/training/reagent_lightning_module.py
index caf76d0..660b625 100644
--- a/reagent/training/reagent_lightning_module.py
+++ b/reagent/training/reagent_lightning_module.py
@@ -93,7 +93,7 @@ class ReAgentLightningModule(pl.LightningModule):
 
     # pyre-fixme[14]: `training_step` overrides method defined in `LightningModule`
     #  inconsistently.
-    def training_step(self, batch, batch_idx: int, optimizer_idx: int):
+    def training_step(self, batch, batch_idx: int, optimizer_idx: int = 0):
         if self._training_step_generator is None:
             if self._training_batch_type and isinstance(batch, dict):
                 batch = self._training_batch_type.from_dict(batch)
-- 
2.43.0


From 94d118ca55f966ca4596509c4667bbf86e8a1555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 020/117] fix: SAC resumes with the learned temperature

---
 reagent/training/sac_trainer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reagent/training/sac_trainer.py b/reagent/training/sac_trainer.py
index 31b43a9..1de9108 100644
--- a/reagent/training/sac_trainer.py
+++ b/reagent/training/sac_trainer.py
@@ -192,6 +192,9 @@ class SACTrainer(RLTrainerMixin, ReAgentLightningModule):
         reward = training_batch.reward
         discount = torch.full_like(reward, self.gamma)
         not_done_mask = training_batch.not_terminal
+        if self.alpha_optimizer is not None:
+            # log_alpha may have been restored from a checkpoint
+            self.entropy_temperature = self.log_alpha.exp().detach()
 
         #
         # First, optimize Q networks; minimizing MSE between
-- 
2.43.0


From 18de53bcace12aa280275985be401812257f2059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 021/117] fix: Keep the batch and slate dimensions of encoder
 scores

---
 reagent/models/seq2slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/seq2slate.py b/reagent/models/seq2slate.py
index 7aea7a5..462e076 100644
--- a/reagent/models/seq2slate.py
+++ b/reagent/models/seq2slate.py
@@ -709,7 +709,7 @@ class Seq2SlateTransformerModel(nn.Module):
         # slate_encoder_output shape: batch_size, tgt_seq_len, dim_model
         slate_encoder_output = gather(encoder_output, tgt_out_idx - 2)
         # encoder_scores shape: batch_size, tgt_seq_len
-        encoder_scores = self.encoder_scorer(slate_encoder_output).squeeze()
+        encoder_scores = self.encoder_scorer(slate_encoder_output).squeeze(dim=2)
         return Seq2SlateTransformerOutput(
             ranked_per_symbol_probs=None,
             ranked_per_seq_probs=None,
-- 
2.43.0


From cbe971da6908f99d6f376b567637bc9b8cdab8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 022/117] fix: Keep batch axes of size one in gmm_loss

---
 reagent/models/mdn_rnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/mdn_rnn.py b/reagent/models/mdn_rnn.py
index 73057b3..caae4d9 100644
--- a/reagent/models/mdn_rnn.py
+++ b/reagent/models/mdn_rnn.py
@@ -225,7 +225,7 @@ def gmm_loss(batch, mus, sigmas, logpi, reduce=True):
     g_probs = torch.exp(g_log_probs)
     probs = torch.sum(g_probs, dim=-1)
 
-    log_prob = max_log_probs.squeeze() + torch.log(probs)
+    log_prob = max_log_probs.squeeze(-1) + torch.log(probs)
     if reduce:
         return -(torch.mean(log_prob))
     return -log_prob
-- 
2.43.0


From 629584efa56b9bb842ff1b8836f4822b7d9bfc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 023/117] fix: Planner accepts populations below ten

---
 reagent/models/cem_planner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/cem_planner.py b/reagent/models/cem_planner.py
index dafdb30..825530c 100644
--- a/reagent/models/cem_planner.py
+++ b/reagent/models/cem_planner.py
@@ -185,7 +185,7 @@ class CEMPlannerNetwork(nn.Module):
         acc_reward_vec = np.zeros(self.cem_pop_size)
         init_state = state.float_features
         for i in range(self.cem_pop_size):
-            if i % (self.cem_pop_size // 10) == 0:
+            if i % max(1, self.cem_pop_size // 10) == 0:
                 logger.debug(f"Simulating the {i}-th solution...")
             acc_reward_vec[i] = self.acc_rewards_of_one_solution(
                 init_state, solutions[i], i
-- 
2.43.0


From 996c61e670f294dac80b1d008bb2104f0903ac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 024/117] fix: Planner averages a plan's sampled trajectories

---
 reagent/models/cem_planner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/models/cem_planner.py b/reagent/models/cem_planner.py
index 825530c..e92bdbe 100644
--- a/reagent/models/cem_planner.py
+++ b/reagent/models/cem_planner.py
@@ -187,8 +187,8 @@ class CEMPlannerNetwork(nn.Module):
         for i in range(self.cem_pop_size):
             if i % max(1, self.cem_pop_size // 10) == 0:
                 logger.debug(f"Simulating the {i}-th solution...")
-            acc_reward_vec[i] = self.acc_rewards_of_one_solution(
-                init_state, solutions[i], i
+            acc_reward_vec[i] = np.mean(
+                self.acc_rewards_of_one_solution(init_state, solutions[i], i)
             )
         return acc_reward_vec
 
-- 
2.43.0


From aa33b4d572de39daa0ca7774467e1af1c2baf9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:30 +0000
Subject: [PATCH 025/117] fix: Imitator accumulates over minibatches_per_step

---
 reagent/training/imitator_training.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/training/imitator_training.py b/reagent/training/imitator_training.py
index 25aef36..c547327 100644
--- a/reagent/training/imitator_training.py
+++ b/reagent/training/imitator_training.py
@@ -49,6 +49,7 @@ class ImitatorTrainer(RLTrainer):
             actual_action_idxs = torch.max(learning_input.action, dim=1)[1]
 
             if train:
+                self.minibatch += 1
                 imitator_loss = torch.nn.CrossEntropyLoss()
                 bcq_loss = imitator_loss(action_preds, actual_action_idxs)
                 bcq_loss.backward()
-- 
2.43.0


From 8059bac74b6654b67678cf1b89e30d04b385b088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:46 +0000
Subject: [PATCH 026/117] fix: pass the process group to all_reduce as the
 group

---
 reagent/training/gradient_free/es_worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/gradient_free/es_worker.py b/reagent/training/gradient_free/es_worker.py
index 4176021..81e90ef 100644
--- a/reagent/training/gradient_free/es_worker.py
+++ b/reagent/training/gradient_free/es_worker.py
@@ -41,7 +41,7 @@ class EsWorker:
         logger.info("Pushing reward")
 
         # Sum the rewards across all machines
-        distributed.all_reduce(rewards, self.process_group)
+        distributed.all_reduce(rewards, group=self.process_group)
 
         # Divide the rewards by the number of machines.  We do this because
         # there is no "average" all_reduce operator.
-- 
2.43.0


From eb0d4d6676b587638f88d11847f3a7cad15cd63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:16 +0000
Subject: [PATCH 027/117] fix: make greedy and epsilon-greedy samplers report
 their probabilities

---
 .../gym/policies/samplers/discrete_sampler.py | 38 +++++++++----------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/reagent/gym/policies/samplers/discrete_sampler.py b/reagent/gym/policies/samplers/discrete_sampler.py
index ac895ec..2fd74a1 100644
--- a/reagent/gym/policies/samplers/discrete_sampler.py
+++ b/reagent/gym/policies/samplers/discrete_sampler.py
@@ -85,7 +85,7 @@ class GreedyActionSampler(Sampler):
         action = F.one_hot(raw_action, num_actions)
         assert action.shape == (batch_size, num_actions)
         return rlt.ActorOutput(
-            action=action, log_prob=torch.ones_like(raw_action, dtype=torch.float)
+            action=action, log_prob=torch.zeros_like(raw_action, dtype=torch.float)
         )
 
     # pyre-fixme[56]: Decorator `torch.no_grad(...)` could not be called, because
@@ -95,8 +95,8 @@ class GreedyActionSampler(Sampler):
         greedy_indices = self._get_greedy_indices(scores)
         # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
         match = greedy_indices == action.argmax(-1)
-        lp = torch.zeros(scores.shape[0]).float()
-        lp[match] = -float("inf")
+        lp = torch.zeros(scores.shape[0], device=scores.device).float()
+        lp[~match] = -float("inf")
         return lp
 
 
@@ -121,22 +121,25 @@ class EpsilonGreedyActionSampler(Sampler):
         assert minimum_epsilon <= epsilon_decay
         self.minimum_epsilon = minimum_epsilon
 
+    def _get_distribution(
+        self, scores: torch.Tensor
+    ) -> torch.distributions.Categorical:
+        num_actions = scores.shape[1]
+        # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
+        argmax = F.one_hot(scores.argmax(dim=1), num_actions).float()
+        # impossible actions are masked with -inf scores
+        possible = torch.max((scores > -float("inf")).float(), argmax)
+        rand_prob = possible / possible.sum(dim=1, keepdim=True)
+        p = (1 - self.epsilon) * argmax + self.epsilon * rand_prob
+        return torch.distributions.Categorical(probs=p)
+
     def sample_action(self, scores: torch.Tensor) -> rlt.ActorOutput:
         assert scores.dim() == 2, (
             "scores dim is %d" % scores.dim()
         )  # batch_size x num_actions
         batch_size, num_actions = scores.shape
 
-        # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
-        argmax = F.one_hot(scores.argmax(dim=1), num_actions).bool()
-
-        rand_prob = self.epsilon / num_actions
-        p = torch.full_like(rand_prob, scores)
-
-        greedy_prob = 1 - self.epsilon + rand_prob
-        p[argmax] = greedy_prob
-
-        m = torch.distributions.Categorical(probs=p)
+        m = self._get_distribution(scores)
         raw_action = m.sample()
         action = F.one_hot(raw_action, num_actions)
         assert action.shape == (batch_size, num_actions)
@@ -145,13 +148,10 @@ class EpsilonGreedyActionSampler(Sampler):
         return rlt.ActorOutput(action=action, log_prob=log_prob)
 
     def log_prob(self, scores: torch.Tensor, action: torch.Tensor) -> torch.Tensor:
-        max_index = self.sample_action(scores).argmax(-1)
+        m = self._get_distribution(scores)
         # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
-        opt = max_index == action.argmax(-1)
-        n = len(scores)
-        lp = torch.ones(n) * self.epsilon / n
-        lp[opt] = 1 - self.epsilon + self.epsilon / n
-        return lp
+        # not using m.log_prob, which bounds zero probabilities away from 0
+        return m.probs.log().gather(1, action.argmax(-1).unsqueeze(1)).squeeze(1)
 
     def update(self) -> None:
         self.epsilon *= self.epsilon_decay
-- 
2.43.0


From 3cdddcead1e8ba3f6eb4e98c932b0aa318a58667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:49 +0000
Subject: [PATCH 028/117] fix: use the Gaussian actor's current density helpers
 in GaussianSampler

---
 reagent/gym/policies/samplers/continuous_sampler.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/reagent/gym/policies/samplers/continuous_sampler.py b/reagent/gym/policies/samplers/continuous_sampler.py
index 0775e39..627bafd 100644
--- a/reagent/gym/policies/samplers/continuous_sampler.py
+++ b/reagent/gym/policies/samplers/continuous_sampler.py
@@ -13,9 +13,9 @@ class GaussianSampler(Sampler):
     def _sample_action(self, loc: torch.Tensor, scale_log: torch.Tensor):
         r = torch.randn_like(scale_log, device=scale_log.device)
         # pyre-fixme[16]: `Tensor` has no attribute `exp`.
-        action = torch.tanh(loc + r * scale_log.exp())
+        action = self.actor_network._squash_raw_action(loc + r * scale_log.exp())
         # Since each dim are independent, log-prob is simply sum
-        log_prob = self.actor_network._log_prob(r, scale_log)
+        log_prob = self.actor_network._normal_log_prob(r, scale_log)
         squash_correction = self.actor_network._squash_correction(action)
         log_prob = torch.sum(log_prob - squash_correction, dim=1)
         return action, log_prob
@@ -36,7 +36,7 @@ class GaussianSampler(Sampler):
         # This is not getting exported; we can use it
         # pyre-fixme[16]: `Tensor` has no attribute `exp`.
         n = torch.distributions.Normal(loc, scale_log.exp())
-        raw_action = self.actor_network._atanh(squashed_action)
+        raw_action = torch.atanh(squashed_action)
         log_prob = n.log_prob(raw_action)
         squash_correction = self.actor_network._squash_correction(squashed_action)
         log_prob = torch.sum(log_prob - squash_correction, dim=1)
@@ -49,7 +49,6 @@ class GaussianSampler(Sampler):
         self, scores: GaussianSamplerScore, squashed_action: torch.Tensor
     ) -> torch.Tensor:
         self.actor_network.eval()
-        # pyre-fixme[20]: Argument `squashed_action` expected.
-        log_prob = self._log_prob(scores.loc, scores.scale_log)
+        log_prob = self._log_prob(scores.loc, scores.scale_log, squashed_action)
         self.actor_network.train()
         return log_prob
-- 
2.43.0


From 33dfea9ed3ead7c8d6bfbf852979de619411ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:06 +0000
Subject: [PATCH 029/117] fix: FrechetSort truncates the slate, not the batch

---
 reagent/samplers/frechet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/samplers/frechet.py b/reagent/samplers/frechet.py
index 4f0a902..ecc8dd0 100644
--- a/reagent/samplers/frechet.py
+++ b/reagent/samplers/frechet.py
@@ -73,7 +73,7 @@ class FrechetSort(Sampler):
         log_prob = self.log_prob(scores, action)
         # Only truncate the action before returning
         if self.topk is not None:
-            action = action[: self.topk]
+            action = action[:, : self.topk]
         return rlt.ActorOutput(action, log_prob)
 
     def log_prob(self, scores: torch.Tensor, action) -> torch.Tensor:
-- 
2.43.0


From dd250a0e10a5adcd4474083f09cd41f24238d87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 030/117] fix: divide weighted IPS by the mean weight

---
 reagent/ope/estimators/contextual_bandits_estimators.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index 70a6441..9177644 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -342,6 +342,11 @@ class IPSEstimator(Estimator):
             tgt_vals.append(tgt_result)
             acc_weight.add(weight)
             gt_avg.add(sample.ground_truth_reward)
+        normalizer = 1.0
+        if self._weighted:
+            # self-normalized IPS: sum(w * r) / sum(w)
+            normalizer = acc_weight.average
+            tgt_vals = [val / normalizer for val in tgt_vals]
         (
             tgt_score_normalized,
             tgt_std_err,
@@ -349,9 +354,7 @@ class IPSEstimator(Estimator):
         ) = self._compute_metric_data(torch.tensor(tgt_vals), log_avg.average)
         return EstimatorResult(
             log_reward=log_avg.average,
-            estimated_reward=tgt_avg.average
-            if not self._weighted
-            else tgt_avg.average / acc_weight.total,
+            estimated_reward=tgt_avg.average / normalizer,
             ground_truth_reward=gt_avg.average,
             estimated_weight=tgt_avg.count,
             estimated_reward_normalized=tgt_score_normalized,
-- 
2.43.0


From 1426b539926442aecf9ae04dfb75508bee4c513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 031/117] fix: fall back to zero model rewards when no model is
 available

---
 reagent/ope/estimators/contextual_bandits_estimators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index 9177644..881b244 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -172,7 +172,8 @@ class DMEstimator(Estimator):
             )
         trainer = self._trainer
         if trainer is None or not trainer.is_trained:
-            return 0.0, torch.zeros(), torch.zeros()
+            zeros = torch.zeros(len(action_space), device=self._device)
+            return 0.0, zeros, zeros
         assert sample.item_feature is not None
         item_feature = sample.item_feature.flatten()
         features = []
-- 
2.43.0


From 2e0e81f5bcffecebb8710a935be088426807aa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:20 +0000
Subject: [PATCH 032/117] fix: keep OPE value maps' cached views in step with
 their contents

---
 reagent/ope/estimators/types.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/reagent/ope/estimators/types.py b/reagent/ope/estimators/types.py
index dbd7b85..b4cc688 100644
--- a/reagent/ope/estimators/types.py
+++ b/reagent/ope/estimators/types.py
@@ -241,7 +241,7 @@ class Values(Objects[KeyType, float]):
         super()._reset()
         self._probabilities = None
         self._is_normalized = False
-        self._sorted = None
+        self._sorted = {}
 
     def __getitem__(self, key: KeyType) -> float:
         return super().__getitem__(key).item()
@@ -264,17 +264,15 @@ class Values(Objects[KeyType, float]):
             Tuple of sorted indices and values
         """
         # pyre-fixme[16]: `Values` has no attribute `_sorted`.
-        if self._sorted is None:
+        if descending not in self._sorted:
             # pyre-fixme[16]: `Values` has no attribute `_values`.
             rs, ids = torch.sort(self._values, descending=descending)
             if self._index_to_key is not None:
-                self._sorted = (
-                    [self._index_to_key[i.item()] for i in ids],
-                    rs.detach(),
-                )
+                keys = [self._index_to_key[i.item()] for i in ids]
             else:
-                self._sorted = ([self._to_key(i.item()) for i in ids], rs.detach())
-        return self._sorted
+                keys = [self._to_key(i.item()) for i in ids]
+            self._sorted[descending] = (keys, rs.detach())
+        return self._sorted[descending]
 
     @property
     def _values_copy(self) -> Tensor:
@@ -315,6 +313,7 @@ class Values(Objects[KeyType, float]):
                     copy._values[copy._key_to_index[k]] = v
         else:
             raise TypeError(f"Unsupported values type {type(values)}")
+        copy._reset()
         return copy
 
     def _normalize(self):
-- 
2.43.0


From 41abfe25936f514a815fdf85dcbb853dfae76bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:20 +0000
Subject: [PATCH 033/117] fix: skip unavailable estimates when collecting OPE
 results

---
 reagent/ope/estimators/estimator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/estimators/estimator.py b/reagent/ope/estimators/estimator.py
index f53db8a..9d2f042 100644
--- a/reagent/ope/estimators/estimator.py
+++ b/reagent/ope/estimators/estimator.py
@@ -75,12 +75,15 @@ class EstimatorResults:
     results: List[EstimatorResult] = field(default_factory=list)
     device = None
 
-    def append(self, result: EstimatorResult):
+    def append(self, result: Optional[EstimatorResult]):
         """Append a data point
 
         Args:
-            result: result from an experimental run
+            result: result from an experimental run, None if not available
         """
+        if result is None:
+            logging.warning("  Estimate not available")
+            return
         er = result.estimated_reward
         if math.isnan(er) or math.isinf(er):
             logging.warning(f"  Invalid estimate: {er}")
-- 
2.43.0


From ba671bda0706f80398ec131243a0b9d163ad7b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:32 +0000
Subject: [PATCH 034/117] fix: parallel OPE evaluation evaluates every
 experiment of a worker

---
 reagent/ope/estimators/estimator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/reagent/ope/estimators/estimator.py b/reagent/ope/estimators/estimator.py
index 9d2f042..f43808e 100644
--- a/reagent/ope/estimators/estimator.py
+++ b/reagent/ope/estimators/estimator.py
@@ -201,19 +201,19 @@ def run_evaluation(
     logger.info(f"received filename {file_name}")
     try:
         with open(file_name, "rb") as fp:
-            estimators, inputs = pickle.load(fp)
+            experiments = pickle.load(fp)
     except Exception as err:
+        logger.error(f"failed to load {file_name}: {err}")
         return None
     results = {}
-    for estimator in estimators:
-        estimator_name = repr(estimator)
-        estimator_results = []
-        for input in inputs:
+    for estimators, input in experiments:
+        for estimator in estimators:
+            estimator_name = repr(estimator)
+            estimator_results = results.setdefault(estimator_name, [])
             try:
                 estimator_results.append(estimator.evaluate(input))
             except Exception as err:
                 logger.error(f"{estimator_name} error {err}")
-        results[repr(estimator)] = estimator_results
     return results
 
 
-- 
2.43.0


From 0fb849f0056c03354288963e0801ea28656550ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:03 +0000
Subject: [PATCH 035/117] fix: sequential direct method is the value of the
 first state

---
 reagent/ope/estimators/sequential_estimators.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 8846090..035fda1 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -199,16 +199,11 @@ class RLEstimator(Estimator):
     def _estimate_value(
         self, gamma: float, mdps: Sequence[Mdp], value_function: ValueFunction
     ) -> float:
+        # The value of a state already covers the rest of the trajectory
         avg = RunningAverage()
         for mdp in mdps:
-            discount = 1.0
-            r = 0.0
-            for t in mdp:
-                if t.last_state is None:
-                    break
-                r += discount * value_function(t.last_state)
-                discount *= gamma
-            avg.add(r)
+            state = mdp[0].last_state if len(mdp) > 0 else None
+            avg.add(0.0 if state is None else value_function(state))
         return avg.average
 
 
-- 
2.43.0


From db00a0706677a8918a85330d17693dd6a0e5a126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:03 +0000
Subject: [PATCH 036/117] fix: sequential importance weights keep ended
 trajectories in the average

---
 reagent/ope/estimators/sequential_estimators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 035fda1..1839ba4 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -278,13 +278,14 @@ class IPSEstimator(RLEstimator):
         pi_e = pi_e.to(device=self._device)
         pi_b = pi_b.to(device=self._device)
         mask = mask.to(device=self._device)
-        rho = pi_e.div_(pi_b).cumprod(1).mul_(mask)
+        rho = pi_e.div_(pi_b).cumprod(1)
+        # A trajectory which has ended counts with its final weight and no reward
         if self._weighted:
             weight = rho.sum(0)
         else:
-            weight = mask.sum(0)
+            weight = torch.full_like(rho[0], episodes)
         weight.add_(weight.lt(1.0e-15) * episodes)
-        ws = rho / weight
+        ws = rho.mul_(mask) / weight
         return self._weight_clamper(ws)
 
     def evaluate(self, input: RLEstimatorInput, **kwargs) -> EstimatorResults:
-- 
2.43.0


From 5de7b0b61f23130dc89af3a22dc46d68cec70bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:03 +0000
Subject: [PATCH 037/117] fix: MAGIC optimises its mixture weights

---
 reagent/ope/estimators/sequential_estimators.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 1839ba4..6f5bc55 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -469,21 +469,21 @@ class MAGICEstimator(IPSEstimator):
         bb = b * b.t()
         cov = omiga + bb
         # x = torch.rand((1, horizon), device=self.device, requires_grad=True)
-        x = torch.zeros((1, horizon), device=self._device, requires_grad=True)
+        logits = torch.zeros((1, horizon), device=self._device, requires_grad=True)
         # using SGD to find min x
-        optimizer = torch.optim.SGD([x], lr=lr)
+        optimizer = torch.optim.SGD([logits], lr=lr)
         last_y = 0.0
         for i in range(100):
-            x = torch.nn.functional.softmax(x, dim=1)
+            x = torch.nn.functional.softmax(logits, dim=1)
             y = torch.mm(torch.mm(x, cov), x.t())
             if abs(y.item() - last_y) < loss_threshold:
                 print(f"{i}: {last_y} -> {y.item()}")
                 break
             last_y = y.item()
             optimizer.zero_grad()
-            y.backward(retain_graph=True)
+            y.backward()
             optimizer.step()
-        x = torch.nn.functional.softmax(x, dim=1)
+        x = torch.nn.functional.softmax(logits, dim=1)
         estimate = torch.mm(x, gs.sum(0, keepdim=True).t()).cpu().item()
 
         results.append(
-- 
2.43.0


From f0d8d3269ab693a1f89fa5226b2f863160155668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:03 +0000
Subject: [PATCH 038/117] fix: NeuralDualDICE trains on stochastic environments

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 6f5bc55..287864a 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -744,7 +744,7 @@ class NeuralDualDICE(RLEstimator):
             if self.deterministic_env:
                 v_loss = self._compute_loss(input.gamma, sample, True)
             else:
-                v_loss = self._compute_loss(*sample)
+                v_loss = self._compute_loss(input.gamma, sample, False)
             # Populate value gradients and optimize
             v_optim.zero_grad()
             v_loss.backward()
-- 
2.43.0


From 757451bd688ac78eb6259cc87c55663ca29fcb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:03 +0000
Subject: [PATCH 039/117] fix: EpsilonGreedyRLPolicy keeps the wrapped policy's
 action space

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 287864a..e94e1d4 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -123,7 +123,7 @@ class EpsilonGreedyRLPolicy(RLPolicy):
 
     def __init__(self, policy: RLPolicy, epsilon: float = 0.0):
         assert policy is not None and 0.0 <= epsilon < 1.0
-        super().__init__(policy._device)
+        super().__init__(policy.action_space, policy._device)
         self._policy = policy
         self._exploitation_prob = 1.0 - epsilon
         self._exploration_prob = epsilon / len(policy.action_space)
-- 
2.43.0


From 3b00781484bb39ecce31069ac2f7b032c2912381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:03 +0000
Subject: [PATCH 040/117] fix: tabular action values bootstrap from the next
 state

---
 reagent/ope/trainers/rl_tabular_trainers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index dbd6acc..fcb017d 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -88,8 +88,9 @@ class TabularValueFunction(ValueFunction):
     def state_action_value(self, state: State, action: Action) -> float:
         value = 0.0
         sr_dist = self._model.next_state_reward_dist(state, action)
-        for _, rp in sr_dist.items():
-            value += rp.prob * (rp.reward + self._gamma * self.state_value(state))
+        for s, rp in sr_dist.items():
+            next_value = 0.0 if s is None or s.is_terminal else self.state_value(s)
+            value += rp.prob * (rp.reward + self._gamma * next_value)
         return value
 
     def state_value(self, state: State) -> float:
-- 
2.43.0


From 330039dfb5caa9a7bf4ec8f962880a2d03c64c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:03 +0000
Subject: [PATCH 041/117] fix: first-visit Monte Carlo counts the first visit

---
 reagent/ope/trainers/rl_tabular_trainers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index fcb017d..c5d80af 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -263,7 +263,7 @@ class MonteCarloValueFunction(TabularValueFunction):
                         continue
                     g = self._gamma * g + t.reward
                     counts = state_counts[t.last_state]
-                    if counts > 1:
+                    if counts == 1:
                         self._update_state_value(t.last_state, g)
                     counts -= 1
                     if counts == 0:
@@ -335,7 +335,7 @@ class MonteCarloTrainer(object):
                         g = gamma * g + t.reward
                         key = (t.last_state, t.action)
                         vc = vcounts[key]
-                        if vc > 1:
+                        if vc == 1:
                             self._update_state_value(
                                 value_counts, t.last_state, t.action, g
                             )
-- 
2.43.0


From 78d05b3449e52a3b0861ec654f69b82a31032e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:03 +0000
Subject: [PATCH 042/117] fix: MAGIC discounts the bootstrap value of its
 j-step returns

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index e94e1d4..c3b6059 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -436,7 +436,7 @@ class MAGICEstimator(IPSEstimator):
         wdr = wdrs[:, -1].sum(0)
         next_vs = torch.zeros((n, horizon), device=self._device)
         next_vs[:, :-1] = vs[:, 1:]
-        gs = wdrs + ws * next_vs * discount
+        gs = wdrs + ws * next_vs * discount * input.gamma
         gs_normal = gs.sub(torch.mean(gs, 0))
         assert n > 1
         omiga = (n / (n - 1.0)) * torch.einsum("ij,ik->jk", gs_normal, gs_normal)
-- 
2.43.0


From ac6580120cdca785c3a09880ac94f0b03fcb36b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:04 +0000
Subject: [PATCH 043/117] fix: a loaded tabular policy explores with the saved
 epsilon

---
 reagent/ope/trainers/rl_tabular_trainers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index c5d80af..416a511 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -20,11 +20,14 @@ class TabularPolicy(RLPolicy):
     def __init__(self, action_space: ActionSpace, epsilon: float = 0.0, device=None):
         super().__init__(action_space, device)
         self._epsilon = epsilon
-        as_size = len(action_space)
-        self._exploitation_prob = 1.0 - epsilon
-        self._exploration_prob = epsilon / len(action_space)
-        self._uniform_probs: List[float] = as_size * [1.0 / as_size]
         self._state_space = {}
+        self._init_probs()
+
+    def _init_probs(self):
+        as_size = len(self._action_space)
+        self._exploitation_prob = 1.0 - self._epsilon
+        self._exploration_prob = self._epsilon / as_size
+        self._uniform_probs: List[float] = as_size * [1.0 / as_size]
 
     def update(self, state: State, actions: Sequence[float]) -> float:
         old_dist = self._uniform_probs
@@ -65,6 +68,7 @@ class TabularPolicy(RLPolicy):
         try:
             with open(path, "rb") as f:
                 self._action_space, self._epsilon, self._state_space = pickle.load(f)
+            self._init_probs()
         except Exception:
             return False
         else:
-- 
2.43.0


From ff3d70dd63bff92d54e3e0fbc442e16ad15ff380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:35 +0000
Subject: [PATCH 044/117] fix: weighted sequential DR keeps ended trajectories
 in its normalisation

---
 .../evaluation/weighted_sequential_doubly_robust_estimator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
index e16b9bc..3192361 100644
--- a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
+++ b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
@@ -61,6 +61,10 @@ class WeightedSequentialDoublyRobustEstimator:
         target_propensity_for_logged_action = np.sum(
             np.multiply(target_propensities, actions), axis=2
         )
+        # A trajectory which has ended counts with its final weight and no reward
+        lengths = [len(list(g)) for _, g in itertools.groupby(edp.mdp_id.flatten())]
+        ended = np.arange(trajectory_length) >= np.array(lengths)[:, np.newaxis]
+        target_propensity_for_logged_action[ended] = 1.0
         estimated_q_values_for_logged_action = np.sum(
             np.multiply(estimated_q_values, actions), axis=2
         )
-- 
2.43.0


From 56235073e6f63a9e4f5361214e8c7085c97a8fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:35 +0000
Subject: [PATCH 045/117] fix: MAGIC's error is its covariance plus the outer
 product of the biases

---
 .../weighted_sequential_doubly_robust_estimator.py          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
index 3192361..0fc8cda 100644
--- a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
+++ b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
@@ -224,8 +224,10 @@ class WeightedSequentialDoublyRobustEstimator:
         where_higher = np.where(j_step_returns > high_bound)[0]
         j_step_bias[where_higher] = j_step_returns[where_higher] - high_bound
 
-        covariance = np.cov(j_step_return_trajectories)
-        error = covariance + j_step_bias.T * j_step_bias
+        # each j-step return is the sum of its per-trajectory terms
+        num_trajectories = j_step_return_trajectories.shape[1]
+        covariance = num_trajectories * np.cov(j_step_return_trajectories)
+        error = covariance + np.outer(j_step_bias, j_step_bias)
 
         # minimize mse error
         constraint = {"type": "eq", "fun": lambda x: np.sum(x) - 1.0}
-- 
2.43.0


From 989e4b9ee03727d0ba152a38213f74c37678f7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:35 +0000
Subject: [PATCH 046/117] fix: counterfactual evaluation works with few samples

---
 reagent/evaluation/cpe.py                            |  2 +-
 reagent/evaluation/doubly_robust_estimator.py        |  6 +++---
 .../evaluation/sequential_doubly_robust_estimator.py |  4 ++--
 .../weighted_sequential_doubly_robust_estimator.py   | 12 +++++++++---
 4 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/reagent/evaluation/cpe.py b/reagent/evaluation/cpe.py
index 2038349..c9c3e96 100644
--- a/reagent/evaluation/cpe.py
+++ b/reagent/evaluation/cpe.py
@@ -183,7 +183,7 @@ def bootstrapped_std_error_of_mean(data, sample_percent=0.25, num_samples=1000):
     """
     if isinstance(data, torch.Tensor):
         data = data.cpu().numpy()
-    sample_size = int(sample_percent * len(data))
+    sample_size = max(1, int(sample_percent * len(data)))
     means = [
         np.mean(np.random.choice(data, size=sample_size, replace=True))
         for i in range(num_samples)
diff --git a/reagent/evaluation/doubly_robust_estimator.py b/reagent/evaluation/doubly_robust_estimator.py
index ee64a97..9322b8d 100644
--- a/reagent/evaluation/doubly_robust_estimator.py
+++ b/reagent/evaluation/doubly_robust_estimator.py
@@ -267,7 +267,7 @@ class DoublyRobustEstimator:
 
         direct_method_score = float(torch.mean(direct_method_values))
         direct_method_std_error = bootstrapped_std_error_of_mean(
-            direct_method_values.squeeze(),
+            direct_method_values.reshape(-1),
             sample_percent=hp.bootstrap_sample_percent,
             num_samples=hp.bootstrap_num_samples,
         )
@@ -289,7 +289,7 @@ class DoublyRobustEstimator:
 
         ips_score = float(torch.mean(ips))
         ips_score_std_error = bootstrapped_std_error_of_mean(
-            ips.squeeze(),
+            ips.reshape(-1),
             sample_percent=hp.bootstrap_sample_percent,
             num_samples=hp.bootstrap_num_samples,
         )
@@ -302,7 +302,7 @@ class DoublyRobustEstimator:
 
         dr_score = float(torch.mean(doubly_robust))
         dr_score_std_error = bootstrapped_std_error_of_mean(
-            doubly_robust.squeeze(),
+            doubly_robust.reshape(-1),
             sample_percent=hp.bootstrap_sample_percent,
             num_samples=hp.bootstrap_num_samples,
         )
diff --git a/reagent/evaluation/sequential_doubly_robust_estimator.py b/reagent/evaluation/sequential_doubly_robust_estimator.py
index fbeb07e..e534436 100644
--- a/reagent/evaluation/sequential_doubly_robust_estimator.py
+++ b/reagent/evaluation/sequential_doubly_robust_estimator.py
@@ -20,8 +20,8 @@ class SequentialDoublyRobustEstimator:
 
     def estimate(self, edp: EvaluationDataPage) -> CpeEstimate:
         # For details, visit https://arxiv.org/pdf/1511.03722.pdf
-        logged_rewards = edp.logged_rewards.squeeze()
-        logged_propensities = edp.logged_propensities.squeeze()
+        logged_rewards = edp.logged_rewards.reshape(-1)
+        logged_propensities = edp.logged_propensities.reshape(-1)
 
         num_examples = edp.logged_rewards.shape[0]
 
diff --git a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
index 0fc8cda..c0de3a6 100644
--- a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
+++ b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
@@ -52,6 +52,9 @@ class WeightedSequentialDoublyRobustEstimator:
 
         j_steps = [float("inf")]
 
+        if num_trajectories < 2:
+            # no variance to trade off
+            num_j_steps = 1
         if num_j_steps > 1:
             j_steps.append(-1)
         if num_j_steps > 2:
@@ -163,9 +166,12 @@ class WeightedSequentialDoublyRobustEstimator:
 
             # Use bootstrapping to compute weighted_doubly_robust standard error
             bootstrapped_means = []
-            sample_size = int(
-                WeightedSequentialDoublyRobustEstimator.BOOTSTRAP_SAMPLE_PCT
-                * num_subsets
+            sample_size = max(
+                1,
+                int(
+                    WeightedSequentialDoublyRobustEstimator.BOOTSTRAP_SAMPLE_PCT
+                    * num_subsets
+                ),
             )
             for _ in range(
                 WeightedSequentialDoublyRobustEstimator.NUM_BOOTSTRAP_SAMPLES
-- 
2.43.0


From d77309241335856b9bdd0de178ded93b5648c1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:35 +0000
Subject: [PATCH 047/117] fix: metric evaluation uses the metric's
 logged-action predictions

---
 reagent/evaluation/evaluation_data_page.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 41d88a0..f2bc040 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -598,15 +598,21 @@ class EvaluationDataPage(NamedTuple):
         assert self.model_metrics is not None, "metrics must not be none"
         assert self.model_metrics_values is not None, "metrics must not be none"
 
+        model_rewards = self.model_metrics[:, i * num_actions : (i + 1) * num_actions]
+        model_values = self.model_metrics_values[
+            :, i * num_actions : (i + 1) * num_actions
+        ]
         return self._replace(
             logged_rewards=self.logged_metrics[:, i : i + 1],
             logged_values=self.logged_metrics_values[:, i : i + 1],
-            model_rewards=self.model_metrics[
-                :, i * num_actions : (i + 1) * num_actions
-            ],
-            model_values=self.model_metrics_values[
-                :, i * num_actions : (i + 1) * num_actions
-            ],
+            model_rewards=model_rewards,
+            model_rewards_for_logged_action=torch.sum(
+                model_rewards * self.action_mask, dim=1, keepdim=True
+            ),
+            model_values=model_values,
+            model_values_for_logged_action=torch.sum(
+                model_values * self.action_mask, dim=1, keepdim=True
+            ),
             logged_metrics=None,
             logged_metrics_values=None,
             model_metrics=None,
-- 
2.43.0


From f0692619adf670101d7ffa1ac8723ddb683d6db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:35 +0000
Subject: [PATCH 048/117] fix: logged metric values accumulate for every metric

---
 reagent/evaluation/evaluation_data_page.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index f2bc040..66303d4 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -514,7 +514,7 @@ class EvaluationDataPage(NamedTuple):
             if mdp_ids[x] != mdp_ids[x + 1]:
                 # Value = reward for new mdp_id
                 continue
-            values[x, 0] += values[x + 1, 0] * math.pow(
+            values[x] += values[x + 1] * math.pow(
                 gamma, float(sequence_numbers[x + 1, 0] - sequence_numbers[x, 0])
             )
 
-- 
2.43.0


From 828ad398ce0f429d8c5ac06f0082997e0f5c2029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:35 +0000
Subject: [PATCH 049/117] fix: parametric evaluation pages group model metrics
 by metric

---
 reagent/evaluation/evaluation_data_page.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 66303d4..2b6ed99 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -251,7 +251,12 @@ class EvaluationDataPage(NamedTuple):
         model_rewards = model_rewards.reshape(possible_actions_mask.shape)
 
         model_metrics = rewards_and_metric_rewards[:, 1:]
-        model_metrics = model_metrics.reshape(possible_actions_mask.shape[0], -1)
+        # columns are grouped by metric, as in discrete dqn
+        model_metrics = (
+            model_metrics.reshape(*possible_actions_mask.shape, -1)
+            .transpose(1, 2)
+            .reshape(possible_actions_mask.shape[0], -1)
+        )
 
         model_values_for_logged_action = trainer.q_network(states, actions)
         model_rewards_and_metrics_for_logged_action = trainer.reward_network(
-- 
2.43.0


From a309982d9987a8b8c48beadd3fbe9b09a2803b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:35 +0000
Subject: [PATCH 050/117] fix: post-training evaluation scores exactly the
 logged metrics

---
 reagent/training/dqn_trainer_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/training/dqn_trainer_base.py b/reagent/training/dqn_trainer_base.py
index 03a90c6..98c9b1f 100644
--- a/reagent/training/dqn_trainer_base.py
+++ b/reagent/training/dqn_trainer_base.py
@@ -168,7 +168,8 @@ class DQNTrainerBaseLightning(DQNTrainerMixin, RLTrainerMixin, ReAgentLightningM
             self._actions,
             self.rl_parameters.gamma,
             self.trainer,
-            metrics_to_score=self.metrics_to_score,
+            # the reward itself is always scored
+            metrics_to_score=self.metrics_to_score[:-1],
         )
 
     def _calculate_cpes(
-- 
2.43.0


From 084b6d807fcdf6f5914017a183a513b378eed7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:35 +0000
Subject: [PATCH 051/117] fix: sequential OPE adapter keeps the last transition

---
 reagent/evaluation/ope_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/ope_adapter.py b/reagent/evaluation/ope_adapter.py
index 0397fea..5fba9f1 100644
--- a/reagent/evaluation/ope_adapter.py
+++ b/reagent/evaluation/ope_adapter.py
@@ -184,7 +184,7 @@ class SequentialOPEstimatorAdapter:
                         state=State((traj, i + 1)),
                         reward=rewards[traj, i].item(),
                     )
-                    for i in range(horizon - 1)
+                    for i in range(horizon)
                     if actions[traj, i][torch.argmax(actions[traj, i]).item()] != 0.0
                 ]
             )
-- 
2.43.0


From 41a57de60cc9828cce6ace48b7c2a4c67f98c61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:35 +0000
Subject: [PATCH 052/117] fix: OPE evaluator's sequential DR is unweighted

---
 reagent/evaluation/ope_adapter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/evaluation/ope_adapter.py b/reagent/evaluation/ope_adapter.py
index 5fba9f1..75933cd 100644
--- a/reagent/evaluation/ope_adapter.py
+++ b/reagent/evaluation/ope_adapter.py
@@ -260,7 +260,9 @@ class OPEvaluator(Evaluator):
         )
 
         self.ope_seq_dr_estimator = SequentialOPEstimatorAdapter(
-            SeqDREstimator(device=self._device), gamma, device=self._device
+            SeqDREstimator(weighted=False, device=self._device),
+            gamma,
+            device=self._device,
         )
         self.ope_seq_weighted_dr_estimator = SequentialOPEstimatorAdapter(
             SeqDREstimator(weighted=True, device=self._device),
-- 
2.43.0


From 94582279ac6b4215fad790bc0fd54fcc9fc831da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:20 +0000
Subject: [PATCH 053/117] fix: importance weights of model policies keep their
 gradient history

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index c3b6059..a5f748c 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -285,7 +285,7 @@ class IPSEstimator(RLEstimator):
         else:
             weight = torch.full_like(rho[0], episodes)
         weight.add_(weight.lt(1.0e-15) * episodes)
-        ws = rho.mul_(mask) / weight
+        ws = (rho * mask) / weight
         return self._weight_clamper(ws)
 
     def evaluate(self, input: RLEstimatorInput, **kwargs) -> EstimatorResults:
-- 
2.43.0


From 5854c098f6b3c9381843b68449bdb14d323f0bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:44 +0000
Subject: [PATCH 054/117] fix: MAGIC optimises its mixture apart from the
 policy's gradients

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index a5f748c..1606db2 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -467,7 +467,7 @@ class MAGICEstimator(IPSEstimator):
         )
         b.unsqueeze_(0)
         bb = b * b.t()
-        cov = omiga + bb
+        cov = (omiga + bb).detach()
         # x = torch.rand((1, horizon), device=self.device, requires_grad=True)
         logits = torch.zeros((1, horizon), device=self._device, requires_grad=True)
         # using SGD to find min x
-- 
2.43.0


From 45f26d2ae8159162291e8e397fcba88ec7d35873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 055/117] fix: slates over named slots give slot values and
 features

---
 reagent/ope/estimators/slate_estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index cfe6caa..0c53cea 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -221,7 +221,7 @@ class Slate(SlateSlotObjects[SlateItem]):
             # pyre-fixme[16]: `Slate` has no attribute `_values`.
             return SlateSlotValues([item_values[i] for i in self._values])
         else:
-            return SlateSlotValues({k: item_values[i] for k, i in self._key_to_index})
+            return SlateSlotValues({k: item_values[i] for k, i in self})
 
     def slot_features(self, item_features: SlateItemFeatures) -> SlateSlotFeatures:
         """
@@ -239,7 +239,7 @@ class Slate(SlateSlotObjects[SlateItem]):
             )
         else:
             return SlateSlotFeatures(
-                {k: item_features[i].detach().clone() for k, i in self._key_to_index}
+                {k: item_features[i].detach().clone() for k, i in self}
             )
 
     def __repr__(self):
-- 
2.43.0


From ac115db7ad38f91c18dc81723fb887c19a173917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 056/117] fix: slate space covers every slate with its
 probability

---
 reagent/ope/estimators/slate_estimators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 0c53cea..163e142 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -516,6 +516,7 @@ class SlateItemProbabilities(SlateItemValues):
             items = super().greedy(slate_size)
             return [(items, 1.0)]
         else:
+            self._normalize()
             buffer = [([], 1.0, 0.0)]
             # pyre-fixme[16]: `SlateItemProbabilities` has no attribute
             #  `_probabilities`.
@@ -530,15 +531,15 @@ class SlateItemProbabilities(SlateItemValues):
                     for i, i_prob in enumerate(probs):
                         if i in b0:
                             continue
-                        nb2 = b2 + i_prob
-                        if nb2 < 1.0:
+                        # only discard the combination when nothing is left to pick
+                        if b2 < 1.0:
                             nb1 = b1 * i_prob / (1.0 - b2)
-                            next_buffer.append(([*b0, i], nb1, nb2))
+                            next_buffer.append(([*b0, i], nb1, b2 + i_prob))
                 if max_size <= 0 or max_size > len(next_buffer):
                     buffer = next_buffer
                 else:
                     buffer = random.sample(next_buffer, max_size)
-            return [([SlateItem(i) for i in b[0]], b[1]) for b in buffer]
+            return [([self.keys[i] for i in b[0]], b[1]) for b in buffer]
 
 
 class SlateSlotItemProbabilities(SlateSlotItemValues):
-- 
2.43.0


From e35929e290631a8b474f29ff0725a3895aea31bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 057/117] fix: ERR divides by two to the maximum reward

---
 reagent/ope/estimators/slate_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 163e142..af4ecb0 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -890,7 +890,7 @@ class ERRSlateMetric(SlateMetric):
         return slots.fill([1.0 / (r + 1) for r in range(len(slots))])
 
     def slot_values(self, rewards: SlateSlotValues) -> SlateSlotValues:
-        d = torch.tensor(self._max_reward, device=self._device).pow(2.0)
+        d = 2.0 ** self._max_reward
         r = (torch.pow(2.0, rewards.values.clamp(0.0, self._max_reward)) - 1.0) / d
         p = 1.0
         err = torch.zeros(len(rewards), dtype=torch.double, device=self._device)
-- 
2.43.0


From 9ef02f653297205b7a330dfa298edb45c4817efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 058/117] fix: expected rewards of a one-slot slate

---
 reagent/ope/estimators/slate_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index af4ecb0..4352edd 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -292,7 +292,7 @@ class SlateSlotItemExpectations(SlateSlotItemValues):
         """
         dist = self.values_tensor(device)
         rewards = item_rewards.values.to(device=device)
-        rewards = torch.mm(dist, rewards.unsqueeze(0).t()).squeeze()
+        rewards = torch.mm(dist, rewards.unsqueeze(0).t()).squeeze(1)
         if self.is_sequence:
             return SlateSlotValues(rewards)
         else:
-- 
2.43.0


From 03c90e697f6a62ba15d5462369fc432306f30bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 059/117] fix: greedy slot-wise slate probability is that of
 the greedy slate

---
 reagent/ope/estimators/slate_estimators.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 4352edd..e3426cb 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -566,10 +566,9 @@ class SlateSlotItemProbabilities(SlateSlotItemValues):
         """
         assert len(slate) <= len(self)
         if self._greedy:
+            greedy = self.sample_slate(slate.slots)
             for slot, item in slate:
-                probs = self[slot]
-                its, _ = probs.sort()
-                if its[0] != item:
+                if greedy[slot] != item:
                     return 0.0
             return 1.0
         else:
-- 
2.43.0


From d3f00f251204df8ec48494e4aca3c4c9e4c81a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 060/117] fix: slot expectations are those of the slots asked
 for

---
 reagent/ope/estimators/slate_estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index e3426cb..639fea0 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -417,7 +417,7 @@ class SlateItemProbabilities(SlateItemValues):
         slate_size = len(slots)
         if (
             self._slot_item_expectations is not None
-            and len(self._slot_item_expectations) >= slate_size
+            and len(self._slot_item_expectations) == slate_size
         ):
             return self._slot_item_expectations
         item_size = len(self)
@@ -566,7 +566,7 @@ class SlateSlotItemProbabilities(SlateSlotItemValues):
         """
         assert len(slate) <= len(self)
         if self._greedy:
-            greedy = self.sample_slate(slate.slots)
+            greedy = self.sample_slate(self.slots)
             for slot, item in slate:
                 if greedy[slot] != item:
                     return 0.0
-- 
2.43.0


From 305fb40c9a9f7a514cf7e35e258f734aa0c9bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:37 +0000
Subject: [PATCH 061/117] fix: slate estimators without a model

---
 reagent/ope/estimators/slate_estimators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 639fea0..05115cb 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -1170,7 +1170,7 @@ class DMEstimator(SlateEstimator):
 
     def __repr__(self):
         return (
-            f"DMEstimator(trainer({self._trainer.name})"
+            f"DMEstimator(trainer({None if self._trainer is None else self._trainer.name})"
             f",ratio({self._training_sample_ratio}),device({self._device}))"
         )
 
@@ -1266,7 +1266,7 @@ class DoublyRobustEstimator(DMEstimator):
 
     def _evaluate_sample(self, sample: LogSample) -> Optional[EstimatorSampleResult]:
         slots = sample.context.slots
-        if self._trainer.is_trained:
+        if self._trainer is not None and self._trainer.is_trained:
             tgt_slate_space = sample.tgt_slate_space(slots)
             features = []
             probs = []
@@ -1338,7 +1338,7 @@ class DoublyRobustEstimator(DMEstimator):
 
     def __repr__(self):
         return (
-            f"DoublyRobustEstimator(trainer({self._trainer.name})"
+            f"DoublyRobustEstimator(trainer({None if self._trainer is None else self._trainer.name})"
             f",ratio({self._training_sample_ratio})"
             f",weight_clamper({self._weight_clamper})"
             f",weighted({self._weighted}),device({self._device}))"
-- 
2.43.0


From 20a73f9ce3adbfc1b760afda09a063e1213299d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:10 +0000
Subject: [PATCH 062/117] fix: concatenate the embeddings of sparse features in
 the configured order

---
 reagent/models/embedding_bag_concat.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/reagent/models/embedding_bag_concat.py b/reagent/models/embedding_bag_concat.py
index bfb1a8c..45a29c1 100644
--- a/reagent/models/embedding_bag_concat.py
+++ b/reagent/models/embedding_bag_concat.py
@@ -76,9 +76,14 @@ class EmbeddingBagConcat(ModelBase):
 
     def forward(self, state: rlt.FeatureData):
         # id_list is (offset, value); sum pooling
+        # Features are concatenated in the configured order; the order of the keys in
+        # the input carries no meaning
         id_list_embeddings = [
             self.embedding_bags[self.feat2table[feature_name]](input=v[1], offsets=v[0])
-            for feature_name, v in state.id_list_features.items()
+            for feature_name, v in (
+                (name, state.id_list_features[name])
+                for name in self._id_list_feature_names
+            )
         ]
 
         # id_score_list is (offset, key, value); weighted sum pooling
@@ -86,7 +91,10 @@ class EmbeddingBagConcat(ModelBase):
             self.embedding_bags[self.feat2table[feature_name]](
                 input=v[1], offsets=v[0], per_sample_weights=v[2]
             )
-            for feature_name, v in state.id_score_list_features.items()
+            for feature_name, v in (
+                (name, state.id_score_list_features[name])
+                for name in self._id_score_list_feature_names
+            )
         ]
         return torch.cat(
             id_list_embeddings + id_score_list_embeddings + [state.float_features],
-- 
2.43.0


From 743b28878513514ead4a67bc73025fb6f5ce5d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:10 +0000
Subject: [PATCH 063/117] fix: import RankingActorPredictorWrapper outside the
 FB environment

---
 reagent/net_builder/continuous_actor_net_builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/net_builder/continuous_actor_net_builder.py b/reagent/net_builder/continuous_actor_net_builder.py
index 49c72b0..02b2dee 100644
--- a/reagent/net_builder/continuous_actor_net_builder.py
+++ b/reagent/net_builder/continuous_actor_net_builder.py
@@ -21,7 +21,10 @@ if IS_FB_ENVIRONMENT:
         FbRankingActorPredictorWrapper as RankingActorPredictorWrapper,
     )
 else:
-    from reagent.prediction.predictor_wrapper import ActorPredictorWrapper
+    from reagent.prediction.predictor_wrapper import (
+        ActorPredictorWrapper,
+        RankingActorPredictorWrapper,
+    )
 
 
 class ContinuousActorNetBuilder(metaclass=RegistryMeta):
-- 
2.43.0


From 08474ac102d8ead99b3b978d21fef4e4adc1755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:55 +0000
Subject: [PATCH 064/117] fix: keep the batch size out of the traced slate
 reward module

---
 reagent/prediction/predictor_wrapper.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/reagent/prediction/predictor_wrapper.py b/reagent/prediction/predictor_wrapper.py
index 20ab21b..3fd6111 100644
--- a/reagent/prediction/predictor_wrapper.py
+++ b/reagent/prediction/predictor_wrapper.py
@@ -691,14 +691,6 @@ class Seq2SlateRewardWithPreprocessor(ModelBase):
         max_tgt_seq_len = self.model.max_tgt_seq_len
         max_src_seq_len = self.model.max_src_seq_len
 
-        # we use a fake slate_idx_with_presence to retrive the first
-        # max_tgt_seq_len candidates from
-        # len(slate_idx_with presence) == batch_size
-        # component: 1d tensor with length max_tgt_seq_len
-        slate_idx_with_presence = [
-            (torch.arange(max_tgt_seq_len), torch.ones(max_tgt_seq_len))
-        ] * batch_size
-
         preprocessed_state = self.state_preprocessor(
             state_with_presence[0], state_with_presence[1]
         )
@@ -714,9 +706,9 @@ class Seq2SlateRewardWithPreprocessor(ModelBase):
 
         src_src_mask = torch.ones(batch_size, max_src_seq_len, max_src_seq_len)
 
-        tgt_out_idx = torch.cat(
-            [slate_idx[0] for slate_idx in slate_idx_with_presence]
-        ).view(batch_size, max_tgt_seq_len)
+        # retrieve the first max_tgt_seq_len candidates; built from tensor operations
+        # only, so that tracing doesn't freeze the batch size
+        tgt_out_idx = torch.arange(max_tgt_seq_len).repeat(batch_size, 1)
 
         tgt_out_seq = gather(preprocessed_candidates, tgt_out_idx)
 
-- 
2.43.0


From b3953bde342acf7026e0398d83eb47a8c7d0eaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 065/117] fix: let file-system publishers see each other's
 publications

---
 reagent/publishers/file_system_publisher.py | 35 ++++++++++++---------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/reagent/publishers/file_system_publisher.py b/reagent/publishers/file_system_publisher.py
index 01c5774..19a04e8 100644
--- a/reagent/publishers/file_system_publisher.py
+++ b/reagent/publishers/file_system_publisher.py
@@ -49,17 +49,22 @@ if HAS_TINYDB:
 
         def __post_init_post_parse__(self):
             self.publishing_file = os.path.abspath(self.publishing_file)
-            self.db: TinyDB = TinyDB(self.publishing_file)
+            self._open_db().close()
             logger.info(f"Using TinyDB at {self.publishing_file}.")
 
+        def _open_db(self) -> TinyDB:
+            # TinyDB caches query results and the next document id, so that a handle
+            # that is kept open doesn't see what other publishers wrote to the file
+            return TinyDB(self.publishing_file)
+
         def get_latest_published_model(
             self, model_manager: ModelManager, module_name: str
         ) -> str:
             Model = Query()
             # TODO: make this take in a
             key = f"{module_name}_{str(model_manager)}"
-            # pyre-fixme[16]: `FileSystemPublisher` has no attribute `db`.
-            results = self.db.search(Model[KEY_FIELD] == key)
+            with self._open_db() as db:
+                results = db.search(Model[KEY_FIELD] == key)
             if len(results) != 1:
                 if len(results) == 0:
                     raise ValueError(
@@ -84,16 +89,16 @@ if HAS_TINYDB:
                 Model = Query()
                 # find if there's already been something stored
                 key = f"{module_name}_{str(model_manager)}"
-                # pyre-fixme[16]: `FileSystemPublisher` has no attribute `db`.
-                results = self.db.search(Model[KEY_FIELD] == key)
-                if len(results) == 0:
-                    # this is a first
-                    self.db.insert({KEY_FIELD: key, VALUE_FIELD: path})
-                else:
-                    # replace it
-                    if len(results) > 1:
-                        raise RuntimeError(
-                            f"Got {len(results)} results for model_manager. {results}"
-                        )
-                    self.db.update({VALUE_FIELD: path}, Model[KEY_FIELD] == key)
+                with self._open_db() as db:
+                    results = db.search(Model[KEY_FIELD] == key)
+                    if len(results) == 0:
+                        # this is a first
+                        db.insert({KEY_FIELD: key, VALUE_FIELD: path})
+                    else:
+                        # replace it
+                        if len(results) > 1:
+                            raise RuntimeError(
+                                f"Got {len(results)} results for model_manager. {results}"
+                            )
+                        db.update({VALUE_FIELD: path}, Model[KEY_FIELD] == key)
             return NoPublishingResults(success=True)
-- 
2.43.0


From a7b348acba1d818fb47b3820ea0dfab6b54cab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 066/117] fix: refuse a second validation or publication with
 the intended error

---
 reagent/workflow/training.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/workflow/training.py b/reagent/workflow/training.py
index 8103c65..8aefac6 100644
--- a/reagent/workflow/training.py
+++ b/reagent/workflow/training.py
@@ -225,7 +225,7 @@ def run_validator(
 ) -> RLTrainingOutput:
     assert (
         training_output.validation_result is None
-    ), f"validation_output was set to f{training_output.validation_output}"
+    ), f"validation_output was set to {training_output.validation_result}"
     model_validator = validator.value
     validation_result = model_validator.validate(training_output)
     return dataclasses.replace(training_output, validation_result=validation_result)
@@ -241,7 +241,7 @@ def run_publisher(
 ) -> RLTrainingOutput:
     assert (
         training_output.publishing_result is None
-    ), f"publishing_output was set to f{training_output.publishing_output}"
+    ), f"publishing_output was set to {training_output.publishing_result}"
     model_publisher = publisher.value
     model_manager = model_chooser.value
     publishing_result = model_publisher.publish(
-- 
2.43.0


From cf29b4642dcdab84758129ed3dd5c2f5b70121c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 067/117] fix: save each serving module under its own path

---
 reagent/workflow/model_managers/model_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/workflow/model_managers/model_manager.py b/reagent/workflow/model_managers/model_manager.py
index 31b7250..e59bb68 100644
--- a/reagent/workflow/model_managers/model_manager.py
+++ b/reagent/workflow/model_managers/model_manager.py
@@ -271,8 +271,8 @@ class ModelManager(metaclass=RegistryMeta):
         output_paths = {}
         for module_name, serving_module in self.build_serving_modules().items():
             # TODO: make this a parameter
-            torchscript_output_path = f"model_{round(time.time())}.torchscript"
-            serving_module = self.build_serving_module()
+            # every module of every run gets a file of its own
+            torchscript_output_path = f"model_{module_name}_{time.time_ns()}.torchscript"
             torch.jit.save(serving_module, torchscript_output_path)
             logger.info(f"Saved {module_name} to {torchscript_output_path}")
             output_paths[module_name] = torchscript_output_path
-- 
2.43.0


From 73bf4411ac15b5ee0c3468c6d2e8620fcf5b39bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 068/117] fix: let a union hold a member that is falsy

---
 reagent/core/tagged_union.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/core/tagged_union.py b/reagent/core/tagged_union.py
index 38b53b2..909af29 100644
--- a/reagent/core/tagged_union.py
+++ b/reagent/core/tagged_union.py
@@ -43,7 +43,9 @@ else:
         @property
         def value(self):
             selected_fields = [
-                field.name for field in fields(self) if getattr(self, field.name, None)
+                field.name
+                for field in fields(self)
+                if getattr(self, field.name, None) is not None
             ]
             assert (
                 len(selected_fields) == 1
-- 
2.43.0


From fa67e9a770639a556809cc4ed79a186be5c2ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 069/117] fix: episodes and buffer filling use exactly the step
 limit

---
 reagent/gym/datasets/replay_buffer_dataset.py | 2 +-
 reagent/gym/runners/gymrunner.py              | 2 +-
 reagent/gym/utils.py                          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/reagent/gym/datasets/replay_buffer_dataset.py b/reagent/gym/datasets/replay_buffer_dataset.py
index 466bafe..6856f50 100644
--- a/reagent/gym/datasets/replay_buffer_dataset.py
+++ b/reagent/gym/datasets/replay_buffer_dataset.py
@@ -93,7 +93,7 @@ class ReplayBufferDataset(torch.utils.data.IterableDataset):
                 action, log_prob = self._agent.act(obs, possible_actions_mask)
                 next_obs, reward, terminal, _ = self._env.step(action)
                 next_possible_actions_mask = self._env.possible_actions_mask
-                if self._max_steps is not None and num_steps >= self._max_steps:
+                if self._max_steps is not None and num_steps + 1 >= self._max_steps:
                     terminal = True
 
                 # Only partially filled. Agent can fill in more fields.
diff --git a/reagent/gym/runners/gymrunner.py b/reagent/gym/runners/gymrunner.py
index 73a58f0..495e8ad 100644
--- a/reagent/gym/runners/gymrunner.py
+++ b/reagent/gym/runners/gymrunner.py
@@ -37,7 +37,7 @@ def run_episode(
         action, log_prob = agent.act(obs, possible_actions_mask)
         next_obs, reward, terminal, _ = env.step(action)
         next_possible_actions_mask = env.possible_actions_mask
-        if max_steps is not None and num_steps >= max_steps:
+        if max_steps is not None and num_steps + 1 >= max_steps:
             terminal = True
 
         # Only partially filled. Agent can fill in more fields.
diff --git a/reagent/gym/utils.py b/reagent/gym/utils.py
index 513b18a..ecfb8c4 100644
--- a/reagent/gym/utils.py
+++ b/reagent/gym/utils.py
@@ -55,7 +55,7 @@ def fill_replay_buffer(env, replay_buffer: ReplayBuffer, desired_size: int):
         mdp_id = 0
         while replay_buffer.size < desired_size:
             last_size = replay_buffer.size
-            max_steps = desired_size - replay_buffer.size - 1
+            max_steps = desired_size - replay_buffer.size
             if max_episode_steps is not None:
                 max_steps = min(max_episode_steps, max_steps)
             run_episode(env=env, agent=agent, mdp_id=mdp_id, max_steps=max_steps)
-- 
2.43.0


From 4619efaedc69ccb2c25df15822ae52f61481ae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 070/117] fix: ChangingArms lasts its declared number of steps

---
 reagent/gym/envs/changing_arms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/gym/envs/changing_arms.py b/reagent/gym/envs/changing_arms.py
index 17afeea..0e1c27e 100644
--- a/reagent/gym/envs/changing_arms.py
+++ b/reagent/gym/envs/changing_arms.py
@@ -42,7 +42,7 @@ NUM_ARMS = 5
 # keep these constant for now
 ARM_INIT_VALUE = 100.0
 ARM_MU_DECREASE = 10.0
-MAX_STEPS = 49
+MAX_STEPS = 50
 
 
 # in the real world, IDs are not indices into embedding table
@@ -205,8 +205,8 @@ class ChangingArmsEnv(gym.Env):
         assert (
             0 <= action and action <= self.num_arms
         ), f"out-of-bounds action {action}."
-        reached_max_steps = self.num_steps >= self.max_steps
         self.num_steps += 1
+        reached_max_steps = self.num_steps >= self.max_steps
 
         # idle action
         if action == self.num_arms:
-- 
2.43.0


From ca5d3afdcfc21dc6293ef8461488894a455933ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 071/117] fix: ChangingArms offsets for rows without legal
 actions

---
 reagent/gym/envs/changing_arms.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/reagent/gym/envs/changing_arms.py b/reagent/gym/envs/changing_arms.py
index 0e1c27e..7adbd3a 100644
--- a/reagent/gym/envs/changing_arms.py
+++ b/reagent/gym/envs/changing_arms.py
@@ -155,19 +155,9 @@ class ChangingArms(EnvWrapper):
         dense_val = obs[:, 0, :].view(batch_size, self.num_arms)
         # extract one-hot encoded values from id_list
         batch_indices, id_list_val = obs[:, 1, :].nonzero(as_tuple=True)
-        offsets = []
-        prev_batch_idx = -1
-        for i, batch_idx in enumerate(batch_indices.tolist()):
-            if batch_idx > prev_batch_idx:
-                offsets.extend([i] * (batch_idx - prev_batch_idx))
-                prev_batch_idx = batch_idx
-            else:
-                assert batch_idx == prev_batch_idx
-        # handle the case of trailing empty batches
-        if batch_idx < batch_size - 1:
-            offsets.extend([i] * (batch_size - 1 - batch_idx))
-        assert len(offsets) == batch_size, f"{len(offsets)} != {batch_size}."
-        id_list_offsets = torch.tensor(offsets)
+        # row i starts after all values of the rows before it
+        lengths = torch.bincount(batch_indices, minlength=batch_size)
+        id_list_offsets = torch.cumsum(lengths, dim=0) - lengths
 
         # id_score_list is easier because not one-hot encoded
         id_score_list_offsets = torch.tensor(
-- 
2.43.0


From b7462f99cbb1b917d173e68e5d8a83559855db7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 072/117] fix: one-step episodes and one-dimensional actions
 keep their axes

---
 reagent/gym/preprocessors/trainer_preprocessor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/gym/preprocessors/trainer_preprocessor.py b/reagent/gym/preprocessors/trainer_preprocessor.py
index 247242d..eec533a 100644
--- a/reagent/gym/preprocessors/trainer_preprocessor.py
+++ b/reagent/gym/preprocessors/trainer_preprocessor.py
@@ -454,9 +454,9 @@ class PolicyGradientInputMaker:
         return _stack([_stack_slate(slate) for slate in observation])
 
     def __call__(self, trajectory: Trajectory):
-        action = torch.from_numpy(np.stack(trajectory.action).squeeze())
+        action = torch.from_numpy(np.stack(trajectory.action))
         if self.num_actions is not None:
-            action = F.one_hot(action, self.num_actions).float()
+            action = F.one_hot(action.view(len(trajectory)), self.num_actions).float()
             assert len(action.shape) == 2, f"{action.shape}"
             # one hot makes shape (batch_size, num_actions)
         state = (
-- 
2.43.0


From d9f482f5e284857629d4472ce1ab044d9106bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 073/117] fix: rescaled actions stay within the new range

---
 reagent/training/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/training/utils.py b/reagent/training/utils.py
index 5f2b720..b319fec 100644
--- a/reagent/training/utils.py
+++ b/reagent/training/utils.py
@@ -25,7 +25,9 @@ def rescale_actions(
     ), f"{new_min} is (has coordinate) greater than {new_max}."
     prev_range = prev_max - prev_min
     new_range = new_max - new_min
-    return ((actions - prev_min) / prev_range) * new_range + new_min
+    rescaled = ((actions - prev_min) / prev_range) * new_range + new_min
+    # rounding must not push an action on the boundary outside of the new range
+    return torch.max(torch.min(rescaled, new_max), new_min)
 
 
 def whiten(x: torch.Tensor, subtract_mean: bool) -> torch.Tensor:
-- 
2.43.0


From f1406d0d1eaf091125c270b99d6df80591e8ce3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 074/117] fix: n-step rewards ignore what follows the last step

---
 reagent/replay_memory/circular_replay_buffer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index f2cd11b..a7a502c 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -725,8 +725,9 @@ class ReplayBuffer(object):
     ):
         # default behavior is to sum up multi_step reward
         masks = torch.arange(self._update_horizon) < steps.unsqueeze(1)
-        rewards = self._store["reward"][multistep_indices] * self._decays * masks
-        return rewards.sum(dim=1)
+        rewards = self._store["reward"][multistep_indices] * self._decays
+        # what follows the last step may never have been written (e.g. be NaN)
+        return rewards.masked_fill(~masks, 0.0).sum(dim=1)
 
     def _get_stack_for_indices(self, key: str, indices: torch.Tensor) -> torch.Tensor:
         """ Get stack of transition data. """
-- 
2.43.0


From c7aba44199744d63714a12878d24e7166ca3f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 075/117] fix: Pocman observations lie in the declared space

---
 reagent/gym/envs/pomdp/pocman.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/gym/envs/pomdp/pocman.py b/reagent/gym/envs/pomdp/pocman.py
index aa94a51..6dae9e2 100644
--- a/reagent/gym/envs/pomdp/pocman.py
+++ b/reagent/gym/envs/pomdp/pocman.py
@@ -216,7 +216,8 @@ class PocManEnv(Env):
         self.board = select_maze("micro")
         self._get_init_state()
         self.action_space = Discrete(4)
-        self.observation_space = Box(low=0, high=1, shape=(STATE_DIM,))
+        # directions in which no ghost is seen are marked by -1
+        self.observation_space = Box(low=-1, high=1, shape=(STATE_DIM,))
         self._reward_range = 100
         self.step_cnt = 0
         self.max_steps = self.board["_max_step"]
@@ -265,7 +266,7 @@ class PocManEnv(Env):
                 self.done = True
                 break
 
-        if self.step_cnt > self.board["_max_step"]:
+        if self.step_cnt >= self.board["_max_step"]:
             self.done = True
 
         if self._agent_at_food():
-- 
2.43.0


From 9e82a4fe773e6998be1dba335b91552198ce0ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 076/117] fix: ToyVM's declared document space and initial seed
 0

---
 reagent/gym/envs/toy_vm.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/reagent/gym/envs/toy_vm.py b/reagent/gym/envs/toy_vm.py
index 54df69a..2c78104 100644
--- a/reagent/gym/envs/toy_vm.py
+++ b/reagent/gym/envs/toy_vm.py
@@ -54,9 +54,7 @@ class ToyVMEnv(gym.Env):
                 "user": gym.spaces.Box(low=0, high=1, shape=(1,)),
                 "doc": gym.spaces.Dict(
                     {
-                        str(k): gym.spaces.Box(
-                            low=0, high=1, shape=(self.slate_size, 3)
-                        )
+                        str(k): gym.spaces.Box(low=0, high=1, shape=(3,))
                         for k in range(self.slate_size)
                     }
                 ),
@@ -114,7 +112,7 @@ class ToyVM(EnvWrapper):
             ),
             zero_augment,
         )
-        if self.initial_seed:
+        if self.initial_seed is not None:
             env.seed(self.initial_seed)
         return env
 
-- 
2.43.0


From 9319e3773578838ebc26d1aca3f72553e4cba690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 077/117] fix: OraclePVM's reward is the Kendall-Tau of the
 rankings

---
 reagent/gym/envs/oracle_pvm.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/reagent/gym/envs/oracle_pvm.py b/reagent/gym/envs/oracle_pvm.py
index cd54338..0de1971 100644
--- a/reagent/gym/envs/oracle_pvm.py
+++ b/reagent/gym/envs/oracle_pvm.py
@@ -121,13 +121,38 @@ class OraclePVM(RecSim):
         if num_matches == self.slate_size:
             reward = MATCH_REWARD_BOOST
         else:
-            reward, _p_value = stats.kendalltau(ground_truth_ranking, policy_ranking)
+            # Kendall-Tau is over the rank of each candidate in the two rankings
+            reward, _p_value = stats.kendalltau(
+                np.argsort(ground_truth_ranking), np.argsort(policy_ranking)
+            )
         return self.prev_obs, reward, t, None
 
     def is_match(self, reward):
         # for evaluation, return true iff the reward represents a match
         return reward > (MATCH_REWARD_BOOST - 1e-6)
 
+    @property
+    def observation_space(self):
+        # reset() replaces RecSim's user and candidate features
+        return gym.spaces.Dict(
+            {
+                **self.env.observation_space.spaces,
+                "user": gym.spaces.Box(low=0, high=1, shape=(self.user_feat_dim,)),
+                "doc": gym.spaces.Dict(
+                    {
+                        str(i): gym.spaces.Box(
+                            low=0, high=1, shape=(self.candidate_feat_dim,)
+                        )
+                        for i in range(self.num_candidates)
+                    }
+                ),
+            }
+        )
+
+    @observation_space.setter
+    def observation_space(self, val):
+        pass
+
     @property
     def action_space(self):
         return gym.spaces.Box(
-- 
2.43.0


From a7e9fa5d5018d4d23186eb11d0c291e8a0bb5be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 078/117] fix: object_to_json accepts objects that are not
 NamedTuple classes

---
 reagent/json_serialize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/json_serialize.py b/reagent/json_serialize.py
index 7169308..19bd197 100644
--- a/reagent/json_serialize.py
+++ b/reagent/json_serialize.py
@@ -5,7 +5,7 @@ import collections
 import json
 import logging
 from dataclasses import asdict, dataclass, fields, is_dataclass
-from typing import Any, NamedTuple, Type, Union
+from typing import Any, Type, Union
 
 
 logger = logging.getLogger(__name__)
@@ -17,7 +17,8 @@ def object_to_json(o: Any) -> str:
 
 
 def prepare_for_json(o: Any) -> Any:
-    if isinstance(o, NamedTuple):
+    if isinstance(o, tuple) and hasattr(o, "_fields"):
+        # NamedTuple is not a class instances can be tested against
         d = {}
         for field_name in o._fields:
             d[field_name] = prepare_for_json(getattr(o, field_name))
-- 
2.43.0


From 98a2cc1584b3dc41c83f934e0f2e206c7a84914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 079/117] fix: loss reporter passes the epoch as global_step

---
 reagent/training/loss_reporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/loss_reporter.py b/reagent/training/loss_reporter.py
index 458eb32..e5b1d62 100644
--- a/reagent/training/loss_reporter.py
+++ b/reagent/training/loss_reporter.py
@@ -345,7 +345,7 @@ class LossReporter(object):
             ("Training/reward_loss", self.get_recent_reward_loss()),
             ("Training/imitator_loss", self.get_recent_imitator_loss()),
         ]:
-            SummaryWriterContext.add_scalar(name, none_to_zero(value), epoch)
+            SummaryWriterContext.add_scalar(name, none_to_zero(value), global_step=epoch)
 
     @staticmethod
     def calculate_recent_window_average(arr, window_size, num_entries):
-- 
2.43.0


From 35783a3f42fbef0fddcef3d76cc7c0527d8164a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 080/117] fix: learning rate schedulers are found under torch 2

---
 reagent/optimizer/optimizer.py |  4 ++--
 reagent/optimizer/scheduler.py |  4 ++--
 reagent/optimizer/utils.py     | 11 ++++++++++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/reagent/optimizer/optimizer.py b/reagent/optimizer/optimizer.py
index 9b91eab..589e5c8 100644
--- a/reagent/optimizer/optimizer.py
+++ b/reagent/optimizer/optimizer.py
@@ -49,14 +49,14 @@ from reagent.core.dataclasses import dataclass, field
 from reagent.core.registry_meta import RegistryMeta
 
 from .scheduler import LearningRateSchedulerConfig
-from .utils import is_torch_optimizer
+from .utils import TORCH_LR_SCHEDULER_BASE, is_torch_optimizer
 
 
 @dataclass(frozen=True)
 class Optimizer:
     # This is the wrapper for optimizer + scheduler
     optimizer: torch.optim.Optimizer
-    lr_schedulers: List[torch.optim.lr_scheduler._LRScheduler]
+    lr_schedulers: List[TORCH_LR_SCHEDULER_BASE]
 
     def step(self, closure=None):
         self.optimizer.step(closure=closure)
diff --git a/reagent/optimizer/scheduler.py b/reagent/optimizer/scheduler.py
index dacb2e8..e35f875 100644
--- a/reagent/optimizer/scheduler.py
+++ b/reagent/optimizer/scheduler.py
@@ -7,14 +7,14 @@ import torch
 from reagent.core.dataclasses import dataclass
 from reagent.core.registry_meta import RegistryMeta
 
-from .utils import is_torch_lr_scheduler
+from .utils import TORCH_LR_SCHEDULER_BASE, is_torch_lr_scheduler
 
 
 @dataclass(frozen=True)
 class LearningRateSchedulerConfig(metaclass=RegistryMeta):
     def make_from_optimizer(
         self, optimizer: torch.optim.Optimizer
-    ) -> torch.optim.lr_scheduler._LRScheduler:
+    ) -> TORCH_LR_SCHEDULER_BASE:
         torch_lr_scheduler_class = getattr(
             torch.optim.lr_scheduler, type(self).__name__
         )
diff --git a/reagent/optimizer/utils.py b/reagent/optimizer/utils.py
index cc632eb..1fc2628 100644
--- a/reagent/optimizer/utils.py
+++ b/reagent/optimizer/utils.py
@@ -3,6 +3,11 @@
 import inspect
 
 import torch
+from torch.optim import lr_scheduler
+
+# torch 2 made LRScheduler the base class of its schedulers; _LRScheduler, which was
+# the base class before, is only a subclass of it there
+TORCH_LR_SCHEDULER_BASE = getattr(lr_scheduler, "LRScheduler", lr_scheduler._LRScheduler)
 
 
 def is_strict_subclass(a, b):
@@ -16,4 +21,8 @@ def is_torch_optimizer(cls):
 
 
 def is_torch_lr_scheduler(cls):
-    return is_strict_subclass(cls, torch.optim.lr_scheduler._LRScheduler)
+    # ReduceLROnPlateau steps on a metric, so it can't be chained with the others
+    return is_strict_subclass(cls, TORCH_LR_SCHEDULER_BASE) and cls not in (
+        lr_scheduler._LRScheduler,
+        lr_scheduler.ReduceLROnPlateau,
+    )
-- 
2.43.0


From b56e8e6044f613f3c3b318a161b81994f300b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 081/117] fix: optimizer options skip torch parameters they do
 not offer

---
 reagent/optimizer/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/optimizer/optimizer.py b/reagent/optimizer/optimizer.py
index 589e5c8..14b9da6 100644
--- a/reagent/optimizer/optimizer.py
+++ b/reagent/optimizer/optimizer.py
@@ -81,7 +81,8 @@ class OptimizerConfig(metaclass=RegistryMeta):
         filtered_args = {
             k: getattr(self, k)
             for k in inspect.signature(torch_optimizer_class).parameters
-            if k != "params"
+            # torch may know parameters which this option doesn't offer
+            if k != "params" and hasattr(self, k)
         }
         optimizer = torch_optimizer_class(params=params, **filtered_args)
         lr_schedulers = [
-- 
2.43.0


From 26ce6cab40fd4189c102fab2b9f1c77b8228f222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 082/117] fix: lr_schedulers accepts schedulers named as
 documented

---
 reagent/optimizer/optimizer.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/reagent/optimizer/optimizer.py b/reagent/optimizer/optimizer.py
index 14b9da6..b900c0f 100644
--- a/reagent/optimizer/optimizer.py
+++ b/reagent/optimizer/optimizer.py
@@ -42,13 +42,14 @@ class Trainer:
         self.optimizer.step()
 """
 import inspect
-from typing import List
+from typing import List, Union
 
 import torch
 from reagent.core.dataclasses import dataclass, field
 from reagent.core.registry_meta import RegistryMeta
 
 from .scheduler import LearningRateSchedulerConfig
+from .scheduler_union import LearningRateScheduler__Union
 from .utils import TORCH_LR_SCHEDULER_BASE, is_torch_optimizer
 
 
@@ -70,7 +71,9 @@ class Optimizer:
 @dataclass(frozen=True)
 class OptimizerConfig(metaclass=RegistryMeta):
     # optional config if you want to use (potentially chained) lr scheduler
-    lr_schedulers: List[LearningRateSchedulerConfig] = field(default_factory=list)
+    lr_schedulers: List[
+        Union[LearningRateSchedulerConfig, LearningRateScheduler__Union]
+    ] = field(default_factory=list)
 
     def make_optimizer(self, params) -> Optimizer:
         # Assuming the classname is the same as the torch class name
@@ -86,7 +89,11 @@ class OptimizerConfig(metaclass=RegistryMeta):
         }
         optimizer = torch_optimizer_class(params=params, **filtered_args)
         lr_schedulers = [
-            lr_scheduler.make_from_optimizer(optimizer)
+            (
+                lr_scheduler.value
+                if isinstance(lr_scheduler, LearningRateScheduler__Union)
+                else lr_scheduler
+            ).make_from_optimizer(optimizer)
             for lr_scheduler in self.lr_schedulers
         ]
         return Optimizer(optimizer=optimizer, lr_schedulers=lr_schedulers)
-- 
2.43.0


From 91c156069b4d5abc8831c431ef29c4690fd51105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 083/117] fix: slate and reward trainers resolve their default
 options

---
 reagent/training/ranking/seq2slate_attn_trainer.py | 2 ++
 reagent/training/ranking/seq2slate_dr_trainer.py   | 2 ++
 reagent/training/ranking/seq2slate_sim_trainer.py  | 2 ++
 reagent/training/ranking/seq2slate_tf_trainer.py   | 2 ++
 reagent/training/ranking/seq2slate_trainer.py      | 2 ++
 reagent/training/reward_network_trainer.py         | 2 ++
 reagent/training/slate_q_trainer.py                | 2 ++
 7 files changed, 14 insertions(+)

diff --git a/reagent/training/ranking/seq2slate_attn_trainer.py b/reagent/training/ranking/seq2slate_attn_trainer.py
index 1c11f26..55dd000 100644
--- a/reagent/training/ranking/seq2slate_attn_trainer.py
+++ b/reagent/training/ranking/seq2slate_attn_trainer.py
@@ -5,6 +5,7 @@ import logging
 import reagent.types as rlt
 import torch
 import torch.nn as nn
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.core.tracker import observable
 from reagent.model_utils.seq2slate_utils import Seq2SlateMode
@@ -25,6 +26,7 @@ class Seq2SlatePairwiseAttnTrainer(Trainer):
     https://arxiv.org/pdf/1904.06813.pdf )
     """
 
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/ranking/seq2slate_dr_trainer.py b/reagent/training/ranking/seq2slate_dr_trainer.py
index d63d110..7d78a4b 100644
--- a/reagent/training/ranking/seq2slate_dr_trainer.py
+++ b/reagent/training/ranking/seq2slate_dr_trainer.py
@@ -6,6 +6,7 @@ import reagent.types as rlt
 import torch
 import torch.nn as nn
 import torch.nn.functional as F
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.model_utils.seq2slate_utils import (
     Seq2SlateMode,
@@ -27,6 +28,7 @@ class Seq2SlateDifferentiableRewardTrainer(Trainer):
     https://arxiv.org/pdf/1810.02019.pdf )
     """
 
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/ranking/seq2slate_sim_trainer.py b/reagent/training/ranking/seq2slate_sim_trainer.py
index d9df4f1..f85ca02 100644
--- a/reagent/training/ranking/seq2slate_sim_trainer.py
+++ b/reagent/training/ranking/seq2slate_sim_trainer.py
@@ -7,6 +7,7 @@ from typing import List, Optional
 import numpy as np
 import reagent.types as rlt
 import torch
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.core.tracker import observable
 from reagent.models.seq2slate import BaselineNet, Seq2SlateMode, Seq2SlateTransformerNet
@@ -74,6 +75,7 @@ class Seq2SlateSimulationTrainer(Trainer):
     generated randomly and the reward computed by a reward network
     """
 
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/ranking/seq2slate_tf_trainer.py b/reagent/training/ranking/seq2slate_tf_trainer.py
index b79571c..86ba91c 100644
--- a/reagent/training/ranking/seq2slate_tf_trainer.py
+++ b/reagent/training/ranking/seq2slate_tf_trainer.py
@@ -6,6 +6,7 @@ import reagent.types as rlt
 import torch
 import torch.nn as nn
 import torch.nn.functional as F
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.model_utils.seq2slate_utils import Seq2SlateMode
 from reagent.models.seq2slate import Seq2SlateTransformerNet
@@ -23,6 +24,7 @@ class Seq2SlateTeacherForcingTrainer(Trainer):
     the ground-truth sequences are available)
     """
 
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/ranking/seq2slate_trainer.py b/reagent/training/ranking/seq2slate_trainer.py
index 09d1853..3530709 100644
--- a/reagent/training/ranking/seq2slate_trainer.py
+++ b/reagent/training/ranking/seq2slate_trainer.py
@@ -5,6 +5,7 @@ from typing import Optional, Tuple
 
 import reagent.types as rlt
 import torch
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.core.tracker import observable
 from reagent.model_utils.seq2slate_utils import Seq2SlateMode
@@ -28,6 +29,7 @@ logger = logging.getLogger(__name__)
     train_advantages=torch.Tensor,
 )
 class Seq2SlateTrainer(Trainer):
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/reward_network_trainer.py b/reagent/training/reward_network_trainer.py
index c72ec7f..065e75c 100644
--- a/reagent/training/reward_network_trainer.py
+++ b/reagent/training/reward_network_trainer.py
@@ -6,6 +6,7 @@ from typing import Optional
 
 import reagent.types as rlt
 import torch
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.models.base import ModelBase
 from reagent.optimizer.union import Optimizer__Union
@@ -54,6 +55,7 @@ def _get_loss_function(loss_fn: LossFunction, reward_ignore_threshold):
 
 
 class RewardNetTrainer(Trainer):
+    @resolve_defaults
     def __init__(
         self,
         reward_net: ModelBase,
diff --git a/reagent/training/slate_q_trainer.py b/reagent/training/slate_q_trainer.py
index 53be5bf..40e61e3 100644
--- a/reagent/training/slate_q_trainer.py
+++ b/reagent/training/slate_q_trainer.py
@@ -8,6 +8,7 @@ import reagent.parameters as rlp
 import reagent.types as rlt
 import torch
 import torch.nn.functional as F
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.optimizer import Optimizer__Union, SoftUpdate
 from reagent.training.reagent_lightning_module import ReAgentLightningModule
@@ -17,6 +18,7 @@ logger = logging.getLogger(__name__)
 
 
 class SlateQTrainer(RLTrainerMixin, ReAgentLightningModule):
+    @resolve_defaults
     def __init__(
         self,
         q_network,
-- 
2.43.0


From b948bcda50527136d5f69cf4062b40d98bcd2b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 084/117] fix: mask every atom of an impossible action

---
 reagent/models/dqn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reagent/models/dqn.py b/reagent/models/dqn.py
index 1b9b257..0873870 100644
--- a/reagent/models/dqn.py
+++ b/reagent/models/dqn.py
@@ -54,6 +54,10 @@ class FullyConnectedDQN(ModelBase):
         if self.num_atoms is not None:
             x = x.view(float_features.shape[0], self.action_dim, self.num_atoms)
         if possible_actions_mask is not None:
+            penalty = (1 - possible_actions_mask.float()) * 1e10
+            if self.num_atoms is not None:
+                # the mask is per action, so it applies to all atoms of the action
+                penalty = penalty.unsqueeze(2)
             # subtract huge value from impossible actions to force their probabilities to 0
-            x = x - (1 - possible_actions_mask.float()) * 1e10
+            x = x - penalty
         return x
-- 
2.43.0


From 2101e1bede37be18276d46482fd00a35c74071f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 085/117] fix: let the actor net builders apply use_layer_norm

---
 reagent/models/actor.py                                 | 2 ++
 reagent/net_builder/continuous_actor/fully_connected.py | 1 +
 reagent/net_builder/discrete_actor/fully_connected.py   | 1 +
 3 files changed, 4 insertions(+)

diff --git a/reagent/models/actor.py b/reagent/models/actor.py
index 0660e0a..6d0f91a 100644
--- a/reagent/models/actor.py
+++ b/reagent/models/actor.py
@@ -41,6 +41,7 @@ class FullyConnectedActor(ModelBase):
         use_batch_norm: bool = False,
         action_activation: str = "tanh",
         exploration_variance: Optional[float] = None,
+        use_layer_norm: bool = False,
     ):
         super().__init__()
         assert state_dim > 0, "state_dim must be > 0, got {}".format(state_dim)
@@ -57,6 +58,7 @@ class FullyConnectedActor(ModelBase):
             [state_dim] + sizes + [action_dim],
             activations + [self.action_activation],
             use_batch_norm=use_batch_norm,
+            use_layer_norm=use_layer_norm,
         )
 
         # Gaussian noise for exploration.
diff --git a/reagent/net_builder/continuous_actor/fully_connected.py b/reagent/net_builder/continuous_actor/fully_connected.py
index 4b11355..43271b1 100644
--- a/reagent/net_builder/continuous_actor/fully_connected.py
+++ b/reagent/net_builder/continuous_actor/fully_connected.py
@@ -50,6 +50,7 @@ class FullyConnected(ContinuousActorNetBuilder):
             sizes=self.sizes,
             activations=self.activations,
             use_batch_norm=self.use_batch_norm,
+            use_layer_norm=self.use_layer_norm,
             action_activation=self.action_activation,
             exploration_variance=self.exploration_variance,
         )
diff --git a/reagent/net_builder/discrete_actor/fully_connected.py b/reagent/net_builder/discrete_actor/fully_connected.py
index 4191b7b..6d834b6 100644
--- a/reagent/net_builder/discrete_actor/fully_connected.py
+++ b/reagent/net_builder/discrete_actor/fully_connected.py
@@ -42,6 +42,7 @@ class FullyConnected(DiscreteActorNetBuilder):
             sizes=self.sizes,
             activations=self.activations,
             use_batch_norm=self.use_batch_norm,
+            use_layer_norm=self.use_layer_norm,
             action_activation=self.action_activation,
             exploration_variance=self.exploration_variance,
         )
-- 
2.43.0


From bd699395d24f541182e72c05591380d3e6cc758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 086/117] fix: let the parametric dueling network apply
 use_batch_norm

---
 reagent/models/dueling_q_network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/models/dueling_q_network.py b/reagent/models/dueling_q_network.py
index 3681a9f..0c16498 100644
--- a/reagent/models/dueling_q_network.py
+++ b/reagent/models/dueling_q_network.py
@@ -153,6 +153,7 @@ class ParametricDuelingQNetwork(ModelBase):
             sizes=layers[:-1],
             activations=activations[:-1],
             normalized_output=True,
+            use_batch_norm=use_batch_norm,
         )
         advantage_network = FullyConnectedCritic(
             state_embedding_dim,
-- 
2.43.0


From 5b91458efab03e333eebb69c006d380f14cdea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 087/117] fix: return fitting prototypes from the slate scorer

---
 reagent/models/mlp_scorer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/reagent/models/mlp_scorer.py b/reagent/models/mlp_scorer.py
index f6a0eb8..b944917 100644
--- a/reagent/models/mlp_scorer.py
+++ b/reagent/models/mlp_scorer.py
@@ -34,6 +34,7 @@ class MLPScorer(ModelBase):
         all_layers = list(itertools.chain.from_iterable(zip(fc_layers, relu_layers)))[
             :-1
         ]  # drop last relu layer
+        self.input_dim = input_dim
         self.concat = concat
         self.log_transform = log_transform
         self.mlp = nn.Sequential(*all_layers)
@@ -57,10 +58,11 @@ class MLPScorer(ModelBase):
     def input_prototype(self):
         # Sample config for input
         batch_size = 2
-        state_dim = 5
+        # the user and document features add up to the input only if concatenated
+        state_dim = self.input_dim // 2 if self.concat else 5
         num_docs = 3
-        candidate_dim = 4
-        rlt.FeatureData(
+        candidate_dim = self.input_dim - state_dim if self.concat else self.input_dim
+        return rlt.FeatureData(
             float_features=torch.randn((batch_size, state_dim)),
             candidate_docs=rlt.DocList(
                 float_features=torch.randn(batch_size, num_docs, candidate_dim)
-- 
2.43.0


From 087abf1d7c62b00fca0464667083de283d8100ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 088/117] fix: take the maximum reward over the actions that
 were fed back

---
 serving/reagent/serving/core/DecisionService.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serving/reagent/serving/core/DecisionService.cpp b/serving/reagent/serving/core/DecisionService.cpp
index 8869204..9a389d9 100644
--- a/serving/reagent/serving/core/DecisionService.cpp
+++ b/serving/reagent/serving/core/DecisionService.cpp
@@ -64,6 +64,7 @@ void DecisionService::computeRewardAndLogFeedback(Feedback feedback) {
 
   // Turn metrics -> rewards
   double aggregateReward = 0.0;
+  bool firstAction = true;
   for (auto& it : feedback.actions) {
     double reward = 0.0;
     if (!plan->getConfig().reward_function.empty()) {
@@ -73,7 +74,8 @@ void DecisionService::computeRewardAndLogFeedback(Feedback feedback) {
     it.computed_reward = reward;
     switch (plan->getConfig().reward_aggregator) {
       case DRA_MAX:
-        aggregateReward = std::max(aggregateReward, reward);
+        aggregateReward =
+            firstAction ? reward : std::max(aggregateReward, reward);
         break;
       case DRA_SUM:
         aggregateReward = aggregateReward + reward;
@@ -81,6 +83,7 @@ void DecisionService::computeRewardAndLogFeedback(Feedback feedback) {
       default:
         LOG_AND_THROW("Invalid reward aggregator");
     }
+    firstAction = false;
   }
   feedback.computed_reward = aggregateReward;
 
-- 
2.43.0


From 3713c9988a86c8cd873b5906d0fee615c5a13650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 089/117] fix: guard shared parameters against parallel
 operators

---
 serving/reagent/serving/core/SharedParameterHandler.cpp | 2 ++
 serving/reagent/serving/core/SharedParameterHandler.h   | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/serving/reagent/serving/core/SharedParameterHandler.cpp b/serving/reagent/serving/core/SharedParameterHandler.cpp
index 411b19d..b8af879 100644
--- a/serving/reagent/serving/core/SharedParameterHandler.cpp
+++ b/serving/reagent/serving/core/SharedParameterHandler.cpp
@@ -4,6 +4,7 @@ namespace reagent {
 SharedParameterHandler::SharedParameterHandler() {}
 
 StringDoubleMap SharedParameterHandler::getValues(const std::string& name) {
+  std::lock_guard<std::mutex> lock(parametersMutex_);
   if (parameters_.find(name) == parameters_.end()) {
     // Add the parameter
     parameters_[name] = std::make_shared<SharedParameterInfo>(name);
@@ -20,6 +21,7 @@ bool SharedParameterHandler::acquireLockToModifyParameter(const std::string&) {
 void SharedParameterHandler::updateParameter(
     const std::string& name,
     const StringDoubleMap& values) {
+  std::lock_guard<std::mutex> lock(parametersMutex_);
   auto it = parameters_.find(name);
   if (it == parameters_.end()) {
     LOG_AND_THROW("Tried to update a parameter that doesn't exist: " << name);
diff --git a/serving/reagent/serving/core/SharedParameterHandler.h b/serving/reagent/serving/core/SharedParameterHandler.h
index 52f7295..187016f 100644
--- a/serving/reagent/serving/core/SharedParameterHandler.h
+++ b/serving/reagent/serving/core/SharedParameterHandler.h
@@ -22,7 +22,7 @@ class SharedParameterInfo {
 
  protected:
   std::string name_;
-  time_t lastFetchTime_;
+  time_t lastFetchTime_ = 0;
   StringDoubleMap values_;
 };
 
@@ -43,6 +43,7 @@ class SharedParameterHandler {
       const StringDoubleMap& values);
 
  protected:
+  std::mutex parametersMutex_;
   std::unordered_map<std::string, std::shared_ptr<SharedParameterInfo>>
       parameters_;
 
-- 
2.43.0


From fb1f8b8135403f42e2bc27f2f331c54d1301778d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 090/117] fix: guard the real-time counter and define the mean
 of a cleared key

---
 serving/reagent/serving/core/LocalRealTimeCounter.cpp | 9 +++++++--
 serving/reagent/serving/core/LocalRealTimeCounter.h   | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/serving/reagent/serving/core/LocalRealTimeCounter.cpp b/serving/reagent/serving/core/LocalRealTimeCounter.cpp
index 8e28826..c5372ff 100644
--- a/serving/reagent/serving/core/LocalRealTimeCounter.cpp
+++ b/serving/reagent/serving/core/LocalRealTimeCounter.cpp
@@ -3,6 +3,7 @@
 namespace reagent {
 
 int64_t LocalRealTimeCounter::getNumSamples(const std::string& key) {
+  std::lock_guard<std::recursive_mutex> lock(countsMutex_);
   auto it = counts_.find(key);
   if (it == counts_.end()) {
     return 0;
@@ -11,8 +12,9 @@ int64_t LocalRealTimeCounter::getNumSamples(const std::string& key) {
 }
 
 double LocalRealTimeCounter::getMean(const std::string& key) {
+  std::lock_guard<std::recursive_mutex> lock(countsMutex_);
   auto it = counts_.find(key);
-  if (it == counts_.end()) {
+  if (it == counts_.end() || it->second.empty()) {
     return 0;
   }
   auto& v = it->second;
@@ -24,8 +26,9 @@ double LocalRealTimeCounter::getMean(const std::string& key) {
 }
 
 double LocalRealTimeCounter::getVariance(const std::string& key) {
+  std::lock_guard<std::recursive_mutex> lock(countsMutex_);
   auto it = counts_.find(key);
-  if (it == counts_.end()) {
+  if (it == counts_.end() || it->second.empty()) {
     return 0;
   }
   auto& v = it->second;
@@ -38,6 +41,7 @@ double LocalRealTimeCounter::getVariance(const std::string& key) {
 }
 
 void LocalRealTimeCounter::addValue(const std::string& key, double value) {
+  std::lock_guard<std::recursive_mutex> lock(countsMutex_);
   auto it = counts_.find(key);
   if (it == counts_.end()) {
     counts_[key] = std::deque<double>();
@@ -50,6 +54,7 @@ void LocalRealTimeCounter::addValue(const std::string& key, double value) {
 }
 
 void LocalRealTimeCounter::clear(const std::string& key) {
+  std::lock_guard<std::recursive_mutex> lock(countsMutex_);
   auto it = counts_.find(key);
   if (it != counts_.end()) {
     it->second.clear();
diff --git a/serving/reagent/serving/core/LocalRealTimeCounter.h b/serving/reagent/serving/core/LocalRealTimeCounter.h
index e04804b..fc5a56b 100644
--- a/serving/reagent/serving/core/LocalRealTimeCounter.h
+++ b/serving/reagent/serving/core/LocalRealTimeCounter.h
@@ -23,6 +23,7 @@ class LocalRealTimeCounter : public RealTimeCounter {
   virtual void clear(const std::string& key) override;
 
  protected:
+  std::recursive_mutex countsMutex_;
   std::unordered_map<std::string, std::deque<double>> counts_;
   int windowSize_;
 };
-- 
2.43.0


From b2693feb15fe0c5a6a0f0ea2522c2f29367d1034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 091/117] fix: refuse a request whose operator throws instead
 of ending the process

---
 .../reagent/serving/core/OperatorRunner.cpp   | 55 +++++++++++++------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/serving/reagent/serving/core/OperatorRunner.cpp b/serving/reagent/serving/core/OperatorRunner.cpp
index 0848262..dfe1107 100644
--- a/serving/reagent/serving/core/OperatorRunner.cpp
+++ b/serving/reagent/serving/core/OperatorRunner.cpp
@@ -11,6 +11,7 @@ StringOperatorDataMap OperatorRunner::run(
     const OperatorData& extraInput) {
   StringOperatorDataMap finishedOperators;
   std::mutex finishedOperatorMutex;
+  std::exception_ptr operatorError;
   tf::Taskflow taskflow;
 
   std::unordered_map<std::string, tf::Task> operatorTaskMap;
@@ -28,29 +29,44 @@ StringOperatorDataMap OperatorRunner::run(
   // Create tasks for all operators
   for (const auto& op : operators) {
     operatorTaskMap[op->getName()] = taskflow.emplace(
-        [op, &request, &finishedOperators, &finishedOperatorMutex]() {
-          // Resolve input symbols
-          StringOperatorDataMap namedInputs;
-          {
-            std::lock_guard<std::mutex> lock(finishedOperatorMutex);
-            for (const auto& inputDepEntry : op->getInputDepMap()) {
-              const auto& inputName = inputDepEntry.first;
-              const auto& depOperatorName = inputDepEntry.second;
-              auto it = finishedOperators.find(depOperatorName);
-              if (it == finishedOperators.end()) {
-                LOG(ERROR) << "Could not find data for finished operator";
+        [op, &request, &finishedOperators, &finishedOperatorMutex,
+         &operatorError]() {
+          // An exception must not escape into the executor's threads, so it is
+          // kept and thrown again once the graph is done.
+          try {
+            // Resolve input symbols
+            StringOperatorDataMap namedInputs;
+            {
+              std::lock_guard<std::mutex> lock(finishedOperatorMutex);
+              for (const auto& inputDepEntry : op->getInputDepMap()) {
+                const auto& inputName = inputDepEntry.first;
+                const auto& depOperatorName = inputDepEntry.second;
+                auto it = finishedOperators.find(depOperatorName);
+                if (it == finishedOperators.end()) {
+                  if (operatorError) {
+                    return;  // The operator we depend on failed
+                  }
+                  LOG_AND_THROW("Could not find data of "
+                                << depOperatorName
+                                << " for operator: " << op->getName());
+                }
+                namedInputs[inputName] = it->second;
               }
-              namedInputs[inputName] = it->second;
             }
-          }
 
-          // Run the op
-          OperatorData outputData = op->run(request, namedInputs);
+            // Run the op
+            OperatorData outputData = op->run(request, namedInputs);
 
-          // Set output data
-          {
+            // Set output data
+            {
+              std::lock_guard<std::mutex> lock(finishedOperatorMutex);
+              finishedOperators[op->getName()] = outputData;
+            }
+          } catch (...) {
             std::lock_guard<std::mutex> lock(finishedOperatorMutex);
-            finishedOperators[op->getName()] = outputData;
+            if (!operatorError) {
+              operatorError = std::current_exception();
+            }
           }
         });
   }
@@ -75,6 +91,9 @@ StringOperatorDataMap OperatorRunner::run(
     LOG_AND_THROW("Unknown error in DAG");
   }
 
+  if (operatorError) {
+    std::rethrow_exception(operatorError);
+  }
   if (finishedOperators.size() != operators.size() + 1 + constants.size()) {
     LOG_AND_THROW("DAG Incomplete");
   }
-- 
2.43.0


From 350c871b4d45f6951a6c4c22069b70a96a10ba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 092/117] fix: report the probability with which epsilon-greedy
 picks, and honour the seed

---
 .../serving/operators/EpsilonGreedyRanker.cpp | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/serving/reagent/serving/operators/EpsilonGreedyRanker.cpp b/serving/reagent/serving/operators/EpsilonGreedyRanker.cpp
index d747445..455d751 100644
--- a/serving/reagent/serving/operators/EpsilonGreedyRanker.cpp
+++ b/serving/reagent/serving/operators/EpsilonGreedyRanker.cpp
@@ -8,6 +8,9 @@ OperatorData EpsilonGreedyRanker::run(
   const StringDoubleMap& input =
       std::get<StringDoubleMap>(namedInputs.at("values"));
   double epsilon = std::get<double>(namedInputs.at("epsilon"));
+  if (namedInputs.count("seed") > 0) {
+    generator_.seed(int(std::get<int64_t>(namedInputs.at("seed"))));
+  }
   OperatorData ret = runInternal(input, epsilon);
   return ret;
 }
@@ -27,17 +30,18 @@ RankedActionList EpsilonGreedyRanker::runInternal(
   double rollingPropensity = 1.0;
 
   while (names.size() > 0) {
-    double r = (double(std::rand()) / RAND_MAX);
-    int idx;
-
-    if (r < epsilon) {
-      idx = std::rand() % names.size();
-      rollingPropensity *= epsilon;
-    } else {
-      idx = std::distance(
-          tmpValues.begin(), max_element(tmpValues.begin(), tmpValues.end()));
-      rollingPropensity *= (1.0 - epsilon);
+    const int bestIdx = std::distance(
+        tmpValues.begin(), max_element(tmpValues.begin(), tmpValues.end()));
+    int idx = bestIdx;
+    if (std::uniform_real_distribution<double>(0.0, 1.0)(generator_) < epsilon) {
+      idx = std::uniform_int_distribution<int>(0, names.size() - 1)(generator_);
+    }
+    // The best action can also be picked while exploring
+    double propensity = epsilon / names.size();
+    if (idx == bestIdx) {
+      propensity += 1.0 - epsilon;
     }
+    rollingPropensity *= propensity;
 
     rankedList.push_back({names[idx], rollingPropensity});
     names.erase(names.begin() + idx);
-- 
2.43.0


From c49d087706d5d09095634630f4d0d13808f8028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 093/117] fix: honour the softmax ranker's seed

---
 serving/reagent/serving/operators/SoftmaxRanker.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serving/reagent/serving/operators/SoftmaxRanker.cpp b/serving/reagent/serving/operators/SoftmaxRanker.cpp
index 2becc73..d681ecb 100644
--- a/serving/reagent/serving/operators/SoftmaxRanker.cpp
+++ b/serving/reagent/serving/operators/SoftmaxRanker.cpp
@@ -16,6 +16,9 @@ OperatorData SoftmaxRanker::run(const DecisionRequest&,
   const StringDoubleMap& input =
       std::get<StringDoubleMap>(namedInputs.at("values"));
   double temperature = std::get<double>(namedInputs.at("temperature"));
+  if (namedInputs.count("seed") > 0) {
+    generator_.seed(int(std::get<int64_t>(namedInputs.at("seed"))));
+  }
   OperatorData ret = run(input, temperature);
   return ret;
 }
-- 
2.43.0


From bc57ec08856f4ace1c634025f0348ba423051083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 094/117] fix: handle softmax and bandits without actions

---
 serving/reagent/serving/operators/Softmax.cpp | 3 +++
 serving/reagent/serving/operators/Ucb.cpp     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/serving/reagent/serving/operators/Softmax.cpp b/serving/reagent/serving/operators/Softmax.cpp
index b0e91f1..59189bb 100644
--- a/serving/reagent/serving/operators/Softmax.cpp
+++ b/serving/reagent/serving/operators/Softmax.cpp
@@ -13,6 +13,9 @@ OperatorData Softmax::run(const DecisionRequest&,
 }
 
 StringDoubleMap Softmax::run(const StringDoubleMap& input, double temperature) {
+  if (input.empty()) {
+    return {};
+  }
   Eigen::ArrayXd v(input.size());
   StringList names;
   for (auto& it : input) {
diff --git a/serving/reagent/serving/operators/Ucb.cpp b/serving/reagent/serving/operators/Ucb.cpp
index ebbac84..a3459e4 100644
--- a/serving/reagent/serving/operators/Ucb.cpp
+++ b/serving/reagent/serving/operators/Ucb.cpp
@@ -36,6 +36,9 @@ OperatorData Ucb::run(const DecisionRequest& request,
 RankedActionList Ucb::runInternal(const DecisionRequest& request,
                                   const std::string& method) {
   auto arms = Operator::getActionNamesFromRequest(request);
+  if (arms.empty()) {
+    LOG_AND_THROW("The request has no actions");
+  }
 
   int64_t totalPulls = 0;
   Eigen::ArrayXd armPulls(arms.size());
-- 
2.43.0


From 288f9767f757117f7277e97658c2c283b8e491cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 095/117] fix: refuse equations that do not compile

---
 serving/reagent/serving/operators/Expression.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serving/reagent/serving/operators/Expression.cpp b/serving/reagent/serving/operators/Expression.cpp
index a9d5302..638850f 100644
--- a/serving/reagent/serving/operators/Expression.cpp
+++ b/serving/reagent/serving/operators/Expression.cpp
@@ -46,7 +46,9 @@ double Expression::runInternal(
   expression.register_symbol_table(symbolTable);
 
   exprtk::parser<double> parser;
-  parser.compile(equation, expression);
+  if (!parser.compile(equation, expression)) {
+    LOG_AND_THROW("Could not compile the equation: " << equation);
+  }
 
   double value = expression.value();
   return value;
-- 
2.43.0


From be74f3c1a9c69594b02aa342ebe11addccb8e867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 096/117] fix: refuse rewards that cannot be computed

---
 serving/reagent/serving/core/DecisionPlan.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/serving/reagent/serving/core/DecisionPlan.cpp b/serving/reagent/serving/core/DecisionPlan.cpp
index 427d4be..8c58d47 100644
--- a/serving/reagent/serving/core/DecisionPlan.cpp
+++ b/serving/reagent/serving/core/DecisionPlan.cpp
@@ -19,9 +19,15 @@ double DecisionPlan::evaluateRewardFunction(const StringDoubleMap& metrics) {
   expression.register_symbol_table(symbolTable);
 
   exprtk::parser<double> parser;
-  parser.compile(config_.reward_function, expression);
-
+  if (!parser.compile(config_.reward_function, expression)) {
+    LOG_AND_THROW(
+        "Could not compile the reward function: " << config_.reward_function);
+  }
   double value = expression.value();
+  if (!std::isfinite(value)) {
+    // Would be logged as null, and the decision could not be joined with it
+    LOG_AND_THROW("The reward is not finite: " << config_.reward_function);
+  }
   return value;
 }
 
-- 
2.43.0


From d8173f2798597ab59090ee7af86b8d65fbd26a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 097/117] fix: read plans from nested configuration directories

---
 serving/reagent/serving/core/DiskConfigProvider.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serving/reagent/serving/core/DiskConfigProvider.cpp b/serving/reagent/serving/core/DiskConfigProvider.cpp
index 0f9a161..d9baeb1 100644
--- a/serving/reagent/serving/core/DiskConfigProvider.cpp
+++ b/serving/reagent/serving/core/DiskConfigProvider.cpp
@@ -9,6 +9,9 @@ void DiskConfigProvider::initialize(DecisionService* decisionService) {
   LOG(INFO) << "READING CONFIGS FROM " << configDir_;
   for (auto& file :
        boost::filesystem::recursive_directory_iterator(configDir_)) {
+    if (!boost::filesystem::is_regular_file(file.path())) {
+      continue;
+    }
     readConfig(file.path().string());
   }
 }
-- 
2.43.0


From c005f9535edd1c72ec8f03c6bedb847f87c08589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 098/117] fix: export reward aggregators by name

---
 serving/reagent/serving/config/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serving/reagent/serving/config/config.py b/serving/reagent/serving/config/config.py
index 34205f9..a18e364 100644
--- a/serving/reagent/serving/config/config.py
+++ b/serving/reagent/serving/config/config.py
@@ -106,9 +106,9 @@ class Constant(ConfigBase):
 
 
 class DecisionRewardAggreation(Enum):
-    DRA_INVALID = (None,)
-    DRA_SUM = ("sum",)
-    DRA_MAX = ("max",)
+    DRA_INVALID = None
+    DRA_SUM = "sum"
+    DRA_MAX = "max"
 
 
 class DecisionConfig(ConfigBase):
-- 
2.43.0


From 21831f941e27069ea83aa60673e8fc7ecfe35673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 099/117] fix: write a single application's plans to .json
 files

---
 serving/reagent/serving/config/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serving/reagent/serving/config/main.py b/serving/reagent/serving/config/main.py
index 5abb909..0585d2a 100644
--- a/serving/reagent/serving/config/main.py
+++ b/serving/reagent/serving/config/main.py
@@ -40,7 +40,7 @@ def export(app_id, config_dir):
         if not os.path.exists(sub_config_dir):
             os.makedirs(sub_config_dir)
         for config_name, config in configs.items():
-            config_file = os.path.join(sub_config_dir, config_name, ".json")
+            config_file = os.path.join(sub_config_dir, config_name + ".json")
             print(f"{app_id}:{config_name} exported to {config_file}")
             with open(config_file, "w") as f:
                 json.dump(config, f, indent=2)
-- 
2.43.0


From 150e3240ae274a74b8978f46c29627a778cbbb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 100/117] fix: find the applications on current Python versions

---
 serving/reagent/serving/config/applications/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/serving/reagent/serving/config/applications/__init__.py b/serving/reagent/serving/config/applications/__init__.py
index 75764bf..314f1da 100644
--- a/serving/reagent/serving/config/applications/__init__.py
+++ b/serving/reagent/serving/config/applications/__init__.py
@@ -1,13 +1,14 @@
 #!/usr/bin/env python3
 # Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
 
+import importlib
 import pkgutil
 
 
 __all__ = []
-print(list(pkgutil.walk_packages(__path__)))
 
-for loader, module_name, _ in pkgutil.walk_packages(__path__):
+for _, module_name, _ in pkgutil.walk_packages(__path__, prefix=__name__ + "."):
+    _module = importlib.import_module(module_name)
+    module_name = module_name[len(__name__) + 1 :]
     __all__.append(module_name)
-    _module = loader.find_module(module_name).load_module(module_name)
     globals()[module_name] = _module
-- 
2.43.0


From 395aa16c470924534fc21713efb69bb32b29151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:59 +0000
Subject: [PATCH 101/117] fix: build the same plan each time

---
 serving/reagent/serving/config/builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serving/reagent/serving/config/builder.py b/serving/reagent/serving/config/builder.py
index 7f8a512..1d5e615 100644
--- a/serving/reagent/serving/config/builder.py
+++ b/serving/reagent/serving/config/builder.py
@@ -42,6 +42,8 @@ class DecisionPlanBuilder(object):
         return self
 
     def serialize(self):
+        self.operators = []
+        self.constants = []
         visited = set()
         next_id = [0]
 
-- 
2.43.0


From c1dc2f3160a6f0e63abc46f4a68fe00915f1c4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:59 +0000
Subject: [PATCH 102/117] fix: export mixed numbers as doubles

---
 serving/reagent/serving/config/serialize.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/serving/reagent/serving/config/serialize.py b/serving/reagent/serving/config/serialize.py
index 780c1d2..68da15c 100644
--- a/serving/reagent/serving/config/serialize.py
+++ b/serving/reagent/serving/config/serialize.py
@@ -33,6 +33,17 @@ def _extend_tuple_type(cls, value):
     return sub_cls_list
 
 
+def _common_type(values):
+    real_classes = {type(v) for v in values}
+    if all(issubclass(c, str) for c in real_classes):
+        return str
+    if all(issubclass(c, int) for c in real_classes):
+        return int
+    if all(issubclass(c, (int, float)) for c in real_classes):
+        return float
+    raise TypeError(f"Values of different types are not supported: {values}")
+
+
 def _value_to_json(cls, value):
     cls_type = _get_class_type(cls)
     assert _is_optional(cls) or value is not None
@@ -57,13 +68,14 @@ def _value_to_json(cls, value):
                 raise TypeError(
                     f"Can not properly decide the type of {value} since it is empty"
                 )
-            real_cls = type(value[0])
+            real_cls = _common_type(value)
             if issubclass(real_cls, str):
                 name = "list_string_value"
             elif issubclass(real_cls, int):
                 name = "list_int_value"
             elif issubclass(real_cls, float):
                 name = "list_double_value"
+                value = [float(v) for v in value]
             else:
                 raise TypeError(f"{real_cls} type not supported")
         elif issubclass(real_cls, Dict):
@@ -72,8 +84,8 @@ def _value_to_json(cls, value):
                     f"Can not properly decide the type of {value} since it is empty"
                 )
             items = list(value.items())
-            key_real_cls, value_real_cls = type(items[0][0]), type(items[0][1])
-            if not issubclass(key_real_cls, str):
+            value_real_cls = _common_type(value.values())
+            if not all(isinstance(k, str) for k in value):
                 raise TypeError(f"{value} type not supported")
             if issubclass(value_real_cls, str):
                 name = "map_string_value"
@@ -81,6 +93,7 @@ def _value_to_json(cls, value):
                 name = "map_int_value"
             elif issubclass(value_real_cls, float):
                 name = "map_double_value"
+                value = {k: float(v) for k, v in items}
             else:
                 raise TypeError(f"{real_cls} type not supported")
         else:
-- 
2.43.0


From 3b496620e197c1772e6c82674863f923fa02bede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:59 +0000
Subject: [PATCH 103/117] fix: export operators under the name and types the
 service knows

---
 serving/reagent/serving/config/namespace.py | 21 ++++++++++++++++++++-
 serving/reagent/serving/config/operators.py |  7 +++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/serving/reagent/serving/config/namespace.py b/serving/reagent/serving/config/namespace.py
index 37b7176..f3f31d9 100644
--- a/serving/reagent/serving/config/namespace.py
+++ b/serving/reagent/serving/config/namespace.py
@@ -2,6 +2,7 @@
 # Copyright 2004-present Facebook. All Rights Reserved.
 
 import inspect
+from typing import Dict
 
 
 class DecisionOperator(object):
@@ -13,9 +14,27 @@ class DecisionOperator(object):
         raise NotImplementedError
 
 
+def _as_declared(annotation, value):
+    # The service does not take an int where it expects a double
+    if annotation is float and isinstance(value, int):
+        return float(value)
+    if annotation is Dict and isinstance(value, dict):
+        return {k: float(v) if isinstance(v, int) else v for k, v in value.items()}
+    return value
+
+
 def DecisionOperation(op):
+    spec = inspect.getfullargspec(op)
+
     def __init__(self, *args, **kwargs):
-        self.args = inspect.getcallargs(op, *args, **kwargs)
+        named = inspect.getcallargs(op, *args, **kwargs)
+        extra = named.pop(spec.varkw) if spec.varkw else {}
+        self.args = {
+            name: _as_declared(spec.annotations.get(name), value)
+            for name, value in named.items()
+        }
+        for name, value in extra.items():
+            self.args[name] = _as_declared(spec.annotations.get(spec.varkw), value)
         DecisionOperator.__init__(self)
 
     def arguments(self):
diff --git a/serving/reagent/serving/config/operators.py b/serving/reagent/serving/config/operators.py
index 2a4e368..12ab012 100644
--- a/serving/reagent/serving/config/operators.py
+++ b/serving/reagent/serving/config/operators.py
@@ -28,7 +28,7 @@ def EpsilonGreedyRanker(epsilon: float, values: Dict, seed: int = None):
     pass
 
 
-def Expression(equation: str):
+def Expression(equation: str, **values: Dict):
     """The operator that can do calculation based on the given equation
 
     Args:
@@ -82,7 +82,7 @@ def SoftmaxRanker(temperature: float, values: Dict, seed: int = None):
     pass
 
 
-def UCB(method: str, batch_size: int = 1):
+def Ucb(method: str, batch_size: int = 1):
     """The operator that implements UCB algorithms
 
     Args:
@@ -95,3 +95,6 @@ def UCB(method: str, batch_size: int = 1):
 for op in set(globals()) - __globals - {"__globals"}:
     globals()[op] = namespace.DecisionOperation(globals()[op])
 del __globals
+
+# The operator is called Ucb in the service
+UCB = Ucb
-- 
2.43.0


From 4a695243f6a968fb381ca37f777589ec26f0c69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 104/117] fix: Give each row of the timeline to at most one of
 two adjacent sample ranges

---
 reagent/workflow/data_fetcher.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reagent/workflow/data_fetcher.py b/reagent/workflow/data_fetcher.py
index 306a5c8..d8c63f3 100644
--- a/reagent/workflow/data_fetcher.py
+++ b/reagent/workflow/data_fetcher.py
@@ -87,7 +87,13 @@ def hash_mdp_id_and_subsample(df, sample_range: Optional[Tuple[float, float]] =
         upper_bound = sample_range[1] / 100.0 * MAX_UINT32
         # pyre-fixme[16]: Module `functions` has no attribute `col`.
         # pyre-fixme[16]: Module `functions` has no attribute `col`.
-        df = df.filter((lower_bound <= col("mdp_id")) & (col("mdp_id") <= upper_bound))
+        in_range = lower_bound <= col("mdp_id")
+        if sample_range[1] < 100.0:
+            # the bound itself belongs to the range that starts there, so that
+            # adjacent ranges don't share an episode
+            # pyre-fixme[16]: Module `functions` has no attribute `col`.
+            in_range = in_range & (col("mdp_id") < upper_bound)
+        df = df.filter(in_range)
     return df
 
 
-- 
2.43.0


From be59a2197ab4ebf39a29862014f104e3c6acddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 105/117] fix: Keep the trainer that discrete DQN managers
 return so that save_trainer writes a resumable checkpoint

---
 reagent/workflow/model_managers/discrete_dqn_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/workflow/model_managers/discrete_dqn_base.py b/reagent/workflow/model_managers/discrete_dqn_base.py
index 53f9d9b..1413f03 100644
--- a/reagent/workflow/model_managers/discrete_dqn_base.py
+++ b/reagent/workflow/model_managers/discrete_dqn_base.py
@@ -162,7 +162,7 @@ class DiscreteDQNBase(ModelManager):
         self.trainer.set_reporter(reporter)
         assert data_module
 
-        train_eval_lightning(
+        self._lightning_trainer = train_eval_lightning(
             train_dataset=train_dataset,
             eval_dataset=eval_dataset,
             trainer_module=self.trainer,
-- 
2.43.0


From 9b62e614e3fa33383d1c65c89abf330531e0026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 106/117] fix: Pass the caller's reader options to actor critic
 training

---
 reagent/workflow/model_managers/actor_critic_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/workflow/model_managers/actor_critic_base.py b/reagent/workflow/model_managers/actor_critic_base.py
index f93c25a..d6c2a83 100644
--- a/reagent/workflow/model_managers/actor_critic_base.py
+++ b/reagent/workflow/model_managers/actor_critic_base.py
@@ -257,7 +257,7 @@ class ActorCriticBase(ModelManager):
             num_epochs=num_epochs,
             use_gpu=self.use_gpu,
             batch_preprocessor=batch_preprocessor,
-            reader_options=self.reader_options,
+            reader_options=self.reader_options or reader_options,
             checkpoint_path=self._lightning_checkpoint_path,
             resource_options=resource_options or ResourceOptions(),
         )
-- 
2.43.0


From cb91e6aa95e625bb0d503bfcda7d245137f96cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 107/117] fix: Take the planner's action bounds in feature id
 order

---
 .../model_managers/model_based/cross_entropy_method.py       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/workflow/model_managers/model_based/cross_entropy_method.py b/reagent/workflow/model_managers/model_based/cross_entropy_method.py
index 3efee16..860b27c 100644
--- a/reagent/workflow/model_managers/model_based/cross_entropy_method.py
+++ b/reagent/workflow/model_managers/model_based/cross_entropy_method.py
@@ -79,7 +79,10 @@ class CrossEntropyMethod(WorldModelBase):
         action_normalization_parameters = (
             self.action_normalization_data.dense_normalization_parameters
         )
-        sorted_action_norm_vals = list(action_normalization_parameters.values())
+        sorted_action_norm_vals = [
+            action_normalization_parameters[feature_id]
+            for feature_id in sorted(action_normalization_parameters)
+        ]
         discrete_action = sorted_action_norm_vals[0].feature_type != CONTINUOUS_ACTION
         action_upper_bounds, action_lower_bounds = None, None
         if not discrete_action:
-- 
2.43.0


From 3560faede89ac361c94f8281027f11de0240dd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 108/117] fix: Direct-method classifiers answer in the labels
 they were trained on

---
 reagent/ope/trainers/linear_trainers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/linear_trainers.py b/reagent/ope/trainers/linear_trainers.py
index 715dc7d..a72e076 100644
--- a/reagent/ope/trainers/linear_trainers.py
+++ b/reagent/ope/trainers/linear_trainers.py
@@ -25,8 +25,10 @@ class LinearTrainer(Trainer):
                 proba = torch.as_tensor(
                     self._model.predict_proba(x), dtype=torch.float, device=device
                 )
-                score = (proba * torch.arange(proba.shape[1])).sum(dim=1)
-                return PredictResults(torch.argmax(proba, 1), score, proba)
+                # the columns of proba are the labels seen in training, in order
+                classes = torch.as_tensor(self._model.classes_, device=device)
+                score = (proba * classes.to(proba)).sum(dim=1)
+                return PredictResults(classes[torch.argmax(proba, 1)], score, proba)
             elif hasattr(self._model, "predict"):
                 return PredictResults(
                     None,
-- 
2.43.0


From ca4a4111b3a73508de3cc18812c16ec563d48321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 109/117] fix: Score large errors without overflowing

---
 reagent/ope/trainers/linear_trainers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/linear_trainers.py b/reagent/ope/trainers/linear_trainers.py
index a72e076..fab4dd8 100644
--- a/reagent/ope/trainers/linear_trainers.py
+++ b/reagent/ope/trainers/linear_trainers.py
@@ -46,9 +46,9 @@ class LinearTrainer(Trainer):
         if self._is_classifier:
             return accuracy_score(y_true, y_pred, sample_weight=weight)
         else:
-            return 1.0 / math.pow(
+            return math.pow(
                 2,
-                mean_squared_error(y_true, y_pred, sample_weight=weight),
+                -mean_squared_error(y_true, y_pred, sample_weight=weight),
             )
 
     def score(self, x: Tensor, y: Tensor, weight: Optional[Tensor] = None) -> float:
-- 
2.43.0


From 5e361e5e50b5f08630f1c473d862ea61ce8a5532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 110/117] fix: Do not alter the tensor LinearNet is called with

---
 reagent/ope/trainers/linear_trainers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/reagent/ope/trainers/linear_trainers.py b/reagent/ope/trainers/linear_trainers.py
index fab4dd8..65ff142 100644
--- a/reagent/ope/trainers/linear_trainers.py
+++ b/reagent/ope/trainers/linear_trainers.py
@@ -271,7 +271,6 @@ class LinearNet(torch.nn.Module):
         self.model = torch.nn.Sequential(*self.layers)
 
     def forward(self, x: torch.Tensor):
-        x = x.requires_grad_(True)
         return self.model(x)
 
 
-- 
2.43.0


From 7ca4ad9c80b73b6ae3d69cd24ee9d3354fbe8f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 111/117] fix: Score the network trainer's predictions against
 the targets

---
 reagent/ope/trainers/linear_trainers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/trainers/linear_trainers.py b/reagent/ope/trainers/linear_trainers.py
index 65ff142..985e1d6 100644
--- a/reagent/ope/trainers/linear_trainers.py
+++ b/reagent/ope/trainers/linear_trainers.py
@@ -345,7 +345,8 @@ class NNTrainer(Trainer):
 
     def score(self, x: Tensor, y: Tensor, weight: Optional[Tensor] = None) -> float:
         if self._loss_fn is not None:
+            y_pred = self.predict(x).scores
             # pyre-fixme[29]: `Optional[torch.nn.MSELoss]` is not a function.
-            return self._loss_fn(y, x).item()
+            return self._loss_fn(y_pred, y.reshape(y_pred.shape)).item()
         else:
             raise Exception("mode not trained")
-- 
2.43.0


From c38b58193a6b0a9587c415f7cdc28b860594351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 112/117] fix: Write variable-length tuples of two values

---
 serving/reagent/serving/config/serialize.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/serving/reagent/serving/config/serialize.py b/serving/reagent/serving/config/serialize.py
index 68da15c..dcdb5c7 100644
--- a/serving/reagent/serving/config/serialize.py
+++ b/serving/reagent/serving/config/serialize.py
@@ -23,13 +23,12 @@ def _is_optional(cls):
 
 def _extend_tuple_type(cls, value):
     sub_cls_list = list(cls.__args__)
+    if len(sub_cls_list) == 2 and sub_cls_list[1] is Ellipsis:
+        return sub_cls_list[:1] * len(value)
     if len(sub_cls_list) != len(value):
-        if len(sub_cls_list) != 2 or sub_cls_list[1] is not Ellipsis:
-            raise ValueError(
-                f"{len(value)} values found which is more than number of types in tuple {cls}"
-            )
-        del sub_cls_list[1]
-        sub_cls_list.extend((cls.__args__[0],) * (len(value) - len(sub_cls_list)))
+        raise ValueError(
+            f"{len(value)} values found which is more than number of types in tuple {cls}"
+        )
     return sub_cls_list
 
 
-- 
2.43.0


From 12b8b98fe25acc29df0c237efe27be8396572aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 113/117] fix: Convert every stored transition exactly once to
 the offline table

---
 reagent/replay_memory/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/replay_memory/utils.py b/reagent/replay_memory/utils.py
index dce70a3..a2ffea0 100644
--- a/reagent/replay_memory/utils.py
+++ b/reagent/replay_memory/utils.py
@@ -26,8 +26,9 @@ def replay_buffer_to_pre_timeline_df(
     is_discrete_action: bool, replay_buffer: ReplayBuffer
 ) -> pd.DataFrame:
     """ Format needed for uploading dataset to Hive, and then run timeline. """
-    n = replay_buffer.size
-    batch = replay_buffer.sample_transition_batch(batch_size=n)
+    # every stored transition exactly once
+    batch = replay_buffer.sample_all_valid_transitions()
+    n = batch.mdp_id.shape[0]
 
     # actions is inconsistent between models, so let's infer them.
     possible_actions_mask = getattr(batch, "possible_actions_mask", None)
-- 
2.43.0


From 4e820a8ae1b624219ee61d185180c8c465bf7e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 114/117] fix: Write episode ids as text in the offline table

---
 reagent/replay_memory/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/replay_memory/utils.py b/reagent/replay_memory/utils.py
index a2ffea0..fae946f 100644
--- a/reagent/replay_memory/utils.py
+++ b/reagent/replay_memory/utils.py
@@ -65,7 +65,7 @@ def replay_buffer_to_pre_timeline_df(
         "ds": [DEFAULT_DS for _ in range(n)],
         "state_features": _dense_to_sparse(batch.state),
         "action": action,
-        "mdp_id": batch.mdp_id.tolist(),
+        "mdp_id": [str(m.item()) for m in batch.mdp_id],
         "sequence_number": sequence_number,
         "action_probability": action_probability,
         "reward": reward,
-- 
2.43.0


From 4d73afe5ff381fb196137a5d0460d967806d6505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 115/117] fix: List the possible actions of terminal
 transitions in the offline table

---
 reagent/replay_memory/utils.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/reagent/replay_memory/utils.py b/reagent/replay_memory/utils.py
index fae946f..5ba545c 100644
--- a/reagent/replay_memory/utils.py
+++ b/reagent/replay_memory/utils.py
@@ -34,7 +34,6 @@ def replay_buffer_to_pre_timeline_df(
     possible_actions_mask = getattr(batch, "possible_actions_mask", None)
     possible_actions = getattr(batch, "possible_actions", None)
 
-    terminal = batch.terminal.squeeze(1).tolist()
     assert len(batch.action.shape) == 2
     if is_discrete_action:
         assert (
@@ -44,14 +43,10 @@ def replay_buffer_to_pre_timeline_df(
         action = [str(a.item()) for a in batch.action]
         # assuming we've explored the whole action space
         unique_actions = np.unique(batch.action)
-        possible_actions_mask = [
-            [1 for _ in range(len(unique_actions))] if not elem_terminal else []
-            for elem_terminal in terminal
-        ]
-        possible_actions = [
-            [str(a) for a in unique_actions] if not elem_terminal else []
-            for elem_terminal in terminal
-        ]
+        # these are the actions possible at the current step, so terminal
+        # transitions have them, too
+        possible_actions_mask = [[1 for _ in unique_actions] for _ in range(n)]
+        possible_actions = [[str(a) for a in unique_actions] for _ in range(n)]
     else:
         # Box (parametric) action space, should be map<str, double>
         action = _dense_to_sparse(batch.action)
-- 
2.43.0


From 392158b565a2d36910e7f79cb09b1ded3e25e0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 116/117] fix: Evaluate published models in one process when
 they cannot be serialised

---
 reagent/gym/runners/gymrunner.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/reagent/gym/runners/gymrunner.py b/reagent/gym/runners/gymrunner.py
index 495e8ad..d321168 100644
--- a/reagent/gym/runners/gymrunner.py
+++ b/reagent/gym/runners/gymrunner.py
@@ -93,27 +93,27 @@ def evaluate_for_n_episodes(
     rewards = None
     if num_processes > 1:
         try:
-            with mp.Pool(num_processes) as pool:
-                rewards = unwrap_function_outputs(
-                    pool.map(
-                        wrap_function_arguments(
-                            evaluate_one_episode,
-                            env=env,
-                            agent=agent,
-                            max_steps=max_steps,
-                            gammas=gammas,
-                        ),
-                        range(n),
-                    )
-                )
-        except pickle.PickleError as e:
+            evaluate_fn = wrap_function_arguments(
+                evaluate_one_episode,
+                env=env,
+                agent=agent,
+                max_steps=max_steps,
+                gammas=gammas,
+            )
+        except (pickle.PickleError, RuntimeError) as e:
             # NOTE: Probably tried to perform mixed serialization of ScriptModule
             # and non-script modules. This isn't supported right now.
+            # (Depending on its version, torch raises a RuntimeError for this.)
             logger.info(e)
             logger.info(
                 "This is probably from trying to serialize a TorchScript module, "
                 "wrapped in a non-script module. Mixed serialization is not supported."
             )
+        else:
+            with mp.Pool(num_processes) as pool:
+                rewards = unwrap_function_outputs(
+                    pool.map(evaluate_fn, range(n))
+                )
 
     # if we didn't run multiprocessing, or it failed, try single-processing instead.
     if rewards is None:
-- 
2.43.0


From 297fab06d950ecb3eeff23de1656c87c82020f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 117/117] fix: Set a valid log level in rasp_to_model

---
 serving/scripts/rasp_to_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serving/scripts/rasp_to_model.py b/serving/scripts/rasp_to_model.py
index 97862ab..0ee57cf 100644
--- a/serving/scripts/rasp_to_model.py
+++ b/serving/scripts/rasp_to_model.py
@@ -10,7 +10,7 @@ import pandas as pd
 
 logging.basicConfig(level=logging.INFO)
 logger = logging.getLogger(__name__)
-logger.setLevel(logging.info)
+logger.setLevel(logging.INFO)
 
 
 def keys_to_int(d: Dict[str, Any]) -> Dict[int, Any]:
-- 
2.43.0

