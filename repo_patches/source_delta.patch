From c9b669b5ee4ab5b55d99ed94b5c90455c617d364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:45 +0000
Subject: [PATCH 01/25] fix: categorical GWG proposal log-likelihood mixed
 entries across chains

aux is one flat index per chain, so indexing with an extra axis summed the
log-probabilities of every chain's index under each chain's distribution and
the acceptance ratio was wrong whenever batch_size > 1.
---
 discs/samplers/gwg.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/discs/samplers/gwg.py b/discs/samplers/gwg.py
index 656201c..e657d80 100644
--- a/discs/samplers/gwg.py
+++ b/discs/samplers/gwg.py
@@ -163,11 +163,7 @@ class CategoricalGWGSampler(GibbsWithGradSampler):
     return y, {'x2y': idx, 'y2x': idx_y2x}
 
   def get_ll_onestep(self, dist, aux, src_to_dst):
-    ll = dist[
-        jnp.expand_dims(jnp.arange(dist.shape[0]), axis=1), aux[src_to_dst]
-    ]
-    ll = jnp.sum(ll, axis=-1)
-    return ll
+    return dist[jnp.arange(dist.shape[0]), aux[src_to_dst]]
 
 
 def build_sampler(config):
-- 
2.43.0


From 76d45d0f98156b807be095790dd58239c913f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:45 +0000
Subject: [PATCH 02/25] fix: path auxiliary forward likelihood omitted the
 proposed category

With a constant number of flips and more than two categories ll_x2y only
counted the chosen positions while ll_y2x counted positions and values, so
the acceptance ratio was not the Metropolis-Hastings ratio of the proposal.
---
 discs/samplers/path_auxiliary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discs/samplers/path_auxiliary.py b/discs/samplers/path_auxiliary.py
index 36307ac..0d1fdac 100644
--- a/discs/samplers/path_auxiliary.py
+++ b/discs/samplers/path_auxiliary.py
@@ -125,6 +125,7 @@ class PAFSNoReplacement(PathAuxiliarySampler):
         rng, _ = jax.random.split(rng)
         new_val = jax.random.categorical(rng, val_logprob)
         new_val = jax.nn.one_hot(new_val, self.num_categories)
+        ll_selected = ll_selected + jnp.sum(new_val * val_logprob, axis=-1)
       else:
         new_val = 1 - x[rows, selected_idx]
       y = x.at[rows, selected_idx].set(new_val)
-- 
2.43.0


From 5ef0c92c537b6e727064030f4afe1a01ccbce64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:45 +0000
Subject: [PATCH 03/25] fix: Hamming ball radius was drawn from counts used as
 logits

The auxiliary state must be uniform on the ball, so the radius has to be
drawn in proportion to the number of states at that distance; the counts
were passed to the categorical draw as logits.
---
 discs/samplers/hammingball.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discs/samplers/hammingball.py b/discs/samplers/hammingball.py
index 464d45c..987adf7 100644
--- a/discs/samplers/hammingball.py
+++ b/discs/samplers/hammingball.py
@@ -29,7 +29,9 @@ class HammingBallSampler(abstractsampler.AbstractSampler):
           * (self.num_categories - 1) ** (j + 1)
           for j in range(self.hamming)
       ]
-    self.hamming_logit = jnp.array(self.hamming_logit + num_samples_per_hamming)
+    self.hamming_logit = jnp.log(
+        jnp.array(self.hamming_logit + num_samples_per_hamming)
+    )
     self.choose_index_vmapped = jax.vmap(self.choose_index, in_axes=[0, None])
 
   def choose_index(self, rng, arr):
-- 
2.43.0


From 766cd9b766cdbc677e8b76d25a32fd018a48609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:47 +0000
Subject: [PATCH 04/25] fix: Ising energy of integer states dropped the
 couplings

The message buffer inherited the integer dtype of the state, so the
couplings written into it were truncated to integers.
---
 discs/models/ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/ising.py b/discs/models/ising.py
index 2a7aa0e..cdbad94 100644
--- a/discs/models/ising.py
+++ b/discs/models/ising.py
@@ -48,7 +48,7 @@ class Ising(abstractmodel.AbstractModel):
     w_h = params[0][:, :-1]
     w_v = params[1][:-1, :]
     w_b = params[2]
-    message = jnp.zeros_like(x)
+    message = jnp.zeros(x.shape, dtype=w_b.dtype)
     message = message.at[:, :-1, :].set(
         message[:, :-1, :] + (2 * x[:, 1:, :] - 1) * w_v
     )
-- 
2.43.0


From 0f9cc8a02f264cfb60312941b08c3b67b0c02562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:47 +0000
Subject: [PATCH 05/25] fix: categorical FHMM transition matrix was not a
 probability matrix

The off-diagonal mass was computed from the partially built matrix instead
of the configured self-transition probability, so rows did not sum to one.
---
 discs/models/fhmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index 281ea16..39e4b66 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -97,7 +97,7 @@ class CategFHMM(FHMM):
     beta = jnp.eye(self.num_categories) * (
         self.beta - (1 - self.beta) / (self.num_categories - 1)
     )
-    beta += (1 - beta) / (self.num_categories - 1)
+    beta += (1 - self.beta) / (self.num_categories - 1)
     self.beta = beta
     self.log_beta = jnp.log(beta)
 
-- 
2.43.0


From 5dad5db387b9ae6a2f3141fa70fece6308788bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:25 +0000
Subject: [PATCH 06/25] fix: categorical FHMM misread integer states when K
 equals num_categories

Integer states [batch, L, K] were taken for one-hot ones whenever K happened
to equal the number of categories.
---
 discs/models/fhmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index 39e4b66..b89516b 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -163,7 +163,7 @@ class CategFHMM(FHMM):
     y = params['y']
     alpha = params['alpha']
 
-    if x.shape[-1] != self.num_categories:
+    if len(x.shape) - 1 == len(self.shape):
       x = jax.nn.one_hot(x, self.num_categories)
     x = x.reshape(-1, self.l, self.k, self.num_categories)
     x_0 = x[:, 0]
-- 
2.43.0


From b465c36f3109a6a8dd9b30d2aceb74b60700204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:25 +0000
Subject: [PATCH 07/25] fix: categorical RBM without pretrained parameters
 could not be built

The category count was passed to jnp.ones as the dtype, and the network was
initialised on integer instead of one-hot states.
---
 discs/models/rbm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discs/models/rbm.py b/discs/models/rbm.py
index ce23179..6aa18e6 100644
--- a/discs/models/rbm.py
+++ b/discs/models/rbm.py
@@ -130,6 +130,8 @@ class RBM(deep_ebm.DeepEBM):
       return self.params
     model_rng, sample_rng = jax.random.split(rng)
     v = self.get_init_samples(sample_rng, 1)
+    if self.num_categories != 2:
+      v = jax.nn.one_hot(v, self.num_categories)
     return self.net.init({'params': model_rng}, v=v)['params']
 
   def forward(self, params, x):
@@ -194,7 +196,7 @@ class CategoricalRBM(RBM):
     if data_mean is None:
       return functools.partial(
           jax.random.categorical,
-          logits=jnp.log(jnp.ones(self.num_visible, self.num_categories)),
+          logits=jnp.log(jnp.ones((self.num_visible, self.num_categories))),
       )
     else:
       logits = jnp.log(data_mean)
-- 
2.43.0


From d89bb49102422a7b2bf08311769b0ffe3485a347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:25 +0000
Subject: [PATCH 08/25] fix: MIS neighbourhood log-ratios counted padded edges

Padding edges (0, 0) added spurious penalties to node 0, and the value
expected first by the callers was not returned.
---
 discs/models/mis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discs/models/mis.py b/discs/models/mis.py
index 24123c9..8293387 100644
--- a/discs/models/mis.py
+++ b/discs/models/mis.py
@@ -42,9 +42,10 @@ class MIS(comb_ebm.BinaryNodeCombEBM):
   def logratio_in_neighborhood(self, params, x):
     edge_from = params['bidir_edge_from']
     edge_to = params['bidir_edge_to']
+    edge_mask = jnp.concatenate((params['edge_mask'], params['edge_mask']))
 
     gather2dst = x[:, edge_to]
-    diff_penalty = self.penalty_coeff * gather2dst
+    diff_penalty = self.penalty_coeff * gather2dst * edge_mask
     diff_arr = jnp.zeros(x.shape, dtype=diff_penalty.dtype)
     diff_arr = diff_arr.at[jnp.expand_dims(jnp.arange(x.shape[0]), axis=1),
                            edge_from].add(diff_penalty)
@@ -52,7 +53,7 @@ class MIS(comb_ebm.BinaryNodeCombEBM):
     sign = (1 - x * 2) * params['mask']
     logratio = (sign - sign * diff_arr) / params['temperature']
     logratio = logratio * params['mask'] + -1e9 * (1 - params['mask'])
-    return logratio, 1, self.get_neighbor_fn
+    return self.forward(params, x), logratio, 1, self.get_neighbor_fn
 
 
 def build_model(config):
-- 
2.43.0


From 5fc189c4d292bd326abb51c51e9361b2cfd90603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:25 +0000
Subject: [PATCH 09/25] fix: Bernoulli neighbourhood interface did not match
 its callers

logratio_in_neighborhood returned three values where four are unpacked, and
the neighbour function did not take the parameters it is called with.
---
 discs/models/bernoulli.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/discs/models/bernoulli.py b/discs/models/bernoulli.py
index 79ffe46..71d5a58 100644
--- a/discs/models/bernoulli.py
+++ b/discs/models/bernoulli.py
@@ -46,7 +46,7 @@ class Bernoulli(abstractmodel.AbstractModel):
     (_, loglikelihood), grad = jax.value_and_grad(fun, has_aux=True)(x)
     return loglikelihood, grad
 
-  def get_neighbor_fn(self, x, neighbhor_idx):
+  def get_neighbor_fn(self, _, x, neighbhor_idx):
     x_shape = x.shape
     x = jnp.reshape(x, (x.shape[0], -1))
     brange = jnp.arange(x.shape[0])
@@ -55,10 +55,9 @@ class Bernoulli(abstractmodel.AbstractModel):
     return jnp.reshape(y, x_shape)
 
   def logratio_in_neighborhood(self, params, x):
-    params = params['params']
-    params = jnp.expand_dims(params, axis=0)
-    diff = (1 - 2 * x) * params
-    return diff, 1, self.get_neighbor_fn
+    weights = jnp.expand_dims(params['params'], axis=0)
+    diff = (1 - 2 * x) * weights
+    return self.forward(params, x), diff, 1, self.get_neighbor_fn
 
   def get_expected_val(self, params):
     params = params['params']
-- 
2.43.0


From c15a6f0890b0ba4e591a2e92b124e9304395ef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:25 +0000
Subject: [PATCH 10/25] fix: normalized-cut node degrees did not follow the
 node labels

Degrees were stored in graph iteration order, so a graph whose nodes were not
inserted in label order (or smaller than the padded size) got wrong volumes.
---
 discs/graph_loader/normcut_loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discs/graph_loader/normcut_loader.py b/discs/graph_loader/normcut_loader.py
index 9bea225..8765db8 100644
--- a/discs/graph_loader/normcut_loader.py
+++ b/discs/graph_loader/normcut_loader.py
@@ -26,7 +26,10 @@ class NormCutGen(data_common.GraphGenerator):
     )
     num_nodes = len(g)
     params['num_nodes'] = num_nodes
-    params['node_degrees'] = np.array(g.degree)[:, 1].astype(np.float32)
+    node_degrees = np.zeros((self.max_num_nodes,), dtype=np.float32)
+    for node, degree in g.degree:
+      node_degrees[node] = degree
+    params['node_degrees'] = node_degrees
     params['mask'] = np.arange(self.max_num_nodes) < num_nodes
     return params
 
-- 
2.43.0


From 07fe66c8192ae11e48f4e8717dbf83aae487a862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:51 +0000
Subject: [PATCH 11/25] fix: normalized-cut neighbourhood log-ratios counted
 padded edges

Padding edges (0, 0) changed the cut sizes attributed to moves of node 0.
---
 discs/models/normcut.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discs/models/normcut.py b/discs/models/normcut.py
index d94e908..7a4715e 100644
--- a/discs/models/normcut.py
+++ b/discs/models/normcut.py
@@ -87,6 +87,7 @@ class NormCut(comb_ebm.CombEBM):
     bsize = x.shape[0]
     edge_from = params['bidir_edge_from']
     edge_to = params['bidir_edge_to']
+    edge_mask = jnp.concatenate((params['edge_mask'], params['edge_mask']))
     node_degrees = jnp.expand_dims(params['node_degrees'], axis=1)
     gather2src = x[:, edge_from]
     gather2dst = x[:, edge_to]
@@ -97,6 +98,7 @@ class NormCut(comb_ebm.CombEBM):
     new_choices = jnp.expand_dims(new_choices, (0, 1))
     edge_info = (new_choices + jnp.expand_dims(gather2dst, axis=-2)) % 2
     edge_delta = edge_info - jnp.expand_dims(cur_edge_cut, axis=-2)
+    edge_delta = edge_delta * jnp.expand_dims(edge_mask, (1, 2))
     diff_arr = jnp.zeros(
         (bsize, self.num_nodes, self.num_categories, self.num_categories),
         dtype=jnp.int32)
-- 
2.43.0


From 76603bf39b9229ef8a9bc312ccb8bac3a77bdcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:30 +0000
Subject: [PATCH 12/25] fix: normalized-cut neighbourhood log-ratios ignored
 the balance penalty

---
 discs/models/normcut.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/discs/models/normcut.py b/discs/models/normcut.py
index 7a4715e..f106d27 100644
--- a/discs/models/normcut.py
+++ b/discs/models/normcut.py
@@ -54,21 +54,22 @@ class NormCut(comb_ebm.CombEBM):
     cut_sizes = jnp.sum(-edge_sum ** 2 + 2 * edge_sum, axis=1)
     return cut_sizes
 
+  def get_size_cost(self, partition_sizes):
+    if self.stype == 'quad':
+      return jnp.sum((partition_sizes - self.avg_partition_size) ** 2, -1)
+    ub_cost = jax.nn.relu(
+        partition_sizes - self.avg_partition_size - self.tolerance) ** 2
+    lb_cost = jax.nn.relu(
+        self.avg_partition_size - self.tolerance - partition_sizes) ** 2
+    return jnp.sum(ub_cost + lb_cost, axis=-1)
+
   def objective(self, params, x):
     if x.ndim < 3:
       x = jax.nn.one_hot(x, self.num_categories, dtype=jnp.float32)
     cut_sizes = self.get_cut_sizes(params, x)
 
     if self.penalty > 0:
-      partition_sizes = jnp.sum(x, axis=1)
-      if self.stype == 'quad':
-        ncost = jnp.sum((partition_sizes - self.avg_partition_size) ** 2, -1)
-      else:
-        ub_cost = jax.nn.relu(
-            partition_sizes - self.avg_partition_size - self.tolerance) ** 2
-        lb_cost = jax.nn.relu(
-            self.avg_partition_size - self.tolerance - partition_sizes) ** 2
-        ncost = jnp.sum(ub_cost + lb_cost, axis=-1)
+      ncost = self.get_size_cost(jnp.sum(x, axis=1))
       cost = jnp.sum(cut_sizes, axis=-1) + self.penalty * ncost
     else:
       volume = jnp.sum(x * jnp.expand_dims(params['node_degrees'], 1), axis=1)
@@ -107,8 +108,18 @@ class NormCut(comb_ebm.CombEBM):
                            jnp.arange(self.num_categories)].add(edge_delta)
     new_cut_sizes = jnp.expand_dims(cur_cut_sizes, (1, 2)) + diff_arr
 
-    diff_volume = (new_choices - jnp.expand_dims(x, axis=-2)) * jnp.expand_dims(
-        node_degrees, axis=-1)
+    diff_size = new_choices - jnp.expand_dims(x, axis=-2)
+    if self.penalty > 0:
+      cur_size = jnp.sum(x, axis=1)
+      new_size = jnp.expand_dims(cur_size, (1, 2)) + diff_size
+      new_obj = -(jnp.sum(new_cut_sizes, axis=-1) + self.penalty *
+                  self.get_size_cost(new_size)) / params['temperature']
+      cur_obj = -(jnp.sum(cur_cut_sizes, axis=-1) + self.penalty *
+                  self.get_size_cost(cur_size)) / params['temperature']
+      log_ratio = new_obj - jnp.expand_dims(cur_obj, axis=(1, 2))
+      return cur_obj, log_ratio, 1, None
+
+    diff_volume = diff_size * jnp.expand_dims(node_degrees, axis=-1)
     cur_volume = jnp.sum(x * node_degrees, axis=1)
     new_volume = jnp.expand_dims(cur_volume, (1, 2)) + diff_volume
     new_obj = -jnp.sum((new_cut_sizes + self.eps) / (
-- 
2.43.0


From e5e4a949cf86f2a93772c61d6a6098feb0864365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:45 +0000
Subject: [PATCH 13/25] fix: normalized-cut gradient counted padded edges

---
 discs/models/normcut.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discs/models/normcut.py b/discs/models/normcut.py
index f106d27..11a8c14 100644
--- a/discs/models/normcut.py
+++ b/discs/models/normcut.py
@@ -51,7 +51,9 @@ class NormCut(comb_ebm.CombEBM):
     gather2dst = x[:, edge_to]
 
     edge_sum = gather2src + gather2dst
-    cut_sizes = jnp.sum(-edge_sum ** 2 + 2 * edge_sum, axis=1)
+    edge_cut = -edge_sum ** 2 + 2 * edge_sum
+    edge_mask = jnp.expand_dims(params['edge_mask'], axis=1)
+    cut_sizes = jnp.sum(edge_cut * edge_mask, axis=1)
     return cut_sizes
 
   def get_size_cost(self, partition_sizes):
-- 
2.43.0


From 00d2aedaf73672a71b2af9ab8f4124c205c36e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:07 +0000
Subject: [PATCH 14/25] fix: text infilling results were never computed (jit
 over strings)

---
 discs/experiment/sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 9976209..4f5a266 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -350,7 +350,6 @@ class Text_Infilling_Experiment(Sampling_Experiment):
   """Class used to sample sentences for text infilling."""
 
   def get_results(self, model, sampler, evaluator, saver):
-    obj_fn = jax.jit(evaluator.evaluate)
     infill_sents = []
     infill_sents_topk = []
     rnd_key = 0
@@ -364,7 +363,7 @@ class Text_Infilling_Experiment(Sampling_Experiment):
       infill_sents.extend(sents)
       if self.config.use_topk:
         infill_sents_topk.extend(sents_topk)
-    res = obj_fn(infill_sents, self.config_model.data_root)
+    res = evaluator.evaluate(infill_sents, self.config_model.data_root)
     if self.config.use_topk:
       res_topk = evaluator.evaluate(
           infill_sents_topk, self.config_model.data_root
-- 
2.43.0


From d614e8f210b97984550cab7c02392f94ef1659f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:07 +0000
Subject: [PATCH 15/25] fix: text infilling kept part of the index of resamples
 10 and up

---
 discs/experiment/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 4f5a266..9349f74 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -401,9 +401,9 @@ class Text_Infilling_Experiment(Sampling_Experiment):
       }
       topk_sentences = list(sorted_sent.keys())[-self.config.topk_num :]
       for i, sent in enumerate(topk_sentences):
-        topk_sentences[i] = sent[2:]
+        topk_sentences[i] = sent.split(' ', 1)[1]
       for i, sent in enumerate(sentences):
-        sentences[i] = sent[2:]
+        sentences[i] = sent.split(' ', 1)[1]
 
     return True, sentences, topk_sentences
 
-- 
2.43.0


From 58cd7e3967437586461b00fa097c2697f0406e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:07 +0000
Subject: [PATCH 16/25] fix: the random key of a run was ignored

---
 discs/experiment/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 9349f74..4854636 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -188,7 +188,7 @@ class Experiment:
   ):
     """Sets up the model and the samlping alg and gets the chain of samples."""
     preprocessed_info = self.preprocess(
-        model, sampler, evaluator, saver, rnd_key=0
+        model, sampler, evaluator, saver, rnd_key=rnd_key
     )
     if not preprocessed_info:
       return False
@@ -376,7 +376,7 @@ class Text_Infilling_Experiment(Sampling_Experiment):
       self, model, sampler, evaluator, saver, rnd_key=0
   ):
     preprocessed_info = self.preprocess(
-        model, sampler, evaluator, saver, rnd_key=0
+        model, sampler, evaluator, saver, rnd_key=rnd_key
     )
     if not preprocessed_info:
       return False, None, None
-- 
2.43.0


From e527454d1d9fcdeb690d8f3a9e0f5568b66214df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:46 +0000
Subject: [PATCH 17/25] fix: sampling runs with fewer than four chains crashed

---
 discs/experiment/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 4854636..d73196e 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -233,7 +233,7 @@ class Sampling_Experiment(Experiment):
     selected_chains = jax.random.choice(
         rng,
         jnp.arange(self.config.batch_size),
-        shape=(self.num_saved_samples,),
+        shape=(min(self.num_saved_samples, self.config.batch_size),),
         replace=False,
     )
 
-- 
2.43.0


From 1f046a0498088ecff2ef7aabf45e6bacf55fad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:46 +0000
Subject: [PATCH 18/25] fix: estimation error runs crashed when saving the
 parameters on one device

---
 discs/experiment/sampling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index d73196e..347180a 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -314,7 +314,10 @@ class Sampling_Experiment(Experiment):
       ):
         saver.dump_samples(samples, visualize=False)
         # samples= np.array(samples)
-        params = params['params'][0].reshape(self.config_model.shape)
+        params = params['params']
+        if self.parallel:
+          params = params[0]
+        params = params.reshape(self.config_model.shape)
         saver.dump_params(params)
         # saver.plot_estimation_error(model, params, samples)
 
-- 
2.43.0


From c396553d8559c0880b724d0a668db0cefd69622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:46 +0000
Subject: [PATCH 19/25] fix: ESS was normalised by the burn-in share of the
 chain

---
 discs/evaluators/ess_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/evaluators/ess_eval.py b/discs/evaluators/ess_eval.py
index 63525de..dd3de30 100644
--- a/discs/evaluators/ess_eval.py
+++ b/discs/evaluators/ess_eval.py
@@ -10,11 +10,11 @@ class ESSevaluator(abstractevaluator.AbstractEvaluator):
 
   def _eval_over_num_ll_calls(self, eval_val, num_loglike_calls):
     """ESS over num of energy evaluation."""
-    return eval_val / (num_loglike_calls * self.config.ess_ratio)
+    return eval_val / (num_loglike_calls * (1 - self.config.ess_ratio))
 
   def _eval_over_mh_step(self, eval_val, mh_steps):
     """ESS over mh steps."""
-    return eval_val / (mh_steps * self.config.ess_ratio)
+    return eval_val / (mh_steps * (1 - self.config.ess_ratio))
 
   def _eval_over_time(self, eval_val, time):
     """ESS over run time."""
-- 
2.43.0


From 0a7440a6fa211ecc44ee56f4eb64537fdd7beaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:46 +0000
Subject: [PATCH 20/25] fix: CO results of all but the last batch of instances
 were overwritten

---
 discs/common/experiment_saver.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index ea7c0d2..d016370 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -20,6 +20,7 @@ class Saver:
     self.save_dir = config.experiment.save_root
     if not os.path.isdir(self.save_dir):
       os.makedirs(self.save_dir)
+    self._co_results = []
 
   def _dump_dict(self, params, key_name: str):
     path = os.path.join(self.save_dir, f'{key_name}.pkl')
@@ -119,13 +120,21 @@ class Saver:
           plt.imsave(image_path, np.array(img), cmap=cm.gray)
 
   def save_co_resuts(self, trajectory, best_ratio, running_time, best_samples):
+    # called once per batch of instances: keep the results of all batches
+    self._co_results.append((
+        np.array(trajectory),
+        np.array(best_ratio),
+        running_time,
+        np.array(best_samples),
+    ))
+    trajectories, ratios, times, samples = zip(*self._co_results)
     results = {}
-    results['trajectory'] = np.array(trajectory)
-    results['best_ratio'] = np.array(best_ratio)
-    results['running_time'] = running_time
-    results['best_ratio_mean'] = np.mean(np.array(best_ratio))
+    results['trajectory'] = np.concatenate(trajectories, axis=-1)
+    results['best_ratio'] = np.concatenate(ratios)
+    results['running_time'] = sum(times)
+    results['best_ratio_mean'] = np.mean(results['best_ratio'])
     if len(best_samples) != 0:
-      results['best_samples'] = np.array(best_samples)
+      results['best_samples'] = np.concatenate(samples)
     self._dump_dict(results, 'results')
 
   def dump_params(self, params):
-- 
2.43.0


From c9985b9962af963c5666216c6db944cf0b9dba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:46 +0000
Subject: [PATCH 21/25] fix: non-adaptive runs were labelled adaptive in
 results.csv

---
 discs/common/experiment_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index d016370..f98919f 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -54,7 +54,7 @@ class Saver:
 
     results = {}
     results['sampler'] = self.config.sampler.name
-    if 'adaptive' in self.config.sampler.keys():
+    if self.config.sampler.get('adaptive', False):
       results['sampler'] = f'a_{self.config.sampler.name}'
 
     if 'solver' in self.config.sampler.keys():
-- 
2.43.0


From 11298d8102d7869d0a84cccee104e4089e493fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:46 +0000
Subject: [PATCH 22/25] fix: saving sample pictures used an undefined folder

---
 discs/common/experiment_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index f98919f..5d2afad 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -115,7 +115,7 @@ class Saver:
         for chain in range(samples.shape[0]):
           img = samples[chain]
           image_path = os.path.join(
-              root_path, f'sample_{step}_of_chain_{chain}.jpeg'
+              self.save_dir, f'sample_{step}_of_chain_{chain}.jpeg'
           )
           plt.imsave(image_path, np.array(img), cmap=cm.gray)
 
-- 
2.43.0


From 87ac207a7d63981268ee4b4d5a97de28ec20bff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:47 +0000
Subject: [PATCH 23/25] fix: put the mask token into masked gaps in text
 infilling

---
 discs/models/text_infilling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/text_infilling.py b/discs/models/text_infilling.py
index ef769eb..c909a1a 100644
--- a/discs/models/text_infilling.py
+++ b/discs/models/text_infilling.py
@@ -122,7 +122,7 @@ class TextInfilling(abstractmodel.AbstractModel):
     x = jnp.where(x.shape[0] == len(self.infill_pos), jnp.array([x]), x)
 
     mask_dummy_array = jnp.zeros([1, self.num_categories])
-    mask_dummy_array = mask_dummy_array.at[1, self.mask_token].set(1.0)
+    mask_dummy_array = mask_dummy_array.at[0, self.mask_token].set(1.0)
     loglikelihood = 0.0
     for i in range(0, len(self.infill_pos)):
       x_new = x.at[:, i, :].set(mask_dummy_array)
-- 
2.43.0


From 6dd79c127615e1645c8c73ba6e9ba71de5e3554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:47 +0000
Subject: [PATCH 24/25] fix: import plot from the package that has it in the
 training scripts

---
 discs/learning/binary_ebm/main_binary_training.py | 2 +-
 discs/learning/rbm/main_rbm_training.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/learning/binary_ebm/main_binary_training.py b/discs/learning/binary_ebm/main_binary_training.py
index 3219d7a..a713f49 100644
--- a/discs/learning/binary_ebm/main_binary_training.py
+++ b/discs/learning/binary_ebm/main_binary_training.py
@@ -9,7 +9,7 @@ from flax import jax_utils
 from flax.core.frozen_dict import unfreeze
 
 from discs.common import data_loader
-from discs.common import plot
+from discs.plot_results import plot
 from discs.common import utils
 from discs.learning import replay_buffer
 from discs.learning import train
diff --git a/discs/learning/rbm/main_rbm_training.py b/discs/learning/rbm/main_rbm_training.py
index dc42db2..c72595b 100644
--- a/discs/learning/rbm/main_rbm_training.py
+++ b/discs/learning/rbm/main_rbm_training.py
@@ -8,7 +8,7 @@ from absl import flags
 
 from discs.common import data_loader
 from discs.common import utils
-from discs.common import plot
+from discs.plot_results import plot
 from discs.learning import train
 from discs.models import rbm
 from discs.samplers.blockgibbs import RBMBlockGibbsSampler
-- 
2.43.0


From a3bf29a3573df3b3a419cb08fbfc6d9624ce566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:57 +0000
Subject: [PATCH 25/25] fix: combinatorial runs with fewer instances than
 devices crashed

---
 discs/experiment/sampling.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 347180a..4c2c1d9 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -81,11 +81,6 @@ class Experiment:
           use_put_replicated = True
           bshape = (jax.local_device_count(), self.config.num_models)
           x_shape = bshape + (batch_size_per_device,) + self.config_model.shape
-          if self.sample_idx:
-            self.sample_idx = jnp.array(
-                [self.sample_idx]
-                * (jax.local_device_count() // self.config.num_models)
-            )
       else:
         bshape = (self.config.num_models,)
         x_shape = bshape + (self.config.batch_size,) + self.config_model.shape
@@ -551,6 +546,13 @@ class CO_Experiment(Experiment):
 
     stp_burnin, stp_mixing, get_hop, obj_fn, _ = compiled_fns
     fn_reshape = lambda x: jnp.reshape(x, bshape + x.shape[1:])
+
+    def model_first(val):
+      # the chains of a model are spread over the devices
+      if math.prod(bshape) != self.config.num_models:
+        val = jnp.swapaxes(val, 0, 1)
+      return val
+
     # burn in
     burn_in_length = int(self.config.chain_length * self.config.ess_ratio) + 1
 
@@ -569,7 +571,7 @@ class CO_Experiment(Experiment):
 
       if step % self.config.log_every_steps == 0:
         eval_val = obj_fn(samples=new_x, params=params)
-        eval_val = eval_val.reshape(self.config.num_models, -1)
+        eval_val = model_first(eval_val).reshape(self.config.num_models, -1)
         ratio = jnp.max(eval_val, axis=-1).reshape(-1) / self.ref_obj
         is_better = ratio > best_ratio
         best_ratio = jnp.maximum(ratio, best_ratio)
@@ -582,7 +584,7 @@ class CO_Experiment(Experiment):
         if self.config.save_samples or self.config_model.name == 'normcut':
           step_chosen = jnp.argmax(eval_val, axis=-1, keepdims=True)
           rnew_x = jnp.reshape(
-              new_x,
+              model_first(new_x),
               (self.config.num_models, self.config.batch_size)
               + self.config_model.shape,
           )
@@ -618,7 +620,7 @@ class CO_Experiment(Experiment):
       running_time += time.time() - start
       if step % self.config.log_every_steps == 0:
         eval_val = obj_fn(samples=new_x, params=params)
-        eval_val = eval_val.reshape(self.config.num_models, -1)
+        eval_val = model_first(eval_val).reshape(self.config.num_models, -1)
         ratio = jnp.max(eval_val, axis=-1).reshape(-1) / self.ref_obj
         is_better = ratio > best_ratio
         best_ratio = jnp.maximum(ratio, best_ratio)
@@ -631,7 +633,7 @@ class CO_Experiment(Experiment):
         if self.config.save_samples or self.config_model.name == 'normcut':
           step_chosen = jnp.argmax(eval_val, axis=-1, keepdims=True)
           rnew_x = jnp.reshape(
-              new_x,
+              model_first(new_x),
               (self.config.num_models, self.config.batch_size)
               + self.config_model.shape,
           )
-- 
2.43.0

