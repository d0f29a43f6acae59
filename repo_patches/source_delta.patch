From 4fa67f81c73ab5b42a52d97a0a06d05d41fb3648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:01 +0000
Subject: [PATCH 01/25] fix: use torch.linalg.cholesky (torch.cholesky no
 longer exists)

---
 beer/dists/normal.py        | 6 +++---
 beer/dists/normalwishart.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index e1279ef..351ce59 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -83,7 +83,7 @@ class NormalFullCovariance(ExponentialFamily):
         prec = nparams[:, dim: dim * (dim + 1)].reshape(-1, dim, dim)
 
         # Log determinant of all the covariance matrix.
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1)
 
         # Quadratic term of the log-normalizer: -.5 * mu^T S mu
@@ -153,7 +153,7 @@ class NormalFullCovariance(ExponentialFamily):
             mean = mean.view(1, -1)
             cov = cov.view(1, dim, dim)
 
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1)
         prec = cov.inverse()
         Sm = torch.matmul(prec, mean[:, :, None]).view(-1, dim)
@@ -168,7 +168,7 @@ class NormalFullCovariance(ExponentialFamily):
         if len(size) <= 1:
             mean = mean.view(1, -1)
             cov = cov.view(1, dim, dim)
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         noise = torch.randn(mean.shape[0], nsamples, mean.shape[1],
                             dtype=mean.dtype, device=mean.device)
         retval = mean[:, None, :] + torch.matmul(noise, L.permute(0, 2, 1))
diff --git a/beer/dists/normalwishart.py b/beer/dists/normalwishart.py
index e2edbb6..e233f73 100644
--- a/beer/dists/normalwishart.py
+++ b/beer/dists/normalwishart.py
@@ -192,7 +192,7 @@ class NormalWishart(ExponentialFamily):
             scale_matrix, dof = scale_matrix.view(1, dim, dim), dof.view(1, 1)
 
         idxs = torch.arange(1, dim + 1, dtype=mean.dtype, device=mean.device)
-        L = torch.cholesky(scale_matrix, upper=False)
+        L = torch.linalg.cholesky(scale_matrix)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1,
                                                                  keepdim=True)
         mean_quad = mean[:, :, None] * mean[:, None, :]
@@ -226,7 +226,7 @@ class NormalWishart(ExponentialFamily):
             scale_matrix, dof = scale_matrix.view(1, dim, dim), dof.view(1, 1)
 
         idxs = torch.arange(1, dim + 1, dtype=mean.dtype, device=mean.device)
-        L = torch.cholesky(scale_matrix, upper=False)
+        L = torch.linalg.cholesky(scale_matrix)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1,
                                                                  keepdim=True)
         return (.5 * dof * logdet + .5 * dof * dim * math.log(2) \
-- 
2.43.0


From 65ae44043f10e65a3e4ea0c481a158bab5f57263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:01 +0000
Subject: [PATCH 02/25] fix: create_fbank fails with recent numpy (np.float was
 removed)

---
 beer/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/features.py b/beer/features.py
index 232b3a0..27524fc 100644
--- a/beer/features.py
+++ b/beer/features.py
@@ -31,7 +31,7 @@ def bark2hz(bark):
 def __triangle(center, start, end, freqs):
     'Create triangular filter.'
     slopes = 1. / (center - start), 1./ (end - center)
-    retval = np.zeros_like(freqs).astype(np.float)
+    retval = np.zeros_like(freqs).astype(float)
     idxs = np.logical_and(freqs >= start, freqs <= center)
     retval[idxs] = np.linspace(slopes[0] * (freqs[idxs][0] - start),
                                slopes[0] * (freqs[idxs][-1] - start),
-- 
2.43.0


From b245d1e4398a91559ea331a4f6e0f25e6dd9a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:54 +0000
Subject: [PATCH 03/25] fix: accumulate/decode crash on an utterance absent
 from the dataset

The warning refers to a variable that is not bound when the first
utterance is missing.
---
 beer/cli/subcommands/hmm/accumulate.py | 2 +-
 beer/cli/subcommands/hmm/decode.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/cli/subcommands/hmm/accumulate.py b/beer/cli/subcommands/hmm/accumulate.py
index 3aeb481..4718bd0 100644
--- a/beer/cli/subcommands/hmm/accumulate.py
+++ b/beer/cli/subcommands/hmm/accumulate.py
@@ -42,7 +42,7 @@ def main(args, logger):
         try:
             utt = dataset[uttid]
         except KeyError:
-            logger.warning(f'no utterance {utt} in {args.dataset}')
+            logger.warning(f'no utterance {uttid} in {args.dataset}')
             continue
         aligraph = None
         if alis:
diff --git a/beer/cli/subcommands/hmm/decode.py b/beer/cli/subcommands/hmm/decode.py
index 60f10ec..8fa942d 100644
--- a/beer/cli/subcommands/hmm/decode.py
+++ b/beer/cli/subcommands/hmm/decode.py
@@ -67,7 +67,7 @@ def main(args, logger):
         try:
             utt = dataset[uttname]
         except KeyError:
-            logger.warning(f'no utterance {utt} in {args.dataset}')
+            logger.warning(f'no utterance {uttname} in {args.dataset}')
             continue
 
         aligraph = None
-- 
2.43.0


From b41f473ddee7e548006b03842ae33e1f2e3167f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:54 +0000
Subject: [PATCH 04/25] fix: decode cannot load the alignment graphs

---
 beer/cli/subcommands/hmm/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/decode.py b/beer/cli/subcommands/hmm/decode.py
index 8fa942d..45ad3a3 100644
--- a/beer/cli/subcommands/hmm/decode.py
+++ b/beer/cli/subcommands/hmm/decode.py
@@ -51,7 +51,7 @@ def main(args, logger):
     alis = None
     if args.alis:
         logger.debug('loading alignment graphs')
-        alis = np.load(args.alis)
+        alis = np.load(args.alis, allow_pickle=True)
 
     if args.utts:
         if args.utts == '-':
-- 
2.43.0


From 967a8888fe29325ab646cadc12da8cddb28a1f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:54 +0000
Subject: [PATCH 05/25] fix: phone posteriors miss the last state of each unit

---
 beer/cli/subcommands/hmm/posteriors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/posteriors.py b/beer/cli/subcommands/hmm/posteriors.py
index db3edb3..35798b5 100644
--- a/beer/cli/subcommands/hmm/posteriors.py
+++ b/beer/cli/subcommands/hmm/posteriors.py
@@ -31,7 +31,7 @@ def state2phone(posts, start_pdf, end_pdf):
     retval = np.zeros((len(posts), len(start_pdf)))
     for i, unit in enumerate(start_pdf):
         start, end = start_pdf[unit], end_pdf[unit]
-        retval[:, i] = posts[:, start:end].sum(axis=-1)
+        retval[:, i] = posts[:, start:end + 1].sum(axis=-1)
     return retval
 
 
-- 
2.43.0


From d6290d4f4f43c2450290cf8b6bad0c89c25ec6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:54 +0000
Subject: [PATCH 06/25] fix: HMM posteriors scale the log-likelihoods, as
 decoding and training do

---
 beer/models/hmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 6c5dd2c..a187743 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -116,7 +116,7 @@ class HMM(DiscreteLatentModel):
     def posteriors(self, data, inference_graph=None, scale=1.0):
         if inference_graph is None:
             inference_graph = self.graph
-        stats = self.modelset.sufficient_statistics(data) * scale
-        pc_llhs = self._pc_llhs(stats, inference_graph)
+        stats = self.modelset.sufficient_statistics(data)
+        pc_llhs = scale * self._pc_llhs(stats, inference_graph)
         return self._inference(pc_llhs, inference_graph)[0]
 
-- 
2.43.0


From 8a1c1ec4e5cd0ff12e95309bf77b35532dd4e4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:54 +0000
Subject: [PATCH 07/25] fix: accumulate fails when none of its utterances is
 available

---
 beer/cli/subcommands/hmm/accumulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/accumulate.py b/beer/cli/subcommands/hmm/accumulate.py
index 4718bd0..543e8c2 100644
--- a/beer/cli/subcommands/hmm/accumulate.py
+++ b/beer/cli/subcommands/hmm/accumulate.py
@@ -62,7 +62,7 @@ def main(args, logger):
     with open(args.out, 'wb') as f:
         pickle.dump((elbo, count), f)
 
-    logger.info(f'accumulated ELBO over {count} utterances: {float(elbo) / (count * dataset.size) :.3f}.')
+    logger.info(f'accumulated ELBO over {count} utterances: {float(elbo) / (max(count, 1) * dataset.size) :.3f}.')
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From f98414d8439a621f166c3b1637141a080b9acc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:54 +0000
Subject: [PATCH 08/25] fix: stale transition statistics after an interrupted
 evaluation

The transition responsibilities left in the cache by a previous
evaluation were accumulated by the next one using an alignment graph.
---
 beer/models/hmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index a187743..68fa5fc 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -84,6 +84,7 @@ class HMM(DiscreteLatentModel):
             self.cache['resps'], self.cache['trans_resps'] = all_resps
         else:
             self.cache['resps'] = all_resps
+            self.cache.pop('trans_resps', None)
         exp_llh = (pc_llhs * self.cache['resps']).sum(dim=-1)
         self.cache['scale'] = scale
 
-- 
2.43.0


From c3cf54c2e211061e12314a9ea477b47b2eb4b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:54 +0000
Subject: [PATCH 09/25] fix: bigram phone-loop uses transposed Dirichlet
 weights

As for any model set, the expected log-likelihood is [n_frames, n_components].
---
 beer/models/categoricalset.py | 2 +-
 beer/models/phoneloop.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/categoricalset.py b/beer/models/categoricalset.py
index 26fba4a..297367d 100644
--- a/beer/models/categoricalset.py
+++ b/beer/models/categoricalset.py
@@ -298,7 +298,7 @@ class SBCategoricalSet(Model):
 
     def expected_log_likelihood(self, stats):
         log_prob, _ = self._log_prob()
-        return stats @ log_prob[:, self.reverse_ordering]
+        return stats @ log_prob[:, self.reverse_ordering].t()
 
     def accumulate(self, stats):
         raise NotImplementedError 
diff --git a/beer/models/phoneloop.py b/beer/models/phoneloop.py
index ad82538..8c9bd4f 100644
--- a/beer/models/phoneloop.py
+++ b/beer/models/phoneloop.py
@@ -154,7 +154,7 @@ class BigramPhoneLoop(HMM):
             loop_prob = self.graph.trans_log_probs[end_idx, end_idx].exp()
             residual_log_prob = (1 - loop_prob).log()
             self.graph.trans_log_probs[end_idx, start_idxs] = \
-                    residual_log_prob + log_weights[i]
+                    residual_log_prob + log_weights[:, i]
 
     ####################################################################
     # Model interface.
-- 
2.43.0


From d5be2410a885d6af26ffa771e439e763c984c2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:54 +0000
Subject: [PATCH 10/25] fix: bigram phone-loop cannot be trained with
 alignments

---
 beer/models/phoneloop.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beer/models/phoneloop.py b/beer/models/phoneloop.py
index 8c9bd4f..1ed9123 100644
--- a/beer/models/phoneloop.py
+++ b/beer/models/phoneloop.py
@@ -185,7 +185,9 @@ class BigramPhoneLoop(HMM):
             resps_stats = self.categoricalset.sufficient_statistics(phone_resps)
             retval.update(self.categoricalset.accumulate_from_jointresps(resps_stats))
         else:
-            fake_stats = torch.zeros_like(self.categoricalset.mean,
+            fake_resps = torch.zeros_like(self.categoricalset.mean,
                                           requires_grad=False)
-            retval.update(self.categoricalset.accumulate(fake_stats[None, :]))
+            fake_stats = self.categoricalset.sufficient_statistics(
+                            fake_resps[None, :])
+            retval.update(self.categoricalset.accumulate_from_jointresps(fake_stats))
         return retval
-- 
2.43.0


From 1fce1cc8d72e86163865e04fa3fa6411462cae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:54 +0000
Subject: [PATCH 11/25] fix: extract ignores the failure of a wav command

---
 beer/cli/subcommands/features/extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/features/extract.py b/beer/cli/subcommands/features/extract.py
index 02c591b..8c908ae 100644
--- a/beer/cli/subcommands/features/extract.py
+++ b/beer/cli/subcommands/features/extract.py
@@ -93,7 +93,7 @@ def main(args, logger):
             cmd = inwav[:-1]
             logger.debug(f'reading command: {cmd}')
             proc = subprocess.run(cmd, shell=True,
-                                  stdout=subprocess.PIPE)
+                                  stdout=subprocess.PIPE, check=True)
             sr, signal = read(io.BytesIO(proc.stdout))
         else:
             logger.debug(f'reading file: {inwav}')
-- 
2.43.0


From 8090320af6b4896069916d142e8d5fcac777b6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:11 +0000
Subject: [PATCH 12/25] fix: reserve_gpu fails without a logger

---
 beer/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beer/utils.py b/beer/utils.py
index b84e66c..19e129a 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -60,7 +60,8 @@ def reserve_gpu(max_retry=12, logger=None, wait_time=10):
         active_gpus = get_active_gpus()
         for gpu, gpu_idx in gpus.items():
             if gpu not in active_gpus:
-                logger.debug(f'trying to reserve gpu {gpu_idx}')
+                if logger is not None:
+                    logger.debug(f'trying to reserve gpu {gpu_idx}')
                 os.environ['CUDA_VISIBLE_DEVICES'] = str(gpu_idx)
                 # Reserve the GPU by allocating some dummy data.
                 try:
@@ -72,7 +73,8 @@ def reserve_gpu(max_retry=12, logger=None, wait_time=10):
             if gpu_reserved:
                 break
         else:
-            logger.debug(f'waiting {wait_time} seconds...')
+            if logger is not None:
+                logger.debug(f'waiting {wait_time} seconds...')
             time.sleep(wait_time)
         count += 1
 
-- 
2.43.0


From 3d35b1651360ed557c1d4df1a6dd4b62f3f78f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:11 +0000
Subject: [PATCH 13/25] fix: hmm train uses a removed optimizer and ignores the
 default batch size

A batch size of -1 means all the utterances as one batch.
---
 beer/cli/subcommands/hmm/train.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/beer/cli/subcommands/hmm/train.py b/beer/cli/subcommands/hmm/train.py
index f36fbdf..47699ba 100644
--- a/beer/cli/subcommands/hmm/train.py
+++ b/beer/cli/subcommands/hmm/train.py
@@ -31,8 +31,11 @@ def main(args, logger):
         dataset = pickle.load(f)
 
     logger.debug('create the optimizer')
-    optim = beer.BayesianModelOptimizer(model.mean_field_factorization(),
-                                        lrate=args.lrate)
+    optim = beer.VBConjugateOptimizer(
+        model.conjugate_bayesian_parameters(keepgroups=True),
+        lrate=args.lrate
+    )
+    batch_size = args.batch_size if args.batch_size > 0 else len(dataset)
 
     for epoch in range(1, args.epochs + 1):
         elbo = beer.evidence_lower_bound(datasize=dataset.size)
@@ -43,12 +46,12 @@ def main(args, logger):
                                               datasize=dataset.size)
 
             # Update the model after N utterances.
-            if i % args.batch_size == 0:
+            if i % batch_size == 0:
                 elbo.backward()
                 optim.step()
                 logger.info(f'{"epoch=" + str(epoch):<20}  ' \
-                            f'{"batch=" + str(i // args.batch_size) + "/" + str(int(len(dataset) / args.batch_size)):<20} ' \
-                            f'{"ELBO=" + str(round(float(elbo) / (args.batch_size * dataset.size), 3)):<20}')
+                            f'{"batch=" + str(i // batch_size) + "/" + str(int(len(dataset) / batch_size)):<20} ' \
+                            f'{"ELBO=" + str(round(float(elbo) / (batch_size * dataset.size), 3)):<20}')
                 elbo = beer.evidence_lower_bound(datasize=dataset.size)
                 optim.init_step()
 
-- 
2.43.0


From 505d536b0cb19a918ab2343b45e3d61e11dc837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 14/25] fix: Mixture.posteriors uses an attribute that does not
 exist

---
 beer/models/mixture.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beer/models/mixture.py b/beer/models/mixture.py
index dbebdab..3133f77 100644
--- a/beer/models/mixture.py
+++ b/beer/models/mixture.py
@@ -108,8 +108,9 @@ class Mixture(DiscreteLatentModel):
 
     def posteriors(self, data):
         stats = self.modelset.sufficient_statistics(data)
-        log_weights = self.weights.expected_natural_parameters().view(1, -1)
+        tensorconf = {'dtype': stats.dtype, 'device': stats.device}
+        log_weights = self._log_weights(tensorconf)[None]
         per_component_exp_llh = self.modelset.expected_log_likelihood(stats)
-        per_component_exp_llh += log_weights
+        per_component_exp_llh = per_component_exp_llh + log_weights
         lognorm = torch.logsumexp(per_component_exp_llh, dim=1).view(-1)
         return torch.exp(per_component_exp_llh - lognorm.view(-1, 1))
-- 
2.43.0


From 8a6598bef8d277314e883de410a13ca56b656b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:24 +0000
Subject: [PATCH 15/25] fix: size of a stick-breaking set depends on pending
 statistics of its root

---
 beer/models/categoricalset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beer/models/categoricalset.py b/beer/models/categoricalset.py
index 297367d..36bfbe0 100644
--- a/beer/models/categoricalset.py
+++ b/beer/models/categoricalset.py
@@ -167,8 +167,7 @@ def _optimize_root_sb(sb_set, concentration, epochs, optim_cls, optim_args):
 def _default_set_sb_param(n_components, root_sb_categorical, prior_strength):
     mean = root_sb_categorical.mean
     tensorconf = {'dtype': mean.dtype, 'device': mean.device}
-    params = torch.ones(n_components, len(root_sb_categorical.stickbreaking), 2,
-                        **tensorconf)
+    params = torch.ones(n_components, len(mean), 2, **tensorconf)
     params[:, :, 0] = prior_strength * mean
     params[:, :, 1] = prior_strength * (1 - mean.cumsum(dim=0))
     params = params.reshape(-1, 2)
-- 
2.43.0


From 39b1ac267b4e68ab3c5d604bb2d3fabb1779afc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 16/25] fix: updating stick-breaking weights without new counts
 raises an error

---
 beer/models/categorical.py    | 2 ++
 beer/models/categoricalset.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/beer/models/categorical.py b/beer/models/categorical.py
index e553bf1..48ed569 100644
--- a/beer/models/categorical.py
+++ b/beer/models/categorical.py
@@ -108,6 +108,8 @@ class SBCategorical(Model):
 
     def _transform_stats(self):
         stats = self.stickbreaking.stats
+        if len(stats.shape) > 1:
+            return  # no (new) counts since the last update
         self.ordering = stats.sort(descending=True)[1]
         stats = stats[self.ordering]
         s2 = torch.zeros_like(stats)
diff --git a/beer/models/categoricalset.py b/beer/models/categoricalset.py
index 36bfbe0..75b35c0 100644
--- a/beer/models/categoricalset.py
+++ b/beer/models/categoricalset.py
@@ -229,6 +229,8 @@ class SBCategoricalSet(Model):
 
     def _transform_stats(self):
         stats = self.stickbreaking.stats
+        if stats.shape == self.stickbreaking.prior.natural_parameters().shape:
+            return  # no (new) counts since the last update
         stats = stats[:, self.ordering]
         s2 = torch.zeros_like(stats)
         s2[:, :-1] = stats[:,  1:]
-- 
2.43.0


From 89a41d52737c689e3b7972a9b47651b4736f75d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:59 +0000
Subject: [PATCH 17/25] fix: unit parameters of a stored subspace phone-loop
 cannot be updated

---
 beer/models/gsm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index b5a3f32..ba91e28 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -391,7 +391,9 @@ class SubspaceBayesianParameterView(ConjugateBayesianParameter):
 
     @pdfvec.setter
     def pdfvec(self, value):
-        self.param.pdfvec[self.key] = value
+        # The graph is not needed and the vectors could not be modified any
+        # more after being stored and loaded.
+        self.param.pdfvec[self.key] = value.detach()
 
     def value(self):
         return self.likelihood_fn.parameters_from_pdfvector(self.pdfvec)
-- 
2.43.0


From 0119677c0f7032bead9de4be23ad9be1e8006b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:23 +0000
Subject: [PATCH 18/25] fix: subspace phone-loop with one Gaussian per state
 cannot be created

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index ba91e28..50047b8 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -435,7 +435,7 @@ def _pdfvecs(params, rvecs):
         dim = lhf.sufficient_statistics_dim(zero_stats=False)
         npdfs = len(param)
         totdim = dim * npdfs
-        param_rvecs = rvecs[:, idx: idx + totdim].reshape(-1, dim)
+        param_rvecs = rvecs[:, idx: idx + totdim].reshape(len(rvecs) * npdfs, dim)
         pdfvec = lhf.pdfvectors_from_rvectors(param_rvecs)
         totdim_with_zerostats = npdfs * pdfvec.shape[-1]
         idx += totdim
-- 
2.43.0


From c875f4738cae70f4a47e82198d03f593ac2e67e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:33 +0000
Subject: [PATCH 19/25] fix: archive drops every occurrence of the extension
 from the identifiers

---
 beer/cli/subcommands/features/archive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/features/archive.py b/beer/cli/subcommands/features/archive.py
index 0122773..88efe59 100644
--- a/beer/cli/subcommands/features/archive.py
+++ b/beer/cli/subcommands/features/archive.py
@@ -20,7 +20,9 @@ def main(args, logger):
     with ZipFile(args.out, 'w') as f:
         for path in glob.glob(os.path.join(args.feadir, '*' + args.extension)):
             logger.debug(f'adding {path} to the archive')
-            arcname = os.path.basename(path).replace('.' + args.extension, '')
+            arcname = os.path.basename(path)
+            if arcname.endswith('.' + args.extension):
+                arcname = arcname[:-len('.' + args.extension)]
             f.write(path, arcname=arcname)
             counts += 1
     logger.info(f'created archive from {counts} features files')
-- 
2.43.0


From a206cb67b679fe8bb21c5cf3ceb20d47d7320166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:33 +0000
Subject: [PATCH 20/25] fix: archive of a directory whose name has brackets is
 empty

---
 beer/cli/subcommands/features/archive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/features/archive.py b/beer/cli/subcommands/features/archive.py
index 88efe59..cb64c20 100644
--- a/beer/cli/subcommands/features/archive.py
+++ b/beer/cli/subcommands/features/archive.py
@@ -18,7 +18,8 @@ def setup(parser):
 def main(args, logger):
     counts = 0
     with ZipFile(args.out, 'w') as f:
-        for path in glob.glob(os.path.join(args.feadir, '*' + args.extension)):
+        for path in glob.glob(os.path.join(glob.escape(args.feadir),
+                                           '*' + args.extension)):
             logger.debug(f'adding {path} to the archive')
             arcname = os.path.basename(path)
             if arcname.endswith('.' + args.extension):
-- 
2.43.0


From 9be976a9233c439c438d302a4ffba5312483409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:01 +0000
Subject: [PATCH 21/25] fix: weight of paths through non-emitting states

In find_next_pdf_ids and find_previous_pdf_ids the variable of the list
comprehension hid the explored arc: the weight of a path counted its last
arc twice and dropped the one before.
---
 beer/graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beer/graph.py b/beer/graph.py
index f5457f2..e6ff363 100644
--- a/beer/graph.py
+++ b/beer/graph.py
@@ -163,8 +163,8 @@ class Graph:
                 yield arc.end, weight * arc.weight
             else:
                 if arc.end not in visited:
-                    to_explore += [(arc, arc.weight * weight)
-                                    for arc in self.arcs(arc.end)]
+                    to_explore += [(next_arc, arc.weight * weight)
+                                    for next_arc in self.arcs(arc.end)]
                     visited.add(arc.end)
 
     def find_previous_pdf_ids(self, start_state, init_weight=1.0):
@@ -178,8 +178,8 @@ class Graph:
                 yield arc.start, weight * arc.weight
             else:
                 if arc.start not in visited:
-                    to_explore += [(arc, arc.weight * weight)
-                                    for arc in self.arcs(arc.start, incoming=True)]
+                    to_explore += [(prev_arc, arc.weight * weight)
+                                    for prev_arc in self.arcs(arc.start, incoming=True)]
                     visited.add(arc.start)
 
     def compile(self):
-- 
2.43.0


From dac5c3d3a545409bde43f1a6e5ce360984cdff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:38 +0000
Subject: [PATCH 22/25] fix: subspace models of isotropic Gaussians used the
 last mean coordinate as log precision

---
 beer/dists/isonormalgamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/isonormalgamma.py b/beer/dists/isonormalgamma.py
index 82e5388..ad6f778 100644
--- a/beer/dists/isonormalgamma.py
+++ b/beer/dists/isonormalgamma.py
@@ -33,7 +33,7 @@ class IsotropicNormalLikelihood(ConjugateLikelihood):
     def pdfvectors_from_rvectors(rvecs):
         dim = rvecs.shape[-1] - 1
         mean = rvecs[:, :dim]
-        log_precision = rvecs[:, -2:-1]
+        log_precision = rvecs[:, -1:]
         precision = torch.exp(log_precision)
         return torch.cat([
             precision * mean,
-- 
2.43.0


From 5ac21b377f756b53f6f7ec096bbcaf4c2e5b290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:38 +0000
Subject: [PATCH 23/25] fix: isotropic Gaussian parameters could not be read
 from several pdf vectors

---
 beer/dists/isonormalgamma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/dists/isonormalgamma.py b/beer/dists/isonormalgamma.py
index ad6f778..28a7ca1 100644
--- a/beer/dists/isonormalgamma.py
+++ b/beer/dists/isonormalgamma.py
@@ -47,11 +47,11 @@ class IsotropicNormalLikelihood(ConjugateLikelihood):
         size = pdfvec.shape
         if len(size) == 1:
             pdfvec = pdfvec.view(1, -1)
-        precision = pdfvec[:, -3]
+        precision = pdfvec[:, -3].view(-1, 1)
         mean = pdfvec[:, :-3] / precision
         if len(size) == 1:
             return mean.view(-1), precision.view(-1)
-        return mean.view(-1, dim), precision.view(-1, dim)
+        return mean, precision
 
     def __call__(self, pdfvecs, stats):
         if len(pdfvecs.shape) == 1:
-- 
2.43.0


From 778b9412eaec65fae5acd5b0652ebd285d3184c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:11 +0000
Subject: [PATCH 24/25] fix: VAE objective was broadcast to a frames-by-frames
 matrix

The data term was a column (one row per frame) and, with a Normal prior, the
cross-entropy too: combined with the vector of the entropies they became
N x N matrices whose sum counts every term N times.
---
 beer/models/vae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/vae.py b/beer/models/vae.py
index eba1a7f..8f998e1 100644
--- a/beer/models/vae.py
+++ b/beer/models/vae.py
@@ -73,7 +73,7 @@ class VAE(Model):
         s_samples = self.prior.sufficient_statistics(samples.view(-1, samples.shape[-1]))
         s_samples = s_samples.reshape(len(samples), -1, s_samples.shape[-1]).mean(dim=1)
         self.cache['prior_stats'] = s_samples
-        xent = -self.prior.expected_log_likelihood(s_samples)
+        xent = -self.prior.expected_log_likelihood(s_samples).reshape(-1)
         local_kl_div = xent - ent
         
         # Approximate the expected log-likelihood with the
@@ -81,7 +81,7 @@ class VAE(Model):
         pdfs = self.pdfs(samples.view(-1, samples.shape[-1]))
         r_data = data[:, None, :].repeat(1, nsamples, 1).view(-1, data.shape[-1])
         llh = pdfs(pdfs.sufficient_statistics(r_data), pdfwise=True)
-        llh = llh.reshape(len(data), nsamples, -1).mean(dim=1)
+        llh = llh.reshape(len(data), nsamples).mean(dim=1)
         
         return llh_weight * llh - kl_weight * local_kl_div
 
-- 
2.43.0


From f5af08e4a55f98a80cfa037447f6974abc9ac704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:12 +0000
Subject: [PATCH 25/25] fix: log-likelihood of the mean value of a flow lacked
 its constant

With use_mean the log-density of the base distribution was 0 instead of
-D/2 log(2 pi).
---
 beer/nnet/problayers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/nnet/problayers.py b/beer/nnet/problayers.py
index ba18f4b..43e44f1 100644
--- a/beer/nnet/problayers.py
+++ b/beer/nnet/problayers.py
@@ -182,7 +182,7 @@ class InverseAutoRegressiveFlow(ProbabilisticLayer):
         dim = means.shape[-1]
         if use_mean:
             flow = means
-            llhs = torch.zeros_like(means[:, 0])
+            llhs = torch.full_like(means[:, 0], -.5 * dim * math.log(2 * math.pi))
         else:
             dtype, device = means.dtype, means.device
             noise = torch.randn(*means.shape, dtype=dtype, device=device)
-- 
2.43.0

