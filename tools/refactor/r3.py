import os
import sys; os.chdir(sys.argv[1])
def sub(f,a,b,n=1):
    s=open(f).read(); assert s.count(a)>=1,(f,a); s=s.replace(a,b,n); open(f,'w').write(s)
V='src/irspack/recommenders/multvae.py'
sub(V,'''        layers = []
        for d_o in self.hidden_dims:
            layers.append(hk.Linear(d_o))
            layers.append(jnp.tanh)
        layers.append(hk.Linear(self.output_dim))

        return hk.Sequential(layers)(X)
''','''        h = X
        for d_o in self.hidden_dims:
            h = jnp.tanh(hk.Linear(d_o)(h))
        return hk.Linear(self.output_dim)(h)
''')
sub(V,"        return jax.nn.log_softmax(self.mlp(X), axis=1)","        logits = self.mlp(X)\n        return logits - jax.scipy.special.logsumexp(logits, axis=1, keepdims=True)")
sub(V,"    return X / jnp.sqrt((X**2).sum(axis=1) + 1e-8)[:, None]","    norm = jnp.sqrt(jnp.sum(jnp.square(X), axis=1, keepdims=True) + 1e-8)\n    return jnp.divide(X, norm)")
sub(V,"        KL = KL.sum(axis=1).mean(axis=0)","        KL = jnp.mean(jnp.sum(KL, axis=1), axis=0)")
sub(V,"            grads = jax.grad(loss_fn)(params, rng, X, kl_coeff, dropout, True)","            _, grads = jax.value_and_grad(loss_fn)(\n                params, rng, X, kl_coeff, dropout, True\n            )")
sub(V,'''        user_indices = np.arange(self.n_users)
        self.shuffle_rng.shuffle(user_indices)
''','''        user_indices = self.shuffle_rng.permutation(self.n_users)
''')
sub(V,'''            mb_arrays.append(np.asarray(mvresult.log_softmax, dtype=np.float64))
        score_concat: DenseScoreArray = np.concatenate(mb_arrays, axis=0)
        return score_concat
''','''            out[mb_start:mb_end] = np.asarray(mvresult.log_softmax)
        return out
''')
sub(V,"        mb_arrays: List[DenseScoreArray] = []\n        n_users: int = X.shape[0]\n","        n_users: int = X.shape[0]\n        out: DenseScoreArray = np.empty((n_users, self.n_items), dtype=np.float64)\n")
sub(V,"range(0, max(n_users, 1), self.minibatch_size):","range(0, n_users, self.minibatch_size):")
P='src/irspack/recommenders/bpr.py'
s=open(P).read()
s=s.replace('''            self.fm.user_embeddings[index].dot(self.fm.item_embeddings.T)
            + self.fm.item_biases[np.newaxis, :]
''','''            self.get_score_from_user_embedding(self.get_user_embedding()[index])
''',1)
s=s.replace('''            self.fm.user_embeddings[begin:end].dot(self.fm.item_embeddings.T)
            + self.fm.item_biases[np.newaxis, :]
''','''            self.get_score_from_user_embedding(self.get_user_embedding()[begin:end])
''',1)
s=s.replace('''            user_embedding.dot(self.fm.item_embeddings.T)
            + self.fm.item_biases[np.newaxis, :]
''','''            np.einsum("uk,ik->ui", user_embedding, self.fm.get_item_representations()[1])
            + self.fm.get_item_representations()[0]
''',1)
open(P,'w').write(s)
B='src/irspack/recommenders/base.py'
s=open(B).read()
s=s.replace('''        scores[m.nonzero()] = -np.inf
''','''        scores = np.where(m.toarray() != 0, scores.dtype.type(-np.inf), scores)
''')
s=s.replace('''        score[X.nonzero()] = -np.inf
''','''        seen = X.tocoo()
        nonzero = seen.data != 0
        score[seen.row[nonzero], seen.col[nonzero]] = -np.inf
''')
s=s.replace('''        return _sparse_to_array(self.X_train_all[user_indices].dot(self.W))''','''        return self.get_score_cold_user(self.X_train_all[user_indices])''')
s=s.replace('''        return _sparse_to_array(self.X_train_all[begin:end].dot(self.W))''','''        return self.get_score_cold_user(self.X_train_all[begin:end])''')
s=s.replace('''        return _sparse_to_array(X.dot(self.W))''','''        return _sparse_to_array((self.W.T @ X.T).T if False else X @ self.W)''')
open(B,'w').write(s)
for K in ('src/irspack/recommenders/knn.py','src/irspack/recommenders/user_knn.py'):
    s=open(K).read()
    i=s.index("        if self.feature_weighting == FeatureWeightingScheme.NONE:"); j=s.index("        computer = self._create_computer",i)
    s=s[:i]+'''        weigh = {
            FeatureWeightingScheme.NONE: lambda M: M,
            FeatureWeightingScheme.TF_IDF: tf_idf_weight,
            FeatureWeightingScheme.BM_25: lambda M: okapi_BM_25_weight(
                M, k1=self.bm25_k1, b=self.bm25_b
            ),
        }[self.feature_weighting]
        X_weighted = weigh(self.X_train_all)

'''+s[j:]
    open(K,'w').write(s)
sub('src/irspack/recommenders/p3.py','''        self._W = computer.compute_W(self.X_train_all.T, top_k)
        if self.normalize_weight:
            self._W = l1_normalize_row(self._W)''','''        weight = computer.compute_W(self.X_train_all.T.tocsr(), top_k)
        self._W = l1_normalize_row(weight) if self.normalize_weight else weight''')
S='src/irspack/recommenders/base_earlystop.py'
s=open(S).read()
i=s.index("        pb = progress_bar(range(max_epoch))"); j=s.index("        if evaluator is not None:\n            self.load_state()",i)
s=s[:i]+'''        pb = progress_bar(range(1, max_epoch + 1))
        for done in pb:
            self.run_epoch()
            if evaluator is None or done % validate_epoch != 0:
                continue
            value = evaluator.get_target_score(self)
            pb.comment = f"{evaluator.target_metric_name}={value}"
            improved = value > best_score
            if improved:
                best_score, n_score_degradation = value, 0
                self.learnt_config.update(train_epochs=done)
                self.save_state()
            else:
                n_score_degradation = n_score_degradation + 1
            if not improved and n_score_degradation >= score_degradation_max:
                pb.on_interrupt()
                break
            if trial is None:
                continue
            trial.report(-value, done - 1)
            if trial.should_prune():
                pb.on_interrupt()
                raise TrialPruned()

'''+s[j:]
open(S,'w').write(s)
