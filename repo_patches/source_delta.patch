From d2fd70b70cfb29259d0583b136d5476ed7db8a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:53 +0000
Subject: [PATCH 01/47] fix: never leave an incomplete archive under the
 dataset path when a download fails

---
 src/irspack/dataset/downloader.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/irspack/dataset/downloader.py b/src/irspack/dataset/downloader.py
index 653cf89..d2e724b 100644
--- a/src/irspack/dataset/downloader.py
+++ b/src/irspack/dataset/downloader.py
@@ -2,8 +2,9 @@ import urllib.request
 from abc import ABCMeta, abstractmethod
 from io import BytesIO
 from pathlib import Path
+from tempfile import TemporaryDirectory
 from typing import Optional, Union
-from zipfile import ZipFile
+from zipfile import ZipFile, is_zipfile
 
 
 class BaseDownloader(metaclass=ABCMeta):
@@ -43,7 +44,17 @@ class BaseDownloader(metaclass=ABCMeta):
                 download = True
             if download:
                 print("start download...")
-                self._save_to_zippath(zippath)
+                # Never expose an incomplete archive under the final name.
+                with TemporaryDirectory(
+                    dir=zippath.parent, prefix=f".{zippath.name}."
+                ) as temporary_dir:
+                    temporary_path = Path(temporary_dir) / zippath.name
+                    self._save_to_zippath(temporary_path)
+                    if not is_zipfile(temporary_path):
+                        raise RuntimeError(
+                            "the downloaded file is not a complete zip archive"
+                        )
+                    temporary_path.replace(zippath)
                 print("complete")
             else:
                 raise RuntimeError("could not read zipFile")
-- 
2.43.0


From 467c886ed04196a4f63e8f1fce77c7df3fcf46a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:18 +0000
Subject: [PATCH 02/47] fix: reject truncated or non-archive MIND downloads
 before installing them

---
 src/irspack/dataset/mind.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index 2056cfb..b4fb9ee 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -7,7 +7,7 @@ from pathlib import Path
 from tempfile import NamedTemporaryFile
 from typing import Dict, Iterable, List, Optional, Union
 from urllib.error import HTTPError
-from zipfile import ZipFile
+from zipfile import ZipFile, is_zipfile
 
 import pandas as pd
 
@@ -130,6 +130,8 @@ class MINDDataManager:
                 ) as output:
                     temporary_path = Path(output.name)
                     shutil.copyfileobj(response, output)
+            if not is_zipfile(temporary_path):
+                raise RuntimeError(f"{url} did not return a complete zip archive.")
             temporary_path.replace(path)
         except HTTPError as err:
             if err.code in (401, 403):
-- 
2.43.0


From f5147326485c6b7e788958c8f5af11341fa5d8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:18 +0000
Subject: [PATCH 03/47] fix: send the Hugging Face token to the Hugging Face
 host only

---
 src/irspack/dataset/mind.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index b4fb9ee..1bf8cc4 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -7,11 +7,24 @@ from pathlib import Path
 from tempfile import NamedTemporaryFile
 from typing import Dict, Iterable, List, Optional, Union
 from urllib.error import HTTPError
+from urllib.parse import urlsplit
 from zipfile import ZipFile, is_zipfile
 
 import pandas as pd
 
 
+class _SameHostAuthRedirectHandler(urllib.request.HTTPRedirectHandler):
+    """Do not forward the access token when redirected to another host."""
+
+    def redirect_request(self, req, fp, code, msg, headers, newurl):  # type: ignore
+        redirected = super().redirect_request(req, fp, code, msg, headers, newurl)
+        if redirected is not None:
+            old, new = urlsplit(req.full_url), urlsplit(redirected.full_url)
+            if (old.scheme, old.netloc) != (new.scheme, new.netloc):
+                redirected.remove_header("Authorization")
+        return redirected
+
+
 class MINDDataManager:
     r"""Manage the Microsoft News Dataset (MIND).
 
@@ -115,16 +128,19 @@ class MINDDataManager:
 
     @staticmethod
     def _download(url: str, path: Path, hf_token: Optional[str] = None) -> None:
-        token = (
-            hf_token
-            or os.environ.get("HF_TOKEN")
-            or os.environ.get("HUGGING_FACE_HUB_TOKEN")
-        )
+        token = None
+        if urlsplit(url).hostname == urlsplit(MINDDataManager.HUGGINGFACE_BASE_URL).hostname:
+            token = (
+                hf_token
+                or os.environ.get("HF_TOKEN")
+                or os.environ.get("HUGGING_FACE_HUB_TOKEN")
+            )
         headers = {"Authorization": f"Bearer {token}"} if token else {}
         request = urllib.request.Request(url, headers=headers)
         temporary_path: Optional[Path] = None
         try:
-            with urllib.request.urlopen(request) as response:
+            opener = urllib.request.build_opener(_SameHostAuthRedirectHandler)
+            with opener.open(request) as response:
                 with NamedTemporaryFile(
                     "wb", delete=False, dir=path.parent, prefix=f".{path.name}."
                 ) as output:
-- 
2.43.0


From e1630583f258f12d20e42603ff44a9005a263d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:18 +0000
Subject: [PATCH 04/47] fix: read MIND files without interpreting quotes or
 NA-like words in articles

---
 src/irspack/dataset/mind.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index 1bf8cc4..4814c1f 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -1,3 +1,4 @@
+import csv
 import json
 import os
 import shutil
@@ -217,6 +218,7 @@ class MINDDataManager:
                     "history",
                     "impressions",
                 ],
+                quoting=csv.QUOTE_NONE,
             )
         result["timestamp"] = pd.to_datetime(
             result["timestamp"], format="%m/%d/%Y %I:%M:%S %p"
@@ -295,7 +297,18 @@ class MINDDataManager:
         ]
         for split_name in self._iter_splits(split):
             with self._read_as_istream(split_name, "news.tsv") as ifs:
-                frames.append(pd.read_csv(ifs, sep="\t", header=None, names=columns))
+                frames.append(
+                    pd.read_csv(
+                        ifs,
+                        sep="\t",
+                        header=None,
+                        names=columns,
+                        dtype=str,
+                        quoting=csv.QUOTE_NONE,
+                        keep_default_na=False,
+                        na_values=[""],
+                    )
+                )
         result = pd.concat(frames, ignore_index=True).drop_duplicates(
             "item_id", keep="first"
         )
@@ -306,7 +319,9 @@ class MINDDataManager:
 
     def _read_embedding(self, filename: str, id_name: str, split: str) -> pd.DataFrame:
         with self._read_as_istream(split, filename) as ifs:
-            result = pd.read_csv(ifs, sep="\t", header=None)
+            result = pd.read_csv(
+                ifs, sep="\t", header=None, quoting=csv.QUOTE_NONE
+            )
         result = result.rename(columns={0: id_name}).set_index(id_name)
         result.columns = [f"embedding_{i}" for i in range(result.shape[1])]
         return result.astype("float32")
-- 
2.43.0


From 4e46489e82def8691a11b2f6009a83770925e976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:18 +0000
Subject: [PATCH 05/47] fix: parse Amazon metadata as literals instead of
 evaluating it as code

---
 src/irspack/dataset/amazon_music.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/irspack/dataset/amazon_music.py b/src/irspack/dataset/amazon_music.py
index e88c6c0..0be72fb 100644
--- a/src/irspack/dataset/amazon_music.py
+++ b/src/irspack/dataset/amazon_music.py
@@ -1,3 +1,4 @@
+import ast
 import urllib.request
 from gzip import GzipFile
 from pathlib import Path
@@ -39,7 +40,7 @@ class AmazonMusicDataManager(BaseDownloader):
     def read_metadata(self) -> pd.DataFrame:
         results = []
         for l in self._read_as_istream("amazon-music/music-meta.json"):
-            meta = eval(l.decode("utf-8"))
+            meta = ast.literal_eval(l.decode("utf-8"))
             results.append(
                 (
                     meta["asin"],
-- 
2.43.0


From 3e88156fc06dd5fcc5eef34953549a1142dabbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:32 +0000
Subject: [PATCH 06/47] fix: keep every trial's scores when several workers
 share a study

---
 src/irspack/optimization/optimizer.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/irspack/optimization/optimizer.py b/src/irspack/optimization/optimizer.py
index 3fd1676..4a33fda 100644
--- a/src/irspack/optimization/optimizer.py
+++ b/src/irspack/optimization/optimizer.py
@@ -19,19 +19,10 @@ ParameterSuggestFunction = Callable[["Trial"], Dict[str, Any]]
 
 
 def add_score_to_trial(trial: "Trial", score: Dict[str, float], cutoff: int) -> None:
-    score_history: List[Tuple[int, Dict[str, float]]] = trial.study.user_attrs.get(
-        "scores", []
-    )
-    score_history.append(
-        (
-            trial.number,
-            {
-                f"{score_name}@{cutoff}": score_value
-                for score_name, score_value in score.items()
-            },
-        )
-    )
-    trial.study.set_user_attr("scores", score_history)
+    # Stored trial by trial: a list shared by the study would lose the scores of
+    # trials which are finished concurrently by other workers.
+    for score_name, score_value in score.items():
+        trial.set_user_attr(f"{score_name}@{cutoff}", score_value)
 
 
 def study_to_dataframe(study: "Study") -> pd.DataFrame:
@@ -42,15 +33,22 @@ def study_to_dataframe(study: "Study") -> pd.DataFrame:
         re.sub(r"^(user_attrs|params)_", "", colname) for colname in result_df.columns
     ]
 
+    # scores stored in the study by the previous versions of irspack.
     trial_and_scores: List[Tuple[float, Dict[str, float]]] = study.user_attrs.get(
         "scores", []
     )
+    if not trial_and_scores:
+        return result_df
     score_df = pd.DataFrame(
         [x[1] for x in trial_and_scores],
         index=[x[0] for x in trial_and_scores],
     )
     score_df.index.name = "number"
-    result_df = result_df.join(score_df, how="left")
+    for colname in score_df.columns:
+        if colname in result_df.columns:
+            result_df[colname] = result_df[colname].combine_first(score_df[colname])
+        else:
+            result_df[colname] = score_df[colname]
     return result_df
 
 
-- 
2.43.0


From a187fc035ad1e2fe5e829fdced1d0b0807b62f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:32 +0000
Subject: [PATCH 07/47] fix: return best parameters when fixed or learnt
 parameters were also suggested

---
 src/irspack/optimization/optimizer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/irspack/optimization/optimizer.py b/src/irspack/optimization/optimizer.py
index 4a33fda..2f59cc1 100644
--- a/src/irspack/optimization/optimizer.py
+++ b/src/irspack/optimization/optimizer.py
@@ -189,13 +189,17 @@ class Optimizer:
         )
 
         study.optimize(objective_func, n_trials=n_trials, timeout=timeout)
-        best_params = dict(
-            **study.best_trial.params,
-            **{
+        best_params = {
+            key: val
+            for key, val in study.best_trial.params.items()
+            if key not in self.recommender_params
+        }
+        best_params.update(
+            {
                 key: val
                 for key, val in study.best_trial.user_attrs.items()
                 if is_valid_param_name(key)
-            },
+            }
         )
         trials_df = study_to_dataframe(study)
         return (best_params, trials_df)
-- 
2.43.0


From 18788ece3dac4718732314f3db8e94cdb170a883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:32 +0000
Subject: [PATCH 08/47] fix: check parameter names in linear time and reject a
 trailing newline

---
 src/irspack/optimization/parameter_range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/optimization/parameter_range.py b/src/irspack/optimization/parameter_range.py
index b416157..8e3d931 100644
--- a/src/irspack/optimization/parameter_range.py
+++ b/src/irspack/optimization/parameter_range.py
@@ -5,7 +5,7 @@ from typing import TYPE_CHECKING, Any, List
 if TYPE_CHECKING:
     from optuna import Trial
 
-NAME_CHECKER = re.compile(r"^([a-zA-Z\d]+[\-_]*)+$")
+NAME_CHECKER = re.compile(r"^[a-zA-Z\d][a-zA-Z\d\-_]*\Z")
 
 
 def is_valid_param_name(name: str) -> bool:
-- 
2.43.0


From 84a8e14a18df82bbae2273edf0c9299dc441512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:32 +0000
Subject: [PATCH 09/47] fix: pick the best completed trial in the dimension
 doubling search, ties included

---
 src/irspack/recommenders/ials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/recommenders/ials.py b/src/irspack/recommenders/ials.py
index c26f3dc..bf401a9 100644
--- a/src/irspack/recommenders/ials.py
+++ b/src/irspack/recommenders/ials.py
@@ -747,11 +747,11 @@ class IALSRecommender(
             )
             df_["n_components"] = dimension
             bp["n_components"] = dimension
-            results.append((float(df_["value"].min()), bp, df_))
+            results.append((float(study.best_value), bp, df_))
             prev_params = study.best_params.copy()
             dimension *= 2
         final_result_df = pd.concat([x[2] for x in results])
-        final_bp = sorted(results)[0][1]
+        final_bp = min(results, key=lambda x: x[0])[1]
 
         return final_bp, final_result_df
 
-- 
2.43.0


From dbb2e8da4850b006f32db717511e87dfc1c0d081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:43 +0000
Subject: [PATCH 10/47] fix: keep fractional ratings in the row-wise train/test
 split

---
 cpp_source/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index a19e162..0cbc3d7 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -76,7 +76,7 @@ struct SplitFunction {
   split_imple(const CSRMatrix<Real> &X, std::int64_t random_seed,
               Args... args) {
     Derived::check_args(args...);
-    using Triplet = Eigen::Triplet<Integer>;
+    using Triplet = Eigen::Triplet<Real>;
     std::mt19937 random_state(random_seed);
     std::vector<Integer> col_buffer;
     std::vector<Real> data_buffer;
@@ -105,7 +105,7 @@ struct SplitFunction {
       }
     }
     CSRMatrix<Real> X_train(X.rows(), X.cols()), X_test(X.rows(), X.cols());
-    auto dupfunction = [](const Integer &a, const Integer &b) { return a + b; };
+    auto dupfunction = [](const Real &a, const Real &b) { return a + b; };
     X_train.setFromTriplets(train_data.begin(), train_data.end(), dupfunction);
     X_test.setFromTriplets(test_data.begin(), test_data.end(), dupfunction);
     X_train.makeCompressed();
-- 
2.43.0


From 901026073dd4e7f92bbae37dd14a955b3d2928fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:21 +0000
Subject: [PATCH 11/47] fix: keep the ratings of train users in the
 user-holdout split

---
 src/irspack/split/userwise.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 06608a7..b54ec2f 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -332,7 +332,12 @@ def split_dataframe_partial_user_holdout(
     item_all: List[Any] = list(set(df_all[item_column]))
 
     train_user_interactions, _, __ = df_to_sparse(
-        df_train, user_column, item_column, user_ids=train_uids, item_ids=item_all
+        df_train,
+        user_column,
+        item_column,
+        user_ids=train_uids,
+        item_ids=item_all,
+        rating_column=rating_column,
     )
 
     valid_data: Dict[str, UserTrainTestInteractionPair] = dict(
-- 
2.43.0


From 72c2ff3306dea94938712912860383dcbd127fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:22 +0000
Subject: [PATCH 12/47] fix: honour n_test_user whatever test_user_ratio is

---
 src/irspack/split/userwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index b54ec2f..07ce2f8 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -317,7 +317,7 @@ def split_dataframe_partial_user_holdout(
 
     train_uids, val_test_uids = _split_list(uids, (n_val_user + n_test_user), rns)
 
-    if (test_user_ratio * len(uids)) >= 1:
+    if n_test_user >= 1:
         val_uids, test_uids = _split_list(
             val_test_uids,
             n_test_user,
-- 
2.43.0


From bbc0e8e02bd69f628a5edc70ee495a2e696d8374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:22 +0000
Subject: [PATCH 13/47] fix: reject more validation and test users than there
 are users

---
 src/irspack/split/userwise.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 07ce2f8..3eac613 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -306,11 +306,9 @@ def split_dataframe_partial_user_holdout(
     if n_test_user is None:
         n_test_user = int(n_users_all * test_user_ratio)
         test_user_ratio = n_test_user / n_users_all
-    else:
-        if (n_test_user + n_val_user) > n_users_all:
-            raise ValueError(
-                "n_val_user + n_test_users exceeds the number of total users."
-            )
+
+    if (n_test_user + n_val_user) > n_users_all:
+        raise ValueError("n_val_user + n_test_users exceeds the number of total users.")
 
     df_all = df_all.drop_duplicates([user_column, item_column])
     rns = convert_randomstate(random_state)
-- 
2.43.0


From 98e9feed963b34665ff262eb1ab252fb82b93f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:22 +0000
Subject: [PATCH 14/47] fix: accept a rating column in the time-based
 user-holdout split

---
 src/irspack/split/userwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 3eac613..10c4586 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -191,7 +191,7 @@ def split_train_test_userwise_time(
 ) -> UserTrainTestInteractionPair:
     unique_user_ids = np.asarray(list(set(df_[user_column])))
     df_train, df_test = split_last_n_interaction_df(
-        df_[[user_column, item_column, time_column]],
+        df_,
         user_column,
         time_column,
         n_heldout=n_heldout,
-- 
2.43.0


From 82d019c0e36f696acd0f6ea231ea913138f6fbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:22 +0000
Subject: [PATCH 15/47] fix: allow zero validation and test ratios when holding
 out specific interactions

---
 src/irspack/split/specified.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/irspack/split/specified.py b/src/irspack/split/specified.py
index 0e0fd8c..7eadcd4 100644
--- a/src/irspack/split/specified.py
+++ b/src/irspack/split/specified.py
@@ -95,11 +95,12 @@ def holdout_specific_interactions(
             int(v_user_ratio_train * n_validatable_users),
             rns,
         )
-    v_test_users, v_val_users = _split_list(
-        v_val_test_users,
-        int(len(v_val_test_users) * validatable_user_ratio_val / val_test_ratio),
-        rns,
+    n_val_users = (
+        int(len(v_val_test_users) * validatable_user_ratio_val / val_test_ratio)
+        if val_test_ratio > 0
+        else 0
     )
+    v_test_users, v_val_users = _split_list(v_val_test_users, n_val_users, rns)
     df_train = pd.concat(
         [
             df[df[user_column].isin(v_train_users)],
-- 
2.43.0


From f32ef9e9934bd4d6ec198912a04e9e6c2271275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:22 +0000
Subject: [PATCH 16/47] fix: convert interactions with zero rating back to data
 frames

---
 src/irspack/split/userwise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 10c4586..29449f8 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -83,8 +83,9 @@ class UserTrainTestInteractionPair:
         if self.item_ids is None:
             raise RuntimeError("Setting item_ids is required to use this method.")
         X.sort_indices()
-        row, col = X.nonzero()
-        data = X.data
+        # unlike X.nonzero(), this keeps the entries with zero rating
+        X_coo = X.tocoo()
+        row, col, data = X_coo.row, X_coo.col, X_coo.data
         return pd.DataFrame(
             dict(
                 user_id=[user_ids[r] for r in row],
-- 
2.43.0


From c8e7177549bc2cc83fb856310c83b9af177f30dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:22 +0000
Subject: [PATCH 17/47] fix: keep user ids of any type in the time-based
 user-holdout split

---
 src/irspack/split/userwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 29449f8..8b8860a 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -190,7 +190,7 @@ def split_train_test_userwise_time(
     rating_column: Optional[str] = None,
     ceil_n_heldout: bool = False,
 ) -> UserTrainTestInteractionPair:
-    unique_user_ids = np.asarray(list(set(df_[user_column])))
+    unique_user_ids = list(set(df_[user_column]))
     df_train, df_test = split_last_n_interaction_df(
         df_,
         user_column,
-- 
2.43.0


From 4d4b2081c1f170c03b3e3beab9c51272f5edcc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:28 +0000
Subject: [PATCH 18/47] fix: rank float64 scores in double precision when
 retrieving recommendations

---
 cpp_source/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 0cbc3d7..1378df0 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -424,12 +424,12 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
 }
 
 template <typename Real>
-inline std::vector<std::vector<std::pair<int64_t, float>>>
+inline std::vector<std::vector<std::pair<int64_t, Real>>>
 retrieve_recommend_from_score(
     const RowMajorMatrix<Real> &score,
     const std::vector<std::vector<int64_t>> &allowed_indices,
     const size_t cutoff, size_t n_threads) {
-  using score_and_index = std::pair<int64_t, float>;
+  using score_and_index = std::pair<int64_t, Real>;
   check_arg(n_threads > 0, "n_threads must not be 0.");
   check_arg(
       (score.rows() == static_cast<int64_t>(allowed_indices.size())) ||
-- 
2.43.0


From cbd4006e599cac00baf7ffc848bef0b7fc2ecd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:28 +0000
Subject: [PATCH 19/47] fix: wait for every retrieval task, deferred ones
 included, and pass on their errors

---
 cpp_source/util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 1378df0..a24d059 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -499,7 +499,9 @@ retrieve_recommend_from_score(
           }
         }));
   }
-  workers.clear();
+  for (auto &worker : workers) {
+    worker.get();
+  }
   return result;
 }
 
-- 
2.43.0


From 75dd18f24e68e55edf552ff29d2110c6f81bd19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:28 +0000
Subject: [PATCH 20/47] fix: do not overwrite the caller's scores of forbidden
 items

---
 src/irspack/utils/id_mapping.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index 8d8e47f..cbeabb0 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -304,6 +304,7 @@ class ItemIDMapper(Generic[ItemIdType]):
         elif allowed_item_ids is not None:
             allowed_item_indices = [self._item_id_list_to_index_list(allowed_item_ids)]
         if forbidden_item_ids is not None:
+            score = score.copy()
             for u, forbidden_ids_per_user in enumerate(forbidden_item_ids):
                 score[
                     u, self._item_id_list_to_index_list(forbidden_ids_per_user)
-- 
2.43.0


From 0e7e792e34eba157c563b54486e7f71f1c18ce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:28 +0000
Subject: [PATCH 21/47] fix: honour a zero cutoff and positive infinite scores
 in single-user recommendation

---
 src/irspack/utils/id_mapping.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index cbeabb0..0d60e8e 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -242,17 +242,17 @@ class ItemIDMapper(Generic[ItemIdType]):
             high_score_inds = score.argsort()[::-1]
         recommendations: List[Tuple[ItemIdType, float]] = []
         for i in high_score_inds:
+            if len(recommendations) >= cutoff:
+                break
             i_int = int(i)
             score_this = score[i_int]
             item_id = self.item_ids[i_int]
-            if np.isinf(score_this):
+            if score_this == -np.inf:
                 continue
             if forbidden_item_ids is not None:
                 if item_id in forbidden_item_ids:
                     continue
             recommendations.append((item_id, float(score_this)))
-            if len(recommendations) >= cutoff:
-                break
         return recommendations
 
     def score_to_recommended_items_batch(
-- 
2.43.0


From 21ea77747639582ee27b021b77b929780ad1fee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:28 +0000
Subject: [PATCH 22/47] fix: recommend an item once when the allowed list
 repeats it

---
 src/irspack/utils/id_mapping.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index 0d60e8e..2a89eae 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -233,7 +233,8 @@ class ItemIDMapper(Generic[ItemIdType]):
 
         if allowed_item_ids is not None:
             allowed_item_indices = np.asarray(
-                self._item_id_list_to_index_list(allowed_item_ids), dtype=np.int64
+                self._item_id_list_to_index_list(dict.fromkeys(allowed_item_ids)),
+                dtype=np.int64,
             )
             high_score_inds = allowed_item_indices[
                 score[allowed_item_indices].argsort()[::-1]
@@ -299,10 +300,13 @@ class ItemIDMapper(Generic[ItemIdType]):
         allowed_item_indices: List[List[int]] = []
         if per_user_allowed_item_ids is not None:
             allowed_item_indices = [
-                self._item_id_list_to_index_list(_) for _ in per_user_allowed_item_ids
+                self._item_id_list_to_index_list(dict.fromkeys(_))
+                for _ in per_user_allowed_item_ids
             ]
         elif allowed_item_ids is not None:
-            allowed_item_indices = [self._item_id_list_to_index_list(allowed_item_ids)]
+            allowed_item_indices = [
+                self._item_id_list_to_index_list(dict.fromkeys(allowed_item_ids))
+            ]
         if forbidden_item_ids is not None:
             score = score.copy()
             for u, forbidden_ids_per_user in enumerate(forbidden_item_ids):
-- 
2.43.0


From 29e23341bac550c92d19cc20563e4c6a91804898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:41 +0000
Subject: [PATCH 23/47] fix: evaluate score arrays of any memory layout

---
 src/irspack/evaluation/evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/irspack/evaluation/evaluator.py b/src/irspack/evaluation/evaluator.py
index 066b052..c257338 100644
--- a/src/irspack/evaluation/evaluator.py
+++ b/src/irspack/evaluation/evaluator.py
@@ -163,6 +163,8 @@ class Evaluator:
     def _get_metrics(
         self, scores: DenseScoreArray, cutoff: int, ground_truth_begin: int
     ) -> Metrics:
+        # the core reads the rows of a C-contiguous array
+        scores = np.ascontiguousarray(scores)
         if scores.dtype == np.float64:
             return self.core.get_metrics_f64(
                 scores,
-- 
2.43.0


From b689935f7bb55e49c0ff08337267db208292efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:41 +0000
Subject: [PATCH 24/47] fix: reject scores with a wrong number of columns
 instead of reading out of bounds

---
 cpp_source/evaluator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 795d8e8..8899a00 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -264,6 +264,8 @@ struct EvaluatorCore {
     check_arg(n_users > offset, "got offset >= n_users");
     check_arg(static_cast<size_t>(offset + scores.rows()) <= n_users,
               "offset + scores.shape[0] exceeds n_users");
+    check_arg(static_cast<size_t>(scores.cols()) == n_items,
+              "scores.shape[1] must be equal to n_items.");
     check_arg(cutoff > 0, "cutoff must be strictly greather than 0.");
     check_arg(cutoff <= n_items, "cutoff must not exeeed the number of items.");
     std::atomic<size_t> current_index(0);
-- 
2.43.0


From a9105eef5624ac91f3c226907e360dc09228aa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:41 +0000
Subject: [PATCH 25/47] fix: wait for every ground-truth caching task, deferred
 ones included

---
 cpp_source/evaluator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 8899a00..c217764 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -251,6 +251,9 @@ struct EvaluatorCore {
         }
       }));
     }
+    for (auto &worker : workers) {
+      worker.get();
+    }
   }
 
   template <typename ScoreFloatType>
-- 
2.43.0


From d7d7242ac7fa34d39140a17da6e74168e4e33b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:41 +0000
Subject: [PATCH 26/47] fix: reject zero threads when evaluating recommendation
 tables

---
 cpp_source/evaluator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index c217764..b9408fc 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -381,6 +381,7 @@ private:
 Metrics evaluate_list_vs_list(const vector<vector<size_t>> &recommendation,
                               const vector<vector<size_t>> &ground_truth,
                               size_t n_items, size_t n_threads) {
+  check_arg(n_threads > 0, "n_threads must be strictly positive.");
   check_arg(recommendation.size() == ground_truth.size(),
             "recommendation array and ground_truth array has different size.");
   size_t n_recommendation_max = 0;
-- 
2.43.0


From 195e1170763960482662b4daace79ca37036e1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:41 +0000
Subject: [PATCH 27/47] fix: evaluate recommendation tables with any column
 names and id types

---
 src/irspack/evaluation/evaluate_df_to_df.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/irspack/evaluation/evaluate_df_to_df.py b/src/irspack/evaluation/evaluate_df_to_df.py
index cb24550..ef2f77c 100644
--- a/src/irspack/evaluation/evaluate_df_to_df.py
+++ b/src/irspack/evaluation/evaluate_df_to_df.py
@@ -41,24 +41,20 @@ def evaluate_recommendation_df(
         df_ground_truth[user_column].isin(df_recommendation[user_column])
     ].copy()
 
-    user_ids = sorted(list(set(df_recommendation[user_column])))
+    user_ids = list(set(df_recommendation[user_column]))
     user_id_to_index: Dict[Any, int] = {uid: i for i, uid in enumerate(user_ids)}
-    item_ids = sorted(
-        list(set(df_recommendation[item_column]) | set(df_ground_truth[item_column]))
+    item_ids = list(
+        set(df_recommendation[item_column]) | set(df_ground_truth[item_column])
     )
     item_id_to_index: Dict[Any, int] = {iid: i for i, iid in enumerate(item_ids)}
     user_index_to_recommendation: Dict[int, List[int]] = {}
     user_index_to_ground_truth: Dict[int, List[int]] = {}
-    for rec_row in df_recommendation.itertuples():
-        uid = getattr(rec_row, user_column)
-        iid = getattr(rec_row, item_column)
+    for uid, iid in zip(df_recommendation[user_column], df_recommendation[item_column]):
         u_index = user_id_to_index[uid]
         i_index = item_id_to_index[iid]
         user_index_to_recommendation.setdefault(u_index, []).append(i_index)
 
-    for gt_row in df_ground_truth.itertuples():
-        uid = getattr(gt_row, user_column)
-        iid = getattr(gt_row, item_column)
+    for uid, iid in zip(df_ground_truth[user_column], df_ground_truth[item_column]):
         u_index = user_id_to_index[uid]
         i_index = item_id_to_index[iid]
         user_index_to_ground_truth.setdefault(u_index, []).append(i_index)
-- 
2.43.0


From e460b3619bc35e5065908ad087fb5557feee4a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:17 +0000
Subject: [PATCH 28/47] fix: SLIM top_k sorts only the current column's
 coefficients

---
 cpp_source/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index a24d059..112987d 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -392,7 +392,7 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
             }
             int64_t n_taken_coeffs = nnz;
             if (nnz > top_k) {
-              std::sort(argsort_buffer.begin(), argsort_buffer.end(),
+              std::sort(argsort_buffer.begin(), argsort_buffer.begin() + nnz,
                         [](RealAndIndex val1, RealAndIndex val2) {
                           return val1.first > val2.first;
                         });
-- 
2.43.0


From 39b8b208516977dcac5038e820f9995fcb4c042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:21 +0000
Subject: [PATCH 29/47] fix: SLIM result does not depend on the number of
 threads or their schedule

---
 cpp_source/util.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 112987d..84b57a7 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -250,11 +250,7 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
                                                          l2_coeff, l1_coeff,
                                                          n_iter, tol, top_k] {
       const int64_t F = X_csc.cols();
-      std::mt19937 gen(0);
       std::vector<int64_t> indices(F);
-      for (int64_t i = 0; i < F; i++) {
-        indices[i] = i;
-      }
       MatrixType remnants(block_size, X_csc.rows());
       MatrixType coeffs(block_size, F);
       VectorType coeff_temp(block_size);
@@ -281,6 +277,13 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
         remnants.setZero();
         coeffs.setZero();
 
+        // The visiting order restarts for every block, so that the result
+        // does not depend on which worker takes which blocks.
+        std::mt19937 gen(0);
+        for (int64_t i = 0; i < F; i++) {
+          indices[i] = i;
+        }
+
         for (int64_t f_cursor = block_begin; f_cursor < block_end; f_cursor++) {
           const int64_t internal_col_position = f_cursor - block_begin;
           for (CSCIter iter(X_csc, f_cursor); iter; ++iter) {
-- 
2.43.0


From 06e6e1eb2f5571d65359a506d0a610fa1e4323bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:13 +0000
Subject: [PATCH 30/47] fix: SLIM keeps residuals in step with coefficients for
 small updates

---
 cpp_source/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 84b57a7..b95a685 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -351,7 +351,7 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
             coeff_temp.noalias() =
                 coeffs.col(shuffled_feature_index) - coeff_temp;
 
-            if (!coeff_temp.isZero()) {
+            if ((coeff_temp.array() != static_cast<Real>(0)).any()) {
               for (CSCIter nnz_iter(X_csc, shuffled_feature_index); nnz_iter;
                    ++nnz_iter) {
                 const int64_t row = nnz_iter.row();
-- 
2.43.0


From 265f8d7243aff1d8aff9771425db57e36616f4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:00 +0000
Subject: [PATCH 31/47] fix: sparse_mm_threaded rejects mismatched shapes

---
 cpp_source/util.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index b95a685..8e105d9 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -45,6 +45,8 @@ parallel_sparse_product(const CSRMatrix<Real> &left,
   RowMajorMatrix<Real> result(left.rows(), right.cols());
   result.array() = 0;
   check_arg(n_threads > 0, "n_thraed must be > 0");
+  check_arg(left.cols() == right.rows(),
+            "left.cols() must be equal to right.rows().");
   const int64_t n_row = left.rows();
   std::atomic<int64_t> cursor(0);
   std::vector<std::thread> workers;
-- 
2.43.0


From 27ec7a9e712170a59a636645d05ae650f0eeca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:01 +0000
Subject: [PATCH 32/47] fix: NMF scores cold users of any numeric type

---
 src/irspack/recommenders/nmf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/irspack/recommenders/nmf.py b/src/irspack/recommenders/nmf.py
index 96b8e0d..b4465e0 100644
--- a/src/irspack/recommenders/nmf.py
+++ b/src/irspack/recommenders/nmf.py
@@ -68,5 +68,7 @@ class NMFRecommender(BaseRecommender):
         return res
 
     def get_score_cold_user(self, X: InteractionMatrix) -> DenseScoreArray:
-        res: DenseScoreArray = self.nmf_model.transform(X).dot(self.H)
+        res: DenseScoreArray = self.nmf_model.transform(X.astype(self.H.dtype)).dot(
+            self.H
+        )
         return res
-- 
2.43.0


From 3687e103a7202593cc9a71c040a416a771d3e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:47 +0000
Subject: [PATCH 33/47] fix: explicitly stored zeros in the training matrix are
 not interactions

---
 src/irspack/recommenders/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/irspack/recommenders/base.py b/src/irspack/recommenders/base.py
index 1364f5a..732d7f2 100644
--- a/src/irspack/recommenders/base.py
+++ b/src/irspack/recommenders/base.py
@@ -99,6 +99,8 @@ class BaseRecommender(object, metaclass=RecommenderMeta):
         self.n_users: int = self.X_train_all.shape[0]
         self.n_items: int = self.X_train_all.shape[1]
         self.X_train_all.sort_indices()
+        # explicitly stored zeros are not interactions
+        self.X_train_all.eliminate_zeros()
 
         # this will store configurable parameters learnt during the training,
         # e.g., the epoch with the best validation score.
-- 
2.43.0


From 44910e11dc75ca4bf976eeb047168dd94bccbcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:01 +0000
Subject: [PATCH 34/47] fix: iALS factors start from zero when init_std is zero

---
 cpp_source/als/IALSTrainer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index c18aa0f..4f99cc3 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -72,6 +72,8 @@ struct Solver {
           factor(i, k) = dist(gen);
         }
       }
+    } else {
+      factor.setZero();
     }
   }
 
-- 
2.43.0


From 00a057daf7aafffe3208302e349fb4c0baa55f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:01 +0000
Subject: [PATCH 35/47] fix: every iALS solver gives rows without interactions
 the zero vector

---
 cpp_source/als/IALSTrainer.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index 4f99cc3..bbc6e08 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -295,6 +295,12 @@ private:
           if (cursor_local >= target_factor.rows()) {
             break;
           }
+          if (X.outerIndexPtr()[cursor_local] ==
+              X.outerIndexPtr()[cursor_local + 1]) {
+            // The system may be singular, but its solution is zero.
+            target_factor.row(cursor_local).setZero();
+            continue;
+          }
           P_local.noalias() = P;
           SymmetricMatrix P_adjoint = P_local.selfadjointView<Eigen::Upper>();
 
@@ -469,6 +475,10 @@ private:
           auto inner_cursor_end =
               X_compressed.outerIndexPtr()[cursor_local + 1];
           auto nnz = inner_cursor_end - inner_cursor_start;
+          if (nnz == 0) {
+            target_factor_subspaced.row(cursor_local).setZero();
+            continue;
+          }
           auto reg =
               this->compute_reg(nnz, other_factor_subspaced.rows(), config);
 
@@ -592,6 +602,10 @@ private:
           auto inner_cursor_end =
               X_compressed.outerIndexPtr()[cursor_local + 1];
           auto nnz = inner_cursor_end - inner_cursor_start;
+          if (nnz == 0) {
+            target_factor_subspaced(cursor_local) = 0;
+            continue;
+          }
           auto reg =
               this->compute_reg(nnz, other_factor_subspaced.rows(), config);
 
-- 
2.43.0


From f144f3a67f31c32f1b48b0adc16f01886659ebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:01 +0000
Subject: [PATCH 36/47] fix: explicitly stored zeros in a history folded into
 iALS are not interactions

---
 src/irspack/recommenders/ials.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/irspack/recommenders/ials.py b/src/irspack/recommenders/ials.py
index bf401a9..223c666 100644
--- a/src/irspack/recommenders/ials.py
+++ b/src/irspack/recommenders/ials.py
@@ -61,6 +61,13 @@ def _feature_matrix_as_float32(X: ProfileMatrix) -> ProfileMatrix:
     return np.asarray(X, dtype=np.float32, order="C")
 
 
+def _as_float32_interaction(X: InteractionMatrix) -> sps.csr_matrix:
+    result: sps.csr_matrix = sps.csr_matrix(X).astype(np.float32)
+    # explicitly stored zeros are not interactions
+    result.eliminate_zeros()
+    return result
+
+
 def _empty_sparse_feature_matrix(n_rows: int) -> sps.csr_matrix:
     return sps.csr_matrix((n_rows, 0), dtype=np.float32)
 
@@ -554,7 +561,7 @@ class IALSRecommender(
         """
         return self.trainer_as_ials.transform_user(
             self._scale_X(
-                sps.csr_matrix(X).astype(np.float32),
+                _as_float32_interaction(X),
                 self.confidence_scaling,
                 self.epsilon,
             ),
@@ -600,7 +607,7 @@ class IALSRecommender(
 
         return self.trainer_as_ials.transform_item(
             self._scale_X(
-                sps.csr_matrix(X).astype(np.float32),
+                _as_float32_interaction(X),
                 self.confidence_scaling,
                 self.epsilon,
             ),
-- 
2.43.0


From 366df017273612c34e0d49b3feae2ff38ac28e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:40 +0000
Subject: [PATCH 37/47] fix: a restored iALS trainer refuses to train instead
 of reading out of bounds

---
 cpp_source/als/IALSTrainer.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index bbc6e08..2497f7a 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -772,6 +772,7 @@ struct IALSTrainer {
   }
 
   inline void step(const SolverConfig &solver_config) {
+    check_interaction_available();
     if (feature_aware_ && solver_config.solver_type == SolverType::IALSPP)
       throw std::invalid_argument(
           "Feature-aware iALS does not support IALSPP.");
@@ -850,6 +851,7 @@ struct IALSTrainer {
   }
 
   inline Real compute_loss(const SolverConfig &solver_config) {
+    check_interaction_available();
     this->user_solver.prepare_p(item, config_, solver_config);
     this->item_solver.prepare_p(user, config_, solver_config);
     Real loss = 0;
@@ -1029,6 +1031,16 @@ private:
     item_feature_weight.setZero();
   }
 
+  // A deserialized trainer has the factors but not the interactions.
+  inline void check_interaction_available() const {
+    if (static_cast<size_t>(X.rows()) != n_users ||
+        static_cast<size_t>(X.cols()) != n_items) {
+      throw std::runtime_error(
+          "The trainer does not hold the interaction matrix (it has been "
+          "restored from a pickle) and cannot continue training.");
+    }
+  }
+
   inline void validate_user_feature_matrix(int64_t cols) const {
     if (user_feature_weight.cols() != K) {
       throw std::invalid_argument(
-- 
2.43.0


From 754af87d8339d4e31ff3035240b13208fb445445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:40 +0000
Subject: [PATCH 38/47] fix: IALSConfig has the constructor's options and
 defaults

---
 src/irspack/recommenders/ials.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/irspack/recommenders/ials.py b/src/irspack/recommenders/ials.py
index 223c666..f4d815f 100644
--- a/src/irspack/recommenders/ials.py
+++ b/src/irspack/recommenders/ials.py
@@ -217,20 +217,22 @@ class IALSConfigScaling(enum.Enum):
 
 class IALSConfig(BaseEarlyStoppingRecommenderConfig):
     n_components: int = 20
-    alpha0: float = 1.0
+    alpha0: float = 0.0
     reg: float = 1e-3
     nu: float = 1.0
     confidence_scaling: str = "none"
     epsilon: float = 1.0
     init_std: float = 0.1
-    solver_type: Literal["CG", "CHOLESKY"] = "CG"
+    solver_type: Literal["CG", "CHOLESKY", "IALSPP"] = "CG"
     max_cg_steps: int = 3
+    ialspp_subspace_dimension: int = 64
     loss_type: Literal["IALSPP", "ORIGINAL"] = "IALSPP"
     nu_star: Optional[float] = None
     random_seed: int = 42
     n_threads: Optional[int] = None
     train_epochs: int = 16
     prediction_time_max_cg_steps: int = 5
+    prediction_time_ialspp_iteration: int = 7
     lambda_user_feature: float = 0.0
     lambda_item_feature: float = 0.0
     feature_warmup_epochs: int = 0
-- 
2.43.0


From 9b8767a471dc8bba2f769256c4f9c68b77bbf6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:46 +0000
Subject: [PATCH 39/47] fix: train_epochs of the early-stopping configurations
 defaults to the constructors' value

---
 src/irspack/recommenders/base_earlystop.py | 2 +-
 src/irspack/recommenders/multvae.py        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/irspack/recommenders/base_earlystop.py b/src/irspack/recommenders/base_earlystop.py
index 90d3bf0..b050fad 100644
--- a/src/irspack/recommenders/base_earlystop.py
+++ b/src/irspack/recommenders/base_earlystop.py
@@ -46,7 +46,7 @@ class TrainerBase(ABC):
 
 
 class BaseEarlyStoppingRecommenderConfig(RecommenderConfig):
-    train_epochs: int = 512
+    train_epochs: int = 128
 
 
 class BaseRecommenderWithEarlyStopping(BaseRecommender):
diff --git a/src/irspack/recommenders/multvae.py b/src/irspack/recommenders/multvae.py
index 9f75ffa..d158772 100644
--- a/src/irspack/recommenders/multvae.py
+++ b/src/irspack/recommenders/multvae.py
@@ -288,6 +288,7 @@ class MultVAEConfig(BaseEarlyStoppingRecommenderConfig):
     anneal_end_epoch: int = 50
     minibatch_size: int = 512
     learning_rate: float = 1e-3
+    train_epochs: int = 300
 
 
 class MultVAERecommender(BaseRecommenderWithEarlyStopping):
-- 
2.43.0


From 6a41146c7530fd31335fb175c41c86b1553255d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:26 +0000
Subject: [PATCH 40/47] fix: failing to start a worker thread raises an error
 instead of terminating the process

---
 cpp_source/als/IALSTrainer.hpp | 58 +++++++++++++++++++---------------
 cpp_source/util.hpp            |  9 +++---
 2 files changed, 38 insertions(+), 29 deletions(-)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index 2497f7a..5fbd001 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -398,11 +398,13 @@ private:
                                  const SolverConfig &solver_config) const {
     size_t NNZ = X_compressed.nonZeros();
     DenseVector predictions(NNZ);
-    std::vector<std::thread> workers;
     std::atomic<int> cursor(0);
+    std::vector<std::future<void>> workers;
     for (size_t ind = 0; ind < solver_config.n_threads; ind++) {
-      workers.emplace_back([this, &target_factor, &cursor, &X_compressed,
-                            &other_factor, &solver_config, &predictions]() {
+      workers.emplace_back(std::async(
+          std::launch::async,
+          [this, &target_factor, &cursor, &X_compressed,
+           &other_factor, &solver_config, &predictions]() {
         while (true) {
           int cursor_local = cursor.fetch_add(1);
           if (cursor_local >= target_factor.rows()) {
@@ -418,11 +420,11 @@ private:
             inner_index_ptr++;
           }
         }
-      });
+      }));
     }
 
     for (auto &worker : workers) {
-      worker.join();
+      worker.get();
     }
 
     return predictions;
@@ -437,7 +439,6 @@ private:
                              const SolverConfig &solver_config) const {
 
     int subspace_dim = dim_end - dim_start;
-    std::vector<std::thread> workers;
     std::atomic<int> cursor(0);
     DenseMatrix target_factor_subspaced =
         target_factor.middleCols(dim_start, subspace_dim);
@@ -448,12 +449,15 @@ private:
         P.block(dim_start, dim_start, subspace_dim, subspace_dim);
     const DenseMatrix P_subspaced = P.middleRows(dim_start, subspace_dim);
 
+    std::vector<std::future<void>> workers;
     for (size_t ind = 0; ind < solver_config.n_threads; ind++) {
-      workers.emplace_back([this, subspace_dim, dim_start, dim_end, P_quadratic,
-                            P_subspaced, &target_factor_subspaced,
-                            &target_factor, &other_factor_subspaced, &cursor,
-                            &X_compressed, &config, solver_config,
-                            &predictions]() {
+      workers.emplace_back(std::async(
+          std::launch::async,
+          [this, subspace_dim, dim_start, dim_end, P_quadratic,
+           P_subspaced, &target_factor_subspaced,
+           &target_factor, &other_factor_subspaced, &cursor,
+           &X_compressed, &config, solver_config,
+           &predictions]() {
         DenseMatrix P_local(subspace_dim, subspace_dim);
         DenseVector vcache(subspace_dim);
         DenseVector B(subspace_dim);
@@ -517,10 +521,10 @@ private:
                 vcache.dot(other_factor_subspaced.row(other_index).transpose());
           }
         }
-      });
+      }));
     }
     for (auto &worker : workers) {
-      worker.join();
+      worker.get();
     }
     target_factor.middleCols(dim_start, subspace_dim) = target_factor_subspaced;
   }
@@ -570,7 +574,6 @@ private:
                         const IALSModelConfig &config,
                         const SolverConfig &solver_config) const {
 
-    std::vector<std::thread> workers;
     std::atomic<int> cursor(0);
     DenseVector target_factor_subspaced = target_factor.col(dim_start);
     const DenseVector other_factor_subspaced = other_factor.col(dim_start);
@@ -578,11 +581,14 @@ private:
     const Real P_quadratic = P(dim_start, dim_start);
     const DenseVector P_subspaced = P.row(dim_start);
 
+    std::vector<std::future<void>> workers;
     for (size_t ind = 0; ind < solver_config.n_threads; ind++) {
-      workers.emplace_back([this, dim_start, P_quadratic, P_subspaced,
-                            &target_factor_subspaced, &target_factor,
-                            &other_factor_subspaced, &cursor, &X_compressed,
-                            &config, solver_config, &predictions]() {
+      workers.emplace_back(std::async(
+          std::launch::async,
+          [this, dim_start, P_quadratic, P_subspaced,
+           &target_factor_subspaced, &target_factor,
+           &other_factor_subspaced, &cursor, &X_compressed,
+           &config, solver_config, &predictions]() {
         Real P_local;
         Real vcache;
         Real B;
@@ -637,10 +643,10 @@ private:
                 vcache * (other_factor_subspaced(other_index));
           }
         }
-      });
+      }));
     }
     for (auto &worker : workers) {
-      worker.join();
+      worker.get();
     }
     target_factor.col(dim_start) = target_factor_subspaced;
   }
@@ -970,7 +976,6 @@ struct IALSTrainer {
 
     int64_t result_size = userblock_end - userblock_begin;
     DenseMatrix result(result_size, n_items);
-    std::vector<std::thread> workers;
     std::atomic<int64_t> cursor(0);
     const int64_t chunks_per_thread = 4;
     const int64_t target_chunk_count =
@@ -979,9 +984,12 @@ struct IALSTrainer {
         (result_size + target_chunk_count - 1) / target_chunk_count;
     const int64_t chunk_size =
         std::clamp<int64_t>(ideal_chunk_size, 16, 128);
+    std::vector<std::future<void>> workers;
     for (size_t ind = 0; ind < solver_config.n_threads; ind++) {
-      workers.emplace_back([this, userblock_begin, &cursor, result_size,
-                            chunk_size, &result]() {
+      workers.emplace_back(std::async(
+          std::launch::async,
+          [this, userblock_begin, &cursor, result_size,
+           chunk_size, &result]() {
         while (true) {
           auto block_begin = cursor.fetch_add(chunk_size);
           if (block_begin >= result_size) {
@@ -993,10 +1001,10 @@ struct IALSTrainer {
               this->user.middleRows(block_begin + userblock_begin, block_size) *
               this->item.transpose();
         }
-      });
+      }));
     }
     for (auto &worker : workers) {
-      worker.join();
+      worker.get();
     }
     return result;
   }
diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 8e105d9..1569bc4 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -49,9 +49,10 @@ parallel_sparse_product(const CSRMatrix<Real> &left,
             "left.cols() must be equal to right.rows().");
   const int64_t n_row = left.rows();
   std::atomic<int64_t> cursor(0);
-  std::vector<std::thread> workers;
+  std::vector<std::future<void>> workers;
   for (int i = 0; i < static_cast<int>(n_threads); i++) {
-    workers.emplace_back([&left, &right, &cursor, n_row, &result]() {
+    workers.emplace_back(std::async(
+        std::launch::async, [&left, &right, &cursor, n_row, &result]() {
       const int64_t chunk_size = 16;
       while (true) {
         auto current_position = cursor.fetch_add(chunk_size);
@@ -63,10 +64,10 @@ parallel_sparse_product(const CSRMatrix<Real> &left,
         result.middleRows(current_position, block_size) +=
             left.middleRows(current_position, block_size) * right;
       }
-    });
+    }));
   }
   for (auto &worker : workers) {
-    worker.join();
+    worker.get();
   }
   return result;
 }
-- 
2.43.0


From e802545d78e4713a0f8fe82b74d858aa5b234cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:51 +0000
Subject: [PATCH 41/47] fix: MultVAE finishes KL annealing at anneal_end_epoch
 also when the last minibatch is incomplete

---
 src/irspack/recommenders/multvae.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/irspack/recommenders/multvae.py b/src/irspack/recommenders/multvae.py
index d158772..6b71402 100644
--- a/src/irspack/recommenders/multvae.py
+++ b/src/irspack/recommenders/multvae.py
@@ -158,7 +158,8 @@ class MultVAETrainer(TrainerBase):
         self.dec_hidden_dim = dec_hidden_dim
         self.dim_z = dim_z
 
-        self.total_anneal_step = (anneal_end_epoch * self.n_users) / minibatch_size
+        updates_per_epoch = -(-self.n_users // minibatch_size)
+        self.total_anneal_step = anneal_end_epoch * updates_per_epoch
         self._setup_jax_funcs()
 
         self._update_count = 0
-- 
2.43.0


From 0fd3c7b556c73259d899b5d748430956460a7f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:51 +0000
Subject: [PATCH 42/47] fix: MultVAE training is reproducible and not disturbed
 by scoring between epochs

---
 src/irspack/recommenders/multvae.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/irspack/recommenders/multvae.py b/src/irspack/recommenders/multvae.py
index 6b71402..37941e8 100644
--- a/src/irspack/recommenders/multvae.py
+++ b/src/irspack/recommenders/multvae.py
@@ -150,6 +150,7 @@ class MultVAETrainer(TrainerBase):
         self.learning_rate = learning_rate
 
         self.rng_seq = hk.PRNGSequence(42)
+        self.shuffle_rng = np.random.RandomState(42)
 
         if dec_hidden_dim is None:
             dec_hidden_dim = enc_hidden_dim
@@ -231,7 +232,7 @@ class MultVAETrainer(TrainerBase):
             X_mb = X_csr[mb_start:mb_end].astype(np.float32).toarray()
             X_jax = jnp.asarray(X_mb)
             mvresult: MultVAEOutput = self.vae_f.apply(
-                self.params, next(self.rng_seq), X_jax, self.dropout_p, False
+                self.params, None, X_jax, self.dropout_p, False
             )
 
             mb_arrays.append(np.asarray(mvresult.log_softmax, dtype=np.float64))
@@ -240,7 +241,7 @@ class MultVAETrainer(TrainerBase):
 
     def run_epoch(self) -> None:
         user_indices = np.arange(self.n_users)
-        np.random.shuffle(user_indices)
+        self.shuffle_rng.shuffle(user_indices)
         for mb_start in range(0, self.n_users, self.minibatch_size):
             current_kl_coeff = jnp.asarray(
                 self.kl_anneal_goal
-- 
2.43.0


From 802a658f632868d04142b85bdcdb5a936d3aa22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:08 +0000
Subject: [PATCH 43/47] fix: MultVAE scores an empty block of users

---
 src/irspack/recommenders/multvae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/recommenders/multvae.py b/src/irspack/recommenders/multvae.py
index 37941e8..6e32547 100644
--- a/src/irspack/recommenders/multvae.py
+++ b/src/irspack/recommenders/multvae.py
@@ -227,7 +227,7 @@ class MultVAETrainer(TrainerBase):
         mb_arrays: List[DenseScoreArray] = []
         n_users: int = X.shape[0]
         X_csr: sps.csr_matrix = X.tocsr()
-        for mb_start in range(0, n_users, self.minibatch_size):
+        for mb_start in range(0, max(n_users, 1), self.minibatch_size):
             mb_end = min(n_users, mb_start + self.minibatch_size)
             X_mb = X_csr[mb_start:mb_end].astype(np.float32).toarray()
             X_jax = jnp.asarray(X_mb)
-- 
2.43.0


From e5f4463c0137278c3f798b48d95bffa0d8ae0035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:36 +0000
Subject: [PATCH 44/47] fix: the user hold-out split with string ids is
 reproducible from its random state

The items (and, with a time column, the users) were ordered by iterating over a
set, whose order for strings changes with every Python process, so that the same
random_state held out different interactions in different runs.
---
 src/irspack/split/userwise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 8b8860a..fc84df3 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -190,7 +190,8 @@ def split_train_test_userwise_time(
     rating_column: Optional[str] = None,
     ceil_n_heldout: bool = False,
 ) -> UserTrainTestInteractionPair:
-    unique_user_ids = list(set(df_[user_column]))
+    # the order of a set of strings differs from run to run
+    unique_user_ids = list(dict.fromkeys(df_[user_column]))
     df_train, df_test = split_last_n_interaction_df(
         df_,
         user_column,
@@ -328,7 +329,7 @@ def split_dataframe_partial_user_holdout(
     df_train = df_all[df_all[user_column].isin(train_uids)].copy()
     df_val = df_all[df_all[user_column].isin(val_uids)].copy()
     df_test = df_all[df_all[user_column].isin(test_uids)].copy()
-    item_all: List[Any] = list(set(df_all[item_column]))
+    item_all: List[Any] = list(dict.fromkeys(df_all[item_column]))
 
     train_user_interactions, _, __ = df_to_sparse(
         df_train,
-- 
2.43.0


From c634ee8d3a9de04c3ba9e782772a71820390c3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:49 +0000
Subject: [PATCH 45/47] fix: ratio hold-out of the last interactions for
 time-zone aware user ids

---
 src/irspack/split/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/split/time.py b/src/irspack/split/time.py
index 54e8189..1522b1c 100644
--- a/src/irspack/split/time.py
+++ b/src/irspack/split/time.py
@@ -45,7 +45,7 @@ def split_last_n_interaction_df(
         test_indicator = index_within_group < n_heldout
     else:
         n_user_appearnce = (
-            df_sorted[user_column].value_counts().reindex(df_sorted[user_column].values)
+            df_sorted[user_column].value_counts().reindex(df_sorted[user_column])
         )
 
         if ceil_n_heldout:
-- 
2.43.0


From 5dfbb8a730375c99b7b568e3cbbe64d44e16ce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:49 +0000
Subject: [PATCH 46/47] fix: partial user hold-out for a categorical user
 column

---
 src/irspack/split/userwise.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index fc84df3..f64c95a 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -296,6 +296,13 @@ def split_dataframe_partial_user_holdout(
     assert (test_user_ratio <= 1) and (test_user_ratio >= 0)
     assert (val_user_ratio <= 1) and (val_user_ratio >= 0)
 
+    if isinstance(df_all[user_column].dtype, pd.CategoricalDtype):
+        # Otherwise, every category would count as a user of every subset.
+        df_all = df_all.copy()
+        df_all[user_column] = df_all[user_column].astype(
+            df_all[user_column].cat.categories.dtype
+        )
+
     uids: List[Any] = df_all[user_column].unique()
     n_users_all = len(uids)
     if n_val_user is None:
-- 
2.43.0


From 0f23fd36932edf322e0a52995f97d609ffc0cc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:49 +0000
Subject: [PATCH 47/47] fix: keep the type of the user ids in
 holdout_specific_interactions

---
 src/irspack/split/specified.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/split/specified.py b/src/irspack/split/specified.py
index 7eadcd4..ca9af55 100644
--- a/src/irspack/split/specified.py
+++ b/src/irspack/split/specified.py
@@ -88,10 +88,10 @@ def holdout_specific_interactions(
     rns = convert_randomstate(random_state)
     if val_test_ratio >= 1.0:
         v_train_users = []
-        v_val_test_users = validatable_users.tolist()
+        v_val_test_users = list(validatable_users)
     else:
         v_val_test_users, v_train_users = _split_list(
-            validatable_users.tolist(),
+            list(validatable_users),
             int(v_user_ratio_train * n_validatable_users),
             rns,
         )
-- 
2.43.0

