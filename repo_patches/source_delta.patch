From 1d11ef7dafeb5d33f77d1634e06faf90ca633029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:23 +0000
Subject: [PATCH 01/45] fix: reject cold-user evaluation whose known
 interactions and ground truth disagree on items

---
 src/irspack/evaluation/evaluator.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/irspack/evaluation/evaluator.py b/src/irspack/evaluation/evaluator.py
index 066b052..cd05393 100644
--- a/src/irspack/evaluation/evaluator.py
+++ b/src/irspack/evaluation/evaluator.py
@@ -525,14 +525,14 @@ class EvaluatorWithColdUser(Evaluator):
 
         n_cold_items = 0 if cold_item_features is None else cold_item_features.shape[0]
         n_warm_items = input_interaction.shape[1]
+        expected_n_items = n_warm_items + n_cold_items
+        if ground_truth.shape[1] != expected_n_items:
+            raise ValueError(
+                "ground_truth must have input_interaction.shape[1] + "
+                "cold_item_features.shape[0] columns, but got "
+                f"{ground_truth.shape[1]} instead of {expected_n_items}."
+            )
         if cold_item_features is not None:
-            expected_n_items = n_warm_items + n_cold_items
-            if ground_truth.shape[1] != expected_n_items:
-                raise ValueError(
-                    "ground_truth must have input_interaction.shape[1] + "
-                    "cold_item_features.shape[0] columns, but got "
-                    f"{ground_truth.shape[1]} instead of {expected_n_items}."
-                )
             if (
                 masked_interactions is not None
                 and masked_interactions.shape == input_interaction.shape
-- 
2.43.0


From c954c5d1c63a5d8ab4044442a768ddf8e5a9e804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:54 +0000
Subject: [PATCH 02/45] fix: keep fractional interaction values when splitting
 rows

---
 cpp_source/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index a19e162..0cbc3d7 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -76,7 +76,7 @@ struct SplitFunction {
   split_imple(const CSRMatrix<Real> &X, std::int64_t random_seed,
               Args... args) {
     Derived::check_args(args...);
-    using Triplet = Eigen::Triplet<Integer>;
+    using Triplet = Eigen::Triplet<Real>;
     std::mt19937 random_state(random_seed);
     std::vector<Integer> col_buffer;
     std::vector<Real> data_buffer;
@@ -105,7 +105,7 @@ struct SplitFunction {
       }
     }
     CSRMatrix<Real> X_train(X.rows(), X.cols()), X_test(X.rows(), X.cols());
-    auto dupfunction = [](const Integer &a, const Integer &b) { return a + b; };
+    auto dupfunction = [](const Real &a, const Real &b) { return a + b; };
     X_train.setFromTriplets(train_data.begin(), train_data.end(), dupfunction);
     X_test.setFromTriplets(test_data.begin(), test_data.end(), dupfunction);
     X_train.makeCompressed();
-- 
2.43.0


From 6f3fcce63fb056cc6287628532b3d9a1763312b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:31 +0000
Subject: [PATCH 03/45] fix: keep the rating column in the time-based userwise
 split

---
 src/irspack/split/userwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 06608a7..97998ac 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -191,7 +191,7 @@ def split_train_test_userwise_time(
 ) -> UserTrainTestInteractionPair:
     unique_user_ids = np.asarray(list(set(df_[user_column])))
     df_train, df_test = split_last_n_interaction_df(
-        df_[[user_column, item_column, time_column]],
+        df_,
         user_column,
         time_column,
         n_heldout=n_heldout,
-- 
2.43.0


From f6895ed0fe44a44874dac7f90b30caf52f72392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:31 +0000
Subject: [PATCH 04/45] fix: use the rating column for train users too

---
 src/irspack/split/userwise.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 97998ac..a10e29e 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -332,7 +332,12 @@ def split_dataframe_partial_user_holdout(
     item_all: List[Any] = list(set(df_all[item_column]))
 
     train_user_interactions, _, __ = df_to_sparse(
-        df_train, user_column, item_column, user_ids=train_uids, item_ids=item_all
+        df_train,
+        user_column,
+        item_column,
+        user_ids=train_uids,
+        item_ids=item_all,
+        rating_column=rating_column,
     )
 
     valid_data: Dict[str, UserTrainTestInteractionPair] = dict(
-- 
2.43.0


From f733cc80e3f2cf73fb4600030fccda703c445679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:31 +0000
Subject: [PATCH 05/45] fix: honour an explicit n_test_user for small user
 counts

---
 src/irspack/split/userwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index a10e29e..ece7630 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -317,7 +317,7 @@ def split_dataframe_partial_user_holdout(
 
     train_uids, val_test_uids = _split_list(uids, (n_val_user + n_test_user), rns)
 
-    if (test_user_ratio * len(uids)) >= 1:
+    if n_test_user >= 1:
         val_uids, test_uids = _split_list(
             val_test_uids,
             n_test_user,
-- 
2.43.0


From fb783d88439e910059f9161ddd7eded7047c10d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:31 +0000
Subject: [PATCH 06/45] fix: reject ratio-derived user counts exceeding the
 number of users

---
 src/irspack/split/userwise.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index ece7630..d7ad593 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -306,11 +306,8 @@ def split_dataframe_partial_user_holdout(
     if n_test_user is None:
         n_test_user = int(n_users_all * test_user_ratio)
         test_user_ratio = n_test_user / n_users_all
-    else:
-        if (n_test_user + n_val_user) > n_users_all:
-            raise ValueError(
-                "n_val_user + n_test_users exceeds the number of total users."
-            )
+    if (n_test_user + n_val_user) > n_users_all:
+        raise ValueError("n_val_user + n_test_users exceeds the number of total users.")
 
     df_all = df_all.drop_duplicates([user_column, item_column])
     rns = convert_randomstate(random_state)
-- 
2.43.0


From 8eeed6262e5f6bd2e6a7b19f61783cd8f051b512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:31 +0000
Subject: [PATCH 07/45] fix: make the userwise split independent of the hash
 seed

---
 src/irspack/split/userwise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index d7ad593..5529b36 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -189,7 +189,7 @@ def split_train_test_userwise_time(
     rating_column: Optional[str] = None,
     ceil_n_heldout: bool = False,
 ) -> UserTrainTestInteractionPair:
-    unique_user_ids = np.asarray(list(set(df_[user_column])))
+    unique_user_ids = np.asarray(df_[user_column].unique())
     df_train, df_test = split_last_n_interaction_df(
         df_,
         user_column,
@@ -326,7 +326,7 @@ def split_dataframe_partial_user_holdout(
     df_train = df_all[df_all[user_column].isin(train_uids)].copy()
     df_val = df_all[df_all[user_column].isin(val_uids)].copy()
     df_test = df_all[df_all[user_column].isin(test_uids)].copy()
-    item_all: List[Any] = list(set(df_all[item_column]))
+    item_all: List[Any] = df_all[item_column].unique().tolist()
 
     train_user_interactions, _, __ = df_to_sparse(
         df_train,
-- 
2.43.0


From af02311e4db9254fa689f9ed7aecb902438d6748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:32 +0000
Subject: [PATCH 08/45] fix: allow holding out nobody in
 holdout_specific_interactions

---
 src/irspack/split/specified.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/irspack/split/specified.py b/src/irspack/split/specified.py
index 0e0fd8c..8459ebe 100644
--- a/src/irspack/split/specified.py
+++ b/src/irspack/split/specified.py
@@ -95,11 +95,12 @@ def holdout_specific_interactions(
             int(v_user_ratio_train * n_validatable_users),
             rns,
         )
-    v_test_users, v_val_users = _split_list(
-        v_val_test_users,
-        int(len(v_val_test_users) * validatable_user_ratio_val / val_test_ratio),
-        rns,
-    )
+    n_val_users = 0
+    if v_val_test_users:
+        n_val_users = int(
+            len(v_val_test_users) * validatable_user_ratio_val / val_test_ratio
+        )
+    v_test_users, v_val_users = _split_list(v_val_test_users, n_val_users, rns)
     df_train = pd.concat(
         [
             df[df[user_column].isin(v_train_users)],
-- 
2.43.0


From 6a3636821f8934878a376568b0a55c8e09777aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:17 +0000
Subject: [PATCH 09/45] fix: rank and report double scores in double precision

---
 cpp_source/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 0cbc3d7..1378df0 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -424,12 +424,12 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
 }
 
 template <typename Real>
-inline std::vector<std::vector<std::pair<int64_t, float>>>
+inline std::vector<std::vector<std::pair<int64_t, Real>>>
 retrieve_recommend_from_score(
     const RowMajorMatrix<Real> &score,
     const std::vector<std::vector<int64_t>> &allowed_indices,
     const size_t cutoff, size_t n_threads) {
-  using score_and_index = std::pair<int64_t, float>;
+  using score_and_index = std::pair<int64_t, Real>;
   check_arg(n_threads > 0, "n_threads must not be 0.");
   check_arg(
       (score.rows() == static_cast<int64_t>(allowed_indices.size())) ||
-- 
2.43.0


From 46a8c2233f673cdc7cc9c23f4b88b62074041b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:17 +0000
Subject: [PATCH 10/45] fix: return no item for a cutoff of 0

---
 src/irspack/utils/id_mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index 8d8e47f..3e2ed55 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -242,6 +242,8 @@ class ItemIDMapper(Generic[ItemIdType]):
             high_score_inds = score.argsort()[::-1]
         recommendations: List[Tuple[ItemIdType, float]] = []
         for i in high_score_inds:
+            if len(recommendations) >= cutoff:
+                break
             i_int = int(i)
             score_this = score[i_int]
             item_id = self.item_ids[i_int]
@@ -251,8 +253,6 @@ class ItemIDMapper(Generic[ItemIdType]):
                 if item_id in forbidden_item_ids:
                     continue
             recommendations.append((item_id, float(score_this)))
-            if len(recommendations) >= cutoff:
-                break
         return recommendations
 
     def score_to_recommended_items_batch(
-- 
2.43.0


From 829888335c30c0661cc9b95b5aaa487ea9609869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:17 +0000
Subject: [PATCH 11/45] fix: only skip items scored minus infinity

---
 src/irspack/utils/id_mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index 3e2ed55..775a9b5 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -247,7 +247,7 @@ class ItemIDMapper(Generic[ItemIdType]):
             i_int = int(i)
             score_this = score[i_int]
             item_id = self.item_ids[i_int]
-            if np.isinf(score_this):
+            if np.isneginf(score_this):
                 continue
             if forbidden_item_ids is not None:
                 if item_id in forbidden_item_ids:
-- 
2.43.0


From 7fb7fc35f2c61a63098dea3d50cc3762fec0cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:17 +0000
Subject: [PATCH 12/45] fix: do not modify the caller's score array

---
 src/irspack/utils/id_mapping.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index 775a9b5..c5d03f3 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -304,6 +304,7 @@ class ItemIDMapper(Generic[ItemIdType]):
         elif allowed_item_ids is not None:
             allowed_item_indices = [self._item_id_list_to_index_list(allowed_item_ids)]
         if forbidden_item_ids is not None:
+            score = score.copy()
             for u, forbidden_ids_per_user in enumerate(forbidden_item_ids):
                 score[
                     u, self._item_id_list_to_index_list(forbidden_ids_per_user)
-- 
2.43.0


From 7b29e730d6712e511761d89848eaee8908af2914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:17 +0000
Subject: [PATCH 13/45] fix: do not recommend an item twice for duplicate
 allowed ids

---
 src/irspack/utils/id_mapping.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index c5d03f3..1bec9b1 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -233,7 +233,8 @@ class ItemIDMapper(Generic[ItemIdType]):
 
         if allowed_item_ids is not None:
             allowed_item_indices = np.asarray(
-                self._item_id_list_to_index_list(allowed_item_ids), dtype=np.int64
+                self._item_id_list_to_index_list(dict.fromkeys(allowed_item_ids)),
+                dtype=np.int64,
             )
             high_score_inds = allowed_item_indices[
                 score[allowed_item_indices].argsort()[::-1]
@@ -299,10 +300,13 @@ class ItemIDMapper(Generic[ItemIdType]):
         allowed_item_indices: List[List[int]] = []
         if per_user_allowed_item_ids is not None:
             allowed_item_indices = [
-                self._item_id_list_to_index_list(_) for _ in per_user_allowed_item_ids
+                self._item_id_list_to_index_list(dict.fromkeys(_))
+                for _ in per_user_allowed_item_ids
             ]
         elif allowed_item_ids is not None:
-            allowed_item_indices = [self._item_id_list_to_index_list(allowed_item_ids)]
+            allowed_item_indices = [
+                self._item_id_list_to_index_list(dict.fromkeys(allowed_item_ids))
+            ]
         if forbidden_item_ids is not None:
             score = score.copy()
             for u, forbidden_ids_per_user in enumerate(forbidden_item_ids):
-- 
2.43.0


From 66dc0632c2ee8a3ecc94ce386104495e7c1bb4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:45 +0000
Subject: [PATCH 14/45] fix: accept any column name in
 evaluate_recommendation_df

---
 src/irspack/evaluation/evaluate_df_to_df.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/irspack/evaluation/evaluate_df_to_df.py b/src/irspack/evaluation/evaluate_df_to_df.py
index cb24550..d830611 100644
--- a/src/irspack/evaluation/evaluate_df_to_df.py
+++ b/src/irspack/evaluation/evaluate_df_to_df.py
@@ -49,16 +49,14 @@ def evaluate_recommendation_df(
     item_id_to_index: Dict[Any, int] = {iid: i for i, iid in enumerate(item_ids)}
     user_index_to_recommendation: Dict[int, List[int]] = {}
     user_index_to_ground_truth: Dict[int, List[int]] = {}
-    for rec_row in df_recommendation.itertuples():
-        uid = getattr(rec_row, user_column)
-        iid = getattr(rec_row, item_column)
+    for uid, iid in zip(
+        df_recommendation[user_column], df_recommendation[item_column]
+    ):
         u_index = user_id_to_index[uid]
         i_index = item_id_to_index[iid]
         user_index_to_recommendation.setdefault(u_index, []).append(i_index)
 
-    for gt_row in df_ground_truth.itertuples():
-        uid = getattr(gt_row, user_column)
-        iid = getattr(gt_row, item_column)
+    for uid, iid in zip(df_ground_truth[user_column], df_ground_truth[item_column]):
         u_index = user_id_to_index[uid]
         i_index = item_id_to_index[iid]
         user_index_to_ground_truth.setdefault(u_index, []).append(i_index)
-- 
2.43.0


From c2e2b4d8c2659421e2772fff586a40360063109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:45 +0000
Subject: [PATCH 15/45] fix: accept ids without a common order in
 evaluate_recommendation_df

---
 src/irspack/evaluation/evaluate_df_to_df.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/irspack/evaluation/evaluate_df_to_df.py b/src/irspack/evaluation/evaluate_df_to_df.py
index d830611..613a614 100644
--- a/src/irspack/evaluation/evaluate_df_to_df.py
+++ b/src/irspack/evaluation/evaluate_df_to_df.py
@@ -41,10 +41,10 @@ def evaluate_recommendation_df(
         df_ground_truth[user_column].isin(df_recommendation[user_column])
     ].copy()
 
-    user_ids = sorted(list(set(df_recommendation[user_column])))
+    user_ids = list(dict.fromkeys(df_recommendation[user_column]))
     user_id_to_index: Dict[Any, int] = {uid: i for i, uid in enumerate(user_ids)}
-    item_ids = sorted(
-        list(set(df_recommendation[item_column]) | set(df_ground_truth[item_column]))
+    item_ids = list(
+        dict.fromkeys([*df_recommendation[item_column], *df_ground_truth[item_column]])
     )
     item_id_to_index: Dict[Any, int] = {iid: i for i, iid in enumerate(item_ids)}
     user_index_to_recommendation: Dict[int, List[int]] = {}
-- 
2.43.0


From 38e6597c213264f49f90f3205c1ee49171b9b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:28 +0000
Subject: [PATCH 16/45] fix: never leave a partial dataset archive at the
 destination

---
 src/irspack/dataset/downloader.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/irspack/dataset/downloader.py b/src/irspack/dataset/downloader.py
index 653cf89..4c63be4 100644
--- a/src/irspack/dataset/downloader.py
+++ b/src/irspack/dataset/downloader.py
@@ -1,3 +1,4 @@
+import os
 import urllib.request
 from abc import ABCMeta, abstractmethod
 from io import BytesIO
@@ -43,13 +44,22 @@ class BaseDownloader(metaclass=ABCMeta):
                 download = True
             if download:
                 print("start download...")
-                self._save_to_zippath(zippath)
+                self._download_to(zippath)
                 print("complete")
             else:
                 raise RuntimeError("could not read zipFile")
 
         self.zf = ZipFile(zippath)
 
+    def _download_to(self, zippath: Path) -> None:
+        # Never expose a partially downloaded archive at the destination.
+        temporary_path = zippath.with_name(f".{zippath.name}.{os.getpid()}.part")
+        try:
+            self._save_to_zippath(temporary_path)
+            temporary_path.replace(zippath)
+        finally:
+            temporary_path.unlink(missing_ok=True)
+
     def _read_as_istream(self, path: str) -> BytesIO:
         bytes_array = self.zf.read(path)
         return BytesIO(bytes_array)
-- 
2.43.0


From cf7e0cf4071a7acbff22149baede2e7d5111a866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:48 +0000
Subject: [PATCH 17/45] fix: never send a Hugging Face token to another MIND
 source

---
 src/irspack/dataset/mind.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index 2056cfb..f19fa8e 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -92,6 +92,13 @@ class MINDDataManager:
                 should_download = answer.lower() == "y"
             if not should_download:
                 raise RuntimeError("could not read the MIND archives")
+            token: Optional[str] = None
+            if download_source == "huggingface":
+                token = (
+                    hf_token
+                    or os.environ.get("HF_TOKEN")
+                    or os.environ.get("HUGGING_FACE_HUB_TOKEN")
+                )
             for split in missing:
                 path = paths[split]
                 path.parent.mkdir(parents=True, exist_ok=True)
@@ -103,11 +110,7 @@ class MINDDataManager:
                 )
                 url = f"{base_url}/{filename}"
                 print(f"downloading {url}...")
-                self._download(
-                    url,
-                    path,
-                    hf_token=hf_token if download_source == "huggingface" else None,
-                )
+                self._download(url, path, hf_token=token)
 
         self.size = size
         self.paths = paths
@@ -115,12 +118,7 @@ class MINDDataManager:
 
     @staticmethod
     def _download(url: str, path: Path, hf_token: Optional[str] = None) -> None:
-        token = (
-            hf_token
-            or os.environ.get("HF_TOKEN")
-            or os.environ.get("HUGGING_FACE_HUB_TOKEN")
-        )
-        headers = {"Authorization": f"Bearer {token}"} if token else {}
+        headers = {"Authorization": f"Bearer {hf_token}"} if hf_token else {}
         request = urllib.request.Request(url, headers=headers)
         temporary_path: Optional[Path] = None
         try:
-- 
2.43.0


From 46c49fb3faf17055765c76af459e6f0080b87500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:48 +0000
Subject: [PATCH 18/45] fix: do not forward the Hugging Face token on redirects

---
 src/irspack/dataset/mind.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index f19fa8e..afa3317 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -118,8 +118,10 @@ class MINDDataManager:
 
     @staticmethod
     def _download(url: str, path: Path, hf_token: Optional[str] = None) -> None:
-        headers = {"Authorization": f"Bearer {hf_token}"} if hf_token else {}
-        request = urllib.request.Request(url, headers=headers)
+        request = urllib.request.Request(url)
+        if hf_token:
+            # Not forwarded when the mirror redirects to its storage host.
+            request.add_unredirected_header("Authorization", f"Bearer {hf_token}")
         temporary_path: Optional[Path] = None
         try:
             with urllib.request.urlopen(request) as response:
-- 
2.43.0


From 989f5f567d98de26d5a4b7992c307e2357b345ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:48 +0000
Subject: [PATCH 19/45] fix: detect a truncated MIND download

---
 src/irspack/dataset/mind.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index afa3317..98a2141 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -6,7 +6,7 @@ from io import BytesIO
 from pathlib import Path
 from tempfile import NamedTemporaryFile
 from typing import Dict, Iterable, List, Optional, Union
-from urllib.error import HTTPError
+from urllib.error import ContentTooShortError, HTTPError
 from zipfile import ZipFile
 
 import pandas as pd
@@ -130,6 +130,12 @@ class MINDDataManager:
                 ) as output:
                     temporary_path = Path(output.name)
                     shutil.copyfileobj(response, output)
+                    size = output.tell()
+                expected_size = response.headers.get("Content-Length")
+            if expected_size is not None and size != int(expected_size):
+                raise ContentTooShortError(
+                    f"received only {size} out of {expected_size} bytes", None
+                )
             temporary_path.replace(path)
         except HTTPError as err:
             if err.code in (401, 403):
-- 
2.43.0


From aab907c596d707b650e6b2f9a1b15529a95003d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:05 +0000
Subject: [PATCH 20/45] fix: read MIND text fields verbatim

---
 src/irspack/dataset/mind.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index 98a2141..2ec9146 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -1,3 +1,4 @@
+import csv
 import json
 import os
 import shutil
@@ -5,7 +6,7 @@ import urllib.request
 from io import BytesIO
 from pathlib import Path
 from tempfile import NamedTemporaryFile
-from typing import Dict, Iterable, List, Optional, Union
+from typing import Any, Dict, Iterable, List, Optional, Union
 from urllib.error import ContentTooShortError, HTTPError
 from zipfile import ZipFile
 
@@ -58,6 +59,10 @@ class MINDDataManager:
     DEFAULT_DIR = Path("~/.mind").expanduser()
     _VALID_SPLITS = ("train", "dev")
     _VALID_SIZES = ("small", "large")
+    # The fields are raw text: no quoting, and only an empty field is missing.
+    _RAW_TSV: Dict[str, Any] = dict(
+        quoting=csv.QUOTE_NONE, keep_default_na=False, na_values=[""]
+    )
 
     def __init__(
         self,
@@ -205,6 +210,13 @@ class MINDDataManager:
                     "history",
                     "impressions",
                 ],
+                dtype={
+                    "user_id": str,
+                    "timestamp": str,
+                    "history": str,
+                    "impressions": str,
+                },
+                **self._RAW_TSV,
             )
         result["timestamp"] = pd.to_datetime(
             result["timestamp"], format="%m/%d/%Y %I:%M:%S %p"
@@ -283,7 +295,16 @@ class MINDDataManager:
         ]
         for split_name in self._iter_splits(split):
             with self._read_as_istream(split_name, "news.tsv") as ifs:
-                frames.append(pd.read_csv(ifs, sep="\t", header=None, names=columns))
+                frames.append(
+                    pd.read_csv(
+                        ifs,
+                        sep="\t",
+                        header=None,
+                        names=columns,
+                        dtype=str,
+                        **self._RAW_TSV,
+                    )
+                )
         result = pd.concat(frames, ignore_index=True).drop_duplicates(
             "item_id", keep="first"
         )
-- 
2.43.0


From 7c66c8eaaa573058576c55423d64ec767ae9d935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:29 +0000
Subject: [PATCH 21/45] fix: keep MovieLens zip codes as text

---
 src/irspack/dataset/movielens/ML100K.py | 1 +
 src/irspack/dataset/movielens/ML1M.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/irspack/dataset/movielens/ML100K.py b/src/irspack/dataset/movielens/ML100K.py
index 80b0e0a..a2e0d5c 100644
--- a/src/irspack/dataset/movielens/ML100K.py
+++ b/src/irspack/dataset/movielens/ML100K.py
@@ -45,6 +45,7 @@ class MovieLens100KDataManager(BaseMovieLenstDataLoader):
                 sep="|",
                 header=None,
                 names=["userId", "age", "gender", "occupation", "zipcode"],
+                dtype={"zipcode": str},
             ).set_index("userId")
 
     def _read_genre(self) -> List[str]:
diff --git a/src/irspack/dataset/movielens/ML1M.py b/src/irspack/dataset/movielens/ML1M.py
index 7529177..311e4f1 100644
--- a/src/irspack/dataset/movielens/ML1M.py
+++ b/src/irspack/dataset/movielens/ML1M.py
@@ -62,5 +62,6 @@ class MovieLens1MDataManager(BaseMovieLenstDataLoader):
                 sep="::",
                 header=None,
                 names=["userId", "gender", "age", "occupation", "zipcode"],
+                dtype={"zipcode": str},
                 engine="python",
             ).set_index("userId")
-- 
2.43.0


From 1516c7da09f14abc64436baf15fa435714e74590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:29 +0000
Subject: [PATCH 22/45] fix: read quotation marks in ML-100K titles verbatim

---
 src/irspack/dataset/movielens/ML100K.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/irspack/dataset/movielens/ML100K.py b/src/irspack/dataset/movielens/ML100K.py
index a2e0d5c..00741bb 100644
--- a/src/irspack/dataset/movielens/ML100K.py
+++ b/src/irspack/dataset/movielens/ML100K.py
@@ -1,3 +1,4 @@
+import csv
 import re
 from pathlib import Path
 from typing import List, Tuple
@@ -55,7 +56,13 @@ class MovieLens100KDataManager(BaseMovieLenstDataLoader):
 
     def read_item_info(self) -> Tuple[pd.DataFrame, pd.DataFrame]:
         with self._read_as_istream(self.ITEM_INFO_PATH) as ifs:
-            df = pd.read_csv(ifs, sep="|", header=None, encoding="latin-1")
+            df = pd.read_csv(
+                ifs,
+                sep="|",
+                header=None,
+                encoding="latin-1",
+                quoting=csv.QUOTE_NONE,
+            )
 
         genres = self._read_genre()
         df.columns = [
-- 
2.43.0


From 97ddbe5c7f11938de70096491821db4b7e26936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:29 +0000
Subject: [PATCH 23/45] fix: keep Amazon user and item ids as text

---
 src/irspack/dataset/amazon_music.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/irspack/dataset/amazon_music.py b/src/irspack/dataset/amazon_music.py
index e88c6c0..62f4ef5 100644
--- a/src/irspack/dataset/amazon_music.py
+++ b/src/irspack/dataset/amazon_music.py
@@ -34,6 +34,7 @@ class AmazonMusicDataManager(BaseDownloader):
             self._read_as_istream("amazon-music/ratings.csv"),
             header=None,
             names=["user_id", "music_id", "rating", "timestamp"],
+            dtype={"user_id": str, "music_id": str},
         )
 
     def read_metadata(self) -> pd.DataFrame:
-- 
2.43.0


From 6185a1b21180be86f82540fbaa0821a9b3c0c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:29 +0000
Subject: [PATCH 24/45] fix: parse Amazon metadata as literals, not code

---
 src/irspack/dataset/amazon_music.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/irspack/dataset/amazon_music.py b/src/irspack/dataset/amazon_music.py
index 62f4ef5..93cad38 100644
--- a/src/irspack/dataset/amazon_music.py
+++ b/src/irspack/dataset/amazon_music.py
@@ -1,3 +1,4 @@
+import ast
 import urllib.request
 from gzip import GzipFile
 from pathlib import Path
@@ -40,7 +41,7 @@ class AmazonMusicDataManager(BaseDownloader):
     def read_metadata(self) -> pd.DataFrame:
         results = []
         for l in self._read_as_istream("amazon-music/music-meta.json"):
-            meta = eval(l.decode("utf-8"))
+            meta = ast.literal_eval(l.decode("utf-8"))
             results.append(
                 (
                     meta["asin"],
-- 
2.43.0


From 3a99e514fac4383a12711992217508b43ff45288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:18 +0000
Subject: [PATCH 25/45] fix: parse each ML-100K release date on its own

---
 src/irspack/dataset/movielens/ML100K.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/dataset/movielens/ML100K.py b/src/irspack/dataset/movielens/ML100K.py
index 00741bb..d24f142 100644
--- a/src/irspack/dataset/movielens/ML100K.py
+++ b/src/irspack/dataset/movielens/ML100K.py
@@ -73,7 +73,7 @@ class MovieLens100KDataManager(BaseMovieLenstDataLoader):
             "URL",
         ] + genres
         movie_ids = df.movieId.values
-        df["release_date"] = pd.to_datetime(df.release_date)
+        df["release_date"] = pd.to_datetime(df.release_date, format="mixed")
         genre_df = pd.DataFrame(
             [
                 dict(movieId=movie_ids[row], genre=genres[col])
-- 
2.43.0


From eab21d2f8d5989f7c6c69abfc06b6673e1c91208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:18 +0000
Subject: [PATCH 26/45] fix: accept NeuMF test lines without negatives

---
 src/irspack/dataset/neu_mf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/dataset/neu_mf.py b/src/irspack/dataset/neu_mf.py
index 6cd53e0..bcb198f 100644
--- a/src/irspack/dataset/neu_mf.py
+++ b/src/irspack/dataset/neu_mf.py
@@ -45,7 +45,7 @@ class NeuMFDownloader(BaseDownloader):
                 uid = int(uid_str)
                 iid = int(iid_str)
                 test_data.append((uid, iid, True))
-                for negative_iid in _prefix.sub("", line).strip().split("\t"):
+                for negative_iid in _prefix.sub("", line).split():
                     test_data.append((uid, int(negative_iid), False))
         test_df = pd.DataFrame(
             test_data, columns=["user_id", "item_id", "positive"]
-- 
2.43.0


From 8ecf2ca117431d90b51993d6702115f4da06cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:15 +0000
Subject: [PATCH 27/45] fix: decide parameter names in linear time and without
 a trailing newline

---
 src/irspack/optimization/parameter_range.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/optimization/parameter_range.py b/src/irspack/optimization/parameter_range.py
index b416157..bd165c2 100644
--- a/src/irspack/optimization/parameter_range.py
+++ b/src/irspack/optimization/parameter_range.py
@@ -5,7 +5,7 @@ from typing import TYPE_CHECKING, Any, List
 if TYPE_CHECKING:
     from optuna import Trial
 
-NAME_CHECKER = re.compile(r"^([a-zA-Z\d]+[\-_]*)+$")
+NAME_CHECKER = re.compile(r"^[a-zA-Z\d][a-zA-Z\d\-_]*\Z")
 
 
 def is_valid_param_name(name: str) -> bool:
@@ -24,7 +24,7 @@ class ParameterRange(metaclass=ABCMeta):
     def __init__(self, name: str):
         if not is_valid_param_name(name):
             raise ValueError(
-                rf""""{name}" is  not a valid parameter name. It should match r"^([a-zA-Z\d]+[\-_]*)+$"""
+                rf""""{name}" is  not a valid parameter name. It should match r"^[a-zA-Z\d][a-zA-Z\d\-_]*$"""
             )
         self.name = name
 
-- 
2.43.0


From ae1f102cd2fd49a3050b170432469c3a1de17602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:31 +0000
Subject: [PATCH 28/45] fix: return neither fixed parameters nor fail on learnt
 ones that were suggested

---
 src/irspack/optimization/optimizer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/irspack/optimization/optimizer.py b/src/irspack/optimization/optimizer.py
index 3fd1676..0d2384e 100644
--- a/src/irspack/optimization/optimizer.py
+++ b/src/irspack/optimization/optimizer.py
@@ -191,13 +191,17 @@ class Optimizer:
         )
 
         study.optimize(objective_func, n_trials=n_trials, timeout=timeout)
-        best_params = dict(
-            **study.best_trial.params,
-            **{
+        best_params = {
+            key: val
+            for key, val in study.best_trial.params.items()
+            if key not in self.recommender_params
+        }
+        best_params.update(
+            {
                 key: val
                 for key, val in study.best_trial.user_attrs.items()
                 if is_valid_param_name(key)
-            },
+            }
         )
         trials_df = study_to_dataframe(study)
         return (best_params, trials_df)
-- 
2.43.0


From 70a3d4cce6ab50fcc4a712fa1aca08ab4eb11899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:18 +0000
Subject: [PATCH 29/45] fix: keep the scores of a trial with the trial

---
 src/irspack/optimization/optimizer.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/irspack/optimization/optimizer.py b/src/irspack/optimization/optimizer.py
index 0d2384e..5f3c73e 100644
--- a/src/irspack/optimization/optimizer.py
+++ b/src/irspack/optimization/optimizer.py
@@ -19,19 +19,10 @@ ParameterSuggestFunction = Callable[["Trial"], Dict[str, Any]]
 
 
 def add_score_to_trial(trial: "Trial", score: Dict[str, float], cutoff: int) -> None:
-    score_history: List[Tuple[int, Dict[str, float]]] = trial.study.user_attrs.get(
-        "scores", []
-    )
-    score_history.append(
-        (
-            trial.number,
-            {
-                f"{score_name}@{cutoff}": score_value
-                for score_name, score_value in score.items()
-            },
-        )
-    )
-    trial.study.set_user_attr("scores", score_history)
+    # The scores are kept with the trial. (A list in the study would lose entries
+    # when several workers sharing the study update it at the same time.)
+    for score_name, score_value in score.items():
+        trial.set_user_attr(f"{score_name}@{cutoff}", score_value)
 
 
 def study_to_dataframe(study: "Study") -> pd.DataFrame:
@@ -42,6 +33,7 @@ def study_to_dataframe(study: "Study") -> pd.DataFrame:
         re.sub(r"^(user_attrs|params)_", "", colname) for colname in result_df.columns
     ]
 
+    # studies stored by older versions have a list of scores in the study.
     trial_and_scores: List[Tuple[float, Dict[str, float]]] = study.user_attrs.get(
         "scores", []
     )
@@ -49,8 +41,11 @@ def study_to_dataframe(study: "Study") -> pd.DataFrame:
         [x[1] for x in trial_and_scores],
         index=[x[0] for x in trial_and_scores],
     )
-    score_df.index.name = "number"
-    result_df = result_df.join(score_df, how="left")
+    for colname in score_df.columns:
+        if colname in result_df.columns:
+            result_df[colname] = result_df[colname].fillna(score_df[colname])
+        else:
+            result_df[colname] = score_df[colname]
     return result_df
 
 
-- 
2.43.0


From 841d29e94e07e30ec3a5ddffcc6f2796330a0c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:10 +0000
Subject: [PATCH 30/45] fix: start every training afresh

---
 src/irspack/recommenders/base_earlystop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/irspack/recommenders/base_earlystop.py b/src/irspack/recommenders/base_earlystop.py
index 90d3bf0..4cb86d1 100644
--- a/src/irspack/recommenders/base_earlystop.py
+++ b/src/irspack/recommenders/base_earlystop.py
@@ -78,6 +78,9 @@ class BaseRecommenderWithEarlyStopping(BaseRecommender):
         pass  # pragma: no cover
 
     def start_learning(self) -> None:
+        # results of a previous training must not leak into this one.
+        self.best_state = None
+        self.learnt_config.pop("train_epochs", None)
         self.trainer = self._create_trainer()
 
     def run_epoch(self) -> None:
-- 
2.43.0


From 309b01a023d34ef0531f97934865f8a830e34ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:09 +0000
Subject: [PATCH 31/45] fix: compare doubling results by score only

---
 src/irspack/recommenders/ials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/recommenders/ials.py b/src/irspack/recommenders/ials.py
index c26f3dc..ba422e8 100644
--- a/src/irspack/recommenders/ials.py
+++ b/src/irspack/recommenders/ials.py
@@ -751,7 +751,7 @@ class IALSRecommender(
             prev_params = study.best_params.copy()
             dimension *= 2
         final_result_df = pd.concat([x[2] for x in results])
-        final_bp = sorted(results)[0][1]
+        final_bp = min(results, key=lambda result: result[0])[1]
 
         return final_bp, final_result_df
 
-- 
2.43.0


From 4ddf09e6f690267248f57a3bbce28e96ce03e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:08 +0000
Subject: [PATCH 32/45] fix: sort only the filled part of the SLIM top-k buffer

---
 cpp_source/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 1378df0..268757e 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -392,7 +392,7 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
             }
             int64_t n_taken_coeffs = nnz;
             if (nnz > top_k) {
-              std::sort(argsort_buffer.begin(), argsort_buffer.end(),
+              std::sort(argsort_buffer.begin(), argsort_buffer.begin() + nnz,
                         [](RealAndIndex val1, RealAndIndex val2) {
                           return val1.first > val2.first;
                         });
-- 
2.43.0


From b880b74063f21c1d22ba1d837f67d499142495b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:08 +0000
Subject: [PATCH 33/45] fix: make the SLIM coordinate order independent of
 scheduling

---
 cpp_source/util.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 268757e..3349cf8 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -250,11 +250,7 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
                                                          l2_coeff, l1_coeff,
                                                          n_iter, tol, top_k] {
       const int64_t F = X_csc.cols();
-      std::mt19937 gen(0);
       std::vector<int64_t> indices(F);
-      for (int64_t i = 0; i < F; i++) {
-        indices[i] = i;
-      }
       MatrixType remnants(block_size, X_csc.rows());
       MatrixType coeffs(block_size, F);
       VectorType coeff_temp(block_size);
@@ -280,6 +276,12 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
         int64_t valid_block_size = block_end - block_begin;
         remnants.setZero();
         coeffs.setZero();
+        // The order of the coordinates must not depend on which blocks
+        // this worker has processed before.
+        std::mt19937 gen(0);
+        for (int64_t i = 0; i < F; i++) {
+          indices[i] = i;
+        }
 
         for (int64_t f_cursor = block_begin; f_cursor < block_end; f_cursor++) {
           const int64_t internal_col_position = f_cursor - block_begin;
-- 
2.43.0


From 093fc34e0cc22bf9de613bc4f123ab5c832f8887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:08 +0000
Subject: [PATCH 34/45] fix: reject mismatching shapes in sparse_mm_threaded

---
 cpp_source/util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 3349cf8..e94abd2 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -42,9 +42,11 @@ template <typename Real>
 inline RowMajorMatrix<Real>
 parallel_sparse_product(const CSRMatrix<Real> &left,
                         const CSCMatrix<Real> &right, const size_t n_threads) {
+  check_arg(n_threads > 0, "n_thraed must be > 0");
+  check_arg(left.cols() == right.rows(),
+            "left.cols() must be equal to right.rows()");
   RowMajorMatrix<Real> result(left.rows(), right.cols());
   result.array() = 0;
-  check_arg(n_threads > 0, "n_thraed must be > 0");
   const int64_t n_row = left.rows();
   std::atomic<int64_t> cursor(0);
   std::vector<std::thread> workers;
-- 
2.43.0


From 75d0f66be36273a51fc7ae3092f9a3abd9788020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:08 +0000
Subject: [PATCH 35/45] fix: update SLIM residuals on every coefficient change

---
 cpp_source/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index e94abd2..f1aa5e1 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -352,7 +352,7 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
             coeff_temp.noalias() =
                 coeffs.col(shuffled_feature_index) - coeff_temp;
 
-            if (!coeff_temp.isZero()) {
+            if ((coeff_temp.array() != static_cast<Real>(0)).any()) {
               for (CSCIter nnz_iter(X_csc, shuffled_feature_index); nnz_iter;
                    ++nnz_iter) {
                 const int64_t row = nnz_iter.row();
-- 
2.43.0


From 9605c982fe299b0d296d368652d98e1d46770402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:08 +0000
Subject: [PATCH 36/45] fix: embed iALS rows without observations as zero in
 every solver

---
 cpp_source/als/IALSTrainer.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index c18aa0f..fedef37 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -293,6 +293,12 @@ private:
           if (cursor_local >= target_factor.rows()) {
             break;
           }
+          if (X.outerIndexPtr()[cursor_local + 1] ==
+              X.outerIndexPtr()[cursor_local]) {
+            // no observation: zero is the minimizer.
+            target_factor.row(cursor_local).array() = 0;
+            continue;
+          }
           P_local.noalias() = P;
           SymmetricMatrix P_adjoint = P_local.selfadjointView<Eigen::Upper>();
 
@@ -467,6 +473,11 @@ private:
           auto inner_cursor_end =
               X_compressed.outerIndexPtr()[cursor_local + 1];
           auto nnz = inner_cursor_end - inner_cursor_start;
+          if (nnz == 0) {
+            // no observation: zero is the minimizer.
+            target_factor_subspaced.row(cursor_local).array() = 0;
+            continue;
+          }
           auto reg =
               this->compute_reg(nnz, other_factor_subspaced.rows(), config);
 
@@ -590,6 +601,11 @@ private:
           auto inner_cursor_end =
               X_compressed.outerIndexPtr()[cursor_local + 1];
           auto nnz = inner_cursor_end - inner_cursor_start;
+          if (nnz == 0) {
+            // no observation: zero is the minimizer.
+            target_factor_subspaced(cursor_local) = 0;
+            continue;
+          }
           auto reg =
               this->compute_reg(nnz, other_factor_subspaced.rows(), config);
 
-- 
2.43.0


From ed74c98b71331e7149c2489e1ee9db0078703dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:08 +0000
Subject: [PATCH 37/45] fix: zero the iALS factors before initialising them

---
 cpp_source/als/IALSTrainer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index fedef37..95e236c 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -63,6 +63,7 @@ struct Solver {
 
   inline void initialize(DenseMatrix &factor, const IALSModelConfig &config) {
 
+    factor.setZero();
     if (config.init_stdev > 0) {
       std::mt19937 gen(config.random_seed);
       std::normal_distribution<Real> dist(0.0, config.init_stdev /
-- 
2.43.0


From a06b248ebe72077db8f0e88830c0f007c9669436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:09 +0000
Subject: [PATCH 38/45] fix: refuse to train an iALS trainer deserialized
 without interactions

---
 cpp_source/als/IALSTrainer.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index 95e236c..e3f23e7 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -773,6 +773,7 @@ struct IALSTrainer {
   }
 
   inline void step(const SolverConfig &solver_config) {
+    check_interactions_available();
     if (feature_aware_ && solver_config.solver_type == SolverType::IALSPP)
       throw std::invalid_argument(
           "Feature-aware iALS does not support IALSPP.");
@@ -851,6 +852,7 @@ struct IALSTrainer {
   }
 
   inline Real compute_loss(const SolverConfig &solver_config) {
+    check_interactions_available();
     this->user_solver.prepare_p(item, config_, solver_config);
     this->item_solver.prepare_p(user, config_, solver_config);
     Real loss = 0;
@@ -1015,6 +1017,14 @@ private:
   bool feature_aware_ = false;
   size_t epoch_ = 0;
 
+  // A deserialized trainer does not hold the interactions.
+  inline void check_interactions_available() const {
+    if (static_cast<size_t>(X.rows()) != n_users ||
+        static_cast<size_t>(X.cols()) != n_items)
+      throw std::runtime_error(
+          "This trainer was deserialized without interactions.");
+  }
+
   inline void initialize_feature_aware(size_t user_feature_rows,
                                        size_t user_feature_cols,
                                        size_t item_feature_rows,
-- 
2.43.0


From 5d175023c37125b7ad15538b29ba89e390c171b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:20 +0000
Subject: [PATCH 39/45] fix: let NMF score unseen users of any dtype

---
 src/irspack/recommenders/nmf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/irspack/recommenders/nmf.py b/src/irspack/recommenders/nmf.py
index 96b8e0d..b4465e0 100644
--- a/src/irspack/recommenders/nmf.py
+++ b/src/irspack/recommenders/nmf.py
@@ -68,5 +68,7 @@ class NMFRecommender(BaseRecommender):
         return res
 
     def get_score_cold_user(self, X: InteractionMatrix) -> DenseScoreArray:
-        res: DenseScoreArray = self.nmf_model.transform(X).dot(self.H)
+        res: DenseScoreArray = self.nmf_model.transform(X.astype(self.H.dtype)).dot(
+            self.H
+        )
         return res
-- 
2.43.0


From 4b06dd8dfb462072a559d219f006dada9e38bede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:03 +0000
Subject: [PATCH 40/45] fix: give BPRFM and MultVAE configurations the
 documented number of epochs

---
 src/irspack/recommenders/bpr.py     | 1 +
 src/irspack/recommenders/multvae.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/irspack/recommenders/bpr.py b/src/irspack/recommenders/bpr.py
index 9fcf28f..3b46a64 100644
--- a/src/irspack/recommenders/bpr.py
+++ b/src/irspack/recommenders/bpr.py
@@ -55,6 +55,7 @@ class BPRFMConfig(BaseEarlyStoppingRecommenderConfig):
     user_alpha: float = 1e-9
     loss: str = "bpr"
     n_threads: Optional[int] = None
+    train_epochs: int = 128
 
 
 class BPRFMRecommender(
diff --git a/src/irspack/recommenders/multvae.py b/src/irspack/recommenders/multvae.py
index 9f75ffa..fefdbaf 100644
--- a/src/irspack/recommenders/multvae.py
+++ b/src/irspack/recommenders/multvae.py
@@ -287,6 +287,7 @@ class MultVAEConfig(BaseEarlyStoppingRecommenderConfig):
     kl_anneal_goal: float = 0.2
     anneal_end_epoch: int = 50
     minibatch_size: int = 512
+    train_epochs: int = 300
     learning_rate: float = 1e-3
 
 
-- 
2.43.0


From 1ae2a24add75c0a776307735d8765cc668eda618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:03 +0000
Subject: [PATCH 41/45] fix: bring IALSConfig in line with IALSRecommender

---
 src/irspack/recommenders/ials.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/irspack/recommenders/ials.py b/src/irspack/recommenders/ials.py
index ba422e8..40aeffe 100644
--- a/src/irspack/recommenders/ials.py
+++ b/src/irspack/recommenders/ials.py
@@ -210,20 +210,22 @@ class IALSConfigScaling(enum.Enum):
 
 class IALSConfig(BaseEarlyStoppingRecommenderConfig):
     n_components: int = 20
-    alpha0: float = 1.0
+    alpha0: float = 0.0
     reg: float = 1e-3
     nu: float = 1.0
     confidence_scaling: str = "none"
     epsilon: float = 1.0
     init_std: float = 0.1
-    solver_type: Literal["CG", "CHOLESKY"] = "CG"
+    solver_type: Literal["CG", "CHOLESKY", "IALSPP"] = "CG"
     max_cg_steps: int = 3
+    ialspp_subspace_dimension: int = 64
     loss_type: Literal["IALSPP", "ORIGINAL"] = "IALSPP"
     nu_star: Optional[float] = None
     random_seed: int = 42
     n_threads: Optional[int] = None
     train_epochs: int = 16
     prediction_time_max_cg_steps: int = 5
+    prediction_time_ialspp_iteration: int = 7
     lambda_user_feature: float = 0.0
     lambda_item_feature: float = 0.0
     feature_warmup_epochs: int = 0
-- 
2.43.0


From 41621588ac198d46fd847f5a7aba86837e5955b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:11 +0000
Subject: [PATCH 42/45] fix: reject zero threads in evaluate_list_vs_list

---
 cpp_source/evaluator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 795d8e8..308c622 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -376,6 +376,7 @@ private:
 Metrics evaluate_list_vs_list(const vector<vector<size_t>> &recommendation,
                               const vector<vector<size_t>> &ground_truth,
                               size_t n_items, size_t n_threads) {
+  check_arg(n_threads > 0, "n_threads == 0");
   check_arg(recommendation.size() == ground_truth.size(),
             "recommendation array and ground_truth array has different size.");
   size_t n_recommendation_max = 0;
-- 
2.43.0


From 8b42a38deebcfc641025632b34a14a6065d3b70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:46 +0000
Subject: [PATCH 43/45] fix: keep ratings of 0 in the table views of an
 interaction pair

---
 src/irspack/split/userwise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 5529b36..ea68eb1 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -83,8 +83,9 @@ class UserTrainTestInteractionPair:
         if self.item_ids is None:
             raise RuntimeError("Setting item_ids is required to use this method.")
         X.sort_indices()
-        row, col = X.nonzero()
-        data = X.data
+        # Not X.nonzero(), which skips stored zeros (ratings of 0).
+        X_coo = X.tocoo()
+        row, col, data = X_coo.row, X_coo.col, X_coo.data
         return pd.DataFrame(
             dict(
                 user_id=[user_ids[r] for r in row],
-- 
2.43.0


From 02b44730888c6acf93c459461c676bfa5feb40da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:42 +0000
Subject: [PATCH 44/45] fix: do not mask scores inside arrays owned by the
 model

---
 src/irspack/evaluation/evaluator.py | 4 ++++
 src/irspack/recommenders/base.py    | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/irspack/evaluation/evaluator.py b/src/irspack/evaluation/evaluator.py
index cd05393..09eb684 100644
--- a/src/irspack/evaluation/evaluator.py
+++ b/src/irspack/evaluation/evaluator.py
@@ -429,6 +429,8 @@ class Evaluator:
                 mask = self.masked_interactions[
                     chunk_start - self.offset : chunk_end - self.offset
                 ]
+            # Masking scores must not alter an array owned by the model.
+            scores = scores.copy()
             scores[mask.nonzero()] = -np.inf
             for i, c in enumerate(cutoffs):
                 chunked_metric = self._get_metrics(
@@ -641,6 +643,8 @@ class EvaluatorWithColdUser(Evaluator):
             mask = self._get_score_matrix_mask()
             assert mask is not None
             mask = mask[chunk_start:chunk_end]
+            # Masking scores must not alter an array owned by the model.
+            scores = scores.copy(order="K")
             scores[mask.nonzero()] = -np.inf
 
             if not scores.flags.c_contiguous:
diff --git a/src/irspack/recommenders/base.py b/src/irspack/recommenders/base.py
index 1364f5a..62be964 100644
--- a/src/irspack/recommenders/base.py
+++ b/src/irspack/recommenders/base.py
@@ -317,6 +317,8 @@ class BaseRecommender(object, metaclass=RecommenderMeta):
         scores = self.get_score(user_indices)
         if sps.issparse(scores):
             scores = sps.csr_matrix(scores).toarray()
+        # Masking scores must not alter an array owned by the model.
+        scores = scores.copy()
         m = self.X_train_all[user_indices].tocsr()
         scores[m.nonzero()] = -np.inf
         return scores
@@ -331,7 +333,7 @@ class BaseRecommender(object, metaclass=RecommenderMeta):
         Returns:
             The masked item scores. Its shape will be (end - begin, self.n_items)
         """
-        scores = _sparse_to_array(self.get_score_block(begin, end))
+        scores = _sparse_to_array(self.get_score_block(begin, end)).copy()
         m = self.X_train_all[begin:end]
         scores[m.nonzero()] = -np.inf
         return scores
@@ -398,7 +400,7 @@ class BaseRecommender(object, metaclass=RecommenderMeta):
         Returns:
             Computed & masked item scores for users. Its shape is equal to X.
         """
-        score = self.get_score_cold_user(X)
+        score = self.get_score_cold_user(X).copy()
         score[X.nonzero()] = -np.inf
         return score
 
-- 
2.43.0


From 34499e4171158f2d7ea533fbc96cef13624ec93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:55 +0000
Subject: [PATCH 45/45] fix: give every download its own temporary file

---
 src/irspack/dataset/downloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/dataset/downloader.py b/src/irspack/dataset/downloader.py
index 4c63be4..fb82abb 100644
--- a/src/irspack/dataset/downloader.py
+++ b/src/irspack/dataset/downloader.py
@@ -1,9 +1,9 @@
-import os
 import urllib.request
 from abc import ABCMeta, abstractmethod
 from io import BytesIO
 from pathlib import Path
 from typing import Optional, Union
+from uuid import uuid4
 from zipfile import ZipFile
 
 
@@ -53,7 +53,7 @@ class BaseDownloader(metaclass=ABCMeta):
 
     def _download_to(self, zippath: Path) -> None:
         # Never expose a partially downloaded archive at the destination.
-        temporary_path = zippath.with_name(f".{zippath.name}.{os.getpid()}.part")
+        temporary_path = zippath.with_name(f".{zippath.name}.{uuid4().hex}.part")
         try:
             self._save_to_zippath(temporary_path)
             temporary_path.replace(zippath)
-- 
2.43.0

