From d5cb0c37bd3fe62b3801bba83c1adb10d69e005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 01/80] fix: refitting an estimator forgets the previous fit

The encoders, fit options (treat, control, combined_treatment...) and the treat
argument of estimate survived into the next fit, and a fit that raised left
the estimator answering from a mixture of two fits. x_prob given to ApproxBound
was replaced by the one computed in the first fit; DoubleML shared yx_model with its caller and
refitted the same first-stage models.
---
 ylearn/estimator_model/approximation_bound.py | 18 ++++----
 ylearn/estimator_model/base_models.py         | 16 +++++++
 ylearn/estimator_model/double_ml.py           | 43 +++++++++++--------
 3 files changed, 50 insertions(+), 27 deletions(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index 9001c9c..8d32de0 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -154,20 +154,22 @@ class ApproxBound(BaseEstModel):
 
         self.x_label = np.array(convert4onehot(x_one_hot).astype(int))
 
-        if self.x_prob is None:
+        x_prob = self.x_prob
+        if x_prob is None:
             if v is not None:
                 if self.is_discrete_covariate:
                     v = OneHotEncoder().fit_transform(v)
 
                 self.x_model.fit(v, self.x_label)
-                self.x_prob = self.x_model.predict_proba(v)
+                x_prob = self.x_model.predict_proba(v)
             else:
-                self.x_prob = np.unique(self.x_label, return_counts=True)[1]
-                self.x_prob = (self.x_prob / self._n).reshape(1, -1)
+                x_prob = np.unique(self.x_label, return_counts=True)[1]
+                x_prob = (x_prob / self._n).reshape(1, -1)
         else:
             # TODO: modify the following line for multiple treatment
-            self.x_prob = self.x_prob.reshape(1, -1)
+            x_prob = x_prob.reshape(1, -1)
 
+        self._x_prob = x_prob
         self._v = v
         xv = get_wv(x_one_hot, v)
         self.y_model.fit(xv, y.squeeze(), **kwargs)
@@ -277,7 +279,7 @@ class ApproxBound(BaseEstModel):
             The transformed one-hot vectors
         """
         if x.shape[1] > 1:
-            if not self._is_fitted:
+            if not hasattr(self, 'ord_transformer'):
                 self.ord_transformer = OrdinalEncoder(categories=categories)
                 self.ord_transformer.fit(x)
 
@@ -295,7 +297,7 @@ class ApproxBound(BaseEstModel):
             for i, x_i in enumerate(x_transformed):
                 x[i] = self.label_dict[tuple(x_i)]
 
-        if not self._is_fitted:
+        if not hasattr(self, 'oh_transformer'):
             self.oh_transformer = OneHotEncoder(categories=categories)
             self.oh_transformer.fit(x)
 
@@ -312,7 +314,7 @@ class ApproxBound(BaseEstModel):
         y_lower,
     ):
         # x_d = self._x_d
-        x_prob = self.x_prob
+        x_prob = self._x_prob
 
         treat = get_tr_ctrl(
             treat,
diff --git a/ylearn/estimator_model/base_models.py b/ylearn/estimator_model/base_models.py
index 08294c3..f7c612b 100644
--- a/ylearn/estimator_model/base_models.py
+++ b/ylearn/estimator_model/base_models.py
@@ -53,6 +53,8 @@ class BaseEstModel:
     ):
         assert data is not None and isinstance(data, pd.DataFrame)
 
+        self._reset_fit()
+
         # check_cols(data, treatment, outcome)
         if isinstance(treatment, str):
             treatment = [treatment]
@@ -60,6 +62,7 @@ class BaseEstModel:
         self.treatment = treatment
         self.outcome = outcome
 
+        self._fit_options = tuple(kwargs)
         for k, v in kwargs.items():
             setattr(self, k, v)
             # check_cols(data, v)
@@ -74,6 +77,19 @@ class BaseEstModel:
 
         return self
 
+    def _reset_fit(self):
+        """Forget everything learned by a previous call of fit, so that a refitted
+        estimator equals a new one and an unfinished fit can not be queried.
+        """
+        self._is_fitted = False
+
+        params = self._get_param_names()
+        for k in getattr(self, "_fit_options", ()):
+            if k not in params:
+                self.__dict__.pop(k, None)
+        for k in ("ord_transformer", "oh_transformer", "label_dict"):
+            self.__dict__.pop(k, None)
+
     def effect_nji(self, *args, **kwargs):
         raise NotImplementedError()
 
diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index f187985..4a99c20 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -307,7 +307,7 @@ class DoubleML(BaseEstModel):
         if yx_model is None:
             self.yx_model = LinearRegression()
         else:
-            self.yx_model = yx_model
+            self.yx_model = clone(yx_model)
 
         self.adjustment_transformer = adjustment_transformer
         self.covariate_transformer = covariate_transformer
@@ -475,27 +475,15 @@ class DoubleML(BaseEstModel):
             The estimated causal effect with the type of the quantity.
         """
         fij = self._prepare4est(data=data)
-        if hasattr(self, "treat") and treat is None:
-            treat = self.treat
         if hasattr(self, "control") and control is None:
             control = self.control
 
         dis_tr = self.is_discrete_treatment
 
-        if isinstance(treat, pd.Series):
-            treat = treat.values
-
         if isinstance(control, pd.Series):
             control = control.values
 
-        if not isinstance(treat, np.ndarray):
-            treat = get_tr_ctrl(
-                treat,
-                self.comp_transormer,
-                treat=True,
-                one_hot=False,
-                discrete_treat=dis_tr,
-            )
+        treat = self._get_treat(treat)
 
         if not isinstance(control, np.ndarray):
             control = get_tr_ctrl(
@@ -506,8 +494,6 @@ class DoubleML(BaseEstModel):
                 discrete_treat=dis_tr,
             )
 
-        self.treat = treat
-
         if self.is_discrete_treatment:
             effect = fij[:, :, treat] - fij[:, :, control]
         else:
@@ -537,6 +523,24 @@ class DoubleML(BaseEstModel):
         else:
             return effect
 
+    def _get_treat(self, treat=None):
+        if hasattr(self, "treat") and treat is None:
+            treat = self.treat
+
+        if isinstance(treat, pd.Series):
+            treat = treat.values
+
+        if not isinstance(treat, np.ndarray):
+            treat = get_tr_ctrl(
+                treat,
+                self.comp_transormer,
+                treat=True,
+                one_hot=False,
+                discrete_treat=self.is_discrete_treatment,
+            )
+
+        return treat
+
     def comp_transormer(self, x, categories="auto"):
         """Transform the discrete treatment into one-hot vectors.
 
@@ -554,7 +558,7 @@ class DoubleML(BaseEstModel):
             The transformed one-hot vectors
         """
         if x.shape[1] > 1:
-            if not self._is_fitted:
+            if not hasattr(self, "ord_transformer"):
                 self.ord_transformer = OrdinalEncoder(categories=categories)
                 self.ord_transformer.fit(x)
 
@@ -571,7 +575,7 @@ class DoubleML(BaseEstModel):
             for i, x_i in enumerate(x_transformed):
                 x[i] = self.label_dict[tuple(x_i)]
 
-        if not self._is_fitted:
+        if not hasattr(self, "oh_transformer"):
             self.oh_transformer = ArrayOneHotEncoder(categories=categories)
             self.oh_transformer.fit(x)
 
@@ -665,7 +669,7 @@ class DoubleML(BaseEstModel):
     def outcome_classes_(self):
         if self.is_discrete_outcome:
             assert self._is_fitted, "The model has not been fitted yet."
-            return self.y_model.classes_
+            return self.y_hat_dict["models"][0].classes_
         else:
             return None
 
@@ -686,6 +690,7 @@ class DoubleML(BaseEstModel):
 
         if folds is None:
             wv = args[0]
+            model = clone(model)
             model.fit(wv, target_converted, **kwargs)
 
             p_hat = model.__getattribute__(pred_func)(wv)
-- 
2.43.0


From 72b3c7ca845ffdf48196de0a3542b0ed1c4748f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 02/80] fix: S/T/X learners encode treat and control once, at
 fit

estimate re-encoded the already encoded values and so changed its own later
answers; outcome_classes_ looked for attributes which do not exist.
---
 ylearn/estimator_model/meta_learner.py | 46 ++++++++++++--------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index 04544c6..116a426 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -352,14 +352,26 @@ class SLearner(BaseEstModel):
         x = self._comp_transformer(x, categories=categories)
 
         self._x_d = x.shape[1]
-        self.treat = treat
-        self.control = control
 
         x = np.concatenate((wv, x), axis=1)
         y = y.squeeze()
 
         self.model.fit(x, y, **kwargs)
 
+        self.treat = get_tr_ctrl(
+            treat,
+            self._comp_transformer,
+            treat=True,
+            one_hot=False,
+            discrete_treat=True,
+        )
+        self.control = get_tr_ctrl(
+            control,
+            self._comp_transformer,
+            treat=False,
+            one_hot=False,
+            discrete_treat=True,
+        )
         self._is_fitted = True
 
         return self
@@ -389,7 +401,7 @@ class SLearner(BaseEstModel):
             The transformed one-hot vectors
         """
         if x.shape[1] > 1:
-            if not self._is_fitted:
+            if not hasattr(self, "ord_transformer"):
                 self.ord_transformer = OrdinalEncoder(categories=categories)
                 self.ord_transformer.fit(x)
 
@@ -405,7 +417,7 @@ class SLearner(BaseEstModel):
             for i, x_i in enumerate(x_transformed):
                 x[i] = self.label_dict[tuple(x_i)]
 
-        if not self._is_fitted:
+        if not hasattr(self, "oh_transformer"):
             self.oh_transformer = ArrayOneHotEncoder(categories=categories)
             self.oh_transformer.fit(x)
 
@@ -450,21 +462,6 @@ class SLearner(BaseEstModel):
 
     def _prepare_combined_treat(self, wv, target_outcome=None):
         n = wv.shape[0]
-        self.treat = get_tr_ctrl(
-            self.treat,
-            self._comp_transformer,
-            treat=True,
-            one_hot=False,
-            discrete_treat=True,
-        )
-        self.control = get_tr_ctrl(
-            self.control,
-            self._comp_transformer,
-            treat=False,
-            one_hot=False,
-            discrete_treat=True,
-        )
-
         treat = np.zeros(
             self._x_d,
         )
@@ -791,9 +788,9 @@ class TLearner(BaseEstModel):
     def outcome_classes_(self):
         if self.is_discrete_outcome:
             assert self._is_fitted, "The model has not been fitted yet."
-            try:
+            if self.combined_treat:
                 classes_ = self.xt_model.classes_
-            except:
+            else:
                 classes_ = self._fitted_dict_separa["models"][0].classes_
         else:
             classes_ = None
@@ -1259,12 +1256,12 @@ class XLearner(BaseEstModel):
     def outcome_classes_(self):
         if self.is_discrete_outcome:
             assert self._is_fitted, "The model has not been fitted yet."
-            try:
+            if self.combined_treat:
                 classes_ = (
                     self.ft_model.classes_
                 )  # TODO: note that, in some extreme case when the treat group only has one class of outcome, then this will render an error, but currently we ignore such case
-            except:
-                classes_ = self._fitted_dict_separa["models"][0].classes_
+            else:
+                classes_ = self._fitted_dict_separa["f0_model"][0].classes_
             # else:
             #     classes_ = None
         else:
@@ -1501,6 +1498,7 @@ class XLearner(BaseEstModel):
         _wv_control, _y_control = get_groups(treat_arrays[0], x, False, wv, y)
         _y_control = _y_control.squeeze()
         f0_model.fit(_wv_control, _y_control)
+        self._fitted_dict_separa["f0_model"].append(f0_model)
 
         if self.proba_output:
             self._outcome_oh = ArrayOneHotEncoder(categories=[f0_model.classes_])
-- 
2.43.0


From 80cd7e9bc633b26fdaf91ad1a92f4ce92a36e5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 03/80] fix: estimators refuse to answer after a fit that did
 not complete

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 4 ++++
 ylearn/estimator_model/causal_forest.py                    | 5 +++--
 ylearn/estimator_model/causal_tree.py                      | 2 ++
 ylearn/estimator_model/doubly_robust.py                    | 6 ++++--
 ylearn/estimator_model/iv.py                               | 3 +++
 5 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 578e7ab..e8d58ec 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -354,6 +354,7 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             For each datapoint v_i in v and for each tree in the forest,
             return the index of the leaf v ends up in.
         """
+        assert self._is_fitted, "The model is not fitted yet."
         results = Parallel(**self._job_options())(
             delayed(tree.apply)(v, v, check_input=False) for tree in self.estimators_
         )
@@ -365,6 +366,7 @@ class BaseCausalForest(BaseEstModel, BaseForest):
         return self.feature_importances_()
 
     def feature_importances_(self):
+        assert self._is_fitted, "The model is not fitted yet."
         all_importances = Parallel(**self._job_options())(
             delayed(getattr)(tree, "feature_importances_")
             for tree in self.estimators_
@@ -379,6 +381,8 @@ class BaseCausalForest(BaseEstModel, BaseForest):
 
     # TODO: add check data
     def _fit_with_array(self, y, x, w, v, sample_weight=None, **kwargs):
+        self._is_fitted = False
+
         if y.ndim == 1:
             y = y.reshape(-1, 1)
         if x.ndim == 1:
diff --git a/ylearn/estimator_model/causal_forest.py b/ylearn/estimator_model/causal_forest.py
index 25ec0aa..0cbeabd 100644
--- a/ylearn/estimator_model/causal_forest.py
+++ b/ylearn/estimator_model/causal_forest.py
@@ -200,7 +200,6 @@ class CausalForest(DoubleML):
             if hasattr(self, "control") and self.control is not None:
                 ctrl = self.control
                 if not isinstance(ctrl, np.ndarray):
-                    self._is_fitted = True  # TODO: this line is for temp useage
                     ctrl = get_tr_ctrl(
                         ctrl,
                         self.comp_transormer,
@@ -208,7 +207,6 @@ class CausalForest(DoubleML):
                         one_hot=False,
                         discrete_treat=True,
                     )
-                    self._is_fitted = False
             else:
                 ctrl = 0
 
@@ -217,6 +215,7 @@ class CausalForest(DoubleML):
         return x_prime
 
     def estimate(self, data=None, **kwargs):
+        assert self._is_fitted, "The model is not fitted yet."
         return self.yx_model.estimate(data=data)
 
     def apply(self, v):
@@ -235,10 +234,12 @@ class CausalForest(DoubleML):
             For each datapoint v_i in v and for each tree in the forest,
             return the index of the leaf v ends up in.
         """
+        assert self._is_fitted, "The model is not fitted yet."
         return self.yx_model.apply(v)
 
     @property
     def feature_importance(self):
+        assert self._is_fitted, "The model is not fitted yet."
         return self.yx_model.feature_importances_()
 
 
diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index 18947e4..45d8ac2 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -430,6 +430,7 @@ class CausalTree(BaseEstModel):
             return effect
 
     def predict(self, v):
+        assert self._is_fitted, "The model is not fitted yet."
         return self.tree_.predict(v)
 
     def _assign_honest_values(self, tree, wv, y, x):
@@ -493,6 +494,7 @@ class CausalTree(BaseEstModel):
         return y_nji
 
     def _prepare4est(self, data=None):
+        assert self._is_fitted, "The model is not fitted yet."
         wv = self._check_features(wv=None, data=data)
         effect = self.tree_.predict(wv)
 
diff --git a/ylearn/estimator_model/doubly_robust.py b/ylearn/estimator_model/doubly_robust.py
index 2761a77..cc56ddb 100644
--- a/ylearn/estimator_model/doubly_robust.py
+++ b/ylearn/estimator_model/doubly_robust.py
@@ -439,7 +439,8 @@ class DoublyRobust(BaseEstModel):
         return effect_
 
     def _prepare4est(self, data=None, all_tr=False, treat=None):
-        if not all((self.x_hat_dict['is_fitted'][0],
+        if not all((self._is_fitted,
+                   self.x_hat_dict['is_fitted'][0],
                    self.y_hat_dict['is_fitted'][0],
                    self._final_result['is_fitted'][0])):
             raise Exception('The model has not been fully fitted yet.')
@@ -551,6 +552,7 @@ class DoublyRobust(BaseEstModel):
 
         if folds is None:
             wv = args[0]
+            model = deepcopy(model)
             model.fit(wv, target, **kwargs)
 
             if not is_ymodel:
@@ -558,7 +560,7 @@ class DoublyRobust(BaseEstModel):
             else:
                 p_hat = model.predict(wv)
 
-            fitted_result['models'].append(deepcopy(model))
+            fitted_result['models'].append(model)
             fitted_result['paras'].append(p_hat)
             idx = np.arange(start=0, stop=wv.shape[0])
             fitted_result['train_test_id'].append((idx, idx))
diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index ebcf7ff..7ded6c7 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -264,6 +264,9 @@ class NP2SLS(BaseEstModel):
             return yt  # counterfactuals
 
     def effect_nji(self, data=None):
+        if not self._is_fitted:
+            raise Exception("The estimator is not fitted yet.")
+
         if self.is_discrete_treatment:
             v, w, x, n = self._check_data(data=data)
 
-- 
2.43.0


From 83dcdab7bde088beb92b9b8f1c8f3486c26c48b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 04/80] fix: RLoss is not scored from an unfinished fit

---
 ylearn/estimator_model/effect_score.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/effect_score.py b/ylearn/estimator_model/effect_score.py
index d883c4e..aa2e205 100644
--- a/ylearn/estimator_model/effect_score.py
+++ b/ylearn/estimator_model/effect_score.py
@@ -240,6 +240,8 @@ class RLoss(DoubleML):
         """
         assert covariate is not None, "Need covariates to use RLoss."
 
+        self._reset_fit()
+
         self.combined_treatment = combined_treatment
 
         # super().fit(
@@ -330,6 +332,8 @@ class RLoss(DoubleML):
         float
             The score for the test_estimator
         """
+        assert self._is_fitted, "The RLoss should be fitted before scoring."
+
         x_prime, y_prime = self.x_hat_dict["res"][0], self.y_hat_dict["res"][0]
         v = self._v
         w = self._w
@@ -375,7 +379,11 @@ class RLoss(DoubleML):
         )
         if self.is_discrete_treatment and self.combined_treatment:
             logger.info("using combined treat technique for discrete treatment.")
-            x_prime = x_prime[:, test_estimator.treat].reshape(-1, 1)
+            if isinstance(test_estimator, DoubleML):
+                tr_index = test_estimator._get_treat(treat)
+            else:
+                tr_index = test_estimator.treat
+            x_prime = x_prime[:, tr_index].reshape(-1, 1)
             test_effect = test_effect.reshape(v.shape[0], self._y_d, 1)
 
         y_pred = np.einsum("nij, nj->ni", test_effect, x_prime)
-- 
2.43.0


From 7f8b255fcc929f371b15366f67a09b235692b64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 05/80] fix: permuted learners answer effect_nji for the
 training data and several outcomes

---
 ylearn/estimator_model/_permuted.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/_permuted.py b/ylearn/estimator_model/_permuted.py
index c438ea0..3eb5d8d 100644
--- a/ylearn/estimator_model/_permuted.py
+++ b/ylearn/estimator_model/_permuted.py
@@ -42,11 +42,11 @@ def _copy_and_fit(learner, data, outcome, treatment, treat, control, **kwargs):
     return learner
 
 
-def _effect_nji(learner_and_sign, data, outcome, treatment, treat, control, target_outcome):
+def _effect_nji(learner_and_sign, data, n_rows, outcome, treatment, treat, control, target_outcome):
     y_count = 1 if isinstance(outcome, str) else len(outcome)
 
     if treat == control:
-        effect = np.zeros((len(data), y_count, y_count))
+        effect = np.zeros((n_rows, y_count, 1))
     else:
         assert isinstance(learner_and_sign, tuple)
 
@@ -171,6 +171,8 @@ class PermutedLearner(BaseEstModel):
         assert isinstance(data, pd.DataFrame)
 
         super().fit(data, outcome, treatment, **kwargs)
+        self._last_treat_control = None
+        self._n_rows = len(data)
 
         learners = {}
         if n_jobs in {0, 1}:
@@ -236,18 +238,20 @@ class PermutedLearner(BaseEstModel):
         else:
             treats = product(*[self.treats_[x] for x in treatment])
 
+        n_rows = self._n_rows if data is None else len(data)
+
         if n_jobs in {0, 1}:
             # estimate learners one by one
             effects = [_effect_nji(
                 self._get_learner(treat, control, silent=True),
-                data, self.outcome, self.treatment, treat, control, target_outcome)
+                data, n_rows, self.outcome, self.treatment, treat, control, target_outcome)
                 for treat in treats]
         else:
             # estimate learners with joblib
             job_options = self._get_job_options(n_jobs)
             effects = Parallel(**job_options)(delayed(_effect_nji)(
                 self._get_learner(treat, control, silent=True),
-                data, self.outcome, self.treatment, treat, control, target_outcome
+                data, n_rows, self.outcome, self.treatment, treat, control, target_outcome
             ) for treat in treats)
 
         effects = np.concatenate(effects, axis=2)
-- 
2.43.0


From ded08126916917ef17651745008dfcd3b556100d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 06/80] fix: policy tree, interpreters and uplift model do not
 answer after a failed refit

---
 ylearn/effect_interpreter/ce_interpreter.py     | 4 ++++
 ylearn/effect_interpreter/policy_interpreter.py | 2 ++
 ylearn/policy/policy_model.py                   | 3 +++
 ylearn/uplift/_model.py                         | 2 ++
 4 files changed, 11 insertions(+)

diff --git a/ylearn/effect_interpreter/ce_interpreter.py b/ylearn/effect_interpreter/ce_interpreter.py
index b7043f6..319cdbd 100644
--- a/ylearn/effect_interpreter/ce_interpreter.py
+++ b/ylearn/effect_interpreter/ce_interpreter.py
@@ -152,6 +152,8 @@ class CEInterpreter:
             est_model should be any valid estimator model of ylearn which was 
             already fitted and can estimate the CATE.
         """
+        self._is_fitted = False
+
         assert est_model._is_fitted
 
         self._est_model = est_model
@@ -275,6 +277,8 @@ class CEInterpreter:
         return self.predict(data)
 
     def predict(self, data):
+        assert self._is_fitted, 'The model is not fitted yet. Please use the fit method first.'
+
         data_t = self._transform_data(data)
         return self._tree_model.predict(data_t)
 
diff --git a/ylearn/effect_interpreter/policy_interpreter.py b/ylearn/effect_interpreter/policy_interpreter.py
index ceec2cf..09258cd 100644
--- a/ylearn/effect_interpreter/policy_interpreter.py
+++ b/ylearn/effect_interpreter/policy_interpreter.py
@@ -198,6 +198,8 @@ class PolicyInterpreter:
         """
         from ylearn.policy.policy_model import PolicyTree
 
+        self._is_fitted = False
+
         covariate = est_model.covariate if covariate is None else covariate
         # outcome = est_model.outcome
 
diff --git a/ylearn/policy/policy_model.py b/ylearn/policy/policy_model.py
index cee3c0b..a581a54 100644
--- a/ylearn/policy/policy_model.py
+++ b/ylearn/policy/policy_model.py
@@ -272,6 +272,9 @@ class PolicyTree:
         ----------
         instance of self
         """
+        self._is_fitted = False
+        self.__dict__.pop("cov_transformer", None)
+
         ce, v = convert2array(data, effect, covariate)
         self.covariate = covariate
 
diff --git a/ylearn/uplift/_model.py b/ylearn/uplift/_model.py
index 2130503..31ee615 100644
--- a/ylearn/uplift/_model.py
+++ b/ylearn/uplift/_model.py
@@ -20,6 +20,8 @@ class UpliftModel(object):
         self.random_ = None
 
     def fit(self, df_lift, outcome='y', treatment='x', true_effect=None, treat=1, control=0, random='RANDOM'):
+        self._is_fitted = False
+
         assert isinstance(df_lift, pd.DataFrame)
 
         # self.df_lift_ = df_lift
-- 
2.43.0


From 93ce0ee4e1e44bbd254723ad5ae0b17cc501d557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 07/80] fix: GRF tree criterion wrote past its work memory and
 read uninitialised coefficients

---
 .../_generalized_forest/tree/_util_lib.cpp                | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/tree/_util_lib.cpp b/ylearn/estimator_model/_generalized_forest/tree/_util_lib.cpp
index d73096c..84e66ea 100644
--- a/ylearn/estimator_model/_generalized_forest/tree/_util_lib.cpp
+++ b/ylearn/estimator_model/_generalized_forest/tree/_util_lib.cpp
@@ -87,7 +87,7 @@ int init_criterion( /* input */
         mem_size += n_node_samples * d_tr; // grad_coef
         mem_size += n_node_samples * d_y; // y_dif
         mem_size += n_node_samples * d_tr; // tr_dif
-        mem_size += n_node_samples * d_y; // y_node_cpy
+        mem_size += d_tr * d_y; // solution of the least squares problem
 
         double *mem_work = new double[mem_size];
         double *y_node = mem_work;
@@ -97,7 +97,7 @@ int init_criterion( /* input */
         double *grad_coef = f_grad + d_tr * d_tr;
         double *y_dif = grad_coef + n_node_samples * d_tr;
         double *tr_dif = y_dif + n_node_samples * d_y;
-        double *y_node_cpy = tr_dif + n_node_samples * d_tr;
+        double *ls_solution = tr_dif + n_node_samples * d_tr;
 
 
         int p, i, idx, k, k_tr, j_tr;
@@ -143,10 +143,10 @@ int init_criterion( /* input */
         }
 
         // 0: compute ls_coef
-        eigen_solve(n_node_samples, d_tr, d_y, tr_node, y_node, y_node_cpy);
+        eigen_solve(n_node_samples, d_tr, d_y, tr_node, y_node, ls_solution);
         for(k_tr=0; k_tr<d_tr; k_tr++){
             for(k=0; k<d_y; k++){
-                ls_coef[k_tr + k * d_tr] = y_node_cpy[k_tr + k * n_node_samples];
+                ls_coef[k_tr + k * d_tr] = ls_solution[k_tr + k * d_tr];
             }
         }
 
-- 
2.43.0


From 1a9fa1d503a73ea3306329bdc31e1763b846822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 08/80] fix: policy interpreter is marked fitted only after its
 treatment names are set

---
 ylearn/effect_interpreter/policy_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/effect_interpreter/policy_interpreter.py b/ylearn/effect_interpreter/policy_interpreter.py
index 09258cd..cfeaecd 100644
--- a/ylearn/effect_interpreter/policy_interpreter.py
+++ b/ylearn/effect_interpreter/policy_interpreter.py
@@ -236,8 +236,8 @@ class PolicyInterpreter:
             est_model=est_model
         )
 
-        self._is_fitted = True
         self.treatment_names_ = treatment_names
+        self._is_fitted = True
 
         return self
 
-- 
2.43.0


From 1e41df49b084a57f25621d4e2364415ad126321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 09/80] fix: forest apply calls the trees with the arguments
 they take

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index e8d58ec..94a79f6 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -356,7 +356,7 @@ class BaseCausalForest(BaseEstModel, BaseForest):
         """
         assert self._is_fitted, "The model is not fitted yet."
         results = Parallel(**self._job_options())(
-            delayed(tree.apply)(v, v, check_input=False) for tree in self.estimators_
+            delayed(tree.apply)(None, v) for tree in self.estimators_
         )
 
         return np.array(results).T
-- 
2.43.0


From 72016702eb87bbf32353e29caf814153c96c5952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 10/80] fix: Bayesian networks honour random_state=0

---
 ylearn/bayesian/_network.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index c285c5d..4518688 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -254,7 +254,7 @@ class BayesianNetwork(BObject):
         states = self.state_
         interventions = self.interventions
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         if data is not None:
@@ -287,7 +287,7 @@ class BayesianNetwork(BObject):
         states = self.state_
         model = self.model_
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         test_data = DataLoader(states).spread(data)
@@ -334,7 +334,7 @@ class BayesianNetwork(BObject):
                     num_samples=_DEFAULT_SAMPLE_NUMBER, proba=False, random_state=None):
         outcome = to_list(outcome, 'outcome')
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         if self.infer_ is not None:
@@ -369,7 +369,7 @@ class BayesianNetwork(BObject):
         treatment = to_list(treatment, 'treatment')
         outcome = to_list(outcome, 'outcome')
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         def default_treat_control(node):
@@ -455,7 +455,7 @@ class BayesianNetwork(BObject):
         treatment = to_list(treatment, 'treatment')
         outcome = to_list(outcome, 'outcome')
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         def default_treat_control(node):
@@ -590,7 +590,7 @@ class SviBayesianNetwork(BayesianNetwork):
         nodes = self.graph.get_nodes()
         assert set(columns) >= set(nodes)
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         loader = DataLoader(data=data)
@@ -648,7 +648,7 @@ class SviBayesianNetwork(BayesianNetwork):
            blanket='markov', epochs=100, lr=0.005, ce_loss=False,
            inplace=True, random_state=None, verbose=1):
         assert isinstance(intervention, dict) and len(intervention) > 0
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         obj = self._get_stub(inplace)
-- 
2.43.0


From 1127354dcf7ca9c9f9b2963b801b06fc32c3f734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 11/80] fix: queries of an intervened Bayesian network leave
 its fitted parameters alone

---
 ylearn/bayesian/_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 4518688..10c91de 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -265,7 +265,7 @@ class BayesianNetwork(BObject):
             data_t = DataLoader(states).spread(data)
         else:
             data_t = None
-        condition = self.fitted_params
+        condition = dict(self.fitted_params)
         interventions = self.interventions
         if len(interventions) > 0:
             states = self.state_
@@ -305,7 +305,7 @@ class BayesianNetwork(BObject):
         collector_creator = partial(self._create_collector, proba=proba)
         collectors = BCollectorList(outcome, collector_creator)
 
-        condition = self.fitted_params
+        condition = dict(self.fitted_params)
         interventions = self.interventions
         if len(interventions) > 0:
             interventions = {k: torch.tensor(states[k].encode(v)) for k, v in interventions.items()}
-- 
2.43.0


From 7c1d3f356e4777176d8d72b5f43e42c7fc12d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 12/80] fix: Bayesian networks give the caller's pyro
 parameters back on every failure

---
 ylearn/bayesian/_network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 10c91de..f0c81f0 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -51,10 +51,10 @@ def with_pyro_ps(fn, check_fitted=True):
 
             store = pyro.get_param_store()
             old_state = store.get_state()
-            store.clear()
-            if param_state is not None:
-                store.set_state(param_state)
             try:
+                store.clear()
+                if param_state is not None:
+                    store.set_state(param_state)
                 return fn(obj, *args, **kwargs)
             finally:
                 store.clear()
-- 
2.43.0


From 5907270ae6bacafd8e1b8af0c04184724dd3d96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 13/80] fix: an intervention that fails leaves the Bayesian
 network as it was

---
 ylearn/bayesian/_network.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index f0c81f0..5d4cd01 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -653,7 +653,7 @@ class SviBayesianNetwork(BayesianNetwork):
 
         obj = self._get_stub(inplace)
 
-        intervention_ = obj.interventions_ if obj.interventions_ else {}
+        intervention_ = dict(obj.interventions_) if obj.interventions_ else {}
         intervention_.update(intervention)
 
         intervention_encoded = {k: self.state_[k].encode(v) for k, v in intervention_.items()}
@@ -701,9 +701,10 @@ class SviBayesianNetwork(BayesianNetwork):
         # cmp_params(obj.params_, params)
         # print('>' * 50)
 
+        pyro_param_state = _get_pyro_params()
         obj.interventions_ = intervention_
         obj.params_ = params
-        obj.pyro_param_state_ = _get_pyro_params()
+        obj.pyro_param_state_ = pyro_param_state
 
         return obj
 
-- 
2.43.0


From 43a9ef942cd88f1277561bda0f6cc6b020c9216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 14/80] fix: sample collectors do not add into the first sample

---
 ylearn/bayesian/_collectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/bayesian/_collectors.py b/ylearn/bayesian/_collectors.py
index 85efc43..c105796 100644
--- a/ylearn/bayesian/_collectors.py
+++ b/ylearn/bayesian/_collectors.py
@@ -15,7 +15,7 @@ class NumberSampleCollector(_base.BCollector):
         if self.value is None:
             self.value = value
         else:
-            self.value += value
+            self.value = self.value + value
         self.n_sample += 1
 
     def to(self, result):
@@ -37,7 +37,7 @@ class CategorySampleCollector(_base.BCollector):
         if self.value is None:
             self.value = value
         else:
-            self.value += value
+            self.value = self.value + value
         self.n_sample += 1
 
     def to(self, result):
-- 
2.43.0


From 92c6323b6a3e39499c21023e5bd5a94d3f910088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 15/80] fix: refitting a Bayesian network forgets earlier
 interventions

---
 ylearn/bayesian/_network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 5d4cd01..a09627f 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -634,12 +634,14 @@ class SviBayesianNetwork(BayesianNetwork):
 
         with torch.no_grad():
             params = {k: v.detach() for k, v in guide(data_t).items()}
+        pyro_param_state = _get_pyro_params()
         obj = self._get_stub(inplace)
         obj.state_ = state
         obj.model_ = model
         obj.params_ = params
         obj.guide_ = guide
-        obj.pyro_param_state_ = _get_pyro_params()
+        obj.pyro_param_state_ = pyro_param_state
+        obj.interventions_ = None
 
         return obj
 
-- 
2.43.0


From d66ee37ff169bcf48abf9b2c25064357c2e2ce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 16/80] fix: generated Bayesian modules keep the options they
 were asked for

---
 ylearn/bayesian/_modules.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ylearn/bayesian/_modules.py b/ylearn/bayesian/_modules.py
index 7859fa3..4e6126b 100644
--- a/ylearn/bayesian/_modules.py
+++ b/ylearn/bayesian/_modules.py
@@ -281,8 +281,9 @@ class _MiModuleMeta(type):
 
         cls_cache = _MiModuleMeta.__cls_cache
         cls_name = f'{fn_cls.__name__}{mod_cls.__name__}'
-        if cls_name in cls_cache.keys():
-            return cls_cache[cls_name]
+        cls_key = mod_cls, fn_cls, repr(sorted(fn_options.items()))
+        if cls_key in cls_cache.keys():
+            return cls_cache[cls_key]
 
         class Stub(mod_cls):
             def __init__(self, *args, **kwargs):
@@ -315,7 +316,7 @@ class _MiModuleMeta(type):
                 return _MiModuleMeta._new_obj, (mod_cls, fn_cls, fn_options), state
 
         Stub.__name__ = cls_name
-        cls_cache[cls_name] = Stub
+        cls_cache[cls_key] = Stub
         return Stub
 
     @staticmethod
-- 
2.43.0


From 68e920919bda7986397d2dff2673759219aeeaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 17/80] fix: get_logger leaves the process-wide logger class
 alone

---
 ylearn/utils/logging.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ylearn/utils/logging.py b/ylearn/utils/logging.py
index 16fa7ca..22e7e50 100644
--- a/ylearn/utils/logging.py
+++ b/ylearn/utils/logging.py
@@ -224,13 +224,16 @@ class CustomizedLogger(_logging.Logger):
         return level >= self.getEffectiveLevel()
 
 
-def get_logger(name):
-    original_logger_class = _logging.getLoggerClass()
-    _logging.setLoggerClass(CustomizedLogger)
-    logger = _logging.getLogger(name)
-    _logging.setLoggerClass(original_logger_class)
+# creates our loggers without touching the process-wide logger class
+_manager = _logging.Manager(_logging.root)
+_manager.loggerDict = _logging.Logger.manager.loggerDict
+_manager.setLoggerClass(CustomizedLogger)
+
 
-    return logger
+def get_logger(name):
+    if not name:
+        return _logging.getLogger(name)
+    return _manager.getLogger(name)
 
 
 # compatible with pylog
-- 
2.43.0


From 59509ba6dda700d7368f31dd6a1b95b4f400ac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 18/80] fix: tic_toc counts every call of every thread, under
 any name

---
 ylearn/utils/_tic_tok.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ylearn/utils/_tic_tok.py b/ylearn/utils/_tic_tok.py
index f537e47..5d50909 100644
--- a/ylearn/utils/_tic_tok.py
+++ b/ylearn/utils/_tic_tok.py
@@ -1,5 +1,6 @@
 import inspect
 import sys as _sys
+import threading
 import time
 from collections import defaultdict
 from functools import partial
@@ -16,6 +17,7 @@ _TIC_TOC_NAME_SUFFIX = '@'
 
 _stat_call_counter = defaultdict(int)
 _stat_second_counter = defaultdict(int)
+_stat_lock = threading.Lock()
 
 _logger_find_caller = partial(logging._logger_find_caller, caller_offset=logging._logger_caller_offset + 1)
 
@@ -62,6 +64,10 @@ def _tic_toc_decorate(log_level, name, details, fn):
             toc = time.time()
             elapsed = toc - tic
 
+            with _stat_lock:
+                _stat_call_counter[logger_name] += 1
+                _stat_second_counter[logger_name] += elapsed
+
             if logger.is_enabled_for(log_level):
                 msg = f'elapsed {elapsed:.3f} seconds'
                 if details and (len(args) > 0 or len(kwargs) > 0):
@@ -72,9 +78,6 @@ def _tic_toc_decorate(log_level, name, details, fn):
 
                 logger.log(log_level, msg)
 
-            _stat_call_counter[logger_name] += 1
-            _stat_second_counter[logger_name] += elapsed
-
     setattr(tic_toc_call, _TIC_TOC_TAG, fn)
 
     return tic_toc_call
@@ -154,10 +157,13 @@ def load_cfg(cfg: TicTocCfg):
 
 def report():
     r = {}
-    for k, count in _stat_call_counter.items():
-        seconds = _stat_second_counter[k]
+    with _stat_lock:
+        stats = [(k, count, _stat_second_counter[k]) for k, count in _stat_call_counter.items()]
+    for k, count, seconds in stats:
         # name = k.lstrip(_TIC_TOC_NAME_PREFIX).rstrip(_TIC_TOC_NAME_SUFFIX)
-        name = k[len(_TIC_TOC_NAME_PREFIX):-len(_TIC_TOC_NAME_SUFFIX)]
+        name = k
+        if name.startswith(_TIC_TOC_NAME_PREFIX):
+            name = name[len(_TIC_TOC_NAME_PREFIX):-len(_TIC_TOC_NAME_SUFFIX)]
         r[name] = (count, seconds, seconds / count)
 
     return r
-- 
2.43.0


From 474d244bc026453bc1f1312d763597c403b63f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 19/80] fix: tic_toc logging neither raises nor consumes the
 arguments of the call

---
 ylearn/utils/_tic_tok.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ylearn/utils/_tic_tok.py b/ylearn/utils/_tic_tok.py
index 5d50909..c5c3083 100644
--- a/ylearn/utils/_tic_tok.py
+++ b/ylearn/utils/_tic_tok.py
@@ -71,10 +71,13 @@ def _tic_toc_decorate(log_level, name, details, fn):
             if logger.is_enabled_for(log_level):
                 msg = f'elapsed {elapsed:.3f} seconds'
                 if details and (len(args) > 0 or len(kwargs) > 0):
-                    ba = fn_sig.bind(*args, **kwargs)
-                    args = [f'<{k}>' if k == 'self' else f'{k}={_format_value(v)}'
-                            for k, v in ba.arguments.items()]
-                    msg += f', details:\t{", ".join(args)}'
+                    try:
+                        ba = fn_sig.bind(*args, **kwargs)
+                        args = [f'<{k}>' if k == 'self' else f'{k}={_format_value(v)}'
+                                for k, v in ba.arguments.items()]
+                        msg += f', details:\t{", ".join(args)}'
+                    except Exception as e:
+                        msg += f', details not available: {type(e).__name__}'
 
                 logger.log(log_level, msg)
 
@@ -107,7 +110,7 @@ def _format_value(v, expand_collection=True):
             if len(r) >= _COLLECTION_LIMIT:
                 r['...'] = '...'
                 break
-    elif hasattr(v, '__iter__') and expand_collection:
+    elif hasattr(v, '__iter__') and not hasattr(v, '__next__') and expand_collection:
         r = []
         for e in v:
             r.append(_format_value(e, False))
-- 
2.43.0


From af943490dbcc326fa5787ad7c001ab752f4702d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 20/80] fix: set_random_state does not swallow an interrupt and
 leave torch unseeded

---
 ylearn/utils/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/utils/_common.py b/ylearn/utils/_common.py
index d27fd50..c980cb9 100644
--- a/ylearn/utils/_common.py
+++ b/ylearn/utils/_common.py
@@ -25,7 +25,7 @@ def set_random_state(random_state):
         try:
             import torch
             torch.random.manual_seed(seed)
-        except:
+        except ImportError:
             pass
 
 
-- 
2.43.0


From 2ac6e36533de0712a0adac6b52d3f3d071c9bb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 21/80] fix: refitting a Bayesian network does not start from
 the parameters of the previous fit

---
 ylearn/bayesian/_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index a09627f..f07b2ab 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -45,7 +45,8 @@ def with_pyro_ps(fn, check_fitted=True):
             assert getattr(obj, '_is_fitted', None) is True, f'{type(obj).__name__} is not fitted.'
 
         if resume_param_state:
-            param_state = getattr(obj, 'pyro_param_state', None)
+            # a fit starts from scratch, only a fitted network resumes its own parameters
+            param_state = getattr(obj, 'pyro_param_state', None) if check_fitted else None
             # with pyro.get_param_store().scope(param_state):
             #     return fn(obj, *args, **kwargs)
 
-- 
2.43.0


From 0ea3a3c79b9c5fd9e897044ae9de560ee50b7f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 22/80] fix: fitting a Bayesian network leaves the given graph
 alone

---
 ylearn/bayesian/_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index f07b2ab..e17b65e 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -559,12 +559,13 @@ class BayesianNetwork(BObject):
             return _collectors.NumberSampleCollector(name, state)
 
     def _update_graph_shape(self, ):
-        graph = self.graph
+        graph = deepcopy(self.graph)  # the graph may belong to the caller or to another network
         states = self.state_
 
         for node in graph.get_nodes():
             state = states[node]
             graph.nodes[node]['shape'] = 'box' if isinstance(state, CategoryNodeState) else 'ellipse'
+        self.graph = graph
 
     def plot(self, width=None, height=None, **kwargs):
         assert is_notebook(), f'Plot can only be displayed on notebook.'
-- 
2.43.0


From 52e952c3e491fe822de574a6b7c1a929a00bc501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 23/80] fix: causal graphs work without the removed
 networkx.to_numpy_matrix

---
 ylearn/causal_model/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 00e6820..61904d0 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -150,8 +150,8 @@ class CausalGraph:
         list
 
         """
-        W = nx.to_numpy_matrix(self.dag)
-        a, w_t = np.where(W >= 1), W.T.A
+        W = nx.to_numpy_array(self.dag)
+        a, w_t = np.where(W >= 1), W.T
         arcs, nodes = [], list(self.dag.nodes)
         for row, col in zip(a[0], a[1]):
             if w_t[row][col] >= 1 and (nodes[col], nodes[row]) not in arcs:
@@ -168,7 +168,7 @@ class CausalGraph:
     def to_adj_matrix(self):
         """Return the adjacency matrix.
         """
-        W = nx.to_numpy_matrix(self.dag)
+        W = np.asmatrix(nx.to_numpy_array(self.dag))
         return W
 
     # def to_adj_list(self):
-- 
2.43.0


From 7becb40a557d15d2e7185683348b5e9ed2302fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 24/80] fix: a causal graph does not share its edges with the
 caller

---
 ylearn/causal_model/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 61904d0..4d9ae81 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -119,9 +119,9 @@ class CausalGraph:
             where U is an unobserved confounder of X and Y, can be converted
             equivalently to X <-->Y where <--> is a latent confounding arc.
         """
-        self.causation = defaultdict(list, causation)
+        self.causation = defaultdict(list, {k: list(v) for k, v in causation.items()})
         self.ava_nodes = self.causation.keys()
-        self.dag = self.observed_dag.copy() if dag is None else dag
+        self.dag = self.observed_dag.copy() if dag is None else dag.copy()
 
         # add unobserved bidirected confounding arcs to the graph, with the
         # letter 'n' representing that the edge is unobserved
@@ -268,7 +268,7 @@ class CausalGraph:
             Parents of the node x in the graph
         """
         if only_observed:
-            return self.causation[x]
+            return list(self.causation.get(x, []))
         else:
             return list(self.explicit_unob_var_dag.predecessors(x))
 
-- 
2.43.0


From 8a24c086525d4490063f49293e65da76bab08f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 25/80] fix: nodes without edges are part of the observed
 causal graph

---
 ylearn/causal_model/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 4d9ae81..6794d97 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -287,6 +287,7 @@ class CausalGraph:
             for para in v:
                 edges.append((para, k, 0))
         ob_dag = nx.MultiDiGraph()
+        ob_dag.add_nodes_from(self.causation)
         ob_dag.add_edges_from(edges)
         return ob_dag
 
-- 
2.43.0


From 0e3d1a310c42edeb162c07cead88105b9cee9dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 26/80] fix: CausalGraph.add_nodes registers the new nodes

---
 ylearn/causal_model/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 6794d97..09946f8 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -334,7 +334,7 @@ class CausalGraph:
         ----------
         CausalGraph
         """
-        ori_nodes = self.dag.nodes
+        ori_nodes = set(self.dag.nodes)
 
         if not new:
             self.dag.add_nodes_from(nodes)
-- 
2.43.0


From acea179fe51e27749309836c2a7169205f7782b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 27/80] fix: adding edges to a causal graph is the same in
 place and in a new graph

---
 ylearn/causal_model/graph.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 09946f8..fd8b5c7 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -369,8 +369,7 @@ class CausalGraph:
         if not new:
             if observed:
                 for edge in edge_list:
-                    self.causation[edge[1]].append(edge[0])
-                    self.dag.add_edge(edge[0], edge[1], 0)
+                    self._add_observed_edge(self.causation, self.dag, edge[0], edge[1])
             else:
                 for edge in edge_list:
                     self.dag.add_edges_from(
@@ -380,9 +379,8 @@ class CausalGraph:
             new_dag = deepcopy(self.dag)
             new_causation = deepcopy(self.causation)
             if observed:
-                new_dag.add_edges_from(edge_list)
                 for edge in edge_list:
-                    new_causation[edge[1]].append(edge[0])
+                    self._add_observed_edge(new_causation, new_dag, edge[0], edge[1])
             else:
                 for edge in edge_list:
                     new_dag.add_edges_from(
@@ -407,10 +405,17 @@ class CausalGraph:
             Add an unobserved latent confounding arc if False.
         """
         if observed:
-            self.dag.add_edge(s, t, 0)
-            self.causation[t].append(s)
+            self._add_observed_edge(self.causation, self.dag, s, t)
         else:
-            self.dag.add_edge(s, t, 'n')
+            self.dag.add_edges_from([(s, t, 'n'), (t, s, 'n')])
+
+    @staticmethod
+    def _add_observed_edge(causation, dag, s, t):
+        dag.add_edge(s, t, 0)
+        for node in (s, t):
+            causation.setdefault(node, [])
+        if s not in causation[t]:
+            causation[t].append(s)
 
     def remove_nodes(self, nodes, new=False):
         """
-- 
2.43.0


From 09972f8e5e1256c44f781a599b98b7dabbb3ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 28/80] fix: causal graphs can be copied and pickled

---
 ylearn/causal_model/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index fd8b5c7..34df877 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -120,7 +120,6 @@ class CausalGraph:
             equivalently to X <-->Y where <--> is a latent confounding arc.
         """
         self.causation = defaultdict(list, {k: list(v) for k, v in causation.items()})
-        self.ava_nodes = self.causation.keys()
         self.dag = self.observed_dag.copy() if dag is None else dag.copy()
 
         # add unobserved bidirected confounding arcs to the graph, with the
@@ -131,6 +130,10 @@ class CausalGraph:
                     [(edge[0], edge[1], 'n'), (edge[1], edge[0], 'n')]
                 )
 
+    @property
+    def ava_nodes(self):
+        return self.causation.keys()
+
     @property
     def prob(self):
         """The encoded probability distribution.
-- 
2.43.0


From d227f39ab6ce5645f9c540ad2713d686934c3911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 29/80] fix: unobserved variables do not take the name of an
 observed node

---
 ylearn/causal_model/graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 34df877..983a0b1 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -305,9 +305,10 @@ class CausalGraph:
         """
         new_dag = self.observed_dag
         for i, (node1, node2) in enumerate(self.latent_confounding_arcs):
-            new_dag.add_edges_from(
-                [(f'U{i}', node1, 'n'), (f'U{i}', node2, 'n')]
-            )
+            u = f'U{i}'
+            while u in self.dag:  # an observed node may have this name
+                u += '_'
+            new_dag.add_edges_from([(u, node1, 'n'), (u, node2, 'n')])
         return new_dag
 
     @property
-- 
2.43.0


From 882601cba9568a794716f9c5835a2e0386ec1691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 30/80] fix: identification accepts names of more than one
 letter and leaves the given sets alone

---
 ylearn/causal_model/model.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index f1018b1..995b1ba 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -165,7 +165,8 @@ class CausalModel:
         v = set(graph.causation.keys())
         v_topo = list(graph.topo_order)
 
-        y, x = set(y), set(x)
+        y = {y} if isinstance(y, str) else set(y)
+        x = {x} if isinstance(x, str) else set(x)
 
         # 1
         if not x:
@@ -813,7 +814,7 @@ class CausalModel:
             of treatments on outcomes.
         """
         ava_nodes = self.causal_graph.causation.keys()
-        check_nodes(ava_nodes, set_, set(treatment), set(outcome))
+        check_nodes(ava_nodes, set_, treatment, outcome)
 
         # rule 1, intercept all directed paths from treatment to outcome
         for path in nx.all_simple_paths(
@@ -850,14 +851,15 @@ class CausalModel:
             2 elements (adjustment_set, Prob)
         """
         ava_nodes = self.causal_graph.causation.keys()
-        check_nodes(ava_nodes, set(treatment), set(outcome))
+        check_nodes(ava_nodes, treatment, outcome)
 
-        if type(treatment) is set and type(outcome) is set:
-            assert (
-                len(treatment) == 1 and len(outcome) == 1
-            ), "Treatment and outcome should be sets which contain one"
+        treatment = {treatment} if isinstance(treatment, str) else treatment
+        outcome = {outcome} if isinstance(outcome, str) else outcome
+        assert len(treatment) == 1 and len(outcome) == 1, (
+            "Treatment and outcome should be sets which contain one "
             "element for frontdoor adjustment."
-            treatment, outcome = treatment.pop(), outcome.pop()
+        )
+        treatment, outcome = next(iter(treatment)), next(iter(outcome))
 
         # Find the initial set which will then be used to generate all
         # possible frontdoor sets with the method powerset()
-- 
2.43.0


From 128a637b651118f93990fbc453d94f21880eb72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 31/80] fix: which adjustment set is returned does not depend
 on the string hash seed

---
 ylearn/causal_model/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 995b1ba..3a7a1e4 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -647,6 +647,9 @@ class CausalModel:
                 des_set.update(nx.descendants(self.causal_graph.observed_dag, t))
             initial_set = set(list(ava_nodes)) - treatment - outcome - des_set
 
+            # the order of a set of strings differs from process to process
+            initial_set = sorted(initial_set, key=str)
+
             if adjust == "minimal":
                 # return the backdoor set which has the fewest number of elements
                 for i in powerset(initial_set):
@@ -868,7 +871,7 @@ class CausalModel:
             self.causal_graph.observed_dag, treatment, outcome
         ):
             initial_set.update(set(path))
-        initial_set = initial_set - {treatment} - {outcome}
+        initial_set = sorted(initial_set - {treatment} - {outcome}, key=str)
         potential_set = powerset(initial_set)
 
         # Different frontdoor set styles.
-- 
2.43.0


From be89f0bb01950541da4df663db31f3c3deece1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 32/80] fix: get_backdoor_set returns sets that satisfy the
 backdoor criterion, whenever there are any

---
 ylearn/causal_model/model.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 3a7a1e4..027a8e7 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -620,35 +620,39 @@ class CausalModel:
             treatment, new=True
         ).explicit_unob_var_dag
 
-        def determine(modified_dag, treatment, outcome):
-            if all([self.causal_graph.causation[t] == [] for t in treatment]):
-                return nx.d_separated(modified_dag, treatment, outcome, set())
-            return True
+        # If any set satisfies the backdoor criterion, then so do the admissible
+        # ancestors of the treatment and the outcome.
+        admissible = set(ava_nodes) - outcome
+        admissible -= self.causal_graph.descendents(treatment)
+        ancestors = self.causal_graph.ancestors(treatment | outcome) & admissible
 
-        # raise exception if no set can be used as the backdoor set
-        if not determine(modified_dag, treatment, outcome):
+        if not nx.d_separated(modified_dag, treatment, outcome, ancestors):
             print("No set can satisfy the backdoor criterion.")
 
             return None
 
-        # Simply take all parents of both treatment and outcome as the backdoor set
+        # Simply take all parents of the treatment as the backdoor set. Where they
+        # do not satisfy the criterion, e.g., because of unobserved confounders or
+        # of several treatments, take the admissible ancestors.
         if adjust == "simple":
-            # TODO: if the parent of x_i is the descendent of another x_j
             backdoor_list = []
-            for t in treatment:
-                backdoor_list += self.causal_graph.causation[t]
+            for t in sorted(treatment, key=str):
+                for p in self.causal_graph.causation[t]:
+                    if p not in treatment and p not in backdoor_list:
+                        backdoor_list.append(p)
+            if not admissible.issuperset(backdoor_list) or not nx.d_separated(
+                modified_dag, treatment, outcome, set(backdoor_list)
+            ):
+                backdoor_list = sorted(ancestors, key=str)
             adset = set(backdoor_list)
         # use other methods
         else:
             # Get all backdoor sets. currently implenmented
             # in a brutal force manner. NEED IMPROVEMENT
-            des_set, backdoor_set_list = set(), []
-            for t in treatment:
-                des_set.update(nx.descendants(self.causal_graph.observed_dag, t))
-            initial_set = set(list(ava_nodes)) - treatment - outcome - des_set
+            backdoor_set_list = []
 
             # the order of a set of strings differs from process to process
-            initial_set = sorted(initial_set, key=str)
+            initial_set = sorted(admissible, key=str)
 
             if adjust == "minimal":
                 # return the backdoor set which has the fewest number of elements
-- 
2.43.0


From bc51e3384214bac325a37a68cbc02b2bc241fae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 33/80] fix: is_valid_backdoor_set rejects descendants of the
 treatment

---
 ylearn/causal_model/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 027a8e7..a5ea366 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -567,6 +567,10 @@ class CausalModel:
         ava_nodes = self.causal_graph.causation.keys()
         check_nodes(ava_nodes, treatment, outcome, set_)
 
+        # the criterion excludes descendants of the treatment
+        if not self.causal_graph.descendents(treatment).isdisjoint(set_):
+            return False
+
         # build the causal graph with unobserved variables explicit
         modified_dag = self.causal_graph.remove_outgoing_edges(
             treatment, new=True
-- 
2.43.0


From 674a4f3b513419f0e09da3a7a9158b90ec94a6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 34/80] fix: get_iv does not return the outcome or its
 descendants as instruments

---
 ylearn/causal_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index a5ea366..d4db03b 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -951,7 +951,7 @@ class CausalModel:
         # the treatment in the modified graph are excluded to be valid instruments
         exp_unob_graph = self.causal_graph.explicit_unob_var_dag
         modified_graph = remove_ingo_edges(exp_unob_graph, True, treatment)
-        excluded_nodes_an = nx.ancestors(modified_graph, outcome)
+        excluded_nodes_an = nx.ancestors(modified_graph, outcome) | {outcome}
         waited_instrument.difference_update(excluded_nodes_an)
 
         # We also should not count on descendents of ancestors of the outcome which
-- 
2.43.0


From 3a40f6f03887551e8e60e0d0fb0d38f8383fc38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 35/80] fix: has_collider does not see a collider in a directed
 path to the treatment

---
 ylearn/causal_model/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index d4db03b..54de71b 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -769,6 +769,9 @@ class CausalModel:
                             return False
                         j = i
                         break
+                else:
+                    # all edges point to the start of the path
+                    return False
                 for i, node in enumerate(path[j + 1 :], j + 1):
                     if node in dag.predecessors(path[i - 1]):
                         return True
-- 
2.43.0


From 5e39e68eb12519d04e7910df06819a4e34fe8ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:33 +0000
Subject: [PATCH 36/80] fix: id leaves the given distribution alone

---
 ylearn/causal_model/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 54de71b..3e9deb4 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -170,6 +170,7 @@ class CausalModel:
 
         # 1
         if not x:
+            prob = deepcopy(prob)
             if prob.divisor or prob.product:
                 prob.marginal = v.difference(y).union(prob.marginal)
             else:
-- 
2.43.0


From 741aaf5b26c610d3e09596cd150d0feaf4e04a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:33 +0000
Subject: [PATCH 37/80] fix: identified expressions condition the distribution
 of the current subproblem

---
 ylearn/causal_model/model.py | 24 ++++++++++++++++++------
 ylearn/causal_model/prob.py  |  8 +++++++-
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 3e9deb4..1776234 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -219,9 +219,8 @@ class CausalModel:
                 product_expression = set()
                 for element in s:
                     product_expression.add(
-                        Prob(
-                            variables={element},
-                            conditional=set(v_topo[: v_topo.index(element)]),
+                        self._conditional(
+                            prob, element, v, v_topo[: v_topo.index(element)]
                         )
                     )
                 return Prob(marginal=s.difference(y), product=product_expression)
@@ -235,15 +234,28 @@ class CausalModel:
                         product_expressioin = set()
                         for element in subset:
                             product_expressioin.add(
-                                Prob(
-                                    variables={element},
-                                    conditional=set(v_topo[: v_topo.index(element)]),
+                                self._conditional(
+                                    prob, element, v, v_topo[: v_topo.index(element)]
                                 )
                             )
                         sub_prob = Prob(product=product_expressioin)
                         sub_graph = graph.build_sub_graph(subset)
                         return self.id(y, x.intersection(subset), sub_prob, sub_graph)
 
+    @staticmethod
+    def _conditional(prob, element, v, given):
+        """Probability of element conditional on given, derived from the
+        distribution prob of the variables v.
+        """
+        given = set(given)
+        if not (prob.divisor or prob.product):
+            return Prob(variables={element}, conditional=given)
+
+        joint, norm = deepcopy(prob), deepcopy(prob)
+        joint.marginal = (v - given - {element}).union(prob.marginal)
+        norm.marginal = (v - given).union(prob.marginal)
+        return Prob(product={joint}, divisor={norm})
+
     def identify(self, treatment, outcome, identify_method="auto"):
         """Identify the causal effect expression. Identification is an operation that
         converts any causal effect quantity, e.g., quantities with the do operator, into
diff --git a/ylearn/causal_model/prob.py b/ylearn/causal_model/prob.py
index 775d2ad..c02c021 100644
--- a/ylearn/causal_model/prob.py
+++ b/ylearn/causal_model/prob.py
@@ -17,7 +17,8 @@ class Prob:
         The conditional set (y in the above example).
     
     divisor : set
-        Not defined yet.
+        Set of Prob by which the probability is divided, before summing over the
+        marginal set.
     
     marginal : set
         The sum set (w in the above example) for marginalizing the probability.
@@ -96,6 +97,11 @@ class Prob:
             for p in self.product:
                 expression = expression + '\\left[' + p.parse() + '\\right]'
 
+        # Find the divisors, -> [prod] / [divisor]
+        if self.divisor:
+            for p in self.divisor:
+                expression = expression + '/\\left[' + p.parse() + '\\right]'
+
         return expression
 
     def show_latex_expression(self):
-- 
2.43.0


From 10f15c99049a6edd7dd8fdcb39840cd4c427bbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:33 +0000
Subject: [PATCH 38/80] fix: CausalModel.estimate adjusts for the treatment and
 outcome it estimates

---
 ylearn/causal_model/model.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 1776234..be0e8c2 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -309,6 +309,7 @@ class CausalModel:
 
         self.treatment = treatment
         self.outcome = outcome
+        self._adjustment_set = None
 
         if identify_method == "auto":
             result_dict = {
@@ -332,6 +333,8 @@ class CausalModel:
             adjustment = self.get_backdoor_set(
                 treatment, outcome, adjust=identify_method[1]
             )
+            if adjustment is not None and identify_method[1] != "simple":
+                self._adjustment_set = adjustment[0]
             self.cached_result[f"Treatment: {treatment}, Outcome: {outcome}"].append(
                 {identify_method[0]: adjustment}
             )
@@ -411,12 +414,14 @@ class CausalModel:
 
         # make sure the adjustment and the covariate are valid backdoor adjustment sets
         if adjustment is None and covariate is None:
-            if self._adjustment_set is None:
-                adjustment = self.get_backdoor_set(
-                    self.treatment, self.outcome, "simple"
-                )[0]
+            if (
+                self._adjustment_set is None
+                or treatment != self.treatment
+                or outcome != self.outcome
+            ):
+                adjustment = self.get_backdoor_set(treatment, outcome, "simple")[0]
             else:
-                adjustment = self._adjustment_set[0]
+                adjustment = sorted(self._adjustment_set[0], key=str)
         else:
             if adjustment is not None and covariate is not None:
                 temp_set = set(adjustment).union(set(covariate))
@@ -425,7 +430,7 @@ class CausalModel:
                 temp_set = temp_set.pop()
 
             assert self.is_valid_backdoor_set(
-                temp_set, self.treatment, self.outcome
+                temp_set, treatment, outcome
             ), "The adjustment set should be a valid backdoor adjustment set,"
             f"but was given {temp_set}."
 
@@ -698,7 +703,6 @@ class CausalModel:
 
             if any((adjust == "all", adjust == "minimal")):
                 backdoor_list = backdoor_set_list
-                self._adjustment_set = backdoor_set_list
             else:
                 raise IdentificationError(
                     "Do not support backdoor set styles other than simple, all"
-- 
2.43.0


From bfbe41b775abe50adca7e550c4515f476aba4c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:33 +0000
Subject: [PATCH 39/80] fix: estimate_hidden_cofounder leaves the given data
 alone

---
 ylearn/causal_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index be0e8c2..c266cdd 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -1044,7 +1044,7 @@ class CausalModel:
 
             key_ = "estimate_" + hidden_ancestors[0].lower()
             nodes_ = nx.descendants(full_dag, hidden_ancestors[0])
-            self.data[key_] = target - predict
+            self.data = self.data.assign(**{key_: target - predict})
             modified_nodes = list(nodes_)
 
             edge_list_del = []
-- 
2.43.0


From 2f8de63415c670cc76c103b5e525f6f3e2671a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 40/80] fix: matrix2array/matrix2df lost or reversed the edges
 below the diagonal of an ndarray

---
 ylearn/causal_discovery/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_discovery/_base.py b/ylearn/causal_discovery/_base.py
index c1bef28..6bce99f 100644
--- a/ylearn/causal_discovery/_base.py
+++ b/ylearn/causal_discovery/_base.py
@@ -89,7 +89,7 @@ class BaseDiscovery:
                     vt = matrix.iloc[col, row]
                 else:
                     v = matrix[row, col]
-                    vt = matrix[row, col]
+                    vt = matrix[col, row]
                 if abs(v) >= abs(vt):
                     r.append([row, col, v])
                 else:
-- 
2.43.0


From b9b198d0faf78eb4adf0a8167793c01e08540ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 41/80] fix: matrix2dict listed all ancestors as parents and
 did not accept the threshold its callers pass

---
 ylearn/causal_discovery/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_discovery/_base.py b/ylearn/causal_discovery/_base.py
index 6bce99f..36368a1 100644
--- a/ylearn/causal_discovery/_base.py
+++ b/ylearn/causal_discovery/_base.py
@@ -39,7 +39,7 @@ class BaseDiscovery:
         return nx.to_numpy_array(g)
 
     @staticmethod
-    def matrix2dict(matrix, names=None, depth=None):
+    def matrix2dict(matrix, names=None, depth=1, threshold=None):
         assert isinstance(matrix, (np.ndarray, pd.DataFrame))
         assert matrix.ndim == 2 and matrix.shape[0] == matrix.shape[1]
         assert names is None or len(names) == matrix.shape[0]
@@ -56,6 +56,9 @@ class BaseDiscovery:
         if isinstance(matrix, pd.DataFrame):
             matrix = matrix.values
 
+        if threshold is not None:
+            matrix = np.where(np.abs(matrix) < threshold, 0, matrix)
+
         g = nx.from_numpy_array(matrix, create_using=nx.DiGraph).reverse()
 
         d = OrderedDict()
-- 
2.43.0


From a0c8680eb490dcef74ca5fb556b284424548f68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 42/80] fix: GCastleProxy returned graphs with cycles

---
 ylearn/causal_discovery/_proxy_gcastle.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_discovery/_proxy_gcastle.py b/ylearn/causal_discovery/_proxy_gcastle.py
index b4ee6a1..2c8c1f0 100644
--- a/ylearn/causal_discovery/_proxy_gcastle.py
+++ b/ylearn/causal_discovery/_proxy_gcastle.py
@@ -60,7 +60,7 @@ class GCastleProxy(BaseDiscovery):
         learner = self._create_learner()
         logger.info(f'discovery causation with {type(learner).__name__}')
         learner.learn(data)
-        matrix = learner.causal_matrix
+        matrix = self._to_dag(np.array(learner.causal_matrix, dtype=float))
 
         if columns is not None:
             matrix = pd.DataFrame(matrix, columns=columns, index=columns)
@@ -71,3 +71,16 @@ class GCastleProxy(BaseDiscovery):
             result = matrix
 
         return result
+
+    @staticmethod
+    def _to_dag(matrix):
+        # some learners leave edges undirected, i.e. give them in both directions
+        for i in range(matrix.shape[0]):
+            for c in range(i + 1, matrix.shape[0]):
+                if abs(matrix[i, c]) < abs(matrix[c, i]):
+                    matrix[i, c] = 0.
+                else:
+                    matrix[c, i] = 0.
+            matrix[i, i] = 0.
+
+        return BaseDiscovery.trim_cycle(matrix)
-- 
2.43.0


From 81be203671ecdd6d9199ce0d809dd04bbcce8f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 43/80] fix: PgmProxy returned the matrix in another column
 order than the data

---
 ylearn/causal_discovery/_proxy_pgm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_discovery/_proxy_pgm.py b/ylearn/causal_discovery/_proxy_pgm.py
index 44d1cc1..d25b649 100644
--- a/ylearn/causal_discovery/_proxy_pgm.py
+++ b/ylearn/causal_discovery/_proxy_pgm.py
@@ -68,7 +68,7 @@ class PgmProxy(BaseDiscovery):
                                       columns=nodes, index=nodes)
         matrix_full = pd.DataFrame(np.zeros((df.shape[1], df.shape[1])),
                                    columns=columns, index=columns)
-        matrix_full = (matrix_full + matrix_learned).fillna(0.0)
+        matrix_full = (matrix_full + matrix_learned).fillna(0.0).loc[columns, columns]
 
         if isinstance(data, pd.DataFrame):
             matrix = matrix_full
-- 
2.43.0


From 744737668faf006e5b1c116b924476e27e3965c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 44/80] fix: DagmaDiscovery kept the step sizes raised by an
 earlier call

---
 ylearn/causal_discovery/_discovery.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ylearn/causal_discovery/_discovery.py b/ylearn/causal_discovery/_discovery.py
index 9d53144..ae305cc 100644
--- a/ylearn/causal_discovery/_discovery.py
+++ b/ylearn/causal_discovery/_discovery.py
@@ -517,10 +517,11 @@ class DagmaDiscovery(BaseDiscovery):
         self.cov = model(X)
         mu = self.mu_init
         if type(self.s) == list:
-            if len(self.s) < self.T:
-                self.s = self.s + (self.T - len(self.s)) * [self.s[-1]]
+            s = self.s.copy()
+            if len(s) < self.T:
+                s = s + (self.T - len(s)) * [s[-1]]
         elif type(self.s) in [int, float]:
-            self.s = self.T * [self.s]
+            s = self.T * [self.s]
         else:
             ValueError("s should be a list, int, or float.")
         for i in range(int(self.T)):
@@ -529,10 +530,10 @@ class DagmaDiscovery(BaseDiscovery):
 
             while success is False:
                 W_temp, success = model.minimize(self.cov, mu, inner_iters,
-                                                 lr=lr_adam, s=self.s[i], pbar=pbar)
+                                                 lr=lr_adam, s=s[i], pbar=pbar)
                 if success is False:
                     lr_adam *= 0.5
-                    self.s[i] += 0.1
+                    s[i] += 0.1
             self.w_est = W_temp
             mu *= self.mu_factor
         return self.w_est
-- 
2.43.0


From 51b3879bd610749431ec7fb91654d7aad28c5f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 45/80] fix: SafeOrdinalEncoder dropped the index of the frame

---
 ylearn/sklearn_ex/_transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index a1a9c00..9913d70 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -71,7 +71,7 @@ class SafeOrdinalEncoder(OrdinalEncoder):
         if isinstance(X, pd.DataFrame):
             assert len(result) == len(X.columns)
             data = {c: result[i] for i, c in enumerate(X.columns)}
-            result = pd.DataFrame(data, dtype=self.dtype)
+            result = pd.DataFrame(data, dtype=self.dtype, index=X.index)
         else:
             result = np.stack(result, axis=1)
             if self.dtype != result.dtype:
@@ -103,7 +103,7 @@ class SafeOrdinalEncoder(OrdinalEncoder):
         if isinstance(X, pd.DataFrame):
             assert len(result) == len(X.columns)
             data = {c: result[i] for i, c in enumerate(X.columns)}
-            result = pd.DataFrame(data)
+            result = pd.DataFrame(data, index=X.index)
         else:
             result = np.stack(result, axis=1)
 
-- 
2.43.0


From 3984e59adf32859e44aad999b3442b89d8fc8ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 46/80] fix: SafeOrdinalEncoder.inverse_transform failed on its
 own (float) codes

---
 ylearn/sklearn_ex/_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index 9913d70..45239e9 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -92,7 +92,7 @@ class SafeOrdinalEncoder(OrdinalEncoder):
                 default_value = None
                 dtype = object
             unseen = len(categories)
-            vf = np.vectorize(lambda x: categories[x] if unseen > x >= 0 else default_value,
+            vf = np.vectorize(lambda x: categories[int(x)] if unseen > x >= 0 else default_value,
                               otypes=[dtype])
             return vf
 
-- 
2.43.0


From a626ac2691dc0c7ffac745d52b42d37d7fe121b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 47/80] fix: SafeOrdinalEncoder encoded nan by object identity,
 so differently after pickling

---
 ylearn/sklearn_ex/_transformer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index 45239e9..3d16998 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -61,7 +61,14 @@ class SafeOrdinalEncoder(OrdinalEncoder):
         def make_encoder(categories):
             unseen = len(categories)
             m = dict(zip(categories, range(unseen)))
-            vf = np.vectorize(lambda x: m[x] if x in m.keys() else unseen)
+            nan_code = next((i for i, c in enumerate(categories) if isinstance(c, float) and c != c), unseen)
+
+            def encode(x):
+                if isinstance(x, float) and x != x:  # nan is not equal to itself
+                    return nan_code
+                return m[x] if x in m.keys() else unseen
+
+            vf = np.vectorize(encode)
             return vf
 
         values = X if isinstance(X, np.ndarray) else X.values
-- 
2.43.0


From acba5be13bbca78d8a45eca276f2218a5b4853b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 48/80] fix: DataCleaner changed the type of all-nan object
 columns of a batch while replacing inf

---
 ylearn/sklearn_ex/_data_cleaner.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ylearn/sklearn_ex/_data_cleaner.py b/ylearn/sklearn_ex/_data_cleaner.py
index a102852..b37756f 100644
--- a/ylearn/sklearn_ex/_data_cleaner.py
+++ b/ylearn/sklearn_ex/_data_cleaner.py
@@ -229,12 +229,10 @@ class DataCleaner:
         if self.replace_inf_values is not None:
             logger.info(f'replace [inf,-inf] to {self.replace_inf_values}')
             int_cols = column_int(X)
-            if len(int_cols) > 0:
-                columns = [c for c in X.columns.to_list() if c not in int_cols]
-                if len(columns) > 0:
-                    X[columns] = X[columns].replace([np.inf, -np.inf], self.replace_inf_values)
-            else:
-                X = X.replace([np.inf, -np.inf], self.replace_inf_values)
+            for col in [c for c in X.columns.to_list() if c not in int_cols]:
+                found = X[col].isin([np.inf, -np.inf])
+                if found.any():
+                    X.loc[found, col] = self.replace_inf_values
 
         if self.correct_object_dtype:
             logger.debug('correct data type for object columns.')
-- 
2.43.0


From 79a20bb614deb7e4a33edc7de384a7fd93e8f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 49/80] fix: DataCleaner reused the dropped columns of an
 earlier fit and mixed fits after a failure

---
 ylearn/sklearn_ex/_data_cleaner.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ylearn/sklearn_ex/_data_cleaner.py b/ylearn/sklearn_ex/_data_cleaner.py
index b37756f..d18eb83 100644
--- a/ylearn/sklearn_ex/_data_cleaner.py
+++ b/ylearn/sklearn_ex/_data_cleaner.py
@@ -283,7 +283,12 @@ class DataCleaner:
         if copy_data:
             X, y = self._copy(X, y)
 
-        X, y = self.clean_data(X, y, reduce_mem_usage=self.reduce_mem_usage)
+        # forget the columns dropped by an earlier fit
+        fitted = copy.copy(self)
+        fitted.dropped_constant_columns_ = None
+        fitted.dropped_idness_columns_ = None
+        fitted.dropped_duplicated_columns_ = None
+        X, y = fitted.clean_data(X, y, reduce_mem_usage=self.reduce_mem_usage)
 
         logger.debug('collect meta info from data')
         df_meta = {}
@@ -294,8 +299,9 @@ class DataCleaner:
             df_meta[dtype].append(col_info[0])
 
         logger.info(f'cleaned dataframe meta:{df_meta}')
-        self.df_meta_ = df_meta
-        self.columns_ = X.columns.to_list()
+        fitted.df_meta_ = df_meta
+        fitted.columns_ = X.columns.to_list()
+        self.__dict__.update(fitted.__dict__)
 
         return X, y
 
-- 
2.43.0


From f23b6d877b7883d92e2664fbb2312fab7b3dfe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 50/80] fix: FeatureImportancesSelectionTransformer kept the
 task inferred by its first fit

---
 ylearn/sklearn_ex/_transformer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index 3d16998..b5f76ab 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -146,8 +146,9 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
         self.selected_features_ = None
 
     def fit(self, X, y):
-        if self.task is None:
-            self.task, _ = infer_task_type(y)
+        task = self.task
+        if task is None:
+            task, _ = infer_task_type(y)
 
         columns_in = X.columns.to_list()
         # logger.info(f'all columns: {columns}')
@@ -165,7 +166,7 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
 
         preprocessor = general_preprocessor()
 
-        if self.task != 'regression' and y.dtype != 'int':
+        if task != 'regression' and y.dtype != 'int':
             logger.info('label encoding')
             le = LabelEncoder()
             y = le.fit_transform(y)
@@ -173,7 +174,7 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
         logger.info('preprocessing')
         X = preprocessor.fit_transform(X, y)
 
-        estimator = general_estimator(X, y, task=self.task)
+        estimator = general_estimator(X, y, task=task)
         logger.info(f'scoring feature_importances with {estimator} ')
         estimator.fit(X, y)
         importances = estimator.feature_importances_
-- 
2.43.0


From 3f6ec5613950dc06407224449d6df4c4a3e715e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 51/80] fix: DataFrameMapper fitted the transformers given as
 parameters, so a failed fit changed the earlier one

---
 ylearn/sklearn_ex/_dataframe_mapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_dataframe_mapper.py b/ylearn/sklearn_ex/_dataframe_mapper.py
index b69a7ad..a037ea6 100644
--- a/ylearn/sklearn_ex/_dataframe_mapper.py
+++ b/ylearn/sklearn_ex/_dataframe_mapper.py
@@ -2,6 +2,7 @@
 """
 Clone from Hypernets: https://github.com/DataCanvasIO/Hypernets/blob/master/hypernets/tabular/dataframe_mapper.py
 """
+import copy
 import hashlib
 
 import numpy as np
@@ -175,7 +176,8 @@ class DataFrameMapper(BaseEstimator):
     def _build_transformer(transformers):
         if isinstance(transformers, list):
             transformers = make_transformer_pipeline(*transformers)
-        return transformers
+        # fit a copy, so that the parameters and an earlier fit stay as they are
+        return copy.deepcopy(transformers)
 
     def _build_feature(self, columns, transformers, options={}):
         return columns, self._build_transformer(transformers), options
-- 
2.43.0


From b73b6d9b0e8df181e45b9d5df390ac288d2e7ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 52/80] fix: DataCleaner changed the type of all-nan object
 columns of a batch while replacing nan_chars

---
 ylearn/sklearn_ex/_data_cleaner.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_data_cleaner.py b/ylearn/sklearn_ex/_data_cleaner.py
index d18eb83..9684e86 100644
--- a/ylearn/sklearn_ex/_data_cleaner.py
+++ b/ylearn/sklearn_ex/_data_cleaner.py
@@ -58,7 +58,11 @@ class _CleanerHelper:
 
     @staticmethod
     def replace_nan_chars(X, nan_chars):
-        return X.replace(nan_chars, np.nan)
+        objects = column_object(X)
+        X = X.replace(nan_chars, np.nan)
+        if len(objects) > 0:
+            X[objects] = X[objects].astype('object')  # keep the type of columns with nan only
+        return X
 
     def correct_object_dtype(self, X, df_meta=None, excludes=None):
         if df_meta is None:
-- 
2.43.0


From 344b2f4a78022ab4a2dbd2299d498e2387d3fd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 53/80] fix: a failed fit of SafeOrdinalEncoder changed the
 categories of the earlier one

---
 ylearn/sklearn_ex/_transformer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index b5f76ab..643222d 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -54,6 +54,13 @@ class ArrayOneHotEncoder(OneHotEncoder):
 class SafeOrdinalEncoder(OrdinalEncoder):
     __doc__ = r'Adapted from sklearn OrdinalEncoder\n' + OrdinalEncoder.__doc__
 
+    def fit(self, X, y=None):
+        # a fit that fails should leave an earlier one as it is
+        fitted = copy.copy(self)
+        super(SafeOrdinalEncoder, fitted).fit(X, y)
+        self.__dict__.update(fitted.__dict__)
+        return self
+
     def transform(self, X, y=None):
         if not isinstance(X, (pd.DataFrame, np.ndarray)):
             raise TypeError("Unexpected type {}".format(type(X)))
-- 
2.43.0


From 5e58b0cb625942bc4581f7090f6b28f07e6e5d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:09 +0000
Subject: [PATCH 54/80] fix: Why.fit kept inferred tasks as constructor
 settings and a failed fit left parts of itself behind

---
 ylearn/api/_why.py | 91 +++++++++++++++++++++++++++++-----------------
 1 file changed, 58 insertions(+), 33 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 896ca40..7087382 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -1,6 +1,6 @@
 import inspect
 import math
-from copy import deepcopy
+from copy import copy as shallow_copy, deepcopy
 from functools import partial
 from itertools import product
 
@@ -168,7 +168,9 @@ class Why:
         self.random_state = random_state
 
         # fitted
-        self._is_fitted = False,
+        self._is_fitted = False
+        self.discrete_outcome_ = None
+        self.discrete_treatment_ = None
         self.feature_names_in_ = None
         self.treatment_ = None
         self.outcome_ = None
@@ -230,6 +232,18 @@ class Why:
         instance of :py:class:`Why`
             fitted Why object
         """
+        fitted = shallow_copy(self)  # a fit that fails leaves this object as it was
+        fitted._fit(data, outcome, treatment=treatment, adjustment=adjustment,
+                    covariate=covariate, instrument=instrument,
+                    treatment_count_limit=treatment_count_limit, copy=copy, **kwargs)
+        self.__dict__.update(fitted.__dict__)
+
+        return self
+
+    def _fit(self, data, outcome, *,
+             treatment=None, adjustment=None, covariate=None, instrument=None,
+             treatment_count_limit=None,
+             copy=True, **kwargs):
         assert isinstance(data, pd.DataFrame)
 
         feature_names = [c for c in data.columns.tolist()]
@@ -242,12 +256,13 @@ class Why:
             data = data.copy()
 
         y = data[outcome]
-        if self.discrete_outcome is None:
-            self.discrete_outcome = utils.is_discrete(y)
-            logger.info(f'infer outcome as {utils.task_tag(self.discrete_outcome)}')
+        self.discrete_outcome_ = self.discrete_outcome
+        if self.discrete_outcome_ is None:
+            self.discrete_outcome_ = utils.is_discrete(y)
+            logger.info(f'infer outcome as {utils.task_tag(self.discrete_outcome_)}')
 
         # if not _is_number(y.dtype):
-        if self.discrete_outcome:
+        if self.discrete_outcome_:
             logger.info('encode outcome with LabelEncoder')
             y_encoder = LabelEncoder()
             y = y_encoder.fit_transform(y)
@@ -256,14 +271,14 @@ class Why:
             y_encoder = None
 
         logger.info(f'identify treatment, adjustment, covariate and instrument')
-        treatment, adjustment, covariate, instrument = self.identify(
+        treatment, adjustment, covariate, instrument = self._identify(
             data, outcome,
             treatment=treatment, adjustment=adjustment, covariate=covariate, instrument=instrument,
             treatment_count_limit=treatment_count_limit,
         )
 
         # encode treatment
-        if self.discrete_treatment:
+        if self.discrete_treatment_:
             logger.info(f'encode treatment ...')
             x_encoders = {}
             for x in treatment:
@@ -284,7 +299,7 @@ class Why:
 
         # fit estimator
         estimator_keys = treatment.copy()
-        if self.discrete_treatment and len(treatment) > 1:
+        if self.discrete_treatment_ and len(treatment) > 1:
             estimator_keys.extend(list(filter(lambda _: _[0] != _[1], product(treatment, treatment))))
         estimators = {}
         for x in estimator_keys:
@@ -316,8 +331,6 @@ class Why:
         self.preprocessor_ = preprocessor
         self._is_fitted = True
 
-        return self
-
     def _get_estimator(self, treatment):
         treatment = utils.to_list(treatment, 'treatment')
         if len(treatment) == 1:
@@ -335,7 +348,7 @@ class Why:
         if instrument is not None and len(instrument) > 0:
             estimator = 'iv'
         # elif x_task in {const.TASK_BINARY, const.TASK_MULTICLASS}:
-        elif self.discrete_treatment or self.discrete_outcome:
+        elif self.discrete_treatment_ or self.discrete_outcome_:
             estimator = 'tlearner'
         else:
             estimator = 'dml'
@@ -371,6 +384,16 @@ class Why:
         tuple of identified treatment, adjustment, covariate, instrument
         """
 
+        worker = shallow_copy(self)
+        result = worker._identify(data, outcome, treatment=treatment, adjustment=adjustment,
+                                  covariate=covariate, instrument=instrument,
+                                  treatment_count_limit=treatment_count_limit)
+        if not self._is_fitted:
+            self.identifier_ = worker.identifier_
+        return result
+
+    def _identify(self, data, outcome, *,
+                  treatment=None, adjustment=None, covariate=None, instrument=None, treatment_count_limit=None):
         identifier = None
 
         treatment = utils.to_list(treatment, name='treatment')
@@ -390,10 +413,11 @@ class Why:
                             'something maybe unexpected.'
                             f'\n{x_tasks}')
 
-        if self.discrete_treatment is None:
-            self.discrete_treatment = utils.is_discrete(data[treatment[0]])
+        self.discrete_treatment_ = self.discrete_treatment
+        if self.discrete_treatment_ is None:
+            self.discrete_treatment_ = utils.is_discrete(data[treatment[0]])
             if logger.is_info_enabled():
-                logger.info(f'infer discrete_treatment={self.discrete_treatment}')
+                logger.info(f'infer discrete_treatment={self.discrete_treatment_}')
 
         adjustment = utils.to_list(adjustment, name='adjustment')
         covariate = utils.to_list(covariate, name='covariate')
@@ -458,7 +482,7 @@ class Why:
 
         factory = ESTIMATOR_FACTORIES[estimator](**options)
 
-        estimator = factory(data, outcome, y_task=self.discrete_outcome, x_task=self.discrete_treatment,
+        estimator = factory(data, outcome, y_task=self.discrete_outcome_, x_task=self.discrete_treatment_,
                             treatment=treatment,
                             adjustment=adjustment,
                             covariate=covariate,
@@ -478,8 +502,8 @@ class Why:
         for x in self.treatment_:
             # x_task, _ = infer_task_type(data[x])
             scorer = factory(data, self.outcome_,
-                             y_task=self.discrete_outcome,
-                             x_task=self.discrete_treatment,
+                             y_task=self.discrete_outcome_,
+                             x_task=self.discrete_treatment_,
                              treatment=x,
                              adjustment=self.adjustment_,
                              covariate=self.covariate_,
@@ -534,6 +558,7 @@ class Why:
         """
         causation = self.identifier_.causal_matrix_ \
             if isinstance(self.identifier_, IdentifierWithDiscovery) else None
+        assert self._is_fitted or causation is not None, 'Nothing has been identified or fitted.'
 
         if causation is not None:
             threshold = causation.values.diagonal().max()
@@ -612,12 +637,12 @@ class Why:
         """
         assert test_data is None or isinstance(test_data, pd.DataFrame)
 
-        if self.discrete_treatment:
+        if self.discrete_treatment_:
             fn = self._causal_effect_discrete
         else:
             fn = self._causal_effect_continuous
 
-        if self.discrete_outcome and target_outcome is None:
+        if self.discrete_outcome_ and target_outcome is None:
             target_outcome = self.y_encoder_.classes_[-1]
 
         options = dict(treatment=treatment, treat=treat, control=control,
@@ -789,7 +814,7 @@ class Why:
         assert test_data is not None
         assert all(t in test_data.columns.tolist() for t in self.treatment_)
 
-        if self.discrete_treatment:
+        if self.discrete_treatment_:
             return self._individual_causal_effect_discrete(test_data, control, target_outcome)
         else:
             return self._individual_causal_effect_continuous(test_data, control, target_outcome)
@@ -817,7 +842,7 @@ class Why:
                     row_df[x] = xe.transform(row_df[x])
                     t, c = xe.transform([treat_i, control_i]).tolist()
                     est = self.estimators_[x]
-                    if self.discrete_outcome:
+                    if self.discrete_outcome_:
                         effect = est.estimate(data=row_df, treat=t, control=c, target_outcome=target_outcome)
                     else:
                         effect = est.estimate(data=row_df, treat=t, control=c)
@@ -860,7 +885,7 @@ class Why:
         pd.Series
             The counterfactual prediction
         """
-        assert not self.discrete_outcome, 'whatif only support continuous outcome'
+        assert not self.discrete_outcome_, 'whatif only support continuous outcome'
         assert test_data is not None and new_value is not None
         assert treatment is None or isinstance(treatment, str)
         if isinstance(treatment, str):
@@ -995,7 +1020,7 @@ class Why:
         sa = []
         for i, (x, scorer) in enumerate(scorers.items()):
             logger.info(f'fit scorer for {x} with {scorer}')
-            if self.discrete_treatment:
+            if self.discrete_treatment_:
                 xe = self.x_encoders_[x]
                 treat_i = xe.transform([treat[i], ]).tolist()[0] if treat is not None else None
                 control_i = xe.transform([control[i], ]).tolist()[0] if control is not None else None
@@ -1021,7 +1046,7 @@ class Why:
 
         control = self._safe_treat_control(treatment, control, 'control')
 
-        if self.discrete_treatment:
+        if self.discrete_treatment_:
             estimator = self._get_estimator(treatment)
             if control is not None:
                 control = [self.x_encoders_[x].transform([control[i]]).tolist()[0] for i, x in enumerate(treatment)]
@@ -1035,7 +1060,7 @@ class Why:
             assert isinstance(effect, np.ndarray)
             assert effect.ndim == 3
 
-            if self.discrete_outcome and effect.shape[1] > 1:
+            if self.discrete_outcome_ and effect.shape[1] > 1:
                 assert effect.shape[1] == len(self.y_encoder_.classes_)
                 if target_outcome is not None:
                     nz = np.nonzero(self.y_encoder_.classes_ == target_outcome)[0]
@@ -1121,7 +1146,7 @@ class Why:
                          ):
 
         if check_discrete_treatment:
-            assert self.discrete_treatment, f'[{reason}] Only discrete treatment is supported.'
+            assert self.discrete_treatment_, f'[{reason}] Only discrete treatment is supported.'
 
         if test_data is None:
             assert allow_data_none, f'[{reason}] test_data is required.'
@@ -1149,7 +1174,7 @@ class Why:
 
     def _map_effect(self, handler, test_data, treatment=None, treat=None, control=None,
                     target_outcome=None, combined=False):
-        assert self.discrete_treatment, 'Only discrete treatment is supported'
+        assert self.discrete_treatment_, 'Only discrete treatment is supported'
 
         test_data_preprocessed = self._preprocess(test_data, encode_outcome=True, encode_treatment=True)
         treatment = utils.to_list(treatment, 'treatment') if treatment is not None else self.treatment_
@@ -1171,7 +1196,7 @@ class Why:
         result = []
         for x, t, c in itr:
             est = self._get_estimator(x)
-            if self.discrete_outcome:
+            if self.discrete_outcome_:
                 effect = est.estimate(data=test_data_preprocessed, treat=t, control=c, target_outcome=target_outcome)
             else:
                 effect = est.estimate(data=test_data_preprocessed, treat=t, control=c)
@@ -1182,7 +1207,7 @@ class Why:
         return result
 
     def _permute_treat_control_combined(self, treatment, treats, control, encode=False):
-        assert self.discrete_treatment, 'Only discrete treatment is supported'
+        assert self.discrete_treatment_, 'Only discrete treatment is supported'
 
         if treatment is None:
             treatment = self.treatment_
@@ -1222,7 +1247,7 @@ class Why:
                 yield treatment, tuple(t), tuple(control)
 
     def _permute_treat_control_sequential(self, treatment, treats, control, encode=False):
-        assert self.discrete_treatment, 'Only discrete treatment is supported'
+        assert self.discrete_treatment_, 'Only discrete treatment is supported'
 
         if treatment is None:
             treatment = self.treatment_
@@ -1284,7 +1309,7 @@ class Why:
         pd.Series
             The counterfactual prediction
         """
-        assert self.discrete_treatment, 'Uplift_model support discrete treatment only.'
+        assert self.discrete_treatment_, 'Uplift_model support discrete treatment only.'
 
         treatment = utils.to_list(treatment, 'treatment') if treatment is not None else self.treatment_
         self._check_test_data('uplift_model', test_data,
@@ -1312,7 +1337,7 @@ class Why:
         t_encoded, c_encoded = utils.transform_treat_control(encoders, treat=treat, control=control)
         data_tc = utils.select_by_treat_control(test_data_preprocessed, treatment, t_encoded, c_encoded)
 
-        if self.discrete_outcome:
+        if self.discrete_outcome_:
             effect = estimator.estimate(data_tc, treat=t_encoded, control=c_encoded, target_outcome=target_outcome)
         else:
             effect = estimator.estimate(data_tc, treat=t_encoded, control=c_encoded)
-- 
2.43.0


From 350ca05a36457273dc41404a9175125e582c430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:09 +0000
Subject: [PATCH 55/80] fix: Why removed treatments from the lists of its
 caller and kept those lists

---
 ylearn/utils/_common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ylearn/utils/_common.py b/ylearn/utils/_common.py
index c980cb9..bba9783 100644
--- a/ylearn/utils/_common.py
+++ b/ylearn/utils/_common.py
@@ -58,8 +58,10 @@ def to_df(**data):
 
 
 def to_list(v, name=None):
-    if v is None or isinstance(v, (list, tuple)):
+    if v is None:
         pass
+    elif isinstance(v, (list, tuple)):
+        v = list(v)
     elif isinstance(v, str):
         v = [s.strip() for s in v.split(',')]
         v = [s for s in v if len(s) > 0]
-- 
2.43.0


From 8bdbac8b7d3e5a6454b1c6ddf1a05627b760e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:09 +0000
Subject: [PATCH 56/80] fix: Why identified with what the given identifier kept
 from an earlier fit

---
 ylearn/api/_why.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 7087382..cd31a26 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -441,7 +441,7 @@ class Why:
 
     def _create_identifier(self):
         if isinstance(self.identifier, Identifier):
-            return self.identifier
+            return deepcopy(self.identifier)
         elif callable(self.identifier):
             options = self.identifier_options if self.identifier_options is not None else {}
             return IdentifierWithLearner(self.identifier, random_state=self.random_state, **options)
-- 
2.43.0


From c4156d3f28bcfca10444b93fd0352155e0683cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:51 +0000
Subject: [PATCH 57/80] fix: Why.whatif failed with fn_cost or repeated index
 labels

---
 ylearn/api/_why.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index cd31a26..5de0a84 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -909,21 +909,19 @@ class Why:
         df = pd.DataFrame(dict(c=old_value, t=new_value), index=old_value.index)
         df['tc'] = df[['t', 'c']].apply(tuple, axis=1)
         tc_pairs = df['tc'].unique().tolist()
-        effect = []
+        effect = np.zeros(len(df))
         for t, c in tc_pairs:
-            tc_rows = df[df['tc'] == (t, c)]
+            tc_rows = (df['tc'] == (t, c)).values
             if t == c:
-                eff = np.zeros((len(tc_rows),))
+                eff = np.zeros((tc_rows.sum(),))
             else:
-                data_rows = data.loc[tc_rows.index]
+                data_rows = data[tc_rows]
                 t_encoded, c_encoded = xe.transform([t, c]).tolist()
                 eff = estimator.estimate(data_rows, treat=t_encoded, control=c_encoded)
             if self.fn_cost is not None:
-                eff = utils.cost_effect(self.fn_cost, test_data, eff, self.effect_name)
-            effect.append(pd.DataFrame(dict(e=eff.ravel()), index=tc_rows.index))
-        effect = pd.concat(effect, axis=0)
-        assert len(effect) == len(df)
-        df['e'] = effect['e']  # align indices
+                eff = utils.cost_effect(self.fn_cost, test_data[tc_rows], eff, self.effect_name)
+            effect[tc_rows] = eff.ravel()
+        df['e'] = effect
 
         y_new = y_old + df['e']
         return y_new
-- 
2.43.0


From 3825440ebbe55dfb6264bc3c18cbc5aa19f7b3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:51 +0000
Subject: [PATCH 58/80] fix: Why.individual_causal_effect gave rows with one
 index label the effect of the first of them

---
 ylearn/api/_why.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 5de0a84..14fbdde 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -829,8 +829,8 @@ class Why:
             target_outcome = self._inverse_transform_outcome(target_outcome)
 
         dfs = []
-        for ri in test_data_preprocessed.index:
-            row_df = test_data_preprocessed.loc[ri:ri]
+        for i, ri in enumerate(test_data_preprocessed.index):
+            row_df = test_data_preprocessed.iloc[[i]]
             for xi, x in enumerate(self.treatment_):
                 treat_i = row_df[x].tolist()[0]
                 control_i = control[xi]
-- 
2.43.0


From 94fa54eb3c2827dbdcdc82e6df975d09634891ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:51 +0000
Subject: [PATCH 59/80] fix: DoubleML.estimate mixed up the rows for an array
 of treats with a scalar control

---
 ylearn/estimator_model/double_ml.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index 4a99c20..e6c7c29 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -501,9 +501,10 @@ class DoubleML(BaseEstModel):
                 treat = treat.reshape(-1, self._x_d)
             if isinstance(control, np.ndarray):
                 control = control.reshape(-1, self._x_d)
-                effect = np.einsum("nji, ni->nji", fij, treat - control)
-            else:
-                effect = fij * (treat - control)
+            delta = treat - control
+            if isinstance(delta, np.ndarray):  # a row for each row of data
+                delta = delta[:, np.newaxis, :]
+            effect = fij * delta
 
         if target_outcome is not None:
             assert (
-- 
2.43.0


From 20431c47c43733da7ac7a6e1cf85e30dc266c461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:51 +0000
Subject: [PATCH 60/80] fix: Why took target_outcome for an encoded value in
 some queries and the first class as its default

---
 ylearn/api/_why.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 14fbdde..71dfcda 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -542,9 +542,9 @@ class Why:
         assert self._is_fitted
         return utils.safe_treat_control_list(treatment, t_or_c, name)
 
-    def _inverse_transform_outcome(self, v):
+    def _transform_outcome(self, v):
         if self.y_encoder_ is not None and v is not None:
-            return self.y_encoder_.inverse_transform([v])[0]
+            return self.y_encoder_.transform([v])[0]
         else:
             return v
 
@@ -826,7 +826,7 @@ class Why:
         if control is None:
             control = [self.x_encoders_[x].classes_.tolist()[0] for x in self.treatment_]
         if target_outcome is not None:
-            target_outcome = self._inverse_transform_outcome(target_outcome)
+            target_outcome = self._transform_outcome(target_outcome)
 
         dfs = []
         for i, ri in enumerate(test_data_preprocessed.index):
@@ -846,7 +846,7 @@ class Why:
                         effect = est.estimate(data=row_df, treat=t, control=c, target_outcome=target_outcome)
                     else:
                         effect = est.estimate(data=row_df, treat=t, control=c)
-                    effect = effect.ravel()[0]
+                    effect = effect.ravel()[-1]  # default to the last class of outcome
                 s = pd.Series(dict(effect=effect),
                               name=(ri, x, f'{treat_i} vs {control_i}'))
                 dfs.append(s)
@@ -1053,7 +1053,7 @@ class Why:
             options = drop_none(control=control, )
             if target_outcome is not None \
                     and 'target_outcome' in inspect.signature(estimator.effect_nji).parameters.keys():
-                options['target_outcome'] = self._inverse_transform_outcome(target_outcome)
+                options['target_outcome'] = self._transform_outcome(target_outcome)
             effect = estimator.effect_nji(preprocessed_data, **options)
             assert isinstance(effect, np.ndarray)
             assert effect.ndim == 3
@@ -1320,7 +1320,7 @@ class Why:
         test_data_preprocessed = self._preprocess(test_data, encode_treatment=True)
         treat = self._safe_treat_control(treatment, treat, 'treat')
         control = self._safe_treat_control(treatment, control, 'control')
-        target_outcome = self._inverse_transform_outcome(target_outcome)
+        target_outcome = self._transform_outcome(target_outcome)
 
         encoders = [self.x_encoders_[x] for x in treatment]
         estimator = self._get_estimator(treatment)
-- 
2.43.0


From 1dae3d7d7f83d53a0a700f8fd25a84e2ba58d922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:14 +0000
Subject: [PATCH 61/80] fix: Why.score ignored target_outcome

---
 ylearn/api/_why.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 71dfcda..578e539 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -972,7 +972,8 @@ class Why:
         assert test_data is not None
 
         if scorer in ['auuc', 'qini']:
-            return self._score_auuc_qini(test_data, treat=treat, control=control, scorer=scorer)
+            return self._score_auuc_qini(test_data, treat=treat, control=control,
+                                         target_outcome=target_outcome, scorer=scorer)
         else:
             return self._score_rloss(test_data, treat=treat, control=control)
 
-- 
2.43.0


From 5867a16b55e3ef3dda90dacbcd42c707c84b37cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:31 +0000
Subject: [PATCH 62/80] fix: an integer honest_subsample_num failed with an
 AttributeError in forests and causal trees

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 4 ++--
 ylearn/estimator_model/causal_tree.py                      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 94a79f6..79d5959 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -505,9 +505,9 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             return None
 
         if isinstance(self.honest_subsample_num, numbers.Integral):
-            if self.honest_subsample > sub_samples:
+            if self.honest_subsample_num > sub_samples:
                 raise ValueError(
-                    f"honest_subsample must be <= sub_samples={sub_samples} but was given {self.honest_subsample}"
+                    f"honest_subsample_num must be <= sub_samples={sub_samples} but was given {self.honest_subsample_num}"
                 )
             return self.honest_subsample_num
 
diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index 45d8ac2..757e678 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -505,9 +505,9 @@ class CausalTree(BaseEstModel):
             return None
 
         if isinstance(self.honest_subsample_num, numbers.Integral):
-            if self.honest_subsample > sub_samples:
+            if self.honest_subsample_num > sub_samples:
                 raise ValueError(
-                    f"honest_subsample must be <= sub_samples={sub_samples} but was given {self.honest_subsample}"
+                    f"honest_subsample_num must be <= sub_samples={sub_samples} but was given {self.honest_subsample_num}"
                 )
             return self.honest_subsample_num / sub_samples
 
-- 
2.43.0


From e07dbf2a76cd4d817e9b3b70cb709920d6733a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:31 +0000
Subject: [PATCH 63/80] fix: a forest fitted with too few rows for its sub
 samples crashed the process

---
 .../estimator_model/_generalized_forest/_base_forest.py   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 79d5959..e510703 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -421,6 +421,14 @@ class BaseCausalForest(BaseEstModel, BaseForest):
 
         self.honest_sample = self._get_honest_samples_num(sub_samples=sub_sample_num_)
 
+        # the compiled tree builder does not survive an empty training set
+        if sub_sample_num_ - (self.honest_sample or 0) < 1:
+            raise ValueError(
+                f"No sample left to train a tree: n_samples={x.shape[0]}, "
+                f"sub_sample_num={self.sub_sample_num}, "
+                f"honest_subsample_num={self.honest_subsample_num}."
+            )
+
         self._validate_estimator()
 
         random_state = check_random_state(self.random_state)
-- 
2.43.0


From 95f11f83d7cbf3dd4476a026e704cb98f99cd67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 64/80] fix: a forest fitted with NaN or infinity in the
 treatment crashed the process

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index e510703..9f8ea0d 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -415,6 +415,10 @@ class BaseCausalForest(BaseEstModel, BaseForest):
         if getattr(x, "dtype", None) != DOUBLE or not x.flags.contiguous:
             x = np.ascontiguousarray(x, dtype=DOUBLE)
 
+        # the compiled criterion does not survive such values
+        if not np.isfinite(x).all():
+            raise ValueError("The treatment contains NaN or infinity.")
+
         sub_sample_num_ = self._get_sub_samples_num(
             n_samples=x.shape[0], sub_samples=self.sub_sample_num
         )
-- 
2.43.0


From e25cbb46485b3cd8b10d45ed1d04bb84440d6235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 65/80] fix: forests did not centre the outcome, a constant
 outcome had an effect

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 9f8ea0d..0662e05 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -660,7 +660,7 @@ class BaseCausalForest(BaseEstModel, BaseForest):
         inv_grad = inverse_grad(grad_)
 
         y = np.tile(y.reshape(1, -1), (n_test, 1))
-        y_dif = y - alpha * y
+        y_dif = y - (alpha * y).sum(axis=1, keepdims=True)
         theta_ = ((alpha * y_dif).reshape(n_test, n_train, 1) * x_dif).sum(1)
 
         return inv_grad, theta_
-- 
2.43.0


From 2f332319fbcdcfc82035cd223e520c42ec7bebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 66/80] fix: Why's covariates followed the hash order of a set
 with a causal discovery identifier

---
 ylearn/api/_identifier.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ylearn/api/_identifier.py b/ylearn/api/_identifier.py
index ea4256c..5238ddf 100644
--- a/ylearn/api/_identifier.py
+++ b/ylearn/api/_identifier.py
@@ -154,14 +154,15 @@ class IdentifierWithDiscovery(DefaultIdentifier):
                     break
                 else:
                     iv = [c for c in iv if c != outcome and c not in treatment]
-                    instrument = list(set(instrument).intersection(set(iv)))
+                    instrument = [c for c in instrument if c in iv]
         except Exception as e:
             logger.warn(e)
             instrument = []
 
         ids = cm.identify(treatment, outcome, identify_method=method)
-        covariate = list(set(ids['backdoor'][0]))
-        covariate = [c for c in covariate if c != outcome and c not in treatment]
+        backdoor = set(ids['backdoor'][0])
+        # the order of a set of names differs from process to process, the order of the data does not
+        covariate = [c for c in data.columns.tolist() if c in backdoor and c != outcome and c not in treatment]
         if not is_empty(instrument):
             covariate = [c for c in covariate if c not in instrument]
 
-- 
2.43.0


From 73e59508ae3c9c48a3238ce5c3d68dd8ab6c6c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 67/80] fix: DeepIV ignored its random_state

---
 ylearn/estimator_model/deepiv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 1f51c01..d6f98ea 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -20,6 +20,7 @@ from torch.utils.data import DataLoader
 from torch.distributions import Categorical, Normal, MixtureSameFamily,\
     Independent
 
+from ylearn.utils import set_random_state
 from .utils import convert2array, convert2tensor, shapes
 from ._nn import BatchData, DiscreteOBatchData, DiscreteIOBatchData, DiscreteIBatchData
 from .base_models import BaseEstModel
@@ -750,6 +751,7 @@ class DeepIV(BaseEstModel):
         )
 
         # build networks
+        set_random_state(self.random_state)
         self.x_net = self._gen_x_model(
             self._x_net_init,
             self._z_d,
-- 
2.43.0


From 24b1d7257453f81a7c3c167ddefe271b56180a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 68/80] fix: DeepIV answered from a half trained network after
 a failed fit

---
 ylearn/estimator_model/deepiv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index d6f98ea..5138ff0 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -795,7 +795,7 @@ class DeepIV(BaseEstModel):
         return self
 
     def effect_nji(self, data=None):
-        if not hasattr(self, 'x_net') or not hasattr(self, 'y_net'):
+        if not self._is_fitted:
             raise Exception('The estimator is not fitted yet.')
 
         if data is None:
@@ -839,7 +839,7 @@ class DeepIV(BaseEstModel):
         *args,
         **kwargs
     ):
-        if not hasattr(self, 'x_net') or not hasattr(self, 'y_net'):
+        if not self._is_fitted:
             raise Exception('The estimator is not fitted yet.')
 
         treat = 1 if treat is None else treat
-- 
2.43.0


From 93a40faed3806ad6822dc2b74122d716cfda02f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 69/80] fix: DeepIV applied a continuous treatment to the first
 row only

---
 ylearn/estimator_model/deepiv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 5138ff0..e1f6ba4 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -820,8 +820,8 @@ class DeepIV(BaseEstModel):
 
             y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat((1, 1, self._x_d))
         else:
-            xt = ones * 1
-            x0 = ones * 0
+            xt = torch.ones(n, self._x_d)
+            x0 = torch.zeros(n, self._x_d)
             y_nji[:, :, 0] = self.y_net.predict(x0, w)
             y_nji[:, :, 1] = self.y_net.predict(xt, w)
             y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat((1, 1, 2))
@@ -864,8 +864,8 @@ class DeepIV(BaseEstModel):
 
             return (self.y_net.predict(xt, w), self.y_net.predict(x0, w))
         else:
-            xt = ones * treat
-            x0 = ones * control
+            xt = torch.ones(n, self._x_d) * treat
+            x0 = torch.ones(n, self._x_d) * control
             xt.requires_grad = True
 
             yt = self.y_net.predict(xt, w)
-- 
2.43.0


From 99118215265904f0c47623e26603280a7242d874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 70/80] fix: DeepIV ignored the control of a discrete treatment
 and needed as many rows as treatment values

---
 ylearn/estimator_model/deepiv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index e1f6ba4..010380e 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -806,7 +806,7 @@ class DeepIV(BaseEstModel):
             )[0]
 
         n = w.shape[0]
-        ones = torch.eye(n, self._x_d)
+        ones = torch.eye(self._x_d)
 
         y_nji = torch.full((n, self._y_d, self._x_d))
 
@@ -852,7 +852,7 @@ class DeepIV(BaseEstModel):
                 convert2array(data, self.adjustment)[0]
             )[0]
         n = w.shape[0]
-        ones = torch.eye(n, self._x_d)
+        ones = torch.eye(self._x_d)
 
         if self.is_discrete_treatment:
             # build the one_hot vector for treatment vector
@@ -860,7 +860,8 @@ class DeepIV(BaseEstModel):
 
             # build treatment vector xt and control vector x0
             xt = ones.index_select(dim=0, index=treat_id)
-            x0 = ones.index_select(dim=0, index=torch.zeros(n, ).int())
+            ctrl_id = (torch.ones(n, ) * control).int()
+            x0 = ones.index_select(dim=0, index=ctrl_id)
 
             return (self.y_net.predict(xt, w), self.y_net.predict(x0, w))
         else:
-- 
2.43.0


From fc7234410fb8106265a8043d7d3552e5a3cb246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 71/80] fix: DeepIV.effect_nji and a given y_net failed
 whatever the arguments

---
 ylearn/estimator_model/deepiv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 010380e..ea89df9 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -808,7 +808,7 @@ class DeepIV(BaseEstModel):
         n = w.shape[0]
         ones = torch.eye(self._x_d)
 
-        y_nji = torch.full((n, self._y_d, self._x_d))
+        y_nji = torch.zeros(n, self._y_d, max(self._x_d, 2))
 
         if self.is_discrete_treatment:
             for treat in range(self._x_d):
@@ -961,6 +961,6 @@ class DeepIV(BaseEstModel):
 
         if y_model is None:
             assert any(args), 'Need parameters to define an outcome net.'
-            y_net = Net(*args, **kwargs)
+            y_model = Net(*args, **kwargs)
 
-        return NetWrapper(y_net, is_y_net=True)
+        return NetWrapper(y_model, is_y_net=True)
-- 
2.43.0


From 9b8e47912d2a681e1f8210386bc8501adc85cf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 72/80] fix: the DeepIV factory estimator failed on data with
 other than float columns

---
 ylearn/estimator_model/_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_factory.py b/ylearn/estimator_model/_factory.py
index df8717e..1322960 100644
--- a/ylearn/estimator_model/_factory.py
+++ b/ylearn/estimator_model/_factory.py
@@ -339,7 +339,7 @@ try:
             data_f64 = data.select_dtypes(include='float64')
             if len(data_f64.columns) > 0:
                 data = data.copy()
-                data[data.columns] = data_f64.astype('float32')
+                data[data_f64.columns] = data_f64.astype('float32')
             return data
 
 except ImportError as e:
-- 
2.43.0


From 91d8fbe716384c82fc93a3e2bfd6002370a305b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:42 +0000
Subject: [PATCH 73/80] fix: importing ylearn.causal_discovery changed torch's
 default dtype for the whole process

---
 ylearn/causal_discovery/_proxy_gcastle.py | 31 ++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/ylearn/causal_discovery/_proxy_gcastle.py b/ylearn/causal_discovery/_proxy_gcastle.py
index 2c8c1f0..6569b7f 100644
--- a/ylearn/causal_discovery/_proxy_gcastle.py
+++ b/ylearn/causal_discovery/_proxy_gcastle.py
@@ -2,6 +2,7 @@
 A proxy to Huawei Noah's Ark Lab gCastle.
 see: https://github.com/huawei-noah/trustworthyAI/tree/master/gcastle
 """
+import contextlib
 import copy
 import os
 import sys
@@ -12,14 +13,37 @@ import pandas as pd
 from ylearn.utils import drop_none, set_random_state, logging
 from ._base import BaseDiscovery
 
+try:
+    import torch
+except ImportError:
+    torch = None
+
+
+@contextlib.contextmanager
+def _torch_default_dtype(dtype=None):
+    # gcastle turns the default dtype of torch into double, for the whole process
+    if torch is None:
+        yield
+        return
+
+    default_dtype = torch.get_default_dtype()
+    try:
+        if dtype is not None:
+            torch.set_default_dtype(dtype)
+        yield
+    finally:
+        torch.set_default_dtype(default_dtype)
+
+
 devnull = open(os.devnull, "w")
 stdout_orig = sys.stdout
 stderr_orig = sys.stderr
 try:
     sys.stdout = devnull
     sys.stderr = devnull
-    from castle import algorithms as A
-    from castle.common import BaseLearner
+    with _torch_default_dtype():
+        from castle import algorithms as A
+        from castle.common import BaseLearner
 finally:
     sys.stdout = stdout_orig
     sys.stderr = stderr_orig
@@ -59,7 +83,8 @@ class GCastleProxy(BaseDiscovery):
 
         learner = self._create_learner()
         logger.info(f'discovery causation with {type(learner).__name__}')
-        learner.learn(data)
+        with _torch_default_dtype(torch.double if torch is not None else None):
+            learner.learn(data)
         matrix = self._to_dag(np.array(learner.causal_matrix, dtype=float))
 
         if columns is not None:
-- 
2.43.0


From 29644a455158b100ea3dfc6caddbc8fb32fd94fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 74/80] fix: S, T and X learners lost the row axis of the
 answer for a single row

---
 ylearn/estimator_model/meta_learner.py | 9 +++++----
 ylearn/estimator_model/utils.py        | 5 +++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index 116a426..e9000be 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -13,6 +13,7 @@ from .utils import (
     cartesian,
     get_tr_ctrl,
     check_classes,
+    squeeze_but_rows,
 )
 
 
@@ -522,7 +523,7 @@ class SLearner(BaseEstModel):
                 fnji = (self.model.predict(x_treat) - f_nj0).reshape(n, self._y_d)
                 f_nji[:, :, i] = fnji
 
-        return f_nji.squeeze()
+        return squeeze_but_rows(f_nji)
 
     # def __repr__(self) -> str:
     #     return f'SLearner'
@@ -1021,7 +1022,7 @@ class TLearner(BaseEstModel):
                 fnji = (model.predict(wv) - f_nj0).reshape(n, self._y_d)
                 f_nji[:, :, i] = fnji
 
-        return f_nji.squeeze()
+        return squeeze_but_rows(f_nji)
 
     # def __repr__(self) -> str:
     #     return f'TLearner'
@@ -1575,9 +1576,9 @@ class XLearner(BaseEstModel):
             f_nji[:, :, i] = fnji
 
         if target_outcome is None:
-            return f_nji.squeeze()
+            return squeeze_but_rows(f_nji)
         else:
-            return f_nji[:, target_outcome, :].squeeze()
+            return squeeze_but_rows(f_nji[:, target_outcome, :])
 
     # def __repr__(self) -> str:
     #     return f'XLearner'
diff --git a/ylearn/estimator_model/utils.py b/ylearn/estimator_model/utils.py
index ee0dfbd..222eeb5 100644
--- a/ylearn/estimator_model/utils.py
+++ b/ylearn/estimator_model/utils.py
@@ -126,6 +126,11 @@ def shapes(*tensors, all_dim=False):
     return shapes
 
 
+def squeeze_but_rows(x):
+    # like x.squeeze(), but the first axis stays also for a single row
+    return x.reshape(x.shape[:1] + tuple(d for d in x.shape[1:] if d != 1))
+
+
 def nd_kron(x, y):
     assert x.shape[0] == y.shape[0]
     fn = np.vectorize(np.kron, signature="(n),(m)->(k)")
-- 
2.43.0


From 4babf039ea8382df373185d808334646f4b5f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:53 +0000
Subject: [PATCH 75/80] fix: forest weights did not sum to one where an honest
 leaf had no sample

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 0662e05..7a16490 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -620,7 +620,11 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             for i, e in enumerate(self.estimators_)
         )
         alpha = np.mean(alpha_collection, axis=0)
-        return alpha
+
+        # a tree whose leaf has no sample of the honest part has no say for that
+        # example, the weights of the other trees sum to one without it
+        total = alpha.sum(axis=1, keepdims=True)
+        return np.divide(alpha, total, out=alpha, where=total > 0)
 
     def _compute_aug(self, y, x, alpha):
         r"""Formula:
-- 
2.43.0


From 6b51c81c465ed2bbfa5ff5b175f7dfc6b4254abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:53 +0000
Subject: [PATCH 76/80] fix: a forest tree of a single leaf answered from rows
 outside its sub-sample

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 7a16490..ec56a44 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -588,8 +588,8 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             v_pred = t.apply(None, v[s][:honest_sample_num])
             idx = s[:honest_sample_num]
 
-        # TODO: note that if a predict value is 0 this line may cause some unexpected result, so it may be more approriate to create an nan array instead
-        leaf_record = np.zeros(v.shape[0])
+        # -1 is no leaf: rows that are not in idx must not be counted as rows of leaf 0
+        leaf_record = np.full(v.shape[0], -1.0)
         leaf_record[idx] = v_pred
 
         # #####: I modify this line
-- 
2.43.0


From 5170d2f5dbba1483443ff36309bf93434bffc7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:45 +0000
Subject: [PATCH 77/80] fix: Logger.fatal raised TypeError after writing its
 message

---
 ylearn/utils/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/utils/logging.py b/ylearn/utils/logging.py
index 22e7e50..54a22c6 100644
--- a/ylearn/utils/logging.py
+++ b/ylearn/utils/logging.py
@@ -150,8 +150,8 @@ class CustomizedLogger(_logging.Logger):
         super(CustomizedLogger, self).log(level, msg, *args, **kwargs)
 
     def fatal(self, msg, *args, **kwargs):
+        kwargs.setdefault('exc_info', _sys.exc_info()[0] is not None)
         self.log(FATAL, msg, *args, **kwargs)
-        self.exception()
 
     def error(self, msg, *args, **kwargs):
         self.log(ERROR, msg, *args, **kwargs)
-- 
2.43.0


From 929f001d7986c16e10626ca27462e3163eaf68ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:45 +0000
Subject: [PATCH 78/80] fix: log_every_n and log_first_n counted all their call
 sites together

---
 ylearn/utils/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/utils/logging.py b/ylearn/utils/logging.py
index 54a22c6..c45f7c6 100644
--- a/ylearn/utils/logging.py
+++ b/ylearn/utils/logging.py
@@ -341,7 +341,7 @@ def _get_next_log_count_per_token(token):
 
 def _get_file_and_line():
     """Returns (filename, linenumber) for the stack frame."""
-    code, f = _get_caller()
+    code, f = _get_caller(2)
     if not code:
         return '<unknown>', 0
     return code.co_filename, f.f_lineno
-- 
2.43.0


From fe467525b05282719b47c21c467c5f36329c2454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:22 +0000
Subject: [PATCH 79/80] fix: CausalTree answers for every training row when no
 data are given

---
 ylearn/estimator_model/causal_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index 757e678..bfda7a2 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -729,6 +729,7 @@ class CausalTree(BaseEstModel):
         # check random state
         random_state = check_random_state(self.random_state)
         wv = get_wv(w, v)
+        self._wv = wv
 
         # Determin treatment settings
         if self.categories == "auto" or self.categories is None:
@@ -765,7 +766,6 @@ class CausalTree(BaseEstModel):
 
         # Determine output settings
         n_samples, self.n_features_in_ = wv.shape  # dimension of the input
-        self._wv = wv
 
         if y.ndim == 1:
             y = y.reshape(-1, 1)
-- 
2.43.0


From da1193280e490980f73ff05a191d26c796472331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:22 +0000
Subject: [PATCH 80/80] fix: CausalForest transforms the covariates of the data
 it is asked about

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 3 +++
 ylearn/estimator_model/causal_forest.py                    | 1 +
 2 files changed, 4 insertions(+)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index ec56a44..98b8015 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -528,6 +528,9 @@ class BaseCausalForest(BaseEstModel, BaseForest):
 
     def _check_features(self, data):
         v = self._v if data is None else convert2array(data, self.covariate)[0]
+        transformer = getattr(self, "covariate_transformer", None)
+        if data is not None and transformer is not None:
+            v = transformer.transform(v)
         return v
 
     def _prepare4est(self, data=None, batch_size=100):
diff --git a/ylearn/estimator_model/causal_forest.py b/ylearn/estimator_model/causal_forest.py
index 0cbeabd..5faa194 100644
--- a/ylearn/estimator_model/causal_forest.py
+++ b/ylearn/estimator_model/causal_forest.py
@@ -191,6 +191,7 @@ class CausalForest(DoubleML):
 
     def _fit_2nd_stage(self, yx_model, x_prime, y_prime, v, **kwargs):
         yx_model.covariate = self.covariate
+        yx_model.covariate_transformer = self.covariate_transformer
         sample_weight = kwargs.get("sample_weight", None)
         yx_model._fit_with_array(y_prime, x_prime, v, v, sample_weight=sample_weight)
 
-- 
2.43.0

