From aff2cff7666c2cc51ac4d32baa873824779c0f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 01/12] fix: t2mat accepts tuple axes and leaves the caller's
 axis list alone

---
 tensorD/base/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/base/ops.py b/tensorD/base/ops.py
index 1e22183..fcb9f83 100644
--- a/tensorD/base/ops.py
+++ b/tensorD/base/ops.py
@@ -151,7 +151,7 @@ def t2mat(tensor, r_axis, c_axis):
             indies = [r_axis]
             row_size = tensor.get_shape()[r_axis].value
         else:
-            indies = r_axis
+            indies = list(r_axis)
             row_size = np.prod([tensor.get_shape()[i].value for i in r_axis])
         if c_axis == -1:
             c_axis = [_ for _ in range(tensor.get_shape().ndims) if _ not in indies]
@@ -159,7 +159,7 @@ def t2mat(tensor, r_axis, c_axis):
             indies.append(c_axis)
             col_size = tensor.get_shape()[c_axis].value
         else:
-            indies = indies + c_axis
+            indies = indies + list(c_axis)
             col_size = np.prod([tensor.get_shape()[i].value for i in c_axis])
         return tf.reshape(tf.transpose(tensor, indies), (int(row_size), int(col_size)))
 
-- 
2.43.0


From 85403d725b74c99f9526af8a985adff621aa956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 02/12] fix: DTensor.unfold honours the requested mode on every
 call

---
 tensorD/base/type.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensorD/base/type.py b/tensorD/base/type.py
index 155403d..c7f57c0 100644
--- a/tensorD/base/type.py
+++ b/tensorD/base/type.py
@@ -48,8 +48,7 @@ class DTensor(object):
         return DTensor(ops.mul(self.T, tensor.T, a_axis, b_axis))
 
     def unfold(self, mode=0):
-        if self.unfold_T is None:
-            self.unfold_T = ops.unfold(self.T, mode)
+        self.unfold_T = ops.unfold(self.T, mode)
         return DTensor(self.unfold_T)
 
     def t2mat(self, r_axis, c_axis):
-- 
2.43.0


From 1d618807281a19ab6e1768fa73c3dac57ea59d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 03/12] fix: KTensor weights take the precision of the factors

---
 tensorD/base/type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/base/type.py b/tensorD/base/type.py
index c7f57c0..0fa3dca 100644
--- a/tensorD/base/type.py
+++ b/tensorD/base/type.py
@@ -139,10 +139,10 @@ class KTensor(object):
         # Note that the shape of lambdas must be (x, 1).
         # The dimension of "1" should not be ignored!!
         if lambdas is None:
-            self.lambdas = tf.ones((self.U[0].get_shape()[1].value, 1), dtype=tf.float32)
+            self.lambdas = tf.ones((self.U[0].get_shape()[1].value, 1), dtype=self.U[0].dtype.base_dtype)
         else:
             if isinstance(lambdas, np.ndarray):
-                self.lambdas = tf.constant(lambdas)
+                self.lambdas = tf.constant(lambdas, dtype=self.U[0].dtype.base_dtype)
             else:
                 self.lambdas = lambdas
             if self.lambdas.get_shape().ndims == 1:
-- 
2.43.0


From 587d5ba321d29fb3a4788e8c9c19d2b727f85cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 04/12] fix: pitf_ops.shrink multiplies by the transpose of the
 right singular vectors

---
 tensorD/base/pitf_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 6d3e7fa..8711b5e 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -650,14 +650,14 @@ def shrink(mat, tao, mode='normal'):
     # print('shrink s2d done.')
     if mode == 'normal':
         print('shrink normal')
-        return tf.matmul(tf.matmul(u, sm), v)
+        return tf.matmul(tf.matmul(u, sm), v, transpose_b=True)
 
     if mode == 'complicated':
         vecr1 = tf.ones((shape[0], 1))
         vecr2 = tf.ones((shape[1], 1))
         delta_num = tf.div(tf.matmul(tf.matmul(tf.transpose(vecr1), mat), vecr2), tf.sqrt(tf.cast(shape[0]*shape[1],
                                                                                       dtype=mat.dtype)), name='delta_num')
-        tmp1 = tf.matmul(tf.matmul(u, sm), v)
+        tmp1 = tf.matmul(tf.matmul(u, sm), v, transpose_b=True)
         tmp2 = (tf.maximum(tf.cast(0, dtype=mat.dtype), delta_num-tao)
                 +tf.minimum(tf.cast(0, dtype=mat.dtype), delta_num+tao))*tf.ones(shape)/tf.sqrt(tf.cast(shape[0]*shape[1],
                                                                                                       dtype=mat.dtype))
-- 
2.43.0


From 1737028c722ec01c14446afb25fda59fff8f4532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 05/12] fix: pitf_ops.adjoint_operator builds the shape of the
 third matrix without an unsupported slice

---
 tensorD/base/pitf_ops.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 8711b5e..01459a1 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -414,8 +414,7 @@ def adjoint_operator(spl, sample_vec, shape, sp_num, dim=None):
         indices = tf.cast(indices, dtype=tf.int64)
         values = tf.cast(values, dtype=sample_vec.dtype)
         shape_t = tf.cast(shape, dtype=tf.int64)
-        shape_t_re = shape_t[::-1]
-        mat_shape = shape_t_re[0:3:2]
+        mat_shape = tf.stack([shape_t[2], shape_t[0]])
         # tensor = tf.sparse_to_dense(indices, mat_shape, value)
         delta = tf.SparseTensor(indices, values, mat_shape)
         dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False,  name='adjoint_s2d_3')
-- 
2.43.0


From 82f122c91d7645c98519f834bea38fe09adac56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 06/12] fix: pitf_ops.cone_projection_operator branches inside
 the graph

---
 tensorD/base/pitf_ops.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 01459a1..26513ae 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -545,13 +545,11 @@ def cone_projection_operator(x, t):
     >>> tf.Session().run(t1)
     """
     norm_x = tf.norm(x, ord='euclidean')
-    if norm_x <= t:
-        return x, t
-    if t <= tf.negative(norm_x):
-        return 0, 0
-    if t >= tf.negative(norm_x) and t <= norm_x:
-        tmp = (norm_x + t)/(2 * norm_x)
-        return tmp*x, tmp*norm_x
+    t = tf.cast(t, dtype=norm_x.dtype)
+    tmp = (norm_x + t)/(2 * norm_x)
+    return tf.cond(norm_x <= t, lambda: (tf.identity(x), tf.identity(t)),
+                   lambda: tf.cond(t <= tf.negative(norm_x), lambda: (tf.zeros_like(x), tf.zeros_like(t)),
+                                   lambda: (tmp*x, tmp*norm_x)))
 
 
 def SVT(mat, tao):
-- 
2.43.0


From 19efbc97af5012a4e116f96e7f54217ba2065546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 07/12] fix: PITF keeps one sample set for the whole recovery

---
 tensorD/factorization/pitf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index 1273ce8..f09b156 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -45,7 +45,7 @@ class PITF(BaseFact):
                           name='tao')
         y = tf.Variable(np.zeros(spn), dtype=tensor.dtype, name='y_sample_vector')
         a, b, c = pitf_ops.sample3D_rule(shape, spn)  # sample list
-        spl = [a, b, c]
+        spl = [tf.Variable(idx, trainable=False) for idx in (a, b, c)]  # drawn once, at initialization
         # # degree pf freedom
         # fd = r*(shape[0]+shape[1]-r)+r*(shape[1]+shape[2]-r) + \
         #      r*(shape[2]+shape[0]-r)
-- 
2.43.0


From 3ca3398957dfd813c2eacb0e56c3b29573b99016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 08/12] fix: predict works after training and raises TensorErr
 before it

---
 tensorD/factorization/cp.py      | 2 +-
 tensorD/factorization/ncp.py     | 2 +-
 tensorD/factorization/ntucker.py | 2 +-
 tensorD/factorization/tucker.py  | 4 ++++
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 6d58305..54b2500 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -44,7 +44,7 @@ class CP_ALS(BaseFact):
         self._rel_res_op = None
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index f67095e..70cc8cc 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -41,7 +41,7 @@ class NCP_BCU(BaseFact):
         self._is_train_finish = False
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 00d3548..09ec454 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -42,7 +42,7 @@ class NTUCKER_BCU(BaseFact):
         self._is_train_finish = False
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 3d2a49a..7a14333 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -85,6 +85,8 @@ class HOSVD(BaseFact):
         self._is_train_finish = True
 
     def predict(self, *key):
+        if self._full_tensor is None:
+            raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
     @property
@@ -190,6 +192,8 @@ class HOOI(BaseFact):
         return self._full_tensor
 
     def predict(self, *key):
+        if self._full_tensor is None:
+            raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
     @property
-- 
2.43.0


From 2c05c2c5391ae30fa608a729aa1d9ce96c420a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 09/12] fix: the full tensor is refreshed in every training
 step

---
 tensorD/factorization/cp.py      | 2 +-
 tensorD/factorization/ncp.py     | 4 ++--
 tensorD/factorization/ntucker.py | 4 ++--
 tensorD/factorization/tucker.py  | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 54b2500..422cecb 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -155,7 +155,7 @@ class CP_ALS(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, self._lambdas, loss_v, obj, rel_res = sess.run([factor_update_op, lambda_op, loss_op, obj_op, rel_res_op],
+                self._factors, self._lambdas, self._full_tensor, loss_v, obj, rel_res = sess.run([factor_update_op, lambda_op, full_op, loss_op, obj_op, rel_res_op],
                                                                 feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 70cc8cc..5140844 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -207,8 +207,8 @@ class NCP_BCU(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, loss_v, rel_res, obj, _ = sess.run(
-                    [factor_update_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
+                self._factors, self._full_tensor, loss_v, rel_res, obj, _ = sess.run(
+                    [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
 
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 09ec454..f66aac1 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -242,8 +242,8 @@ class NTUCKER_BCU(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, loss_v, rel_res, obj, _ = sess.run(
-                    [factor_update_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
+                self._factors, self._full_tensor, loss_v, rel_res, obj, _ = sess.run(
+                    [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 7a14333..ac2ef7c 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -238,7 +238,7 @@ class HOOI(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, self._core, loss_v, obj, rel_res = sess.run([factor_update_op, core_op, loss_op, obj_op, rel_res_op],
+                self._full_tensor, self._factors, self._core, loss_v, obj, rel_res = sess.run([full_op, factor_update_op, core_op, loss_op, obj_op, rel_res_op],
                                                              feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
-- 
2.43.0


From 7b8c93a8265ed8bc715503141a4d951e4e0924e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 10/12] fix: CP and HOOI compare each objective with the
 previous one

---
 tensorD/factorization/cp.py     | 1 +
 tensorD/factorization/tucker.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 422cecb..78cf25e 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -171,6 +171,7 @@ class CP_ALS(BaseFact):
             if nstall >= 3 or relerr2 < args.tol:
                 break
 
+            obj0 = obj
 
         print('CP model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
         self._is_train_finish = True
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index ac2ef7c..5f62543 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -254,6 +254,8 @@ class HOOI(BaseFact):
             if nstall >= 3 or relerr2 < args.tol:
                 break
 
+            obj0 = obj
+
         print('HOOI model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
         self._is_train_finish = True
         return hist
-- 
2.43.0


From b9ad17519c171af907d1cda1fc1cbdc0c3287a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 11/12] fix: a model merges only its own summaries

---
 tensorD/factorization/cp.py      |  6 +++---
 tensorD/factorization/ncp.py     |  6 +++---
 tensorD/factorization/ntucker.py |  6 +++---
 tensorD/factorization/pitf.py    |  6 +++---
 tensorD/factorization/tucker.py  | 10 +++++-----
 5 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 78cf25e..021d1b8 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -106,8 +106,8 @@ class CP_ALS(BaseFact):
         with tf.name_scope('objective-value') as scope:
             obj_op = 0.5 * tf.square(tf.norm(full_op - input_data))
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        self._sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                         tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -137,7 +137,7 @@ class CP_ALS(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 5140844..db01a32 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -152,8 +152,8 @@ class NCP_BCU(BaseFact):
             with tf.control_dependencies([Am_update_op1[order - 1]]):
                 t0_update_op1 = t0.assign(t)
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        self._sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                         tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -187,7 +187,7 @@ class NCP_BCU(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index f66aac1..11ea637 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -181,8 +181,8 @@ class NTUCKER_BCU(BaseFact):
         with tf.control_dependencies([Am_update_op1[order - 1]]):
             t0_update_op1 = t0.assign(t)
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        self._sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                         tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -221,7 +221,7 @@ class NTUCKER_BCU(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index f09b156..be33854 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -92,8 +92,8 @@ class PITF(BaseFact):
             y_new = y + delt*e
             sample_vector_update_op = y.assign(y_new)
 
-        tf.summary.scalar('error rate', erate_op)
-        tf.summary.scalar('loss', loss_op)
+        self._sum_op = tf.summary.merge([tf.summary.scalar('error rate', erate_op),
+                                         tf.summary.scalar('loss', loss_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -123,7 +123,7 @@ class PITF(BaseFact):
         e1 = self._e1
         e2 = self._e2
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
         sess.run(init_op)
         print('PITF model initial finish')
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 5f62543..7ad7acd 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -44,7 +44,7 @@ class HOSVD(BaseFact):
         with tf.name_scope('loss') as scope:
             loss_op = rmse_ignore_zero(input_data, full_op)
 
-        tf.summary.scalar('loss', loss_op)
+        self._sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op)])
 
         self._args = args
         self._init_op = init_op
@@ -67,7 +67,7 @@ class HOSVD(BaseFact):
         self._is_train_finish = False
         sess = self._env.sess
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(self._init_op, feed_dict=self._feed_dict)
@@ -175,8 +175,8 @@ class HOOI(BaseFact):
             obj_op = 0.5 * tf.square(tf.norm(full_op - input_data))
 
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        self._sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                         tf.summary.scalar('relative_residual', rel_res_op)])
 
         self._args = args
         self._init_op = init_op
@@ -221,7 +221,7 @@ class HOOI(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
-- 
2.43.0


From d2af4c73ddd9183e84ddd0d7326874206dde863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 12/12] fix: HOOI and PITF clear the finished flag when
 training starts

---
 tensorD/factorization/pitf.py   | 2 ++
 tensorD/factorization/tucker.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index be33854..dd47ca7 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -113,6 +113,8 @@ class PITF(BaseFact):
         return self._is_train_finish
 
     def train(self, steps):
+        self._is_train_finish = False
+
         sess = self._env.sess
         args = self._args
         init_op = self._init_op
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 7ad7acd..ec98738 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -209,6 +209,8 @@ class HOOI(BaseFact):
         return self._is_train_finish
 
     def train(self, steps):
+        self._is_train_finish = False
+
         sess = self._env.sess
         args = self._args
 
-- 
2.43.0

