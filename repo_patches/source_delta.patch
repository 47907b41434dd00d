From 7e66ea4290bca8b5a893acc58adb1ebe02635cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 01/51] fix: let numpy arrays defer to the operators of
 OperatorMatrix

array * operator broadcast over the operator as a scalar and returned an
object array instead of calling OperatorMatrix.__rmul__.
---
 qopt/matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index c77968d..45fa094 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -102,6 +102,10 @@ class OperatorMatrix(ABC):
         The stored data. Its type is defined in subclasses.
     """
 
+    # Let numpy arrays and scalars defer to the reflected operators defined
+    # here, instead of broadcasting over the operator as if it was a scalar.
+    __array_priority__ = 1000
+
     def __init__(self) -> None:
         self.data = None
         self._size = 0
-- 
2.43.0


From fc3d790248b4820ad597ebb378f94650d2fedf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 02/51] fix: create DenseOperator from Qobj with Qobj.full()

Qobj.data has no todense() in qutip 5.
---
 qopt/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 45fa094..067f75c 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -706,7 +706,7 @@ class DenseOperator(OperatorMatrix):
         super().__init__()
         self.data = None
         if type(obj) is Qobj:
-            self.data = np.array(obj.data.todense())
+            self.data = np.array(obj.full())
         elif type(obj) is np.ndarray:
             self.data = obj
         elif type(obj) is sp.csr_matrix:
-- 
2.43.0


From 42d89558cf056f724038e46616b69912ada1560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 03/51] fix: partial trace over all or none of the subspaces

The product of an empty list of dimensions is a float and raised a TypeError.
---
 qopt/matrix.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 067f75c..593bf16 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -950,10 +950,10 @@ class DenseOperator(OperatorMatrix):
         pmat = np.trace(mat.reshape(dims + dims)
                            .transpose(remove + [n_dim + q for q in remove] +
                                       keep + [n_dim + q for q in keep])
-                           .reshape([np.prod(dims_rm),
-                                    np.prod(dims_rm),
-                                    np.prod(dims_keep),
-                                    np.prod(dims_keep)])
+                           .reshape([np.prod(dims_rm, dtype=int),
+                                    np.prod(dims_rm, dtype=int),
+                                    np.prod(dims_keep, dtype=int),
+                                    np.prod(dims_keep, dtype=int)])
                         )
 
         if do_copy:
-- 
2.43.0


From 20e64b845fdbfad3a350cfac41aca9eb95527684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 04/51] fix: truncate and renormalise ket vectors

The ket branch was unreachable and the norm was misspelled, so that kets were
never renormalised and renormalising a bra raised a ValueError.
---
 qopt/matrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 593bf16..625906d 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1299,12 +1299,12 @@ class DenseOperator(OperatorMatrix):
             # bra-vector
             out = type(self)(self.data[np.ix_([0], subspace_indices)])
             if map_to_closest_unitary:
-                out *= 1 / out.norm('fre')
-        elif self.shape[0] == 1:
+                out *= 1 / out.norm('fro')
+        elif self.shape[1] == 1:
             # ket-vector
             out = type(self)(self.data[np.ix_(subspace_indices, [0])])
             if map_to_closest_unitary:
-                out *= 1 / out.norm('fre')
+                out *= 1 / out.norm('fro')
         else:
             out = type(self)(self.data[np.ix_(subspace_indices)])
 
-- 
2.43.0


From 97aa8f1a59c6d17cf4e9c203a86dfd1945be2ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 05/51] fix: spectral matrix exponential of matrices without
 orthogonal eigenvectors

The eigenvector matrix is only unitary in the skew hermitian case. Use its
inverse otherwise.
---
 qopt/matrix.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 625906d..5f84fcd 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -996,13 +996,15 @@ class DenseOperator(OperatorMatrix):
         if is_skew_hermitian:
             eig_val, eig_vec = np.linalg.eigh(-1j * self.data)
             eig_val = 1j * eig_val
+            eig_vec_inv = eig_vec.conj().T
         else:
             eig_val, eig_vec = np.linalg.eig(self.data)
+            eig_vec_inv = np.linalg.inv(eig_vec)
 
         # apply the exponential function to the eigenvalues and invert the
         # diagonalization transformation
-        exp = np.einsum('ij,j,kj->ik', eig_vec, np.exp(tau * eig_val),
-                        eig_vec.conj())
+        exp = np.einsum('ij,j,jk->ik', eig_vec, np.exp(tau * eig_val),
+                        eig_vec_inv)
 
         return DenseOperator(exp)
 
-- 
2.43.0


From d28cbd6f54c9b57c4b21350fe59551bcb8fbf0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 06/51] fix: spectral Frechet derivative of the matrix
 exponential

The direction was transformed with the inverse of the basis transformation
(wrong for complex eigenvectors), degenerate eigenvalues led to a division by
zero and the eigenvector matrix was assumed to be unitary in general.
---
 qopt/matrix.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 5f84fcd..8339564 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1044,29 +1044,30 @@ class DenseOperator(OperatorMatrix):
         if is_skew_hermitian:
             eig_val, eig_vec = np.linalg.eigh(-1j * self.data)
             eig_val = 1j * eig_val
+            eig_vec_inv = eig_vec.conj().T
         else:
             eig_val, eig_vec = np.linalg.eig(self.data)
-
-        eig_vec_dag = eig_vec.conj().T
+            eig_vec_inv = np.linalg.inv(eig_vec)
 
         eig_val_cols = eig_val * np.ones(self.shape)
         eig_val_diffs = eig_val_cols - eig_val_cols.T
 
         # avoid devision by zero
-        eig_val_diffs += np.eye(self.data.shape[0])
+        degenerate = eig_val_diffs == 0
+        eig_val_diffs[degenerate] = 1.
 
-        omega = (np.exp(eig_val_diffs * tau) - 1.) / eig_val_diffs
+        omega = np.expm1(eig_val_diffs * tau) / eig_val_diffs
 
-        # override the false diagonal elements.
-        np.fill_diagonal(omega, tau)
+        # override the false elements belonging to equal eigenvalues.
+        omega[degenerate] = tau
 
-        direction_transformed = eig_vec @ direction.data @ eig_vec_dag
+        direction_transformed = eig_vec_inv @ direction.data @ eig_vec
         dk_dalpha = direction_transformed * omega
 
         exp = np.einsum('ij,j,jk->ik', eig_vec, np.exp(tau * eig_val),
-                        eig_vec_dag)
+                        eig_vec_inv)
         # einsum might be less accurate than the @ operator
-        dv_dalpha = eig_vec_dag @ dk_dalpha @ eig_vec
+        dv_dalpha = eig_vec @ dk_dalpha @ eig_vec_inv
         du_dalpha = exp @ dv_dalpha
 
         if compute_expm:
-- 
2.43.0


From b56b40b4a3c67434106eb96690b47b5dd5d4f102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 07/51] fix: order of the grape propagator derivatives of
 SchroedingerSolver

The derivatives were stored as [time][ctrl] instead of [ctrl][time], which is
the documented order used by all cost functions.
---
 qopt/solver_algorithms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 5ce5f68..fd1cbe0 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -966,12 +966,13 @@ class SchroedingerSolver(Solver):
             if self._prop is None:
                 self._compute_propagation(
                     calculate_propagator_derivatives=False)
-            self._derivative_prop = [[None for _ in range(len(self.h_ctrl))]
-                                     for _2 in range(len(self.transferred_time))]
+            self._derivative_prop = [
+                [None for _ in range(len(self.transferred_time))]
+                for _2 in range(len(self.h_ctrl))]
             derivative_directions = self._compute_derivative_directions()
             for t in range(len(self.transferred_time)):
                 for ctrl in range(len(self.h_ctrl)):
-                    self._derivative_prop[t][ctrl] = \
+                    self._derivative_prop[ctrl][t] = \
                         self.transferred_time[t] * derivative_directions[t][ctrl] \
                         * self._prop[t]
         else:
-- 
2.43.0


From 55c773a9f3db508e11e2c998aaea8cfb7446c00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 08/51] fix: do not modify the dissipation super operators
 given by the user

The sum of the dissipation super operators was accumulated in the first
operator of the list passed to LindbladSolver.
---
 qopt/solver_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index fd1cbe0..79bc4b9 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -1919,7 +1919,7 @@ class LindbladSolver(SchroedingerSolver):
                                    factor_at_time_t[1:]):
                         self._diss_sup_op[-1] += sup_op * factor
             else:
-                self._diss_sup_op = [const_diss_sup_op[0], ]
+                self._diss_sup_op = [const_diss_sup_op[0].copy(), ]
                 for sup_op in const_diss_sup_op[1:]:
                     self._diss_sup_op[0] += sup_op
                 self._diss_sup_op *= len(self.transferred_time)
-- 
2.43.0


From f46b7018ceb0f19a0ac5b1289e04fc9193a235df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 09/51] fix: validate optimization parameters before storing
 them

Parameters rejected with a ValueError were accepted silently when set again, and
the control amplitudes could be a view of the array passed by the caller.
---
 qopt/solver_algorithms.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 79bc4b9..b458bc0 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -374,18 +374,19 @@ class Solver(ABC):
         if np.array_equal(self._opt_pars, y):
             return
         else:
-            self._opt_pars = np.copy(y)
+            # neither later changes to y by the caller nor rejected values may
+            # affect the state of the solver
+            y = np.copy(y)
 
         if self.transfer_function is not None:
-            self.transferred_parameters = self.transfer_function(y)
+            transferred_parameters = self.transfer_function(y)
         else:
-            self.transferred_parameters = np.copy(y)
+            transferred_parameters = y
 
         if self.amplitude_function is not None:
-            u = self.amplitude_function(
-                self.transferred_parameters)
+            u = self.amplitude_function(transferred_parameters)
         else:
-            u = self.transferred_parameters
+            u = transferred_parameters
 
         if len(u.shape) != 2:
             raise ValueError('The new control amplitudes must have two '
@@ -400,6 +401,8 @@ class Solver(ABC):
             raise ValueError('The new control amplitudes do not have the '
                              'correnct number of entries on the control axis!')
 
+        self._opt_pars = y
+        self.transferred_parameters = transferred_parameters
         self._ctrl_amps = u
         self.reset_cached_propagators()
 
-- 
2.43.0


From 0e56af432ce466a8af76556c596a0b6f1c921f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 10/51] fix: solvers without drift Hamiltonian

An empty list passes the consistency checks as documented there, but raised an
IndexError as soon as the propagators were calculated.
---
 qopt/solver_algorithms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index b458bc0..41a3a5f 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -328,6 +328,8 @@ class Solver(ABC):
 
         if type(h_drift) in [matrix.DenseOperator, matrix.SparseOperator]:
             self.h_drift = [h_drift, ] * self.transfer_function.num_x
+        elif len(h_drift) == 0:
+            self.h_drift = [0 * h_ctrl[0], ] * self.transfer_function.num_x
         elif len(h_drift) == 1:
             self.h_drift = h_drift * self.transfer_function.num_x
         else:
-- 
2.43.0


From 804aca7c68baa4fd7848977b4992ddb36313788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 11/51] fix: filter function noise Hamiltonian of
 SchroedingerSMonteCarlo

A callable was not called with the three documented arguments and the order of
the noise operators was not stored, so that OperatorFilterFunctionInfidelity
failed.
---
 qopt/solver_algorithms.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 41a3a5f..77776bc 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -1469,17 +1469,16 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
             Noise Hamiltonian of the filter function formalism.
 
         """
-        if type(self._filter_function_h_n) == list:
-            h_n = self._filter_function_h_n
-        else:
-            h_n = self._filter_function_h_n(self._opt_pars)
+        if self._filter_function_h_n:
+            return super().create_ff_h_n
 
-        if not h_n:
-            h_n = []
-            for i, noise_operator in enumerate(self.h_noise):
-                if type(noise_operator) == matrix.DenseOperator:
-                    noise_operator = noise_operator.data
-                h_n += [[noise_operator, len(self.transferred_time) * [1], 'Noise' + str(i)], ]
+        h_n = []
+        self.filter_function_n_oper_identifiers = []
+        for i, noise_operator in enumerate(self.h_noise):
+            if type(noise_operator) == matrix.DenseOperator:
+                noise_operator = noise_operator.data
+            h_n += [[noise_operator, len(self.transferred_time) * [1], 'Noise' + str(i)], ]
+            self.filter_function_n_oper_identifiers.append('Noise' + str(i))
 
         return h_n
 
-- 
2.43.0


From 8df3df5fb9b2577838f8ff901c9be3464e9029c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 12/51] fix: update the transferred parameters when new times
 are set

After Solver.set_times the control amplitudes calculated with the old times were
kept, even if the same optimization parameters were set again.
---
 qopt/solver_algorithms.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 77776bc..8616e81 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -284,7 +284,7 @@ class Solver(ABC):
 
         self.h_ctrl = h_ctrl
         self._ctrl_amps = ctrl_amps
-        self._opt_pars = opt_pars
+        self._opt_pars = None
 
         if initial_state is None:
             dim = self.h_ctrl[0].shape[0]
@@ -325,6 +325,7 @@ class Solver(ABC):
 
         self.transferred_time = None
         self.set_times(tau=tau)
+        self._opt_pars = opt_pars
 
         if type(h_drift) in [matrix.DenseOperator, matrix.SparseOperator]:
             self.h_drift = [h_drift, ] * self.transfer_function.num_x
@@ -357,6 +358,12 @@ class Solver(ABC):
         self.transferred_time = self.transfer_function.x_times
         self.reset_cached_propagators()
 
+        if self._opt_pars is not None:
+            # The transferred parameters depend on the times in general.
+            opt_pars, self._opt_pars = self._opt_pars, None
+            if len(opt_pars) == np.size(tau):
+                self.set_optimization_parameters(opt_pars)
+
     def set_optimization_parameters(self, y: np.array) -> None:
         """
         Set the control amplitudes.
-- 
2.43.0


From 57c2d7de0e8f9479a3cfae8b62c5f19aeedf4873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 13/51] fix: recalculate the transfer matrix when new times are
 set

MatrixTF kept using the transfer matrix belonging to the times it was first
evaluated with.
---
 qopt/transfer_function.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index d1ccc38..9ed304a 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1107,6 +1107,12 @@ class MatrixTF(TransferFunction):
             self._calculate_transfer_matrix()
         return copy.deepcopy(self._transfer_matrix)
 
+    def set_times(self, y_times: np.array) -> None:
+        """See base class. """
+        super().set_times(y_times)
+        # the transfer matrix generally depends on the times
+        self._transfer_matrix = None
+
     @abstractmethod
     def _calculate_transfer_matrix(self):
         """Create the transfer matrix. """
@@ -1299,6 +1305,7 @@ class ParallelMTF(MatrixTF):
         self._y_times = self.tf1._y_times
         self.num_x = self.tf1.num_x
         self.x_times = self.tf1.x_times
+        self._transfer_matrix = None
 
 
 class CustomMTF(MatrixTF):
@@ -1383,7 +1390,8 @@ class CustomMTF(MatrixTF):
                 raise ValueError('Unknown boundary type:'
                                  + str(self.bound_type[0]))
             self.oversampling = int(self.oversampling)
-            super().set_times(y_times)
+            # the transfer matrix is constant and must not be reset
+            TransferFunction.set_times(self, y_times)
         else:
             y_times = np.squeeze(y_times)
             self.x_times = y_times
-- 
2.43.0


From 4e836b5e41d46a2aa8f8c3d67da4845c3c8497f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 14/51] fix: evaluation and gradient of ConcatenateMTF

The transfer matrix was never set, so that calling the transfer function and the
chain rule failed. The offsets now enter as in the sequential application.
---
 qopt/transfer_function.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 9ed304a..9ecc753 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1210,12 +1210,10 @@ class ConcatenateMTF(MatrixTF):
         self.x_times = tf2.x_times
         self.num_x = tf2.num_x
 
-    @property
-    def transfer_matrix(self):
-        """The total transfer matrix is the product of the individual ones."""
-        return np.einsum('ijk,jlk->ilk',
-                         self.tf2.transfer_matrix,
-                         self.tf1.transfer_matrix)
+    def __call__(self, y: np.ndarray) -> np.ndarray:
+        """Calls the concatenated transfer functions in sequence."""
+        self._check_dimensions_datatype(y)
+        return self.tf2(self.tf1(y))
 
     def set_times(self, y_times: np.ndarray) -> None:
         """
@@ -1235,6 +1233,7 @@ class ConcatenateMTF(MatrixTF):
         self._y_times = self.tf1._y_times
         self.x_times = self.tf2.x_times
         self.num_x = self.tf2.num_x
+        self._transfer_matrix = None
         return
 
     def plot_pulse(self, y: np.ndarray) -> None:
@@ -1242,9 +1241,10 @@ class ConcatenateMTF(MatrixTF):
         self.tf2.plot_pulse(self.tf1(y))
 
     def _calculate_transfer_matrix(self):
-        """See base class. """
-        self.tf1._calculate_transfer_matrix()
-        self.tf2._calculate_transfer_matrix()
+        """The total transfer matrix is the product of the individual ones."""
+        self._transfer_matrix = np.einsum('ijk,jlk->ilk',
+                                          self.tf2.transfer_matrix,
+                                          self.tf1.transfer_matrix)
 
 
 class ParallelMTF(MatrixTF):
-- 
2.43.0


From f1ac43cba0166d351b81d247947ca376f7f576d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 15/51] fix: ParallelMTF ignored the offsets of its transfer
 functions

---
 qopt/transfer_function.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 9ecc753..0ed3b04 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1292,6 +1292,14 @@ class ParallelMTF(MatrixTF):
             raise ValueError("The parallized transfer functions must have the "
                              "same oversampling.")
 
+    def __call__(self, y: np.ndarray) -> np.ndarray:
+        """Evaluates the transfer functions including their offsets. """
+        self._check_dimensions_datatype(y)
+        return np.concatenate(
+            (self.tf1(y[:, :self.tf1.num_ctrls]),
+             self.tf2(y[:, self.tf1.num_ctrls:])),
+            axis=1)
+
     def _calculate_transfer_matrix(self):
         """See base class. """
         self._transfer_matrix = np.concatenate(
-- 
2.43.0


From 48f5f0551a8d552df94dd843340774032dd240de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 16/51] fix: ExponentialMTF with a single time step and short
 padding

The padding is shorter than the oversampling in general, which led to a
ValueError. The padding elements are set separately.
---
 qopt/transfer_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 0ed3b04..9b034c5 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1537,7 +1537,7 @@ class ExponentialMTF(MatrixTF):
 
         # for the padding at the beginning
         dudx[0:self.oversampling, 0] = one_minus_exp
-        if self.num_x > self.oversampling:
+        if self._num_y > 1:
             dudx[self.oversampling:2 * self.oversampling, 0] = exp
 
         # main part
-- 
2.43.0


From 225459c8071853e5c70d09c7a65190d8b423083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 17/51] fix: chain rule of ConvolutionTF

The gradient was calculated with the convolution itself instead of its adjoint
and with a different boundary mode, which is wrong for asymmetric kernels and at
the boundaries.
---
 qopt/transfer_function.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 9b034c5..c5d0a7d 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -741,7 +741,8 @@ class ConvolutionTF(TransferFunction):
             self, deriv_by_transferred_par: np.array) -> np.array:
         """ See base class.
 
-        The application of the chain rule is another convolution.
+        The chain rule is the application of the adjoint of the convolution
+        including its boundary conditions.
 
         Parameters
         ----------
@@ -761,11 +762,15 @@ class ConvolutionTF(TransferFunction):
         assert shape[2] == self.num_ctrls
         assert deriv_by_transferred_par.dtype in [np.float64, np.float32]
 
-        return scipy.ndimage.convolve(
-            deriv_by_transferred_par,
-            weights=np.expand_dims(self.kernel, axis=1),
-            cval=self.cval
-        )
+        # response to a unit pulse in each of the optimization parameters
+        num_pars = self._num_y * self.num_ctrls
+        unit_response = scipy.ndimage.convolve(
+            np.eye(num_pars).reshape(num_pars, self._num_y, self.num_ctrls),
+            weights=np.expand_dims(self.kernel, axis=0), mode=self.mode
+        ).reshape(self._num_y, self.num_ctrls, self.num_x, self.num_ctrls)
+
+        return np.einsum('jkil,ifl->jfk', unit_response,
+                         deriv_by_transferred_par)
 
     @property
     def transfer_matrix(self) -> np.array:
-- 
2.43.0


From 7efb2c6d95cc4f1b8b01af1e8628209aa05feb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 18/51] fix: chain rule of GaussianConvolution

The Gaussian filter is not self-adjoint at the boundaries and for odd orders.
---
 qopt/transfer_function.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index c5d0a7d..e4e02bd 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -875,7 +875,8 @@ class GaussianConvolution(TransferFunction):
             self, deriv_by_transferred_par: np.array) -> np.array:
         """ See base class.
 
-        The application of the chain rule is another Gaussian filter.
+        The chain rule is the application of the adjoint of the Gaussian filter
+        including its boundary conditions.
 
         Parameters
         ----------
@@ -895,10 +896,13 @@ class GaussianConvolution(TransferFunction):
         assert shape[2] == self.num_ctrls
         assert deriv_by_transferred_par.dtype in [np.float64, np.float32]
 
-        return scipy.ndimage.gaussian_filter1d(
-            deriv_by_transferred_par, self.sigma, axis=0, order=self.order,
+        # response to a unit pulse in each of the time steps
+        unit_response = scipy.ndimage.gaussian_filter1d(
+            np.eye(self._num_y), self.sigma, axis=0, order=self.order,
             mode=self.mode, truncate=self.truncate
         )
+        return np.einsum('ij,ifk->jfk', unit_response,
+                         deriv_by_transferred_par)
 
     @property
     def transfer_matrix(self) -> np.array:
-- 
2.43.0


From 96f1eee2558e0aa51a8cdcd49e1d216daa234924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 19/51] fix: times of CustomMTF

Explicitly given x_times were overwritten by the times of the optimization
parameters, which in turn were never stored. Setting the times a second time had
the same effect on the constructed x_times.
---
 qopt/transfer_function.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index e4e02bd..14ee367 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1375,6 +1375,7 @@ class CustomMTF(MatrixTF):
         self._num_y = transfer_matrix.shape[1]
         self.num_x = transfer_matrix.shape[0]
         self.x_times = x_times
+        self._explicit_x_times = x_times is not None
         self.bound_type = bound_type
         self.oversampling = oversampling
 
@@ -1385,7 +1386,7 @@ class CustomMTF(MatrixTF):
 
     def set_times(self, y_times: np.ndarray) -> None:
         """See base class."""
-        if self.x_times is None:
+        if not self._explicit_x_times:
             # construct the oversampling
             if self.bound_type is None:
                 # assume no padding
@@ -1410,11 +1411,11 @@ class CustomMTF(MatrixTF):
             # the transfer matrix is constant and must not be reset
             TransferFunction.set_times(self, y_times)
         else:
-            y_times = np.squeeze(y_times)
-            self.x_times = y_times
+            y_times = np.atleast_1d(np.squeeze(y_times))
             if len(y_times) != self._num_y:
                 raise ValueError('Trying to set x_times, which do not fit the'
                                  'dimension of the transfer function.')
+            self._y_times = y_times
 
     def _calculate_transfer_matrix(self):
         """See base class. """
-- 
2.43.0


From 7ef9b66f419a8ab99bd50e6d2e8473f5927e0bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:25 +0000
Subject: [PATCH 20/51] fix: unitarity check of angle_axis_representation

The second diagonal element was never checked.
---
 qopt/cost_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 0bd8bff..7640ed7 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -184,7 +184,7 @@ def angle_axis_representation(u: np.ndarray) \
     is_unitary = np.isclose(ident[0, 0], 1) \
                  and np.isclose(ident[1, 0], 0) \
                  and np.isclose(ident[0, 1], 0) \
-                 and np.isclose(ident[0, 0], 1)
+                 and np.isclose(ident[1, 1], 1)
 
     if not is_unitary:
         raise ValueError("Your input matrix must be unitary to calculate a "
-- 
2.43.0


From bcefc7e61bfa2ca2f3dab1eee200966c0eee06ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:25 +0000
Subject: [PATCH 21/51] fix: angle axis representation of small rotations

The cancellation in 1 - cos ** 2 raised AssertionErrors for angles around
1e-6 and lost half of the digits for other small angles.
---
 qopt/cost_functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 7640ed7..75f73cd 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -193,7 +193,10 @@ def angle_axis_representation(u: np.ndarray) \
     # there is an unphysical global phase alpha
     cos_alpha = .5 * (u[0, 0] + u[1, 1])
     # beta in [0, pi) so sin in [0, 1]
-    sin = np.sqrt(1 - np.abs(cos_alpha) ** 2)
+    # (calculated as the norm of the rotation axis, because 1 - cos ** 2 suffers
+    # from cancellation for small angles)
+    sin = np.linalg.norm([u[0, 1] + u[1, 0], u[0, 1] - u[1, 0],
+                          u[0, 0] - u[1, 1]]) / 2
     if np.isclose(0, sin, atol=1e-6):
         return 0, np.array([1, 0, 0])
     n_1_alpha = (u[0, 1] + u[1, 0]) / 1j / sin / 2
@@ -208,7 +211,7 @@ def angle_axis_representation(u: np.ndarray) \
     else:
         return 0, np.array([1, 0, 0])
 
-    beta = np.arccos(np.real(cos_alpha / alpha)) * 2
+    beta = np.arctan2(sin, np.real(cos_alpha / alpha)) * 2
     n_1, n_2, n_3 = n_1_alpha / alpha, n_2_alpha / alpha, n_3_alpha / alpha
     assert np.isclose(np.linalg.norm(np.array([n_1, n_2, n_3])), 1, atol=1e-5)
 
-- 
2.43.0


From 52bff268cd06f71f46c7303574409c5778eff687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:25 +0000
Subject: [PATCH 22/51] fix: instantiation of OperatorMatrixNorm

The base class requires the solver.
---
 qopt/cost_functions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 75f73cd..d801fae 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -263,8 +263,7 @@ class OperatorMatrixNorm(CostFunction):
     def __init__(self, solver: solver_algorithms.Solver,
                  target: matrix.OperatorMatrix, mode: str = 'scalar',
                  label: Optional[List[str]] = None):
-        super().__init__()
-        self.solver = solver
+        super().__init__(solver=solver)
         self.target = target
         self.mode = mode
         if label is not None:
-- 
2.43.0


From fb1646b2634ac729abf209afcb4d7fd97bcd7a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:25 +0000
Subject: [PATCH 23/51] fix: StateNoiseInfidelity without target

---
 qopt/cost_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index d801fae..52d88c8 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -1131,7 +1131,7 @@ class StateNoiseInfidelity(CostFunction):
         self.solver = solver
 
         # assure target is a bra vector
-        if target.shape[0] > target.shape[1]:
+        if target is not None and target.shape[0] > target.shape[1]:
             self.target = target.dag()
         else:
             self.target = target
-- 
2.43.0


From ef7a909803d9c63061e7f1a00eda7648d4fd0256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:25 +0000
Subject: [PATCH 24/51] fix: state_fidelity_subspace with an imaginary
 component

The scalar product was indexed after its conversion to a scalar.
---
 qopt/cost_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 52d88c8..71ac7a6 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -631,7 +631,7 @@ def state_fidelity_subspace(
     scalar_prod = scalar_prod[0, 0]
     scalar_prod_real = scalar_prod.real
     if np.abs(scalar_prod - scalar_prod_real) > 1e-5:
-        scalar_prod_real = np.abs(scalar_prod[0, 0])
+        scalar_prod_real = np.abs(scalar_prod)
         print("Warning: the calculated fidelity should be real but has an "
               "imaginary component of : " + str(scalar_prod.imag))
     return scalar_prod_real
-- 
2.43.0


From df8b45f9d333447089b0a68bc127a761eaa0304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 25/51] fix: derivative of the state fidelity of rescaled
 states

The derivative of every propagated state was normalised instead of
differentiating the norm of the final state.
---
 qopt/cost_functions.py | 44 ++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 71ac7a6..3566c8d 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -511,15 +511,14 @@ def derivative_state_fidelity(
 
     """
 
-    if computational_states is not None:
-        scalar_prod = target * forward_propagators[-1].truncate_to_subspace(
-            subspace_indices=computational_states,
-            map_to_closest_unitary=rescale_propagated_state
-        )
-    else:
-        scalar_prod = target * forward_propagators[-1]
+    final_state = forward_propagators[-1].truncate_to_subspace(
+        subspace_indices=computational_states)
+    scalar_prod = np.conj(target * final_state)
 
-    scalar_prod = np.conj(scalar_prod)
+    # squared norm of the state before it is rescaled
+    rescale = computational_states is not None and rescale_propagated_state
+    norm_squared = final_state.norm('fro') ** 2 if rescale else 1.
+    fidelity = np.abs(scalar_prod[0, 0]) ** 2 / norm_squared
 
     num_ctrls = len(propagator_derivatives)
     num_time_steps = len(propagator_derivatives[0])
@@ -529,23 +528,18 @@ def derivative_state_fidelity(
     for ctrl in range(num_ctrls):
         for t in range(num_time_steps):
             # here we need to take the real part.
-            if computational_states:
-                derivative_fidelity[t, ctrl] = 2 * np.real(
-                    (scalar_prod * (
-                            target * (
-                            reversed_propagators[::-1][t + 1]
-                            * propagator_derivatives[ctrl][t]
-                            * forward_propagators[t]
-                    ).truncate_to_subspace(
-                        subspace_indices=computational_states,
-                        map_to_closest_unitary=rescale_propagated_state
-                    )
-                    ))[0, 0])
-            else:
-                derivative_fidelity[t, ctrl] = 2 * np.real(
-                    (scalar_prod * (target * reversed_propagators[::-1][t + 1]
-                                    * propagator_derivatives[ctrl][t]
-                                    * forward_propagators[t]))[0, 0])
+            state_derivative = (
+                reversed_propagators[::-1][t + 1]
+                * propagator_derivatives[ctrl][t]
+                * forward_propagators[t]
+            ).truncate_to_subspace(subspace_indices=computational_states)
+            derivative_fidelity[t, ctrl] = 2 * np.real(
+                (scalar_prod * (target * state_derivative))[0, 0])
+            if rescale:
+                # derivative of the norm in the denominator
+                derivative_fidelity[t, ctrl] -= 2 * fidelity * np.real(
+                    (final_state.dag() * state_derivative)[0, 0])
+                derivative_fidelity[t, ctrl] /= norm_squared
 
     return derivative_fidelity
 
-- 
2.43.0


From a0f878d23a77c6f011d6430a395021ce8df71dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 26/51] fix: gradient of the entanglement infidelity of the
 closest unitary

The costs are evaluated for the closest unitary to the truncated
propagator, but the gradients either ignored the mapping or applied it to the
derivative of the propagator.
---
 qopt/cost_functions.py | 25 ++++++++++++++++---------
 qopt/matrix.py         | 27 +++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 3566c8d..54d8045 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -808,14 +808,18 @@ def derivative_entanglement_fidelity_with_du(
         for t in range(num_time_steps):
             # here we need to take the real part.
             if computational_states:
+                final_derivative = (
+                    reversed_propagators[::-1][t + 1]
+                    * propagator_derivatives[ctrl][t]
+                    * forward_propagators[t]
+                ).truncate_to_subspace(subspace_indices=computational_states)
+                if map_to_closest_unitary:
+                    final_derivative = matrix.closest_unitary_derivative(
+                        forward_propagators[-1].truncate_to_subspace(
+                            computational_states),
+                        final_derivative)
                 derivative_fidelity[t, ctrl] = 2 / d / d * np.real(
-                    trace * ((reversed_propagators[::-1][t + 1]
-                              * propagator_derivatives[ctrl][t]
-                              * forward_propagators[t]).truncate_to_subspace(
-                        subspace_indices=computational_states,
-                        map_to_closest_unitary=map_to_closest_unitary
-                    )
-                             * target_unitary_dag).tr())
+                    trace * (final_derivative * target_unitary_dag).tr())
             else:
                 derivative_fidelity[t, ctrl] = 2 / d / d * np.real(
                     trace * (reversed_propagators[::-1][t + 1]
@@ -1304,6 +1308,7 @@ class OperationInfidelity(CostFunction):
                 reversed_propagators=self.solver.reversed_propagators,
                 propagator_derivatives=self.solver.frechet_deriv_propagators,
                 computational_states=self.computational_states,
+                map_to_closest_unitary=self.map_to_closest_unitary,
             )
         else:
             raise NotImplementedError('Only the average and entanglement'
@@ -1432,7 +1437,8 @@ class OperationNoiseInfidelity(CostFunction):
                 propagator_derivatives=
                 self.solver.frechet_deriv_propagators_noise[i],
                 reversed_propagators=self.solver.reversed_propagators_noise[i],
-                computational_states=self.computational_states
+                computational_states=self.computational_states,
+                map_to_closest_unitary=self.map_to_closest_unitary
             )
             if self.neglect_systematic_errors:
                 temp_target = self._to_comp_space(
@@ -1444,7 +1450,8 @@ class OperationNoiseInfidelity(CostFunction):
                     propagator_derivatives=
                     self.solver.frechet_deriv_propagators,
                     reversed_propagators=self.solver.reversed_propagators,
-                    computational_states=self.computational_states
+                    computational_states=self.computational_states,
+                    map_to_closest_unitary=self.map_to_closest_unitary
                 )
             derivative[:, :, i] = np.real(temp)
         return np.mean(-derivative, axis=2)
diff --git a/qopt/matrix.py b/qopt/matrix.py
index 8339564..f86bdab 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1458,3 +1458,30 @@ def closest_unitary(matrix: OperatorMatrix):
     left_singular_vec, __, right_singular_vec_h = scipy.linalg.svd(
         matrix.data)
     return type(matrix)(left_singular_vec.dot(right_singular_vec_h))
+
+
+def closest_unitary_derivative(matrix: OperatorMatrix,
+                               direction: OperatorMatrix):
+    """
+    Directional derivative of the function `closest_unitary`.
+
+    Parameters
+    ----------
+    matrix : OperatorMatrix
+        The matrix which shall be mapped to the closest unitary.
+
+    direction : OperatorMatrix
+        The derivative of the matrix.
+
+    Returns
+    -------
+    derivative : OperatorMatrix
+        The derivative of the closest unitary to the matrix.
+
+    """
+    left_singular_vec, singular_vals, right_singular_vec_h = scipy.linalg.svd(
+        matrix.data)
+    temp = left_singular_vec.conj().T.dot(direction.data).dot(
+        right_singular_vec_h.conj().T)
+    temp = (temp - temp.conj().T) / np.add.outer(singular_vals, singular_vals)
+    return type(matrix)(left_singular_vec.dot(temp).dot(right_singular_vec_h))
-- 
2.43.0


From 13e4a33baea314901729b79b2e727dfaa3c6f7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 27/51] fix: type of the values of UnaryAnalyticAmpFunc

The type of all values was taken over from the first one, such that the
control amplitudes were truncated when it was an integer.
---
 qopt/amplitude_functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qopt/amplitude_functions.py b/qopt/amplitude_functions.py
index 832a94c..ee61e1e 100644
--- a/qopt/amplitude_functions.py
+++ b/qopt/amplitude_functions.py
@@ -158,8 +158,11 @@ class UnaryAnalyticAmpFunc(AmplitudeFunction):
     def __init__(self,
                  value_function: Callable[[float, ], float],
                  derivative_function: Callable[[float, ], float]):
-        self.value_function = np.vectorize(value_function)
-        self.derivative_function = np.vectorize(derivative_function)
+        # Without the explicit type, numpy would take over the type of the
+        # first value and truncate all others if it happens to be an integer.
+        self.value_function = np.vectorize(value_function, otypes=[float])
+        self.derivative_function = np.vectorize(derivative_function,
+                                                otypes=[float])
 
     def __call__(self, x: np.ndarray) -> np.ndarray:
         """See base class. """
-- 
2.43.0


From 8741e671845535e5b5793b015c8235e646356616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 28/51] fix: repeated creation of the pulse sequence

The update of an existing pulse sequence called a private function of
filter_functions which does not exist in its current versions, and stored
the coefficients in another order than the operators for more than ten
controls.
---
 qopt/solver_algorithms.py | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 8616e81..fcdab20 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -735,27 +735,17 @@ class Solver(ABC):
         # nonlinear coupling), but in filter_functions the form H =
         # a(t) A is imposed, we don't tell the PulseSequence object
         # about H_drift and set the eigendecomposition after the fact.
-        if self.pulse_sequence is None:
-            h_c = list(zip(
-                self.h_ctrl,
-                self._ctrl_amps.T,
-                [f'Control{i}' for i in range(len(self.h_ctrl))]
-            ))
-            self.pulse_sequence = pulse_sequence.PulseSequence(
-                h_c, self.create_ff_h_n, self.transferred_time, basis
-            )
-        else:
-            # Clean up the caches and update coefficients
-            self.pulse_sequence.cleanup('all')
-            self.pulse_sequence.c_coeffs = self._ctrl_amps.T
-            # Not the most elegant, but necessary for the current
-            # implementation.
-            self.pulse_sequence.n_coeffs = pulse_sequence._parse_Hamiltonian(
-                self.create_ff_h_n,
-                len(self.transferred_time), 'H_n')[2]
-
-            if basis is not None:
-                self.pulse_sequence.basis = basis
+        if self.pulse_sequence is not None and basis is None:
+            basis = self.pulse_sequence.basis
+
+        h_c = list(zip(
+            self.h_ctrl,
+            self._ctrl_amps.T,
+            [f'Control{i}' for i in range(len(self.h_ctrl))]
+        ))
+        self.pulse_sequence = pulse_sequence.PulseSequence(
+            h_c, self.create_ff_h_n, self.transferred_time, basis
+        )
 
         self._diagonalize_and_propagate_pulse_sequence()
         return self.pulse_sequence
-- 
2.43.0


From 3f91c4a7c56f5b3ef257c2950a965a47f69d313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:37 +0000
Subject: [PATCH 29/51] fix: normalization of the one dimensional bell curve

---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index bc81527..8c4492b 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -97,7 +97,7 @@ def bell_curve_1dim(x: Union[np.ndarray, float],
         Function values.
 
     """
-    normalization_factor = 1 / 2 / np.pi / stdx
+    normalization_factor = 1 / np.sqrt(2 * np.pi) / stdx
     exponential = np.exp(-.5 * ((x / stdx) ** 2))
     return normalization_factor * exponential
 
-- 
2.43.0


From 17000147f2793d171951c5c815b493ffbe95079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:37 +0000
Subject: [PATCH 30/51] fix: round the number of samples downwards to a power
 of two as documented

---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index 8c4492b..7735ee9 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -293,7 +293,7 @@ def fast_colored_noise(spectral_density: Callable, dt: float, n_samples: int,
     f_nyquist = f_max / 2
     s0 = 1 / f_nyquist
     if r_power_of_two:
-        actual_n_samples = int(2 ** np.ceil(np.log2(n_samples)))
+        actual_n_samples = int(2 ** np.floor(np.log2(n_samples)))
     else:
         actual_n_samples = int(n_samples)
 
-- 
2.43.0


From 9e2bb08190c47b82dab9ba56f476f7a883dede2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:37 +0000
Subject: [PATCH 31/51] fix: frequencies of coloured noise with an odd number
 of samples

---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index 7735ee9..f6e517e 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -300,7 +300,7 @@ def fast_colored_noise(spectral_density: Callable, dt: float, n_samples: int,
     delta_white = np.random.randn(*output_shape, actual_n_samples)
     delta_white_ft = np.fft.rfft(delta_white, axis=-1)
     # Only positive frequencies since FFT is real and therefore symmetric
-    f = np.linspace(0, f_nyquist, actual_n_samples // 2 + 1)
+    f = np.fft.rfftfreq(actual_n_samples, dt)
     f[1:] = spectral_density(f[1:])
     f[0] = 0
     delta_colored = np.fft.irfft(delta_white_ft * np.sqrt(f / s0),
-- 
2.43.0


From 85c96bbdebcf6e263e0c732fa52ef76ad3523f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:37 +0000
Subject: [PATCH 32/51] fix: do not rescale the standard deviations in the list
 of the caller

---
 qopt/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index f6e517e..b6103d7 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -443,7 +443,8 @@ class NTGQuasiStatic(NoiseTraceGenerator):
                          n_traces=n_traces,
                          n_noise_operators=n_noise_operators,
                          always_redraw_samples=always_redraw_samples)
-        self.standard_deviation = standard_deviation
+        # copied, because the values are corrected below
+        self.standard_deviation = list(standard_deviation)
         self.sampling_mode = sampling_mode
 
         if correct_std_for_discrete_sampling:
-- 
2.43.0


From 7718d5fcbaa4355173318caf07975a2a8fc4d96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:37 +0000
Subject: [PATCH 33/51] fix: correct the standard deviation for the number of
 samples actually drawn per noise operator

---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index b6103d7..ed8d3b4 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -455,7 +455,7 @@ class NTGQuasiStatic(NoiseTraceGenerator):
                 for i in range(len(self.standard_deviation)):
                     samples = sample_1dim_gaussian_distribution(
                         std=self.standard_deviation[i],
-                        n_samples=self.n_traces
+                        n_samples=self._n_traces or self.n_traces
                     )
                     actual_std = np.std(samples)
                     if actual_std < 1e-20:
-- 
2.43.0


From 559097fa454bdaa9ce723c23565813e4b47b28c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 34/51] fix: take the sizes from the new pulse when the pulse
 of the simulator is set

---
 qopt/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/simulator.py b/qopt/simulator.py
index f248460..3d055f2 100644
--- a/qopt/simulator.py
+++ b/qopt/simulator.py
@@ -145,7 +145,7 @@ class Simulator(object):
     def pulse(self, new_pulse):
         """Sets the pulse and the corresponding attributes accordingly. """
         if new_pulse is not None:
-            self._num_times, self._num_ctrl = self._optimization_parameteres.shape
+            self._num_times, self._num_ctrl = new_pulse.shape
         self._optimization_parameteres = new_pulse
 
     @needs_refactoring
-- 
2.43.0


From 696682f00b3e226102f33a6f1cb8864eddf17fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 35/51] fix: termination conditions of one optimizer affected
 all others

The module wide default dictionary was updated in place.
---
 qopt/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index c191a1a..96a7036 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -165,7 +165,7 @@ class Optimizer(ABC):
     ):
         self.system_simulator = system_simulator
         self.use_jacobian_function = use_jacobian_function
-        self.termination_conditions = default_termination_conditions
+        self.termination_conditions = dict(default_termination_conditions)
         if termination_cond is not None:
             self.termination_conditions.update(**termination_cond)
 
-- 
2.43.0


From 7dad2c18833d8eecb43c889838721f5304932bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 36/51] fix: do not apply the weights to the recorded costs

The weights were multiplied in place after the costs had been stored, so
that the history contained weighted costs and the best costs were compared
unweighted with weighted ones.
---
 qopt/optimize.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 96a7036..206632c 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -219,15 +219,16 @@ class Optimizer(ABC):
             self.optim_iter_summary.parameters.append(
                 optimization_parameters.reshape(self.pulse_shape[::-1]).T
             )
+
+        # apply the cost function weights after saving the values.
+        if self.cost_func_weights is not None:
+            costs = costs * self.cost_func_weights
+
         if np.linalg.norm(costs) < np.linalg.norm(self._min_costs):
             self._min_costs = costs
             self._min_costs_par = optimization_parameters.reshape(
                 self.pulse_shape[::-1]).T
 
-        # apply the cost function weights after saving the values.
-        if self.cost_func_weights is not None:
-            costs *= self.cost_func_weights
-
         self._n_cost_fkt_eval += 1
         return costs
 
-- 
2.43.0


From aa6829da42505c7f2bc0f081edfcca17ae3b23e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 37/51] fix: LeastSquaresOptimizer without bounds

scipy.optimize.least_squares does not accept None as bounds, although it is
the default and documented.
---
 qopt/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 206632c..0c623fb 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -407,7 +407,7 @@ class LeastSquaresOptimizer(Optimizer):
                          use_jacobian_function=use_jacobian_function,
                          store_optimizer=store_optimizer)
         self.method = method
-        self.bounds = bounds
+        self.bounds = (-np.inf, np.inf) if bounds is None else bounds
 
     def run_optimization(self, initial_control_amplitudes: np.array,
                          verbose: int = 0) -> optimization_data.OptimizationResult:
-- 
2.43.0


From 2040c88165f10189649563840364a9fd03e1f050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 38/51] fix: gradient norm in the result after exceeding the
 wall time

The parameters were passed in the wrong order to the Jacobian, and missing
parameters raised an error.
---
 qopt/optimize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 0c623fb..177eaa5 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -335,9 +335,10 @@ class Optimizer(ABC):
         if self.system_simulator.stats is not None:
             self.system_simulator.stats.end_t_opt = time.time()
 
-        if self.use_jacobian_function:
+        if self.use_jacobian_function and self._min_costs_par is not None:
+            # the wrapper expects linear parameters
             jac_norm = np.linalg.norm(
-                self.cost_jacobian_wrapper(self._min_costs_par))
+                self.cost_jacobian_wrapper(self._min_costs_par.T.flatten()))
         else:
             jac_norm = 0
 
-- 
2.43.0


From 9107677335a97d2f2b03b7814bfcf65d84e1d4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:10 +0000
Subject: [PATCH 39/51] fix: ScalarMinimizingOptimizer ignored its settings for
 most methods

The Jacobian, the maximal number of iterations and store_optimizer were only
used for L-BFGS-B (and Nelder-Mead).
---
 qopt/optimize.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 177eaa5..80795a8 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -610,10 +610,20 @@ class ScalarMinimizingOptimizer(Optimizer):
                 result = scipy.optimize.minimize(
                     fun=self.cost_func_wrapper,
                     x0=initial_control_amplitudes.T.flatten(),
+                    jac=jac,
                     bounds=self.bounds,
-                    method=self.method
+                    method=self.method,
+                    options={
+                        # TNC counts the function evaluations only
+                        'maxfun' if self.method == 'TNC' else 'maxiter':
+                            self.termination_conditions["max_iterations"]}
                 )
 
+                if self.store_optimizer:
+                    storage_opt = self
+                else:
+                    storage_opt = None
+
                 optim_result = optimization_data.OptimizationResult(
                     final_cost=result.fun,
                     indices=self.system_simulator.cost_indices,
@@ -622,7 +632,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                     num_iter=result.nfev,
                     termination_reason=result.message,
                     status=result.status,
-                    optimizer=self,
+                    optimizer=storage_opt,
                     optim_summary=self.optim_iter_summary,
                     optimization_stats=self.system_simulator.stats
                 )
-- 
2.43.0


From b859a25b8771f62771c3114e4baed21305ba1d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:10 +0000
Subject: [PATCH 40/51] fix: honour all termination conditions

The maximal number of evaluations of the cost functions was ignored by all
optimizers and the minimal gain and amplitude change by Nelder-Mead.
---
 qopt/optimize.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 80795a8..fa858ca 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -431,7 +431,9 @@ class LeastSquaresOptimizer(Optimizer):
                 ftol=self.termination_conditions["min_cost_gain"],
                 xtol=self.termination_conditions["min_amplitude_change"],
                 gtol=self.termination_conditions["min_gradient_norm"],
-                max_nfev=self.termination_conditions["max_iterations"],
+                max_nfev=int(min(
+                    self.termination_conditions["max_iterations"],
+                    self.termination_conditions["max_cost_func_calls"])),
                 verbose=verbose
             )
 
@@ -548,6 +550,8 @@ class ScalarMinimizingOptimizer(Optimizer):
                         'ftol': self.termination_conditions["min_cost_gain"],
                         'gtol': self.termination_conditions["min_gradient_norm"],
                         'maxiter': self.termination_conditions["max_iterations"],
+                        'maxfun': int(self.termination_conditions[
+                            "max_cost_func_calls"]),
                         'disp': verbose
                     }
                 )
@@ -581,8 +585,13 @@ class ScalarMinimizingOptimizer(Optimizer):
                     bounds=self.bounds,
                     method=self.method,
                     options={
+                        'fatol': self.termination_conditions["min_cost_gain"],
+                        'xatol': self.termination_conditions[
+                            "min_amplitude_change"],
                         'maxiter': self.termination_conditions[
-                            "max_iterations"]},
+                            "max_iterations"],
+                        'maxfev': int(self.termination_conditions[
+                            "max_cost_func_calls"])},
                 )
 
                 if self.store_optimizer:
-- 
2.43.0


From 6c931d7af5369488a829da4b7f94f8ba38562234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:10 +0000
Subject: [PATCH 41/51] fix: initial parameters in the optimization results

The initial parameters were never stored, although the result and the data
container have a field for them.
---
 qopt/optimize.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index fa858ca..09d14a2 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -175,6 +175,7 @@ class Optimizer(ABC):
         self._opt_start_time = 0
         self._min_costs = np.inf
         self._min_costs_par = None
+        self._init_parameters = None
         self._n_cost_fkt_eval = 0
         self._n_jac_fkt_eval = 0
 
@@ -304,6 +305,7 @@ class Optimizer(ABC):
         self._n_cost_fkt_eval = 0
         self._n_jac_fkt_eval = 0
         self.pulse_shape = initial_optimization_parameters.shape
+        self._init_parameters = np.copy(initial_optimization_parameters)
         if self.save_intermediary_steps:
             self.optim_iter_summary = \
                 optimization_data.OptimizationSummary(
@@ -351,6 +353,7 @@ class Optimizer(ABC):
             final_cost=self._min_costs,
             indices=self.system_simulator.cost_indices,
             final_parameters=self._min_costs_par,
+            init_parameters=self._init_parameters,
             final_grad_norm=jac_norm,
             num_iter=self._n_cost_fkt_eval,
             termination_reason='Maximum Wall Time Exceeded',
@@ -450,6 +453,7 @@ class LeastSquaresOptimizer(Optimizer):
                 indices=self.system_simulator.cost_indices,
                 final_parameters=result.x.reshape(
                     self.pulse_shape[::-1]).T,
+                init_parameters=self._init_parameters,
                 final_grad_norm=np.linalg.norm(result.grad),
                 num_iter=result.nfev,
                 termination_reason=result.message,
@@ -566,6 +570,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                     indices=self.system_simulator.cost_indices,
                     final_parameters=result.x.reshape(
                         self.pulse_shape[::-1]).T,
+                    init_parameters=self._init_parameters,
                     final_grad_norm=np.linalg.norm(result.jac),
                     num_iter=result.nfev,
                     termination_reason=result.message,
@@ -604,6 +609,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                     indices=self.system_simulator.cost_indices,
                     final_parameters=result.x.reshape(
                         self.pulse_shape[::-1]).T,
+                    init_parameters=self._init_parameters,
                     num_iter=result.nfev,
                     termination_reason=result.message,
                     status=result.status,
@@ -638,6 +644,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                     indices=self.system_simulator.cost_indices,
                     final_parameters=result.x.reshape(
                         self.pulse_shape[::-1]).T,
+                    init_parameters=self._init_parameters,
                     num_iter=result.nfev,
                     termination_reason=result.message,
                     status=result.status,
@@ -887,6 +894,7 @@ class SimulatedAnnealing(Optimizer):
             final_cost=costs,
             indices=self.system_simulator.cost_indices,
             final_parameters=pulse,
+            init_parameters=self._init_parameters,
             optimizer=storage_opt,
             optim_summary=self.optim_iter_summary,
             optimization_stats=self.system_simulator.stats
-- 
2.43.0


From a65361c35a7776299fbb61ad719b98eee76cde78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:01 +0000
Subject: [PATCH 42/51] fix: deep copies of DataContainer

copy.deepcopy calls __deepcopy__ with the memo dictionary.
---
 qopt/data_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/data_container.py b/qopt/data_container.py
index d635543..65aec6b 100644
--- a/qopt/data_container.py
+++ b/qopt/data_container.py
@@ -219,7 +219,7 @@ class DataContainer:
         self.optimization_statistics.append(optimization_stats)
         self.check_length()
 
-    def __deepcopy__(self):
+    def __deepcopy__(self, memo=None):
         cpyobj = type(self)(
             final_costs=copy.deepcopy(self.final_costs),
             indices=copy.deepcopy(self.indices),
-- 
2.43.0


From b305d481886fe685f1f2f0084da8337a4245a13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:01 +0000
Subject: [PATCH 43/51] fix: DataContainer.index returns the indices of the
 cost functions

It returned the method index of the list of final parameters.
---
 qopt/data_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/data_container.py b/qopt/data_container.py
index 65aec6b..201697e 100644
--- a/qopt/data_container.py
+++ b/qopt/data_container.py
@@ -164,7 +164,7 @@ class DataContainer:
     @property
     def index(self):
         """Indices of the cost functions. """
-        return self.final_parameters.index
+        return self.indices
 
     def check_length(self):
         pass
-- 
2.43.0


From 48280e5a4000847b18694ce9f8a9c51010f712f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:01 +0000
Subject: [PATCH 44/51] fix: status of the optimization was lost in
 OptimizationResult.to_dict

---
 qopt/optimization_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qopt/optimization_data.py b/qopt/optimization_data.py
index 72d5264..8d78e4c 100644
--- a/qopt/optimization_data.py
+++ b/qopt/optimization_data.py
@@ -148,6 +148,7 @@ class OptimizationResult(object):
                 'init_parameters': self.init_parameters,
                 'num_iter': self.num_iter,
                 'termination_reason': self.termination_reason,
+                'status': self.status,
                 'optimizer': self.optimizer,
                 'optimization_stats': self.optimization_stats,
                 'optim_summary': self.optim_summary
-- 
2.43.0


From 81d0dd1f6f0d6188a90b0085eb15121eb5a126b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:01 +0000
Subject: [PATCH 45/51] fix: absolute costs of data with optimization runs
 without history

---
 qopt/analyser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qopt/analyser.py b/qopt/analyser.py
index 3550d7f..6e9ccf6 100644
--- a/qopt/analyser.py
+++ b/qopt/analyser.py
@@ -133,15 +133,18 @@ class Analyser:
 
         """
         n_steps = np.max(list(map(len, self.data.costs)))
+        n_costs = np.max([len(run[0]) if len(run) else 0
+                          for run in self.data.costs])
 
         # shape: (num_runs, num_step, num_cost_fkt)
         costs = np.empty(
-            (len(self.data.costs), n_steps, len(self.data.costs[0][0])))
+            (len(self.data.costs), n_steps, n_costs))
         costs[:] = np.nan
 
         for i, run in enumerate(self.data.costs):
             num_steps = len(run)
-            costs[i, :num_steps, :] = np.stack(run, axis=0)
+            if num_steps:
+                costs[i, :num_steps, :] = np.stack(run, axis=0)
 
         costs = np.sqrt(np.sum(costs ** 2, axis=2))
         return costs
-- 
2.43.0


From 6146a0e6b9357b363a99e93321a8e981d4ae1b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:01 +0000
Subject: [PATCH 46/51] fix: final cost of ScalarMinimizingOptimizer after
 exceeding the wall time

It is the sum of the cost functions as for any other termination. Mixing
arrays and sums made the results of several runs incomparable.
---
 qopt/optimize.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 09d14a2..0dfe04a 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -532,6 +532,12 @@ class ScalarMinimizingOptimizer(Optimizer):
         grad = (np.sum(jac, axis=0))
         return grad
 
+    def write_state_to_result(self):
+        """ See base class. The final cost is the sum of the costs. """
+        optim_result = super().write_state_to_result()
+        optim_result.final_cost = np.sum(optim_result.final_cost)
+        return optim_result
+
     def run_optimization(self, initial_control_amplitudes: np.array,
                          verbose: bool = False) -> optimization_data.OptimizationResult:
         super().prepare_optimization(
-- 
2.43.0


From 81e0be163d32eaadeef24ae4a60d7490c1bb3cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 47/51] fix: matplotlib.cm.get_cmap does not exist any more

---
 qopt/energy_spectrum.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qopt/energy_spectrum.py b/qopt/energy_spectrum.py
index 7c9bf4d..11609c4 100644
--- a/qopt/energy_spectrum.py
+++ b/qopt/energy_spectrum.py
@@ -34,7 +34,6 @@ Functions
 
 """
 
-import matplotlib as mpl
 import matplotlib.pyplot as plt
 import numpy as np
 
@@ -64,7 +63,7 @@ def vector_color_map(vectors: np.array):
 
     points_on_cmap = np.linspace(0, 1, vectors.shape[-1], endpoint=True)
     # include the endpoint to use the full colormap
-    basis_colors = mpl.cm.get_cmap('brg')(points_on_cmap)
+    basis_colors = plt.get_cmap('brg')(points_on_cmap)
     basis_colors = np.array(basis_colors)[:, :-1]
     
     values = np.einsum('ij, ni -> nj', basis_colors, np.abs(vectors))
-- 
2.43.0


From 952d7c75f8d1d774f2f76487845c3629cc855f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 48/51] fix: plot_pulse draws steps of unequal duration at
 their place

---
 qopt/transfer_function.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 14ee367..2d4e255 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -469,12 +469,12 @@ class TransferFunction(ABC):
         n_padding_start, n_padding_end = self.num_padding_elements
         for y_per_control, x_per_control in zip(y.T, x.T):
             plt.figure()
-            plt.bar(np.cumsum(self.x_times) - .5 * self.x_times[0],
-                    x_per_control, self.x_times[0])
-            plt.bar(np.cumsum(self._y_times) - .5 * self._y_times[0]
+            plt.bar(np.cumsum(self.x_times) - .5 * self.x_times,
+                    x_per_control, self.x_times)
+            plt.bar(np.cumsum(self._y_times) - .5 * self._y_times
                     + np.cumsum(self.x_times)[n_padding_start]
                     - self.x_times[n_padding_start],
-                    y_per_control, self._y_times[0],
+                    y_per_control, self._y_times,
                     fill=False)
         plt.xlabel(xlabel)
         plt.ylabel(ylabel)
-- 
2.43.0


From 41a5c986bfade7606c377d080c608c8a36c3a13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 49/51] fix: order of the kept subsystems in the partial trace
 of nine or more

---
 qopt/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index f86bdab..c2f5e78 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -932,7 +932,7 @@ class DenseOperator(OperatorMatrix):
 
         remove = list(np.sort(remove))
         # indices of subspace that are kept
-        keep = list(set(np.arange(n_dim)) - set(remove))
+        keep = sorted(set(range(n_dim)) - set(remove))
 
         dims_rm = (dims[remove]).tolist()
         dims_keep = (dims[keep]).tolist()
-- 
2.43.0


From acffdce61e00c09cc4c83537976447791827b395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 50/51] fix: best parameters of scalar optimizations stopped by
 the wall time

The best evaluated parameters were selected by the norm of the cost vector,
although ScalarMinimizingOptimizer minimizes the sum of the costs.
---
 qopt/optimize.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 0dfe04a..bd8788e 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -225,7 +225,7 @@ class Optimizer(ABC):
         if self.cost_func_weights is not None:
             costs = costs * self.cost_func_weights
 
-        if np.linalg.norm(costs) < np.linalg.norm(self._min_costs):
+        if self._total_cost(costs) < self._total_cost(self._min_costs):
             self._min_costs = costs
             self._min_costs_par = optimization_parameters.reshape(
                 self.pulse_shape[::-1]).T
@@ -233,6 +233,10 @@ class Optimizer(ABC):
         self._n_cost_fkt_eval += 1
         return costs
 
+    def _total_cost(self, costs):
+        """The quantity to be minimized as function of the weighted costs. """
+        return np.linalg.norm(costs)
+
     def cost_jacobian_wrapper(self, optimization_parameters):
         """Wraps the cost Jacobian function given by the simulator class.
 
@@ -515,6 +519,10 @@ class ScalarMinimizingOptimizer(Optimizer):
         scalar_costs = np.sum(costs)
         return scalar_costs
 
+    def _total_cost(self, costs):
+        """See base class. The total cost is the sum of the costs. """
+        return np.sum(costs)
+
     def cost_jacobian_wrapper(self, optimization_parameters):
         """ The Jacobian reduced to the gradient.
 
-- 
2.43.0


From dd27c5e89229a0b13d2c0e184ec6b6218cb0bbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 51/51] fix: transfer functions keep a copy of the time steps

The transfer matrix is calculated on demand. Time steps changed by the
caller in the meantime entered the matrix, but not the transferred times.
---
 qopt/transfer_function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 2d4e255..30dbe89 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -370,7 +370,8 @@ class TransferFunction(ABC):
         if not isinstance(y_times, np.ndarray):
             raise Exception("times must be a list or np.array")
 
-        y_times = np.atleast_1d(np.squeeze(y_times))
+        # copied, because the transfer matrix may be calculated later
+        y_times = np.atleast_1d(np.squeeze(y_times)).copy()
 
         if len(y_times.shape) > 1:
             raise ValueError('The x_times should not have more than one '
-- 
2.43.0

