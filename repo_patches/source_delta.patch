From 151f7555685dec40a1611fb8fba5f21d1efcc6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 001/132] fix: parameter times a term with data no longer
 builds an object that cannot be evaluated

---
 larch/model/linear.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 60fde86..43db0b0 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -146,7 +146,7 @@ cdef class ParameterRef_C(UnicodeRef_C):
 				if other.param == _null_:
 					return LinearComponent_C(param=str(self), data=str(other.data), scale=other.scale)
 				from .linear_math import ParameterMultiply
-				return ParameterMultiply(self, other)
+				return ParameterMultiply(self, other.as_pmath())
 		elif isinstance(other, ParameterRef_C):
 			if isinstance(self, DataRef_C):
 				return LinearComponent_C(param=str(other), data=str(self))
-- 
2.43.0


From be8d8e27f2da88ba7e85d69ddf8f4a1180aad6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 002/132] fix: zero minus a parameter is the negative of the
 parameter

---
 larch/model/linear.pyx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 43db0b0..df417ce 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -117,8 +117,6 @@ cdef class ParameterRef_C(UnicodeRef_C):
 				from .linear_math import ParameterSubtract
 				return ParameterSubtract(self, other)
 		elif isinstance(other, ParameterRef_C):
-			if self == 0:
-				return other
 			if isinstance(self, (LinearComponent_C, LinearFunction_C)):
 				return self - LinearComponent_C(param=str(other), data="1")
 			if isinstance(self, _Number):
-- 
2.43.0


From 40def61727c6f4c49f35d16a13a535e3b1c0cb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 003/132] fix: adding to the duplicate-term marker keeps the
 other operand

---
 larch/model/linear.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index df417ce..af5f82d 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -283,9 +283,9 @@ cdef class DataRef_C(UnicodeRef_C):
 				return self
 			# Double zero is trapped here as it is used to flag duplicate terms in a utility function.
 			if self == "00":
-				return DataRef_C("0+{}".format(parenthize(self), parenthize(other, True)))
+				return DataRef_C("0+{}".format(parenthize(other, True)))
 			if other == "00":
-				return DataRef_C("{}+0".format(parenthize(self), parenthize(other, True)))
+				return DataRef_C("{}+0".format(parenthize(self)))
 			return DataRef_C("{}+{}".format(parenthize(self), parenthize(other, True)))
 		if isinstance(self, DataRef_C) and isinstance(other, ParameterRef_C):
 			return P(_null_)*self + other
-- 
2.43.0


From 9c45bb1e62334928210a0f61a533a129d0ba4da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 004/132] fix: two boolean conditions are mutually exclusive
 only when they compare with different constants

---
 larch/model/linear.pyx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index af5f82d..91e0267 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -1,5 +1,6 @@
 # cython: language_level=3, embedsignature=True
 
+import ast as _ast
 import re as _re
 import keyword as _keyword
 import numpy as _numpy
@@ -18,6 +19,14 @@ _null_ = '_'
 _boolmatch = re.compile("^boolean\((.+)==(.+)\)$")
 
 
+def _different_constants(a, b):
+	# Check that two expressions are both literal constants, with different values
+	try:
+		return bool(_ast.literal_eval(a.strip()) != _ast.literal_eval(b.strip()))
+	except (ValueError, SyntaxError):
+		return False
+
+
 def _what_is(thing):
 	if isinstance(thing, (ParameterRef_C, DataRef_C)):
 		return repr(thing)
@@ -325,7 +334,7 @@ cdef class DataRef_C(UnicodeRef_C):
 						boolmatch2 = _boolmatch.match(other)
 						if boolmatch2:
 							if boolmatch1.group(1) == boolmatch2.group(1):
-								if boolmatch1.group(2) != boolmatch2.group(2):
+								if _different_constants(boolmatch1.group(2), boolmatch2.group(2)):
 									return DataRef_C('0')
 				return DataRef_C("{}*{}".format(parenthize(self), parenthize(other, True)))
 			if isinstance(other, ParameterRef_C):
-- 
2.43.0


From 4ce6e9abf9af1ee6f9cfc2888d5b2c0a6439f211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 005/132] fix: a scaled term times data keeps its scale

---
 larch/model/linear.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 91e0267..7ce3814 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -355,7 +355,7 @@ cdef class DataRef_C(UnicodeRef_C):
 			if isinstance(self, ParameterRef_C):
 				return LinearComponent_C(param=str(self), data=str(other))
 			if isinstance(self, LinearComponent_C):
-				return LinearComponent_C(param=str(self.param), data=str(self.data * other) )
+				return LinearComponent_C(param=str(self.param), data=str(self.data * other), scale=self.scale )
 			if isinstance(self, LinearFunction_C):
 				return LinearFunction_C([c*other for c in self] )
 		return NotImplemented # raise NotImplementedError(f"{_what_is(self)} * {_what_is(other)}")
-- 
2.43.0


From 8442f459641c21dbd17407eb50dcc9f1fb9d0852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 006/132] fix: pickling or copying a parameter or data
 reference keeps its name

---
 larch/model/linear.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 7ce3814..dae51c2 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -65,6 +65,9 @@ cdef class Ref_Gen:
 P = Ref_Gen(ParameterRef_C)
 X = Ref_Gen(DataRef_C)
 
+def _restore_parameter_ref(cls, name, formatting):
+	return cls(name).set_fmt(formatting)
+
 cdef class ParameterRef_C(UnicodeRef_C):
 
 	_precedence = 99
@@ -72,6 +75,9 @@ cdef class ParameterRef_C(UnicodeRef_C):
 	def __init__(self, *args):
 		self._formatting = None
 
+	def __reduce__(self):
+		return _restore_parameter_ref, (self.__class__, str(self), self._formatting)
+
 	def set_fmt(self, str formatting):
 		self._formatting = formatting
 		return self
@@ -263,6 +269,9 @@ cdef class ParameterRef_C(UnicodeRef_C):
 
 cdef class DataRef_C(UnicodeRef_C):
 
+	def __reduce__(self):
+		return self.__class__, (str(self),)
+
 	def __repr__(self):
 		if _re.match("[_A-Za-z][_a-zA-Z0-9]*$", self) and not _keyword.iskeyword(self):
 			return "{}.{}".format(_DataRef_repr_txt, self)
-- 
2.43.0


From 83e3369e7517698cfabeb7593c33bab15b3d4e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 007/132] fix: parameter formulas print the parentheses that
 subtraction and division need

---
 larch/model/linear_math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/linear_math.py b/larch/model/linear_math.py
index a7cb71d..a6b8287 100644
--- a/larch/model/linear_math.py
+++ b/larch/model/linear_math.py
@@ -177,14 +177,14 @@ class _ParameterBinaryOp(_ParameterOp):
 		return "{} {} {}".format(
 			_parenthize_repr(self._left, self._precedence),
 			self._op,
-			_parenthize_repr(self._right, self._precedence),
+			_parenthize_repr(self._right, self._precedence + (self._op in ('-', '/'))),
 		)
 
 	def __str__(self):
 		return "{} {} {}".format(
 			_parenthize_repr(self._left, self._precedence),
 			self._op,
-			_parenthize_repr(self._right, self._precedence),
+			_parenthize_repr(self._right, self._precedence + (self._op in ('-', '/'))),
 		)
 
 
-- 
2.43.0


From 294294027c95e078503953e4d62d0c914a3bc5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 008/132] fix: a negative number raised to a power of data
 keeps its sign inside the power

---
 larch/model/linear.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index dae51c2..b10fb7c 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -400,7 +400,7 @@ cdef class DataRef_C(UnicodeRef_C):
 		if modulo is not None:
 			raise NotImplementedError(f"no pow with modulo on {self.__class__.__name__}")
 		if isinstance(self, (DataRef_C, _Number)) and isinstance(other, (DataRef_C, _Number)):
-			return DataRef_C("{}**{}".format(parenthize(self),parenthize(other, True)))
+			return DataRef_C("{}**{}".format(parenthize(self, True),parenthize(other, True)))
 		return NotImplemented # raise NotImplementedError(f"{_what_is(self)} ** {_what_is(other)}")
 
 	def __invert__(self):
-- 
2.43.0


From 73402277f84ce431868f64ce5108458b9bc3bf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 009/132] fix: a number plus a scaled parameter is the same sum
 as in the other order

---
 larch/model/linear.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index b10fb7c..38ebe62 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -517,7 +517,7 @@ cdef class LinearComponent_C:
 				return LinearFunction_C([*self, ]) + other
 			else:
 				try:
-					return other + self.as_pmath()
+					return self + other.as_pmath()
 				except NotImplementedError:
 					pass
 		raise NotImplementedError(f"{_what_is(self)} + {_what_is(other)}")
-- 
2.43.0


From df8e953cddc44e0055bd8048c76a1c8aaf705abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 010/132] fix: case weights are put in the same case order as
 the other data

---
 larch/dataframes.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 9b7b699..a162a5a 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -1854,6 +1854,8 @@ cdef class DataFrames:
 	def data_wt(self, df:pandas.DataFrame):
 		if isinstance(df, pandas.Series):
 			df=pandas.DataFrame(df)
+		if df is not None and not df.index.is_monotonic_increasing:
+			df = df.sort_index()
 		self._data_wt = _ensure_dataframe_of_dtype(df, l4_float_dtype, 'data_wt')
 		self._array_wt = _df_values(self.data_wt, (self.n_cases, ))
 
-- 
2.43.0


From 9650980bf9556aa6543ffb905bdd164daed72fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 011/132] fix: the derivative of the probability of an
 unavailable alternative is zero, not nan

---
 larch/model/nl.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 881309d..4637619 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -181,7 +181,7 @@ cdef void _nl_d_probability_from_d_utility(
 	for reversi_edge in range(n_edges):
 		edge = n_edges-reversi_edge-1
 		child  = dns[edge]
-		if True or array_ch[child]:
+		if log_cond_probability[edge] > -INFINITY32:
 			parent = ups[edge]
 			for param in range(n_params):
 				scratch[param] = (d_utility[child, param] - d_utility[parent, param])
-- 
2.43.0


From e3c4935ec53a5085cabf638b857be5efebd42fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 012/132] fix: derivatives of nests that share a logsum
 parameter or have several parents

---
 larch/model/nl.pyx | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 4637619..1ab4ef5 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -352,20 +352,17 @@ cdef void _nl_d_utility_upstream_v2(
 		if cond_logprob > -INFINITY32:
 			cond_prob = exp(cond_logprob)
 
-			if child >= n_elemental_alts:
-				if param_slot_of_mu[child] >= 0:
-					dU[child,param_slot_of_mu[child]] += utility[child]
-					dU[child,param_slot_of_mu[child]] /= mu[child]
-
 			if param_slot_of_mu[parent] >= 0:
-				if alpha[e] == 1.0:
-					dU[parent, param_slot_of_mu[parent]] -= cond_prob * (utility[child])
-				else:
-					dU[parent, param_slot_of_mu[parent]] -= cond_prob * (utility[child] + mu[child]*logalpha[e])
+				dU[parent, param_slot_of_mu[parent]] -= cond_prob * (utility[child] + logalpha[e]) / mu[parent]
 
 			for p in range(n_params):
 				dU[parent, p] += cond_prob * dU[child, p]
 
+		# the edges of each parent are contiguous, finish the parent on its last edge
+		if e == n_edges-1 or ups[e+1] != parent:
+			if param_slot_of_mu[parent] >= 0 and utility[parent] > -INFINITY32:
+				dU[parent, param_slot_of_mu[parent]] += utility[parent] / mu[parent]
+
 
 cdef void _nl_total_probability_from_conditional_logprobability(
 		int             n_nodes,
-- 
2.43.0


From 20532bc2d4f6fb0d90972bae3b479a0d2969206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 013/132] fix: tables of probability and utility carry the case
 ids whichever data the model uses

---
 larch/model/controller.pyx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 1df6002..31959c2 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -962,13 +962,13 @@ cdef class Model5c(AbstractChoiceModel):
 			return pandas.DataFrame(
 				data=arr,
 				columns=self._dataframes._alternative_names,
-				index=self._dataframes._data_co.index if self._dataframes._data_co is not None else None,
+				index=self._dataframes.caseindex,
 			)
 		elif return_dataframe:
 			return pandas.DataFrame(
 				data=arr,
 				columns=self._dataframes._alternative_codes,
-				index=self._dataframes._data_co.index if self._dataframes._data_co is not None else None,
+				index=self._dataframes.caseindex,
 			)
 		else:
 			return arr
@@ -979,13 +979,13 @@ cdef class Model5c(AbstractChoiceModel):
 			return pandas.DataFrame(
 				data=arr,
 				columns=self._dataframes._alternative_names if self.is_mnl() else self.graph.standard_sort_names,
-				index=self._dataframes._data_co.index if self._dataframes._data_co is not None else None,
+				index=self._dataframes.caseindex,
 			)
 		elif return_dataframe:
 			return pandas.DataFrame(
 				data=arr,
 				columns=self._dataframes._alternative_codes if self.is_mnl() else self.graph.standard_sort,
-				index=self._dataframes._data_co.index if self._dataframes._data_co is not None else None,
+				index=self._dataframes.caseindex,
 			)
 		else:
 			return arr
@@ -1039,10 +1039,10 @@ cdef class Model5c(AbstractChoiceModel):
 			if not include_nests:
 				arr = arr[:,:self._dataframes._n_alts()]
 			if return_dataframe:
-				idx = self._dataframes._data_co.index if self._dataframes._data_co is not None else None
+				idx = self._dataframes.caseindex
+				if stop_case == -1:
+					stop_case = None
 				if idx is not None:
-					if stop_case == -1:
-						stop_case = len(idx)
 					idx = idx[start_case:stop_case:step_case]
 
 			if return_dataframe == 'names':
@@ -1058,7 +1058,7 @@ cdef class Model5c(AbstractChoiceModel):
 					index=idx,
 				)
 				if return_dataframe == 'idce':
-					return result.stack()[self._dataframes._data_av.stack().astype(bool).values]
+					return result.stack()[self._dataframes._data_av.iloc[start_case:stop_case:step_case].stack().astype(bool).values]
 				elif return_dataframe == 'idca':
 					return result.stack()
 				else:
-- 
2.43.0


From 51542d7221eae20a978d9e89a09341ccf1c8d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 014/132] fix: utility(x) and exputility(x) use the parameter
 values they are given

---
 larch/model/controller.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 31959c2..17d7d02 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -955,7 +955,7 @@ cdef class Model5c(AbstractChoiceModel):
 
 	def exputility(self, x=None, return_dataframe=None):
 		try:
-			arr = self.loglike(persist=PERSIST_EXP_UTILITY).exp_utility
+			arr = self.loglike(x=x, persist=PERSIST_EXP_UTILITY).exp_utility
 		except KeyError:
 			raise NotImplementedError("exputility is not available for this model structure")
 		if return_dataframe == 'names':
@@ -974,7 +974,7 @@ cdef class Model5c(AbstractChoiceModel):
 			return arr
 
 	def utility(self, x=None, return_dataframe=None):
-		arr = self.loglike(persist=PERSIST_UTILITY).utility
+		arr = self.loglike(x=x, persist=PERSIST_UTILITY).utility
 		if return_dataframe == 'names':
 			return pandas.DataFrame(
 				data=arr,
-- 
2.43.0


From d028eeb4e6a3d2d788a2a21db23aad0c112213cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 015/132] fix: a cross-validation part of the log likelihood is
 not recorded as the best

---
 larch/model/controller.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 17d7d02..8dc6302 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -730,7 +730,7 @@ cdef class Model5c(AbstractChoiceModel):
 			subsample=subsample,
 			probability_only=probability_only,
 		)
-		if start_case==0 and stop_case==-1 and step_case==1:
+		if start_case==0 and stop_case==-1 and step_case==1 and leave_out<0 and keep_only<0:
 			self._check_if_best(y.ll)
 		# if return_series and 'dll' in y and not isinstance(y['dll'], (pandas.DataFrame, pandas.Series)):
 		# 	y['dll'] = pandas.Series(y['dll'], index=self.frame.index, )
@@ -796,7 +796,7 @@ cdef class Model5c(AbstractChoiceModel):
 			keep_only=keep_only,
 			subsample=subsample,
 		)
-		if start_case==0 and stop_case==-1 and step_case==1:
+		if start_case==0 and stop_case==-1 and step_case==1 and leave_out<0 and keep_only<0:
 			self._check_if_best(y.ll)
 		if return_series and 'dll' in y and not isinstance(y['dll'], (pandas.DataFrame, pandas.Series)):
 			y['dll'] = pandas.Series(y['dll'], index=self._frame.index, )
@@ -916,7 +916,7 @@ cdef class Model5c(AbstractChoiceModel):
 			subsample=subsample,
 			probability_only=probability_only,
 		)
-		if start_case==0 and stop_case==-1 and step_case==1:
+		if start_case==0 and stop_case==-1 and step_case==1 and leave_out<0 and keep_only<0:
 			self._check_if_best(y.ll)
 		if probability_only:
 			return y.probability
-- 
2.43.0


From 3432298a8f3830ba5fcab3f8ae8e79a186825ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 016/132] fix: a range of cases beyond the data no longer reads
 outside the arrays

---
 larch/model/mnl.pyx | 6 +++++-
 larch/model/nl.pyx  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/larch/model/mnl.pyx b/larch/model/mnl.pyx
index d887839..8270747 100644
--- a/larch/model/mnl.pyx
+++ b/larch/model/mnl.pyx
@@ -532,8 +532,12 @@ def mnl_d_log_likelihood_from_dataframes_all_rows(
 		if num_threads <= 0:
 			num_threads = 1
 
-		if stop_case<0:
+		if stop_case<0 or stop_case>n_cases:
 			stop_case = n_cases
+		if start_case<0:
+			start_case = max(start_case+n_cases, 0)
+		if start_case>stop_case:
+			start_case = stop_case
 
 		if return_bhhh:
 			# must compute dll to get bhhh
diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 1ab4ef5..676f939 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -495,8 +495,12 @@ def nl_d_log_likelihood_from_dataframes_all_rows(
 		if num_threads <= 0:
 			num_threads = model._n_threads
 
-		if stop_case<0:
+		if stop_case<0 or stop_case>n_cases:
 			stop_case = n_cases
+		if start_case<0:
+			start_case = max(start_case+n_cases, 0)
+		if start_case>stop_case:
+			start_case = stop_case
 
 		if return_bhhh:
 			# must compute dll to get bhhh
-- 
2.43.0


From 7bece1b1ee0616adfe06ee7a48fd2d51c2f90b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 017/132] fix: casewise log likelihood uses the original
 weights, as its sum and derivatives do

---
 larch/model/mnl.pyx | 2 +-
 larch/model/nl.pyx  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/mnl.pyx b/larch/model/mnl.pyx
index 8270747..f5a47f5 100644
--- a/larch/model/mnl.pyx
+++ b/larch/model/mnl.pyx
@@ -662,7 +662,7 @@ def mnl_d_log_likelihood_from_dataframes_all_rows(
 		if persist & PERSIST_UTILITY:
 			result.utility=raw_utility.base
 		if persist & PERSIST_LOGLIKE_CASEWISE:
-			result.ll_casewise=LL_case.base
+			result.ll_casewise = LL_case.base * dfs._weight_normalization
 		if persist & PERSIST_EXP_UTILITY:
 			result.exp_utility=exp_utility.base
 		if persist & PERSIST_PROBABILITY:
diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 676f939..716eb35 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -697,7 +697,7 @@ def nl_d_log_likelihood_from_dataframes_all_rows(
 			result.bhhh = bhhh
 
 		if persist & PERSIST_LOGLIKE_CASEWISE:
-			result.ll_casewise = LL_case.base
+			result.ll_casewise = LL_case.base * dfs._weight_normalization
 		if persist & PERSIST_UTILITY:
 			result.utility = raw_utility.base
 		if persist & PERSIST_D_UTILITY:
-- 
2.43.0


From a4f26be998a8544fc8fff6ef82acec3fe9df1ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 018/132] fix: very large or very negative utilities give the
 right probabilities, utilities and logsums

---
 larch/dataframes.pyx | 21 ++-------------------
 larch/model/mnl.pyx  | 31 ++++++++++++++++++++++++++-----
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index a162a5a..8d79fad 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -2384,7 +2384,7 @@ cdef class DataFrames:
 		cdef:
 			int i,j,k, altindex
 			int64_t row = -2
-			l4_float_t  _temp, _temp_data, _max_U=0
+			l4_float_t  _temp, _temp_data
 
 		if not self._is_computational_ready(activate=True):
 			return
@@ -2455,14 +2455,6 @@ cdef class DataFrames:
 					if not self.model_utility_co_param_holdfast[i]:
 						dU[altindex,self.model_utility_co_param[i]] += _temp
 
-		# Keep exp(U) from generating overflow
-		for j in range(n_alts):
-			if U[j] > _max_U:
-				_max_U = U[j]
-		if _max_U > 500:
-			for j in range(n_alts):
-				U[j] -= _max_U
-
 
 	@cython.boundscheck(False)
 	@cython.initializedcheck(False)
@@ -2488,13 +2480,12 @@ cdef class DataFrames:
 		cdef:
 			int i,j,k, altindex
 			int64_t row = -2
-			l4_float_t  _temp, _temp_data, _max_U
+			l4_float_t  _temp, _temp_data
 
 		if not self._is_computational_ready(activate=True):
 			return
 
 		U[:] = 0
-		_max_U = 0
 		if Q is not None:
 			Q[:]=0
 
@@ -2544,14 +2535,6 @@ cdef class DataFrames:
 					_temp = self._array_co[c, self.model_utility_co_data[i]] * self.model_utility_co_param_scale[i]
 					U[altindex] += _temp * self.model_utility_co_param_value[i]
 
-		# Keep exp(U) from generating overflow
-		for j in range(n_alts):
-			if U[j] > _max_U:
-				_max_U = U[j]
-		if _max_U > 500:
-			for j in range(n_alts):
-				U[j] -= _max_U
-
 
 	def compute_d_utility_onecase(
 			self,
diff --git a/larch/model/mnl.pyx b/larch/model/mnl.pyx
index f5a47f5..f0ba56d 100644
--- a/larch/model/mnl.pyx
+++ b/larch/model/mnl.pyx
@@ -91,6 +91,20 @@ cdef void _mnl_probability_from_utility_approx(
 			probability[i] = exp_utility[i] / sum_expU
 
 
+cdef l4_float_t _mnl_max_utility(
+		int    n_alts,
+		l4_float_t* utility,     # input
+) nogil:
+	cdef:
+		int i
+		l4_float_t max_utility = -INFINITY32
+
+	for i in range(n_alts):
+		if utility[i] > max_utility:
+			max_utility = utility[i]
+	return max_utility
+
+
 @cython.cdivision(True)
 cdef void _mnl_probability_from_utility(
 		int    n_alts,
@@ -101,13 +115,18 @@ cdef void _mnl_probability_from_utility(
 	cdef:
 		int i
 		l4_float_t sum_expU = 0
+		l4_float_t shifter = _mnl_max_utility(n_alts, utility)
 		l4_float_t x
 
+	# Keep exp(U) from generating overflow or underflow
+	if -500 < shifter < 500:
+		shifter = 0
+
 	for i in range(n_alts):
 		if utility[i] < -3.402823e38:
 			exp_utility[i] = 0
 		else:
-			x = exp_utility[i] = exp(utility[i])
+			x = exp_utility[i] = exp(utility[i] - shifter)
 			sum_expU += x
 
 	if sum_expU == 0:
@@ -127,17 +146,18 @@ cdef void _mnl_logsum_from_utility(
 	cdef:
 		int i
 		l4_float_t sum_expU = 0
+		l4_float_t shifter = _mnl_max_utility(n_alts, utility)
 		l4_float_t x
 
 	for i in range(n_alts):
 		if utility[i] > -3.402823e38:
-			x = exp(utility[i])
+			x = exp(utility[i] - shifter)
 			sum_expU += x
 
 	if sum_expU == 0:
 		logsum[0] = -INFINITY32
 	else:
-		logsum[0] = log(sum_expU)
+		logsum[0] = log(sum_expU) + shifter
 
 @cython.cdivision(True)
 cdef void _mnl_logsum_from_utility_MU(
@@ -149,6 +169,7 @@ cdef void _mnl_logsum_from_utility_MU(
 	cdef:
 		int i
 		l4_float_t sum_expU = 0
+		l4_float_t shifter = _mnl_max_utility(n_alts, utility)
 		l4_float_t x
 
 	if mu==0:
@@ -160,13 +181,13 @@ cdef void _mnl_logsum_from_utility_MU(
 	else:
 		for i in range(n_alts):
 			if utility[i] > -3.402823e38:
-				x = exp(utility[i]/mu)
+				x = exp((utility[i]-shifter)/mu)
 				sum_expU += x
 
 		if sum_expU == 0:
 			logsum[0] = -INFINITY32
 		else:
-			logsum[0] = log(sum_expU)*mu
+			logsum[0] = log(sum_expU)*mu + shifter
 
 
 ctypedef void (*PROB_FROM_UTIL)(
-- 
2.43.0


From 3ccf5a495d5ecb87e854250272f3678cee4dc4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 019/132] fix: rescaling weights for a model leaves the source
 data as it was

---
 larch/dataframes.pyx | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 8d79fad..6316d92 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -2888,6 +2888,15 @@ cdef class DataFrames:
 			)
 			self._data_wt_name = 'computed_weight'
 
+		# Work on copies, the original data may also belong to another
+		# DataFrames, or to the user.
+		if need_to_extract_wgt_from_ch:
+			self._data_ch = self._data_ch.copy()
+			self._array_ch = _df_values(self._data_ch, (self._array_ch.shape[0], self._array_ch.shape[1]))
+		if self._data_wt is not None:
+			self._data_wt = self._data_wt.copy()
+			self._array_wt = _df_values(self._data_wt, (self._array_wt.shape[0], ))
+
 		if need_to_extract_wgt_from_ch:
 			while i < self._array_ch.shape[0]:
 				temp = 0
@@ -2948,6 +2957,15 @@ cdef class DataFrames:
 			)
 			self._data_wt_name = 'computed_weight'
 
+		# Work on copies, the original data may also belong to another
+		# DataFrames, or to the user.
+		if need_to_extract_wgt_from_ch:
+			self._data_ch = self._data_ch.copy()
+			self._array_ch = _df_values(self._data_ch, (self._array_ch.shape[0], self._array_ch.shape[1]))
+		if self._data_wt is not None:
+			self._data_wt = self._data_wt.copy()
+			self._array_wt = _df_values(self._data_wt, (self._array_wt.shape[0], ))
+
 		if need_to_extract_wgt_from_ch:
 			while i < self._array_ch.shape[0]:
 				temp = 0
@@ -2984,6 +3002,9 @@ cdef class DataFrames:
 
 		scale_level = self._weight_normalization
 
+		self._data_wt = self._data_wt.copy()
+		self._array_wt = _df_values(self._data_wt, (self._array_wt.shape[0], ))
+
 		for i in range(self._array_wt.shape[0]):
 			self._array_wt[i] *= scale_level
 
-- 
2.43.0


From 217c5ac618d22ca57e18effbf4f1f609608c6f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 020/132] fix: derivatives when two size terms share a
 parameter

---
 larch/dataframes.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 6316d92..0d7d88d 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -2413,12 +2413,15 @@ cdef class DataFrames:
 							_temp = self._array_ca[c, j, self.model_quantity_ca_data[i]]
 						_temp *= self.model_quantity_ca_param_value[i] * self.model_quantity_ca_param_scale[i]
 						U[j] += _temp
-						if not self.model_quantity_ca_param_holdfast[i]:
-							dU[j,self.model_quantity_ca_param[i]] += _temp * self.model_quantity_scale_param_value
 
 					for i in range(self.model_quantity_ca_param.shape[0]):
 						if not self.model_quantity_ca_param_holdfast[i]:
-							dU[j,self.model_quantity_ca_param[i]] /= U[j]
+							if row >= 0:
+								_temp = self._array_ce[row, self.model_quantity_ca_data[i]]
+							else:
+								_temp = self._array_ca[c, j, self.model_quantity_ca_data[i]]
+							_temp *= self.model_quantity_ca_param_value[i] * self.model_quantity_ca_param_scale[i]
+							dU[j,self.model_quantity_ca_param[i]] += _temp * self.model_quantity_scale_param_value / U[j]
 
 					if Q is not None:
 						Q[j] = U[j]
-- 
2.43.0


From 9a5adc26ba74bbb0fa6af928481beed6f3fd7a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 021/132] fix: the numba model reads idce data of a DataFrames
 instead of an empty array

---
 larch/numba/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 9f92d87..db11f68 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1050,7 +1050,13 @@ class NumbaModel(_BaseModel):
             if _array_co.dtype != self.float_dtype:
                 _array_co = _array_co.astype(self.float_dtype)
 
-            _array_ca = self.dataframes.array_ca(force=True)
+            if self.dataframes.data_ca is None and self.dataframes.data_ce is not None:
+                _data_ca = self.dataframes.data_ce_as_ca()[self.dataframes.data_ce.columns]
+                _array_ca = _data_ca.values.reshape(
+                    self.dataframes.n_cases, self.dataframes.n_alts, -1
+                )
+            else:
+                _array_ca = self.dataframes.array_ca(force=True)
             if _array_ca.dtype != self.float_dtype:
                 _array_ca = _array_ca.astype(self.float_dtype)
 
-- 
2.43.0


From bbeeb4710994cfa0c7d81a0291eb23d7394e823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 022/132] fix: derivatives in numba when two size terms share a
 parameter

---
 larch/numba/model.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index db11f68..8e5bbde 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -121,12 +121,15 @@ def quantity_from_data_ca(
                             * np.exp(parameter_arr[model_q_ca_param[i]])
                     )
                     utility_elem[j] += _temp
-                    if not holdfast_arr[model_q_ca_param[i]]:
-                        dutility_elem[j, model_q_ca_param[i]] += _temp * scale_param_value
 
                 for i in range(model_q_ca_param.shape[0]):
                     if not holdfast_arr[model_q_ca_param[i]]:
-                        dutility_elem[j, model_q_ca_param[i]] /= utility_elem[j]
+                        _temp = (
+                                array_ce_data[row, model_q_ca_data[i]]
+                                * model_q_ca_param_scale[i]
+                                * np.exp(parameter_arr[model_q_ca_param[i]])
+                        )
+                        dutility_elem[j, model_q_ca_param[i]] += _temp * scale_param_value / utility_elem[j]
 
                 _tempsize = np.log(utility_elem[j])
                 utility_elem[j] = _tempsize * scale_param_value
@@ -157,12 +160,15 @@ def quantity_from_data_ca(
                             * np.exp(parameter_arr[model_q_ca_param[i]])
                         )
                         utility_elem[j] += _temp
-                        if not holdfast_arr[model_q_ca_param[i]]:
-                            dutility_elem[j, model_q_ca_param[i]] += _temp * scale_param_value
 
                     for i in range(model_q_ca_param.shape[0]):
                         if not holdfast_arr[model_q_ca_param[i]]:
-                            dutility_elem[j, model_q_ca_param[i]] /= utility_elem[j]
+                            _temp = (
+                                array_ca[j, model_q_ca_data[i]]
+                                * model_q_ca_param_scale[i]
+                                * np.exp(parameter_arr[model_q_ca_param[i]])
+                            )
+                            dutility_elem[j, model_q_ca_param[i]] += _temp * scale_param_value / utility_elem[j]
 
                     _tempsize = np.log(utility_elem[j])
                     utility_elem[j] = _tempsize * scale_param_value
-- 
2.43.0


From 861a0e87296a843502740644029a4b3273af9582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 023/132] fix: derivatives in numba when nests within nests
 share a logsum parameter

---
 larch/numba/model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 8e5bbde..9d0f019 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -424,12 +424,11 @@ def _numba_utility_to_loglike(
                     if dn >= n_alts:
                         dn_mu_slot = mu_slots[dn-n_alts]
                         if dn_mu_slot >= 0:
-                            dutility[dn, dn_mu_slot] += utility[dn]
-                            dutility[dn, dn_mu_slot] /= parameter_arr[dn_mu_slot]
+                            dutility[dn, dn_mu_slot] += utility[dn] / parameter_arr[dn_mu_slot]
                     up_mu_slot = mu_slots[up - n_alts]
                     if up_mu_slot >= 0:
                         # FIXME: alpha slots to appear here if cross-nesting is activated
-                        dutility[up, up_mu_slot] -= cond_prob * (utility[dn])
+                        dutility[up, up_mu_slot] -= cond_prob * utility[dn] / parameter_arr[up_mu_slot]
                     dutility[up, :] += cond_prob * dutility[dn, :]
 
             # d probability
-- 
2.43.0


From 4d9f5340b00ab33651559d9e87e26b6e04bea1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 024/132] fix: results of the numba model are not overwritten
 by the next computation

---
 larch/numba/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 9d0f019..b91b2be 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1627,6 +1627,7 @@ class NumbaModel(_BaseModel):
         pr = result_arrays.probability
         if not include_nests:
             pr = pr[:, :self.graph.n_elementals()]
+        pr = pr.copy()  # the work array is overwritten by the next computation
         return self._wrap_as_dataframe(
             pr,
             return_dataframe,
@@ -1687,7 +1688,7 @@ class NumbaModel(_BaseModel):
             only_utility=2,
         )
         return self._wrap_as_dataframe(
-            result_arrays.utility,
+            result_arrays.utility.copy(),
             return_format,
             start_case=start_case,
             stop_case=stop_case,
@@ -1711,7 +1712,7 @@ class NumbaModel(_BaseModel):
             only_utility=3,
         )
         return self._wrap_as_dataframe(
-            result_arrays.utility,
+            result_arrays.utility.copy(),
             return_dataframe,
         )
 
@@ -1734,7 +1735,7 @@ class NumbaModel(_BaseModel):
         if arr is not None:
             arr[start_case:stop_case:step_case] = result_arrays.utility[:,-1]
             return arr
-        return result_arrays.utility[:,-1]
+        return result_arrays.utility[:,-1].copy()
 
     def loglike2(
             self,
-- 
2.43.0


From ed212118a29e3832be1d605c4ec1fe5d4e5350d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 025/132] fix: the numba model honours leave_out and keep_only

---
 larch/numba/model.py | 43 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index b91b2be..9e20c22 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1380,6 +1380,9 @@ class NumbaModel(_BaseModel):
             start_case=None,
             stop_case=None,
             step_case=None,
+            leave_out=-1,
+            keep_only=-1,
+            subsample=-1,
     ):
         caseslice = slice(start_case, stop_case, step_case)
         args = self.__prepare_for_compute(
@@ -1440,6 +1443,14 @@ class NumbaModel(_BaseModel):
                 print(f" {arg_names[n]:{arg_name_width}} [{n:2}] {s.strip():9}: {dtp(a)}{shp(a)}")
             if not isinstance(error, RuntimeError):
                 raise
+        if subsample > 0 and (leave_out >= 0 or keep_only >= 0):
+            fold = np.arange(self.n_cases)[caseslice] % subsample
+            use = np.ones(fold.shape, dtype=bool)
+            if leave_out >= 0:
+                use &= (fold != leave_out)
+            if keep_only >= 0:
+                use &= (fold == keep_only)
+            result_arrays = WorkArrays(*(arr[use] for arr in result_arrays))
         return result_arrays, penalty
 
     @property
@@ -1454,6 +1465,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             **kwargs
     ):
         """
@@ -1486,10 +1498,11 @@ class NumbaModel(_BaseModel):
         float
         """
         result_arrays, penalty = self._loglike_runner(
-            x, start_case=start_case, stop_case=stop_case, step_case=step_case
+            x, start_case=start_case, stop_case=stop_case, step_case=step_case,
+            leave_out=leave_out, keep_only=keep_only, subsample=subsample,
         )
         result = result_arrays.loglike.sum() * self.weight_normalization
-        if start_case is None and stop_case is None and step_case is None:
+        if start_case is None and stop_case is None and step_case is None and leave_out < 0 and keep_only < 0:
             self._check_if_best(result)
         return result
 
@@ -1498,6 +1511,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             return_series=False,
             **kwargs,
     ):
@@ -1506,6 +1520,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_gradient=True,
         )
         result = result_arrays.d_loglike.sum(0) * self.weight_normalization
@@ -1518,6 +1535,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             **kwargs,
     ):
         result_arrays, penalty = self._loglike_runner(
@@ -1525,6 +1543,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
         )
         return result_arrays.loglike * self.weight_normalization
 
@@ -1533,6 +1554,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             **kwargs,
     ):
         result_arrays, penalty = self._loglike_runner(
@@ -1540,6 +1562,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_gradient=True,
         )
         return result_arrays.d_loglike * self.weight_normalization
@@ -1549,6 +1574,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             return_dataframe=False,
             **kwargs,
     ):
@@ -1557,6 +1583,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_bhhh=True,
         )
         result = result_arrays.bhhh.sum(0) * self.weight_normalization
@@ -1756,13 +1785,16 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_gradient=True,
         )
         result = dictx(
             ll=result_arrays.loglike.sum() * self.weight_normalization,
             dll=result_arrays.d_loglike.sum(0) * self.weight_normalization,
         )
-        if start_case is None and stop_case is None and step_case is None:
+        if start_case is None and stop_case is None and step_case is None and leave_out < 0 and keep_only < 0:
             self._check_if_best(result.ll)
         if return_series:
             result['dll'] = pd.Series(result['dll'], index=self._frame.index, )
@@ -1784,6 +1816,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_gradient=True,
             return_bhhh=True,
         )
@@ -1797,7 +1832,7 @@ class NumbaModel(_BaseModel):
             result['ll_casewise'] = result_arrays.loglike * self.weight_normalization
         if persist & PERSIST_D_LOGLIKE_CASEWISE:
             result['dll_casewise'] = result_arrays.d_loglike * self.weight_normalization
-        if start_case is None and stop_case is None and step_case is None:
+        if start_case is None and stop_case is None and step_case is None and leave_out < 0 and keep_only < 0:
             self._check_if_best(result.ll)
         if return_series:
             result['dll'] = pd.Series(result['dll'], index=self._frame.index, )
-- 
2.43.0


From 8b097ba9b6b2952592361c6d6781da22200ef70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 026/132] fix: neg_loglike3 returns the values it computed

---
 larch/model/abstract_model.pyx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 4985b13..152a1b7 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -444,10 +444,8 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		return -np.asarray(result)
 
 	def neg_loglike3(self, *args, **kwargs):
-		from ..util import dictx
-		result = dictx()
 		part = self.loglike3(*args, **kwargs)
-		return (-result.ll, -result.dll, -result.d2ll)
+		return (-part.ll, -part.dll, -part.d2ll)
 
 	def _check_if_best(self, computed_ll, pvalues=None):
 		if computed_ll > self._cached_loglike_best:
-- 
2.43.0


From 66db0a9532ebf895af4a07cc32364d5734cb7c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 027/132] fix: reference log likelihoods are computed anew for
 other data or another specification

---
 larch/model/abstract_model.pyx | 7 +++++++
 larch/model/controller.pyx     | 3 ++-
 larch/numba/model.py           | 2 ++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 152a1b7..4755eca 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -48,8 +48,15 @@ cdef class AbstractChoiceModel(ParameterFrame):
 
 	def mangle(self, *args, **kwargs):
 		self.clear_best_loglike()
+		self._cached_loglike_null = 0
 		super().mangle(*args, **kwargs)
 
+	def _clear_reference_loglikes(self):
+		# these depend on the data, so they are not valid for other data
+		self._cached_loglike_nil = 0
+		self._cached_loglike_null = 0
+		self._cached_loglike_constants_only = 0
+
 	def clear_best_loglike(self):
 		if self._frame is not None and 'best' in self._frame.columns:
 			del self._frame['best']
diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 8dc6302..f2b12fe 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -170,13 +170,13 @@ cdef class Model5c(AbstractChoiceModel):
 		(self._possible_overspecification    ) = state["_possible_overspecification    ".strip()]
 		(self._most_recent_estimation_result ) = state["_most_recent_estimation_result ".strip()]
 		(self._cached_loglike_nil            ) = state["_cached_loglike_nil            ".strip()]
-		(self._cached_loglike_null           ) = state["_cached_loglike_null           ".strip()]
 		(self._cached_loglike_constants_only ) = state["_cached_loglike_constants_only ".strip()]
 		(self._cached_loglike_best           ) = state["_cached_loglike_best           ".strip()]
 		(self._title                         ) = state["_title                         ".strip()]
 		(self._matrixes                      ) = state["_matrixes                      ".strip()]
 
 		self.unmangle(True)
+		(self._cached_loglike_null           ) = state["_cached_loglike_null           ".strip()]
 		self.n_threads = 0
 		self._prior_frame_values = None
 		# if self._graph is not None:
@@ -519,6 +519,7 @@ cdef class Model5c(AbstractChoiceModel):
 
 		x.computational = True
 		self.clear_best_loglike()
+		self._clear_reference_loglikes()
 
 		#self.unmangle() # don't do a full unmangle here, it will fail if the old data is incomplete
 		if self._mangled:
diff --git a/larch/numba/model.py b/larch/numba/model.py
index 9e20c22..da0b36f 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1978,6 +1978,7 @@ class NumbaModel(_BaseModel):
 
         x.computational = True
         self.clear_best_loglike()
+        self._clear_reference_loglikes()
 
         # self.unmangle() # don't do a full unmangle here, it will fail if the old data is incomplete
         if self._is_mangled():
@@ -2052,6 +2053,7 @@ class NumbaModel(_BaseModel):
         from ..dataset import DataTree
         if tree is self.datatree:
             return
+        self._clear_reference_loglikes()
         if isinstance(tree, DataTree) or tree is None:
             self._datatree = tree
             self.mangle()
-- 
2.43.0


From d94dfc96993c6ea0ee1e5aad7863e84e737bf6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 028/132] fix: numba derivatives are zero for a logsum
 parameter held fast, as for other parameters

---
 larch/numba/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index da0b36f..6a98733 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -468,6 +468,8 @@ def _numba_utility_to_loglike(
                     else:
                         mu_up = parameter_arr[up_mu_slot]
                     for p in range(parameter_arr.size):
+                        if holdfast_arr[p]:
+                            continue
                         if mu_up:
                             scratch_ = dutility[dn, p] - dutility[up, p]
                             if p == up_mu_slot:
-- 
2.43.0


From 50baab80fb2330d952abe4f45c8060768e847ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:22 +0000
Subject: [PATCH 029/132] fix: choices given by columns of cases are assigned
 to their own alternatives

---
 larch/dataframes.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 0d7d88d..969dd68 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3367,13 +3367,13 @@ cdef class DataFrames:
 					df_ch = self._data_ch
 		elif 'choice_co' in req_data:
 			alts = self.alternative_codes()
-			cols = [req_data['choice_co'].get(a, '0') for a in alts]
+			cols = {a:req_data['choice_co'].get(a, '0') for a in alts}
 			try:
 				df_ch = columnize(self._data_co, cols, inplace=False, dtype=float_dtype)
 			except NameError:
 				df_ch = self._data_ch
 			else:
-				df_ch.columns = alts
+				df_ch = df_ch[list(alts)]
 		elif 'choice_co_code' in req_data:
 			choicecodes = columnize(self._data_co, [req_data['choice_co_code']], inplace=False, dtype=int)
 			df_ch = pandas.DataFrame(
-- 
2.43.0


From b9776c3bf53e884f1d675f2f1fc00dc44093b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 030/132] fix: choice and availability arrays stored by
 alternative and case are read the right way around

---
 larch/numba/data_arrays.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/larch/numba/data_arrays.py b/larch/numba/data_arrays.py
index b9e0b59..a8fd551 100755
--- a/larch/numba/data_arrays.py
+++ b/larch/numba/data_arrays.py
@@ -389,6 +389,7 @@ def _prep_ca(
         if not preserve_vars and vars_ca in shared_data_ca.root_dataset:
             proposal = shared_data_ca.root_dataset[vars_ca]
             if shared_data_ca.CASEID in proposal.dims and shared_data_ca.ALTID in proposal.dims:
+                proposal = proposal.transpose(shared_data_ca.CASEID, shared_data_ca.ALTID)
                 proposal = proposal.drop(list(proposal.coords)).rename(tag)
                 return model_dataset.merge(proposal), flow
     if isinstance(vars_ca, str):
-- 
2.43.0


From df78102413fcc239b2ccb16f1d75eac78fe24493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 031/132] fix: nests and labels of the numba model follow the
 order of alternatives in the data

---
 larch/model/tree.py  | 8 +++++---
 larch/numba/model.py | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index 0278557..56f7f6a 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -92,8 +92,9 @@ class NestingTree(nx.DiGraph):
             and self._suggested_elemental_order == other._suggested_elemental_order
         )
 
-    def suggest_elemental_order(self, order):
+    def suggest_elemental_order(self, order, touch=True):
         self._suggested_elemental_order = tuple(j for j in order if j in self.nodes)
+        self._clear_caches(touch=touch)
 
     @property
     def root_id(self):
@@ -113,7 +114,7 @@ class NestingTree(nx.DiGraph):
             self.add_edge(self._root_id, t, **a, _clear_caches=False)
         self._clear_caches()
 
-    def _clear_caches(self):
+    def _clear_caches(self, touch=True):
         NestingTree.topological_sorted.invalidate(self, "topological_sorted")
         NestingTree.topological_sorted_no_elementals.invalidate(
             self, "topological_sorted_no_elementals"
@@ -129,7 +130,8 @@ class NestingTree(nx.DiGraph):
         )
         self._predecessor_slots = {}
         self._successor_slots = {}
-        self.touch()
+        if touch:
+            self.touch()
 
     def add_edge(self, u, v, implied=False, _clear_caches=True, **kwarg):
         """
diff --git a/larch/numba/model.py b/larch/numba/model.py
index 6a98733..4887cdb 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1030,6 +1030,9 @@ class NumbaModel(_BaseModel):
                 cache_dir=datatree.cache_dir,
                 flows=getattr(self, 'dataflows', None),
             )
+            altids = tuple(self.dataset.dc.altids())
+            if altids != self.graph.elementals and set(altids) == set(self.graph.elementals):
+                self.graph.suggest_elemental_order(altids, touch=False)
             self._data_arrays = self.dataset.dc.to_arrays(
                 self.graph,
                 float_dtype=self.float_dtype,
-- 
2.43.0


From 3025dec2df8d5199b1ccbea4996ee21fe2600d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 032/132] fix: choices given by columns of cases can be used
 with sparse data of alternatives

---
 larch/dataset/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/larch/dataset/__init__.py b/larch/dataset/__init__.py
index 273b6b7..dfd419d 100644
--- a/larch/dataset/__init__.py
+++ b/larch/dataset/__init__.py
@@ -1094,9 +1094,13 @@ class DataTree(_sharrow_DataTree):
         self.dim_order = tuple(dim_order)
 
     def idco_subtree(self):
+        altid = self.ALTID
         if 'idcoVars' in self.subspaces:
-            return self.subspaces['idcoVars'].dc.as_tree()
-        return self.drop_dims(self.ALTID, ignore_missing_dims=True)
+            result = self.subspaces['idcoVars'].dc.as_tree()
+        else:
+            result = self.drop_dims(altid, ignore_missing_dims=True)
+        result.dim_order = tuple(x for x in result.dim_order if x != altid)
+        return result
 
     @property
     def dc(self):
-- 
2.43.0


From 609d950e3de972ddd0c940ed1b890b17d8005e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 033/132] fix: sparse datasets are built in order of cases and
 alternatives, whatever the order of the rows

---
 larch/dataset/construct.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/larch/dataset/construct.py b/larch/dataset/construct.py
index 3bc17c9..9237710 100644
--- a/larch/dataset/construct.py
+++ b/larch/dataset/construct.py
@@ -275,16 +275,20 @@ class _DatasetConstruct:
         altidname = altidname or ALTID
         dim_name = dim_name or CASEALT
         case_pointer = case_pointer or CASEPTR
+        # the sparse format needs the rows of each case together, in the
+        # order of the alternatives, and no case without any rows.
+        df = df.iloc[np.lexsort((df.index.codes[1], df.index.codes[0]))]
+        used_cases, case_positions = np.unique(df.index.codes[0], return_inverse=True)
         ds = cls()(df.reset_index(drop=True).rename_axis(index=dim_name))
-        ds.coords[caseidname] = xr.DataArray(df.index.levels[0], dims=caseidname)
+        ds.coords[caseidname] = xr.DataArray(df.index.levels[0][used_cases], dims=caseidname)
         ds.coords[altidname] = xr.DataArray(df.index.levels[1], dims=altidname)
         if case_index is not None:
-            ds.coords[case_index] = xr.DataArray(df.index.codes[0], dims=dim_name)
+            ds.coords[case_index] = xr.DataArray(case_positions, dims=dim_name)
         if alt_index is None:
             raise ValueError('alt_index cannot be None')
         ds.coords[alt_index] = xr.DataArray(df.index.codes[1], dims=dim_name)
         ds.coords[case_pointer] = xr.DataArray(
-            np.where(np.diff(df.index.codes[0], prepend=np.nan, append=np.nan))[0],
+            np.where(np.diff(case_positions, prepend=np.nan, append=np.nan))[0],
             dims=case_pointer,
         )
         ds.attrs['_exclude_dims_'] = (caseidname, altidname, case_pointer)
-- 
2.43.0


From 4aa852de798ce8f83d3077d37dba934d5f87d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 034/132] fix: alternatives marked unavailable in sparse data
 are unavailable in the numba model

---
 larch/numba/model.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 4887cdb..eadb7e9 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -113,7 +113,7 @@ def quantity_from_data_ca(
                 # skipped alts are unavail, i.e. have zero size
                 utility_elem[j] = 0
                 j += 1
-            if model_q_ca_param.shape[0]:
+            if model_q_ca_param.shape[0] and array_av[j]:
                 for i in range(model_q_ca_param.shape[0]):
                     _temp = (
                             array_ce_data[row, model_q_ca_data[i]]
@@ -204,12 +204,15 @@ def utility_from_data_ca(
                 utility_elem[j] = -np.inf
                 j += 1
             # j = array_ce_indices[row] # happens naturally
-            for i in range(model_utility_ca_param.shape[0]):
-                _temp = array_ce_data[row, model_utility_ca_data[i]]
-                _temp *= model_utility_ca_param_scale[i]
-                utility_elem[j] += _temp * parameter_arr[model_utility_ca_param[i]]
-                if not holdfast_arr[model_utility_ca_param[i]]:
-                    dutility_elem[j, model_utility_ca_param[i]] += _temp
+            if array_av[j]:
+                for i in range(model_utility_ca_param.shape[0]):
+                    _temp = array_ce_data[row, model_utility_ca_data[i]]
+                    _temp *= model_utility_ca_param_scale[i]
+                    utility_elem[j] += _temp * parameter_arr[model_utility_ca_param[i]]
+                    if not holdfast_arr[model_utility_ca_param[i]]:
+                        dutility_elem[j, model_utility_ca_param[i]] += _temp
+            else:
+                utility_elem[j] = -np.inf
             j += 1
         while n_alts > j:
             # skipped alts are unavail
-- 
2.43.0


From 040a7e0b3a631eea2ac66af3cce078008be05af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:31 +0000
Subject: [PATCH 035/132] fix: data is read anew for a model when its arrays
 are laid out differently from those of an earlier one

---
 larch/numba/data_arrays.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/larch/numba/data_arrays.py b/larch/numba/data_arrays.py
index a8fd551..832b496 100755
--- a/larch/numba/data_arrays.py
+++ b/larch/numba/data_arrays.py
@@ -361,8 +361,8 @@ def prepare_data(
 
     return model_dataset, flows
 
-def flownamer(tag, definition_spec, extra_hash_features=()):
-    import hashlib, base64
+def flownamer(tag, definition_spec, extra_hash_features=(), subspaces=()):
+    import hashlib, base64, re
     defs_hash = hashlib.md5()
     defs_hash.update(str(tag).encode("utf8"))
     for k, v in definition_spec.items():
@@ -370,6 +370,14 @@ def flownamer(tag, definition_spec, extra_hash_features=()):
         defs_hash.update(str(v).encode("utf8"))
     for k in extra_hash_features:
         defs_hash.update(str(k).encode("utf8"))
+    # The code of a flow depends on the dimensions of the arrays it uses.
+    used = set(str(v) for v in definition_spec.values())
+    for v in definition_spec.values():
+        used.update(re.findall(r"\w+", str(v)))
+    for space_name, space in subspaces:
+        for k in space.variables:
+            if str(k) in used:
+                defs_hash.update(f"{space_name}.{k}:{space.variables[k].dims}".encode("utf8"))
     return "pipeline_"+(base64.b32encode(defs_hash.digest())).decode().replace("=","")
 
 
@@ -396,7 +404,7 @@ def _prep_ca(
         vars_ca = {vars_ca: vars_ca}
     if not isinstance(vars_ca, dict):
         vars_ca = {i:i for i in vars_ca}
-    flowname = flownamer(tag, vars_ca, shared_data_ca._hash_features())
+    flowname = flownamer(tag, vars_ca, shared_data_ca._hash_features(), shared_data_ca.subspaces_iter())
     if flow is None or flowname != flow.name:
         flow = shared_data_ca.setup_flow(vars_ca, cache_dir=cache_dir, name=flowname)
     else:
@@ -463,7 +471,7 @@ def _prep_ce(
         vars_ca = {vars_ca: vars_ca}
     if not isinstance(vars_ca, dict):
         vars_ca = {i:i for i in vars_ca}
-    flowname = flownamer(s_tag, vars_ca, datatree._hash_features())
+    flowname = flownamer(s_tag, vars_ca, datatree._hash_features(), datatree.subspaces_iter())
     if flow is None or flowname != flow.name:
         flow = datatree.setup_flow(vars_ca, cache_dir=cache_dir, name=flowname)
     arr = flow.load(
@@ -536,7 +544,7 @@ def _prep_co(
     assert isinstance(shared_data_co, DataTree)
     if not isinstance(vars_co, dict):
         vars_co = {i: i for i in vars_co}
-    flowname = flownamer(tag, vars_co, shared_data_co._hash_features())
+    flowname = flownamer(tag, vars_co, shared_data_co._hash_features(), shared_data_co.subspaces_iter())
     if flow is None or flowname != flow.name:
         flow = shared_data_co.setup_flow(vars_co, cache_dir=cache_dir, name=flowname)
     arr = flow.load(
-- 
2.43.0


From 889f1162941c7a28461cbcecead85ffb5f0d575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:16 +0000
Subject: [PATCH 036/132] fix: choices and availability in sparse data are read
 when no utility uses sparse data

---
 larch/numba/data_arrays.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/larch/numba/data_arrays.py b/larch/numba/data_arrays.py
index 832b496..76307d9 100755
--- a/larch/numba/data_arrays.py
+++ b/larch/numba/data_arrays.py
@@ -207,8 +207,8 @@ def prepare_data(
             da_ch = DataArray(
                 ce_to_dense(
                     model_dataset['choice_ce_data'].values,
-                    model_dataset[model_dataset.dc.ALTIDX].values,
-                    model_dataset[model_dataset.dc.CASEPTR].values,
+                    datatree.root_dataset[datatree.root_dataset.dc.ALTIDX].values,
+                    datatree.root_dataset[datatree.root_dataset.dc.CASEPTR].values,
                     datatree.n_alts
                 ),
                 dims=[datatree.CASEID, datatree.ALTID],
@@ -295,11 +295,11 @@ def prepare_data(
                 flow=flows.get('avail_ca'),
             )
         else:
-            if request['avail_ca'] in {'1', 'True', '1.0'} and model_dataset.dc.CASEPTR is not None and model_dataset.dc.ALTIDX is not None:
+            if request['avail_ca'] in {'1', 'True', '1.0'} and datatree.root_dataset.dc.CASEPTR is not None and datatree.root_dataset.dc.ALTIDX is not None:
                 da_av = DataArray(
                     ce_bool_to_dense(
-                        model_dataset[model_dataset.dc.ALTIDX].values,
-                        model_dataset[model_dataset.dc.CASEPTR].values,
+                        datatree.root_dataset[datatree.root_dataset.dc.ALTIDX].values,
+                        datatree.root_dataset[datatree.root_dataset.dc.CASEPTR].values,
                         datatree.n_alts,
                     ),
                     dims=[datatree.CASEID, datatree.ALTID],
@@ -325,8 +325,8 @@ def prepare_data(
                 da_av = DataArray(
                     ce_to_dense(
                         model_dataset['avail_ce_data'].values,
-                        model_dataset[model_dataset.dc.ALTIDX].values,
-                        model_dataset[model_dataset.dc.CASEPTR].values,
+                        datatree.root_dataset[datatree.root_dataset.dc.ALTIDX].values,
+                        datatree.root_dataset[datatree.root_dataset.dc.CASEPTR].values,
                         datatree.n_alts,
                     ),
                     dims=[datatree.CASEID, datatree.ALTID],
-- 
2.43.0


From 7893e17bfc57ecda21fce8b811e7b7b663f71c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 037/132] fix: a parameter given a value before it is used in
 the model is free like any other

---
 larch/model/parameter_frame.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/larch/model/parameter_frame.pyx b/larch/model/parameter_frame.pyx
index 8150219..59d6077 100644
--- a/larch/model/parameter_frame.pyx
+++ b/larch/model/parameter_frame.pyx
@@ -365,6 +365,10 @@ cdef class ParameterFrame:
 			# value = numpy.float64(value)
 			# self._frame.loc[name,'value'] = value
 			kwargs['value'] = value
+		if name not in self._frame.index:
+			# a new parameter starts free and without bounds, as any other
+			self._ensure_names([name], initvalue=l4_float_dtype(kwargs.get('value', 0)))
+			self.mangle()
 		for k,v in kwargs.items():
 			if k in self._frame.columns:
 				if self._frame.dtypes[k] == 'float64':
-- 
2.43.0


From 1efe1bd30387c32f1337f9c8edeeb89a61df2d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 038/132] fix: respect_holdfast=False applies to named values
 too

---
 larch/model/parameter_frame.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/parameter_frame.pyx b/larch/model/parameter_frame.pyx
index 59d6077..e5e4ae5 100644
--- a/larch/model/parameter_frame.pyx
+++ b/larch/model/parameter_frame.pyx
@@ -605,7 +605,7 @@ cdef class ParameterFrame:
 				self._scan_all_ensure_names()
 			for k,v in kwargs.items():
 				if k in self._frame.index:
-					if self._frame.loc[k,'holdfast'] == 0:
+					if not respect_holdfast or self._frame.loc[k,'holdfast'] == 0:
 						self._frame.loc[k, 'value'] = v
 				else:
 					import warnings
-- 
2.43.0


From c0cddd8a416c404b06789eeb99b43dc823985801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:52 +0000
Subject: [PATCH 039/132] fix: setting or locking values reaches parameters
 added since the table was last used

---
 larch/model/parameter_frame.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/larch/model/parameter_frame.pyx b/larch/model/parameter_frame.pyx
index e5e4ae5..3d64f40 100644
--- a/larch/model/parameter_frame.pyx
+++ b/larch/model/parameter_frame.pyx
@@ -443,6 +443,7 @@ cdef class ParameterFrame:
 			Add a note to all parameters fixed with this comment.  The same note is added to
 			all the parameters.
 		"""
+		self.unmangle()
 		for name in names:
 			value = self.get_value(name)
 			self.lock_value(name, value, note=note, change_check=False)
@@ -569,6 +570,8 @@ cdef class ParameterFrame:
 			the `pf` parameters DataFrame.
 		"""
 
+		if self._mangled:
+			self._scan_all_ensure_names()
 		if isinstance(values, str):
 			if values.lower() == 'null':
 				values = self._frame.loc[:,'nullvalue'].values
@@ -601,8 +604,6 @@ cdef class ParameterFrame:
 					raise ValueError(f"cannot set NaN values for parameters\n{loading_values}")
 				self._frame.loc[free_parameters, 'value'] = numpy.asanyarray(values)[free_parameters]
 		if len(kwargs):
-			if self._mangled:
-				self._scan_all_ensure_names()
 			for k,v in kwargs.items():
 				if k in self._frame.index:
 					if not respect_holdfast or self._frame.loc[k,'holdfast'] == 0:
-- 
2.43.0


From f50a38ec0652c33ef340a848aed088186c1676a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 040/132] fix: columns computed from a list of expressions can
 be added in place

---
 larch/util/dataframe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/larch/util/dataframe.py b/larch/util/dataframe.py
index 6b85d81..fcc0b7f 100755
--- a/larch/util/dataframe.py
+++ b/larch/util/dataframe.py
@@ -176,7 +176,8 @@ def columnize(df, name, inplace=True, dtype=None, debug=False, backing=None):
 		else:
 			df1 = pandas.DataFrame(content, index=df.index)
 		if inplace:
-			df[datamap.keys()] = df1.values
+			for k in datamap.keys():
+				df[k] = df1[k]
 			return
 		else:
 			return df1
-- 
2.43.0


From 3016267f23a98d1d350fe0004ebc0b87f6cf57cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 041/132] fix: an `in` inside another comparison is evaluated
 row by row too

---
 larch/util/aster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/larch/util/aster.py b/larch/util/aster.py
index 7c2b7d8..496e286 100644
--- a/larch/util/aster.py
+++ b/larch/util/aster.py
@@ -12,6 +12,7 @@ class AstWrapper(ast.NodeTransformer):
 
 	def visit_Compare(self, node):
 		"Change the `in` operator to numpy.in1d"
+		self.generic_visit(node)
 		if len(node.ops)==1 and isinstance(node.ops[0], ast.In):
 			#in1d = ast.Attribute(value=ast.Name(id='numpy', ctx=ast.Load()), attr='in1d', ctx=ast.Load())
 			in1d = ast.Name(id='inXd', ctx=ast.Load())
-- 
2.43.0


From 4c41850569751ab00b3b82bd4322f89602067d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:19 +0000
Subject: [PATCH 042/132] fix: names given to alternatives by set_altnames
 appear in alts_mapping

---
 larch/dataset/flow.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/larch/dataset/flow.py b/larch/dataset/flow.py
index b900772..8f407bd 100644
--- a/larch/dataset/flow.py
+++ b/larch/dataset/flow.py
@@ -328,10 +328,10 @@ class _GenericFlow:
     def alts_mapping(self):
         """Dict[int,str] : Mapping of alternative codes to names"""
         a = self._obj.coords[self.ALTID]
-        if 'alt_names' in a.coords:
-            return dict(zip(a.values, a.coords['alt_names'].values))
-        else:
-            return dict(zip(a.values, a.values))
+        for names in ('alt_names', 'altnames'):
+            if names in a.coords:
+                return dict(zip(a.values, a.coords[names].values))
+        return dict(zip(a.values, a.values))
 
     @property
     def n_cases(self):
-- 
2.43.0


From a4632dbad49fb61cf4281cd782bfbd2e7136a0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:19 +0000
Subject: [PATCH 043/132] fix: dissolve_zero_variance works in place and leaves
 the coordinates alone

---
 larch/dataset/flow.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/larch/dataset/flow.py b/larch/dataset/flow.py
index 8f407bd..90f86d8 100644
--- a/larch/dataset/flow.py
+++ b/larch/dataset/flow.py
@@ -404,10 +404,12 @@ class _GenericFlow:
         if dim == '<ALTID>':
             dim = self.ALTID
         if inplace:
-            obj = self
+            obj = self._obj
         else:
-            obj = self.copy()
-        for k in obj.variables:
+            obj = self._obj.copy()
+        for k in list(obj.variables):
+            if k in obj.coords:
+                continue
             if obj[k].dtype.kind in {'U', 'S', 'O'}:
                 continue
             if dim in obj[k].dims:
@@ -421,7 +423,7 @@ class _GenericFlow:
             elif obj[k].dims == (self.CASEALT,):
                 proposal, flag = ce_dissolve_zero_variance(obj[k].values, obj[self.CASEPTR].values)
                 if flag == 0:
-                    obj = obj.assign({k: xr.DataArray(proposal, dims=(self.CASEID))})
+                    obj[k] = xr.DataArray(proposal, dims=(self.CASEID))
         return obj
 
     def dissolve_coords(self, dim, others=None):
-- 
2.43.0


From 3702deae62db984c138bf35717007314bc5bb49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:19 +0000
Subject: [PATCH 044/132] fix: query_cases keeps the sparse rows of the
 selected cases only

---
 larch/dataset/flow.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/larch/dataset/flow.py b/larch/dataset/flow.py
index 90f86d8..0d427b7 100644
--- a/larch/dataset/flow.py
+++ b/larch/dataset/flow.py
@@ -531,7 +531,32 @@ class _DatasetDC(_GenericFlow):
         Dataset.isel
         pandas.eval
         """
-        result = self._obj.query({self.CASEID: query}, parser=parser, engine=engine)
+        if self.CASEPTR is not None and self.CASEALT in self._obj.dims:
+            # find the positions of the cases to keep, then keep the sparse
+            # rows of those cases only, and point to them
+            positions = self._obj.assign(
+                _case_position_=(self.CASEID, np.arange(self._obj.dims[self.CASEID]))
+            )
+            positions = positions.query({self.CASEID: query}, parser=parser, engine=engine)
+            positions = positions['_case_position_'].values
+            case_ptr = self._obj[self.CASEPTR].values
+            old_case_index = case_ptr_to_indexes(self._obj.dims[self.CASEALT], case_ptr)
+            sizes = np.diff(case_ptr)[positions]
+            rows = [np.arange(case_ptr[c], case_ptr[c + 1]) for c in positions]
+            result = self._obj.drop_vars(self.CASEPTR).isel({
+                self.CASEID: positions,
+                self.CASEALT: np.concatenate(rows) if rows else np.arange(0),
+            })
+            result.coords[self.CASEPTR] = xr.DataArray(
+                np.concatenate([[0], np.cumsum(sizes)]).astype(case_ptr.dtype),
+                dims=self.CASEPTR,
+            )
+            for k in result.coords:
+                if self._obj[k].dims == (self.CASEALT,) and k != self.ALTIDX:
+                    if np.array_equal(self._obj[k].values, old_case_index):
+                        result.coords[k] = (self.CASEALT, np.repeat(np.arange(len(positions)), sizes))
+        else:
+            result = self._obj.query({self.CASEID: query}, parser=parser, engine=engine)
         result = self.transfer_dimension_attrs(result)
         return result
 
-- 
2.43.0


From 8f0b5b58789949a6a2f70cb1b34acd8f44160ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:19 +0000
Subject: [PATCH 045/132] fix: from_idca does not renumber the alternatives in
 the caller's table, and takes names as a mapping

---
 larch/dataset/construct.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/larch/dataset/construct.py b/larch/dataset/construct.py
index 9237710..4c93f59 100644
--- a/larch/dataset/construct.py
+++ b/larch/dataset/construct.py
@@ -196,11 +196,18 @@ class _DatasetConstruct:
         # check altids are integers, if they are not then fix it
         if df.index.levels[1].dtype.kind != 'i':
             if altnames is None:
-                altnames = df.index.levels[1]
-                df.index = df.index.set_levels(np.arange(1, len(altnames) + 1), level=1)
-            else:
-                new_index = df.index.get_level_values(1).astype(pd.CategoricalDtype(altnames))
-                df.index = df.index.set_codes(new_index.codes, level=1).set_levels(np.arange(1, len(altnames) + 1), level=1)
+                altnames = sorted(df.index.unique(level=1))
+            if not isinstance(altnames, Mapping):
+                altnames = dict(enumerate(altnames, start=1))
+            new_index = df.index.get_level_values(1).astype(pd.CategoricalDtype(list(altnames.values())))
+            index = df.index.set_levels(list(altnames.keys()), level=1, verify_integrity=False)
+            df = df.set_axis(index.set_codes(new_index.codes, level=1), axis=0)
+        elif altnames is not None and not isinstance(altnames, Mapping):
+            # names are in the order of the codes
+            altcodes = sorted(df.index.unique(level=1))
+            if len(altcodes) != len(altnames):
+                raise ValueError(f"{len(altnames)} altnames given for {len(altcodes)} alternatives")
+            altnames = dict(zip(altcodes, altnames))
 
         ds = cls()(df, caseid=caseidname, alts=altidname)
         if crack:
-- 
2.43.0


From ea4b91210989fdc90b393eaf2480fda63bc88a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:19 +0000
Subject: [PATCH 046/132] fix: fill_missing fills the data of missing
 alternatives, by whatever name availability has, and not availability

---
 larch/dataset/construct.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/larch/dataset/construct.py b/larch/dataset/construct.py
index 4c93f59..b088b31 100644
--- a/larch/dataset/construct.py
+++ b/larch/dataset/construct.py
@@ -221,17 +221,20 @@ class _DatasetConstruct:
             if fill_missing is not None:
                 if isinstance(fill_missing, Mapping):
                     for k, i in ds.items():
-                        if ds.dc.ALTID not in i.dims:
+                        if ds.dc.ALTID not in i.dims or k == avail:
                             continue
-                        if k not in fill_missing and i.dtype not in fill_missing:
+                        if k in fill_missing:
+                            filler = fill_missing[k]
+                        elif i.dtype in fill_missing:
+                            filler = fill_missing[i.dtype]
+                        else:
                             continue
-                        filler = fill_missing.get(k, fill_missing[i.dtype])
-                        ds[k] = i.where(ds['_avail_']!=0, filler)
+                        ds[k] = i.where(ds[avail]!=0, filler)
                 else:
                     for k, i in ds.items():
-                        if ds.dc.ALTID not in i.dims:
+                        if ds.dc.ALTID not in i.dims or k == avail:
                             continue
-                        ds[k] = i.where(ds['_avail_']!=0, fill_missing)
+                        ds[k] = i.where(ds[avail]!=0, fill_missing)
         return ds
 
     @classmethod
-- 
2.43.0


From 357bb43fee48d0324e7c13cce4b37adc0bfd8dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:19 +0000
Subject: [PATCH 047/132] fix: merge uses its arguments

---
 larch/dataset/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/larch/dataset/__init__.py b/larch/dataset/__init__.py
index dfd419d..feb8080 100644
--- a/larch/dataset/__init__.py
+++ b/larch/dataset/__init__.py
@@ -1372,10 +1372,10 @@ def merge(
     return Dataset.construct(
         xr.merge(
             objects,
-            compat="no_conflicts",
-            join="outer",
-            fill_value=dtypes.NA,
-            combine_attrs="override",
+            compat=compat,
+            join=join,
+            fill_value=fill_value,
+            combine_attrs=combine_attrs,
         ),
         caseid=caseid,
         alts=alts,
-- 
2.43.0


From 49ab72cb859cf615d982e1163e2083c99800d07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:19 +0000
Subject: [PATCH 048/132] fix: DataArray.to_zarr writes to the store it is
 given

---
 larch/dataset/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataset/__init__.py b/larch/dataset/__init__.py
index feb8080..a64cbaf 100644
--- a/larch/dataset/__init__.py
+++ b/larch/dataset/__init__.py
@@ -122,7 +122,7 @@ def to_zarr(self, store=None, *args, **kwargs):
                 dataset.to_zarr(zstore, **kwargs)
             return
 
-    return dataset.to_zarr(*args, **kwargs)
+    return dataset.to_zarr(store, *args, **kwargs)
 
 @register_dataarray_classmethod
 def from_zarr(cls, *args, name=None, **kwargs):
-- 
2.43.0


From ccc20650e8d52b9315f9d4d66f0b48b0fb4f15a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:54 +0000
Subject: [PATCH 049/132] fix: the log likelihood does not depend on the order
 in which threads finish

---
 larch/model/mnl.pyx | 4 +++-
 larch/model/nl.pyx  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/larch/model/mnl.pyx b/larch/model/mnl.pyx
index f0ba56d..41a3d61 100644
--- a/larch/model/mnl.pyx
+++ b/larch/model/mnl.pyx
@@ -647,7 +647,6 @@ def mnl_d_log_likelihood_from_dataframes_all_rows(
 					probability[store_number_P], # output
 					dfs._array_ch[c,:],
 				) * weight
-				ll += ll_temp
 				LL_case[store_number_LLc] += ll_temp
 
 				if return_dll:
@@ -669,6 +668,9 @@ def mnl_d_log_likelihood_from_dataframes_all_rows(
 
 		if probability_only:
 			ll = numpy.nan
+		else:
+			# not a reduction over threads, the order of which is not defined
+			ll = LL_case.base.sum()
 
 		ll *= dfs._weight_normalization
 		if return_dll:
diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 716eb35..95659da 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -619,7 +619,6 @@ def nl_d_log_likelihood_from_dataframes_all_rows(
 					dfs._array_ch[c,:],                       # input [n_alts]
 				) * weight
 				LL_case[store_number_LLc] += ll_temp
-				ll += ll_temp
 
 				if return_dll:
 					_nl_d_utility_upstream_v2(
@@ -676,6 +675,9 @@ def nl_d_log_likelihood_from_dataframes_all_rows(
 
 		if probability_only:
 			ll = numpy.nan
+		else:
+			# not a reduction over threads, the order of which is not defined
+			ll = LL_case.base.sum()
 
 		ll *= dfs._weight_normalization
 		if return_dll:
-- 
2.43.0


From b03bb0419dd6d5f3b9fabbcec780abdc5e156187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:54 +0000
Subject: [PATCH 050/132] fix: a ratio bound limits the sides it has, for
 ratios of any sign

---
 larch/model/constraints.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index 5827e08..9648262 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -36,6 +36,13 @@ class ParametricConstraint(ABC):
         return [dict(type='ineq', fun=self.fun, jac=self.jac),]
 
 
+def _ratio_scaling(ratio):
+    # positive for any ratio, so that it never turns the bound around
+    if ratio == 0:
+        return 1.0
+    return max(abs(ratio), 1/abs(ratio))
+
+
 class RatioBound(ParametricConstraint):
 
     def __init__(self, p_num, p_den, min_ratio=None, max_ratio=None, model=None, scale=10, binding_tol=1e-4):
@@ -66,7 +73,7 @@ class RatioBound(ParametricConstraint):
             self.i_den = model._frame.index.get_loc(self.p_den)
             self.len = len(model._frame)
             if self.min_ratio is not None:
-                scaling = max(self.min_ratio, 1/self.min_ratio) * self.scale
+                scaling = _ratio_scaling(self.min_ratio) * self.scale
                 if model._frame.loc[self.p_den, 'minimum'] >= 0:
                     # positive denominator
                     self.cmin_num = 1 * scaling
@@ -81,7 +88,7 @@ class RatioBound(ParametricConstraint):
                 self.cmin_num = 0
                 self.cmin_den = 0
             if self.max_ratio is not None:
-                scaling = max(self.max_ratio, 1/self.max_ratio) * self.scale
+                scaling = _ratio_scaling(self.max_ratio) * self.scale
                 if model._frame.loc[self.p_den, 'minimum'] >= 0:
                     # positive denominator
                     self.cmax_num = -1 * scaling
@@ -97,9 +104,13 @@ class RatioBound(ParametricConstraint):
                 self.cmax_den = 0
 
     def _min_fun(self, x):
+        if self.min_ratio is None:
+            return np.inf
         return x[self.i_num] * self.cmin_num + x[self.i_den] * self.cmin_den
 
     def _max_fun(self, x):
+        if self.max_ratio is None:
+            return np.inf
         return x[self.i_num] * self.cmax_num + x[self.i_den] * self.cmax_den
 
     def fun(self, x):
@@ -144,14 +155,23 @@ class RatioBound(ParametricConstraint):
         cmin_den = self.cmin_den
         cmax_num = self.cmax_num
         cmax_den = self.cmax_den
+        # a side that has no limit is never approached
+        if self.min_ratio is None:
+            cmin = np.inf
+        else:
+            cmin = 0.0
+        if self.max_ratio is None:
+            cmax = np.inf
+        else:
+            cmax = 0.0
         scale = self.scale
         @njit([
             float32(float32[:], float32, float32),
             float64(float64[:], float64, float64),
         ])
         def penalty(x, intensity, sharpness=1.0):
-            _min = x[i_num] * cmin_num + x[i_den] * cmin_den
-            _max = x[i_num] * cmax_num + x[i_den] * cmax_den
+            _min = x[i_num] * cmin_num + x[i_den] * cmin_den + cmin
+            _max = x[i_num] * cmax_num + x[i_den] * cmax_den + cmax
             return -softplus(-np.minimum(_min, _max) * scale * intensity, sharpness)
         @njit([
             float32[:](float32[:], float32, float32),
@@ -159,8 +179,8 @@ class RatioBound(ParametricConstraint):
         ])
         def dpenalty(x, intensity, sharpness=1.0):
             j = np.zeros_like(x)
-            _min = x[i_num] * cmin_num + x[i_den] * cmin_den
-            _max = x[i_num] * cmax_num + x[i_den] * cmax_den
+            _min = x[i_num] * cmin_num + x[i_den] * cmin_den + cmin
+            _max = x[i_num] * cmax_num + x[i_den] * cmax_den + cmax
             partial = d_softplus(-np.minimum(_min, _max), sharpness * scale * intensity) * scale * intensity
             if _min < _max:
                 j[i_num] = cmin_num * partial
@@ -175,8 +195,8 @@ class RatioBound(ParametricConstraint):
         ])
         def dpenalty_money(x, intensity):
             j = np.zeros_like(x)
-            _min = x[i_num] * cmin_num + x[i_den] * cmin_den
-            _max = x[i_num] * cmax_num + x[i_den] * cmax_den
+            _min = x[i_num] * cmin_num + x[i_den] * cmin_den + cmin
+            _max = x[i_num] * cmax_num + x[i_den] * cmax_den + cmax
             if np.absolute(_min) < 1e-5:
                 partial = 0.5 * scale * intensity
                 j[i_num] = cmin_num * partial
-- 
2.43.0


From ea67aff1e06ab24d01a90945b60936bf62b2e709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:54 +0000
Subject: [PATCH 051/132] fix: names such as e or E2 in a constraint are not
 read as numbers

---
 larch/model/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index 9648262..88559ba 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -549,7 +549,7 @@ def asfloat(x):
     return float(x)
 
 def interpret_contraint(c):
-    numbr = r"\s*([-+]?\d*\.?\d*[eE]?[-+]?\d*|\d+\/\d+)\s*"
+    numbr = r"\s*([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[-+]?\d+\/\d+)\s*"
     token = r"\s*([\w#:\*&^%\$!@]+)\s*"
 
     n_2w = f"^{numbr}(<=|<){token}(<=|<){numbr}$"
-- 
2.43.0


From 0a5039b506293dd21f6f3c6d4e27953fa92a4b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:54 +0000
Subject: [PATCH 052/132] fix: constraints stay with their parameters, and are
 not half inserted

---
 larch/model/constraints.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index 88559ba..2157100 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -4,6 +4,13 @@ from scipy.optimize import LinearConstraint
 from abc import ABC, abstractmethod
 import re
 
+def _slot(model, name):
+    """The position of a parameter, also when the model has not been scanned for it yet."""
+    if name not in model._frame.index:
+        model._scan_all_ensure_names()
+    return model._frame.index.get_loc(name)
+
+
 class ParametricConstraint(ABC):
 
     def __init__(self, binding_tol=1e-4):
@@ -69,8 +76,8 @@ class RatioBound(ParametricConstraint):
         if scale is not None:
             self.scale = scale
         if model is not None:
-            self.i_num = model._frame.index.get_loc(self.p_num)
-            self.i_den = model._frame.index.get_loc(self.p_den)
+            self.i_num = _slot(model, self.p_num)
+            self.i_den = _slot(model, self.p_den)
             self.len = len(model._frame)
             if self.min_ratio is not None:
                 scaling = _ratio_scaling(self.min_ratio) * self.scale
@@ -253,8 +260,8 @@ class OrderingBound(ParametricConstraint):
         return f"larch.OrderingBound({self.p_less},{self.p_more})"
 
     def link_model(self, model, scale=None):
-        self.i_less = model._frame.index.get_loc(self.p_less)
-        self.i_more = model._frame.index.get_loc(self.p_more)
+        self.i_less = _slot(model, self.p_less)
+        self.i_more = _slot(model, self.p_more)
         self.len = len(model._frame)
         if scale is not None:
             self.scale = scale
@@ -346,7 +353,7 @@ class FixedBound(ParametricConstraint):
         return f"larch.FixedBound({self.p},{self.minimum},{self.maximum})"
 
     def link_model(self, model, scale=None):
-        self.i = model._frame.index.get_loc(self.p)
+        self.i = _slot(model, self.p)
         self.len = len(model._frame)
         if scale is not None:
             self.scale = scale
@@ -445,8 +452,17 @@ class ParametricConstraintList(MutableSequence):
             newself = self.__fresh(instance)
         if newself is None:
             newself = self.__fresh(instance)
+        newself._relink()
         return newself
 
+    def _relink(self):
+        # parameters may have moved in the parameter frame, or have other bounds
+        for i in self._cx:
+            try:
+                i.link_model(self._instance)
+            except (KeyError, ValueError):
+                pass
+
     def __set__(self, instance, values):
 
         try:
@@ -489,12 +505,12 @@ class ParametricConstraintList(MutableSequence):
         if not isinstance(value, ParametricConstraint):
             raise TypeError('items must be of type ParametricConstraint')
         if self.allow_dupes or not self._is_duplicate(value):
+            value.link_model(self._instance)
             self._cx[key] = value
             try:
                 self._instance.mangle()
             except AttributeError as err:
                 pass
-            self._cx[key].link_model(self._instance)
 
     def __delitem__(self, key):
         del self._cx[key]
@@ -512,12 +528,12 @@ class ParametricConstraintList(MutableSequence):
         if not isinstance(value, ParametricConstraint):
             raise TypeError('items must be of type ParametricConstraint')
         if self.allow_dupes or not self._is_duplicate(value):
+            value.link_model(self._instance)
             self._cx.insert(index, value)
             try:
                 self._instance.mangle()
             except AttributeError as err:
                 pass
-            self._cx[index].link_model(self._instance)
 
     def __repr__(self):
         return repr(self._cx)
-- 
2.43.0


From 45190789977d24d4b93eefe07817100c87eda0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:54 +0000
Subject: [PATCH 053/132] fix: constraint penalties follow a sorted parameter
 frame

---
 larch/numba/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index eadb7e9..5b3c95f 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1173,7 +1173,7 @@ class NumbaModel(_BaseModel):
         if self._fixed_arrays is None or force:
             self._rebuild_fixed_arrays()
             self._rebuild_work_arrays()
-        if self._constraint_funcs is None:
+        if self._constraint_funcs is None or force:
             self._constraint_funcs = [c.as_soft_penalty() for c in self.constraints]
 
     def _scan_logsums_ensure_names(self):
-- 
2.43.0


From 44e3ef98767d42478951a7504082297cf22ce1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:54 +0000
Subject: [PATCH 054/132] fix: adding to the constraints of a model in place
 does not remove them all

---
 larch/model/constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index 2157100..23d1738 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -471,7 +471,8 @@ class ParametricConstraintList(MutableSequence):
             newself = self.__fresh(instance)
         if newself is None:
             newself = self.__fresh(instance)
-        newself.__init__(values)
+        # values may be this very list, for example after +=
+        newself.__init__(list(values) if values is not None else None)
         try:
             newself._instance.mangle()
         except AttributeError as err:
-- 
2.43.0


From d0a4c5efd7fcad7dd4defc07ec32fe564141760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:54 +0000
Subject: [PATCH 055/132] fix: the numba engine accepts fixed bounds among its
 constraints

---
 larch/model/constraints.py | 41 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index 23d1738..d42810a 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -402,6 +402,47 @@ class FixedBound(ParametricConstraint):
             self.maximum if self.maximum is not None else np.inf,
         )]
 
+    def as_soft_penalty(self):
+        from numba import njit, float32, float64
+        from ..numba.model import softplus, d_softplus
+        i = self.i
+        minimum = self.minimum if self.minimum is not None else -np.inf
+        maximum = self.maximum if self.maximum is not None else np.inf
+        scale = self.scale
+        @njit([
+            float32(float32[:], float32, float32),
+            float64(float64[:], float64, float64),
+        ])
+        def penalty(x, intensity, sharpness=1.0):
+            gap = np.minimum(x[i] - minimum, maximum - x[i])
+            return -softplus(-gap * scale * intensity, sharpness)
+        @njit([
+            float32[:](float32[:], float32, float32),
+            float64[:](float64[:], float64, float64),
+        ])
+        def dpenalty(x, intensity, sharpness=1.0):
+            j = np.zeros_like(x)
+            gap = np.minimum(x[i] - minimum, maximum - x[i])
+            partial = d_softplus(-gap, sharpness * scale * intensity) * scale * intensity
+            if x[i] - minimum < maximum - x[i]:
+                j[i] = partial
+            else:
+                j[i] = -partial
+            return j
+        @njit([
+            float32[:](float32[:], float32),
+            float64[:](float64[:], float64),
+        ])
+        def dpenalty_bind(x, intensity):
+            j = np.zeros_like(x)
+            partial = 0.5 * scale * intensity
+            if np.absolute(x[i] - minimum) < 1e-5:
+                j[i] = partial
+            elif np.absolute(maximum - x[i]) < 1e-5:
+                j[i] = -partial
+            return j
+        return penalty, dpenalty, dpenalty_bind
+
     def __eq__(self, other):
         if not isinstance(other, FixedBound):
             return False
-- 
2.43.0


From d3ea5abc6f9ae784c8407c43e5b8cda91e91364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:11 +0000
Subject: [PATCH 056/132] fix: the second derivatives do not change the
 parameter values

---
 larch/model/abstract_model.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 4755eca..af83cc2 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -423,7 +423,12 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		"""
 		part = self.loglike2(x=x, **kwargs)
 		from ..math.optimize import approx_fprime
-		part['d2ll'] = approx_fprime(self.pvals, lambda y: self.d_loglike(y, **kwargs))
+		current = self.pvals
+		try:
+			part['d2ll'] = approx_fprime(current, lambda y: self.d_loglike(y, **kwargs))
+		finally:
+			# the evaluations for the approximation move the parameters
+			self.set_values(current)
 		return part
 
 	def neg_loglike(self, x=None, start_case=0, stop_case=-1, step_case=1, leave_out=-1, keep_only=-1, subsample=-1):
-- 
2.43.0


From 215032010674ccbc5eb603f2b63b0230d389c79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:46 +0000
Subject: [PATCH 057/132] Revert "fix: the second derivatives do not change the
 parameter values"

This reverts commit d3ea5abc6f9ae784c8407c43e5b8cda91e91364f.
---
 larch/model/abstract_model.pyx | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index af83cc2..4755eca 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -423,12 +423,7 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		"""
 		part = self.loglike2(x=x, **kwargs)
 		from ..math.optimize import approx_fprime
-		current = self.pvals
-		try:
-			part['d2ll'] = approx_fprime(current, lambda y: self.d_loglike(y, **kwargs))
-		finally:
-			# the evaluations for the approximation move the parameters
-			self.set_values(current)
+		part['d2ll'] = approx_fprime(self.pvals, lambda y: self.d_loglike(y, **kwargs))
 		return part
 
 	def neg_loglike(self, x=None, start_case=0, stop_case=-1, step_case=1, leave_out=-1, keep_only=-1, subsample=-1):
-- 
2.43.0


From fd7920379594f0e074767c780a14ef397dda6910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 058/132] fix: redundant constraints do not corrupt the
 covariance matrix by rounding

---
 larch/model/abstract_model.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 4755eca..c42d75f 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -1199,7 +1199,12 @@ cdef class AbstractChoiceModel(ParameterFrame):
 						binding_constraints.append(c)
 						b = c.jac(self.pf.value)
 						den = b@s@b
-						if den != 0:
+						# a constraint on what has no variance [left] adds nothing but rounding errors
+						no_variance = max(
+							1e-12 * abs(b@self.covariance_matrix.values@b),
+							1e-15 * (b@b) * np.absolute(self.covariance_matrix.values).max(),
+						)
+						if abs(den) > no_variance:
 							s = s-(1/den)*s@b.reshape(-1,1)@b.reshape(1,-1)@s
 				self._matrixes['covariance_matrix'] = s
 				self.pf['std_err'] = np.sqrt(s.diagonal())
-- 
2.43.0


From a656996476ea0f77c60da9e34455979bb5117bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:14 +0000
Subject: [PATCH 059/132] fix: a model that is no longer over-specified is not
 reported as such

---
 larch/model/abstract_model.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index c42d75f..f6f00e4 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -1082,6 +1082,8 @@ cdef class AbstractChoiceModel(ParameterFrame):
 						paramset = list(np.asarray(self.pf.index)[ox])
 						possible_overspecification.append((eigval, paramset, eigenvec[ox]))
 				self._possible_overspecification = possible_overspecification
+			else:
+				self._possible_overspecification = None
 
 			take = np.full_like(hess, True, dtype=bool)
 			dense_s = len(self.pvals)
-- 
2.43.0


From f4f737d22d1d33c83e896efe7520d57c3f80b236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:57 +0000
Subject: [PATCH 060/132] fix: maximize_loglike does not change the options it
 is given

---
 larch/model/optimization.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/larch/model/optimization.py b/larch/model/optimization.py
index 5d081d0..99228b7 100644
--- a/larch/model/optimization.py
+++ b/larch/model/optimization.py
@@ -127,8 +127,7 @@ def maximize_loglike(
                 model._frame.sort_index(inplace=True)
                 model.unmangle(True)
 
-        if options is None:
-            options = {}
+        options = dict(options) if options is not None else {}
         if maxiter is not None:
             options['maxiter'] = maxiter
 
-- 
2.43.0


From 85f4aaa1318c8089176c3763bc78691dbdbede02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:57 +0000
Subject: [PATCH 061/132] fix: BHHH steps start from where the jumpstart
 arrives

---
 larch/model/abstract_model.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index f6f00e4..5c3a152 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -353,14 +353,17 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		-------
 		loglike, convergence_tolerance, n_iters, steps
 		"""
-		current_pvals = self.pvals.copy()
 		iter = 0
 		steps = []
 
 		if jumpstart:
-			self.jumpstart_bhhh(jumpstart=jumpstart, jumpstart_split=jumpstart_split)
+			self.jumpstart_bhhh(
+				jumpstart=jumpstart, jumpstart_split=jumpstart_split,
+				leave_out=leave_out, keep_only=keep_only, subsample=subsample,
+			)
 			iter += jumpstart
 
+		current_pvals = self.pvals.copy()
 		current_ll, current_dll, current_bhhh = self._loglike2_bhhh_tuple(leave_out=leave_out,
 																		  keep_only=keep_only,
 																		  subsample=subsample,
-- 
2.43.0


From e86ac4a74312fb5e6234f5e8bb160029b0d6bf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:57 +0000
Subject: [PATCH 062/132] fix: a BHHH step on some of the cases is judged by
 those cases

---
 larch/model/abstract_model.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 5c3a152..6616383 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -291,7 +291,7 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		tolerance = np.dot(direction, current_dll)
 		while True:
 			self.set_values(current + direction * steplen)
-			val = self.loglike()
+			val = self.loglike(leave_out=leave_out, keep_only=keep_only, subsample=subsample)
 			if val > current_ll: break
 			steplen *= 0.5
 			if steplen < 0.01: break
-- 
2.43.0


From a002b7353b51afdc00e47ca9b6a47677437812ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:43 +0000
Subject: [PATCH 063/132] fix: after estimation the model has the values of the
 solution

---
 larch/model/optimization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/larch/model/optimization.py b/larch/model/optimization.py
index 99228b7..b63737e 100644
--- a/larch/model/optimization.py
+++ b/larch/model/optimization.py
@@ -327,6 +327,10 @@ def maximize_loglike(
                     constraints=constraints,
                     **kwargs
                 )
+                # the last point that was evaluated is not always the solution
+                model.set_values(raw_result.x)
+                # parameters that are held fast do not follow the optimizer
+                raw_result['x'] = model.pvals
             except:
                 dashboard.update(
                     f'Iteration {iteration_number:03} [Exception] {iteration_number_tail}',
-- 
2.43.0


From 1f07a49ec7dbc2f5b7465e32c84f4477b9b804c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:02 +0000
Subject: [PATCH 064/132] fix: the jumpstart finds the number of cases

---
 larch/model/abstract_model.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 6616383..3e9f26f 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -315,7 +315,7 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		"""
 		for jump in range(jumpstart):
 			j_pvals = self.pvals.copy()
-			n_cases = self._dataframes._n_cases()
+			n_cases = self.n_cases
 			jump_breaks = list(range(0,n_cases, n_cases//jumpstart_split+(1 if n_cases%jumpstart_split else 0))) + [-1]
 			for j0,j1 in zip(jump_breaks[:-1],jump_breaks[1:]):
 				j_ll, current_dll, current_bhhh = self._loglike2_bhhh_tuple(start_case=j0, stop_case=j1,
-- 
2.43.0


From 9f288167ef5a9ffe14924aedd959e3b17f61cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 065/132] fix: the optimizer knows which parameters are held
 fast

---
 larch/model/optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larch/model/optimization.py b/larch/model/optimization.py
index b63737e..f2cf9a1 100644
--- a/larch/model/optimization.py
+++ b/larch/model/optimization.py
@@ -302,6 +302,9 @@ def maximize_loglike(
                 bounds = None
                 if isinstance(method ,str) and method.lower() in ('slsqp', 'l-bfgs-b', 'tnc', 'trust-constr'):
                     bounds = model.pbounds
+                    # parameters that are held fast do not follow the optimizer
+                    held = (model.pf.holdfast != 0).to_numpy()
+                    bounds.lb[held] = bounds.ub[held] = model.pvals[held]
                     if np.any(np.isinf(model.pf.minimum)) or np.any(np.isinf(model.pf.maximum)):
                         import warnings
                         warnings.warn( # infinite bounds # )
-- 
2.43.0


From cb35b0ed56ac34cae4ead076039fd101374e1626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 066/132] fix: a failed BHHH step leaves no trace in the search

---
 larch/numba/optimization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/larch/numba/optimization.py b/larch/numba/optimization.py
index cc96b7e..e66b706 100644
--- a/larch/numba/optimization.py
+++ b/larch/numba/optimization.py
@@ -172,6 +172,11 @@ def fit_bhhh(
                         break
                     else:
                         logger.debug(f"-- not yet well converged")
+                        # go on from the values that were restored, not from the failed step
+                        proposed = model.loglike2_bhhh(
+                            leave_out=leave_out, keep_only=keep_only, subsample=subsample,
+                        )
+                        proposed_ll = proposed.ll
             else:
                 raise BHHHSimpleStepFailure(f"simple step bhhh failed\ndirection = {str(direction)}")
         else:
-- 
2.43.0


From cff317885a4e13a21dfce92ac01877b8c1c257a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 067/132] fix: a nearly singular BHHH matrix gives a finite
 direction

---
 larch/numba/optimization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larch/numba/optimization.py b/larch/numba/optimization.py
index e66b706..a86da48 100644
--- a/larch/numba/optimization.py
+++ b/larch/numba/optimization.py
@@ -6,6 +6,8 @@ def propose_direction(bhhh, dloglike, freedoms):
     direction = np.zeros_like(dloglike)
     try:
         ibhhh = np.linalg.inv(bhhh[freedoms, :][:, freedoms])
+        if not np.all(np.isfinite(ibhhh)):
+            raise np.linalg.LinAlgError("Singular matrix")
     except np.linalg.LinAlgError:
         ibhhh = np.linalg.pinv(bhhh[freedoms, :][:, freedoms])
     direction1 = np.dot(ibhhh, dloglike[freedoms])
-- 
2.43.0


From 7a9c3d2c04c5462ccfe72a603e86d1237027b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:10 +0000
Subject: [PATCH 068/132] fix: a BHHH step to where there is no log likelihood
 has failed

---
 larch/model/abstract_model.pyx | 4 ++--
 larch/model/optimization.py    | 2 +-
 larch/numba/optimization.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 3e9f26f..ac3010a 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -295,7 +295,7 @@ cdef class AbstractChoiceModel(ParameterFrame):
 			if val > current_ll: break
 			steplen *= 0.5
 			if steplen < 0.01: break
-		if val <= current_ll:
+		if not (val > current_ll):
 			self.set_values(current)
 			raise BHHHSimpleStepFailure("simple step bhhh failed")
 		if printer is not None:
@@ -383,7 +383,7 @@ cdef class AbstractChoiceModel(ParameterFrame):
 				if proposed_ll > current_ll: break
 				steplen *= 0.5
 				if steplen < minimum_steplen: break
-			if proposed_ll <= current_ll:
+			if not (proposed_ll > current_ll):
 				self.set_values(current_pvals)
 				raise BHHHSimpleStepFailure(f"simple step bhhh failed\ndirection = {str(direction)}")
 			if printer is not None:
diff --git a/larch/model/optimization.py b/larch/model/optimization.py
index f2cf9a1..e6c8092 100644
--- a/larch/model/optimization.py
+++ b/larch/model/optimization.py
@@ -493,7 +493,7 @@ def fit_bhhh(
             if proposed_ll > current_ll: break
             steplen *= 0.5
             if steplen < minimum_steplen: break
-        if proposed_ll <= current_ll:
+        if not (proposed_ll > current_ll):
             model.set_values(current_pvals)
             raise BHHHSimpleStepFailure(f"simple step bhhh failed\ndirection = {str(direction)}")
         if printer is not None:
diff --git a/larch/numba/optimization.py b/larch/numba/optimization.py
index a86da48..d3265af 100644
--- a/larch/numba/optimization.py
+++ b/larch/numba/optimization.py
@@ -139,7 +139,7 @@ def fit_bhhh(
             steplen *= 0.5
             if steplen < minimum_steplen:
                 break
-        if proposed_ll <= current_ll:
+        if not (proposed_ll > current_ll):
             logger.debug("no improvement found, reset to prior x")
             model.set_values(current_pvals)
             if not model.constraint_violation(on_violation='return'):
-- 
2.43.0


From f52a6ec18a8d9a228b558a4ae54d7acb4bed3e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:16 +0000
Subject: [PATCH 069/132] fix: BHHH on a model with every parameter held fast

---
 larch/model/abstract_model.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index ac3010a..c057cd7 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -251,6 +251,8 @@ cdef class AbstractChoiceModel(ParameterFrame):
 					take[i, :] = False
 					take[:, i] = False
 					dense_s -= 1
+			if dense_s == 0:
+				return np.full_like(matrix, 0, dtype=np.float64)
 			hess_taken = matrix[take].reshape(dense_s, dense_s)
 			from ..linalg import general_inverse
 			try:
-- 
2.43.0


From 92ca9b785371c7f3e6f817873dd100caf602c9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:46 +0000
Subject: [PATCH 070/132] fix: a failed BHHH step without constraints is not
 convergence

---
 larch/numba/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/numba/optimization.py b/larch/numba/optimization.py
index d3265af..166c75a 100644
--- a/larch/numba/optimization.py
+++ b/larch/numba/optimization.py
@@ -142,7 +142,7 @@ def fit_bhhh(
         if not (proposed_ll > current_ll):
             logger.debug("no improvement found, reset to prior x")
             model.set_values(current_pvals)
-            if not model.constraint_violation(on_violation='return'):
+            if model.constraint_intensity and not model.constraint_violation(on_violation='return'):
                 logger.debug("-- no constraints are violated")
                 # no violations, check that penalty is small
                 if np.absolute(current_result.penalty * model.n_cases) > 0.01:
-- 
2.43.0


From 7e967fc3bc4d415089e09e29c69024c23d3c6e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:32 +0000
Subject: [PATCH 071/132] fix: weights can be named in the table of
 alternatives

force_crack_idca gives one table, not two, so wt='name' of a column of ca or ce
failed, or with two cases gave the second value for both.
---
 larch/dataframes.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 969dd68..1bc0ef9 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -591,10 +591,10 @@ cdef class DataFrames:
 					wt = co[wt_name]
 				elif ca is not None and wt_name in ca.columns:
 					logger.debug(" DataFrames ~ build wt from ca")
-					_, wt = force_crack_idca(ca[wt_name], crack if ((crack is not None) and (crack is not False)) else True)
+					wt = force_crack_idca(ca[wt_name], crack if ((crack is not None) and (crack is not False)) else True)
 				elif ce is not None and wt_name in ce.columns:
 					logger.debug(" DataFrames ~ build wt from ce")
-					_, wt = force_crack_idca(ce[wt_name], crack if ((crack is not None) and (crack is not False)) else True)
+					wt = force_crack_idca(ce[wt_name], crack if ((crack is not None) and (crack is not False)) else True)
 
 			logger.debug(" DataFrames ~ set alternative_codes")
 			self._ensure_consistent_alternative_codes(alt_codes)
-- 
2.43.0


From 1c898d17b460bb29d5e484d711b6e535d07143c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:32 +0000
Subject: [PATCH 072/132] fix: DataFrames does not change the index of the
 caller's table of cases

---
 larch/dataframes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 1bc0ef9..2a329ba 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -478,7 +478,7 @@ cdef class DataFrames:
 				if co.index.nlevels!=1:
 					raise ValueError('co must have one level index')
 				try:
-					co.index = co.index.astype(int)
+					co = co.set_index(co.index.astype(int))
 				except Exception as err:
 					raise ValueError('co index must have integer values') from err
 
-- 
2.43.0


From 15d6afe011c6bd5a2901602dde432ff1618f5957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:32 +0000
Subject: [PATCH 073/132] fix: sparse data may leave the last alternatives of
 its index unused

The map of rows has a place for each alternative code.
---
 larch/dataframes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 2a329ba..092864c 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -1654,7 +1654,7 @@ cdef class DataFrames:
 			# else:
 			# 	self._array_ce_caseindexes = self.data_ce.index.labels[0] - min_case_x
 			self._array_ce_altindexes  = self.data_ce.index.codes[1]
-			self._array_ce_reversemap = numpy.full([self._array_ce_caseindexes.max()+1, self._array_ce_altindexes.max()+1], -1, dtype=numpy.int64)
+			self._array_ce_reversemap = numpy.full([self._array_ce_caseindexes.max()+1, len(self.data_ce.index.levels[1])], -1, dtype=numpy.int64)
 			for i in range(len(self._array_ce_caseindexes)):
 				c = self._array_ce_caseindexes[i]
 				a = self._array_ce_altindexes[i]
-- 
2.43.0


From b6d0864924b0a7d654e7fdb0a1f41000071f912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:32 +0000
Subject: [PATCH 074/132] fix: data_ce_as_ca keeps alternatives that no case
 has, and the order of columns

---
 larch/dataframes.pyx | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 092864c..350e2a9 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -1683,11 +1683,13 @@ cdef class DataFrames:
 		"""
 		if promote:
 			self.data_ce[promote] = numpy.int8(1)
-		result = self.data_ce.unstack().fillna(0).stack()
-		try:
-			result = result.astype(self.data_ce.dtypes)
-		except ValueError:
-			pass
+		result = self.data_ce.reindex(
+			pandas.MultiIndex.from_product(
+				[self.caseindex, self.alternative_codes()],
+				names=self.data_ce.index.names,
+			),
+			fill_value=0,
+		)
 		if promote:
 			self.data_ca = result
 		return result
-- 
2.43.0


From 2c5ad68253ef643b4a2dba5485ebe235bd223677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:57 +0000
Subject: [PATCH 075/132] fix: choice, availability, weights and case data can
 be had in idce format

data_co_as_ce named all its columns 'weight' and needed a computational
DataFrames; without sparse data data_ch_as_ce and data_av_as_ce indexed a
wide table with a long mask, and data_wt_as_ce failed.
---
 larch/dataframes.pyx | 72 +++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 44 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 350e2a9..33c821b 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -1594,16 +1594,28 @@ cdef class DataFrames:
 		"""
 		if self.data_co is None:
 			return None
-		cdef int c,a,v,row,n_vars
-		n_vars = self._array_co.shape[1]
-		arr = numpy.zeros( [len(self.data_ce), n_vars], dtype=l4_float_dtype )
-		for c in range(self._array_ce_reversemap.shape[0]):
-			for a in range(self._array_ce_reversemap.shape[1]):
-				row = self._array_ce_reversemap[c,a]
-				if row >= 0:
-					for v in range(n_vars):
-						arr[row,v] = self._array_co[c,v]
-		return pandas.DataFrame(arr, index=self.data_ce.index, columns=['weight'])
+		index, c, _ = self._rows_as_ce()
+		return self.data_co.iloc[c].set_index(index)
+
+	def _rows_as_ce(self):
+		"""
+		The rows of this data in idce format.
+
+		Returns
+		-------
+		index : pandas.MultiIndex
+		case_positions, alt_positions : array-like
+		"""
+		if self._data_ce is not None:
+			return self._data_ce.index, numpy.asarray(self._array_ce_caseindexes), numpy.asarray(self._array_ce_altindexes)
+		if self._data_av is None:
+			raise NotImplementedError('not implemented when data_ce and data_av are None')
+		c, a = numpy.nonzero(self._data_av.values)
+		index = pandas.MultiIndex.from_arrays(
+			[self._data_av.index[c], self._data_av.columns[a]],
+			names=[self._caseindex_name, self._altindex_name],
+		)
+		return index, c, a
 
 	@property
 	def data_ce(self):
@@ -1715,19 +1727,8 @@ cdef class DataFrames:
 		"""
 		if self._data_av is None:
 			return None
-		if self.data_ce is None:
-			if self._data_av is None:
-				raise NotImplementedError('not implemented when data_ce and data_av are None')
-			return self._data_av[self._data_av.stack().astype(bool).values]
-
-		arr = numpy.zeros( [len(self.data_ce)], dtype=numpy.int8 )
-		cdef int c,a,row
-		for c in range(self._array_ce_reversemap.shape[0]):
-			for a in range(self._array_ce_reversemap.shape[1]):
-				row = self._array_ce_reversemap[c,a]
-				if row >= 0:
-					arr[row] = self._array_av[c,a]
-		return pandas.DataFrame(arr, index=self.data_ce.index, columns=['avail'])
+		index, c, a = self._rows_as_ce()
+		return pandas.DataFrame(self._data_av.values[c,a], index=index, columns=['avail'])
 
 
 	def data_av_cascade(self, graph):
@@ -1834,19 +1835,8 @@ cdef class DataFrames:
 		"""
 		if self._data_ch is None:
 			return None
-		if self.data_ce is None:
-			if self._data_av is None:
-				raise NotImplementedError('not implemented when data_ce and data_av are None')
-			return self._data_ch[self._data_av.stack().astype(bool).values]
-
-		arr = numpy.zeros( [len(self.data_ce)], dtype=l4_float_dtype )
-		cdef int c,a,row
-		for c in range(self._array_ce_reversemap.shape[0]):
-			for a in range(self._array_ce_reversemap.shape[1]):
-				row = self._array_ce_reversemap[c,a]
-				if row >= 0:
-					arr[row] = self._array_ch[c,a]
-		return pandas.DataFrame(arr, index=self.data_ce.index, columns=['choice'])
+		index, c, a = self._rows_as_ce()
+		return pandas.DataFrame(self._data_ch.values[c,a], index=index, columns=['choice'])
 
 	@property
 	def data_wt(self):
@@ -1864,14 +1854,8 @@ cdef class DataFrames:
 	def data_wt_as_ce(self):
 		if self.data_wt is None:
 			return None
-		arr = numpy.zeros( [len(self.data_ce)], dtype=l4_float_dtype )
-		cdef int c,a,row
-		for c in range(self._array_ce_reversemap.shape[0]):
-			for a in range(self._array_ce_reversemap.shape[1]):
-				row = self._array_ce_reversemap[c,a]
-				if row >= 0:
-					arr[row] = self._array_wt[c]
-		return pandas.DataFrame(arr, index=self.data_ce.index, columns=['weight'])
+		index, c, _ = self._rows_as_ce()
+		return pandas.DataFrame(self._data_wt.values.reshape(-1)[c], index=index, columns=['weight'])
 
 	@property
 	def _data_ca_or_ce(self):
-- 
2.43.0


From 7ed47daa6f3b89c0232ec98a544051ffcbb3e496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:21 +0000
Subject: [PATCH 076/132] fix: DataFrames.from_idce reads the choice before
 cracking

A choice that does not vary within cases went to the case data and was not found.
---
 larch/dataframes.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 33c821b..d06fe9c 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -762,9 +762,13 @@ cdef class DataFrames:
 		if not len(ce.index.levels) == 2:
 			raise TypeError(f'input data must have 2 level MultiIndex (case,alt), not {len(ce.index.levels)} levels')
 
+		ch = ce[choice].unstack().fillna(0) if choice is not None else None
+
 		co = None
 		if crack:
-			ce, co = crack_idca(ce, crack)
+			ce, co = crack_idca(ce if choice is None else ce.drop(columns=[choice]), crack)
+			if choice is not None and columns is not None:
+				columns = [i for i in columns if i != choice]
 
 		caseindex_name, altindex_name = ce.index.names
 		if caseindex_name is None:
@@ -778,7 +782,7 @@ cdef class DataFrames:
 				columns.remove(choice)
 		result = cls(
 			ce = ce[columns],
-			ch = ce[choice].unstack().fillna(0) if choice is not None else None,
+			ch = ch,
 			co = co,
 			ch_name = choice,
 			caseindex_name=caseindex_name,
-- 
2.43.0


From 719b13b9898db478795f754936a4d3ba0d96e980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:24 +0000
Subject: [PATCH 077/132] fix: DataFrames reads the choice before cracking

A choice that does not vary within any case was moved to the case data and then
read there as if it gave codes.
---
 larch/dataframes.pyx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index d06fe9c..67fcd26 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -544,14 +544,6 @@ cdef class DataFrames:
 			if wt_name is None:
 				wt_name = _infer_name(wt)
 
-			if crack and co is None:
-				if ca is not None:
-					logger.debug(" DataFrames ~ cracking idca")
-					ca, co = crack_idca(ca, crack)
-				elif ce is not None:
-					logger.debug(" DataFrames ~ cracking idce")
-					ce, co = crack_idca(ce, crack)
-
 			if co is not None:
 				_n_cases= len(co)
 			elif ca is not None:
@@ -585,6 +577,14 @@ cdef class DataFrames:
 				av = _av_temp.unstack().fillna(0)
 				av.columns = av.columns.droplevel(0)
 
+			if crack and co is None:
+				if ca is not None:
+					logger.debug(" DataFrames ~ cracking idca")
+					ca, co = crack_idca(ca, crack)
+				elif ce is not None:
+					logger.debug(" DataFrames ~ cracking idce")
+					ce, co = crack_idca(ce, crack)
+
 			if wt_name is not None and wt is None:
 				if co is not None and wt_name in co.columns:
 					logger.debug(" DataFrames ~ pulling wt from co")
-- 
2.43.0


From 2e6e26b07a6b035d10516ca76a8c2f1a8b0c67d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:24 +0000
Subject: [PATCH 078/132] fix: choices given by case and alternative are not
 read as codes

A series with a row for the chosen alternative of each case only, as long as there are
cases, was taken to give codes.
---
 larch/dataframes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 67fcd26..a461764 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -551,7 +551,7 @@ cdef class DataFrames:
 			else:
 				_n_cases= 0
 
-			if ch is not None and len(ch.shape) == 1 and ch.shape[0] == _n_cases:
+			if ch is not None and len(ch.shape) == 1 and ch.shape[0] == _n_cases and not isinstance(getattr(ch, 'index', None), pandas.MultiIndex):
 				logger.warning('one-hot encoding choice array')
 				ch = to_categorical(ch)
 
-- 
2.43.0


From 404610ab39ea3b09bd54fdc7c5dfef880ff8edba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:28 +0000
Subject: [PATCH 079/132] fix: ch_as_ce and av_as_ce are read also if the table
 is complete

A complete table given as ce is stored as ca, and the choices and availability
given by its rows were dropped without a word.
---
 larch/dataframes.pyx | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index a461764..ba2bf50 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -520,6 +520,18 @@ cdef class DataFrames:
 					else:
 						raise ValueError('ca multi-index must have integer values') from err
 
+			if ch is None and ch_as_ce is not None and ce is not None:
+				logger.debug(" DataFrames ~ building ch_as_ce")
+				_ch_temp = pandas.DataFrame(numpy.asarray(ch_as_ce), index=ce.index, columns=['choice'])
+				ch = _ch_temp.unstack().fillna(0)
+				ch.columns = ch.columns.droplevel(0)
+
+			if av is None and av_as_ce is not None and ce is not None:
+				logger.debug(" DataFrames ~ building av_as_ce")
+				_av_temp = pandas.DataFrame(numpy.asarray(av_as_ce), index=ce.index, columns=['avail'])
+				av = _av_temp.unstack().fillna(0)
+				av.columns = av.columns.droplevel(0)
+
 			# reassign ca and ce as needed
 			if ca is None and ce is not None:
 				if get_dataframe_format(ce) == 'idca':
@@ -555,12 +567,6 @@ cdef class DataFrames:
 				logger.warning('one-hot encoding choice array')
 				ch = to_categorical(ch)
 
-			if ch is None and ch_as_ce is not None and ce is not None:
-				logger.debug(" DataFrames ~ building ch_as_ce")
-				_ch_temp = pandas.DataFrame(numpy.asarray(ch_as_ce), index=ce.index, columns=['choice'])
-				ch = _ch_temp.unstack().fillna(0)
-				ch.columns = ch.columns.droplevel(0)
-
 			if ch is None and ch_name is not None and ce is not None and ch_name in ce.columns:
 				logger.debug(" DataFrames ~ pulling ch from ce")
 				_ch_temp = ce[ch_name]
@@ -571,12 +577,6 @@ cdef class DataFrames:
 				_ch_temp = ca[ch_name]
 				ch = _ch_temp.unstack().fillna(0)
 
-			if av is None and av_as_ce is not None and ce is not None:
-				logger.debug(" DataFrames ~ building av_as_ce")
-				_av_temp = pandas.DataFrame(numpy.asarray(av_as_ce), index=ce.index, columns=['avail'])
-				av = _av_temp.unstack().fillna(0)
-				av.columns = av.columns.droplevel(0)
-
 			if crack and co is None:
 				if ca is not None:
 					logger.debug(" DataFrames ~ cracking idca")
-- 
2.43.0


From de251efc43e243fe7a5d99b3c42c545f6ba49abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 080/132] fix: DataFrames.split finds the sparse rows of its
 cases

Positions of cases were compared with codes of the index, which differ if the index
knows cases that have no rows.
---
 larch/dataframes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index ba2bf50..dcde17a 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3115,7 +3115,7 @@ cdef class DataFrames:
 				if self.data_ce is None:
 					data_ce = None
 				else:
-					these_positions_2 = numpy.in1d(self.data_ce.index.codes[0], numpy.where(these_positions))
+					these_positions_2 = these_positions[numpy.asarray(self._array_ce_caseindexes)]
 					data_ce=self.data_ce.iloc[these_positions_2,:]
 					data_ce.index = remove_unused_level(data_ce.index, 0)
 
-- 
2.43.0


From 2412d35f0f711ba7e9de92712d1d9ca70047755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 081/132] fix: the parts of a split keep the normalization of
 the weights

---
 larch/dataframes.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index dcde17a..2b1b84f 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3146,6 +3146,7 @@ cdef class DataFrames:
 					wt_name=self._data_wt_name,
 					av_name=self._data_av_name,
 				))
+				(<DataFrames>result[-1])._weight_normalization = self._weight_normalization
 			logger.debug(f'done splitting dataframe {splits}')
 			return result
 		except:
-- 
2.43.0


From e5ee32a65ee28e11101340e20f8cf620516bf415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 082/132] fix: selector_co keeps rows, columns and types of the
 selected cases

unstack and stack dropped rows that are all nan, sorted the columns and made
integers into floats.
---
 larch/dataframes.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 2b1b84f..4a51a94 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3252,9 +3252,9 @@ cdef class DataFrames:
 			df_wt = self.data_wt[selector]
 
 		if self.data_ca is not None:
-			df_ca = self.data_ca.unstack()[selector].stack()
+			df_ca = self.data_ca[numpy.repeat(selector.values, self.n_alts)]
 		elif self.data_ce is not None:
-			df_ca = self.data_ce.unstack()[selector].stack()
+			df_ca = self.data_ce[selector.values[numpy.asarray(self._array_ce_caseindexes)]]
 
 		if self.data_av is not None:
 			df_av = self.data_av[selector]
-- 
2.43.0


From c50b4925d9e1b0a0a4cf59d35da45750cf78ad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 083/132] fix: DataFrames.standardize for data by case and
 sparse data

The mask of unavailable alternatives was applied to tables of another shape.
---
 larch/dataframes.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 4a51a94..b30ea9a 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -2828,17 +2828,17 @@ cdef class DataFrames:
 			self._std_scaler_ca = StandardScalerExcludeUnitRange(with_mean=with_mean, with_std=with_std)
 			self._std_scaler_ce = StandardScalerExcludeUnitRange(with_mean=with_mean, with_std=with_std)
 
-			mask = (self.data_av.values==0)
-
 			if self.data_ca is not None:
+				mask = (self.data_av.values==0)
 				self._std_scaler_ca.fit(self.data_ca.values, Xmask=mask)
 				self.data_ca.values[:] = self._std_scaler_ca.transform(self.data_ca.values)
 
 			if self.data_co is not None:
-				self._std_scaler_co.fit(self.data_co.values, Xmask=mask)
+				self._std_scaler_co.fit(self.data_co.values)
 				self.data_co.values[:] = self._std_scaler_co.transform(self.data_co.values)
 
 			if self.data_ce is not None:
+				mask = (self.data_av_as_ce().values==0)
 				self._std_scaler_ce.fit(self.data_ce.values, Xmask=mask)
 				self.data_ce.values[:] = self._std_scaler_ce.transform(self.data_ce.values)
 
-- 
2.43.0


From 540e48739712da26d8b2d499e49a7bbf06ad2c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:29 +0000
Subject: [PATCH 084/132] fix: sparse data in which some alternatives have no
 row

The alternatives without rows were dropped from the index, so that splitting or
filtering data failed if a part lacked one of them.
---
 larch/dataframes.pyx | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index b30ea9a..9a87b1a 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -192,6 +192,23 @@ def to_categorical(arr, index=None, dtype='float32'):
 		index=index,
 	)
 
+def _with_alternative_codes(df, alt_codes):
+	"""
+	Let the index of an idce DataFrame know all the alternative codes, also those of no row.
+	"""
+	if alt_codes is None or len(df.index.levels[1]) >= len(alt_codes):
+		return df
+	altindexes = pandas.Index(alt_codes).get_indexer(df.index.get_level_values(1))
+	if (altindexes < 0).any():
+		return df
+	df = df.copy(deep=False)
+	df.index = pandas.MultiIndex(
+		levels=[df.index.levels[0], alt_codes],
+		codes=[df.index.codes[0], altindexes],
+		names=df.index.names,
+	)
+	return df
+
 def categorical_expansion(s, column=None, inplace=False, drop=False):
 	"""
 	Expand a pandas Series into a DataFrame containing a categorical dummy variables.
@@ -534,10 +551,10 @@ cdef class DataFrames:
 
 			# reassign ca and ce as needed
 			if ca is None and ce is not None:
-				if get_dataframe_format(ce) == 'idca':
+				if get_dataframe_format(ce) == 'idca' and (alt_codes is None or len(ce.index.levels[1]) >= len(alt_codes)):
 					ca, ce = ce, None
 			elif ca is not None and ce is None:
-				if get_dataframe_format(ca) == 'idce':
+				if get_dataframe_format(ca) == 'idce' or (alt_codes is not None and len(ca.index.levels[1]) < len(alt_codes)):
 					ca, ce = None, ca
 
 
@@ -601,6 +618,7 @@ cdef class DataFrames:
 			if ca is not None:
 				self._ensure_consistent_alternative_codes(ca.index.levels[1])
 			if ce is not None:
+				ce = _with_alternative_codes(ce, self._alternative_codes)
 				self._ensure_consistent_alternative_codes(ce.index.levels[1])
 
 			if ch is None and ch_name is not None and co is not None and ch_name in co.columns:
@@ -1654,6 +1672,7 @@ cdef class DataFrames:
 
 			if not df.index.is_monotonic_increasing:
 				df = df.sort_index()
+			df = _with_alternative_codes(df, self._alternative_codes)
 			if self._computational:
 				self._data_ce = _ensure_dataframe_of_dtype(df, l4_float_dtype, 'data_ce')
 				self._array_ce = _df_values(self.data_ce)
-- 
2.43.0


From 43cc2fe9e02b160ca2d537ce8d47aad815d39dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:29 +0000
Subject: [PATCH 085/132] fix: scale_weights of data without weights does not
 scale the log likelihood

Only the normalization was changed, not the weights, which are all 1.
---
 larch/dataframes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 9a87b1a..242649d 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -2892,7 +2892,7 @@ cdef class DataFrames:
 				need_to_extract_wgt_from_ch = True
 				break
 
-		if need_to_extract_wgt_from_ch and self._data_wt is None:
+		if (need_to_extract_wgt_from_ch or scale != 1.0) and self._data_wt is None:
 			self.data_wt = pandas.DataFrame(
 				data=1.0,
 				index=self.caseindex,
-- 
2.43.0


From f5f03f8756bc909996e7ef48c8f59106e577df02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 086/132] fix: even splits are even, whatever the rounding of
 cumulative shares

Five cases in five parts gave one part of two cases and an empty one.
---
 larch/dataframes.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 242649d..0554dfb 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3107,12 +3107,14 @@ cdef class DataFrames:
 			logger.debug(f'splitting dataframe {splits}')
 
 			cum_splits = splits.cumsum()
-			uniform_seq = numpy.arange(self.n_cases) / self.n_cases
+			uniform_seq = numpy.arange(self.n_cases)
 
 			if method == 'shuffle':
 				numpy.random.shuffle(uniform_seq)
 
-			membership = (uniform_seq.reshape(-1,1) < cum_splits.reshape(1,-1))
+			# the tolerance keeps rounding of the cumulative shares from moving a case
+			first_beyond = numpy.ceil(cum_splits * self.n_cases - 1e-9)
+			membership = (uniform_seq.reshape(-1,1) < first_beyond.reshape(1,-1))
 			membership[:,1:] ^= membership[:,:-1]
 
 			logger.debug(f'   membership.shape {membership.shape}')
-- 
2.43.0


From 8aa89b7fdbbcc35fc4b6bd067b0e9e2c700006a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:49 +0000
Subject: [PATCH 087/132] fix: standardize tables with columns of several types

The values of such a table are a copy, the standardized values were written there
and lost (or cut off to integers).
---
 larch/dataframes.pyx | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 0554dfb..6b46d61 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -2834,13 +2834,13 @@ cdef class DataFrames:
 			self._std_scaler_ce = same_as._std_scaler_ce
 
 			if self.data_ca is not None:
-				self.data_ca.values[:] = self._std_scaler_ca.transform(self.data_ca.values)
+				self.data_ca = _standardized(self._std_scaler_ca, self.data_ca)
 
 			if self.data_co is not None:
-				self.data_co.values[:] = self._std_scaler_co.transform(self.data_co.values)
+				self.data_co = _standardized(self._std_scaler_co, self.data_co)
 
 			if self.data_ce is not None:
-				self.data_ce.values[:] = self._std_scaler_ce.transform(self.data_ce.values)
+				self.data_ce = _standardized(self._std_scaler_ce, self.data_ce)
 
 		else:
 			self._std_scaler_co = StandardScalerExcludeUnitRange(with_mean=with_mean, with_std=with_std)
@@ -2850,16 +2850,16 @@ cdef class DataFrames:
 			if self.data_ca is not None:
 				mask = (self.data_av.values==0)
 				self._std_scaler_ca.fit(self.data_ca.values, Xmask=mask)
-				self.data_ca.values[:] = self._std_scaler_ca.transform(self.data_ca.values)
+				self.data_ca = _standardized(self._std_scaler_ca, self.data_ca)
 
 			if self.data_co is not None:
 				self._std_scaler_co.fit(self.data_co.values)
-				self.data_co.values[:] = self._std_scaler_co.transform(self.data_co.values)
+				self.data_co = _standardized(self._std_scaler_co, self.data_co)
 
 			if self.data_ce is not None:
 				mask = (self.data_av_as_ce().values==0)
 				self._std_scaler_ce.fit(self.data_ce.values, Xmask=mask)
-				self.data_ce.values[:] = self._std_scaler_ce.transform(self.data_ce.values)
+				self.data_ce = _standardized(self._std_scaler_ce, self.data_ce)
 
 	def scale_weights(self, scale):
 		"""
@@ -3577,6 +3577,13 @@ cdef class DataFrames:
 
 from sklearn.preprocessing import StandardScaler
 
+def _standardized(scaler, df):
+	return pandas.DataFrame(
+		data=scaler.transform(df.values),
+		index=df.index,
+		columns=df.columns,
+	)
+
 class StandardScalerExcludeUnitRange(StandardScaler):
 
 	def fit(self, X, y=None, Xmask=None):
-- 
2.43.0


From 1bcdf03eb1b4b1c622c9d45d95c7f6e79c4231f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:46 +0000
Subject: [PATCH 088/132] fix: DataFrames.dump keeps alternatives and the
 normalization of weights

Names of alternatives, codes without tables by alternative and the normalization were
lost, and the normalization could only be set in single precision.
---
 larch/dataframes.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 6b46d61..d3a604b 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -2777,6 +2777,9 @@ cdef class DataFrames:
 			storage_dict['co'] = self.data_co
 		if self.data_wt is not None:
 			storage_dict['wt'] = self.data_wt
+		storage_dict['alt_codes'] = self.alternative_codes()
+		storage_dict['alt_names'] = self.alternative_names()
+		storage_dict['weight_normalization'] = self._weight_normalization
 		import joblib
 		return joblib.dump(storage_dict, filename, **kwargs)
 
@@ -2803,7 +2806,10 @@ cdef class DataFrames:
 
 		import joblib
 		storage_dict = joblib.load(filename)
-		return cls(**storage_dict)
+		weight_normalization = storage_dict.pop('weight_normalization', 1.0)
+		result = cls(**storage_dict)
+		result.weight_normalization = weight_normalization
+		return result
 
 
 	def standardize(self, with_mean=True, with_std=True, DataFrames same_as=None):
@@ -3029,7 +3035,7 @@ cdef class DataFrames:
 		return self._weight_normalization
 
 	@weight_normalization.setter
-	def weight_normalization(self, float value):
+	def weight_normalization(self, double value):
 		if value <= 0:
 			raise ValueError('weight_normalization must be strictly positive')
 		self._weight_normalization = value
-- 
2.43.0


From 05be1927376472c47db7fc73adf8faa400dca709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:46 +0000
Subject: [PATCH 089/132] fix: Model.load opens the file it is to read

---
 larch/model/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/larch/model/model.py b/larch/model/model.py
index 8c58d3a..e160f3a 100644
--- a/larch/model/model.py
+++ b/larch/model/model.py
@@ -139,7 +139,8 @@ class Model(_Model5c):
 			from ..util.excel import load_metadata
 			return load_metadata(filename, key='_self_')
 		import pickle
-		return pickle.load(filename)
+		with open(filename, 'rb') as f:
+			return pickle.load(f)
 
 	def __init__(
 			self,
-- 
2.43.0


From 8a9f0f6ec22bb07fb40a0b5c0a0739b2ec4ffd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:24 +0000
Subject: [PATCH 090/132] fix: copies of a model keep its constraints

The constraints were lost when a model was copied, pickled or written to a file.
---
 larch/model/controller.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index f2b12fe..34ed9f8 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -132,6 +132,7 @@ cdef class Model5c(AbstractChoiceModel):
 		state["_cached_loglike_best           ".strip()] = (self._cached_loglike_best           )
 		state["_title                         ".strip()] = (self._title                         )
 		state["_matrixes                      ".strip()] = (self._matrixes                      )
+		state["constraints                    ".strip()] = list(getattr(self, 'constraints', None) or ())
 
 		state = cloudpickle.dumps(state)
 		state = gzip.compress(state)
@@ -175,6 +176,9 @@ cdef class Model5c(AbstractChoiceModel):
 		(self._title                         ) = state["_title                         ".strip()]
 		(self._matrixes                      ) = state["_matrixes                      ".strip()]
 
+		if state.get("constraints"):
+			self.constraints = state["constraints"]
+
 		self.unmangle(True)
 		(self._cached_loglike_null           ) = state["_cached_loglike_null           ".strip()]
 		self.n_threads = 0
-- 
2.43.0


From 92dfec5619dce7fd5e38bbc046fb620b0081048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:24 +0000
Subject: [PATCH 091/132] fix: feathers of data with rescaled weights can be
 read

---
 larch/dataframes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index d3a604b..4c48bd0 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -1076,7 +1076,7 @@ cdef class DataFrames:
 		caseindex = from_metadata(tb, b'CASEINDEX')
 		raw_wgtnorm = tb.schema.metadata.get(b'WGT_NORM', None)
 		if raw_wgtnorm:
-			wgtnorm = float.fromhex(raw_wgtnorm)
+			wgtnorm = float.fromhex(raw_wgtnorm.decode())
 		else:
 			wgtnorm = 1.0
 
-- 
2.43.0


From 0da9f043f14b604e02b16eec4187173d87e7bfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:22 +0000
Subject: [PATCH 092/132] fix: a model can be made from another that has no
 dataservice

---
 larch/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/model.py b/larch/model/model.py
index e160f3a..649fbce 100644
--- a/larch/model/model.py
+++ b/larch/model/model.py
@@ -166,7 +166,7 @@ class Model(_Model5c):
 		super().__init__(**kwargs)
 		if model is not None:
 			self.__setstate__(model.__getstate__())
-			if dataservice is None:
+			if dataservice is None and model.dataservice is not None:
 				self.dataservice = model.dataservice
 			self.dataframes = model.dataframes
 		if dataservice is not None:
-- 
2.43.0


From 69eccf38b350d03800af65a5c5f7270f06e36ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:22 +0000
Subject: [PATCH 093/132] fix: a numba model made from another keeps its
 constraint settings

---
 larch/numba/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 5b3c95f..3f8f0c1 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -913,14 +913,14 @@ class NumbaModel(_BaseModel):
         for a in args:
             if datatree is None and isinstance(a, (DataTree, Dataset)):
                 datatree = a
+        self.constraint_intensity = 0.0
+        self.constraint_sharpness = 0.0
         super().__init__(*args, **kwargs)
         self._dataset = None
         self._fixed_arrays = None
         self._data_arrays = None
         self.work_arrays = None
         self.float_dtype = float_dtype
-        self.constraint_intensity = 0.0
-        self.constraint_sharpness = 0.0
         self._constraint_funcs = None
         self.datatree = datatree
 
-- 
2.43.0


From e7b423bc17a9aadcee4fb1045616ef26fa056701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:22 +0000
Subject: [PATCH 094/132] fix: inject_feathers reads weights

---
 larch/dataframes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 4c48bd0..7826fae 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -1208,7 +1208,7 @@ cdef class DataFrames:
 		if array_wt is not None and 'wt' in components:
 			filename_wt = str(filename)+".data_wt"
 			tb = pf.read_table(filename_wt)
-			arr = tb['data_wt'].to_numpy().reshape(array_wt.shape[0])
+			arr = tb['data_wt'].to_numpy().reshape(array_wt.shape[0], array_wt.shape[1])
 			array_wt[:] = arr[:]
 
 
-- 
2.43.0


From 7bb4ae1c3cef20c6c806b17feebcf1eac727164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:37 +0000
Subject: [PATCH 095/132] fix: models that have no data can be copied

---
 larch/model/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/larch/model/model.py b/larch/model/model.py
index 649fbce..108576b 100644
--- a/larch/model/model.py
+++ b/larch/model/model.py
@@ -168,7 +168,8 @@ class Model(_Model5c):
 			self.__setstate__(model.__getstate__())
 			if dataservice is None and model.dataservice is not None:
 				self.dataservice = model.dataservice
-			self.dataframes = model.dataframes
+			if model.dataframes is not None:
+				self.dataframes = model.dataframes
 		if dataservice is not None:
 			self.dataservice = dataservice
 		self._scan_all_ensure_names()
@@ -755,7 +756,8 @@ class Model(_Model5c):
 		"""
 		import pickle
 		result = pickle.loads(self.dumps())
-		result.dataservice = self.dataservice
+		if self.dataservice is not None:
+			result.dataservice = self.dataservice
 		result._graph = result.graph
 		return result
 
-- 
2.43.0


From ad0ba7d3fe44dd619be1a624d9e4b21735cd20b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:51 +0000
Subject: [PATCH 096/132] fix: models that share DataFrames each compute with
 their own structure and parameters

---
 larch/model/controller.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 34ed9f8..0f5956c 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -849,6 +849,9 @@ cdef class Model5c(AbstractChoiceModel):
 		if x is not None:
 			self.set_values(x)
 		self.unmangle()
+		if self._dataframes._model is not self:
+			# these dataframes have meanwhile been linked to another model
+			self._refresh_derived_arrays()
 		self._dataframes._read_in_model_parameters()
 		if self._dataframes._data_ch is None:
 			if allow_missing_ch or self._does_not_require_choice:
-- 
2.43.0


From fcc779fc8f3af248cf1241661dd056bc8db64b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:07 +0000
Subject: [PATCH 097/132] fix: a numba model made from another has a nesting
 tree of its own

---
 larch/numba/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 3f8f0c1..a860e36 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -2011,12 +2011,13 @@ class NumbaModel(_BaseModel):
         pass # nothing to do for numba model
 
     def __getstate__(self):
+        import copy
         state = dict(
             float_dtype=self.float_dtype,
             constraint_intensity=self.constraint_intensity,
             constraint_sharpness=self.constraint_sharpness,
             _constraint_funcs=self._constraint_funcs,
-            _private__graph=self._private__graph,
+            _private__graph=copy.deepcopy(self._private__graph),
         )
         return super().__getstate__(), state
 
-- 
2.43.0


From eb7752d2b2bf1b06916efaa01d8ed7afdf36c52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:36 +0000
Subject: [PATCH 098/132] fix: copies and branches of a nesting tree have the
 right root

---
 larch/model/tree.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index 56f7f6a..66de2a4 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -68,22 +68,39 @@ class NestingTree(nx.DiGraph):
         else:
             pass  # print("GRR: mangle ok")
 
-    def __init__(self, *arg, root_id=0, suggested_elemental_order=(), **kwarg):
+    def __init__(self, *arg, root_id=None, suggested_elemental_order=(), **kwarg):
         if len(arg) and isinstance(arg[0], NestingTree):
             super().__init__(*arg, **kwarg)
-            self._root_id = arg[0]._root_id
+            self._root_id = arg[0]._root_id if root_id is None else root_id
             if suggested_elemental_order != ():
                 self._suggested_elemental_order = suggested_elemental_order
             else:
                 self._suggested_elemental_order = arg[0]._suggested_elemental_order
         else:
             super().__init__(*arg, **kwarg)
-            self._root_id = root_id
+            self._root_id = 0 if root_id is None else root_id
             self._suggested_elemental_order = suggested_elemental_order
         if self._root_id not in self.nodes:
-            self.add_node(root_id, name="_root_", root=True)
+            self.add_node(self._root_id, name="_root_", root=True)
         self._clear_caches()
 
+    def copy(self, as_view=False):
+        """
+        Return a copy of this tree.
+
+        Parameters
+        ----------
+        as_view : bool, default False
+                Return a read-only view instead, see networkx.
+
+        Returns
+        -------
+        NestingTree
+        """
+        if as_view:
+            return super().copy(as_view=True)
+        return type(self)(self)
+
     def __eq__(self, other):
         return (
             self._adj == other._adj
-- 
2.43.0


From c3c2c136e6b6847b13271bcdffcf1585b8fe9c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:36 +0000
Subject: [PATCH 099/132] fix: a nest that add_edge creates is connected to the
 root

---
 larch/model/tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index 66de2a4..ba3bc1c 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -182,7 +182,9 @@ class NestingTree(nx.DiGraph):
                 super().remove_edge(*d)
         if _clear_caches:
             self._clear_caches()
-        return super().add_edge(int(u), int(v), implied=implied, **kwarg)
+        super().add_edge(int(u), int(v), implied=implied, **kwarg)
+        if u != self._root_id and self.in_degree(int(u)) == 0:
+            self.add_edge(self._root_id, u, implied=True, _clear_caches=False)
 
     def _remove_edge_no_implied(self, u, v, *arg, **kwarg):
         result = super().remove_edge(u, v)
-- 
2.43.0


From c6ea8eaeabb059f6d7077bfb924fceab1a19b08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:36 +0000
Subject: [PATCH 100/132] fix: nesting trees with a cycle are refused, not cut
 short

---
 larch/model/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index ba3bc1c..90f59fb 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -1210,6 +1210,6 @@ def reverse_lexicographical_topological_sort(G, key=None):
 
         yield node
 
-    if zero_outdegree:
+    if outdegree_map:
         msg = "Graph contains a cycle or graph changed during iteration"
         raise nx.NetworkXUnfeasible(msg)
-- 
2.43.0


From f1b3ed3b1aa04db866218b6e7c39e83c09931f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:36 +0000
Subject: [PATCH 101/132] fix: children of a removed nest are not tied to the
 root for good

---
 larch/model/tree.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index 90f59fb..d0bf027 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -333,7 +333,8 @@ class NestingTree(nx.DiGraph):
         Remove node n.
 
         Removes the node n, reconnecting all outedges to the head node
-        of all inedges. Attempting to remove a non-existent node will
+        of all inedges. If n is connected to the root by an implied edge,
+        so are those of its children that have no other parent. Attempting to remove a non-existent node will
         raise an exception.
 
         Parameters
@@ -342,11 +343,15 @@ class NestingTree(nx.DiGraph):
                 A node in the graph
         """
         replace_edges = {k: self.edges[k].copy() for k in self.edges(n)}
-        replace_heads = [k for k, _ in self.in_edges(n)]
+        replace_heads = [
+            k for k, _, implied in self.in_edges(n, data="implied") if not implied
+        ]
         super(NestingTree, self).remove_node(n)
         for k, attrs in replace_edges.items():
             for h in replace_heads:
                 super().add_edge(h, k[1], **attrs)
+            if n != self._root_id and self.in_degree(k[1]) == 0:
+                self.add_edge(self._root_id, k[1], implied=True, _clear_caches=False)
         self._clear_caches()
 
     @lazy
-- 
2.43.0


From 6ddd522ab1de5c20d0f6301886c68667768ee56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:18 +0000
Subject: [PATCH 102/132] fix: alternatives can be removed from a tree with a
 suggested order

---
 larch/model/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index d0bf027..6fc4a4d 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -432,7 +432,7 @@ class NestingTree(nx.DiGraph):
         result = []
         found = set()
         for e in self._suggested_elemental_order:
-            if self.out_degree(e) == 0:
+            if e in self.nodes and self.out_degree(e) == 0:
                 result.append(e)
                 found.add(e)
         for e in sorted(self.__elementals_iter()):
-- 
2.43.0


From bebba60055f04c09b38158093d8c9c625978318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:11 +0000
Subject: [PATCH 103/132] fix: numba models accept choice_co_vars that leave
 out alternatives

---
 larch/numba/data_arrays.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/larch/numba/data_arrays.py b/larch/numba/data_arrays.py
index 76307d9..c38449c 100755
--- a/larch/numba/data_arrays.py
+++ b/larch/numba/data_arrays.py
@@ -247,7 +247,9 @@ def prepare_data(
             name='ch',
         )
         for i,a in enumerate(model_dataset.dc.alts_mapping):
-            choice_expr = request['choice_co'][a]
+            choice_expr = request['choice_co'].get(a)
+            if choice_expr is None:
+                continue
             da_ch[:, i] = datatree_co.dc.get_expr(choice_expr).values
         model_dataset = model_dataset.merge(da_ch)
     if 'choice_any' in request:
-- 
2.43.0


From cd7ff65a041ceb0530bac440eabf04daaee41c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:22 +0000
Subject: [PATCH 104/132] fix: a change of weight_co_var takes effect on a
 model that has been used

---
 larch/model/controller.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 0f5956c..a49a81a 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -1128,6 +1128,8 @@ cdef class Model5c(AbstractChoiceModel):
 
 	@choice_co_vars.deleter
 	def choice_co_vars(self):
+		if self._choice_co_vars is not None:
+			self.mangle()
 		self._choice_co_vars = None
 
 	@property
@@ -1188,6 +1190,8 @@ cdef class Model5c(AbstractChoiceModel):
 
 	@weight_co_var.setter
 	def weight_co_var(self, x):
+		if self._weight_co_var != x:
+			self.mangle()
 		self._weight_co_var = x
 
 	@property
-- 
2.43.0


From 0c37b90349c5adde4eedd88900a8828063b58281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:09 +0000
Subject: [PATCH 105/132] fix: categorical_expansion accepts a DataFrame of one
 column

---
 larch/util/data_expansion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/util/data_expansion.py b/larch/util/data_expansion.py
index 4046579..10ddd7a 100755
--- a/larch/util/data_expansion.py
+++ b/larch/util/data_expansion.py
@@ -84,8 +84,8 @@ def categorical_expansion(s, column=None, inplace=False, drop=False):
 		if column is not None and column not in s.columns:
 			raise KeyError(f'key not found "{column}"')
 		if len(s.columns) == 1:
-			s = s.iloc[:, 0]
 			column = s.columns[0]
+			s = s.iloc[:, 0]
 		elif column is not None:
 			s = s.loc[:, column]
 	else:
-- 
2.43.0


From 03901ecec7c61ad399f5c1567e4b930d76d76e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:09 +0000
Subject: [PATCH 106/132] fix: categorical_expansion in dataframes accepts a
 DataFrame of one column

---
 larch/dataframes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 7826fae..c333ef6 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -237,8 +237,8 @@ def categorical_expansion(s, column=None, inplace=False, drop=False):
 		if column is not None and column not in s.columns:
 			raise KeyError(f'key not found "{column}"')
 		if len(s.columns) == 1:
-			s = s.iloc[:, 0]
 			column = s.columns[0]
+			s = s.iloc[:, 0]
 		elif column is not None:
 			s = s.loc[:, column]
 	else:
-- 
2.43.0


From cb81e0da2da2dec9d99aa1ed7c55d8e5c462d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:09 +0000
Subject: [PATCH 107/132] fix: drop drops the expanded or compressed columns

---
 larch/util/data_expansion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/util/data_expansion.py b/larch/util/data_expansion.py
index 10ddd7a..d5f5845 100755
--- a/larch/util/data_expansion.py
+++ b/larch/util/data_expansion.py
@@ -96,7 +96,7 @@ def categorical_expansion(s, column=None, inplace=False, drop=False):
 	if inplace and input is not None:
 		input[onehot.columns] = onehot
 		if drop:
-			input.drop([column], axis=1)
+			input.drop([column], axis=1, inplace=True)
 	else:
 		return onehot
 
@@ -137,7 +137,7 @@ def categorical_compression(df, columns=None, inplace=False, drop=False, name=No
 	if inplace and name is not None:
 		input[name] = result
 		if drop:
-			input.drop(columns, axis=1)
+			input.drop(columns, axis=1, inplace=True)
 	else:
 		return result
 
-- 
2.43.0


From 06b5080255d48b1034ae77ef2ce8cb055b522bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:09 +0000
Subject: [PATCH 108/132] fix: categorical_expansion in dataframes drops the
 column when asked

---
 larch/dataframes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index c333ef6..2c92b8f 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -249,7 +249,7 @@ def categorical_expansion(s, column=None, inplace=False, drop=False):
 	if inplace and input is not None:
 		input[onehot.columns] = onehot
 		if drop:
-			input.drop([column], axis=1)
+			input.drop([column], axis=1, inplace=True)
 	else:
 		return onehot
 
-- 
2.43.0


From 3418398c10a0b07027001f7b5c26b4fb49167bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:09 +0000
Subject: [PATCH 109/132] fix: periodize accepts any collection and leaves it
 unchanged

---
 larch/util/data_manipulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/util/data_manipulation.py b/larch/util/data_manipulation.py
index 2c049c7..76c2402 100644
--- a/larch/util/data_manipulation.py
+++ b/larch/util/data_manipulation.py
@@ -103,9 +103,9 @@ def periodize(
 		mapping = []
 
 	if isinstance(mapping, Mapping):
-		mapping = list(mapping.items())
+		mapping = mapping.items()
 
-	mapping.extend(kwargs.items())
+	mapping = [*mapping, *kwargs.items()]
 
 	if isinstance(values, pandas.Series):
 		x = pandas.Series(index=values.index, data=default)
-- 
2.43.0


From dbfaa418c359aa23bfd20b24ab84779431394fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:09 +0000
Subject: [PATCH 110/132] fix: label_to_index finds labels that are not sorted
 and values beyond them

---
 larch/util/arraytools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/larch/util/arraytools.py b/larch/util/arraytools.py
index b6932c8..26054f6 100644
--- a/larch/util/arraytools.py
+++ b/larch/util/arraytools.py
@@ -50,11 +50,11 @@ def label_to_index(labels, arr):
 		return labels
 	labels = numpy.asarray(labels)
 	if is_sorted_and_unique(labels):
-		return numpy.digitize(arr, labels, right=True)
-	uniq_labels, uniq_indexes = numpy.unique(labels, return_inverse=True)
+		return numpy.minimum(numpy.digitize(arr, labels, right=True), len(labels) - 1)
+	uniq_labels, uniq_indexes = numpy.unique(labels, return_index=True)
 	if len(uniq_labels) != len(labels):
-		raise NonUniqueLookup("lookup '{}' does not have unique labels for each item".format(lookupname))
-	index_malordered = numpy.digitize(arr, uniq_labels, right=True)
+		raise NonUniqueLookup("lookup does not have unique labels for each item")
+	index_malordered = numpy.minimum(numpy.digitize(arr, uniq_labels, right=True), len(labels) - 1)
 	return uniq_indexes[index_malordered]
 
 
-- 
2.43.0


From 32851870ec64c62d101759cd6d901306e520e9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:09 +0000
Subject: [PATCH 111/132] fix: the median of chosen values leaves out the
 others

---
 larch/util/statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/util/statistics.py b/larch/util/statistics.py
index d42246b..3912eb0 100644
--- a/larch/util/statistics.py
+++ b/larch/util/statistics.py
@@ -118,7 +118,7 @@ def statistics_for_array(
 			stats.minimum_chosen = scalarize(numpy.nanmin(a_ch_weighted, axis=0))
 			stats.maximum_chosen = scalarize(numpy.nanmax(a_ch_weighted, axis=0))
 			with warning.ignore_warnings():
-				stats.median_chosen = scalarize(numpy.nanmedian(a_ch_weighted, axis=0))
+				stats.median_chosen = scalarize(ma.median(ma.masked_where(nans, a_ch_weighted), axis=0))
 
 	if ch_weights is not None:
 		if avail is None and can_nan:
-- 
2.43.0


From f758ba735eab2127f73656aa91c7bc9f4b87fb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:09 +0000
Subject: [PATCH 112/132] fix: a Dict is loaded from the contents of a yaml
 file

---
 larch/util/addict_yaml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/util/addict_yaml.py b/larch/util/addict_yaml.py
index 3ed404f..ab13a0a 100644
--- a/larch/util/addict_yaml.py
+++ b/larch/util/addict_yaml.py
@@ -54,7 +54,7 @@ class Dict(_Dict):
 				raise
 
 		else:
-			return cls(yaml.load(filename, *args, **kwargs))
+			return cls(yaml.load(filename, *(args[1:]), Loader=Loader, **kwargs))
 
 	@classmethod
 	def load_multi(cls, *filenames, **kwargs):
-- 
2.43.0


From 82af8c428b2f163adf871f9163fa7358a56f0ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:09 +0000
Subject: [PATCH 113/132] fix: a Dict is dumped to a file in the working
 directory

---
 larch/util/addict_yaml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/util/addict_yaml.py b/larch/util/addict_yaml.py
index ab13a0a..5e655a7 100644
--- a/larch/util/addict_yaml.py
+++ b/larch/util/addict_yaml.py
@@ -86,7 +86,7 @@ class Dict(_Dict):
 			if os.path.exists(args[0]):
 				raise FileExistsError(args[0])
 			dirname = os.path.dirname(args[0])
-			if not os.path.exists(dirname):
+			if dirname and not os.path.exists(dirname):
 				os.makedirs(dirname)
 			with open(args[0], 'w') as f:
 				dump(self.to_dict(), f, *(args[1:]), **kwargs)
-- 
2.43.0


From c6281639b0ddf33683f87c58487ad1f834e04e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:31 +0000
Subject: [PATCH 114/132] fix: statistics accept availability given as numbers

---
 larch/util/statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/util/statistics.py b/larch/util/statistics.py
index 3912eb0..b1dfad0 100644
--- a/larch/util/statistics.py
+++ b/larch/util/statistics.py
@@ -92,7 +92,7 @@ def statistics_for_array(
 		a_masked = ma.masked_array(a, mask=~numpy.isfinite(a))
 		stats.n = scalarize(numpy.isfinite(a).sum(axis=0))
 	elif avail is not None:
-		a_masked = ma.masked_array(a, mask=~avail)
+		a_masked = ma.masked_array(a, mask=(avail==0))
 		stats.n = scalarize((avail!=0).sum(axis=0))
 	elif isinstance(a, pandas.Series) and isinstance(a.dtype, pandas.CategoricalDtype):
 		a_masked = ma.masked_array(a, mask=pandas.isnull(a))
@@ -124,7 +124,7 @@ def statistics_for_array(
 		if avail is None and can_nan:
 			ch_weightsx = ma.masked_array(ch_weights, mask=~numpy.isfinite(a))
 		elif avail is not None:
-			ch_weightsx = ma.masked_array(ch_weights, mask=~avail)
+			ch_weightsx = ma.masked_array(ch_weights, mask=(avail==0))
 		elif isinstance(a, pandas.Series) and isinstance(a.dtype, pandas.CategoricalDtype):
 			ch_weightsx = ma.masked_array(ch_weights, mask=pandas.isnull(a))
 		else:
-- 
2.43.0


From ef6143a43bc8412f34f9512e6ad96997b2a5bc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:45 +0000
Subject: [PATCH 115/132] fix: periodize an array without cutting labels to the
 default

---
 larch/util/data_manipulation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/larch/util/data_manipulation.py b/larch/util/data_manipulation.py
index 76c2402..740d0fe 100644
--- a/larch/util/data_manipulation.py
+++ b/larch/util/data_manipulation.py
@@ -110,7 +110,13 @@ def periodize(
 	if isinstance(values, pandas.Series):
 		x = pandas.Series(index=values.index, data=default)
 	else:
-		x = numpy.full(values.shape, default)
+		labels = [default, *(k for k, _ in mapping)]
+		strings = [isinstance(k, str) for k in labels]
+		if any(strings) and not all(strings):
+			dtype = object
+		else:
+			dtype = numpy.array(labels).dtype
+		x = numpy.full(values.shape, default, dtype=dtype)
 
 	if right:
 		rop = operator.le
-- 
2.43.0


From 679e0b07dfa1ed3501b95514214e1d3cecb32c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:20 +0000
Subject: [PATCH 116/132] fix: systematic alternative codes have room for the
 number of the alternative

---
 larch/model/systematic_alternatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/systematic_alternatives.py b/larch/model/systematic_alternatives.py
index 4410325..bb0e663 100644
--- a/larch/model/systematic_alternatives.py
+++ b/larch/model/systematic_alternatives.py
@@ -206,7 +206,7 @@ def _multiple_new_alternative_codes(
 
 	masks = numpy.zeros(len(groupby) + 1, dtype=numpy.int64)
 
-	label_offset = int(numpy.ceil(numpy.log2(s_max_overall)))
+	label_offset = int(s_max_overall).bit_length()
 
 	if complete_features_list is None:
 		complete_features_list = {}
@@ -384,7 +384,7 @@ def new_alternative_codes(
 
 	masks = numpy.zeros(len(groupby) + 1, dtype=numpy.int64)
 
-	label_offset = int(numpy.ceil(numpy.log2(s.max())))
+	label_offset = int(s.max()).bit_length()
 
 	uniqs = [numpy.unique(_df.iloc[:, i + 1], return_inverse=True) for i, g in enumerate(groupby)]
 
-- 
2.43.0


From e4a99468571b8734fb8468d3fe5ac9cf933fa265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:20 +0000
Subject: [PATCH 117/132] fix: systematic alternatives list the codes of all
 DataFrames

---
 larch/model/systematic_alternatives.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/larch/model/systematic_alternatives.py b/larch/model/systematic_alternatives.py
index bb0e663..509685d 100644
--- a/larch/model/systematic_alternatives.py
+++ b/larch/model/systematic_alternatives.py
@@ -244,6 +244,7 @@ def _multiple_new_alternative_codes(
 
 	bitmask_sizes = [int(numpy.ceil(numpy.log2(g))) for g in n_uniqs]
 
+	altcodes = set()
 	x_list = []
 	for uniqs, s, _df, df1 in zip(uniqs_list, s_list, _df_list, df1_list):
 		if len(bitmask_sizes):
@@ -263,7 +264,7 @@ def _multiple_new_alternative_codes(
 		x += s
 		masks[-1] = 2 ** label_offset - 1
 
-		altcodes = numpy.unique(x)
+		altcodes |= set(x)
 
 		if name in df1.columns and not overwrite:
 			_number = 2
@@ -273,6 +274,8 @@ def _multiple_new_alternative_codes(
 
 		x_list.append(x)
 
+	altcodes = numpy.asarray(sorted(altcodes))
+
 	sa = SystematicAlternatives(
 		masks=masks,
 		groupby=groupby,
-- 
2.43.0


From 88c89c168c4757d5f40d454f39edadc13f458f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:20 +0000
Subject: [PATCH 118/132] fix: new_alternative_codes leaves the given DataFrame
 unchanged

---
 larch/model/systematic_alternatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/systematic_alternatives.py b/larch/model/systematic_alternatives.py
index 509685d..f792d84 100644
--- a/larch/model/systematic_alternatives.py
+++ b/larch/model/systematic_alternatives.py
@@ -185,7 +185,7 @@ def _multiple_new_alternative_codes(
 			caseindex = df.index.name
 			df1 = df.reset_index()
 		elif caseindex is not None:
-			df1 = df
+			df1 = df.copy(deep=False)
 		else:
 			raise ValueError('cannot identify caseindex, existing index is un-named')
 
@@ -371,7 +371,7 @@ def new_alternative_codes(
 		caseindex = df.index.name
 		df1 = df.reset_index()
 	elif caseindex is not None:
-		df1 = df
+		df1 = df.copy(deep=False)
 	else:
 		raise ValueError('cannot identify caseindex, existing index is un-named')
 
-- 
2.43.0


From 572a6902bb6e5e546c3abddd70a0692b4fd762b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:20 +0000
Subject: [PATCH 119/132] fix: compute_alternative_codes codes other data in
 the same way

---
 larch/model/systematic_alternatives.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/larch/model/systematic_alternatives.py b/larch/model/systematic_alternatives.py
index f792d84..65edbe0 100644
--- a/larch/model/systematic_alternatives.py
+++ b/larch/model/systematic_alternatives.py
@@ -115,6 +115,7 @@ class SystematicAlternatives:
 			groupby_prefixes=None,
 			overwrite=overwrite,
 			complete_features_list=self._categoricals_source,
+			label_bits=int(self.masks[-1]).bit_length(),
 		)
 		return result
 
@@ -312,6 +313,7 @@ def new_alternative_codes(
 		groupby_prefixes=None,
 		overwrite=False,
 		complete_features_list=None,
+		label_bits=None,
 ):
 	"""Create new systematic alternatives.
 
@@ -342,6 +344,9 @@ def new_alternative_codes(
 		This argument can be important for OGEV models (e.g. when grouping by time slot but some time slots
 		have no alternatives present) or when train and test data may not include a completely overlapping
 		set of feature values.
+	label_bits : int, optional
+		Use this many bits to number the alternatives that share all feature values, instead of as many
+		as `df` needs.  Not used when `df` is a list.
 
 	Returns
 	-------
@@ -388,6 +393,10 @@ def new_alternative_codes(
 	masks = numpy.zeros(len(groupby) + 1, dtype=numpy.int64)
 
 	label_offset = int(s.max()).bit_length()
+	if label_bits is not None:
+		if label_offset > label_bits:
+			raise ValueError('too many similar alternatives in one case for these alternative codes')
+		label_offset = label_bits
 
 	uniqs = [numpy.unique(_df.iloc[:, i + 1], return_inverse=True) for i, g in enumerate(groupby)]
 
-- 
2.43.0


From fd2f6b612f300b463acc77223f9e8cc8246a1fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:11 +0000
Subject: [PATCH 120/132] fix: new_systematic_alternatives works on data in
 idca format

---
 larch/dataframes.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 2c92b8f..0ffc4da 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3538,15 +3538,15 @@ cdef class DataFrames:
 		"""
 		from .model.systematic_alternatives import new_alternative_codes
 
-		df = self._data_ca_or_ce
+		df = self.data_ca_as_ce()
 
-		caseindex = self.data_ce.index.names[0]
+		caseindex = df.index.names[0]
 		if caseindex is None:
 			caseindex = "_caseid_"
 
 
 		df1, sa1 = new_alternative_codes(
-			self.data_ce,
+			df,
 			groupby=groupby,
 			caseindex=caseindex,
 			name=name,
-- 
2.43.0


From b02fa921560d2a5d32e790a65cd08395d4fe958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:26 +0000
Subject: [PATCH 121/132] fix: the choice and availability summary weights each
 case

---
 larch/dataset/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/larch/dataset/__init__.py b/larch/dataset/__init__.py
index a64cbaf..903506f 100644
--- a/larch/dataset/__init__.py
+++ b/larch/dataset/__init__.py
@@ -1425,11 +1425,11 @@ def choice_avail_summary(dataset, graph=None, availability_co_vars=None):
     arr_wt = dataset.get('wt')
     if arr_wt is not None:
         if ch_ is not None:
-            ch_w = pd.Series((ch_ * arr_wt.values).sum(0))
+            ch_w = (ch_ * arr_wt.values[:, np.newaxis]).sum(0)
         else:
             ch_w = None
         if av_ is not None:
-            av_w = pd.Series((av_ * arr_wt.values).sum(0))
+            av_w = (av_ * arr_wt.values[:, np.newaxis]).sum(0)
         else:
             av_w = None
         show_wt = np.any(ch != ch_w)
@@ -1443,7 +1443,7 @@ def choice_avail_summary(dataset, graph=None, availability_co_vars=None):
     if ch_ is not None and ch_.sum() > 0:
         ch_but_not_av = ch_.sum(0)
         if arr_wt is not None:
-            ch_but_not_av_w = pd.Series((ch_ * arr_wt.values).sum(0), index=ch_.columns)
+            ch_but_not_av_w = (ch_ * arr_wt.values[:, np.newaxis]).sum(0)
         else:
             ch_but_not_av_w = ch_but_not_av
     else:
-- 
2.43.0


From 524cb40c30ec4bc989017662cc53152ea0864806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:14 +0000
Subject: [PATCH 122/132] fix: fit computes expressions for a table of floats
 too

---
 larch/model/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/larch/model/model.py b/larch/model/model.py
index 108576b..3f920a4 100644
--- a/larch/model/model.py
+++ b/larch/model/model.py
@@ -8,6 +8,7 @@ from .linear import LinearFunction_C, DictOfLinearFunction_C
 from ..general_precision import l4_float_dtype
 from .constraints import ParametricConstraintList
 from .tree import NestingTree
+from ..exceptions import MissingDataError
 from .abstract_model import AbstractChoiceModel
 from typing import Sequence, Mapping
 from numbers import Number
@@ -285,7 +286,7 @@ class Model(_Model5c):
 						ch = y,
 						wt = sample_weight,
 					)
-			except KeyError:
+			except (KeyError, MissingDataError):
 				# not all keys were available in natural form, try computing them
 				dfs1 = DataFrames( ce = X, )
 				dfs = dfs1.make_dataframes(self.required_data())
-- 
2.43.0


From f7be02bc50f6d30042a6af5dedee0236331a3d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:58 +0000
Subject: [PATCH 123/132] fix: predict_proba accepts a table where every
 alternative is available

---
 larch/model/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/larch/model/model.py b/larch/model/model.py
index 3f920a4..e1707fb 100644
--- a/larch/model/model.py
+++ b/larch/model/model.py
@@ -354,14 +354,19 @@ class Model(_Model5c):
 
 		if self._sklearn_data_format == 'idce':
 			try:
-				self.dataframes = DataFrames(
+				dfs = DataFrames(
 					ce = X[self.required_data().ca],
 				)
 			except KeyError:
 				# not all keys were available in natural form, try computing them
 				dfs1 = DataFrames( ce = X, )
 				dfs = dfs1.make_dataframes({'ca':self.required_data().ca})
-				self.dataframes = dfs
+			if dfs.data_av is None:
+				# no rows are missing, so every alternative is available
+				dfs.data_av = pandas.DataFrame(
+					1, index=dfs.caseindex, columns=dfs.alternative_codes(),
+				)
+			self.dataframes = dfs
 
 		elif self._sklearn_data_format == 'idca':
 			try:
-- 
2.43.0


From 075461732cc66f39b9c57c50843f5d52096d3f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:48 +0000
Subject: [PATCH 124/132] fix: the BHHH matrix of a latent class model is not
 four times too large

---
 larch/model/nl.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 95659da..4683928 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -273,6 +273,7 @@ def d_loglike_from_d_probability(
 		int c = 0
 		int n_alts = probability.shape[1]
 		int n_params = d_probability.shape[2]
+		l4_float_t[:] d_LL_case
 		l4_float_t[:] d_LL_temp
 		l4_float_t[:] d_LL_cum
 		l4_float_t[:,:] bhhh_temp
@@ -283,6 +284,7 @@ def d_loglike_from_d_probability(
 		if probability.shape[0] != array_ch.shape[0] or probability.shape[1] != array_ch.shape[1]:
 			raise ValueError(f"probabilities.shape ~= choices.shape {probability.shape} != {array_ch.shape}")
 
+		d_LL_case = numpy.zeros(n_params, dtype=l4_float_dtype)
 		d_LL_temp = numpy.zeros(n_params, dtype=l4_float_dtype)
 		d_LL_cum = numpy.zeros(n_params, dtype=l4_float_dtype)
 		if return_bhhh:
@@ -302,7 +304,7 @@ def d_loglike_from_d_probability(
 					n_alts,
 					probability[c],
 					d_probability[c],
-					d_LL_temp,
+					d_LL_case,
 					array_ch[c],
 					wt,
 					return_bhhh,
-- 
2.43.0


From 306ba164b3909af75f0db3fbc86cf7b9c953b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:31 +0000
Subject: [PATCH 125/132] fix: a class model that has all parameters follows
 the latent class model

---
 larch/model/latentclass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larch/model/latentclass.py b/larch/model/latentclass.py
index 619c10c..5664b9a 100644
--- a/larch/model/latentclass.py
+++ b/larch/model/latentclass.py
@@ -30,6 +30,8 @@ def sync_frames(*models):
 		joined = joined[~joined.index.duplicated(keep='first')]
 		for m in models:
 			m.set_frame(joined)
+			# set_frame keeps a frame that is equal, but it must be shared
+			m._frame = joined
 
 class LatentClassModel(AbstractChoiceModel):
 	"""
-- 
2.43.0


From 8369099d1b8edd23963e640b4561f5ab24f03d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:27 +0000
Subject: [PATCH 126/132] fix: latent class models accept weights

---
 larch/model/latentclass.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/latentclass.py b/larch/model/latentclass.py
index 5664b9a..83660fd 100644
--- a/larch/model/latentclass.py
+++ b/larch/model/latentclass.py
@@ -414,7 +414,7 @@ class LatentClassModel(AbstractChoiceModel):
 			stop_case_ = stop_case
 
 		if self.dataframes.data_wt is not None:
-			wt = self.dataframes.data_wt.iloc[start_case:stop_case_:step_case]
+			wt = self.dataframes.array_wt().reshape(-1)[start_case:stop_case_:step_case]
 		else:
 			wt = None
 
@@ -577,7 +577,7 @@ class LatentClassModel(AbstractChoiceModel):
 			stop_case_ = stop_case
 
 		if self.dataframes is not None and self.dataframes.data_wt is not None:
-			wt = self.dataframes.data_wt.iloc[start_case:stop_case_:step_case]
+			wt = self.dataframes.array_wt().reshape(-1)[start_case:stop_case_:step_case]
 		elif getattr(self._k_membership, 'data_as_loaded', None) is not None and 'wt' in self._k_membership.data_as_loaded:
 			wt = self._k_membership.data_as_loaded['wt'].values[start_case:stop_case_:step_case]
 		else:
-- 
2.43.0


From 26683166b35b8e1f5734e7978e2546b589528e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:29 +0000
Subject: [PATCH 127/132] fix: the log likelihood of a latent class model does
 not depend on the scale of the weights

---
 larch/model/latentclass.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/latentclass.py b/larch/model/latentclass.py
index 83660fd..f28e4f7 100644
--- a/larch/model/latentclass.py
+++ b/larch/model/latentclass.py
@@ -414,7 +414,7 @@ class LatentClassModel(AbstractChoiceModel):
 			stop_case_ = stop_case
 
 		if self.dataframes.data_wt is not None:
-			wt = self.dataframes.array_wt().reshape(-1)[start_case:stop_case_:step_case]
+			wt = self.dataframes.array_wt().reshape(-1)[start_case:stop_case_:step_case] * self.dataframes.weight_normalization
 		else:
 			wt = None
 
@@ -577,7 +577,7 @@ class LatentClassModel(AbstractChoiceModel):
 			stop_case_ = stop_case
 
 		if self.dataframes is not None and self.dataframes.data_wt is not None:
-			wt = self.dataframes.array_wt().reshape(-1)[start_case:stop_case_:step_case]
+			wt = self.dataframes.array_wt().reshape(-1)[start_case:stop_case_:step_case] * self.dataframes.weight_normalization
 		elif getattr(self._k_membership, 'data_as_loaded', None) is not None and 'wt' in self._k_membership.data_as_loaded:
 			wt = self._k_membership.data_as_loaded['wt'].values[start_case:stop_case_:step_case]
 		else:
-- 
2.43.0


From 8106abfcec452d564ccdf03b1df0ec1cc8adfa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:16 +0000
Subject: [PATCH 128/132] fix: weights that are all zero are not scaled into
 missing values

---
 larch/dataframes.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 0ffc4da..98bf54d 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3000,7 +3000,10 @@ cdef class DataFrames:
 
 		total_weight = self._array_wt.base.sum()
 		if numpy.isnan(total_weight):
-			total_weight = self.data_wt.sum()
+			total_weight = self.data_wt.sum().sum()
+		if total_weight == 0:
+			# there is no scale that gives an average weight of 1
+			return 1.0
 		scale_level = total_weight / self._n_cases()
 
 		for i in range(self._array_wt.shape[0]):
-- 
2.43.0


From e98a77faf1026a5e649be4c9139cedf1d0088e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:44 +0000
Subject: [PATCH 129/132] fix: a model group accepts changes of its members

---
 larch/model/model_group.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/larch/model/model_group.py b/larch/model/model_group.py
index eaa6931..486fdda 100644
--- a/larch/model/model_group.py
+++ b/larch/model/model_group.py
@@ -43,9 +43,11 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 	def __setitem__(self, i, value):
 		assert isinstance(value, AbstractChoiceModel)
 		self._k_models[i] = value
+		self._members_have_changed()
 
 	def __delitem__(self, x):
 		del self._k_models[x]
+		self._members_have_changed()
 
 	def __len__(self):
 		return len(self._k_models)
@@ -56,6 +58,12 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 	def insert(self, i, value):
 		assert isinstance(value, AbstractChoiceModel)
 		self._k_models.insert(i,value)
+		self._members_have_changed()
+
+	def _members_have_changed(self):
+		# log likelihoods found for other members are not valid any more
+		self.mangle()
+		self._clear_reference_loglikes()
 
 	@property
 	def dataframes(self):
@@ -291,7 +299,7 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 		dll = ll2_parts[0].dll
 		for y in ll2_parts[1:]:
 			dll = dll.add(y.dll, fill_value=0)
-		dll = dll[self.pf.index]
+		dll = dll.reindex(self.pf.index, fill_value=0)
 		ll2 = dictx(
 			ll=sum(y.ll for y in ll2_parts),
 			dll=dll,
-- 
2.43.0


From ad0e12b51a7d5776322a1328ae77b426151ba85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:58 +0000
Subject: [PATCH 130/132] fix: log likelihoods without a model and with
 constants only, for numba models with a dataset

---
 larch/model/abstract_model.pyx | 33 +++++++++++++++++++++------------
 larch/numba/model.py           | 18 ++++++++++++++++++
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index c057cd7..f5baa82 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -799,16 +799,20 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		elif use_cache == -1:
 			raise ValueError("no cached loglike_nil")
 		else:
-			from .model import Model
-			nil = Model()
-			try:
-				nil.dataservice = self.dataframes
-			except AttributeError:
-				raise ValueError('cannot access model.dataframes')
-			nil.load_data(log_warnings=False)
-			self._cached_loglike_nil = nil.loglike()
+			self._cached_loglike_nil = self._nil_model().loglike()
 			return self._cached_loglike_nil
 
+	def _nil_model(self):
+		# a model with no utility at all, and the data of this model
+		from .model import Model
+		nil = Model()
+		try:
+			nil.dataservice = self.dataframes
+		except AttributeError:
+			raise ValueError('cannot access model.dataframes')
+		nil.load_data(log_warnings=False)
+		return nil
+
 	def rho_sq_nil(self, x=None, use_cache=True, adj=False):
 		"""
 		Compute the rho squared value w.r.t. no model at all.
@@ -841,15 +845,14 @@ cdef class AbstractChoiceModel(ParameterFrame):
 				raise AttributeError
 			return self._cached_loglike_constants_only
 		except AttributeError:
-			from . import Model
-			constants_only_model = Model(dataservice=self.dataframes)
-			altcodes = constants_only_model.dataservice.alternative_codes()
+			constants_only_model, altcodes = self._blank_model_and_altcodes()
 			from ..roles import P
 			for j in altcodes[1:]:
 				constants_only_model.utility_co[j] = P(str(j))
 			from ..warning import ignore_warnings
 			with ignore_warnings():
-				constants_only_model.load_data()
+				if constants_only_model.dataservice is not None:
+					constants_only_model.load_data()
 				result = constants_only_model.maximize_loglike(
 					quiet=True, final_screen_update=False,
 					check_for_overspecification=False,
@@ -857,6 +860,12 @@ cdef class AbstractChoiceModel(ParameterFrame):
 			self._cached_loglike_constants_only = result.loglike
 			return self._cached_loglike_constants_only
 
+	def _blank_model_and_altcodes(self):
+		# a model without utility, that has yet to load the data of this model
+		from . import Model
+		blank = Model(dataservice=self.dataframes)
+		return blank, blank.dataservice.alternative_codes()
+
 	def estimation_statistics(self, compute_loglike_null=True):
 		"""
 		Create an XHTML summary of estimation statistics.
diff --git a/larch/numba/model.py b/larch/numba/model.py
index a860e36..7cd0898 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -924,6 +924,24 @@ class NumbaModel(_BaseModel):
         self._constraint_funcs = None
         self.datatree = datatree
 
+    def _blank_model_and_altcodes(self):
+        if self.datatree is None:
+            return super()._blank_model_and_altcodes()
+        blank = NumbaModel(datatree=self.datatree, float_dtype=self.float_dtype)
+        for role in (
+            'choice_ca_var', 'choice_co_vars', 'choice_co_code', 'choice_any',
+            'availability_var', 'availability_co_vars', 'weight_co_var',
+        ):
+            value = getattr(self, role)
+            if value:
+                setattr(blank, role, value)
+        return blank, list(self.dataset.dc.altids())
+
+    def _nil_model(self):
+        if self.datatree is None:
+            return super()._nil_model()
+        return self._blank_model_and_altcodes()[0]
+
     def mangle(self, *args, **kwargs):
         super().mangle(*args, **kwargs)
         self._dataset = None
-- 
2.43.0


From 0fc11fe396bed9cb838010b95b212ede62397747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:25 +0000
Subject: [PATCH 131/132] fix: joint_parameter_summary puts the figures into
 the rows of the parameters

---
 larch/util/summary.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/larch/util/summary.py b/larch/util/summary.py
index 6da4187..d945feb 100644
--- a/larch/util/summary.py
+++ b/larch/util/summary.py
@@ -81,14 +81,15 @@ def joint_parameter_summary(models, ordering=None, t_stats=True, loglike=True, r
 		for param, x in model_parameter_summary.iterrows():
 			if isinstance(param, tuple):
 				param = param[1]
-			summary.loc[(slice(None), param), (model.title, 'Param')] = x['Value']
+			rows = summary.index.get_level_values(1) == param
+			summary.loc[rows, (model.title, 'Param')] = x['Value']
 			if t_stats:
 				try:
 					t = x['t Stat']
 				except KeyError:
 					pass
 				else:
-					summary.loc[(slice(None), param), (model.title, 't-Stat')] = t
+					summary.loc[rows, (model.title, 't-Stat')] = t
 
 	if loglike or rhosq:
 		summary.loc[('----', '----'), :] = "----"
-- 
2.43.0


From 9daad2b649275e616b2af4cc6d99cf42396efa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:25 +0000
Subject: [PATCH 132/132] fix: constants can be loaded from DataFrames that
 have no data of cases

---
 larch/dataframes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 98bf54d..f66e041 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3369,7 +3369,7 @@ cdef class DataFrames:
 
 		if 'co' in req_data:
 			df_co = columnize(
-				self._data_co,
+				self._data_co if self._data_co is not None else pandas.DataFrame(index=self.caseindex),
 				list(req_data['co']),
 				inplace=False,
 				dtype=float_dtype,
-- 
2.43.0

