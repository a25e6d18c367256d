From 5157ab156c2c109c15ac157cdbcca0769cff34fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 001/124] fix: Min evaluates the elementwise minimum instead of
 negating it

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1a7b996..c47f8cf 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -308,7 +308,7 @@ class MinNode(NpMathBase):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         result = intensors[0].get_numpy()
         for i in range(1, len(intensors)):
-            result = not numpy.minimum(result, intensors[i].get_numpy())
+            result = numpy.minimum(result, intensors[i].get_numpy())
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From 3e55379d0e657ecb2b3139609fcfaaa297e53bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 002/124] fix: integer Div truncates toward zero and keeps the
 integer type

---
 onnx_tool/node.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index c47f8cf..fb60bcd 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -339,8 +339,11 @@ class DivNode(NpMathBase):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if intensors[0].dtype == intensors[1].dtype:
-            if intensors[0].dtype in [numpy.int64]:
-                result = intensors[0].get_numpy() // intensors[1].get_numpy()
+            if numpy.issubdtype(intensors[0].dtype, numpy.integer):
+                # ONNX integer division truncates toward zero and keeps the type
+                a, b = intensors[0].get_numpy(), intensors[1].get_numpy()
+                result = a // b
+                result = (result + ((a % b != 0) & ((a < 0) != (b < 0)))).astype(a.dtype)
             else:
                 result = intensors[0].get_numpy() / intensors[1].get_numpy()
         else:
-- 
2.43.0


From 9c4721dbdb5c437a98c50c85ba5159e1aaa21d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 003/124] fix: Mod honours the fmod attribute

---
 onnx_tool/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index fb60bcd..869d0a7 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -356,9 +356,11 @@ class ModNode(NpMathBase):
     def __init__(self, n):
         super().__init__(n)
         self.op_mac = ADD_MACS
+        self.add_default_value('fmod', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = numpy.mod(intensors[0].get_numpy(), intensors[1].get_numpy())
+        mod = numpy.fmod if self.fmod else numpy.mod
+        result = mod(intensors[0].get_numpy(), intensors[1].get_numpy())
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From 12563ba284149d2d2df9a1c4365fd35e4e82571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 004/124] fix: Softmax without an axis attribute evaluates over
 the last axis

---
 onnx_tool/node.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 869d0a7..fb10876 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -411,6 +411,7 @@ class SoftmaxNode(ExpNode):
         super().__init__(node_proto)
         self.op_mac = EXP_MACS + DIV_MACS
         self.ratio = 1
+        self.add_default_value('axis', -1)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xexp = numpy.exp(intensors[0].get_numpy())
-- 
2.43.0


From 18980cc280764efdbabac1bc3e3ec029932549a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 005/124] fix: HardSigmoid and HardSwish evaluate arrays
 elementwise

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index fb10876..e52d929 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -593,7 +593,7 @@ class HardSigmoidNode(PWNode):
         self.add_default_value('beta', 0.5)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = max(0, min(1, self.alpha * intensors[0].get_numpy() + self.beta))
+        result = numpy.clip(self.alpha * intensors[0].get_numpy() + self.beta, 0, 1)
         outtensors[0].update_tensor(result)
 
 
@@ -606,7 +606,7 @@ class HardSwishNode(PWNode):
         self.add_default_value('beta', 0.5)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = intensors[0].get_numpy() * max(0, min(1, self.alpha * intensors[0].get_numpy() + self.beta))
+        result = intensors[0].get_numpy() * numpy.clip(self.alpha * intensors[0].get_numpy() + self.beta, 0, 1)
         outtensors[0].update_tensor(result)
 
 
-- 
2.43.0


From b065563e381f68f3ab646b959fa87d420075188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 006/124] fix: LeakyRelu no longer overwrites its input while
 evaluating

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e52d929..77d3fa3 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -716,8 +716,8 @@ class LeakyReluNode(PWNode):
         x = intensors[0].get_numpy()
         outtensor = numpy.zeros_like(x)
         for i in numpy.ndindex(x.shape):
-            x = x[i]
-            outtensor[i] = x if x >= 0 else x * self.alpha
+            v = x[i]
+            outtensor[i] = v if v >= 0 else v * self.alpha
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From 7a52aa4b202312df086b9a1c583edffc1a7730c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 007/124] fix: Sum output shape follows multidirectional
 broadcasting

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 77d3fa3..f6e2a5e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -722,7 +722,7 @@ class LeakyReluNode(PWNode):
 
 
 @NODE_REGISTRY.register()
-class SumNode(PWNode):
+class SumNode(NpMathBase):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
         self.op_mac = ADD_MACS
-- 
2.43.0


From 70dc69e4865a31f69dee5de7a22b2ee21ed52a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 008/124] fix: Round keeps the element type of its input

---
 onnx_tool/node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f6e2a5e..d35bfa8 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -790,6 +790,10 @@ class LessOrEqualNode(LessNode):
 
 @NODE_REGISTRY.register()
 class RoundNode(LessNode):
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        outtensors[0].update_shape(intensors[0].get_shape())
+        outtensors[0].update_dtype(intensors[0].dtype)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         result = numpy.round(intensors[0].get_numpy())
         outtensors[0].update_tensor(result)
-- 
2.43.0


From ba21ae8a8e234f8f52c7b7b015b5f6f219f562da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 009/124] fix: Clip evaluates with omitted bounds and with
 attribute bounds

---
 onnx_tool/node.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d35bfa8..a5d528e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -998,13 +998,11 @@ class ClipNode(PWNode):
         self.ratio = 1
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if intensors[1].name == '':
-            minval = None
-        else:
+        minval = getattr(self, 'min', None)
+        maxval = getattr(self, 'max', None)
+        if len(intensors) > 1 and intensors[1].name != '':
             minval = intensors[1].get_numpy()
-        if intensors[2].name == '':
-            maxval = None
-        else:
+        if len(intensors) > 2 and intensors[2].name != '':
             maxval = intensors[2].get_numpy()
         y = numpy.clip(intensors[0].get_numpy(), minval, maxval)
         outtensors[0].update_tensor(y)
-- 
2.43.0


From 549284c7e6648eac825e2459a3b43a1f46e44f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 010/124] fix: reductions handle axes given as an input,
 omitted axes and noop_with_empty_axes

---
 onnx_tool/node.py | 56 +++++++++++++++++------------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index a5d528e..c124008 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1918,18 +1918,22 @@ class ReduceMeanNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('axes', None)
         self.add_default_value('keepdims', 1)
+        self.add_default_value('noop_with_empty_axes', 0)
+
+    def get_axes(self, intensors: List[Tensor]):
+        axes = self.axes
+        if len(intensors) == 2 and intensors[1].name != '':
+            axes = intensors[1].get_numpy().tolist()
+        rank = len(intensors[0].get_shape())
+        if axes is None or len(axes) == 0:
+            # no axes given: reduce everything, unless the node asks for a no-op
+            return () if self.noop_with_empty_axes else tuple(range(rank))
+        return tuple(_axes_neg2pos(rank, axes))
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         yshape = []
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
-        if axes is None:
-            return [[1]]
-        else:
-            axes = _axes_neg2pos(len(xshape), axes)
+        axes = self.get_axes(intensors)
 
         for i in range(len(xshape)):
             if i in axes:
@@ -1941,10 +1945,7 @@ class ReduceMeanNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
+        axes = self.get_axes(intensors)
         reduced = numpy.mean(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -1956,10 +1957,7 @@ class ReduceMeanNode(Node):
 @NODE_REGISTRY.register()
 class ReduceProdNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
+        axes = self.get_axes(intensors)
         reduced = numpy.prod(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -1972,10 +1970,7 @@ class ReduceProdNode(ReduceMeanNode):
 @NODE_REGISTRY.register()
 class ReduceSumNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = tuple(intensors[1].get_numpy().tolist())
-        else:
-            axes = self.axes
+        axes = self.get_axes(intensors)
         reduced = numpy.sum(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -1984,10 +1979,7 @@ class ReduceSumNode(ReduceMeanNode):
 class ReduceMinNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
+        axes = self.get_axes(intensors)
         reduced = numpy.minimum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -2001,10 +1993,7 @@ class ReduceMinNode(ReduceMeanNode):
 class ReduceMaxNode(ReduceMinNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
+        axes = self.get_axes(intensors)
         reduced = numpy.maximum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -2239,16 +2228,11 @@ class ConvNode(Node):
 
 
 @NODE_REGISTRY.register()
-class ReduceL2Node(Node):
-    def __init__(self, nodeproto):
-        super().__init__(nodeproto)
-        self.add_default_value('axes', None)
-        self.add_default_value('keepdims', 1)
-        self.axes = tuple(self.axes) if self.axes is not None else None
-
+class ReduceL2Node(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         reduced = numpy.sqrt(
-            numpy.sum(intensors[0].get_numpy() * intensors[0].get_numpy(), axis=self.axes, keepdims=self.keepdims == 1))
+            numpy.sum(intensors[0].get_numpy() * intensors[0].get_numpy(), axis=self.get_axes(intensors),
+                      keepdims=self.keepdims == 1))
         outtensors[0].update_tensor(reduced)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 80b9f3cf7ea86b4200d4de8aed197a0ecaeba245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 011/124] fix: TopK without an axis attribute selects along the
 last axis

---
 onnx_tool/node.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index c124008..ecb5f6d 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2002,14 +2002,11 @@ class ReduceMaxNode(ReduceMinNode):
 class TopKNode(Node):
     def __init__(self, node):
         super().__init__(node)
-        self.add_default_value('axis', None)
+        self.add_default_value('axis', -1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         k = intensors[1].get_numpy()[0]
-        # when the input tensor only contain 1 dimension, the axis attribute (default: 0) may not appear in the node
-        if len(xshape) == 1 and self.axis is None:
-            self.axis = 0
         axis = _axes_neg2pos(len(xshape), [self.axis])[0]
         newshape = []
         for i in range(len(xshape)):
-- 
2.43.0


From e69889684121103b0a8d5c49a2c4ac48ac4d9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 012/124] fix: MatMul broadcasts batch dimensions and accepts
 vectors

---
 onnx_tool/node.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index ecb5f6d..f00a47f 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -162,6 +162,20 @@ def _broadcast_shape(shapes: []):
     return outshape
 
 
+def _matmul_shape(a_shape, b_shape):
+    # numpy.matmul semantics: 1-D operands are promoted, batch dimensions broadcast
+    if len(a_shape) == 0 or len(b_shape) == 0:
+        raise RuntimeError('MatMul inputs must have rank >= 1')
+    if a_shape[-1] != (b_shape[-2] if len(b_shape) > 1 else b_shape[-1]):
+        raise RuntimeError(f'Incompatible MatMul shapes: {a_shape} x {b_shape}')
+    yshape = _broadcast_shape([a_shape[:-2], b_shape[:-2]])
+    if len(a_shape) > 1:
+        yshape.append(a_shape[-2])
+    if len(b_shape) > 1:
+        yshape.append(b_shape[-1])
+    return yshape
+
+
 class TmpNodeProto:
     def __init__(self, name, op_type, attributes):
         self.name = name
@@ -873,9 +887,9 @@ class GemmNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         a_shape = intensors[0].get_shape()
         b_shape = intensors[1].get_shape()
-        if len(a_shape) < 2 or len(b_shape) < 2:
-            raise RuntimeError('Gemm inputs must have rank >= 2')
         if self.__class__ == GemmNode:
+            if len(a_shape) < 2 or len(b_shape) < 2:
+                raise RuntimeError('Gemm inputs must have rank >= 2')
             # determine M,K from A depending on transA
             if self.transA > 0:
                 a_m = a_shape[-1]
@@ -897,17 +911,12 @@ class GemmNode(Node):
             batchshape = a_batch if volume(a_batch) >= volume(b_batch) else b_batch
             yshape = batchshape + [a_m, b_n]
         else:
-            # broadcast support for MatMul-like nodes
-            batchshape = a_shape[:-2] if volume(a_shape[:-2]) >= volume(b_shape[:-2]) else b_shape[:-2]
-            yshape = batchshape + [a_shape[-2], b_shape[-1]]
+            yshape = _matmul_shape(a_shape, b_shape)
         outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if self.__class__ == MatMulNode:
-            ashape = intensors[0].get_shape()
-            bshape = intensors[1].get_shape()
-            assert (ashape[-1] == bshape[-2])
             result = numpy.matmul(intensors[0].get_numpy(), intensors[1].get_numpy())
             outtensors[0].update_tensor(result)
             return
@@ -933,8 +942,9 @@ class GemmNode(Node):
                 else:
                     macs *= weight_shape[-2]
             else:
-                if len(weight_shape) > 1:
-                    macs *= weight_shape[-2]
+                if len(yshape) == 0:
+                    macs = 1
+                macs *= weight_shape[-2] if len(weight_shape) > 1 else weight_shape[-1]
             if len(intensors) == 3:
                 macs += volume(yshape) * ADD_MACS
         else:
-- 
2.43.0


From 67c1bf07a51ecaffe60676f57e61eacc23a4dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 013/124] fix: Gemm applies alpha and beta when evaluated

---
 onnx_tool/node.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f00a47f..716cfde 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -883,6 +883,8 @@ class GemmNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('transA', 0)
         self.add_default_value('transB', 0)
+        self.add_default_value('alpha', 1.0)
+        self.add_default_value('beta', 1.0)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         a_shape = intensors[0].get_shape()
@@ -927,8 +929,13 @@ class GemmNode(Node):
         if self.transB > 0:
             B = numpy.swapaxes(B, -1, -2)
         C = numpy.matmul(A, B)
-        if len(intensors) > 2:
-            C = numpy.add(C, intensors[2].get_numpy())
+        if self.alpha != 1.0:
+            C = (self.alpha * C).astype(C.dtype)
+        if len(intensors) > 2 and intensors[2].name != '':
+            bias = intensors[2].get_numpy()
+            if self.beta != 1.0:
+                bias = (self.beta * bias).astype(C.dtype)
+            C = numpy.add(C, bias)
         outtensors[0].update_tensor(C)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From f1920c6037680590385a11d63fc18b8206e718ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 014/124] fix: quantized matrix products refuse evaluation
 instead of using the float formula

---
 onnx_tool/node.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 716cfde..4505f7c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2555,6 +2555,9 @@ class MatMulIntegerNode(GemmNode):
         super().shape_infer(intensors, outtensors)
         outtensors[0].update_dtype(numpy.int32)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
+
 
 @NODE_REGISTRY.register()
 class QLinearMatMulNode(GemmNode):
@@ -2566,21 +2569,13 @@ class QLinearMatMulNode(GemmNode):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[3].get_shape()
-
-        if self.__class__ == GemmNode:
-            if self.transA is not None and self.transA > 0:
-                xshape = xshape[::-1]
-            else:
-                xshape = xshape
-            if self.transB is not None and self.transB > 0:
-                yshape = xshape[:-1] + [wshape[-2], ]
-            else:
-                yshape = xshape[:-1] + [wshape[-1], ]
-        else:
-            yshape = xshape[:-1] + [wshape[-1], ]
+        yshape = _matmul_shape(xshape, wshape)
         outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[-1].dtype)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
+
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         weight_shape = intensors[3].get_shape()
-- 
2.43.0


From a592f4b051d119bf96fe618cc2288f6a9182eae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 015/124] fix: Conv auto_pad covers dilated VALID and 3-D
 spatial inputs

---
 onnx_tool/node.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4505f7c..a1cc66c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -52,8 +52,8 @@ def _convtranspose_output_shape(xin, output_padding, pad, ksize, stride, dilatio
     return stride * (xin - 1) + output_padding + ((ksize - 1) * dilation + 1) - pad
 
 
-def _auto_pad_valid_shape_calc(x, ksize, stride):
-    return math.ceil((x - ksize + 1) / stride)
+def _auto_pad_valid_shape_calc(x, ksize, stride, dilation=1):
+    return math.ceil((x - ((ksize - 1) * dilation + 1) + 1) / stride)
 
 
 def _auto_pad_same_shape_calc(x, stride):
@@ -2158,13 +2158,13 @@ class ConvNode(Node):
         if self.auto_pad is not None and self.auto_pad != b'NOTSET':
             if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
                 shape = (xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0]))
-                if len(xshape) == 4:
-                    shape += (math.ceil(xshape[3] / self.strides[1]),)
+                for i in range(1, len(xshape) - 2):
+                    shape += (math.ceil(xshape[i + 2] / self.strides[i]),)
             elif self.auto_pad == b'VALID':
-                oh = math.ceil((xshape[2] - wshape[2] + 1) / self.strides[0])
+                oh = _auto_pad_valid_shape_calc(xshape[2], wshape[2], self.strides[0], self.dilations[0])
                 shape = (xshape[0], wshape[0], oh)
-                if len(xshape) == 4:
-                    ow = math.ceil((xshape[3] - wshape[3] + 1) / self.strides[1])
+                for i in range(1, len(xshape) - 2):
+                    ow = _auto_pad_valid_shape_calc(xshape[i + 2], wshape[i + 2], self.strides[i], self.dilations[i])
                     shape += (ow,)
             else:
                 assert 0
-- 
2.43.0


From 16c8376cf7f0ee3c5cae1b4f86cfddc3b198a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 016/124] fix: Conv evaluation starts from zero and refuses
 SAME padding it does not apply

---
 onnx_tool/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index a1cc66c..67d38e2 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2194,9 +2194,11 @@ class ConvNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if self.group != 1:
             raise NotImplementedError()
+        if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
+            raise NotImplementedError()
         self.shape_infer(intensors, outtensors)
         outshape = outtensors[0].get_shape()
-        outtensor = outtensors[0].get_numpy()
+        outtensor = numpy.zeros(outshape, dtype=intensors[0].dtype)
         has_bias = len(intensors) > 2
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-- 
2.43.0


From 2148f245f3e7cce6e0d453e5800e3909acda4a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 017/124] fix: quantized convolutions take the zero point type
 and refuse float evaluation

---
 onnx_tool/node.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 67d38e2..1a50468 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2612,7 +2612,10 @@ class QLinearConvNode(ConvNode):
                                         self.dilations[0])
                 shape = [xshape[0], wshape[0], oh]
         outtensors[0].update_shape(shape)
-        outtensors[0].update_dtype(intensors[-2].dtype)
+        outtensors[0].update_dtype(intensors[7].dtype)
+
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
@@ -2658,6 +2661,9 @@ class ConvIntegerNode(ConvNode):
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(numpy.int32)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
+
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
         outshape = outtensors[0].get_shape()
-- 
2.43.0


From cfbf5e7e81ed372b1ef96f563978226dd50cafed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 018/124] fix: quantized convolutions handle VALID padding and
 3-D spatial inputs

---
 onnx_tool/node.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1a50468..b4b204d 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2598,10 +2598,20 @@ class QLinearConvNode(ConvNode):
         if self.auto_pad is not None and self.auto_pad != b'NOTSET':
             if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
                 shape = [xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0])]
-                if len(xshape) == 4:
-                    shape += [math.ceil(xshape[3] / self.strides[1]), ]
+                for i in range(1, len(xshape) - 2):
+                    shape += [math.ceil(xshape[i + 2] / self.strides[i]), ]
+            elif self.auto_pad == b'VALID':
+                shape = [xshape[0], wshape[0]]
+                for i in range(len(xshape) - 2):
+                    shape += [_auto_pad_valid_shape_calc(xshape[i + 2], wshape[i + 2], self.strides[i],
+                                                         self.dilations[i]), ]
         else:
-            if len(xshape) == 4:
+            if len(xshape) == 5:
+                shape = [xshape[0], wshape[0]]
+                for i in range(3):
+                    shape += [_conv_output_shape(xshape[i + 2], self.pads[i] + self.pads[i + 3], wshape[i + 2],
+                                                 self.strides[i], self.dilations[i]), ]
+            elif len(xshape) == 4:
                 oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
                                         self.dilations[0])
                 ow = _conv_output_shape(xshape[3], self.pads[1] + self.pads[3], wshape[3], self.strides[1],
@@ -2624,7 +2634,7 @@ class QLinearConvNode(ConvNode):
             kernel_shape = intensors[3].get_shape()
             if len(kernel_shape) > 3:
                 outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2] * kernel_shape[3]
+                macs += outvol * volume(kernel_shape[1:])
             elif len(kernel_shape) == 3:
                 outvol = volume(outshape)
                 macs += outvol * kernel_shape[1] * kernel_shape[2]
@@ -2645,10 +2655,20 @@ class ConvIntegerNode(ConvNode):
         if self.auto_pad is not None and self.auto_pad != b'NOTSET':
             if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
                 shape = [xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0])]
-                if len(xshape) == 4:
-                    shape += [math.ceil(xshape[3] / self.strides[1]), ]
+                for i in range(1, len(xshape) - 2):
+                    shape += [math.ceil(xshape[i + 2] / self.strides[i]), ]
+            elif self.auto_pad == b'VALID':
+                shape = [xshape[0], wshape[0]]
+                for i in range(len(xshape) - 2):
+                    shape += [_auto_pad_valid_shape_calc(xshape[i + 2], wshape[i + 2], self.strides[i],
+                                                         self.dilations[i]), ]
         else:
-            if len(xshape) == 4:
+            if len(xshape) == 5:
+                shape = [xshape[0], wshape[0]]
+                for i in range(3):
+                    shape += [_conv_output_shape(xshape[i + 2], self.pads[i] + self.pads[i + 3], wshape[i + 2],
+                                                 self.strides[i], self.dilations[i]), ]
+            elif len(xshape) == 4:
                 oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
                                         self.dilations[0])
                 ow = _conv_output_shape(xshape[3], self.pads[1] + self.pads[3], wshape[3], self.strides[1],
@@ -2671,7 +2691,7 @@ class ConvIntegerNode(ConvNode):
             kernel_shape = intensors[1].get_shape()
             if len(kernel_shape) > 3:
                 outvol = volume(outshape)
-                macs += outvol * kernel_shape[1] * kernel_shape[2] * kernel_shape[3]
+                macs += outvol * volume(kernel_shape[1:])
             elif len(kernel_shape) == 3:
                 outvol = volume(outshape)
                 macs += outvol * kernel_shape[1] * kernel_shape[2]
-- 
2.43.0


From 45c2b7cc5b968bb58380d7415fe4bd7bd5ba35d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 019/124] fix: pooling handles 3-D windows, dilated VALID
 padding and 1-D auto_pad

---
 onnx_tool/node.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b4b204d..8182a39 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1416,9 +1416,9 @@ class PoolBase(Node):
         self.op_mac = CMP_MACS
         self.add_default_value('kernel_shape', (3, 3))
         self.add_default_value('ceil_mode', 0)
-        self.add_default_value('pads', (0, 0, 0, 0))
-        self.add_default_value('strides', (1, 1))
-        self.add_default_value('dilations', (1, 1))
+        self.add_default_value('pads', (0, 0, 0, 0, 0, 0))
+        self.add_default_value('strides', (1, 1, 1))
+        self.add_default_value('dilations', (1, 1, 1))
         self.add_default_value('auto_pad', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -1427,12 +1427,12 @@ class PoolBase(Node):
             outshape = inshape[:2]
             if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
                 outshape += (_auto_pad_same_shape_calc(inshape[2], self.strides[0]),)
-                if len(self.strides) == 2:
-                    outshape += [_auto_pad_same_shape_calc(inshape[3], self.strides[1]), ]
+                for i in range(1, len(self.kernel_shape)):
+                    outshape += [_auto_pad_same_shape_calc(inshape[i + 2], self.strides[i]), ]
             elif self.auto_pad == b'VALID':
-                outshape += [_auto_pad_valid_shape_calc(inshape[2], self.kernel_shape[0], self.strides[0]), ]
-                if len(self.strides) == 2:
-                    outshape += [_auto_pad_valid_shape_calc(inshape[3], self.kernel_shape[1], self.strides[1]), ]
+                for i in range(len(self.kernel_shape)):
+                    outshape += [_auto_pad_valid_shape_calc(inshape[i + 2], self.kernel_shape[i], self.strides[i],
+                                                            self.dilations[i]), ]
         else:
             if len(self.kernel_shape) == 1:
                 outshape = inshape[:2] + [
@@ -1452,16 +1452,16 @@ class PoolBase(Node):
                 ]
             if len(self.kernel_shape) == 3:
                 outshape = inshape[:2] + [
-                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[0], self.kernel_shape[0],
+                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[3], self.kernel_shape[0],
                                         self.dilations[0],
                                         self.strides[0],
                                         self.ceil_mode),
-                    _pooling_shape_calc(inshape[3], self.pads[1] + self.pads[1], self.kernel_shape[1],
+                    _pooling_shape_calc(inshape[3], self.pads[1] + self.pads[4], self.kernel_shape[1],
                                         self.dilations[1],
                                         self.strides[1],
                                         self.ceil_mode),
-                    _pooling_shape_calc(inshape[4], self.pads[2] + self.pads[2], self.kernel_shape[2],
-                                        self.dilations[1],
+                    _pooling_shape_calc(inshape[4], self.pads[2] + self.pads[5], self.kernel_shape[2],
+                                        self.dilations[2],
                                         self.strides[2],
                                         self.ceil_mode),
                 ]
@@ -1472,8 +1472,8 @@ class PoolBase(Node):
         outshape = outtensors[0].get_shape()
         outvol = volume(outshape)
         macs = outvol * CMP_MACS * self.kernel_shape[0]
-        if len(self.kernel_shape) == 2:
-            macs *= self.kernel_shape[1]
+        for k in self.kernel_shape[1:]:
+            macs *= k
         return macs
 
 
-- 
2.43.0


From 6263dfb8f70d5a2223ce17669665f0974eb7d832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 020/124] fix: MaxPool evaluation takes the maximum of the
 window only and honours dilations

---
 onnx_tool/node.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8182a39..a71f5dc 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1492,26 +1492,29 @@ class MaxPoolNode(PoolBase):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
+        if len(self.kernel_shape) != 2 or len(outtensors) > 1 or self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
+            raise NotImplementedError()
         self.shape_infer(intensors, outtensors)
-        ot = outtensors[0].get_numpy()
+        ot = numpy.zeros(outtensors[0].get_shape(), dtype=intensors[0].dtype)
         for i in numpy.ndindex(ot.shape):
             batch = i[0]
             ocn = i[1]
             oh = i[2]
             ow = i[3]
-            t = ot[i]
+            t = None
             ks = tuple(self.kernel_shape)
             for j in numpy.ndindex(ks):
                 kh = j[0]
                 kw = j[1]
-                srch = oh * self.strides[0] + kh - self.pads[0]
-                srcw = ow * self.strides[1] + kw - self.pads[1]
+                srch = oh * self.strides[0] + kh * self.dilations[0] - self.pads[0]
+                srcw = ow * self.strides[1] + kw * self.dilations[1] - self.pads[1]
                 if srch < 0 or srch >= xshape[2] or srcw < 0 or srcw >= xshape[3]:
                     continue
                 else:
                     srcv = intensors[0].get_numpy()[batch, ocn, srch, srcw]
-                t = max(srcv, t)
+                t = srcv if t is None else max(srcv, t)
             ot[i] = t
+        outtensors[0].update_tensor(ot)
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From dba6590be4e4f8d386494a921adf8b9b08d9f431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 021/124] fix: GlobalAveragePool evaluation keeps the spatial
 rank and accepts any spatial rank

---
 onnx_tool/node.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index a71f5dc..bb3cec0 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1539,16 +1539,7 @@ class GlobalAveragePoolNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        h = x.shape[2]
-        w = x.shape[3]
-        y = numpy.zeros(x.shape[:2], dtype=numpy.float32)
-        for i in numpy.ndindex(y.shape):
-            t = 0
-            for j in numpy.ndindex((h, w)):
-                xi = i + j
-                t += x[xi]
-            t /= (h * w)
-            y[i] = t
+        y = numpy.mean(x, axis=tuple(range(2, len(x.shape))), keepdims=True, dtype=x.dtype)
         outtensors[0].update_tensor(y)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 8516830d5b6de5f7e492d245242e109e26529cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 022/124] fix: ConvTranspose honours SAME auto_pad and default
 3-D strides

---
 onnx_tool/node.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index bb3cec0..e703c59 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2699,11 +2699,12 @@ class ConvIntegerNode(ConvNode):
 class ConvTransposeNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('pads', (0, 0, 0, 0))
+        self.add_default_value('pads', (0, 0, 0, 0, 0, 0))
         self.add_default_value('output_padding', (0, 0, 0, 0))
-        self.add_default_value('strides', (1, 1))
-        self.add_default_value('dilations', (1, 1))
+        self.add_default_value('strides', (1, 1, 1))
+        self.add_default_value('dilations', (1, 1, 1))
         self.add_default_value('output_shape', (0, 0))
+        self.add_default_value('auto_pad', None)
         self.add_default_value('group', 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -2741,6 +2742,9 @@ class ConvTransposeNode(Node):
             shape = [xshape[0], outc, ow]
             if volume(self.output_shape) != 0:
                 shape[2] = self.output_shape[0]
+        if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER'] and volume(self.output_shape) == 0:
+            for i in range(2, len(xshape)):
+                shape[i] = xshape[i] * self.strides[i - 2]
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From 2d8e7601e359d5f59ccd93f0d572475275a80abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 023/124] fix: Resize applies sizes and scales to the axes they
 name

---
 onnx_tool/node.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e703c59..e85d8b4 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1374,16 +1374,22 @@ class ResizeNode(Node):
                 sizes = intensors[3].get_numpy()
 
         newshape = []
+        axes = getattr(self, 'axes', None)
+        if axes is not None:
+            axes = _axes_neg2pos(len(xshape), axes)
+        elif is_valid_ndarray(sizes) and len(sizes) == 2 and len(xshape) > 2:
+            axes = [2, 3]
+        else:
+            axes = list(range(len(xshape)))
         if is_valid_ndarray(sizes):
-            if len(sizes) == len(xshape):
-                newshape = sizes
-            if len(sizes) == 2:
-                newshape = xshape[:2] + sizes
+            newshape = list(xshape)
+            for axis, size in zip(axes, sizes):
+                newshape[axis] = int(size)
         else:
             if is_valid_ndarray(scales):
-                newshape = []
-                for src, scale in zip(xshape, scales):
-                    newshape.append(math.floor(src * scale))
+                newshape = list(xshape)
+                for axis, scale in zip(axes, scales):
+                    newshape[axis] = math.floor(xshape[axis] * scale)
 
         if is_valid_ndarray(newshape):
             if newshape.dtype != numpy.int64:
-- 
2.43.0


From 9695339095f9355beba3ffe06f78dc0826e93197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 024/124] fix: Constant scalar/list attributes and
 ConstantOfShape without value are evaluated

---
 onnx_tool/node.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e85d8b4..56edac6 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1052,6 +1052,10 @@ class Relu6Node(PWNode):
 class ConstantNode(Node):
     def __init__(self, n):
         super().__init__(n)
+        for key, dtype in (('value_float', numpy.float32), ('value_floats', numpy.float32),
+                           ('value_int', numpy.int64), ('value_ints', numpy.int64)):
+            if hasattr(self, key):
+                self.value = numpy.array(getattr(self, key), dtype=dtype)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(self.value.shape)
@@ -2881,7 +2885,7 @@ class ConstantOfShapeNode(Node):
             outtensors[0].update_dtype(self.value.dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        arr = numpy.zeros(intensors[0].get_numpy(), dtype=self.value.dtype)
+        arr = numpy.zeros(intensors[0].get_numpy(), dtype=numpy.float32 if self.value is None else self.value.dtype)
         if self.value is not None and len(self.value) == 1:
             arr.fill(self.value[0])
         outtensors[0].update_tensor(arr)
-- 
2.43.0


From 90410778bb39e0b1ad4fdde1b87992200d70e01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 025/124] fix: Flatten accepts a negative axis

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 56edac6..d10d1d5 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1690,7 +1690,7 @@ class FlattenNode(Node):
             y = x.reshape((x.shape[0], -1))
         else:
             vol = 1
-            for i in range(self.axis):
+            for i in range(_axes_neg2pos(len(x.shape), [self.axis])[0]):
                 vol *= x.shape[i]
             y = x.reshape((vol, -1))
         outtensors[0].update_tensor(y)
-- 
2.43.0


From 9d708bf7c8e7327d5e17f42d578f9a64b966b6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 026/124] fix: GatherElements evaluation keeps the data type of
 its data input

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d10d1d5..e112c54 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2825,7 +2825,7 @@ class GatherElementsNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
         indice = intensors[1].get_numpy()
-        outtensor = numpy.zeros_like(indice)
+        outtensor = numpy.zeros(indice.shape, dtype=x.dtype)
         for i in numpy.ndindex(outtensor.shape):
             idx = list(i)
             idx[self.axis] = indice[i]
-- 
2.43.0


From 605e89d95cb1a2903cf91b3322538213e4e78ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 027/124] fix: GatherND honours batch_dims

---
 onnx_tool/node.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e112c54..6f10690 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2431,10 +2431,14 @@ class ScatterNDNode(Node):
 
 @NODE_REGISTRY.register()
 class GatherNDNode(Node):
+    def __init__(self, n):
+        super().__init__(n)
+        self.add_default_value('batch_dims', 0)
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data_shape = intensors[0].get_shape()
         indice_shape = intensors[1].get_shape()
-        batch_dims = 0
+        batch_dims = self.batch_dims
         # Note the data rank - will be reused multiple times later
         data_rank = len(data_shape)
 
@@ -2468,7 +2472,7 @@ class GatherNDNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
         indices = intensors[1].get_numpy()
-        ret = gather_nd_impl(data, indices, 0)
+        ret = gather_nd_impl(data, indices, self.batch_dims)
         outtensors[0].update_tensor(ret)
 
 
-- 
2.43.0


From f1fbc148fb01c12b156a4d61f12b7594bfc606ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 028/124] fix: ScatterND honours reduction

---
 onnx_tool/node.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 6f10690..d7a2e6f 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2418,6 +2418,10 @@ def gather_nd_impl(
 
 @NODE_REGISTRY.register()
 class ScatterNDNode(Node):
+    def __init__(self, n):
+        super().__init__(n)
+        self.add_default_value('reduction', b'none')
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
         outtensors[0].update_dtype(intensors[0].dtype)
@@ -2426,7 +2430,7 @@ class ScatterNDNode(Node):
         data = intensors[0].get_numpy()
         indices = intensors[1].get_numpy()
         updates = intensors[2].get_numpy()
-        outtensors[0].update_tensor(scatter_nd_impl(data, indices, updates))
+        outtensors[0].update_tensor(scatter_nd_impl(data, indices, updates, self.reduction.decode('utf-8')))
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From f94477507e39f4978795b112eb578bd4e20d91e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 029/124] fix: OneHot evaluation uses the off/on values and
 their type

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d7a2e6f..69d8f8d 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1143,7 +1143,7 @@ class OneHotNode(Node):
         indices = intensors[0].get_numpy()
         depth = intensors[1].get_numpy()
         values = intensors[2].get_numpy()
-        y = one_hot(indices, depth, self.axis)
+        y = numpy.where(one_hot(indices, depth, self.axis, numpy.bool_), values[1], values[0])
         outtensors[0].update_tensor(y)
 
 
-- 
2.43.0


From fa03f0658e5476d1555864bbfa300a860115b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 030/124] fix: Pad evaluates attribute pads, default mode,
 edge/reflect and the axes input

---
 onnx_tool/node.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 69d8f8d..92fb7e3 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1599,7 +1599,7 @@ class PadNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('pads', None)
         self.add_default_value('value', 0)
-        self.add_default_value('mode', 'constant')
+        self.add_default_value('mode', b'constant')
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
@@ -1607,8 +1607,13 @@ class PadNode(Node):
         if self.pads is None:
             if len(intensors) > 1:
                 pads = intensors[1].get_numpy()
-                for i, v in enumerate(inshape):
-                    newshape.append(v + pads[i] + pads[i + len(inshape)])
+                if len(intensors) > 3:
+                    axes = _axes_neg2pos(len(inshape), intensors[3].get_numpy())
+                else:
+                    axes = list(range(len(inshape)))
+                newshape = list(inshape)
+                for i, axis in enumerate(axes):
+                    newshape[axis] += pads[i] + pads[i + len(axes)]
         else:
             for i, v in enumerate(inshape):
                 newshape.append(v + self.pads[i] + self.pads[i + len(inshape)])
@@ -1617,19 +1622,28 @@ class PadNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        x = intensors[0].get_numpy()
         if self.pads is not None:
-            pads = self.pads
+            pads = numpy.array(self.pads)
         elif len(intensors) > 1:
             pads = intensors[1].get_numpy()
         nrank = len(pads) // 2
-        start = pads[:nrank].reshape(nrank, 1)
-        end = pads[nrank:].reshape(nrank, 1)
-        pad_width = numpy.concatenate([start, end], axis=-1)
+        axes = list(range(nrank))
+        if len(intensors) > 3:
+            axes = _axes_neg2pos(len(x.shape), intensors[3].get_numpy())
+        if (pads < 0).any():
+            raise NotImplementedError(f'this Node {self.op_type}-{self.name} has negative pads')
+        pad_width = numpy.zeros((len(x.shape), 2), dtype=numpy.int64)
+        pad_width[axes, 0] = pads[:nrank]
+        pad_width[axes, 1] = pads[nrank:]
         value = self.value
-        if len(intensors) > 2:
+        if len(intensors) > 2 and intensors[2].name != '':
             value = intensors[2].get_numpy()
-        outtensor = numpy.pad(intensors[0].get_numpy(), pad_width=pad_width, mode=self.mode.decode("utf-8"),
-                              constant_values=value)
+        mode = self.mode.decode("utf-8")
+        if mode == 'constant':
+            outtensor = numpy.pad(x, pad_width=pad_width, mode=mode, constant_values=value)
+        else:
+            outtensor = numpy.pad(x, pad_width=pad_width, mode=mode)
         outtensors[0].update_tensor(outtensor)
 
 
-- 
2.43.0


From 0f2b2072f82092699240a85234796383b95a8ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 031/124] fix: Reshape from and to scalars

---
 onnx_tool/node.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 92fb7e3..1c97ab2 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2809,15 +2809,15 @@ class ReshapeNode(Node):
                 newshape.append(int(srcshape[i]))
             else:
                 newshape.append(int(shape[i]))
-        sum = volume(newshape)
-        raw = volume(srcshape)
+        sum = math.prod(newshape)
+        raw = math.prod(srcshape)
         if sum < 0:
             remain = raw // -sum
             for i, val in enumerate(newshape):
                 if val == -1:
                     newshape[i] = remain
                     break
-        assert raw == volume(newshape)
+        assert raw == math.prod(newshape)
         outtensors[0].update_shape(newshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From a56ddd731ced60a264106daf80ba3c080dae37ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 032/124] fix: Shape honours start and end

---
 onnx_tool/node.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1c97ab2..68fdca2 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1358,8 +1358,13 @@ class SqueezeNode(Node):
 
 @NODE_REGISTRY.register()
 class ShapeNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('start', 0)
+        self.add_default_value('end', None)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        ret = numpy.array(intensors[0].get_shape(), dtype=numpy.int64)
+        ret = numpy.array(intensors[0].get_shape()[self.start:self.end], dtype=numpy.int64)
         outtensors[0].update_tensor(ret)
 
 
-- 
2.43.0


From 50b6725e772a67d99752fe37d979cadddd20d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 033/124] fix: Slice evaluates negative, omitted and attribute
 axes

---
 onnx_tool/node.py | 76 ++++++++++++-----------------------------------
 1 file changed, 19 insertions(+), 57 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 68fdca2..4309824 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1755,6 +1755,7 @@ class SliceNode(Node):
     def __init__(self, n):
         super(SliceNode, self).__init__(n)
         self.add_default_value('steps', None)
+        self.add_default_value('axes', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
@@ -1773,7 +1774,7 @@ class SliceNode(Node):
                 # fallback behaviour when axes/steps omitted
                 axes = None
             else:
-                if len(intensors) >= 4:
+                if len(intensors) >= 4 and intensors[3].name != '':
                     axes = list(intensors[3].get_numpy())
                 if len(intensors) >= 5:
                     steps = list(intensors[4].get_numpy())
@@ -1781,7 +1782,7 @@ class SliceNode(Node):
         r = len(inshape)
         # If axes omitted, set to [0..r-1]
         if axes is None:
-            axes = list(range(r))
+            axes = list(range(len(starts)))
         # Normalize negative axes
         axes = _axes_neg2pos(r, list(axes))
 
@@ -1892,63 +1893,24 @@ class SliceNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        datashape = intensors[0].get_shape()
-        if len(intensors) == 3:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            x = data[starts[0]:ends[0]]
-        if len(intensors) == 4:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            axes = intensors[3].get_numpy()
-            index = 0
-            x = data.copy()
-            for i in axes:
-                if i == 0:
-                    x = x[starts[index]:ends[index], ...]
-                if i == 1:
-                    x = x[:, starts[index]:ends[index], ...]
-                if i == 2:
-                    x = x[:, :, starts[index]:ends[index], ...]
-                if i == 3:
-                    x = x[:, :, :, starts[index]:ends[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, starts[index]:ends[index], ...]
-                index += 1
-        if len(intensors) == 5:
+        axes = self.axes
+        steps = self.steps
+        if len(intensors) == 1:
+            starts = self.starts
+            ends = self.ends
+        else:
             starts = intensors[1].get_numpy()
             ends = intensors[2].get_numpy()
-            axes = intensors[3].get_numpy()
-            steps = intensors[4].get_numpy()
-            index = 0
-            x = data.copy()
-            for i in axes:
-                if i == 0:
-                    x = x[starts[index]:ends[index]:steps[index], ...]
-                if i == 1:
-                    x = x[:, starts[index]:ends[index]:steps[index], ...]
-                if i == 2:
-                    x = x[:, :, starts[index]:ends[index]:steps[index], ...]
-                if i == 3:
-                    x = x[:, :, :, starts[index]:ends[index]:steps[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, starts[index]:ends[index]:steps[index], ...]
-                index += 1
-        if len(intensors) == 1:
-            index = 0
-            x = data.copy()
-            for i in self.axes:
-                if i == 0:
-                    x = x[self.starts[index]:self.ends[index], ...]
-                if i == 1:
-                    x = x[:, self.starts[index]:self.ends[index], ...]
-                if i == 2:
-                    x = x[:, :, self.starts[index]:self.ends[index], ...]
-                if i == 3:
-                    x = x[:, :, :, self.starts[index]:self.ends[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, self.starts[index]:self.ends[index], ...]
-                index += 1
+            if len(intensors) >= 4 and intensors[3].name != '':
+                axes = intensors[3].get_numpy()
+            if len(intensors) >= 5:
+                steps = intensors[4].get_numpy()
+        if axes is None:
+            axes = range(len(starts))
+        index = [slice(None)] * len(data.shape)
+        for i, axis in enumerate(axes):
+            index[axis] = slice(starts[i], ends[i], None if steps is None else steps[i])
+        x = data[tuple(index)]
         outtensors[0].update_tensor(x)
 
 
-- 
2.43.0


From b88bed7239046f33b379f39a0d95ae5e801dc8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 034/124] fix: Split without an axis attribute splits along
 axis 0

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4309824..6e559a8 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2944,7 +2944,7 @@ class MQANode(SDPANode):
 class SplitNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('axis', None)
+        self.add_default_value('axis', 0)
         self.add_default_value('split', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From 8dfca7b86c721ec6819dc89363c5974c5110ef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 035/124] fix: Squeeze drops all unit dimensions by default and
 takes axes in any order

---
 onnx_tool/node.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 6e559a8..ef4ffc3 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1329,14 +1329,21 @@ class UnsqueezeNode(Node):
 class SqueezeNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('axes', [0])
+        self.add_default_value('axes', None)
+
+    def _squeeze_axes(self, intensors):
+        inshape = intensors[0].get_shape()
+        axes = self.axes
+        if len(intensors) == 2:
+            axes = intensors[1].get_numpy()
+        if axes is None:
+            return [i for i, v in enumerate(inshape) if v == 1]
+        return _axes_neg2pos(len(inshape), axes)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
         outshape = []
-        if len(intensors) == 2:
-            self.axes = intensors[1].get_numpy()
-        axes = _axes_neg2pos(len(inshape), self.axes)
+        axes = self._squeeze_axes(intensors)
         for i in range(len(inshape)):
             if i in axes:
                 continue
@@ -1348,10 +1355,8 @@ class SqueezeNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensor = intensors[0].get_numpy().copy()
         idx = 0
-        if len(intensors) == 2:
-            self.axes = intensors[1].get_numpy()
-        for axis in self.axes:
-            outtensor = numpy.squeeze(outtensor, axis=axis - idx)
+        for axis in sorted(self._squeeze_axes(intensors)):
+            outtensor = numpy.squeeze(outtensor, axis=int(axis) - idx)
             idx += 1
         outtensors[0].update_tensor(outtensor)
 
-- 
2.43.0


From d7166190a575607733a741e0fa240377bb6e2cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 036/124] fix: Unsqueeze evaluation takes axes in any order

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index ef4ffc3..aa88c08 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1320,7 +1320,7 @@ class UnsqueezeNode(Node):
             axes = intensors[1].get_numpy()
         else:
             axes = self.axes
-        for axis in axes:
+        for axis in sorted(_axes_neg2pos(len(outtensor.shape) + len(axes), axes)):
             outtensor = numpy.expand_dims(outtensor, axis=axis)
         outtensors[0].update_tensor(outtensor)
 
-- 
2.43.0


From 5f7780423d28c170a7e9b1e1e059b7d4a8a1ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 037/124] fix: GRU/LSTM without bias or with one output

---
 onnx_tool/node.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index aa88c08..0f12390 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2107,7 +2107,7 @@ class LSTMNode(Node):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         rshape = intensors[2].get_shape()
-        bshape = intensors[3].get_shape()
+        bshape = intensors[3].get_shape() if len(intensors) > 3 else []
         seq = xshape[0]
         batch = xshape[1]
         num_dir = wshape[0]
@@ -2839,14 +2839,15 @@ class GRUNode(Node):
         h_len = wshape[1] // 3
         outtensors[0].update_shape([seq_len, num_dir, batch, h_len])
         outtensors[0].update_dtype(intensors[0].dtype)
-        outtensors[1].update_shape([num_dir, batch, h_len])
-        outtensors[1].update_dtype(intensors[0].dtype)
+        if len(outtensors) > 1:
+            outtensors[1].update_shape([num_dir, batch, h_len])
+            outtensors[1].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         rshape = intensors[2].get_shape()
-        bshape = intensors[3].get_shape()
+        bshape = intensors[3].get_shape() if len(intensors) > 3 else []
         batch = xshape[1]
         seq = xshape[0]
         h_len = wshape[1] // 3
-- 
2.43.0


From 72e5cb951c4eece1bd3e857a53ff3d54f9cef21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 038/124] fix: QuantizeLinear without zero point produces uint8

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 0f12390..fbd34f7 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2546,7 +2546,7 @@ class QuantizeLinearNode(PWNode):
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
-        outtensors[0].update_dtype(intensors[2].dtype)
+        outtensors[0].update_dtype(intensors[2].dtype if len(intensors) > 2 else numpy.uint8)
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From b9e1f06684b137650543db3a0ef9370017145ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 039/124] fix: Reshape to a scalar

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index fbd34f7..76fce45 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2770,7 +2770,7 @@ class ConvTransposeNode(Node):
 class ReshapeNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         srcshape = intensors[0].get_shape()
-        if not is_valid_ndarray(intensors[1].get_numpy()):
+        if intensors[1].get_numpy() is None:
             outtensors[0].update_shape([1, ])
             outtensors[0].update_dtype(intensors[0].dtype)
             return
-- 
2.43.0


From e91748213f76818cdebf73300114ff2d1ca8e421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 040/124] fix: LayerNormalization mean and inverse deviation
 outputs

---
 onnx_tool/node.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 76fce45..fa1f0a0 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2527,6 +2527,12 @@ class LayerNormalizationNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
         outtensors[0].update_dtype(intensors[0].dtype)
+        # optional outputs: Mean and InvStdDev
+        shape = intensors[0].get_shape()
+        axis = _axes_neg2pos(len(shape), [self.axis])[0]
+        for t in outtensors[1:]:
+            t.update_shape(shape[:axis] + [1] * (len(shape) - axis))
+            t.update_dtype(numpy.float32)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         tshape = intensors[0].get_shape()
-- 
2.43.0


From a392bed6d39692359cade7d79c3362cab4813039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 041/124] fix: BatchNormalization training outputs

---
 onnx_tool/node.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index fa1f0a0..f0b18aa 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1679,7 +1679,16 @@ class BatchNormalizationNode(FusedBase):
         self.add_default_value('momentum', 0.9)
         self.add_default_value('training_mode', int(0))
 
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        super().shape_infer(intensors, outtensors)
+        # optional outputs: running mean and variance
+        for t, src in zip(outtensors[1:], intensors[3:]):
+            t.update_shape(src.get_shape())
+            t.update_dtype(src.dtype)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        if self.training_mode:
+            raise NotImplementedError('BatchNormalization in training mode')
         x = intensors[0].get_numpy()
         scale = intensors[1].get_numpy()
         b = intensors[2].get_numpy()
-- 
2.43.0


From f63873acb9921ce5c2a6c4c7d3cdfaf3ec3e37db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 042/124] fix: Dropout mask output is evaluated

---
 onnx_tool/node.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index f0b18aa..0149564 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1546,6 +1546,11 @@ class DropoutNode(FusedBase):
             outtensors[1].update_shape(intensors[0].get_shape())
             outtensors[1].update_dtype(numpy.bool_)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        super().value_infer(intensors, outtensors)
+        if len(outtensors) == 2:
+            outtensors[1].update_tensor(numpy.ones(intensors[0].get_numpy().shape, dtype=numpy.bool_))
+
 
 @NODE_REGISTRY.register()
 class GlobalAveragePoolNode(Node):
-- 
2.43.0


From 726ff5e175b81ba84b17d8090fd952dd350a6289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 043/124] fix: Softmax of large values overflowed to NaN

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 0149564..8ec3ff1 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -428,7 +428,8 @@ class SoftmaxNode(ExpNode):
         self.add_default_value('axis', -1)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xexp = numpy.exp(intensors[0].get_numpy())
+        x = intensors[0].get_numpy()
+        xexp = numpy.exp(x - numpy.max(x, axis=self.axis, keepdims=True))
         result = xexp / numpy.sum(xexp, axis=self.axis, keepdims=True)
         outtensors[0].update_tensor(result)
 
-- 
2.43.0


From 4c5836dd404db5d284f81ade178fb2eda766cc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 044/124] fix: ArgMax ignored select_last_index

---
 onnx_tool/node.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8ec3ff1..c3c13d0 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1749,10 +1749,14 @@ class ArgMaxNode(Node):
         super().__init__(n)
         self.add_default_value('axis', 0)
         self.add_default_value('keepdims', 1)
+        self.add_default_value('select_last_index', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        out = argmax_use_numpy(data, self.axis, self.keepdims)
+        if self.select_last_index:
+            out = data.shape[self.axis] - 1 - argmax_use_numpy(numpy.flip(data, self.axis), self.axis, self.keepdims)
+        else:
+            out = argmax_use_numpy(data, self.axis, self.keepdims)
         outtensors[0].update_tensor(out)
 
 
-- 
2.43.0


From f20494b39c43e058b15af2b8b59b49ae87a12812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 045/124] fix: CumSum changed the element type of int32 data

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index c3c13d0..d646df9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2276,7 +2276,8 @@ class CumSumNode(PWNode):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         if self.exclusive == 0 and self.reverse == 0:
-            y = numpy.cumsum(intensors[0].get_numpy(), intensors[1].get_numpy())
+            x = intensors[0].get_numpy()
+            y = numpy.cumsum(x, intensors[1].get_numpy(), dtype=x.dtype)
             outtensors[0].update_tensor(y)
             return
         raise NotImplementedError(f"CumSum doesnt support {self.exclusive} {self.reverse}")
-- 
2.43.0


From 2d5c71069eeb6dce84d11bab7c591d3749e98e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 046/124] fix: integer reductions changed the element type

---
 onnx_tool/node.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d646df9..eb54012 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1972,8 +1972,9 @@ class ReduceMeanNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         axes = self.get_axes(intensors)
-        reduced = numpy.mean(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
-        outtensors[0].update_tensor(reduced)
+        data = intensors[0].get_numpy()
+        reduced = numpy.mean(data, axis=axes, keepdims=self.keepdims == 1)
+        outtensors[0].update_tensor(reduced.astype(data.dtype))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         vol = volume(intensors[0].get_shape())
@@ -1984,7 +1985,8 @@ class ReduceMeanNode(Node):
 class ReduceProdNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         axes = self.get_axes(intensors)
-        reduced = numpy.prod(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
+        data = intensors[0].get_numpy()
+        reduced = numpy.prod(data, axis=axes, keepdims=self.keepdims == 1, dtype=data.dtype)
         outtensors[0].update_tensor(reduced)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -1997,7 +1999,8 @@ class ReduceProdNode(ReduceMeanNode):
 class ReduceSumNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         axes = self.get_axes(intensors)
-        reduced = numpy.sum(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
+        data = intensors[0].get_numpy()
+        reduced = numpy.sum(data, axis=axes, keepdims=self.keepdims == 1, dtype=data.dtype)
         outtensors[0].update_tensor(reduced)
 
 
-- 
2.43.0


From 745fc4f55f647acacef31b92cab81ac590c900ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 047/124] fix: Einsum MACs with an ellipsis, one or more than
 two operands

---
 onnx_tool/node.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index eb54012..172ac89 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1279,12 +1279,16 @@ class EinsumNode(Node):
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 1
         map = {}
-        shape0 = intensors[0].get_shape()
-        shape1 = intensors[1].get_shape()
-        for i, v in enumerate(shape0):
-            map[self.input_labels[0].replace('.', '')[i]] = v
-        for i, v in enumerate(shape1):
-            map[self.input_labels[1].replace('.', '')[i]] = v
+        for label_str, tensor in zip(self.input_labels, intensors):
+            shape = tensor.get_shape()
+            labels = list(label_str)
+            if '...' in label_str:
+                head, tail = label_str.split('...')
+                ndim = len(shape) - len(head) - len(tail)
+                # ellipsis dimensions align on the right
+                labels = list(head) + [i - ndim for i in range(ndim)] + list(tail)
+            for key, v in zip(labels, shape):
+                map[key] = max(v, map.get(key, 1))
         for key in map.keys():
             macs *= map[key]
         return macs
-- 
2.43.0


From e8aab536a7e48507a57d6a1a9a3a52b3a49140d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 048/124] fix: ConvTranspose MACs were taken from the output
 size and channels

---
 onnx_tool/node.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 172ac89..beab288 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2791,9 +2791,8 @@ class ConvTransposeNode(Node):
             if len(intensors) == 3 or len(intensors) == 2:
                 kernel_shape = intensors[1].get_shape()
                 outvol = volume(outtensors[0].get_shape())
-                reduce_shape = kernel_shape[1:]
-                reduce_vol = volume(reduce_shape)
-                macs += outvol * reduce_vol * MUL_MACS
+                # every input element meets the kernels of all output channels of its group
+                macs += volume(intensors[0].get_shape()) * volume(kernel_shape[1:]) * MUL_MACS
                 if len(intensors) > 2:
                     macs += (outvol * ADD_MACS)
         return macs
-- 
2.43.0


From 2ee6f69a4a87de364730e0bf8fb57062f7e8ce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 049/124] fix: bidirectional LSTM/GRU counted the activations
 of one direction

---
 onnx_tool/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index beab288..8b3dfe8 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2140,7 +2140,7 @@ class LSTMNode(Node):
         h_len = wshape[1] // 4
         if self.hidden_size is not None:
             assert (h_len == self.hidden_size)
-        ht_size = volume([batch, seq, h_len])
+        ht_size = volume([batch, seq, h_len]) * num_dir
         # ft = sig(W*X+U*Ht-1+B)
         # it = sig(W*X+U*Ht-1+B)
         # ot = sig(W*X+U*Ht-1+B)
@@ -2883,7 +2883,7 @@ class GRUNode(Node):
         batch = xshape[1]
         seq = xshape[0]
         h_len = wshape[1] // 3
-        ht_size = volume([batch, seq, h_len])
+        ht_size = volume([batch, seq, h_len]) * wshape[0]
         # r = sigmoid(Wr*X+Wr*Ht-1+br)
         # z = sigmoid(Wz*X+Wz*Ht-1+bz)
         # h' = tanh(W*X+W*(r*Ht-1)+bh)
-- 
2.43.0


From d2b43fb9a6795f6d5951c9bee25b481e568b2db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 050/124] fix: QLinearMatMul MACs with a broadcast batch

---
 onnx_tool/node.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8b3dfe8..32935e8 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -2611,13 +2611,7 @@ class QLinearMatMulNode(GemmNode):
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-        weight_shape = intensors[3].get_shape()
-        macs = volume(xshape)
-        if self.__class__ == GemmNode:
-            macs *= weight_shape[0]
-        else:
-            macs *= weight_shape[-1]
-        return macs
+        return volume(outtensors[0].get_shape()) * xshape[-1]
 
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From 59f6a4efc251cb7c7ed8141a6849d0ffcfba1849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 051/124] fix: Min/Max MACs with more than two inputs

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 32935e8..8a44a1f 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -295,7 +295,7 @@ class NpMathBase(Node):
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outshape = outtensors[0].get_shape()
-        macs = volume(outshape) * self.ratio * self.op_mac
+        macs = volume(outshape) * max(1, len(intensors) - 1) * self.op_mac
         return macs
 
 
-- 
2.43.0


From b1e664e55e6237a0bb89c29f40ee598cd44af4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 052/124] fix: infer Einsum shapes with labels around an
 ellipsis and implicit ellipsis outputs

---
 onnx_tool/node.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8a44a1f..42de297 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1203,16 +1203,15 @@ class EinsumNode(Node):
                     if ch not in unique_labels:
                         unique_labels.append(ch)
             self.output_label_str = ''.join(sorted(unique_labels))
+            if any('...' in t for t in terms):
+                self.output_label_str = '...' + self.output_label_str
 
     def _has_ellipsis(self, label_str):
         return '...' in label_str
 
     def _get_non_ellipsis_labels(self, label_str):
-        """Get the labels after the ellipsis part."""
-        if '...' in label_str:
-            idx = label_str.index('...')
-            return label_str[idx + 3:]
-        return label_str
+        """Get the labels before and after the ellipsis part."""
+        return label_str.replace('...', '')
 
     def _get_ellipsis_ndim(self, label_str, total_ndim):
         """Compute how many dimensions the ellipsis covers."""
@@ -1231,17 +1230,15 @@ class EinsumNode(Node):
             if self._has_ellipsis(label_str):
                 non_ellipsis = self._get_non_ellipsis_labels(label_str)
                 ellipsis_ndim = len(tshape) - len(non_ellipsis)
+                start = label_str.index('...')
                 # Record ellipsis dimensions for broadcasting
-                ellipsis_dims_list.append(tshape[:ellipsis_ndim])
-                offset = ellipsis_ndim
+                ellipsis_dims_list.append(tshape[start:start + ellipsis_ndim])
+                tshape = list(tshape[:start]) + list(tshape[start + ellipsis_ndim:])
             else:
                 non_ellipsis = label_str
-                offset = 0
 
             for i, ch in enumerate(non_ellipsis):
-                if ch == '.':
-                    continue
-                dim_val = tshape[offset + i]
+                dim_val = tshape[i]
                 if ch not in label_to_dims:
                     label_to_dims[ch] = []
                 label_to_dims[ch].append(dim_val)
@@ -1260,12 +1257,10 @@ class EinsumNode(Node):
             for dims in zip(*padded_shapes):
                 ellipsis_shape.append(max(dims))
 
-        # Build output shape: first ellipsis dims, then output labels
-        shape.extend(ellipsis_shape)
-
         # For each output label, take the max across all inputs (broadcast)
-        for ch in self.output_label_str:
+        for ch in self.output_label_str.replace('...', '.'):
             if ch == '.':
+                shape.extend(ellipsis_shape)
                 continue
             if ch in label_to_dims:
                 shape.append(max(label_to_dims[ch]))
-- 
2.43.0


From 16b5602cec1be36d5a0c499b26fdb7b1cbcc0694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 053/124] fix: decode and encode constant tensors of every
 element type and encoding

---
 onnx_tool/tensor.py | 38 +++++++++++---------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index f773fde..61fe133 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -57,6 +57,8 @@ def onnxdtype2npdtype(data_type):
         return numpy.bool_
     if data_type == onnx.TensorProto.STRING:
         return numpy.bytes_
+    if data_type in onnx.helper.get_all_tensor_dtypes() and data_type != onnx.TensorProto.UNDEFINED:
+        return onnx.helper.tensor_dtype_to_np_dtype(data_type).type
 
 
 def type_of_tensor(tensor):
@@ -84,38 +86,17 @@ def npdtype2onnxdtype(npdtype):
         return onnx.TensorProto.UINT16
     if npdtype == numpy.bool_:
         return onnx.TensorProto.BOOL
-    if npdtype == numpy.bytes_:
-        return onnx.TensorProto.STRING
-    if npdtype == numpy.bytes_:
+    if numpy.dtype(npdtype).kind == 'S':
         return onnx.TensorProto.STRING
+    return onnx.helper.np_dtype_to_tensor_dtype(numpy.dtype(npdtype))
 
 
 def tensorproto2ndarray(initial):
     shape = shape_of_initializer(initial)
-    ndtype = onnxdtype2npdtype(initial.data_type)
-    if initial.raw_data == b'':
-        arr = numpy.zeros(shape, ndtype).reshape((-1))
-        if ndtype == numpy.float32:
-            arr = numpy.fromiter(initial.float_data, dtype=ndtype)
-
-        elif ndtype == numpy.int32:
-            arr = numpy.fromiter(initial.int32_data, dtype=ndtype)
-
-        elif ndtype == numpy.float16:
-            raw = list(initial.int32_data)
-            raw = numpy.fromiter(raw, dtype=numpy.uint16)
-            mem = raw.tobytes()
-            arr = numpy.frombuffer(mem, dtype=numpy.float16).reshape(shape)
-
-        elif ndtype == numpy.int64:
-            arr = numpy.fromiter(initial.int64_data, dtype=ndtype)
-
-        elif ndtype == numpy.float64:
-            arr = numpy.fromiter(initial.double_data, dtype=ndtype)
-        elif ndtype == numpy.bytes_:
-            arr = numpy.array(initial.string_data, dtype=ndtype)
+    if initial.data_type == onnx.TensorProto.STRING:
+        arr = numpy.array(list(initial.string_data), dtype=numpy.bytes_)
     else:
-        arr = numpy.frombuffer(initial.raw_data, dtype=ndtype)
+        arr = onnx.numpy_helper.to_array(initial)
     # if len(shape):
     arr = arr.reshape(shape)
     return arr
@@ -493,7 +474,10 @@ class Tensor():
             tproto = onnx.helper.make_tensor(self.name, npdtype2onnxdtype(self.numpy.dtype)
                                              , [], [self.numpy.item()])
         else:
-            if self.numpy.dtype not in [numpy.float32, numpy.int32]:
+            if self.numpy.dtype.kind == 'S':
+                raw = False
+                data = self.numpy.flatten().tolist()
+            elif self.numpy.dtype not in [numpy.float32, numpy.int32]:
                 raw = True
                 data = self.numpy.tobytes()
             else:
-- 
2.43.0


From c733ed7c7b4259ac1d62018e8f7eb68ea7a9f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 054/124] fix: export unknown dimensions as unknown instead of
 -1

---
 onnx_tool/tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 61fe133..1d2fb90 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -463,7 +463,9 @@ class Tensor():
             dtype = npdtype2onnxdtype(self.numpy.dtype.type)
         if self.name == '':
             return None
-        # shape = [int(i) for i in shape]
+        if shape is not None:
+            # -1 is the placeholder of an unknown dimension
+            shape = [None if s == -1 else s for s in shape]
         vinf = onnx.helper.make_tensor_value_info(self.name, dtype, shape)
         return vinf
 
-- 
2.43.0


From c4bb8ffa1bec81ce58bacb8145b575598e9ca7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 055/124] fix: ignore omitted optional inputs and outputs when
 sorting nodes

---
 onnx_tool/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 80de650..89fe142 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -919,7 +919,8 @@ class Graph():
         for name in node_names:
             node = self.nodemap[name]
             for tname in node.output:
-                produced_by[tname] = name
+                if tname != '':  # omitted optional output
+                    produced_by[tname] = name
 
         consumed_by = {}
         dependencies = {}
-- 
2.43.0


From 5cc19864a5ec93c4f2dbfbe985b0a0d0015b80d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 056/124] fix: sort producers of outer tensors before the
 control-flow nodes reading them

---
 onnx_tool/graph.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 89fe142..28ab35a 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -40,6 +40,27 @@ _SHAPE_TENSORS = {
 }
 
 
+def _outer_tensors(node):
+    # outer-scope tensors read by the subgraphs (If/Loop/Scan bodies) of this node
+    names = []
+
+    def collect(g, inner):
+        inner = inner | {t.name for t in g.input} | {t.name for t in g.initializer}
+        for n in g.node:
+            inner = inner | set(n.output)
+        for n in g.node:
+            names.extend(t for t in n.input if t != '' and t not in inner and t not in names)
+            for att in n.attribute:
+                if att.type == onnx.AttributeProto.GRAPH:
+                    collect(att.g, inner)
+        names.extend(t.name for t in g.output if t.name not in inner and t.name not in names)
+
+    for val in node.attr.values():
+        if isinstance(val, onnx.GraphProto):
+            collect(val, set())
+    return names
+
+
 def _contains_shape_tensor(n):
     nodeset = _SHAPE_TENSORS.keys()
     shape_tensors = []
@@ -927,7 +948,7 @@ class Graph():
         for name in node_names:
             node = self.nodemap[name]
             count = 0
-            for tname in node.input:
+            for tname in list(node.input) + _outer_tensors(node):
                 if tname in produced_by.keys():
                     count += 1
                     if tname in consumed_by.keys():
-- 
2.43.0


From d657e707bdf6e2668b8c9dc06890d46f07ef85b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 057/124] fix: keep graph inputs among the dynamic tensors when
 relations are rebuilt

---
 onnx_tool/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 28ab35a..d9d3607 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -349,7 +349,8 @@ class Graph():
 
     def update_tensor_relations(self):
         self.__update_consumer_producer__()
-        self.dynamics = list(self.producedby.keys())
+        self.dynamics = [name for name in self.input if name not in self.producedby]
+        self.dynamics.extend(self.producedby.keys())
 
     def __remove_if__(self):
         while True:
-- 
2.43.0


From 4d5569c529eb56534a74677bebcadaa1c1dae72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 058/124] fix: keep graph outputs alive to the end of the
 memory plan

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index d9d3607..01b5a62 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1232,7 +1232,7 @@ class Graph():
                         tensor_consumed[name] = [node]
                     consumers = self.consumedby[name]
                     if len(tensor_consumed[name]) == len(consumers):
-                        if name in tensor_in_mem:
+                        if name in tensor_in_mem and name not in self.output:
                             tensor_in_mem.remove(name)
         for output in self.output:
             if output not in tensor_in_mem:
-- 
2.43.0


From 6f9e652e5f4fe6d0a871d7303275bbf084cede87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 059/124] fix: plan memory of graphs without intermediate
 tensors

---
 onnx_tool/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 01b5a62..ec9a4ad 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1400,7 +1400,8 @@ class Graph():
 
         self.log(f"Raw memory size (without parameter memory): {raw_memsize:,} bytes")
         self.log(f"Compressed memory size: {compress_size:,} bytes")
-        self.log(f'Comression ratio: {compress_size / raw_memsize * 100:.3f}%')
+        if raw_memsize > 0:
+            self.log(f'Comression ratio: {compress_size / raw_memsize * 100:.3f}%')
         return compress_mem, compress_size
 
     def get_compute_graph(self):
-- 
2.43.0


From b736fa6d8e3998c086c5a70409fe675757ed973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 060/124] fix: keep node domains and empty list attributes when
 exporting nodes

---
 onnx_tool/node.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 42de297..3b050e8 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -218,7 +218,19 @@ class Node():
             setattr(self, attname, defaultvalue)
 
     def make_nodeproto(self):
-        return onnx.helper.make_node(self.op_type, self.input, self.output, self.name, **self.attr)
+        node = onnx.helper.make_node(self.op_type, self.input, self.output, self.name,
+                                     domain=getattr(self.proto, 'domain', '') or None)
+        for key in sorted(self.attr):
+            val = self.attr[key]
+            if val is None:
+                continue
+            attr_type = None
+            if isinstance(val, (list, tuple)) and len(val) == 0:
+                # the type of an empty list is only known from the source attribute
+                attr_type = next((a.type for a in self.proto.attribute
+                                  if not isinstance(a, str) and a.name == key), onnx.AttributeProto.INTS)
+            node.attribute.append(onnx.helper.make_attribute(key, val, attr_type=attr_type))
+        return node
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         self.value_infer(intensors, outtensors)
-- 
2.43.0


From 560b8ea98e61c7ab5e972d61644e4456fbfcb935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 061/124] fix: export the shape of scalar tensors

---
 onnx_tool/tensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 1d2fb90..9a59fed 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -353,6 +353,7 @@ class Tensor():
             self.name = t
             self.proto = None
             self.shape = []
+            self.unknown_shape = True
             self.numpy = None
             self.type = DYNAMIC_TENSOR if t != '' else STATIC_TENSOR
             self.dtype = numpy.float32
@@ -360,6 +361,7 @@ class Tensor():
             self.name = t.name
             self.proto = t
             self.shape = shape_of_tensor(t)
+            self.unknown_shape = not t.type.tensor_type.HasField('shape')
             self.numpy = None
             self.type = DYNAMIC_TENSOR
             self.dtype = type_of_tensor(t)
@@ -369,6 +371,7 @@ class Tensor():
             self.numpy = tensorproto2ndarray(t)
             # NOTE: The shape of the tensor should be a list.
             self.shape = list(self.numpy.shape)
+            self.unknown_shape = False
             self.type = STATIC_TENSOR
             self.dtype = self.numpy.dtype.type
         else:
@@ -390,6 +393,7 @@ class Tensor():
         if isinstance(shape, numpy.ndarray):
             assert 0
         self.shape = shape
+        self.unknown_shape = False
 
     def update_dtype(self, dtype):
         self.dtype = dtype
@@ -455,7 +459,7 @@ class Tensor():
 
     def make_value_proto(self, make_dummy=False):
         shape = self.get_shape()
-        if len(self.shape) == 0:
+        if len(self.shape) == 0 and self.unknown_shape and self.numpy is None:
             shape = None
         if self.numpy is None:
             dtype = npdtype2onnxdtype(self.dtype)
-- 
2.43.0


From 389ae2ac99faafe820ddf8207c8233ee67abecea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 062/124] fix: do not reuse an existing name for an unnamed
 node

---
 onnx_tool/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index ec9a4ad..ebfae65 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -459,6 +459,7 @@ class Graph():
         if g is None:
             return
         self.node_count = 0
+        explicit_names = {node.name for node in g.node}
         from .utils import timer
 
         tm = timer()
@@ -467,6 +468,8 @@ class Graph():
             newnode = create_node(node)
             if noderename or len(newnode.name) == 0:
                 newnode.name = newnode.op_type + '_' + str(self.node_count)
+                while not noderename and newnode.name in explicit_names:
+                    newnode.name += '_' + str(self.node_count)
             self.node_count += 1
             for tensor in node.input:
                 if tensor in self.producedby:
-- 
2.43.0


From 7865a9f0022012c4cc5b0f47bfead5c3757dcfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 063/124] fix: keep tensors that are only read inside
 control-flow bodies

---
 onnx_tool/graph.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index ebfae65..13916d9 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -235,7 +235,7 @@ class Graph():
 
         if constant_folding:
             for name in self.nodemap.keys():
-                for tname in self.nodemap[name].input:
+                for tname in self.nodemap[name].input + _outer_tensors(self.nodemap[name]):
                     if self.tensormap[tname].type == STATIC_TENSOR:
                         if tname not in self.initials:
                             self.initials.append(tname)
@@ -245,12 +245,17 @@ class Graph():
                 for tname in self.nodemap[name].output:
                     if tname not in self.dynamics:
                         self.dynamics.append(tname)
+            for tname in self.output:
+                # outputs computed from constants only are kept as constants
+                if self.tensormap[tname].type == STATIC_TENSOR and tname not in self.dynamics:
+                    if tname not in self.initials:
+                        self.initials.append(tname)
         else:
             for initial in self.rawgraph.initializer:
                 self.initials.append(initial.name)
             self.dynamics.extend(self.input)
             for name in self.nodemap.keys():
-                for tname in self.nodemap[name].input:
+                for tname in self.nodemap[name].input + _outer_tensors(self.nodemap[name]):
                     if tname not in self.initials and tname not in self.dynamics:
                         self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
@@ -272,7 +277,7 @@ class Graph():
             self.output = []
         for name in self.nodemap.keys():
             node = self.nodemap[name]
-            for tensor in node.input:
+            for tensor in node.input + _outer_tensors(node):
                 if tensor not in self.producedby and tensor in self.dynamics:
                     if tensor not in self.input:
                         self.input.append(tensor)
@@ -517,7 +522,7 @@ class Graph():
         # dynamic tensor info
         for key in self.nodemap.keys():
             node = self.nodemap[key]
-            for tensor in node.input:
+            for tensor in node.input + _outer_tensors(node):
                 if tensor not in self.tensormap.keys():
                     self.tensormap[tensor] = Tensor(tensor)
             for tensor in node.output:
@@ -652,7 +657,7 @@ class Graph():
         initializer = []
         enqueued = []
         for name in nodenames:
-            for input in self.nodemap[name].input:
+            for input in self.nodemap[name].input + _outer_tensors(self.nodemap[name]):
                 if input in self.initials and input not in enqueued:
                     proto = self.tensormap[input].make_tensor_proto()
                     if proto is not None:
-- 
2.43.0


From 71f76d2225d3428d4500658dffd0ce8f92e288fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 064/124] fix: export only the constants that the exported
 nodes and outputs use

---
 onnx_tool/graph.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 13916d9..f215529 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -894,6 +894,12 @@ class Graph():
         initializer = None
         if with_initializer:
             initializer = self.get_initials_from_nodenames(nodenames)
+            for name in outputnames:
+                # constants that are graph outputs
+                if name in self.initials and name not in [t.name for t in initializer]:
+                    proto = self.tensormap[name].make_tensor_proto()
+                    if proto is not None:
+                        initializer.append(proto)
 
         inputs = []
         outputs = []
@@ -910,8 +916,11 @@ class Graph():
             else:
                 inputs.append(onnx.helper.make_tensor_value_info(name, 1, None))
         # 把没有 numpy 数据的 initializer 也作为 graph input（保留 shape 信息）
+        used_names = set(outputnames)
+        for name in nodenames:
+            used_names.update(self.nodemap[name].input + _outer_tensors(self.nodemap[name]))
         for name in self.initials:
-            if name in initializer_names:
+            if name in initializer_names or name not in used_names:
                 continue  # 已有 numpy 数据，作为 initializer 导出
             if name in self.tensormap:
                 proto = self.tensormap[name].make_value_proto(make_dummy=True)
-- 
2.43.0


From 290644f859f51550f75a6714047f020aaa82ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 065/124] fix: preserve declared graph inputs and their order
 when saving

---
 onnx_tool/graph.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index f215529..3520385 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -874,6 +874,8 @@ class Graph():
             return
         graph = self.make_graph_onnx(self.nodemap.keys(), 'graph', self.input, self.output,
                                      with_initializer=not shape_only, with_shape_info=not no_shape)
+        if graph is not None and self.rawgraph is not None:
+            self.__restore_declared_inputs__(graph)
         if graph is not None and f is not None:
             attr = {}
             attr['producer_name'] = 'onnx_tool'
@@ -886,6 +888,28 @@ class Graph():
                     model.opset_import.append(opset)
             onnx.save_model(model, f)
 
+    def __restore_declared_inputs__(self, graph):
+        # keep the source model's input order, its unused inputs and its inputs with a default value
+        used = set()
+        for node in self.rawgraph.node:
+            used.update(node.input)
+        defaults = {t.name for t in self.rawgraph.initializer}
+        inputs = {v.name: v for v in graph.input}
+        initials = {t.name for t in graph.initializer}
+        ordered = []
+        for v in self.rawgraph.input:
+            if v.name in inputs:
+                ordered.append(inputs.pop(v.name))
+            elif v.name in defaults:
+                if v.name in initials:
+                    ordered.append(v)
+            elif v.name not in used:
+                ordered.append(v)
+        ordered.extend(inputs.values())
+        ordered = [copy.deepcopy(v) for v in ordered]
+        del graph.input[:]
+        graph.input.extend(ordered)
+
     def make_graph_onnx(self, nodenames, gname, inputnames, outputnames, with_initializer=True, with_shape_info=True):
         nodes = []
         for name in nodenames:
-- 
2.43.0


From 378ccc8de2dde13800d49abbf2ebbccacce733f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 066/124] fix: export shapes of the exported tensors only

---
 onnx_tool/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 3520385..b515cf0 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -942,7 +942,7 @@ class Graph():
         # 把没有 numpy 数据的 initializer 也作为 graph input（保留 shape 信息）
         used_names = set(outputnames)
         for name in nodenames:
-            used_names.update(self.nodemap[name].input + _outer_tensors(self.nodemap[name]))
+            used_names.update(self.nodemap[name].input + _outer_tensors(self.nodemap[name]) + self.nodemap[name].output)
         for name in self.initials:
             if name in initializer_names or name not in used_names:
                 continue  # 已有 numpy 数据，作为 initializer 导出
@@ -958,7 +958,7 @@ class Graph():
         value_infos = []
         if with_shape_info:
             for key in self.dynamics:
-                if key in self.input or key in self.output:
+                if key in inputnames or key in outputnames or key not in used_names:
                     continue
                 tensor = self.tensormap[key]
                 vinfo = tensor.make_value_proto()
@@ -967,6 +967,8 @@ class Graph():
                 value_infos.append(vinfo)
             if not with_initializer:
                 for key in self.initials:
+                    if key not in used_names:
+                        continue
                     tensor = self.tensormap[key]
                     vinfo = tensor.make_value_proto()
                     if vinfo is None:
-- 
2.43.0


From 0b90276d8e0529108fef22b4235d00c52f7628da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 067/124] fix: save models whose outputs are all constant after
 folding

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index b515cf0..2823b0d 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -869,7 +869,7 @@ class Graph():
         return None
 
     def save_model(self, f: str, shape_only: bool = False, no_shape: bool = False, rawmodel: onnx.ModelProto = None):
-        if len(self.nodemap.keys()) == 0:
+        if len(self.nodemap.keys()) == 0 and len(self.output) == 0:
             warnings.warn(f'Empty graph {f} to save')
             return
         graph = self.make_graph_onnx(self.nodemap.keys(), 'graph', self.input, self.output,
-- 
2.43.0


From 92b1dfb980e7267f773a4fac0a58d495f7b1ac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 068/124] fix: compute in-graph axes of reductions and
 four-input Pad (C06)

---
 onnx_tool/graph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 2823b0d..45dc7f2 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -30,13 +30,17 @@ _SHAPE_TENSORS = {
     'Range': ('0,1,2of3',),
     'OneHot': ('1of3',),
     'TopK': ('1of2',),
-    'Pad': ('1of2', '1of3',),
+    'Pad': ('1of2', '1of3', '1,3of4'),
     'NonMaxSuppression': ('2of5', '2of4'),
     'Split': ('1of2',),
     'Unsqueeze': ('1of2',),
     'Squeeze': ('1of2',),
     'ReduceSum': ('1of2',),
-    'ReduceMean': ('1of2',)
+    'ReduceMean': ('1of2',),
+    'ReduceProd': ('1of2',),
+    'ReduceMax': ('1of2',),
+    'ReduceMin': ('1of2',),
+    'ReduceL2': ('1of2',)
 }
 
 
-- 
2.43.0


From f8cc366b30b76e9e00f9fb0cb6a7e3a8e876c13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 069/124] fix: Expand to a zero-sized dimension (C03/C06)

---
 onnx_tool/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 3b050e8..77d1f47 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1611,7 +1611,7 @@ class ExpandNode(Node):
                 ei = int(e)
             except Exception:
                 ei = e
-            yshape.append(max(xi, ei))
+            yshape.append(ei if xi == 1 else xi)
         outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
-- 
2.43.0


From ba7de046858e01ffe36f4dccbdc9847b506b8f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 070/124] fix: omitted outputs do not leak into omitted inputs
 (C06)

---
 onnx_tool/graph.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 45dc7f2..2e623fa 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -323,9 +323,7 @@ class Graph():
                             itensors.append(self.tensormap[input])
                             if self.tensormap[input].numpy is None and input != '':
                                 warnings.warn(f'Tensor {input} has shape only, {name} may has wrong value infer result')
-                        otensors = []
-                        for output in this_node.output:
-                            otensors.append(self.tensormap[output])
+                        otensors = self.__output_tensors__(this_node)
                         this_node.value_infer(itensors, otensors)
                         if len(otensors) > 0:
                             for i, output in enumerate(this_node.output):
@@ -1075,6 +1073,10 @@ class Graph():
             if key in self.tensormap.keys():
                 self.tensormap[key].update_tensor(inputs[key])
 
+    def __output_tensors__(self, node):
+        # an omitted output ('') must not write into the tensor that stands for omitted inputs
+        return [self.tensormap[name] if name != '' else Tensor('') for name in node.output]
+
     def get_dynamic_tensors(self):
         dtensors = {}
         import copy
@@ -1109,9 +1111,7 @@ class Graph():
             itensors = []
             for input in node.input:
                 itensors.append(self.tensormap[input])
-            otensors = []
-            for output in node.output:
-                otensors.append(self.tensormap[output])
+            otensors = self.__output_tensors__(node)
             try:
                 if node.shape_calc:
                     node.value_infer(itensors, otensors)
@@ -1134,9 +1134,7 @@ class Graph():
             itensors = []
             for input in node.input:
                 itensors.append(self.tensormap[input])
-            otensors = []
-            for output in node.output:
-                otensors.append(self.tensormap[output])
+            otensors = self.__output_tensors__(node)
             node.value_infer(itensors, otensors)
         outputs = []
         for output in self.output:
@@ -1527,9 +1525,7 @@ class Graph():
             # Annotate static/dynamic inputs on the node
             node.static_inputs = [i for i, t in enumerate(itensors) if t.name != '' and t.type == STATIC_TENSOR]
             node.dynamic_inputs = [i for i, t in enumerate(itensors) if t.name != '' and t.type == DYNAMIC_TENSOR]
-            otensors = []
-            for output in node.output:
-                otensors.append(self.tensormap[output])
+            otensors = self.__output_tensors__(node)
             ret = node.profile(itensors, otensors)
             macs = ret[0]
             # params: sum of all static input volumes (not deduped)
-- 
2.43.0


From 277209e1ed026e9e3522e030884b307d85fe1a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 071/124] fix: constant folding keeps nodes it can not evaluate
 (C08)

---
 onnx_tool/graph.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 2e623fa..6f8df78 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -297,7 +297,7 @@ class Graph():
         constant_node = True
         if node.op_type in ['DequantizeLinear']:
             return False
-        for tname in node.input:
+        for tname in node.input + _outer_tensors(node):
             if self.tensormap[tname].type == DYNAMIC_TENSOR:
                 constant_node = False
                 break
@@ -324,7 +324,13 @@ class Graph():
                             if self.tensormap[input].numpy is None and input != '':
                                 warnings.warn(f'Tensor {input} has shape only, {name} may has wrong value infer result')
                         otensors = self.__output_tensors__(this_node)
-                        this_node.value_infer(itensors, otensors)
+                        try:
+                            this_node.value_infer(itensors, otensors)
+                        except NotImplementedError as e:
+                            # this node can not be evaluated, so it stays in the graph
+                            warnings.warn(f'Constant node {this_node.name} is not folded: {e}')
+                            this_node.constant = False
+                            continue
                         if len(otensors) > 0:
                             for i, output in enumerate(this_node.output):
                                 self.tensormap[output].type = STATIC_TENSOR
-- 
2.43.0


From 52c4b2614f0dbd266a780601f54677d27f8d285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 072/124] fix: tensors read in control-flow bodies are consumed
 by the node (C08/C10/C11)

---
 onnx_tool/graph.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 6f8df78..4724c79 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -65,6 +65,11 @@ def _outer_tensors(node):
     return names
 
 
+def _read_tensors(node):
+    # inputs of the node and the outer-scope tensors its subgraphs read
+    return list(node.input) + [t for t in _outer_tensors(node) if t not in node.input]
+
+
 def _contains_shape_tensor(n):
     nodeset = _SHAPE_TENSORS.keys()
     shape_tensors = []
@@ -239,7 +244,7 @@ class Graph():
 
         if constant_folding:
             for name in self.nodemap.keys():
-                for tname in self.nodemap[name].input + _outer_tensors(self.nodemap[name]):
+                for tname in _read_tensors(self.nodemap[name]):
                     if self.tensormap[tname].type == STATIC_TENSOR:
                         if tname not in self.initials:
                             self.initials.append(tname)
@@ -259,7 +264,7 @@ class Graph():
                 self.initials.append(initial.name)
             self.dynamics.extend(self.input)
             for name in self.nodemap.keys():
-                for tname in self.nodemap[name].input + _outer_tensors(self.nodemap[name]):
+                for tname in _read_tensors(self.nodemap[name]):
                     if tname not in self.initials and tname not in self.dynamics:
                         self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
@@ -281,7 +286,7 @@ class Graph():
             self.output = []
         for name in self.nodemap.keys():
             node = self.nodemap[name]
-            for tensor in node.input + _outer_tensors(node):
+            for tensor in _read_tensors(node):
                 if tensor not in self.producedby and tensor in self.dynamics:
                     if tensor not in self.input:
                         self.input.append(tensor)
@@ -297,7 +302,7 @@ class Graph():
         constant_node = True
         if node.op_type in ['DequantizeLinear']:
             return False
-        for tname in node.input + _outer_tensors(node):
+        for tname in _read_tensors(node):
             if self.tensormap[tname].type == DYNAMIC_TENSOR:
                 constant_node = False
                 break
@@ -351,7 +356,7 @@ class Graph():
         self.consumedby = {}
         for name in self.nodemap:
             node = self.nodemap[name]
-            for tensor in node.input:
+            for tensor in _read_tensors(node):
                 if tensor not in self.consumedby:
                     self.consumedby[tensor] = []
                 self.consumedby[tensor].append(node.name)
@@ -453,14 +458,14 @@ class Graph():
         if len(newnode.name) == 0:
             newnode.name = newnode.op_type + '_' + str(self.node_count)
         self.node_count += 1
-        for tensor in node_proto.input:
+        newnode.input.extend(node_proto.input)
+        for tensor in _read_tensors(newnode):
             if tensor in self.producedby:
                 for producer in self.producedby[tensor]:
                     newnode.prevnodes.append(self.nodemap[producer])
             if tensor not in self.consumedby:
                 self.consumedby[tensor] = []
             self.consumedby[tensor].append(newnode.name)
-            newnode.input.append(tensor)
         for tensor in node_proto.output:
             if tensor not in self.producedby:
                 self.producedby[tensor] = []
@@ -484,14 +489,14 @@ class Graph():
                 while not noderename and newnode.name in explicit_names:
                     newnode.name += '_' + str(self.node_count)
             self.node_count += 1
-            for tensor in node.input:
+            newnode.input.extend(node.input)
+            for tensor in _read_tensors(newnode):
                 if tensor in self.producedby:
                     for producer in self.producedby[tensor]:
                         newnode.prevnodes.append(self.nodemap[producer])
                 if tensor not in self.consumedby:
                     self.consumedby[tensor] = []
                 self.consumedby[tensor].append(newnode.name)
-                newnode.input.append(tensor)
             for tensor in node.output:
                 if tensor not in self.producedby:
                     self.producedby[tensor] = []
@@ -530,7 +535,7 @@ class Graph():
         # dynamic tensor info
         for key in self.nodemap.keys():
             node = self.nodemap[key]
-            for tensor in node.input + _outer_tensors(node):
+            for tensor in _read_tensors(node):
                 if tensor not in self.tensormap.keys():
                     self.tensormap[tensor] = Tensor(tensor)
             for tensor in node.output:
@@ -665,7 +670,7 @@ class Graph():
         initializer = []
         enqueued = []
         for name in nodenames:
-            for input in self.nodemap[name].input + _outer_tensors(self.nodemap[name]):
+            for input in _read_tensors(self.nodemap[name]):
                 if input in self.initials and input not in enqueued:
                     proto = self.tensormap[input].make_tensor_proto()
                     if proto is not None:
@@ -689,7 +694,7 @@ class Graph():
 
         newnodes = []
         # update consumer
-        for i in node.input:
+        for i in _read_tensors(node):
             if i in self.consumedby.keys():
                 if len(self.consumedby[i]) == 1 and i in self.producedby:
                     pnode = self.producedby[i][0]
@@ -950,7 +955,7 @@ class Graph():
         # 把没有 numpy 数据的 initializer 也作为 graph input（保留 shape 信息）
         used_names = set(outputnames)
         for name in nodenames:
-            used_names.update(self.nodemap[name].input + _outer_tensors(self.nodemap[name]) + self.nodemap[name].output)
+            used_names.update(_read_tensors(self.nodemap[name]) + self.nodemap[name].output)
         for name in self.initials:
             if name in initializer_names or name not in used_names:
                 continue  # 已有 numpy 数据，作为 initializer 导出
@@ -1000,7 +1005,7 @@ class Graph():
         for name in node_names:
             node = self.nodemap[name]
             count = 0
-            for tname in list(node.input) + _outer_tensors(node):
+            for tname in _read_tensors(node):
                 if tname in produced_by.keys():
                     count += 1
                     if tname in consumed_by.keys():
@@ -1040,7 +1045,7 @@ class Graph():
         intensors = []
         outtensors = []
         for name in nodenames:
-            for input in self.nodemap[name].input:
+            for input in _read_tensors(self.nodemap[name]):
                 if len(input) == 0:
                     continue
                 if remove_initials and input in self.initials:
@@ -1275,7 +1280,7 @@ class Graph():
                 tensor_in_mem.append(name)
             new_list = copy.deepcopy(tensor_in_mem)
             tensor_mem_per_node.append(new_list)
-            for name in node_.input:
+            for name in _read_tensors(node_):
                 if name in self.consumedby:
                     if name in tensor_consumed:
                         tensor_consumed[name].append(node)
-- 
2.43.0


From 57f2149185565cf7ea9eb020765ac840826893a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:09 +0000
Subject: [PATCH 073/124] fix: subgraph extraction builds graphs with a config
 and keeps graph outputs (C11)

---
 onnx_tool/__init__.py |  6 +++---
 onnx_tool/graph.py    | 10 ++++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index b7d892a..22db087 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -11,7 +11,7 @@ from .model import Model
 from .node import NODE_REGISTRY, Node
 from .serialization import serialize_shape_engine, serialize_graph
 from .tensor import create_ndarray_f32, create_ndarray_int64
-from .utils import timer, VERSION
+from .utils import timer, VERSION, ModelConfig
 
 
 def loadmodel(f, mcfg={}):
@@ -161,7 +161,7 @@ def model_io_modify(m, save_model: str, custom_io):
                         if nb.HasField('dim_value'):
                             nb.ClearField('dim_value')
                         nb.dim_param = shapeval
-    graph = Graph(graph,utils.ModelConfig({'verbose':True}))
+    graph = Graph(graph, ModelConfig({'verbose': True}))
     graph.save_model(save_model, rawmodel=model.mproto)
 
 
@@ -176,7 +176,7 @@ def model_subgraph(m, in_tensor_names: [str] = None, out_tensor_names: [str] = N
         graph_lvl2.save_model(os.path.join(save_folder, model.modelname + '_level2.onnx'), rawmodel=model.mproto)
     if nodenames is not None:
         rawgraph = graph.get_onnxgraph_by_nodenames(nodenames)
-        subgraph = Graph(rawgraph)
+        subgraph = Graph(rawgraph, ModelConfig())
         subgraph.save_model(os.path.join(save_folder, model.modelname + '_subgraph.onnx'), rawmodel=model.mproto)
 
 
diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 4724c79..e47b09d 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -635,9 +635,9 @@ class Graph():
     def get_subgraph(self, inputs: [], outputs: []):
         graph_level0, graph_level1, graph_level2 = self.__get_subnodes_byio__(inputs, outputs)
 
-        graph_level0 = Graph(self.get_onnxgraph_by_nodenames(graph_level0))
-        graph_level1 = Graph(self.get_onnxgraph_by_nodenames(graph_level1))
-        graph_level2 = Graph(self.get_onnxgraph_by_nodenames(graph_level2))
+        graph_level0 = Graph(self.get_onnxgraph_by_nodenames(graph_level0), ModelConfig())
+        graph_level1 = Graph(self.get_onnxgraph_by_nodenames(graph_level1), ModelConfig())
+        graph_level2 = Graph(self.get_onnxgraph_by_nodenames(graph_level2), ModelConfig())
 
         group_outputs = [graph_level0.output, graph_level1.output, graph_level2.output]
         group_inputs = [graph_level0.input, graph_level1.input, graph_level2.input]
@@ -1063,9 +1063,11 @@ class Graph():
                     intensors.append(input)
 
             for output in self.nodemap[name].output:
+                if len(output) == 0:
+                    continue
                 if remove_initials and output in self.initials:
                     continue
-                if output in self.consumedby:
+                if output in self.consumedby and output not in self.output:
                     consumers = self.consumedby[output]
                     inner = True
                     for consumer in consumers:
-- 
2.43.0


From c0cbcec140360e847d37d9d17c1dcd9e6e879503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 074/124] fix: fusion pattern search checks every connection,
 backtracks and keeps groups disjoint (C12)

---
 onnx_tool/fusion.py | 248 ++++++++++++++++++--------------------------
 1 file changed, 103 insertions(+), 145 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index bdf20e5..d85582e 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -116,7 +116,7 @@ MHAint8_Pattern = [
         'op': 'QuantizeLinear',
         'attrs': [
         ],
-        'inport': [[0, 'Add_0', 0]],
+        'inport': [[0, 'Softmax_0', 0]],
         'outport': [[0, 'MatMul_1', 0]],
     },
     {
@@ -230,10 +230,13 @@ class AttrExpr():
 
     def __call__(self, x):
         if hasattr(x, self.attrname):
+            attr = x.__getattribute__(self.attrname)
+            if attr is None:
+                return False
             if self.idx == -1:
-                return self.logical(x.__getattribute__(self.attrname))
-            else:
-                return self.logical(x.__getattribute__(self.attrname)[self.idx])
+                return self.logical(attr)
+            elif self.idx < len(attr):
+                return self.logical(attr[self.idx])
         return False
 
     def logical(self, attr):
@@ -267,6 +270,8 @@ class NodeCondition():
         else:
             if self.op != 'Any':
                 flag &= node.op_type == self.op
+        if not flag:
+            return False
         for attrexpr in self.attexprs:
             flag &= attrexpr(node)
         return flag
@@ -310,152 +315,105 @@ class FusionPattern():
         self.append_fusion = inplace_fusion
         for desc in nodedescs:
             self.nodedesc[desc['name']] = NodeCondition(desc)
-
-    def search_node(self, nodepair, graph, searched):
-        curdescname = nodepair[0]
-        curnodename = nodepair[1]
-
-        desc = self.nodedesc[curdescname]
-        node = graph.nodemap[curnodename]
-        searched.append(curnodename)
-
-        # expand in nodes
-        invalid = False if len(desc.inport) > 0 else True
-        uppaths = []
-        for inset in desc.inport:
-            inidx = inset[0]
-            indesckey = inset[1]
-            prev_outidx = inset[2]
-            nextdesc = self.nodedesc[indesckey]
-            if inidx == -1:
-                for tname in node.input:
-                    if tname not in graph.producedby:
-                        continue
-                    producer_node = graph.producedby[tname]
-                    for nodename in producer_node:
-                        nodeobject = graph.nodemap[nodename]
-                        if prev_outidx == -1 or nodeobject.output.index(tname) == prev_outidx:
-                            if nextdesc.is_node(nodeobject):
-                                if nodename not in searched:
-                                    invalid, uppath = self.search_node((indesckey, nodename), graph, searched)
-                                    if invalid:
-                                        uppaths.append(uppath)
-                                        break
-                                else:
-                                    invalid = True
-                            else:
-                                invalid = False
-                        else:
-                            invalid = False
-            elif inidx < len(node.input):
-                tname = node.input[inidx]
-                producer_node = graph.producedby[tname]
-                for nodename in producer_node:
-                    nodeobject = graph.nodemap[nodename]
-                    if prev_outidx == -1 or nodeobject.output.index(tname) == prev_outidx:
-                        if nextdesc.is_node(nodeobject):
-                            if nodename not in searched:
-                                invalid, uppath = self.search_node((indesckey, nodename), graph, searched)
-                                if invalid:
-                                    uppaths.append(uppath)
-                                    break
-                            else:
-                                invalid = True
-                        else:
-                            invalid = False
-                    else:
-                        invalid = False
-
-        if not invalid:
-            searched.remove(curnodename)
-            return False, None
-        outpath = []
-        for uppath in uppaths:
-            if uppath is not None:
-                for v in uppath:
-                    outpath.append(v)
-        outpath.append(nodepair)
-
-        outvalid = False if len(desc.outport) > 0 else True
-        downpaths = []
-        for outset in desc.outport:
-            outidx = outset[0]
-            outdescky = outset[1]
-            next_inidx = outset[2]
-            nextdesc = self.nodedesc[outdescky]
-            if outidx == -1:
-                for output in node.output:
-                    if outvalid:
-                        break
-                    if output in graph.consumedby:
-                        consumed_nodes = graph.consumedby[output]
-                        if self.append_fusion and len(consumed_nodes) > 1:
-                            # inpalce_fusion the consumer op will be appended to this op as postop
-                            # it requires that the output of this op is consumed by next op only
-                            continue
-                        for nodename in consumed_nodes:
-                            nodeobject = graph.nodemap[nodename]
-                            if next_inidx == -1 or nodeobject.input.index(output) == next_inidx:
-                                if nextdesc.is_node(nodeobject):
-                                    if nodename not in searched:
-                                        outvalid, downpath = self.search_node((outdescky, nodename), graph, searched)
-                                        if outvalid:
-                                            downpaths.append(downpath)
-                                            break
-                                    else:
-                                        outvalid = True
-
-
-            elif outidx < len(node.output):
-                tname = node.output[outidx]
-                if tname in graph.consumedby:
-                    consumed_nodes = graph.consumedby[tname]
-                    if self.append_fusion and len(consumed_nodes) > 1:
-                        # inpalce_fusion the consumer op will be appended to this op as postop
-                        # it requires that the output of this op is consumed by next op only
-                        continue
-                    for nodename in consumed_nodes:
-                        nodeobject = graph.nodemap[nodename]
-                        if next_inidx == -1 or nodeobject.input.index(tname) == next_inidx:
-                            if nextdesc.is_node(nodeobject):
-                                if nodename not in searched:
-                                    outvalid, downpath = self.search_node((outdescky, nodename), graph, searched)
-                                    if outvalid:
-                                        downpaths.append(downpath)
-                                        break
-                                else:
-                                    outvalid = True
-                                    break
-
-        if outvalid:
-            for downpath in downpaths:
-                if downpath is not None:
-                    for v in downpath:
-                        outpath.append(v)
-            return True, outpath
+        # connections: (producer desc, output index, consumer desc, input index), -1 stands for any index
+        self.links = []
+        for key, desc in self.nodedesc.items():
+            for inidx, prevkey, outidx in desc.inport:
+                self.links.append((prevkey, outidx, key, inidx))
+            for outidx, nextkey, inidx in desc.outport:
+                self.links.append((key, outidx, nextkey, inidx))
+        # every desc follows one it is connected to
+        self.order = [self.first_key]
+        while len(self.order) < len(self.nodedesc):
+            rest = [key for key in self.nodedesc if key not in self.order]
+            linked = [key for key in rest if len(self.__neighbours__(key, self.order))]
+            self.order.append((linked + rest)[0])
+
+    def __neighbours__(self, key, others):
+        return [link for link in self.links
+                if (link[0] == key and link[2] in others) or (link[2] == key and link[0] in others)]
+
+    def __is_linked__(self, graph, found, link):
+        producer = graph.nodemap[found[link[0]]]
+        consumer = graph.nodemap[found[link[2]]]
+        results = producer.output if link[1] == -1 else producer.output[link[1]:link[1] + 1]
+        inputs = consumer.input if link[3] == -1 else consumer.input[link[3]:link[3] + 1]
+        return any(t != '' and t in inputs for t in results)
+
+    def __candidates__(self, graph, found, key):
+        links = self.__neighbours__(key, found)
+        if len(links) == 0:
+            return list(graph.nodemap.keys())
+        candidates = []
+        prevkey, _, nextkey, _ = links[0]
+        if nextkey == key:
+            for t in graph.nodemap[found[prevkey]].output:
+                candidates.extend(graph.consumedby.get(t, []))
         else:
-            searched.remove(curnodename)
-            return False, None
+            for t in graph.nodemap[found[nextkey]].input:
+                candidates.extend(graph.producedby.get(t, []))
+        return list(dict.fromkeys(candidates))
+
+    def __is_fusible__(self, graph, nodes):
+        for name in nodes:
+            for t in graph.nodemap[name].output:
+                consumers = graph.consumedby.get(t, [])
+                outside = [n for n in consumers if n not in nodes]
+                if self.append_fusion and len(outside) < len(consumers):
+                    # inpalce_fusion the consumer op will be appended to this op as postop
+                    # it requires that the output of this op is consumed by next op only
+                    if len(outside) or t in graph.output:
+                        return False
+        # a path that leaves the nodes and comes back would become a cycle
+        todo = []
+        for name in nodes:
+            for t in graph.nodemap[name].output:
+                todo.extend(n for n in graph.consumedby.get(t, []) if n not in nodes)
+        visited = set(todo)
+        while todo:
+            for t in graph.nodemap[todo.pop()].output:
+                for n in graph.consumedby.get(t, []):
+                    if n in nodes:
+                        return False
+                    if n not in visited:
+                        visited.add(n)
+                        todo.append(n)
+        return True
+
+    def search_node(self, nodename, graph, excluded):
+        """names of the nodes that match the pattern with nodename as the first node"""
+        found = {}
+        stack = [iter([nodename])]
+        while len(stack):
+            key = self.order[len(stack) - 1]
+            found.pop(key, None)
+            match = False
+            for name in stack[-1]:
+                if name in excluded or name in found.values():
+                    continue
+                if not self.nodedesc[key].is_node(graph.nodemap[name]):
+                    continue
+                found[key] = name
+                match = all(self.__is_linked__(graph, found, link) for link in self.__neighbours__(key, found))
+                if match:
+                    break
+                found.pop(key)
+            if not match:
+                stack.pop()
+            elif len(stack) < len(self.order):
+                stack.append(iter(self.__candidates__(graph, found, self.order[len(stack)])))
+            elif self.__is_fusible__(graph, list(found.values())):
+                return [found[key] for key in self.nodedesc]
+        return None
 
     def search_pattern(self, graph: Graph):
         ls_nodes = []
-        first_desc = self.nodedesc[self.first_key]
-        self.found_node_names = []
-        self.tmp_names = []
+        self.found_node_names = set()
         for name in graph.nodemap.keys():
-            if name in self.found_node_names:
-                continue
-            node = graph.nodemap[name]
-            if first_desc.is_node(node):
-                searched = []
-                valid, path = self.search_node((self.first_key, name), graph, searched)
-                if valid:
-                    desckeys = list(self.nodedesc.keys())
-                    nodes = ['a'] * len(desckeys)
-                    for val in path:
-                        idx = desckeys.index(val[0])
-                        nodes[idx] = val[1]
-                    ls_nodes.append(nodes)
+            nodes = self.search_node(name, graph, self.found_node_names)
+            if nodes is not None:
+                self.found_node_names.update(nodes)
+                ls_nodes.append(nodes)
         return ls_nodes
 
 
-- 
2.43.0


From 0b568466d5fee15a02c5a65482e60d7761f194b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:08 +0000
Subject: [PATCH 075/124] fix: node removal, skipping and fusing keep graph
 outputs, relations, positions and attributes (C12/C13/C14)

---
 onnx_tool/__init__.py |   6 +-
 onnx_tool/fusion.py   | 100 +++++++++++-----------
 onnx_tool/graph.py    | 193 ++++++++++++++++++------------------------
 3 files changed, 137 insertions(+), 162 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 22db087..f905212 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -185,9 +185,11 @@ def model_opfusion(m, op_type: str, op_name: str, save_file: str, in_tensor_name
     model = loadmodel(m)
     graph = model.graph
     if in_tensor_names is not None and out_tensor_names is not None:
-        graph.fuse_subgraph_iotensors(inputs=in_tensor_names, outputs=out_tensor_names, name=op_name,
+        graph.fuse_subgraph_iotensors(inputs=in_tensor_names, outputs=out_tensor_names, name_prefix=op_name,
                                       nodeop=op_type, keep_attr=keep_attr)
+        graph.graph_reorder_nodes()
         model.save_model(save_file)
     if nodenames is not None:
-        graph.fuse_subgraph_node_names(nodenames, nodeop=op_type, name=op_name, keep_attr=keep_attr)
+        graph.fuse_subgraph_node_names(nodenames, nodeop=op_type, nodename=op_name, keep_attr=keep_attr)
+        graph.graph_reorder_nodes()
         model.save_model(save_file)
diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index d85582e..b0c9fb5 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -354,7 +354,7 @@ class FusionPattern():
                 candidates.extend(graph.producedby.get(t, []))
         return list(dict.fromkeys(candidates))
 
-    def __is_fusible__(self, graph, nodes):
+    def __is_fusible__(self, graph, nodes, groups):
         for name in nodes:
             for t in graph.nodemap[name].output:
                 consumers = graph.consumedby.get(t, [])
@@ -364,24 +364,24 @@ class FusionPattern():
                     # it requires that the output of this op is consumed by next op only
                     if len(outside) or t in graph.output:
                         return False
-        # a path that leaves the nodes and comes back would become a cycle
-        todo = []
-        for name in nodes:
-            for t in graph.nodemap[name].output:
-                todo.extend(n for n in graph.consumedby.get(t, []) if n not in nodes)
-        visited = set(todo)
+        # a path that leaves the nodes and comes back would become a cycle, the groups are going to be fused as well
+        todo = list(nodes)
+        visited = set()
         while todo:
-            for t in graph.nodemap[todo.pop()].output:
+            name = todo.pop()
+            for t in graph.nodemap[name].output:
                 for n in graph.consumedby.get(t, []):
                     if n in nodes:
-                        return False
-                    if n not in visited:
-                        visited.add(n)
-                        todo.append(n)
+                        if name not in nodes:
+                            return False
+                    elif n not in visited:
+                        members = groups.get(n, [n])
+                        visited.update(members)
+                        todo.extend(members)
         return True
 
-    def search_node(self, nodename, graph, excluded):
-        """names of the nodes that match the pattern with nodename as the first node"""
+    def search_node(self, nodename, graph, groups):
+        """names of the nodes that match the pattern with nodename as the first node, beside the nodes of groups"""
         found = {}
         stack = [iter([nodename])]
         while len(stack):
@@ -389,7 +389,7 @@ class FusionPattern():
             found.pop(key, None)
             match = False
             for name in stack[-1]:
-                if name in excluded or name in found.values():
+                if name in groups or name in found.values():
                     continue
                 if not self.nodedesc[key].is_node(graph.nodemap[name]):
                     continue
@@ -402,55 +402,53 @@ class FusionPattern():
                 stack.pop()
             elif len(stack) < len(self.order):
                 stack.append(iter(self.__candidates__(graph, found, self.order[len(stack)])))
-            elif self.__is_fusible__(graph, list(found.values())):
+            elif self.__is_fusible__(graph, list(found.values()), groups):
                 return [found[key] for key in self.nodedesc]
         return None
 
-    def search_pattern(self, graph: Graph):
-        ls_nodes = []
-        self.found_node_names = set()
+    def search_pattern(self, graph: Graph, first_group: [str] = None):
+        ls_nodes = [] if first_group is None else [list(first_group)]
+        groups = {name: nodes for nodes in ls_nodes for name in nodes}
         for name in graph.nodemap.keys():
-            nodes = self.search_node(name, graph, self.found_node_names)
+            nodes = self.search_node(name, graph, groups)
             if nodes is not None:
-                self.found_node_names.update(nodes)
+                groups.update({n: nodes for n in nodes})
                 ls_nodes.append(nodes)
         return ls_nodes
 
 
 def ConvBNFusion(graph: Graph):
-    import math
-    pattern = FusionPattern(ConvBN)
+    def constant(tname):
+        return graph.tensormap[tname].numpy if tname in graph.initials else None
+
+    def add_constant(name, data):
+        while name in graph.tensormap:
+            name += '_'
+        graph.add_initial(name, data)
+        return name
+
+    # the result of the convolution must not be used by other nodes
+    pattern = FusionPattern(ConvBN, inplace_fusion=True)
     node_sets = pattern.search_pattern(graph)
     for nodes in node_sets:
         conv_node = graph.nodemap[nodes[0]]
         bn_node = graph.nodemap[nodes[1]]
-        weight = graph.tensormap[conv_node.input[1]]
-        gamma = graph.tensormap[bn_node.input[1]]
-        beta = graph.tensormap[bn_node.input[2]]
-        mean = graph.tensormap[bn_node.input[3]]
-        var = graph.tensormap[bn_node.input[4]]
-        wshape = weight.shape
-        if len(conv_node.input) == 3:
-            hasbias = True
-            newbias = graph.nodemap[conv_node.input[2]].numpy
-        else:
-            hasbias = False
-            newbias = numpy.zeros((wshape[0],), dtype=numpy.float32)
-        for i in range(wshape[0]):
-            sm = gamma.numpy[i] / math.sqrt(var.numpy[i] + bn_node.epsilon)
-            sv = beta.numpy[i]
-            for j in range(wshape[1]):
-                for k in range(wshape[2]):
-                    for l in range(wshape[3]):
-                        weight.numpy[i, j, k, l] = sm * weight.numpy[i, j, k, l]
-            newbias[i] = sm * (newbias[i] - mean.numpy[i]) + sv
-        weight.update_proto(weight.numpy)
-        newbiasname = conv_node.name + "_bias_"
-        graph.add_initial(newbiasname, newbias)
-        graph.remove_node(nodes[1])
+        hasbias = len(conv_node.input) == 3 and conv_node.input[2] != ''
+        params = [constant(t) for t in conv_node.input[1:2] + bn_node.input[1:5]]
         if hasbias:
-            conv_node.input[2] = newbiasname
-        else:
-            conv_node.input.append(newbiasname)
-        graph.producedby[bn_node.output[0]] = [conv_node.name]
+            params.append(constant(conv_node.input[2]))
+        if any(not isinstance(p, numpy.ndarray) for p in params):
+            continue  # not known before run time
+        if len([o for o in bn_node.output if o != '']) > 1 or getattr(bn_node, 'training_mode', 0):
+            continue
+        weight, gamma, beta, mean, var = params[:5]
+        bias = params[5] if hasbias else numpy.zeros((weight.shape[0],))
+        scale = gamma.astype(numpy.float64) / numpy.sqrt(var.astype(numpy.float64) + bn_node.epsilon)
+        newweight = weight * scale.reshape((-1,) + (1,) * (weight.ndim - 1))
+        newbias = (bias - mean) * scale + beta
+        # the constants may be shared with other nodes
+        conv_node.input[1] = add_constant(conv_node.name + "_weight_", newweight.astype(weight.dtype))
+        conv_node.input[2:] = [add_constant(conv_node.name + "_bias_", newbias.astype(weight.dtype))]
+        graph.nodemap.pop(nodes[1])
         conv_node.output[0] = bn_node.output[0]
+    graph.update_tensor_relations()
diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index e47b09d..86c6e9c 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -265,13 +265,13 @@ class Graph():
             self.dynamics.extend(self.input)
             for name in self.nodemap.keys():
                 for tname in _read_tensors(self.nodemap[name]):
-                    if tname not in self.initials and tname not in self.dynamics:
+                    if tname != '' and tname not in self.initials and tname not in self.dynamics:
                         self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
                     if tname not in self.dynamics:
                         self.dynamics.append(tname)
 
-        valid_tensors = []
+        valid_tensors = ['']  # stands for omitted optional inputs
         valid_tensors.extend(self.initials)
         valid_tensors.extend(self.dynamics)
         rm_list = []
@@ -616,7 +616,8 @@ class Graph():
 
     def add_initial(self, name, data):
         from .tensor import create_initial_Tensor
-        self.initials.append(name)
+        if name not in self.initials:
+            self.initials.append(name)
         if isinstance(data, numpy.ndarray):
             self.tensormap[name] = create_initial_Tensor(name, data)
         else:
@@ -696,64 +697,40 @@ class Graph():
         # update consumer
         for i in _read_tensors(node):
             if i in self.consumedby.keys():
-                if len(self.consumedby[i]) == 1 and i in self.producedby:
-                    pnode = self.producedby[i][0]
-                    assert (len(self.producedby[i]) == 1)
-                    dangle_node = True
-                    for o in self.nodemap[pnode].output:
-                        if o == i:
-                            continue
-                        if o in self.consumedby.keys() or o in self.output:
-                            dangle_node = False
-                            break
-                    if dangle_node:
-                        newnodes.append(pnode)
                 if nodename in self.consumedby[i]:
                     self.consumedby[i].remove(nodename)
                 if len(self.consumedby[i]) == 0:
                     self.consumedby.pop(i)
+                    if i != '':
+                        newnodes.extend(self.producedby.get(i, []))
         self.nodemap.pop(nodename)
-        if recursive:
-            for node in newnodes:
-                self.remove_node(node)
-
-    def remove_subtree(self, nodename, nodeset=None):
-        if nodeset is not None:
-            if nodename in self.nodemap:  # may be already removed?
-                node = self.nodemap[nodename]
-
-                for n in node.nextnodes:
-                    nodeset.add(n.name)
-                    nodeset.union(self.remove_subtree(n.name, nodeset))
-                return nodeset
-            return nodeset
-
-        nodeset = set()
-        nodeset.add(nodename)
-        nodeset.union(self.remove_subtree(nodename, nodeset))
-
-        for node in nodeset:
-            if node not in self.nodemap:
-                continue
-            self.remove_node(node)
+        while recursive and len(newnodes):
+            name = newnodes.pop()
+            if name in self.nodemap and not self.__is_node_used__(name):
+                newnodes.extend(p for t in _read_tensors(self.nodemap[name]) if t != '' for p in self.producedby.get(t, []))
+                self.remove_node(name)
+
+    def __is_node_used__(self, nodename):
+        return any(o != '' and (o in self.output or o in self.consumedby) for o in self.nodemap[nodename].output)
+
+    def remove_subtree(self, nodename):
+        if nodename not in self.nodemap:  # may be already removed?
+            return
+        subtree = [nodename]
+        for name in subtree:
+            for o in self.nodemap[name].output:
+                if o != '':
+                    subtree.extend(n for n in dict.fromkeys(self.consumedby.get(o, [])) if n not in subtree)
+
+        for name in subtree:
+            self.remove_node(name)
 
     def remove_dangling_nodes(self):
         try_to_remove = True
         while try_to_remove:
             try_to_remove = False
             for nodename in list(self.nodemap.keys()):
-                node = self.nodemap[nodename]
-                node_used = False
-                for o in node.output:
-                    if o in self.output:
-                        node_used = True
-
-                for nnode in node.nextnodes:
-                    if nnode.name in self.nodemap:
-                        node_used = True
-                        break
-
-                if node_used:
+                if nodename not in self.nodemap or self.__is_node_used__(nodename):
                     continue
 
                 self.remove_node(nodename, recursive=True)
@@ -763,63 +740,75 @@ class Graph():
         node = self.nodemap[nodename]
         count = 0
         for input in node.input:
-            if input in self.dynamics:
+            if input != '' and input in self.dynamics:
                 count += 1
                 indtensor = input
-        if count == 1 and len(node.output) == 1:
-            self.consumedby[indtensor].remove(nodename)
-            if node.output[0] in self.consumedby:
-                for con in self.consumedby[node.output[0]]:
-                    con_node = self.nodemap[con]
-                    for i in range(len(con_node.input)):
-                        if con_node.input[i] == node.output[0]:
-                            con_node.input[i] = indtensor
-                            self.consumedby[indtensor].append(con)
-                            break
-            else:
-                for pro in self.producedby[indtensor]:
-                    pro_node = self.nodemap[pro]
-                    assert (len(pro_node.output) == 1)
-                    pro_node.output[0] = node.output[0]
+        if count != 1 or len(node.output) != 1:
+            warnings.warn(f'{nodename} has not exactly one dynamic input and one output, it can not be skipped.')
+            return
+        outtensor = node.output[0]
+        if outtensor not in self.output:
+            oldname, newname = outtensor, indtensor
+        elif indtensor in self.producedby and indtensor not in self.output:
+            # the producer of the input produces the graph output
+            oldname, newname = indtensor, outtensor
+        else:
+            warnings.warn(f'{nodename} connects a graph input to a graph output, it can not be skipped.')
+            return
+        consumers = [n for n in dict.fromkeys(self.consumedby.get(oldname, [])) if n != nodename]
+        if any(oldname in _outer_tensors(self.nodemap[n]) for n in consumers):
+            warnings.warn(f'{oldname} is used inside of a subgraph, {nodename} can not be skipped.')
+            return
+        for name in consumers + self.producedby.get(oldname, []):
+            other = self.nodemap[name]
+            other.input = [newname if t == oldname else t for t in other.input]
+            other.output = [newname if t == oldname and name != nodename else t for t in other.output]
         self.nodemap.pop(nodename)
+        self.__update_consumer_producer__()
 
     def fuse_subgraph_node_names(self, nodes: [str], nodeop: str, nodename: str, keep_attr=True):
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
+        while nodename in self.nodemap and nodename not in nodes:
+            nodename += '_fused'
         newnode_prot = onnx.helper.make_node(nodeop, _inputs, _outputs, name=nodename)
         count = 0
         if keep_attr:
             for node in nodes:
-                for attribute in self.nodemap[node].proto.attribute:
-                    attr = onnx.helper.make_attribute(
-                        self.nodemap[node].proto.op_type + str(count) + '_' + attribute.name,
-                        get_attribute_data(attribute))
-                    newnode_prot.attribute.append(attr)
+                for attribute in self.nodemap[node].make_nodeproto().attribute:
+                    attribute.name = self.nodemap[node].op_type + str(count) + '_' + attribute.name
+                    newnode_prot.attribute.append(attribute)
                 count += 1
-        from .node import create_node
+        self.__replace_nodes__(nodes, newnode_prot)
+
+    def __replace_nodes__(self, nodes, newnode_prot):
+        graph_outputs = list(self.output)
         for name in nodes:
             self.remove_node(name)
+        self.output = graph_outputs
         newnode = create_node(newnode_prot)
-        newnode.input = _inputs
-        newnode.output = _outputs
-        for i in _inputs:
-            if i in self.consumedby:
-                self.consumedby[i].append(nodename)
-            else:
-                self.consumedby[i] = [nodename]
-            if i in self.producedby.keys():
-                newnode.prevnodes.append(self.producedby[i])
-        for o in _outputs:
-            self.producedby[o] = [nodename]
-            if o in self.consumedby.keys():
-                newnode.nextnodes.append(self.consumedby[o])
-        self.nodemap[nodename] = newnode
+        newnode.input = list(newnode_prot.input)
+        newnode.output = list(newnode_prot.output)
+        newnode.shape_calc = False
+        self.nodemap[newnode.name] = newnode
+        for i in _read_tensors(newnode):
+            self.consumedby.setdefault(i, []).append(newnode.name)
+        for o in newnode.output:
+            self.producedby.setdefault(o, []).append(newnode.name)
 
     def fuse_postop_node_names(self, nodes: [str], append_attr: bool, **extrakeys):
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
         mainnode = self.nodemap[nodes[0]]
-        newnode = onnx.helper.make_node(mainnode.op_type, _inputs, _outputs, name=mainnode.name)
+        # the main operator keeps its input and output positions
+        _inputs = [t for t in mainnode.input if t == '' or t in _inputs] + [t for t in _inputs if t not in mainnode.input]
+        results = [t for t in _outputs if t not in mainnode.output]
+        _outputs = [t if t == '' or t in _outputs else results.pop(0) if len(results) else '' for t in mainnode.output]
+        _outputs.extend(results)
+        while len(_outputs) and _outputs[-1] == '':
+            _outputs.pop()
+        newnode = onnx.helper.make_node(mainnode.op_type, _inputs, _outputs, name=mainnode.name,
+                                        domain=getattr(mainnode.proto, 'domain', '') or None)
         count = 0
-        for attr in mainnode.proto.attribute:
+        for attr in mainnode.make_nodeproto().attribute:
             if attr.name == 'postop_count':
                 count = onnx.helper.get_attribute_value(attr)
             else:
@@ -837,38 +826,24 @@ class Graph():
                 attr = onnx.helper.make_attribute(
                     'postop_' + str(count), pnode.op_type)
                 newnode.attribute.append(attr)
-                for attribute in pnode.proto.attribute:
-                    attr = onnx.helper.make_attribute(
-                        'postop_' + str(count) + '_' + attribute.name,
-                        get_attribute_data(attribute))
-                    newnode.attribute.append(attr)
+                for attribute in pnode.make_nodeproto().attribute:
+                    attribute.name = 'postop_' + str(count) + '_' + attribute.name
+                    newnode.attribute.append(attribute)
                 count += 1
 
         attr = onnx.helper.make_attribute('postop_count', count)
         newnode.attribute.append(attr)
 
-        for name in nodes:
-            self.remove_node(name)
-        newnode = create_node(newnode)
-        newnode.input = _inputs
-        newnode.output = _outputs
-        for i in _inputs:
-            if i in self.consumedby.keys():
-                self.consumedby[i].append(mainnode.name)
-            if i in self.producedby.keys():
-                newnode.prevnodes.append(self.producedby[i])
-        for o in _outputs:
-            self.producedby[o] = [mainnode.name]
-            if o in self.consumedby.keys():
-                newnode.nextnodes.append(self.consumedby[o])
-        self.nodemap[mainnode.name] = newnode
+        self.__replace_nodes__(nodes, newnode)
 
     def fuse_subgraph_iotensors(self, inputs: [], outputs: [], nodeop: str, name_prefix: str = None, keep_attr=True):
         _, nodes, _ = self.__get_subnodes_byio__(inputs, outputs)
         from .fusion import create_descs_from_nodenames, FusionPattern
+        if len(nodes) == 0:
+            return
         descs = create_descs_from_nodenames(self, nodes)
         pattern = FusionPattern(descs)
-        nodesls = pattern.search_pattern(self)
+        nodesls = pattern.search_pattern(self, nodes)
         for i, nodes in enumerate(nodesls):
             name = name_prefix + '_' + str(i) if name_prefix is not None else nodes[0]
             self.fuse_subgraph_node_names(nodes, nodeop, name, keep_attr)
-- 
2.43.0


From 094e710475c1b563b36d9e731e848fda4d2c345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 076/124] fix: updating a graph does not list its tensors twice
 (C14)

---
 onnx_tool/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 86c6e9c..d9c928e 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -261,8 +261,9 @@ class Graph():
                         self.initials.append(tname)
         else:
             for initial in self.rawgraph.initializer:
-                self.initials.append(initial.name)
-            self.dynamics.extend(self.input)
+                if initial.name not in self.initials:
+                    self.initials.append(initial.name)
+            self.dynamics.extend(name for name in self.input if name not in self.dynamics)
             for name in self.nodemap.keys():
                 for tname in _read_tensors(self.nodemap[name]):
                     if tname != '' and tname not in self.initials and tname not in self.dynamics:
-- 
2.43.0


From 8597ec0e3e4b70c657fc55e8333a29787fa53d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 077/124] fix: dynamic shape engine distinguishes floor from
 ceil, fits offsets and picks an exact source (C15)

---
 onnx_tool/graph.py | 57 +++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index d9c928e..ac2da54 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -104,7 +104,11 @@ class ValueExpr():
         lastidx = len(srcrange) - 1
         srclen = srcrange[lastidx] - srcrange[0]
         dstlen = dstrange[lastidx] - dstrange[0]
-        if srclen <= dstlen:
+        if srclen == 0 or dstlen == 0:
+            self.alpha = 0
+            self.beta = dstrange[lastidx]
+            return
+        if abs(srclen) <= abs(dstlen):
             self.factor = 0
             self.alpha = round(dstlen / srclen)
             self.beta = round(dstrange[lastidx] - srcrange[lastidx] * self.alpha)
@@ -113,12 +117,21 @@ class ValueExpr():
             self.alpha = round(srclen / dstlen)
             self.beta = round(dstrange[lastidx] - srcrange[lastidx] / self.alpha)
 
-        test = [self.__call__(x) for x in srcrange]
-        diff = 0
-        for x0, x1 in zip(test, dstrange):
-            diff += x0 - x1
-        if diff != 0:
-            self.truncmode = 1
+        for self.truncmode in (0, 1):
+            if self.error(srcrange, dstrange) == 0:
+                return
+        # floor((x + offset) / alpha), the offset is the same for all samples
+        maxalpha = 2 * abs(srclen)
+        if abs(dstlen) > 1:
+            maxalpha = abs(srclen) // (abs(dstlen) - 1) + 1
+        for alpha in range(max(1, abs(srclen) // (abs(dstlen) + 1)), maxalpha + 1):
+            low = max(alpha * d - s for s, d in zip(srcrange, dstrange))
+            high = min(alpha * d - s for s, d in zip(srcrange, dstrange)) + alpha - 1
+            if low <= high:
+                self.factor = 1
+                self.alpha = alpha
+                self.beta = (low + 0.5) / alpha  # never close to an integer before truncation
+                return
 
     def __call__(self, x):
         if self.factor == 0:
@@ -1158,7 +1171,7 @@ class Graph():
             maxshape = maxtensormap[key].shape
             for i, a in zip(minshape, maxshape):
                 if i == a:
-                    shape_desc.append(i)
+                    shape_desc.append(int(i))
                 else:
                     shape_desc.append('')
             shapeengine.add_tensor_desc(key, shape_desc)
@@ -1167,14 +1180,15 @@ class Graph():
         for key in input_range.keys():
             minv = input_range[key][0]
             maxv = input_range[key][1]
-            vranges = [(minv + maxv) // 2, maxv]
+            # neighbouring values tell floor from ceil and the offset of a division
+            vranges = sorted({*range(minv + 1, min(minv + 33, maxv)), (minv + maxv) // 2, maxv})
             shapes_range = []
 
             for val in vranges:
                 shapeengine.update_variable(key, val)
                 tmpinputs = shapeengine.generate_input()
                 self.shape_infer(tmpinputs)
-                shapes_range.append(self.get_dynamic_tensors())
+                shapes_range.append({name: list(self.tensormap[name].shape) for name in mintensormap})
 
             shapeengine.update_variable(key, input_range[key][0])
             srcrange = [minv, ] + vranges
@@ -1195,9 +1209,9 @@ class Graph():
             for vkey in mintensormap.keys():
                 if vkey in input_desc.keys():
                     continue
-                shapes = [mintensormap[vkey].shape, shapes_range[0][vkey].shape, shapes_range[1][vkey].shape]
+                shapes = [mintensormap[vkey].shape] + [shapes[vkey] for shapes in shapes_range]
                 for i in range(len(shapes[0])):
-                    if shapes[0][i] != shapes[1][i] or shapes[0][i] != shapes[2][i]:
+                    if any(shape[i] != shapes[0][i] for shape in shapes):
                         newrange = [val[i] for val in shapes]
                         idx = range_in_rangelist(newrange, dstranges)
                         if idx == -1:
@@ -1212,15 +1226,16 @@ class Graph():
                                                 srcvalkey.append(ele)
                             dstranges.append(newrange)
                             vidx = vcount + len(dstranges) - 1
-                            if len(srcvalkey) == 0:
-                                expr = ValueExpr(dstranges[0], newrange)
-                                err = expr.error(dstranges[0], newrange)
-                                srckey = key
-                            else:
-                                # TODO multiple src variables comparison
-                                srckey = srcvalkey[0]
-                                expr = ValueExpr(tensor_range_map[srckey], newrange)
-                                err = expr.error(tensor_range_map[srckey], newrange)
+                            # variables of the producer's inputs first, then the input variable and all the others
+                            err = -1
+                            for candkey in dict.fromkeys(srcvalkey + [key] + list(tensor_range_map.keys())):
+                                candrange = tensor_range_map.get(candkey, dstranges[0])
+                                candexpr = ValueExpr(candrange, newrange)
+                                canderr = candexpr.error(candrange, newrange)
+                                if err < 0 or canderr < err:
+                                    srckey, expr, err = candkey, candexpr, canderr
+                                if err == 0:
+                                    break
                             if err > 0:
                                 warnings.warn(f'src key {srckey} dst key {vidx} error:{err}')
 
-- 
2.43.0


From 4c56d4272a2e7338a43647057fbff8ff116d281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:11 +0000
Subject: [PATCH 078/124] fix: MaxPool infers the shape and type of its indices
 output (C02)

---
 onnx_tool/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 77d1f47..e03a7b9 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1499,6 +1499,9 @@ class PoolBase(Node):
                 ]
         outtensors[0].update_shape(outshape)
         outtensors[0].update_dtype(intensors[0].dtype)
+        if len(outtensors) > 1:  # indices of the selected elements
+            outtensors[1].update_shape(outshape)
+            outtensors[1].update_dtype(numpy.int64)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outshape = outtensors[0].get_shape()
-- 
2.43.0


From 378944afba5773c4283533ac4c40ce645528d8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:11 +0000
Subject: [PATCH 079/124] fix: shape inference does not give omitted optional
 inputs a value that is then saved (C07)

---
 onnx_tool/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 9a59fed..468953a 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -422,6 +422,8 @@ class Tensor():
         if self.numpy is not None:
             if same_shape(self.numpy.shape, self.shape):
                 return self.numpy
+        if self.name == '':  # omitted optional input, it has no value
+            return numpy.zeros(self.shape, dtype=self.dtype)
         self.numpy = numpy.zeros(self.shape, dtype=self.dtype)
         return self.numpy
 
-- 
2.43.0


From 1f9cc84144825a41f03fbf9a095e630bcf930b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 080/124] fix: compute graph keeps exported and data-computing
 nodes and is independent of its source (C16)

---
 onnx_tool/graph.py | 87 ++++++++++++++++++++++------------------------
 1 file changed, 41 insertions(+), 46 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index ac2da54..b60e581 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -70,9 +70,9 @@ def _read_tensors(node):
     return list(node.input) + [t for t in _outer_tensors(node) if t not in node.input]
 
 
-def _contains_shape_tensor(n):
+def _shape_tensor_indices(n):
     nodeset = _SHAPE_TENSORS.keys()
-    shape_tensors = []
+    indices = []
     if n.op_type in nodeset:
         tensor_descs = _SHAPE_TENSORS[n.op_type]
         for desc in tensor_descs:
@@ -80,10 +80,12 @@ def _contains_shape_tensor(n):
             indice = strs[0]
             count = int(strs[1])
             if len(n.input) == count:
-                indistr = indice.split(',')
-                for istr in indistr:
-                    shape_tensors.append(n.input[int(istr)])
-    return shape_tensors
+                indices.extend(int(istr) for istr in indice.split(','))
+    return indices
+
+
+def _contains_shape_tensor(n):
+    return [n.input[i] for i in _shape_tensor_indices(n)]
 
 
 class ValueExpr():
@@ -1455,51 +1457,44 @@ class Graph():
 
     def get_compute_graph(self):
         cg = copy.copy(self)
-        nodes = []
-        rmnodes = []
-        for key in cg.nodemap.keys():
-            node = cg.nodemap[key]
-            if node.shape_calc:
-                rmnodes.append(key)
-                continue
-            dummy_node = True
-            for output in node.output:
-                dummy = True
-                if output in cg.consumedby.keys():
-                    for consumer in cg.consumedby[output]:
-                        if not cg.nodemap[consumer].shape_calc:
-                            dummy = False
-                            break
-                else:
-                    dummy = False
-                dummy_node = dummy_node and dummy
-            if dummy_node:
-                rmnodes.append(key)
-                searchnodes = [key]
-                while len(searchnodes) > 0:
-                    this_node = self.nodemap[searchnodes[0]]
-                    searchnodes.pop(0)
-                    for input in this_node.input:
-                        if input in self.producedby:
-                            if len(self.consumedby[input]) == 1:
-                                pnodename = self.producedby[input][0]
-                                if pnodename not in rmnodes:
-                                    rmnodes.append(pnodename)
-                                searchnodes.append(pnodename)
-                continue
-            nodes.append(node.name)
+        # nodes, tensors and relations of the compute graph are independent of this graph
+        cg.nodemap = {}
+        for name, node in self.nodemap.items():
+            cgnode = copy.copy(node)
+            cgnode.input = list(node.input)
+            cgnode.output = list(node.output)
+            cgnode.attr = dict(node.attr)
+            cg.nodemap[name] = cgnode
+        cg.tensormap = {name: copy.copy(tensor) for name, tensor in self.tensormap.items()}
+        cg.producedby = {name: list(nodes) for name, nodes in self.producedby.items()}
+        cg.consumedby = {name: list(nodes) for name, nodes in self.consumedby.items()}
+        cg.input = list(self.input)
+        cg.output = list(self.output)
+        cg.initials = list(self.initials)
+
+        # keep all nodes whose results reach an output, not only the shape operand of other nodes
+        searchtensors = list(cg.output)
+        for node in cg.nodemap.values():
+            searchtensors.extend(output for output in node.output
+                                 if output != '' and output not in cg.consumedby)
+        keepnodes = set()
+        while len(searchtensors) > 0:
+            for name in cg.producedby.get(searchtensors.pop(), []):
+                if name in keepnodes:
+                    continue
+                keepnodes.add(name)
+                node = cg.nodemap[name]
+                shape_inputs = _shape_tensor_indices(node)
+                searchtensors.extend(t for i, t in enumerate(_read_tensors(node)) if t != '' and i not in shape_inputs)
+        rmnodes = [key for key in cg.nodemap.keys() if key not in keepnodes]
         self.log(f'Total Nodes:{len(cg.nodemap)} Removed Shape Nodes:{len(rmnodes)}')
         for key in rmnodes:
             cg.remove_node(key)
         self.log(f'Compute Graph Nodes:{len(cg.nodemap)}')
 
-        cg.dynamics = []
-        cg.dynamics.extend(cg.input)
-        cg.dynamics.extend(cg.output)
-        for name in cg.nodemap.keys():
-            for output in cg.nodemap[name].output:
-                if name not in cg.dynamics:
-                    cg.dynamics.append(output)
+        cg.dynamics = list(dict.fromkeys(cg.input + cg.output))
+        for node in cg.nodemap.values():
+            cg.dynamics.extend(output for output in node.output if output != '' and output not in cg.dynamics)
 
         return cg
 
-- 
2.43.0


From 61a0c00d682371763024de68c80ad4c214433797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 081/124] fix: model_profile does not modify the hidden
 operator set (C17/C18)

---
 onnx_tool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index f905212..4795580 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -86,7 +86,7 @@ def model_profile(m, dynamic_shapes: {str: tuple} = None,
         all_ops = {op.name for op in get_all_schemas()}
         for item in exclude_ops:
             assert item in all_ops, f"Provided exclude op is not a valid onnx op: {item}"
-        hidden_ops.update(exclude_ops)
+        hidden_ops = set(hidden_ops or ()) | set(exclude_ops)
     gtmr.start()
     g.shape_infer(dynamic_shapes)
     g.log(f'infered all tensor shapes, time cost {gtmr.stop():.3f} s')
-- 
2.43.0


From 46a8c2bb2c2dfd8fc30265ef2e6d72b3902ed393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 082/124] fix: CSV tables quote names with separators (C17)

---
 onnx_tool/utils.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/onnx_tool/utils.py b/onnx_tool/utils.py
index 2e6311b..66b7cd8 100644
--- a/onnx_tool/utils.py
+++ b/onnx_tool/utils.py
@@ -1,3 +1,4 @@
+import csv
 import time
 import warnings
 from tabulate import tabulate
@@ -54,21 +55,10 @@ def print_table(ptable, header, f):
     else:
         fp = open(f, 'w')
         if saveformat == 'csv':
-            headerstr = ''
-            for i, item in enumerate(header):
-                headerstr += item
-                if i < len(header) - 1:
-                    headerstr += ','
-            headerstr += '\n'
-            fp.write(headerstr)
-            for row in ptable:
-                str = ''
-                for i, ele in enumerate(row):
-                    str += ele
-                    if i != len(row) - 1:
-                        str += ','
-                str += '\n'
-                fp.write(str)
+            # names with separators or quotes are quoted
+            writer = csv.writer(fp, lineterminator='\n')
+            writer.writerow(header)
+            writer.writerows(ptable)
         else:
             fp.write(tabulate(ptable, headers=header))
         fp.close()
-- 
2.43.0


From 92459731f529aa069a8707a956b7c7ed4d2a5a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 083/124] fix: profile tables list the profiled nodes in order
 and count distinct parameters of profiled nodes (C17)

---
 onnx_tool/graph.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index b60e581..4e6cc58 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1506,8 +1506,9 @@ class Graph():
         self.macs = [0.0, 0.0]
         self.params = 0
         self.memory = 0
-        ops_to_cover = {k for k, v in self.nodemap.items() if v.op_type not in exclude_ops} if exclude_ops else self.nodemap.keys()
-        for key in ops_to_cover:
+        self.profiled_nodes = [k for k, v in self.nodemap.items() if not exclude_ops or v.op_type not in exclude_ops]
+        static_tensors = {}
+        for key in self.profiled_nodes:
             node = self.nodemap[key]
             itensors = []
             _params = 0
@@ -1529,6 +1530,7 @@ class Graph():
             macs = ret[0]
             # params: sum of all static input volumes (not deduped)
             _params = sum(volume(itensors[i].get_shape()) for i in node.static_inputs)
+            static_tensors.update((itensors[i].name, itensors[i]) for i in node.static_inputs)
             io_elesize = self.tensormap[node.output[0]].get_elementsize() if node.output else 4
             static_elesize = self.tensormap[node.input[0]].get_elementsize() if node.input else 4
             _memory = ret[1] * io_elesize + ret[2] * static_elesize
@@ -1553,10 +1555,7 @@ class Graph():
             self.memory += _memory
 
         # Dedup params: sum each static tensor's volume only once
-        self.dedup_params = 0
-        for key in self.initials:
-            if key in self.consumedby and len(self.consumedby[key]) > 0:
-                self.dedup_params += volume(self.tensormap[key].get_shape())
+        self.dedup_params = sum(volume(tensor.get_shape()) for tensor in static_tensors.values())
 
         self.valid_profile = True
 
@@ -1608,7 +1607,8 @@ class Graph():
         params += 1e-18
         memory += 1e-18
         forward_macs += 1e-18
-        ops_to_cover = {k for k, v in self.nodemap.items() if v.op_type not in exclude_ops} if exclude_ops else self.nodemap.keys()
+        ops_to_cover = [k for k in self.profiled_nodes
+                        if not exclude_ops or self.nodemap[k].op_type not in exclude_ops]
         for key in ops_to_cover:
             node = self.nodemap[key]
             row = [key, self.nodemap[key].op_type]
-- 
2.43.0


From 6fcc063e374058370c7b9617cc447ab75209ac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:24 +0000
Subject: [PATCH 084/124] fix: sparse block search reports a block that has the
 reported ratio (C25)

---
 onnx_tool/tensor.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 468953a..9ddcb28 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -235,7 +235,8 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
         validsize = 1
         prevalid0 = True
         prevalid1 = True
-        validratio = ratio
+        validratio0 = ratio
+        validratio1 = ratio
         while True:
             # try axis=1
             if prevalid1 and arr.shape[1] % initsize == 0:
@@ -245,7 +246,7 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
                 ratio1 = (arrsum == initsize).sum() / arrsum.size
                 if ratio1 > ratio - deltar_thres:
                     valid1 = True
-                    validratio = ratio1
+                    validratio1 = ratio1
                 else:
                     valid1 = False
             else:
@@ -259,7 +260,7 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
                 ratio0 = (arrsum == initsize).sum() / arrsum.size
                 if ratio0 > ratio - deltar_thres:
                     valid0 = True
-                    validratio = ratio0
+                    validratio0 = ratio0
                 else:
                     valid0 = False
             else:
@@ -281,7 +282,10 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
             if ratios > ratio - deltar_thres:
                 return (validsize, validsize), ratios
 
-        return (validsize if prevalid0 else 1, validsize if prevalid1 else 1), validratio
+        # only the axes still valid at the last size describe it
+        if prevalid0 and (not prevalid1 or validratio0 > validratio1):
+            return (validsize, 1), validratio0
+        return (1, validsize), validratio1
 
     if len(arr.shape) == 4:  # conv2d
         initsize = 2
@@ -334,7 +338,7 @@ def search_sparse_blocksize(arr, ratio, deltar_thres=0.1):
             ratios = (arrsum == (validsize * validsize)).sum() / arrsum.size
             if ratios > ratio - deltar_thres:
                 return (validsize, validsize), ratios
-        if validratio0 > validratio1:
+        if prevalid0 and (not prevalid1 or validratio0 > validratio1):
             return (validsize, 1), validratio0
         return (1, validsize), validratio1
 
-- 
2.43.0


From 1f1b73e17638ff4a9c3530c9a3532ebaa597b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 085/124] fix: quantization: code range follows the bit width,
 zero ranges do not divide by zero

---
 onnx_tool/quantization.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 6b2781f..11689e1 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -37,6 +37,9 @@ def find_min_max(f32: numpy.ndarray, block):
 def get_symmetric_parameter(fmin, fmax, bits):
     alpha = max(abs(fmin), abs(fmax))
     scale = alpha / (2 ** (bits - 1) - 1)
+    if scale < numpy.finfo(numpy.float32).tiny:
+        # nothing to scale: every value is quantized to 0
+        scale = 1.
     return scale, 0
 
 
@@ -45,16 +48,19 @@ def get_asymmetric_u8_parameter(fmin, fmax, bits):
     fmax = max(fmax, 0)
     delta = fmax - fmin
     scale = delta / (2 ** bits - 1)
+    if scale < numpy.finfo(numpy.float32).tiny:
+        # nothing to scale: every value is quantized to the zero point
+        return 1., 0
     zp = round(-fmin / scale)
     return scale, zp
 
 
-def symmetric_quant(fval, scale, *agrs):
-    return numpy.clip(round(fval / scale), -128, 127)
+def symmetric_quant(fval, scale, zp=0, bits=8):
+    return numpy.clip(round(fval / scale), -2 ** (bits - 1), 2 ** (bits - 1) - 1)
 
 
-def asymmetric_quant(fval, scale, zp):
-    return numpy.clip(round(fval / scale) + zp, 0, 255)
+def asymmetric_quant(fval, scale, zp, bits=8):
+    return numpy.clip(round(fval / scale) + zp, 0, 2 ** bits - 1)
 
 
 def symmetric_dequant(qval, scale, *agrs):
@@ -77,7 +83,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
         scale, zp = get_param(fmin, fmax, bits)
         for i in numpy.ndindex(*f32.shape):
-            Q[i] = quant_val(f32[i], scale, zp)
+            Q[i] = quant_val(f32[i], scale, zp, bits)
         return Q, numpy.array(scale), numpy.array(zp)
     if len(fmin.shape) == 1:
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
@@ -86,7 +92,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
         for i in range(len(fmin)):
             scale[i], zp[i] = get_param(fmin[i], fmax[i], bits)
         for i in numpy.ndindex(*f32.shape):
-            Q[i] = quant_val(f32[i], scale[i[0]], zp[i[0]])
+            Q[i] = quant_val(f32[i], scale[i[0]], zp[i[0]], bits)
         return Q, scale, zp
     if len(fmin.shape) == 2:
         Q = numpy.zeros_like(f32, dtype=numpy.int32)
@@ -96,7 +102,7 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
             scale[i], zp[i] = get_param(fmin[i], fmax[i], bits)
         for i in numpy.ndindex(*f32.shape):
             blk_idx = i[1] // block
-            Q[i] = quant_val(f32[i], scale[i[0], blk_idx], zp[i[0], blk_idx])
+            Q[i] = quant_val(f32[i], scale[i[0], blk_idx], zp[i[0], blk_idx], bits)
         return Q, scale, zp
 
 def pack_4bits(Q_int:numpy.ndarray):
-- 
2.43.0


From 573fc2f579dafec1ccc5dfaeb9fe27197d634a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 086/124] fix: pack_4bits keeps the last value of odd rows and
 bit 3 of unsigned codes

---
 onnx_tool/quantization.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 11689e1..9ea9a2b 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -106,16 +106,17 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
         return Q, scale, zp
 
 def pack_4bits(Q_int:numpy.ndarray):
+    if Q_int.shape[-1] % 2:
+        # the last byte of an odd row carries one value
+        Q_int = numpy.pad(Q_int, [(0, 0)] * (Q_int.ndim - 1) + [(0, 1)])
     shape=Q_int.shape
     s4shape=list(shape)
     s4shape[-1]=shape[-1]//2
     s4arr=numpy.ones(s4shape,dtype=numpy.uint8)
     import ctypes
     def cvt_s8bits_to_s4bits(v8):
-        sigbit=v8&0x80
-        sigbit=sigbit>>4
-        v8=v8&0x7
-        return v8|sigbit
+        # low 4 bits of the two's complement: right for signed and unsigned values
+        return v8&0xF
     for i in numpy.ndindex(*s4shape):
         rawi=list(i)
         rawi[-1]*=2
-- 
2.43.0


From 3650ce8376df52b7671a2ac5097a7482fac9dfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 087/124] fix: graph_quantize handles shared, repeated,
 conditional and output weights consistently

---
 onnx_tool/quantization.py | 57 +++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 9ea9a2b..eac7540 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -143,14 +143,25 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
         return
     if f32arr.dtype is not numpy.float32:
         f32arr = f32arr.astype(numpy.float32)
-    name=g.consumedby[tname][0]
-    node=g.nodemap[name]
-    if isinstance(node,onnx_tool.node.GemmNode):
-        if node.transB==0:
-            f32arr=f32arr.transpose()
-    node.set_attr('OTQ_Block',block)
-    node.set_attr('OTQ_Type',type)
-    node.set_attr('OTQ_Bits',bits)
+    consumers = [g.nodemap[name] for name in g.consumedby.get(tname, [])]
+    if len(consumers) == 0 or tname in g.output or any(tname not in node.input for node in consumers):
+        # not a plain weight of nodes: unused, graph output, or read by the body of a node
+        return
+
+    def is_transposed(node, idx):
+        # ICxOC layout
+        return isinstance(node, onnx_tool.node.GemmNode) and idx == 1 and node.transB == 0
+
+    layouts = set(is_transposed(node, idx) for node in consumers for idx, iname in enumerate(node.input) if iname == tname)
+    if len(layouts) > 1:
+        warnings.warn(f"Tensor {tname} is consumed in two layouts, can't be quantized")
+        return
+    if layouts.pop():
+        f32arr = f32arr.transpose()
+    for node in consumers:
+        node.set_attr('OTQ_Block',block)
+        node.set_attr('OTQ_Type',type)
+        node.set_attr('OTQ_Bits',bits)
     Q, scale, zp = quantize(f32arr, block, type, bits)
     tname_q = tname + '_ot_q'
     tname_s = tname + '_ot_s'
@@ -162,7 +173,9 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
         else:
             Q = Q.astype(numpy.int8)
     if bits == 4:
-        scale = scale.astype(numpy.float16)
+        f16info = numpy.finfo(numpy.float16)
+        if scale.max() <= f16info.max and scale.min() >= f16info.tiny:
+            scale = scale.astype(numpy.float16)
         if type == 'asym':
             Q = pack_4bits(Q)
             zp = zp.astype(numpy.uint8)
@@ -173,22 +186,14 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
     g.add_initial(tname_s, scale)
     if type == 'asym':
         g.add_initial(tname_z, zp)
-    for nname in g.consumedby[tname]:
-        node = g.nodemap[nname]
-        idx = node.input.index(tname)
-        node.input.remove(tname)
-        if type == 'asym':
-            node.input.insert(idx, tname_z)
-        node.input.insert(idx, tname_s)
-        node.input.insert(idx, tname_q)
-        if tname_q not in g.consumedby.keys():
-            g.consumedby[tname_q] = nname
-            g.consumedby[tname_s] = nname
-            g.consumedby[tname_z] = nname
-        else:
-            g.consumedby[tname_q].append(nname)
-            g.consumedby[tname_s].append(nname)
-            g.consumedby[tname_z].append(nname)
+    qnames = [tname_q, tname_s, tname_z] if type == 'asym' else [tname_q, tname_s]
+    for node in consumers:
+        while tname in node.input:
+            idx = node.input.index(tname)
+            node.input[idx:idx + 1] = qnames
+        for qname in qnames:
+            g.consumedby.setdefault(qname, []).append(node.name)
     g.consumedby.pop(tname)
-    g.initials.remove(tname)
+    # a new list: the caller may be iterating over the old one
+    g.initials = [name for name in g.initials if name != tname]
     g.tensormap.pop(tname)
-- 
2.43.0


From 091c1a8ba9135f4be063ef16fd27ed98284dcf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 088/124] fix: serialization refuses content it cannot
 represent instead of writing an unreadable file

---
 onnx_tool/serialization.py | 83 ++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 44 deletions(-)

diff --git a/onnx_tool/serialization.py b/onnx_tool/serialization.py
index 15edf42..a13c85a 100644
--- a/onnx_tool/serialization.py
+++ b/onnx_tool/serialization.py
@@ -6,7 +6,7 @@ import struct
 
 
 def __write_float2buf(buf, f):
-    ba = struct.pack('f', f)
+    ba = struct.pack('<f', f)
     buf += ba
     return buf
 
@@ -24,10 +24,10 @@ def __write_len2buf(buf, src, bytes=4):
 
 
 def __write_str2buf(buf, string):
-    if not '\0' in string:
-        string += '\0'
-    barr = bytes(string, 'utf-8')
-    buf += barr
+    barr = string if isinstance(string, bytes) else bytes(string, 'utf-8')
+    if b'\0' in barr:
+        raise ValueError(f'{string} contains the string terminator')
+    buf += barr + b'\0'
     return buf
 
 
@@ -43,27 +43,32 @@ DTYPE_UINT16 = 8
 DTYPE_INT64 = 9
 
 
-def __write_data_type(buf, data):
+def __data_type(data):
     if isinstance(data, str) or isinstance(data, bytes):
-        buf = __write_int2buf(buf, DTYPE_STR)
-    if isinstance(data, int):
-        buf = __write_int2buf(buf, DTYPE_INT)
-    if isinstance(data, float):
-        buf = __write_int2buf(buf, DTYPE_FLOAT)
-    return buf
+        return DTYPE_STR
+    if isinstance(data, (int, numpy.integer)):
+        return DTYPE_INT
+    if isinstance(data, (float, numpy.floating)):
+        return DTYPE_FLOAT
+    raise ValueError(f'Unsupported data {type(data)}')
 
 
-def __write_data(buf, data):
-    buf = __write_data_type(buf, data)
-    if isinstance(data, str):
+def __write_value(buf, data):
+    dtype = __data_type(data)
+    if dtype == DTYPE_STR:
         buf = __write_str2buf(buf, data)
-    if isinstance(data, int):
-        buf = __write_int2buf(buf, data)
-    if isinstance(data, float):
-        buf = __write_float2buf(buf, data)
+    if dtype == DTYPE_INT:
+        buf = __write_int2buf(buf, int(data))
+    if dtype == DTYPE_FLOAT:
+        buf = __write_float2buf(buf, float(data))
     return buf
 
 
+def __write_data(buf, data):
+    buf = __write_int2buf(buf, __data_type(data))
+    return __write_value(buf, data)
+
+
 def __write_ndarray(buf, array: numpy.ndarray):
     def write_npdtype(buf, type):
         if type == numpy.float32:
@@ -91,7 +96,6 @@ def __write_ndarray(buf, array: numpy.ndarray):
 
 
 def serialize_shape_engine(engine: ShapeEngine, filepath):
-    binfile = open(filepath, 'wb')
     writebuf = bytearray(0)
     writebuf = __write_len2buf(writebuf, engine.variables.keys())
     for name in engine.variables.keys():
@@ -120,12 +124,11 @@ def serialize_shape_engine(engine: ShapeEngine, filepath):
         writebuf = __write_str2buf(writebuf, srcname)
         writebuf = serialize_expr(writebuf, expr[1])
 
-    binfile.write(writebuf)
-    binfile.close()
+    with open(filepath, 'wb') as binfile:
+        binfile.write(writebuf)
 
 
 def serialize_graph(graph: onnx_tool.Graph, filepath):
-    binfile = open(filepath, 'wb')
     writebuf = bytearray(0)
     writebuf = __write_len2buf(writebuf, graph.nodemap.keys())
     for name in graph.nodemap.keys():
@@ -139,29 +142,22 @@ def serialize_graph(graph: onnx_tool.Graph, filepath):
         for output in node.output:
             writebuf = __write_str2buf(writebuf, output)
 
-        writebuf = __write_len2buf(writebuf, node.attr.keys())
+        attrs = [key for key in node.attr.keys() if node.attr[key] is not None]
+        writebuf = __write_len2buf(writebuf, attrs)
 
         def write_attribute(buf, attrval):
-            def write_value(buf, val):
-                if isinstance(val, str):
-                    buf = __write_str2buf(buf, val)
-                if isinstance(val, bytes):
-                    buf += val + b'\0'
-                if isinstance(val, int):
-                    buf = __write_int2buf(buf, val)
-                if isinstance(val, float):
-                    buf = __write_float2buf(buf, val)
-                return buf
-
-            if not isinstance(attrval, list):
+            if not isinstance(attrval, (list, tuple)):
                 attrval = [attrval]
+            dtypes = set(__data_type(val) for val in attrval)
+            if len(dtypes) > 1:
+                raise ValueError('Unsupported list of different data types')
             buf = __write_len2buf(buf, attrval)
-            buf = __write_data_type(buf, attrval[0])
+            buf = __write_int2buf(buf, dtypes.pop() if dtypes else DTYPE_INT)
             for val in attrval:
-                buf = write_value(buf, val)
+                buf = __write_value(buf, val)
             return buf
 
-        for key in node.attr.keys():
+        for key in attrs:
             writebuf = __write_str2buf(writebuf, key)
             writebuf = write_attribute(writebuf, node.attr[key])
     writebuf = __write_len2buf(writebuf, graph.initials)
@@ -169,12 +165,11 @@ def serialize_graph(graph: onnx_tool.Graph, filepath):
         writebuf = __write_str2buf(writebuf, name)
         tensor = graph.tensormap[name]
         writebuf = __write_ndarray(writebuf, tensor.numpy)
-    binfile.write(writebuf)
-    binfile.close()
+    with open(filepath, 'wb') as binfile:
+        binfile.write(writebuf)
 
 
 def serialize_memory_compression(compressed_mem: {}, max_shape: {}, filepath):
-    binfile = open(filepath, 'wb')
     writebuf = bytearray(0)
     writebuf = __write_int2buf(writebuf, compressed_mem[1], 8)
     compress_map = compressed_mem[0]
@@ -188,5 +183,5 @@ def serialize_memory_compression(compressed_mem: {}, max_shape: {}, filepath):
     for key in max_shape.keys():
         writebuf = __write_str2buf(writebuf, key)
         writebuf = __write_int2buf(writebuf, max_shape[key], 8)
-    binfile.write(writebuf)
-    binfile.close()
+    with open(filepath, 'wb') as binfile:
+        binfile.write(writebuf)
-- 
2.43.0


From 711d07bf59ef69917ec94cc48287cad533ca839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 089/124] fix: Pow and ReduceL2 keep the element type of their
 input

---
 onnx_tool/node.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index e03a7b9..4460a12 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -518,7 +518,8 @@ class PowNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(sel, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = numpy.power(intensors[0].get_numpy(), intensors[1].get_numpy())
+        base = intensors[0].get_numpy()
+        result = numpy.power(base, intensors[1].get_numpy()).astype(base.dtype)
         outtensors[0].update_tensor(result)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -2272,10 +2273,9 @@ class ConvNode(Node):
 @NODE_REGISTRY.register()
 class ReduceL2Node(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        reduced = numpy.sqrt(
-            numpy.sum(intensors[0].get_numpy() * intensors[0].get_numpy(), axis=self.get_axes(intensors),
-                      keepdims=self.keepdims == 1))
-        outtensors[0].update_tensor(reduced)
+        x = intensors[0].get_numpy()
+        reduced = numpy.sqrt(numpy.sum(x * x, axis=self.get_axes(intensors), keepdims=self.keepdims == 1))
+        outtensors[0].update_tensor(numpy.asarray(reduced).astype(x.dtype))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         vol = volume(intensors[0].get_shape())
-- 
2.43.0


From 518cc0de7ce95b262eadf7d8660994da2acaa4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 090/124] fix: a model config does not change the architecture
 table for later builders

---
 onnx_tool/llm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 72520c5..2703815 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -248,9 +248,9 @@ class Builder():
         if not hasattr(self, 'model_type'):
             setattr(self, 'model_type', '')
         if ArchMap.__contains__(self.architectures[0]):
-            self.arch_config = ArchMap[self.architectures[0]]
+            self.arch_config = dict(ArchMap[self.architectures[0]])
         else:
-            self.arch_config = ArchMap['LlamaForCausalLM']
+            self.arch_config = dict(ArchMap['LlamaForCausalLM'])
         if hasattr(self, 'mlp_bias'):
             self.arch_config['mlp_bias'] = self.mlp_bias
         if hasattr(self, 'attention_bias'):
-- 
2.43.0


From 740c9728cb28ab7770ab2a9db3d52cfb38accead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 091/124] fix: model_io_modify leaves the caller's model as it
 is

---
 onnx_tool/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 4795580..32f87d0 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -127,7 +127,9 @@ def model_io_modify(m, save_model: str, custom_io):
 
     '''
     model = loadmodel(m)
-    graph = model.mproto.graph
+    mproto = onnx.ModelProto()
+    mproto.CopyFrom(model.mproto)  # the caller's model stays as it is
+    graph = mproto.graph
     if custom_io is not None:
         keylist = list(custom_io.keys())
         for i, input in enumerate(graph.input):
@@ -162,7 +164,7 @@ def model_io_modify(m, save_model: str, custom_io):
                             nb.ClearField('dim_value')
                         nb.dim_param = shapeval
     graph = Graph(graph, ModelConfig({'verbose': True}))
-    graph.save_model(save_model, rawmodel=model.mproto)
+    graph.save_model(save_model, rawmodel=mproto)
 
 
 def model_subgraph(m, in_tensor_names: [str] = None, out_tensor_names: [str] = None, nodenames: [str] = None,
-- 
2.43.0


From 6282f09842236be271b7598843ecb566f19d8248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 092/124] fix: a GDN layer counts its own operations once and
 carries its output projection

---
 onnx_tool/llm.py  | 11 +++++++++++
 onnx_tool/node.py | 34 ++++++++++------------------------
 2 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 2703815..bde1855 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -749,6 +749,17 @@ class Builder():
         }
         nod = create_node(TmpNodeProto(self.layer_prefix + 'gdn', 'GDN', attrs))
         nod.input = [q.name, k.name, v.name]
+        # 输出投影权重
+        nameo = self.layer_prefix + self.w_map['attention']['o']
+        w_o = create_tensor(nameo + '.weight', STATIC_TENSOR, [v_out, self.hidden_size], numpy.float32)
+        self.graph.initials.append(w_o.name)
+        self.graph.tensormap[w_o.name] = w_o
+        nod.input.append(w_o.name)
+        if o_bias:
+            b_o = create_tensor(nameo + '.bias', STATIC_TENSOR, [self.hidden_size], numpy.float32)
+            self.graph.initials.append(b_o.name)
+            self.graph.tensormap[b_o.name] = b_o
+            nod.input.append(b_o.name)
         o = create_tensor(self.layer_prefix + 'gdn.output', DYNAMIC_TENSOR,
                           [self.batch, self.seq_len, self.hidden_size], numpy.float32)
         nod.output = [o.name]
diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 4460a12..c37dde4 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -3057,14 +3057,13 @@ class GDNNode(Node):
     """Gated DeltaNet node for Qwen3.5 hybrid architecture.
 
     GDN replaces standard self-attention with a linear attention mechanism.
-    It computes:
-      1. Q/K/V projections (with optional bias)
-      2. Q/K per-head RMS norm
-      3. Depthwise convolution on Q/K
-      4. Gated linear attention (DeltaNet)
-      5. Output projection
+    The Q/K/V projections and the Q/K per-head RMS norm are separate nodes.
+    This node computes:
+      1. Depthwise convolution on Q/K
+      2. Gated linear attention (DeltaNet)
+      3. Output projection
 
-    Inputs: [hidden_states]  shape: [B, S, hidden_size]
+    Inputs: [Q, K, V, o_weight, (o_bias)]
     Output: [attn_output]    shape: [B, S, hidden_size]
 
     Attributes (from node proto):
@@ -3088,7 +3087,7 @@ class GDNNode(Node):
         self.add_default_value('o_bias', False)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        # GDN 输入: [Q, K, V]，Q shape = [B, S, num_q_heads * qk_head_dim]
+        # GDN 输入: [Q, K, V, o_weight, (o_bias)]，Q shape = [B, S, num_q_heads * qk_head_dim]
         # GDN 输出: [B, S, hidden_size]
         q_shape = intensors[0].get_shape()
         out_shape = [q_shape[0], q_shape[1], self.hidden_size]
@@ -3098,9 +3097,7 @@ class GDNNode(Node):
     def profile(self, intensors: List[Tensor], outtensors: List[Tensor]):
         """Calculate MACs for Gated DeltaNet.
 
-        Operations:
-        - Q/K/V projections: 3 × (B × S × hidden_size × head_dim × num_heads)
-        - Q/K norm: 2 × (B × S × num_q_heads × qk_head_dim)
+        Operations (Q/K/V projections and Q/K norm are separate nodes):
         - Conv1d on Q/K: 2 × (B × num_q_heads × S × qk_head_dim × conv_kernel)
         - DeltaNet attention: B × num_v_heads × S × qk_head_dim × S (simplified)
         - Output projection: B × S × hidden_size × hidden_size
@@ -3117,16 +3114,6 @@ class GDNNode(Node):
 
         macs = 0
 
-        # Q projection: B × S × H × (Nq × Dqk)
-        macs += B * S * H * Nq * Dqk
-        # K projection: B × S × H × (Nq × Dqk)
-        macs += B * S * H * Nq * Dqk
-        # V projection: B × S × H × (Nv × Dv)
-        macs += B * S * H * Nv * Dv
-
-        # Q/K RMS norm: 2 × B × S × Nq × Dqk
-        macs += 2 * B * S * Nq * Dqk
-
         # Depthwise conv on Q: B × Nq × S × Dqk × K
         macs += B * Nq * S * Dqk * K
         # Depthwise conv on K: B × Nq × S × Dqk × K
@@ -3146,9 +3133,8 @@ class GDNNode(Node):
         macs += B * S * Nv * Dv * H
 
         io_params = B * S * H * 2  # input + output
-        # Q/K/V/O projections are separate MatMul nodes, not counted here.
-        # GDN itself has no static weights (all weights are in the projection nodes).
-        static_params = 0
+        # Q/K/V projections are separate MatMul nodes, only the output projection is counted here.
+        static_params = Nv * Dv * H + (H if self.o_bias else 0)
         return [macs, io_params, static_params]
 
 
-- 
2.43.0


From 64d287c86f6ac9ec59394584e90258be6e6a8628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:40 +0000
Subject: [PATCH 093/124] fix: the Q/K norm of a GDN layer has the size of its
 heads

---
 onnx_tool/llm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index bde1855..a71e12e 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -1006,7 +1006,7 @@ class Builder():
         输出: [B, S, num_heads * head_dim]
         对每个 head 独立做 RMS norm，weight shape = [head_dim]
         """
-        head_dim = self.head_size
+        head_dim = inp.get_shape()[-1] // num_heads
         # Reshape: [B, S, num_heads * head_dim] -> [B, S, num_heads, head_dim]
         # 做 LayerNormalization（沿最后一个维度，即 head_dim）
         attrs = {'epsilon': self.rms_norm_eps, 'type': 'rms'}
-- 
2.43.0


From 29d8105eeddb2d53dd039d0284a25931b3ec7200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 094/124] fix: an MoE layer counts the shared expert gate where
 there is one

---
 onnx_tool/node.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index c37dde4..b4ad1c1 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -3220,7 +3220,8 @@ class MoENode(Node):
             # down_proj: B × S × SI × H
             macs += B * S * SI * H
 
-        if not self.no_shared_gate:
+        has_gate = not self.no_shared_expert and not self.no_shared_gate
+        if has_gate:
             # Shared expert gate (Qwen3.5-MoE): sigmoid + multiply
             macs += B * S * H * (EXP_MACS + MUL_MACS)
 
@@ -3233,6 +3234,8 @@ class MoENode(Node):
         # Static params: router(full) + routed experts(scaled if partial) + shared expert(full, if present)
         total_activations = B * S * k
         shared_static = 0 if self.no_shared_expert else 3 * SI * H
+        if has_gate:
+            shared_static += H
         if total_activations < E:
             static_params = H * E + total_activations * 3 * I * H + shared_static
         else:
-- 
2.43.0


From 38a3c717e2f0cda611ddd4e67a74311fa9437ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 095/124] fix: MLA attends to the cached tokens when a KV cache
 is added

---
 onnx_tool/llm.py  |  2 +-
 onnx_tool/node.py | 34 +++++++++++++++++++++-------------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index a71e12e..fe45c78 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -1290,7 +1290,7 @@ class Builder():
         self.graph.input.append('kv_cache')
         self.graph.tensormap[kv_cache.name] = kv_cache
         for n in self.graph.nodemap:
-            if self.graph.nodemap[n].op_type == 'SDPA':
+            if self.graph.nodemap[n].op_type in ('SDPA', 'MLA'):
                 self.graph.nodemap[n].input.append('n_past')
                 self.graph.nodemap[n].input.append('kv_cache')
 
diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b4ad1c1..69114f0 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -3255,7 +3255,7 @@ class MLANode(Node):
       4. SDPA: sparse attention (window + compressed KV)
       5. O: wo_a (grouped) → wo_b (low-rank o_lora_rank→dim)
 
-    Inputs: [hidden_states]  shape: [B, S, dim]
+    Inputs: [hidden_states, 7 weights, (n_past, kv_cache)]  hidden_states shape: [B, S, dim]
     Output: [attn_output]    shape: [B, S, dim]
 
     Attributes:
@@ -3311,7 +3311,12 @@ class MLANode(Node):
         G = self.o_groups
         Rd = self.rope_head_dim
         Nd = H - Rd
-        W = min(self.window_size, S)
+        past = 0
+        if len(intensors) > 8:
+            past = int(intensors[8].numpy.max())
+            assert (past + S <= intensors[9].get_shape()[2])
+        S_all = past + S
+        W = min(self.window_size, S_all)
         CR = self.compress_ratio
         IN = self.index_n_heads
         ID = self.index_head_dim
@@ -3346,7 +3351,10 @@ class MLANode(Node):
             # wgate: B × S × D × H (额外的 gate 投影)
             macs += B * S * D * H
             # 分组 softmax pooling: B × (S/CR) × CR × H
-            compressed_tokens = S // CR
+            # 本次新压缩的 token
+            compressed_tokens = S_all // CR - past // CR
+            # 参与注意力的全部压缩 token
+            all_compressed = S_all // CR
             # softmax over CR dim: B × compressed_tokens × CR × H
             macs += B * compressed_tokens * CR * H * (EXP_MACS + DIV_MACS)
             # weighted sum: B × compressed_tokens × CR × H
@@ -3378,15 +3386,15 @@ class MLANode(Node):
             macs += B * IN * S * Rd * (COS_MACS + SIN_MACS + MUL_MACS * 2)
 
             # Index scoring: Q @ KV^T
-            # einsum("bshd,btd->bsht"): B × IN × S × ID × compressed_tokens
-            macs += B * IN * S * ID * compressed_tokens
-            # relu + weights: B × S × IN × compressed_tokens
-            macs += B * S * IN * compressed_tokens * (CMP_MACS + MUL_MACS)
+            # einsum("bshd,btd->bsht"): B × IN × S × ID × all_compressed
+            macs += B * IN * S * ID * all_compressed
+            # relu + weights: B × S × IN × all_compressed
+            macs += B * S * IN * all_compressed * (CMP_MACS + MUL_MACS)
             # weights_proj: B × S × D × IN
             macs += B * S * D * IN
-            # top-k (approximated as sort cost): B × S × compressed_tokens × log(compressed_tokens)
-            if compressed_tokens > 1:
-                macs += B * S * compressed_tokens * int(__import__('math').log2(compressed_tokens)) * CMP_MACS
+            # top-k (approximated as sort cost): B × S × all_compressed × log(all_compressed)
+            if all_compressed > 1:
+                macs += B * S * all_compressed * int(__import__('math').log2(all_compressed)) * CMP_MACS
 
         # ============================================================
         # 5. RoPE (仅 rope_head_dim 子集)
@@ -3400,10 +3408,10 @@ class MLANode(Node):
         # 6. SDPA (window + compressed top-k)
         # ============================================================
         if CR > 0:
-            # Sparse: window_size + compressed_tokens + index_topk
-            kv_len = W + compressed_tokens + min(IT, compressed_tokens)
+            # Sparse: window_size + all_compressed + index_topk
+            kv_len = W + all_compressed + min(IT, all_compressed)
         else:
-            kv_len = S
+            kv_len = S_all
         # QK^T: B × N × S × H × kv_len
         macs += B * N * S * H * kv_len
         # softmax: B × N × S × kv_len
-- 
2.43.0


From aa1f7a084cc55ccf7617cc239c2b810a2951b4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:42 +0000
Subject: [PATCH 096/124] fix: print_profile shows milliseconds under the
 Latency(ms) header

---
 onnx_tool/llm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index fe45c78..e93f545 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -1218,7 +1218,7 @@ class Builder():
             row.append(num2str(int(node.llm_profile['Memory']), csvformat))
             Device = node.llm_profile['Device']
             if self.llm_profile[2] > 0:
-                row.append('{:.5f}'.format(Device['latency'][2]))
+                row.append('{:.5f}'.format(Device['latency'][2] * 1e3))
                 row.append(Device['Bottleneck'])
             row.append(tuple2str(node.inshape, splitch))
             row.append(tuple2str(node.outshape, splitch))
@@ -1228,7 +1228,7 @@ class Builder():
         row.append(num2str(self.llm_profile[0], csvformat))
         row.append(num2str(self.llm_profile[1], csvformat))
         if self.llm_profile[2] > 0:
-            row.append(num2str(self.llm_profile[2], csvformat))
+            row.append('{:.5f}'.format(self.llm_profile[2] * 1e3))
             row.append('_')
         row.append('_')
         row.append('_')
-- 
2.43.0


From 4ba42c4c24029c3a1b26b0405edd2d8496154ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 097/124] fix: the output projection of a GDN layer counts its
 bias

---
 onnx_tool/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 69114f0..118a62a 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -3131,6 +3131,8 @@ class GDNNode(Node):
 
         # Output projection: B × S × (Nv × Dv) × H
         macs += B * S * Nv * Dv * H
+        if self.o_bias:
+            macs += B * S * H * ADD_MACS
 
         io_params = B * S * H * 2  # input + output
         # Q/K/V projections are separate MatMul nodes, only the output projection is counted here.
-- 
2.43.0


From 063b59b566e2ef9b6a484f3493af89d83d03f446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 098/124] fix: a fixed branch replaces its conditional in
 place, whole and with unique names

---
 onnx_tool/graph.py | 159 ++++++++++++++++++++++++++++++---------------
 1 file changed, 108 insertions(+), 51 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 4e6cc58..dfe680b 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -65,6 +65,30 @@ def _outer_tensors(node):
     return names
 
 
+def _inner_tensors(g):
+    # tensors defined by a subgraph and the subgraphs of its nodes
+    names = {t.name for t in g.input} | {t.name for t in g.initializer}
+    for n in g.node:
+        names.update(n.output)
+        for att in n.attribute:
+            if att.type == onnx.AttributeProto.GRAPH:
+                names |= _inner_tensors(att.g)
+    return names
+
+
+def _rename_tensors(g, rename):
+    # rename the tensors in the nodes of a graph and of its subgraphs
+    for n in g.node:
+        for names in (n.input, n.output):
+            for i, name in enumerate(names):
+                names[i] = rename.get(name, name)
+        for att in n.attribute:
+            if att.type == onnx.AttributeProto.GRAPH:
+                _rename_tensors(att.g, rename)
+                for o in att.g.output:
+                    o.name = rename.get(o.name, o.name)
+
+
 def _read_tensors(node):
     # inputs of the node and the outer-scope tensors its subgraphs read
     return list(node.input) + [t for t in _outer_tensors(node) if t not in node.input]
@@ -387,58 +411,85 @@ class Graph():
         self.dynamics.extend(self.producedby.keys())
 
     def __remove_if__(self):
+        selected_branch = 'else_branch' if self.cfg.if_fixed_branch == 'else' else 'then_branch'
         while True:
-            prekeys = list(self.nodemap.keys())
-            remove_list = []
-            selected_branch = 'else_branch' if self.cfg.if_fixed_branch == 'else' else 'then_branch'
-            for n in prekeys:
-                node = self.nodemap[n]
-                if node.op_type == 'If':
-                    # remove condition node chain
-                    sub_input = []
-                    for node_proto in node.attr[selected_branch].node:
-                        for ipn in node_proto.input:
-                            sub_input.append(ipn)
-                    node_list = [node.name]
-                    while len(node_list):
-                        remove = True
-                        sname = node_list.pop(0)
-                        snode = self.nodemap[sname]
-                        for ipn in snode.input:
-                            if len(self.consumedby[ipn]) == 1 and ipn not in sub_input:  # consumed by this node
-                                if ipn in self.producedby.keys():
-                                    node_list.append(self.producedby[ipn][0])
-                            self.consumedby[ipn].remove(sname)
-                        if remove:
-                            remove_list.append(sname)
-                    # add branch node
-                    names = []
-                    for node_proto in node.attr[selected_branch].node:
-                        self.__add_node_from_proto__(node_proto)
-                        names.append(node_proto.name)
-
-                    # revise output name
-                    preoutput = node.attr[selected_branch].output[0].name
-                    newoutput = node.output[0]
-                    for newname in names:
-                        newnode = self.nodemap[newname]
-                        for tensor in newnode.input:
-                            if tensor not in self.tensormap.keys():
-                                self.tensormap[tensor] = Tensor(tensor)
-                        for tensor in newnode.output:
-                            if tensor not in self.tensormap.keys():
-                                self.tensormap[tensor] = Tensor(tensor)
-                            if tensor in self.consumedby:
-                                for consumer in self.consumedby[tensor]:
-                                    self.nodemap[newnode.name].nextnodes.append(self.nodemap[consumer])
-                        for i, v in enumerate(newnode.output):
-                            if v == preoutput:
-                                newnode.output[i] = newoutput
-                                self.producedby[newoutput].append(newname)
-            if len(remove_list)==0:
+            ifs = [n for n in self.nodemap if self.nodemap[n].op_type == 'If']
+            if len(ifs) == 0:
                 break
-            for n in remove_list:
-                self.remove_node(n)
+            for n in ifs:
+                self.__replace_if__(n, selected_branch)
+
+    def __replace_if__(self, nodename, selected_branch):
+        # put the nodes of the selected branch in the place of the If node
+        node = self.nodemap[nodename]
+        branch = onnx.GraphProto()
+        branch.CopyFrom(node.attr[selected_branch])
+        produced = [o for n in branch.node for o in n.output if o != '']
+        # the branch outputs get the names of the If outputs
+        rename = {}
+        identities = []
+        for o, newoutput in zip(branch.output, node.output):
+            if newoutput == '':
+                continue
+            if o.name in produced and o.name not in rename:
+                rename[o.name] = newoutput
+            else:
+                identities.append((o.name, newoutput))
+        # the other tensors keep their names, as long as these are unique
+        used = set(self.tensormap.keys())
+        for n in self.nodemap.values():
+            if n is not node:
+                for g in n.attr.values():
+                    if isinstance(g, onnx.GraphProto):
+                        used |= _inner_tensors(g)
+        for tensor in [t.name for t in branch.initializer] + produced:
+            if tensor in rename:
+                continue
+            newname = tensor
+            while newname in used:
+                newname += '_' + nodename
+            rename[tensor] = newname
+            used.add(newname)
+
+        outputs = list(self.output)
+        position = list(self.nodemap.keys()).index(nodename)
+        reads = _read_tensors(node)
+        self.remove_node(nodename)
+        self.output = outputs
+        following = {n: self.nodemap.pop(n) for n in list(self.nodemap.keys())[position:]}
+        for initial in branch.initializer:
+            initial.name = rename[initial.name]
+            self.tensormap[initial.name] = Tensor(initial)
+            if not self.cfg.constant_folding:
+                self.initials.append(initial.name)
+        _rename_tensors(branch, rename)
+        new_protos = list(branch.node)
+        for name, newoutput in identities:
+            new_protos.append(onnx.helper.make_node('Identity', [rename.get(name, name)], [newoutput]))
+        for node_proto in new_protos:
+            newnode = self.__add_node_from_proto__(node_proto, following)
+            for tensor in _read_tensors(newnode) + newnode.output:
+                if tensor not in self.tensormap.keys():
+                    self.tensormap[tensor] = Tensor(tensor)
+        self.nodemap.update(following)
+        self.__remove_unread__(reads)
+
+    def __remove_unread__(self, tensors):
+        # remove the nodes which served these tensors only
+        outputs = set(self.output)
+        if self.rawgraph is not None:
+            outputs.update(o.name for o in self.rawgraph.output)
+        names = [p for t in tensors if t != '' for p in self.producedby.get(t, [])]
+        while len(names):
+            name = names.pop()
+            if name not in self.nodemap:
+                continue
+            node = self.nodemap[name]
+            if any(o in outputs or o in self.consumedby for o in node.output if o != ''):
+                continue
+            reads = _read_tensors(node)
+            self.remove_node(name)
+            names.extend(p for t in reads if t != '' for p in self.producedby.get(t, []))
 
     def __set_fixed_topk(self, fixed_k):
         prekeys = list(self.nodemap.keys())
@@ -469,10 +520,12 @@ class Graph():
         for n in remove_list:
             self.remove_node(n)
 
-    def __add_node_from_proto__(self, node_proto):
+    def __add_node_from_proto__(self, node_proto, following={}):
         newnode = create_node(node_proto)
         if len(newnode.name) == 0:
             newnode.name = newnode.op_type + '_' + str(self.node_count)
+        while newnode.name in self.nodemap or newnode.name in following:
+            newnode.name += '_' + str(self.node_count)
         self.node_count += 1
         newnode.input.extend(node_proto.input)
         for tensor in _read_tensors(newnode):
@@ -487,7 +540,11 @@ class Graph():
                 self.producedby[tensor] = []
             self.producedby[tensor].append(newnode.name)
             newnode.output.append(tensor)
+            for consumer in self.consumedby.get(tensor, []):
+                if consumer in following:
+                    newnode.nextnodes.append(following[consumer])
         self.nodemap[newnode.name] = newnode
+        return newnode
 
     def __init_graph_from_onnxproto__(self, g, noderename):
         if g is None:
-- 
2.43.0


From de5f4853e78631d27fee5e172be433587a2167c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 099/124] fix: fixing k works for every source of k and keeps
 shared computations

---
 onnx_tool/graph.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index dfe680b..7f7db7d 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -494,31 +494,24 @@ class Graph():
     def __set_fixed_topk(self, fixed_k):
         prekeys = list(self.nodemap.keys())
         fixed_k_tensor_name = 'constant_fixed_topk_k'
-        remove_list = []
+        ktensors = []
         topk_node = 0
         for n in prekeys:
             node = self.nodemap[n]
             if node.op_type == 'TopK':
-                # remove condition node chain
-                node_list = []
                 ktensor = node.input[1]
-                if len(self.consumedby[ktensor]) == 1:
-                    node_list = [self.producedby[ktensor][0]]
-                while len(node_list):
-                    remove = True
-                    sname = node_list.pop(0)
-                    snode = self.nodemap[sname]
-                    for ipn in snode.input:
-                        if len(self.consumedby[ipn]) == 1:  # consumed by this node
-                            node_list.append(self.producedby[ipn][0])
-                    if remove:
-                        remove_list.append(sname)
                 topk_node += 1
                 node.input[1] = fixed_k_tensor_name
+                self.consumedby.setdefault(fixed_k_tensor_name, []).append(n)
+                if ktensor not in node.input:
+                    self.consumedby[ktensor].remove(n)
+                    if len(self.consumedby[ktensor]) == 0:
+                        self.consumedby.pop(ktensor)
+                ktensors.append(ktensor)
         if topk_node > 0:
             self.add_initial(fixed_k_tensor_name, numpy.array([fixed_k]))
-        for n in remove_list:
-            self.remove_node(n)
+        # remove the nodes which computed k only
+        self.__remove_unread__(ktensors)
 
     def __add_node_from_proto__(self, node_proto, following={}):
         newnode = create_node(node_proto)
-- 
2.43.0


From 3da7830f9b52b669d510e09d8ab2e287caa4ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 100/124] fix: exported tensors have a file each, whatever
 slashes their names have

---
 onnx_tool/__init__.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 32f87d0..19b2163 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -34,6 +34,15 @@ def model_export_tensors_numpy(m, tensornames: [str] = None, savefolder: str = N
             arr = arr.astype(numpy.float16)
         numpy.save(filename, arr)
 
+    saved = set()
+
+    def file_name(name):
+        fname = name.replace('/', '_').replace('\\', '_')
+        while fname in saved:  # another tensor has this file
+            fname += '_'
+        saved.add(fname)
+        return os.path.join(savefolder, fname + '.npy')
+
     g = model.graph
     if savefolder is not None:
         os.makedirs(savefolder, exist_ok=True)
@@ -41,26 +50,16 @@ def model_export_tensors_numpy(m, tensornames: [str] = None, savefolder: str = N
         savefolder = './'
     if tensornames is None:
         for key in g.initials:
-            name = key
-            if '/' in key:
-                name = key.replace('/', '_')
-            if '\\' in key:
-                name = key.replace('\\', '_')
             narr = g.tensormap[key].numpy
-            save_numpy(narr, fp16, os.path.join(savefolder, name + '.npy'))
+            save_numpy(narr, fp16, file_name(key))
 
     else:
         for name in tensornames:
             if name not in g.initials:
                 warnings.warn(f'tensor {name} not found ')
                 continue
-            fname = name
-            if '/' in name:
-                fname = name.replace('/', '_')
-            if '\\' in name:
-                fname = name.replace('\\', '_')
             narr = g.tensormap[name].numpy
-            save_numpy(narr, fp16, os.path.join(savefolder, fname + '.npy'))
+            save_numpy(narr, fp16, file_name(name))
 
 
 # These ops are created by onnx exporter, they are out of programmer's sense
-- 
2.43.0


From d4377ccbee55e0a9652b487c79d8d71f40650122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 101/124] fix: model_io_modify drops the shapes recorded for
 the previous input shapes

---
 onnx_tool/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 19b2163..2496355 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -146,6 +146,8 @@ def model_io_modify(m, save_model: str, custom_io):
                         if nb.HasField('dim_value'):
                             nb.ClearField('dim_value')
                         nb.dim_param = shapeval
+                # recorded for the previous input shapes
+                graph.ClearField('value_info')
 
         for i, output in enumerate(graph.output):
             if output.name in keylist:
-- 
2.43.0


From adf23282ce4d235eb8da48844d35a247606e6583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 102/124] fix: the command line takes inputs of any data type

---
 onnx_tool/__main__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/__main__.py b/onnx_tool/__main__.py
index a7a8a54..7cd0c91 100644
--- a/onnx_tool/__main__.py
+++ b/onnx_tool/__main__.py
@@ -55,10 +55,8 @@ args = parser.parse_args()
 
 
 def __str2numpytype__(strtype):
-    if strtype == 'f32':
-        return numpy.float32
-    if strtype == 'int32':
-        return numpy.int32
+    names = {'f16': 'float16', 'f32': 'float32', 'f64': 'float64'}
+    return numpy.dtype(names.get(strtype, strtype)).type
 
 
 def __str2list__(strshape, type):
-- 
2.43.0


From 68566f7edecd02294c9fe2155c1e59ed8ea5e4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:34 +0000
Subject: [PATCH 103/124] fix: nothing is recorded for tensors of unknown data
 type and shape (C07)

---
 onnx_tool/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 9ddcb28..3f3aea1 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -473,6 +473,8 @@ class Tensor():
             dtype = npdtype2onnxdtype(self.numpy.dtype.type)
         if self.name == '':
             return None
+        if shape is None and self.proto is None and not make_dummy:
+            return None  # neither its shape nor its data type are known
         if shape is not None:
             # -1 is the placeholder of an unknown dimension
             shape = [None if s == -1 else s for s in shape]
-- 
2.43.0


From 47e645376ddf58242d22d773073422ec63115934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:29 +0000
Subject: [PATCH 104/124] fix: the command line reads boolean input data (C24)

---
 onnx_tool/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/__main__.py b/onnx_tool/__main__.py
index 7cd0c91..42039b7 100644
--- a/onnx_tool/__main__.py
+++ b/onnx_tool/__main__.py
@@ -63,7 +63,8 @@ def __str2list__(strshape, type):
     strs = strshape.split('x')
     shape = []
     for s in strs:
-        shape.append(type(s))
+        # the text of a boolean is 0 or 1
+        shape.append(type(int(s)) if type is numpy.bool_ else type(s))
     return shape
 
 
-- 
2.43.0


From 37d805c5daea2888fabc5d3a0972ca377e18b396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:53 +0000
Subject: [PATCH 105/124] fix: operator attributes do not overwrite the fields
 of the node which has them (C07)

---
 onnx_tool/node.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 118a62a..b25037f 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -197,21 +197,26 @@ class Node():
         # Annotated by graph.profile(): which input indices are static (weights) vs dynamic (activations)
         self.static_inputs = []   # list of indices
         self.dynamic_inputs = []  # list of indices
+        self.reserved = frozenset(dir(self))  # attributes of these names stay in self.attr only
         if isinstance(n.attribute, dict):
             for att in n.attribute:
                 self.attr[att] = n.attribute[att]
-                self.__setattr__(att, n.attribute[att])
+                self.__set_member__(att, n.attribute[att])
         else:
             for att in n.attribute:
                 self.attr[att.name] = onnx.helper.get_attribute_value(att)
-                self.__setattr__(att.name, get_attribute_data(att))
+                self.__set_member__(att.name, get_attribute_data(att))
                 if att.name == 'axes':
                     if isinstance(self.axes, list):
                         self.axes = tuple(self.axes)
 
+    def __set_member__(self, key, val):
+        if key not in self.reserved and key != 'reserved':
+            self.__setattr__(key, val)
+
     def set_attr(self, key, val):
         self.attr[key] = val
-        self.__setattr__(key, val)
+        self.__set_member__(key, val)
 
     def add_default_value(self, attname, defaultvalue):
         if not hasattr(self, attname):
-- 
2.43.0


From e6943ee65f6e6e126d42169b2757f3641777b6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 106/124] fix: OneHot of an index out of range is all off
 values (C04)

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index b25037f..8b1f2c4 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1138,7 +1138,8 @@ def one_hot(indices, depth, axis=-1, dtype=numpy.float32):  # type: ignore
     ls = values.shape[0:axis]
     rs = values.shape[axis:rank]
     targets = numpy.reshape(depth_range, (1,) * len(ls) + depth_range.shape + (1,) * len(rs))
-    values = numpy.reshape(numpy.mod(values, depth), ls + (1,) + rs)
+    # negative indices count from the end, indices out of range match nothing
+    values = numpy.reshape(numpy.where(values < 0, values + depth, values), ls + (1,) + rs)
     return numpy.asarray(targets == values, dtype=dtype)
 
 
-- 
2.43.0


From aed1808d1d23ac7466061cd0f19e64b49e8aba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 107/124] fix: value inference of graphs with an input as
 output which no node reads (C27)

---
 onnx_tool/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 7f7db7d..e56f58f 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -314,6 +314,7 @@ class Graph():
         valid_tensors = ['']  # stands for omitted optional inputs
         valid_tensors.extend(self.initials)
         valid_tensors.extend(self.dynamics)
+        valid_tensors.extend(self.output)  # an output may be an input which no node reads
         rm_list = []
         for tname in self.tensormap.keys():
             if tname not in valid_tensors:
-- 
2.43.0


From 6e6a29ff8203bfe34988f34a5476b3fa711c4c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:03 +0000
Subject: [PATCH 108/124] fix: the engine takes every shape variable from the
 input that carries it (C29)

---
 inference/infer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index 3667ca0..aba9545 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -246,8 +246,7 @@ class GraphInfer:
             当 profile=True 时，outputs 额外包含 '__profile__' key
         """
         # 根据输入 tensor 的实际形状更新 shape_engine 变量
-        first_input = next(iter(inputs.values()))
-        shape_changed = self._update_shape_from_input(first_input)
+        shape_changed = self._update_shape_from_inputs(inputs)
 
         # 批量刷新所有 tensor 的 shape 缓存（仅当 shape 实际变化时）
         if shape_changed or not self._tensor_shape_cache:
@@ -705,8 +704,8 @@ class GraphInfer:
         """将 self.dtype (torch.dtype) 转为对应的 numpy dtype"""
         return np.dtype(self._get_torch_dtype_name(self.dtype))
 
-    def _update_shape_from_input(self, input_tensor: torch.Tensor) -> bool:
-        """根据实际输入 tensor 的形状，更新 shape_engine 中的变量。
+    def _update_shape_from_inputs(self, inputs: Dict[str, torch.Tensor]) -> bool:
+        """根据每个实际输入 tensor 的形状，更新 shape_engine 中的变量。
 
         Returns:
             True 如果 shape 变量发生了实际变化，False 如果与上次相同。
@@ -715,7 +714,8 @@ class GraphInfer:
             self._last_var_values = {}
         changed = False
         for input_name, desc in self.input_desc.items():
-            if len(desc) == len(input_tensor.shape):
+            input_tensor = inputs.get(input_name)
+            if input_tensor is not None and len(desc) == len(input_tensor.shape):
                 for i, dim_var in enumerate(desc):
                     if isinstance(dim_var, str) and dim_var in self.input_range:
                         actual_val = int(input_tensor.shape[i])
-- 
2.43.0


From cf76c9b1a55bccb0320708109916f16a31bb80ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:03 +0000
Subject: [PATCH 109/124] fix: only weights from safetensors files are
 transposed for MatMul, not those of the model (C29)

---
 inference/infer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index aba9545..0220469 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -629,6 +629,7 @@ class GraphInfer:
 
             tensor_obj = self._cg.tensormap[tname]
             t = None
+            op_type = const_consumer[tname][0] if tname in const_consumer else ''
 
             # 1. 尝试从 safetensors 加载
             if self.safetensors_path:
@@ -639,6 +640,10 @@ class GraphInfer:
                 elif tname in self.weight_map and self.weight_map[tname] in safetensors_data:
                     st_name = self.weight_map[tname]
                     t = safetensors_data[st_name].to(device=self.device, dtype=self.dtype)
+                # safetensors 的 2D weight 为 [N, K]，MatMul 的 weight 转置为 [K, N]
+                # （ONNX 内嵌的 weight 已是 [K, N]，不能转置）
+                if t is not None:
+                    t = self._transpose_safetensors_tensor(t, op_type)
 
             # 2. fallback: 从 ONNX 内嵌数据加载
             if t is None and tensor_obj.numpy is not None:
@@ -647,10 +652,6 @@ class GraphInfer:
                 )).to(device=self.device)
 
             if t is not None:
-                # safetensors 的 2D weight 为 [N, K]，MatMul 的 weight 转置为 [K, N]
-                op_type = const_consumer.get(tname, ('', {}))[0] if tname in const_consumer else ''
-                t = self._transpose_safetensors_tensor(t, op_type)
-
                 # 如果该 constant 有消费者 kernel 且实现了 preprocess_weight，则调用
                 if tname in const_consumer:
                     op_type, attrs = const_consumer[tname]
-- 
2.43.0


From 8bab01740add5996ac1db542e30f064dc26ce8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:04 +0000
Subject: [PATCH 110/124] fix: Gemm transposes at run time, so that dynamic and
 shared matrices are right (C29)

---
 inference/kernels.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 7a56599..773f29e 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -287,9 +287,9 @@ class GemmKernel(Kernel):
 
         if transA:
             A = A.T
-        # B 已在 preprocess_weight 中预转置，无需再次转置
-        # if transB:
-        #     B = B.T
+        # 转置只是视图：B 可以是动态 tensor，也可以是与其他节点共享的 weight
+        if transB:
+            B = B.T
 
         torch.mm(A, B, out=outputs[0])
         if alpha != 1.0:
@@ -297,14 +297,6 @@ class GemmKernel(Kernel):
         if C is not None:
             outputs[0].add_(beta * C)
 
-    @staticmethod
-    def preprocess_weight(src_name: str, tensor: torch.Tensor, attrs: Dict) -> torch.Tensor:
-        """Gemm weight 前处理：如果 transB=1，预转置 weight 矩阵。"""
-        transB = attrs.get('transB', 0)
-        if transB:
-            tensor = tensor.T.contiguous()
-        return tensor
-
 
 @KernelRegistry.register("MatMul")
 class MatMulKernel(Kernel):
-- 
2.43.0


From b69483f63bd075060c101b44fd81cc6b29805373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:04 +0000
Subject: [PATCH 111/124] fix: Reshape, Squeeze, Unsqueeze, Expand and Tile
 kernels follow the inferred output shape (C29)

---
 inference/kernels.py | 56 ++++++++++----------------------------------
 1 file changed, 13 insertions(+), 43 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 773f29e..6a7baa2 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -237,23 +237,9 @@ class ReshapeKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        # inputs[1] 是 shape tensor，但 memory pool 里可能没有它
-        # 直接用 attrs 或 inputs[1] 的值
-        if len(inputs) > 1 and inputs[1] is not None:
-            shape = inputs[1].cpu().tolist()
-        else:
-            shape = attrs.get('shape', [])
-        # 处理 0 维度: 保持原形状
-        x = inputs[0]
-        new_shape = []
-        si = 0
-        for s in shape:
-            if s == 0:
-                new_shape.append(x.shape[si])
-            else:
-                new_shape.append(int(s))
-            si += 1
-        outputs[0].copy_(x.reshape(new_shape))
+        # inputs[1] 是 shape tensor，但 compute graph 里可能没有它；
+        # 输出的 shape 已由 shape engine 给出
+        outputs[0].copy_(inputs[0].reshape(outputs[0].shape))
 
 
 @KernelRegistry.register("Transpose")
@@ -439,11 +425,8 @@ class SqueezeKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        axes = attrs.get('axes', None)
-        if axes is not None:
-            outputs[0].copy_(inputs[0].squeeze(dim=tuple(axes)))
-        else:
-            outputs[0].copy_(inputs[0].squeeze())
+        # axes（属性或 inputs[1]）已体现在输出 shape 中
+        outputs[0].copy_(inputs[0].reshape(outputs[0].shape))
 
 
 @KernelRegistry.register("Unsqueeze")
@@ -452,19 +435,8 @@ class UnsqueezeKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        # axes 来源: inputs[1] (ONNX 13+) 或 attrs['axes'] (ONNX 11-)
-        if len(inputs) > 1 and inputs[1] is not None:
-            axes = [int(x) for x in inputs[1].cpu().tolist()]
-        else:
-            axes = attrs.get('axes', None)
-
-        if axes is not None:
-            t = inputs[0]
-            for ax in sorted(axes):
-                t = t.unsqueeze(ax)
-            outputs[0].copy_(t)
-        else:
-            outputs[0].copy_(inputs[0].unsqueeze(0))
+        # axes（属性或 inputs[1]）已体现在输出 shape 中
+        outputs[0].copy_(inputs[0].reshape(outputs[0].shape))
 
 
 @KernelRegistry.register("Shape")
@@ -530,8 +502,8 @@ class ExpandKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        shape = inputs[1].cpu().tolist()
-        outputs[0].copy_(inputs[0].expand(shape))
+        # ONNX Expand 是双向广播，输出 shape 已由 shape engine 给出
+        outputs[0].copy_(inputs[0].expand(outputs[0].shape))
 
 
 @KernelRegistry.register("Tile")
@@ -540,12 +512,10 @@ class TileKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        repeats = inputs[1].cpu().tolist()
-        # 确保 repeats 是扁平列表
-        if isinstance(repeats, list) and len(repeats) == 1 and isinstance(repeats[0], list):
-            repeats = repeats[0]
-        repeats = [int(r) for r in repeats]
-        outputs[0].copy_(inputs[0].repeat(*repeats))
+        # compute graph 里可能没有 repeats tensor，由输入输出 shape 得到
+        x = inputs[0]
+        repeats = [o // i for o, i in zip(outputs[0].shape, x.shape)]
+        outputs[0].copy_(x.repeat(*repeats) if repeats else x)
 
 
 @KernelRegistry.register("Where")
-- 
2.43.0


From b0e4dfa7ac9dd4c3dfa4a54176c5dc48d04ae4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:04 +0000
Subject: [PATCH 112/124] fix: Conv and pooling kernels honour uneven and
 automatic padding, ceil mode, dilations and one dimension (C29)

---
 inference/kernels.py | 119 ++++++++++++++++++++++++++-----------------
 1 file changed, 73 insertions(+), 46 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 6a7baa2..d80ec0d 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -91,15 +91,38 @@ class Kernel:
 # 常用辅助函数
 # ===========================================================================
 
-def _to_2d_padding(pads: tuple, auto_pad=None) -> int:
-    """将 ONNX pad 格式转为 F.pad 需要的格式"""
-    if auto_pad is not None and auto_pad != b'NOTSET' and auto_pad != b'':
-        return None  # 由调用方处理 auto_pad
-    if len(pads) == 2:
-        return (pads[0], pads[0], pads[1], pads[1])
-    elif len(pads) == 4:
-        return (pads[0], pads[1], pads[2], pads[3])
-    return 0
+def _window_pads(attrs: Dict, in_shape, out_shape, kernel_shape, strides, dilations):
+    """滑动窗口算子每个空间维度的 (begin, end) 填充。
+
+    ONNX pads 格式: [x1_begin, x2_begin, ..., x1_end, x2_end, ...]。
+    end 由输出 shape 得到，因此 auto_pad 和 ceil_mode 也适用；
+    end 为负表示末尾有窗口用不到的元素。
+    """
+    auto_pad = attrs.get('auto_pad', 'NOTSET')
+    if isinstance(auto_pad, bytes):
+        auto_pad = auto_pad.decode()
+    pads = attrs.get('pads', None) or [0] * (2 * len(kernel_shape))
+    result = []
+    for i, k in enumerate(kernel_shape):
+        total = (out_shape[i] - 1) * strides[i] + dilations[i] * (k - 1) + 1 - in_shape[i]
+        if auto_pad == 'SAME_UPPER':
+            begin = max(total, 0) // 2
+        elif auto_pad == 'SAME_LOWER':
+            begin = max(total, 0) - max(total, 0) // 2
+        elif auto_pad == 'VALID':
+            begin = 0
+        else:
+            begin = pads[i]
+        result.append((begin, total - begin))
+    return result
+
+
+def _pad_spatial(x, pads, value: float = 0.0):
+    """按 (begin, end) 列表填充（或裁剪）x 的空间维度"""
+    if all(begin == 0 and end == 0 for begin, end in pads):
+        return x
+    # F.pad 格式从最后一个维度开始
+    return F.pad(x, [p for pair in reversed(pads) for p in pair], value=value)
 
 
 # ===========================================================================
@@ -116,23 +139,17 @@ class ConvKernel(Kernel):
         w = inputs[1]  # [M, C, kH, kW]
         bias = inputs[2] if len(inputs) > 2 else None
 
-        strides = attrs.get('strides', (1, 1))
-        pads = attrs.get('pads', (0, 0, 0, 0))
-        dilations = attrs.get('dilations', (1, 1))
+        kernel_shape = w.shape[2:]
+        nd = len(kernel_shape)
+        strides = attrs.get('strides', None) or [1] * nd
+        dilations = attrs.get('dilations', None) or [1] * nd
         group = attrs.get('group', 1)
 
-        # ONNX pads 格式: [x1_begin, x2_begin, x1_end, x2_end]
-        if len(pads) == 2:
-            pad_h, pad_w = pads[0], pads[1]
-        elif len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
-        else:
-            pad_h, pad_w = 0, 0
-
-        result = F.conv2d(
-            x, w, bias=bias,
+        pads = _window_pads(attrs, x.shape[2:], outputs[0].shape[2:], kernel_shape, strides, dilations)
+        conv = {1: F.conv1d, 2: F.conv2d, 3: F.conv3d}[nd]
+        result = conv(
+            _pad_spatial(x, pads), w, bias=bias,
             stride=strides,
-            padding=(pad_h, pad_w),
             dilation=dilations,
             groups=group,
         )
@@ -326,18 +343,30 @@ class AveragePoolKernel(Kernel):
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
-        kernel_shape = attrs.get('kernel_shape', (1, 1))
-        strides = attrs.get('strides', (1, 1))
-        pads = attrs.get('pads', (0, 0, 0, 0))
-
-        if len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
-        else:
-            pad_h, pad_w = 0, 0
-
-        outputs[0].copy_(
-            F.avg_pool2d(x, kernel_shape, stride=strides, padding=(pad_h, pad_w))
-        )
+        kernel_shape = attrs['kernel_shape']
+        nd = len(kernel_shape)
+        strides = attrs.get('strides', None) or [1] * nd
+        dilations = attrs.get('dilations', None) or [1] * nd
+        if any(d != 1 for d in dilations):
+            raise NotImplementedError('AveragePool with dilations is not supported')
+
+        pads = _window_pads(attrs, x.shape[2:], outputs[0].shape[2:], kernel_shape, strides, dilations)
+        avg_pool = {1: F.avg_pool1d, 2: F.avg_pool2d, 3: F.avg_pool3d}[nd]
+        result = avg_pool(_pad_spatial(x, pads), kernel_shape, stride=strides)
+        if any(begin > 0 or end > 0 for begin, end in pads):
+            # 除以每个窗口参与平均的元素数，而不是窗口大小
+            count = torch.ones([1, 1] + list(x.shape[2:]), dtype=x.dtype, device=x.device)
+            if attrs.get('count_include_pad', 0):
+                # 显式 pads 参与平均，ceil_mode 多出的部分不参与
+                explicit = attrs.get('pads', None)
+                explicit = [(b, min(e, explicit[nd + i]) if explicit else e) for i, (b, e) in enumerate(pads)]
+                count = _pad_spatial(count, explicit, 1.0)
+                rest = [(0, e - x_e) for (_, e), (_, x_e) in zip(pads, explicit)]
+                count = _pad_spatial(count, rest)
+            else:
+                count = _pad_spatial(count, pads)
+            result = result / avg_pool(count, kernel_shape, stride=strides)
+        outputs[0].copy_(result)
 
 
 @KernelRegistry.register("MaxPool")
@@ -347,17 +376,15 @@ class MaxPoolKernel(Kernel):
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
-        kernel_shape = attrs.get('kernel_shape', (1, 1))
-        strides = attrs.get('strides', (1, 1))
-        pads = attrs.get('pads', (0, 0, 0, 0))
-
-        if len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
-        else:
-            pad_h, pad_w = 0, 0
+        kernel_shape = attrs['kernel_shape']
+        nd = len(kernel_shape)
+        strides = attrs.get('strides', None) or [1] * nd
+        dilations = attrs.get('dilations', None) or [1] * nd
 
+        pads = _window_pads(attrs, x.shape[2:], outputs[0].shape[2:], kernel_shape, strides, dilations)
+        max_pool = {1: F.max_pool1d, 2: F.max_pool2d, 3: F.max_pool3d}[nd]
         outputs[0].copy_(
-            F.max_pool2d(x, kernel_shape, stride=strides, padding=(pad_h, pad_w))
+            max_pool(_pad_spatial(x, pads, float('-inf')), kernel_shape, stride=strides, dilation=dilations)
         )
 
 
@@ -368,8 +395,8 @@ class GlobalAveragePoolKernel(Kernel):
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
-        # [N, C, H, W] -> [N, C, 1, 1]
-        outputs[0].copy_(F.adaptive_avg_pool2d(x, (1, 1)))
+        # [N, C, ...] -> [N, C, 1, ...]
+        outputs[0].copy_(x.mean(dim=tuple(range(2, x.dim())), keepdim=True))
 
 
 @KernelRegistry.register("Flatten")
-- 
2.43.0


From a3d5be7a7e577bed808652c537c257802e41c3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:04 +0000
Subject: [PATCH 113/124] fix: Gather kernels accept negative, scalar and
 multi-dimensional indices (C29)

---
 inference/kernels.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index d80ec0d..6b1f625 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -485,18 +485,11 @@ class GatherKernel(Kernel):
         axis = attrs.get('axis', 0)
         data = inputs[0]
         indices = inputs[1].long()
-        # ONNX Gather: data[indices, ...] 沿 axis 维收集
-        # 使用 torch.index_select 更高效且语义正确
-        if indices.dim() > 1:
-            # 多维 indices: 需要先展平再 reshape
-            flat_idx = indices.reshape(-1)
-            result = torch.index_select(data, axis, flat_idx)
-            # 恢复 indices 的维度
-            out_shape = list(data.shape)
-            out_shape[axis] = indices.numel()
-            outputs[0].copy_(result.reshape(out_shape))
-        else:
-            outputs[0].copy_(torch.index_select(data, axis, indices))
+        # ONNX Gather: 沿 axis 维收集；负索引从末尾数起，输出保留 indices 的维度
+        flat_idx = indices.reshape(-1)
+        flat_idx = torch.where(flat_idx < 0, flat_idx + data.shape[axis], flat_idx)
+        result = torch.index_select(data, axis, flat_idx)
+        outputs[0].copy_(result.reshape(outputs[0].shape))
 
 
 @KernelRegistry.register("Cast")
@@ -1072,6 +1065,7 @@ class GatherElementsKernel(Kernel):
         axis = attrs.get('axis', 0)
         data = inputs[0]
         indices = inputs[1].long()
+        indices = torch.where(indices < 0, indices + data.shape[axis], indices)
         outputs[0].copy_(torch.gather(data, axis, indices))
 
 
-- 
2.43.0


From 34b756c7da822ce2e86a15e37c476f2076342137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:04 +0000
Subject: [PATCH 114/124] fix: reduction kernels without axes reduce every
 dimension (C29)

---
 inference/kernels.py | 47 ++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 6b1f625..a2e03c4 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -125,6 +125,17 @@ def _pad_spatial(x, pads, value: float = 0.0):
     return F.pad(x, [p for pair in reversed(pads) for p in pair], value=value)
 
 
+def _reduce_axes(inputs, attrs: Dict) -> tuple:
+    """归约的轴：inputs[1] (ONNX 18+) 或 attrs['axes']，缺省为所有轴"""
+    if len(inputs) > 1 and inputs[1] is not None:
+        axes = [int(x) for x in inputs[1].cpu().tolist()]
+    else:
+        axes = attrs.get('axes', None)
+    if not axes and not attrs.get('noop_with_empty_axes', 0):
+        axes = range(inputs[0].dim())
+    return tuple(axes or ())
+
+
 # ===========================================================================
 # 注册算子内核
 # ===========================================================================
@@ -617,16 +628,12 @@ class ReduceMeanKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        # axes 来源: inputs[1] (ONNX 18+) 或 attrs['axes']
-        if len(inputs) > 1 and inputs[1] is not None:
-            axes = [int(x) for x in inputs[1].cpu().tolist()]
-        else:
-            axes = attrs.get('axes', None)
+        axes = _reduce_axes(inputs, attrs)
         keepdims = attrs.get('keepdims', 1)
-        if axes is not None:
-            outputs[0].copy_(inputs[0].mean(dim=tuple(axes), keepdim=bool(keepdims)))
+        if axes:
+            outputs[0].copy_(inputs[0].mean(dim=axes, keepdim=bool(keepdims)))
         else:
-            outputs[0].copy_(inputs[0].mean(keepdim=bool(keepdims)))
+            outputs[0].copy_(inputs[0])
 
 
 @KernelRegistry.register("ReduceSum")
@@ -635,16 +642,12 @@ class ReduceSumKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        # axes 来源: inputs[1] (ONNX 18+) 或 attrs['axes']
-        if len(inputs) > 1 and inputs[1] is not None:
-            axes = [int(x) for x in inputs[1].cpu().tolist()]
-        else:
-            axes = attrs.get('axes', None)
+        axes = _reduce_axes(inputs, attrs)
         keepdims = attrs.get('keepdims', 1)
-        if axes is not None:
-            outputs[0].copy_(inputs[0].sum(dim=tuple(axes), keepdim=bool(keepdims)))
+        if axes:
+            outputs[0].copy_(inputs[0].sum(dim=axes, keepdim=bool(keepdims)))
         else:
-            outputs[0].copy_(inputs[0].sum(keepdim=bool(keepdims)))
+            outputs[0].copy_(inputs[0])
 
 
 @KernelRegistry.register("Identity")
@@ -1090,16 +1093,12 @@ class ReduceMaxKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        # axes 来源: inputs[1] (ONNX 18+) 或 attrs['axes']
-        if len(inputs) > 1 and inputs[1] is not None:
-            axes = [int(x) for x in inputs[1].cpu().tolist()]
-        else:
-            axes = attrs.get('axes', None)
+        axes = _reduce_axes(inputs, attrs)
         keepdims = attrs.get('keepdims', 1)
-        if axes is not None:
-            outputs[0].copy_(inputs[0].amax(dim=tuple(axes), keepdim=bool(keepdims)))
+        if axes:
+            outputs[0].copy_(inputs[0].amax(dim=axes, keepdim=bool(keepdims)))
         else:
-            outputs[0].copy_(inputs[0].amax(keepdim=bool(keepdims)))
+            outputs[0].copy_(inputs[0])
 
 
 @KernelRegistry.register("Split")
-- 
2.43.0


From 47373e4634d5636489d3cae4cfcb808c2caac96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:04 +0000
Subject: [PATCH 115/124] fix: Slice with negative steps, Pad order and axes,
 LayerNormalization over several dimensions (C29)

---
 inference/kernels.py | 51 ++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index a2e03c4..3f3d7c9 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -674,13 +674,22 @@ class SliceKernel(Kernel):
 
         # 构建切片
         slices = [slice(None)] * x.ndim
+        reversed_dims = []
         for i, ax in enumerate(axes):
             s = int(starts[i]) if i < len(starts) else 0
             e = int(ends[i]) if i < len(ends) else x.shape[ax]
             step = int(steps[i]) if i < len(steps) else 1
+            if step < 0:
+                # torch 不支持负步长：切出同样的元素，再翻转该维度
+                taken = range(x.shape[ax])[slice(s, e, step)]
+                s, e, step = (taken[-1], taken[0] + 1, -step) if len(taken) else (0, 0, 1)
+                reversed_dims.append(ax)
             slices[ax] = slice(s, e, step)
 
-        outputs[0].copy_(x[tuple(slices)])
+        result = x[tuple(slices)]
+        if reversed_dims:
+            result = torch.flip(result, reversed_dims)
+        outputs[0].copy_(result)
 
 
 @KernelRegistry.register("Pad")
@@ -690,22 +699,29 @@ class PadKernel(Kernel):
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
-        pads = inputs[1].cpu().tolist() if len(inputs) > 1 else attrs.get('pads', [0, 0, 0, 0])
+        pads = inputs[1].cpu().tolist() if len(inputs) > 1 and inputs[1] is not None else attrs.get('pads', [0] * (2 * x.dim()))
         mode = attrs.get('mode', 'constant')
-        value = inputs[2].item() if len(inputs) > 2 else attrs.get('value', 0.0)
+        if isinstance(mode, bytes):
+            mode = mode.decode()
+        value = inputs[2].item() if len(inputs) > 2 and inputs[2] is not None else attrs.get('value', 0.0)
 
-        # ONNX pads: [x1_begin, x2_begin, ..., x1_end, x2_end, ...]
-        # F.pad: (x1_begin, x1_end, x2_begin, x2_end, ...)
-        ndim = len(pads) // 2
-        pad_tuple = []
-        for i in range(ndim):
-            pad_tuple.append(pads[i])           # begin
-            pad_tuple.append(pads[i + ndim])     # end
-        # F.pad 格式从最后一个维度开始
-        pad_tuple = tuple(pad_tuple[::-1])
+        # ONNX pads: [x1_begin, x2_begin, ..., x1_end, x2_end, ...]，只针对 axes (ONNX 18+) 中的维度
+        axes = [int(v) for v in inputs[3].cpu().tolist()] if len(inputs) > 3 and inputs[3] is not None else range(x.dim())
+        dim_pads = [(0, 0)] * x.dim()
+        for i, ax in enumerate(axes):
+            dim_pads[ax] = (int(pads[i]), int(pads[i + len(axes)]))
 
-        torch_mode = {'constant': 'constant', 'reflect': 'reflect', 'edge': 'replicate'}.get(mode, 'constant')
-        outputs[0].copy_(F.pad(x, pad_tuple, mode=torch_mode, value=value))
+        # F.pad: (xn_begin, xn_end, ..., x1_begin, x1_end)，从最后一个维度开始
+        if mode == 'constant':
+            pad_tuple = [p for pair in reversed(dim_pads) for p in pair]
+            outputs[0].copy_(F.pad(x, pad_tuple, mode='constant', value=value))
+        else:
+            # 非 constant 模式不能填充 batch 和 channel 维度
+            if any(p != (0, 0) for p in dim_pads[:2]):
+                raise NotImplementedError(f"Pad mode '{mode}' is only supported on spatial dimensions")
+            pad_tuple = [p for pair in reversed(dim_pads[2:]) for p in pair]
+            torch_mode = {'reflect': 'reflect', 'edge': 'replicate', 'wrap': 'circular'}[mode]
+            outputs[0].copy_(F.pad(x, pad_tuple, mode=torch_mode))
 
 
 @KernelRegistry.register("Resize")
@@ -849,8 +865,11 @@ class LayerNormKernel(Kernel):
             y = y * weight
         else:
             # Layer Norm: y = (x - mean) / sqrt(var + eps) * weight + bias
-            mean = x.mean(dim=-1, keepdim=True)
-            var = x.var(dim=-1, keepdim=True, unbiased=False)
+            # 从 axis 开始的所有维度一起归一化（per-head 时只有最后一维）
+            axis = attrs.get('axis', -1) if x.dim() == inputs[0].dim() else -1
+            dims = tuple(range(axis % x.dim(), x.dim()))
+            mean = x.mean(dim=dims, keepdim=True)
+            var = x.var(dim=dims, keepdim=True, unbiased=False)
             y = (x - mean) / torch.sqrt(var + eps)
             y = y * weight
             if bias is not None:
-- 
2.43.0


From 1fbded452ccf46b84f0df1779cb00cc9506ac589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:04 +0000
Subject: [PATCH 116/124] fix: Slice kernel finds omitted ends from the output
 shape (C29)

---
 inference/kernels.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 3f3d7c9..d4b11fe 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -668,7 +668,7 @@ class SliceKernel(Kernel):
         x = inputs[0]
         # ONNX Slice: inputs[1]=starts, inputs[2]=ends, inputs[3]=axes, inputs[4]=steps
         starts = [int(v) for v in inputs[1].cpu().tolist()] if len(inputs) > 1 and inputs[1] is not None else attrs.get('starts', [0])
-        ends = [int(v) for v in inputs[2].cpu().tolist()] if len(inputs) > 2 and inputs[2] is not None else attrs.get('ends', [x.shape[0]])
+        ends = [int(v) for v in inputs[2].cpu().tolist()] if len(inputs) > 2 and inputs[2] is not None else attrs.get('ends', None)
         axes = [int(v) for v in inputs[3].cpu().tolist()] if len(inputs) > 3 and inputs[3] is not None else attrs.get('axes', list(range(len(starts))))
         steps = [int(v) for v in inputs[4].cpu().tolist()] if len(inputs) > 4 and inputs[4] is not None else attrs.get('steps', [1] * len(starts))
 
@@ -677,8 +677,14 @@ class SliceKernel(Kernel):
         reversed_dims = []
         for i, ax in enumerate(axes):
             s = int(starts[i]) if i < len(starts) else 0
-            e = int(ends[i]) if i < len(ends) else x.shape[ax]
             step = int(steps[i]) if i < len(steps) else 1
+            if ends is not None:
+                e = int(ends[i]) if i < len(ends) else x.shape[ax]
+            else:
+                # compute graph 里可能没有 ends tensor，由输出 shape 得到
+                s = s + x.shape[ax] if s < 0 else s
+                e = s + outputs[0].shape[ax] * step
+                e = e - x.shape[ax] - 1 if e < 0 else e
             if step < 0:
                 # torch 不支持负步长：切出同样的元素，再翻转该维度
                 taken = range(x.shape[ax])[slice(s, e, step)]
-- 
2.43.0


From a9f64d5fc96d1d3b7b9d7de9aa2da84ecd234a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:04 +0000
Subject: [PATCH 117/124] fix: the engine plans every tensor with the element
 size it stores (C29)

---
 inference/infer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/inference/infer.py b/inference/infer.py
index 0220469..7c513f2 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -79,6 +79,14 @@ class GraphInfer:
         # 6. 内存压缩 + MemoryPool（compress_memory 基于最大 shape 分配）
         # 使用 graph.py 的 compress_memory（Best-Fit 策略，按大小降序重排以减少碎片）
         # 检测是否有 kv_cache tensor，有则使用 llm_test 的双池压缩
+        # pool 中的元素都以 self.dtype 存放，规划时也要用这个元素大小
+        # （例如比较算子的 bool 输出按 1 byte/elem 规划会偏小，与其他 tensor 重叠）
+        for tname in self._cg.dynamics:
+            if tname in self._cg.tensormap:
+                tensor = self._cg.tensormap[tname]
+                if tensor.numpy is not None:
+                    tensor.numpy = tensor.numpy.astype(np_dtype)
+                tensor.update_dtype(np_dtype.type)
         has_kv_cache = 'kv_cache' in self._cg.tensormap
         if has_kv_cache:
             from benchmark.llm_test import compress_memory_with_kv_cache
-- 
2.43.0


From cff8b598c99733cb5e71aa5eed85af1c47f79526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:04 +0000
Subject: [PATCH 118/124] fix: the engine allocates scalar results (C29)

---
 inference/infer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/inference/infer.py b/inference/infer.py
index 7c513f2..0844466 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -135,6 +135,13 @@ class GraphInfer:
                 else:
                     self._tensor_views[tname] = self.pool._pool[offset:offset + size].view(dtype=dtype)
 
+        # 标量（rank 0）输出不在内存规划中，单独分配一个元素
+        for node in self._cg.nodemap.values():
+            for tname in node.output:
+                if tname not in self._tensor_views and tname in self._cg.tensormap \
+                        and list(self._cg.tensormap[tname].get_shape()) == []:
+                    self._tensor_views[tname] = torch.empty(1, dtype=dtype, device=device)
+
         # 获取节点执行顺序（按 nodemap 的插入顺序，即拓扑序）
         self._node_names = list(self._cg.nodemap.keys())
 
-- 
2.43.0


From ea3b8eba40c9249d4a06a4c9ecfb0b5c84654c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:04 +0000
Subject: [PATCH 119/124] fix: LayerNormalization kernel recognises the rms
 type read from a model (C30)

---
 inference/kernels.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inference/kernels.py b/inference/kernels.py
index d4b11fe..545dfef 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -856,6 +856,9 @@ class LayerNormKernel(Kernel):
         bias = inputs[2] if len(inputs) > 2 else None
         eps = attrs.get('epsilon', 1e-5)
         norm_type = attrs.get('type', 'layer')
+        if isinstance(norm_type, bytes):
+            # 从 ONNX 读入的字符串属性是 bytes
+            norm_type = norm_type.decode()
 
         # 检测 per-head norm：weight 维度小于 x 最后一维
         head_dim = weight.shape[-1]
-- 
2.43.0


From c913ff618e55c45b283ea9f47514c4854e7999c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:09 +0000
Subject: [PATCH 120/124] fix: optional operands omitted at the end of the list
 count as absent (C31)

---
 onnx_tool/graph.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index e56f58f..d097958 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -94,6 +94,14 @@ def _read_tensors(node):
     return list(node.input) + [t for t in _outer_tensors(node) if t not in node.input]
 
 
+def _used_inputs(n):
+    # omitted optional inputs ('') at the end are as good as absent
+    names = list(n.input)
+    while names and names[-1] == '':
+        names.pop()
+    return names
+
+
 def _shape_tensor_indices(n):
     nodeset = _SHAPE_TENSORS.keys()
     indices = []
@@ -103,7 +111,7 @@ def _shape_tensor_indices(n):
             strs = desc.split('of')
             indice = strs[0]
             count = int(strs[1])
-            if len(n.input) == count:
+            if len(_used_inputs(n)) == count:
                 indices.extend(int(istr) for istr in indice.split(','))
     return indices
 
@@ -364,9 +372,8 @@ class Graph():
                     this_node = self.nodemap[search_nodes[0]]
                     search_nodes.pop(0)
                     if constant_folding:
-                        itensors = []
+                        itensors = self.__input_tensors__(this_node)
                         for input in this_node.input:
-                            itensors.append(self.tensormap[input])
                             if self.tensormap[input].numpy is None and input != '':
                                 warnings.warn(f'Tensor {input} has shape only, {name} may has wrong value infer result')
                         otensors = self.__output_tensors__(this_node)
@@ -1128,6 +1135,9 @@ class Graph():
             if key in self.tensormap.keys():
                 self.tensormap[key].update_tensor(inputs[key])
 
+    def __input_tensors__(self, node):
+        return [self.tensormap[name] for name in _used_inputs(node)]
+
     def __output_tensors__(self, node):
         # an omitted output ('') must not write into the tensor that stands for omitted inputs
         return [self.tensormap[name] if name != '' else Tensor('') for name in node.output]
@@ -1163,9 +1173,7 @@ class Graph():
         for key in self.nodemap.keys():
             tm.start()
             node = self.nodemap[key]
-            itensors = []
-            for input in node.input:
-                itensors.append(self.tensormap[input])
+            itensors = self.__input_tensors__(node)
             otensors = self.__output_tensors__(node)
             try:
                 if node.shape_calc:
@@ -1186,9 +1194,7 @@ class Graph():
         self.update_input_by_map(inputs)
         for key in self.nodemap.keys():
             node = self.nodemap[key]
-            itensors = []
-            for input in node.input:
-                itensors.append(self.tensormap[input])
+            itensors = self.__input_tensors__(node)
             otensors = self.__output_tensors__(node)
             node.value_infer(itensors, otensors)
         outputs = []
@@ -1561,15 +1567,13 @@ class Graph():
         static_tensors = {}
         for key in self.profiled_nodes:
             node = self.nodemap[key]
-            itensors = []
+            itensors = self.__input_tensors__(node)
             _params = 0
             _memory = 0
             max_sparsity = 0
             block_sparsity = {'blocksize': (1, 1), 'blockratio': 0, 'ratio': 0}
 
-            for input in node.input:
-                tensor = self.tensormap[input]
-                itensors.append(tensor)
+            for tensor in itensors:
                 if tensor.sparsity is not None and tensor.sparsity['ratio'] > max_sparsity:
                     max_sparsity = tensor.sparsity['ratio']
                     block_sparsity = tensor.sparsity
-- 
2.43.0


From 92dfbb89bb2b360f82022766ea49181ea204564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:09 +0000
Subject: [PATCH 121/124] fix: shape_regress numbers its variables after input
 variables named by numbers (C31)

---
 onnx_tool/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index d097958..4c24661 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1235,7 +1235,8 @@ class Graph():
                     shape_desc.append('')
             shapeengine.add_tensor_desc(key, shape_desc)
 
-        vcount = 0
+        # numbers name the variables found here, so they start after the input variables named by numbers
+        vcount = 1 + max((int(key) for key in input_range if key.isdecimal()), default=-1)
         for key in input_range.keys():
             minv = input_range[key][0]
             maxv = input_range[key][1]
@@ -1280,7 +1281,7 @@ class Graph():
                                 desc = shapeengine.get_tensor_desc(iname)
                                 if desc is not None:
                                     for ele in desc:
-                                        if not isinstance(ele, int) and ele.isnumeric():
+                                        if not isinstance(ele, int) and ele.isdecimal():
                                             if int(ele) >= vcount:
                                                 srcvalkey.append(ele)
                             dstranges.append(newrange)
-- 
2.43.0


From 5601f708bfbd043f4627ce6ab1392fcc9389971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:09 +0000
Subject: [PATCH 122/124] fix: Resize without a mode attribute has the mode
 nearest (C31)

---
 onnx_tool/node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8b1f2c4..7e62cf3 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1394,6 +1394,10 @@ class ShapeNode(Node):
 
 @NODE_REGISTRY.register()
 class ResizeNode(Node):
+    def __init__(self, n):
+        super(ResizeNode, self).__init__(n)
+        self.add_default_value('mode', b'nearest')
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         roi = []
-- 
2.43.0


From e212c493b5dd14ae50c138bd721fac98469aca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:09 +0000
Subject: [PATCH 123/124] fix: ConvBNFusion leaves nodes alone that carry fused
 operators (C32)

---
 onnx_tool/fusion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index b0c9fb5..0d20375 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -441,6 +441,8 @@ def ConvBNFusion(graph: Graph):
             continue  # not known before run time
         if len([o for o in bn_node.output if o != '']) > 1 or getattr(bn_node, 'training_mode', 0):
             continue
+        if getattr(conv_node, 'postop_count', 0) or getattr(bn_node, 'postop_count', 0):
+            continue  # fused operators stand between the two, or behind the normalization
         weight, gamma, beta, mean, var = params[:5]
         bias = params[5] if hasbias else numpy.zeros((weight.shape[0],))
         scale = gamma.astype(numpy.float64) / numpy.sqrt(var.astype(numpy.float64) + bn_node.epsilon)
-- 
2.43.0


From 63f3445e013d43c7f75b36e66b983b226087fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:09 +0000
Subject: [PATCH 124/124] fix: declared graph outputs that are read again or
 constant stay outputs when dangling results are kept (C07)

---
 onnx_tool/graph.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 4c24661..69a86dd 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -331,8 +331,6 @@ class Graph():
             self.tensormap.pop(tname)
 
         self.input = []
-        if not self.cfg.remove_dangling:
-            self.output = []
         for name in self.nodemap.keys():
             node = self.nodemap[name]
             for tensor in _read_tensors(node):
@@ -341,6 +339,8 @@ class Graph():
                         self.input.append(tensor)
             if not self.cfg.remove_dangling:
                 for tensor in node.output:
+                    if tensor == '':
+                        continue
                     if tensor not in self.consumedby or len(self.consumedby[tensor]) == 0:
                         if tensor not in self.output:
                             self.output.append(tensor)
@@ -594,10 +594,9 @@ class Graph():
         for output in g.output:
             if output.name not in self.tensormap.keys():
                 self.tensormap[output.name] = Tensor(output)
-        if self.cfg.remove_dangling:
-            self.output = []
-            for o in g.output:
-                self.output.append(o.name)
+        self.output = []
+        for o in g.output:
+            self.output.append(o.name)
         # init dynamic tensor info
         for valinfo in g.value_info:
             if valinfo.name not in self.tensormap.keys():
-- 
2.43.0

