From bfc5250893ba031d49a264291c4c6abf68cb9aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:43 +0000
Subject: [PATCH 01/45] fix: keep the stride phase of convolutions with
 temporal kernel size one

get_state regarded the (zero-length) buffer of such a convolution as
uninitialised, so every forward_step started over and nothing was skipped.
---
 continual/conv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/continual/conv.py b/continual/conv.py
index 697d445..bd684f3 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -160,7 +160,8 @@ class _ConvCoNd(CoModule, _ConvNd):
         self.stride_index = torch.tensor(0)
 
     def get_state(self) -> Optional[State]:
-        if len(self.state_buffer) > 0:
+        # A kernel of size one has an initialised buffer with zero entries
+        if len(self.state_buffer) > 0 or self.state_buffer.dim() > 1:
             return (self.state_buffer, self.state_index, self.stride_index)
         return None
 
-- 
2.43.0


From 40d90ade0294a566d668b5ac80d0a81a04864a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:43 +0000
Subject: [PATCH 02/45] fix: temporal dilation in continual pooling

The ring buffer holds dilation * (kernel_size - 1) + 1 frames, but its index
wrapped at kernel_size, and the receptive field was overstated.
---
 continual/pooling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 215a761..1a475a4 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -191,7 +191,7 @@ class _PoolNd(CoModule, nn.Module):
         buffer[index] = pooled_frame
 
         next_buffer = buffer  # .clone() if self.training else buffer.detach()
-        next_index = (index + 1) % self.kernel_size[0]
+        next_index = (index + 1) % len(buffer)
         next_stride_index = stride_index + 1
         if next_stride_index > 0:
             next_stride_index = next_stride_index % self.stride[0]
@@ -220,7 +220,7 @@ class _PoolNd(CoModule, nn.Module):
 
     @property
     def receptive_field(self) -> int:
-        return self.dilation[0] * self.kernel_size[0]
+        return self.dilation[0] * (self.kernel_size[0] - 1) + 1
 
 
 class AvgPool1d(nn.AvgPool1d, _PoolNd):
-- 
2.43.0


From 920058a489e2e380eaed6ac97c88e106ad8c9e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:05 +0000
Subject: [PATCH 03/45] fix: temporal padding of continual max pooling is
 negative infinity

Zero padding is not neutral for a maximum over negative inputs: the stream
differed from forward wherever a window included start or end padding.
---
 continual/pooling.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index 1a475a4..a924379 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -659,7 +659,7 @@ class MaxPool1d(nn.MaxPool1d, _PoolNd):
     @staticmethod
     def build_from(
         module: nn.MaxPool1d,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
         **kwargs,
     ) -> "MaxPool1d":
         return MaxPool1d(
@@ -749,7 +749,7 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
         dilation: _size_2_t = 1,
         # return_indices: bool = False, # Not supported
         ceil_mode: bool = False,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.kernel_size = _pair(kernel_size)
         self.stride = _pair(stride if (stride is not None) else kernel_size)
@@ -780,7 +780,7 @@ class MaxPool2d(nn.MaxPool2d, _PoolNd):
 
     @staticmethod
     def build_from(
-        module: nn.MaxPool2d, temporal_fill: PaddingMode = "zeros", **kwargs
+        module: nn.MaxPool2d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool2d":
         return MaxPool2d(
             **{
@@ -873,7 +873,7 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
         dilation: _size_3_t = 1,
         # return_indices: bool = False, # Not supported
         ceil_mode: bool = False,
-        temporal_fill: PaddingMode = "zeros",
+        temporal_fill: PaddingMode = "neg_inf",
     ) -> None:
         self.kernel_size = _triple(kernel_size)
         self.stride = _triple(stride if (stride is not None) else kernel_size)
@@ -904,7 +904,7 @@ class MaxPool3d(nn.MaxPool3d, _PoolNd):
 
     @staticmethod
     def build_from(
-        module: nn.MaxPool3d, temporal_fill: PaddingMode = "zeros", **kwargs
+        module: nn.MaxPool3d, temporal_fill: PaddingMode = "neg_inf", **kwargs
     ) -> "MaxPool3d":
         return MaxPool3d(
             **{
-- 
2.43.0


From 6101fa28ec3f5c3342b92b210ab30b2813ae4522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:05 +0000
Subject: [PATCH 04/45] fix: auto_shrink="centered" delays like
 auto_shrink=True in streams

The documented synonym was only honoured during forward.
---
 continual/delay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/delay.py b/continual/delay.py
index 69aea83..f67ec52 100644
--- a/continual/delay.py
+++ b/continual/delay.py
@@ -70,7 +70,7 @@ class Delay(CoModule, torch.nn.Module):
         state_buffer = torch.stack([padding for _ in range(self.delay)], dim=0)
         state_index = torch.tensor(
             -2 * self.delay
-            if self.auto_shrink and isinstance(self.auto_shrink, bool)
+            if self.auto_shrink in {True, "centered"}
             else -self.delay
         )
         return state_buffer, state_index
-- 
2.43.0


From e2a0ac57419a0d085a7c02a3f391c6fa6c4188ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:05 +0000
Subject: [PATCH 05/45] fix: end padding of shrinking delays

forward_steps with pad_end=True produced steps which forward cuts off, and
a Residual with residual_shrink failed on mismatching lengths.
---
 continual/delay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/delay.py b/continual/delay.py
index f67ec52..78b4665 100644
--- a/continual/delay.py
+++ b/continual/delay.py
@@ -120,7 +120,9 @@ class Delay(CoModule, torch.nn.Module):
         if self._delay == 0:
             return input
 
-        with temporary_parameter(self, "padding", (self.delay,)):
+        # A shrinking delay removes the last steps instead of padding them
+        pad = 0 if self.auto_shrink else self.delay
+        with temporary_parameter(self, "padding", (pad,)):
             output = CoModule.forward_steps(self, input, pad_end, update_state)
 
         return output
-- 
2.43.0


From 9263f8311e9a038039606bd3096d323869abb381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:41 +0000
Subject: [PATCH 06/45] fix: divisor_override of average pooling in streams

AvgPool2d ignored it, and AvgPool3d divided by the temporal kernel size on
top of it.
---
 continual/pooling.py | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index a924379..c5d28fe 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -35,6 +35,23 @@ def unity(x: Tensor) -> Tensor:
     return x
 
 
+def _divided_pool1d(x: Tensor, scale: float, kernel_size, stride, padding, ceil_mode):
+    """Sum pooling over one spatial dimension with subsequent scaling"""
+    return F.avg_pool2d(
+        x.unsqueeze(-2),
+        (1, *kernel_size),
+        (1, *stride),
+        (0, *padding),
+        ceil_mode,
+        divisor_override=1,
+    ).squeeze(-2).mul(scale)
+
+
+def _divided_pool2d(x: Tensor, scale: float, **kwargs):
+    """Sum pooling over two spatial dimensions with subsequent scaling"""
+    return F.avg_pool2d(x, divisor_override=1, **kwargs).mul(scale)
+
+
 class PoolType(Enum):
     AVG = "avg"
     MAX = "max"
@@ -421,6 +438,16 @@ class AvgPool2d(nn.AvgPool2d, _PoolNd):
             dilation=self.dilation,
             temporal_fill=temporal_fill,
         )
+        if self.divisor_override is not None:
+            # The subsequent temporal average divides by the temporal kernel size
+            self._spatial_pool_fn = partial(
+                _divided_pool1d,
+                scale=self.kernel_size[0] / self.divisor_override,
+                kernel_size=self.kernel_size[1:],
+                stride=self.stride[1:],
+                padding=self.padding[1:],
+                ceil_mode=self.ceil_mode,
+            )
 
     @staticmethod
     def build_from(
@@ -543,7 +570,6 @@ class AvgPool3d(nn.AvgPool3d, _PoolNd):
                 padding=self.padding[1:],
                 ceil_mode=self.ceil_mode,
                 count_include_pad=self.count_include_pad,
-                divisor_override=self.divisor_override,
             ),
             num_input_dims=3,
             kernel_size=self.kernel_size,
@@ -552,6 +578,16 @@ class AvgPool3d(nn.AvgPool3d, _PoolNd):
             dilation=self.dilation,
             temporal_fill=temporal_fill,
         )
+        if self.divisor_override is not None:
+            # The subsequent temporal average divides by the temporal kernel size
+            self._spatial_pool_fn = partial(
+                _divided_pool2d,
+                scale=self.kernel_size[0] / self.divisor_override,
+                kernel_size=self.kernel_size[1:],
+                stride=self.stride[1:],
+                padding=self.padding[1:],
+                ceil_mode=self.ceil_mode,
+            )
 
     @staticmethod
     def build_from(
-- 
2.43.0


From abdbed747b1fbd01907dd5061efb032b45a8a17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 07/45] fix: set validated call modes in BroadcastReduce

---
 continual/container.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 9960a5b..e122761 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -871,7 +871,7 @@ class BroadcastReduce(Sequential):
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward_step"):
+            with temporary_parameter(m, "call_mode", _callmode("forward_step")):
                 outs.append(m(input, update_state=update_state))  # == m.forward_step
         if all(isinstance(o, Tensor) for o in outs):
             return self.reduce(outs)
@@ -881,7 +881,7 @@ class BroadcastReduce(Sequential):
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward_steps"):
+            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
                 # m.forward_steps
                 outs.append(m(input, pad_end=pad_end, update_state=update_state))
 
@@ -890,7 +890,7 @@ class BroadcastReduce(Sequential):
     def forward(self, input: Tensor) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", "forward"):
+            with temporary_parameter(m, "call_mode", _callmode("forward")):
                 outs.append(apply_forward(m, input))
 
         return self.reduce(outs)
-- 
2.43.0


From 8d218e3ea3ca166759aefbb62d540f6567ceba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:11 +0000
Subject: [PATCH 08/45] fix: end padding without state update continues from
 the given input

---
 continual/module.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index c64accf..ed48835 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -275,9 +275,8 @@ class CoModule(ABC):
 
         if pad_end:
             # Don't save state for the end-padding
-            opt_state = self.get_state()
-            if opt_state is not None:
-                state = _clone_first(opt_state)
+            if state is not None:
+                state = _clone_first(state)
 
             for t, i in enumerate(
                 [self._make_padding(input[:, :, -1]) for _ in range(self.padding[0])]
-- 
2.43.0


From 58f54e8091f8f4654b08fca0fc68efc51750d300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:41 +0000
Subject: [PATCH 09/45] fix: parallel streams without output are passed on

---
 continual/container.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/continual/container.py b/continual/container.py
index e122761..581f0e5 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -318,7 +318,10 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
         prev_state = prev_state or [None for _ in range(len(self))]
         outs, next_state = [], []
         for i, module in enumerate(self):
-            out, n_state = module._forward_step(inputs[i], prev_state=prev_state[i])
+            if inputs[i] is None:  # No output on this stream (yet)
+                out, n_state = None, prev_state[i]
+            else:
+                out, n_state = module._forward_step(inputs[i], prev_state=prev_state[i])
             outs.append(out)
             next_state.append(n_state)
         return outs, next_state
@@ -326,6 +329,9 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     def forward_step(self, inputs: List[T], update_state=True) -> List[T]:
         outs = []
         for i, m in enumerate(self):
+            if inputs[i] is None:  # No output on this stream (yet)
+                outs.append(None)
+                continue
             with temporary_parameter(m, "call_mode", _callmode("forward_step")):
                 outs.append(m(inputs[i], update_state=update_state))
         return outs
@@ -335,6 +341,9 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
     ) -> List[T]:
         outs = []
         for i, m in enumerate(self):
+            if inputs[i] is None:  # No output on this stream (yet)
+                outs.append(None)
+                continue
             with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
                 outs.append(m(inputs[i], pad_end=pad_end, update_state=update_state))
         return outs
-- 
2.43.0


From bcc1769d48c7f7e128c039dd2484c6f4a8d05225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:22 +0000
Subject: [PATCH 10/45] fix: automatic delay of strided parallel modules

---
 continual/container.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 581f0e5..0a17ce7 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -106,6 +106,14 @@ def nonempty(fn: ReductionFunc) -> ReductionFunc:
     return wrapped
 
 
+def _add_delay(module: CoModule, delay: int) -> "Sequential":
+    if num_from(getattr(module, "stride", 1)) == 1:
+        return Sequential(module, Delay(delay))
+
+    # Steps are counted on the input of the strided module
+    return Sequential(OrderedDict([("1", Delay(delay)), ("0", module)]))
+
+
 class FlattenableStateDict:
     """Mixes in the ability to flatten state dicts.
     It is assumed that classes that inherit this module also inherit from nn.Module
@@ -275,7 +283,7 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
                 (
                     key,
                     (
-                        Sequential(module, Delay(max_delay - module.delay))
+                        _add_delay(module, max_delay - module.delay)
                         if module.delay < max_delay
                         else module
                     ),
@@ -822,7 +830,7 @@ class BroadcastReduce(Sequential):
                 (
                     key,
                     (
-                        Sequential(module, Delay(max_delay - module.delay))
+                        _add_delay(module, max_delay - module.delay)
                         if module.delay < max_delay
                         else module
                     ),
-- 
2.43.0


From a17ee3c17bd2eeeafafa36611b904cd6e0c4136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:06 +0000
Subject: [PATCH 11/45] fix: end padding of one module does not enter the state
 of the next

---
 continual/container.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/continual/container.py b/continual/container.py
index 0a17ce7..cb2fd10 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -683,6 +683,14 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
         return [m._dynamic_state_inds for m in self]
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True):
+        if pad_end and update_state and len(self) > 1:
+            # Results of end-padding in one module aren't part of the stream seen by the next
+            output = self._forward_steps_chain(input, pad_end, update_state=False)
+            self._forward_steps_chain(input, pad_end=False, update_state=True)
+            return output
+        return self._forward_steps_chain(input, pad_end, update_state)
+
+    def _forward_steps_chain(self, input: Tensor, pad_end: bool, update_state: bool):
         for m in self:
             if not type(input) in {Tensor, list} or len(input) == 0:
                 return None  # pragma: no cover
-- 
2.43.0


From 859211d7be91179e5cb4de9cb6adb7059a9c6765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:49 +0000
Subject: [PATCH 12/45] fix: pass keyword arguments through forward_stepping
 modules

---
 continual/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/convert.py b/continual/convert.py
index 8e80149..fde95c8 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -106,7 +106,7 @@ def forward_stepping(module: nn.Module, dim: int = 2):
             else getattr(module, "call_mode", _callmode("forward"))
         )
         if _call_mode == _callmode("forward"):
-            return orig_forward(*args, *kwargs)
+            return orig_forward(*args, **kwargs)
         return CoModule._call_impl(module, *args, **kwargs)
 
     module.forward = forward_with_callmode
-- 
2.43.0


From 2dd1e411bda7b8c1032c53618e807a95e5b33de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:57 +0000
Subject: [PATCH 13/45] fix: restore temporary parameters after exceptions

---
 continual/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/continual/utils.py b/continual/utils.py
index 0136b5e..fccdcae 100644
--- a/continual/utils.py
+++ b/continual/utils.py
@@ -50,12 +50,13 @@ def temporary_parameter(obj, attr: str, val):
 
     rsetattr(obj, attr, val)
 
-    yield obj
-
-    if do_del:
-        delattr(obj, attr)
-    else:
-        rsetattr(obj, attr, prev_val)
+    try:
+        yield obj
+    finally:
+        if do_del:
+            delattr(obj, attr)
+        else:
+            rsetattr(obj, attr, prev_val)
 
 
 class _FlatStateDict(object):
-- 
2.43.0


From a1becbac6d00932cd2c37df2b51863c7ef01a1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 14/45] fix: call modes given as integers

---
 continual/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/module.py b/continual/module.py
index ed48835..e28827c 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -50,7 +50,7 @@ def _callmode(cm) -> torch.Tensor:
     if isinstance(cm, str):
         cm = CALL_MODES[cm.lower()]
     elif isinstance(cm, int):
-        cm = torch.tensor(int)
+        cm = list(CALL_MODES.values())[cm]
     return cm
 
 
-- 
2.43.0


From 6db0a911b81b2cb6ddd9f77bbc887279b24ccfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 15/45] fix: nested call_mode contexts

---
 continual/module.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index e28827c..c709150 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -75,18 +75,20 @@ class _CallModeContext(object):
     def __init__(self):
         self.cur = _callmode("forward")
         self.prev = None
+        self._outer = []  # (cur, prev) of enclosing contexts
 
     def __call__(self, value: Union[str, int, torch.Tensor]):
+        value = _callmode(value)
+        self._outer.append((self.cur, self.prev))
         self.prev = self.cur
-        self.cur = _callmode(value)
+        self.cur = value
         return self
 
     def __enter__(self):
         pass
 
     def __exit__(self, *args, **kwargs):
-        self.cur = self.prev
-        self.prev = None
+        self.cur, self.prev = self._outer.pop()
 
 
 call_mode = _CallModeContext()
-- 
2.43.0


From 90e2c0d90930110243f9e0bc5dbe51d699de5611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:48 +0000
Subject: [PATCH 16/45] fix: Conditional.forward_steps respects pad_end and
 update_state

---
 continual/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index cb2fd10..9e4992c 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1089,9 +1089,9 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         if self.predicate(self, input):
-            return self._modules["0"].forward_steps(input)
+            return self._modules["0"].forward_steps(input, pad_end, update_state)
         elif "1" in self._modules:
-            return self._modules["1"].forward_steps(input)
+            return self._modules["1"].forward_steps(input, pad_end, update_state)
         return input
 
     @property
-- 
2.43.0


From b64f052bd891ab6030997273f94a01327f378103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:57 +0000
Subject: [PATCH 17/45] fix: explicit state of Conditional holds the state of
 each module

---
 continual/container.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 9e4992c..7b37dd6 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1080,12 +1080,17 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
     def _forward_step(
         self, input: Tensor, prev_state: Optional[State] = None
     ) -> Tuple[Tensor, Optional[State]]:
-        prev_state = prev_state or [None, None]
+        next_state = list(prev_state or [None for _ in self._modules])
         if self.predicate(self, input):
-            return self._modules["0"]._forward_step(input, prev_state[0])
+            i = 0
         elif "1" in self._modules:
-            return self._modules["1"]._forward_step(input, prev_state[1])
-        return input, prev_state
+            i = 1
+        else:
+            return input, next_state
+        output, next_state[i] = self._modules[str(i)]._forward_step(
+            input, next_state[i]
+        )
+        return output, next_state
 
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         if self.predicate(self, input):
-- 
2.43.0


From fc48122f3c1a2d9c105f27a84a8d202aacbc8cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:06 +0000
Subject: [PATCH 18/45] fix: Conditional.clean_state cleans the state of its
 modules

---
 continual/container.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/continual/container.py b/continual/container.py
index 7b37dd6..9b81ce3 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1115,5 +1115,10 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
     def receptive_field(self) -> int:
         return self._receptive_field
 
+    def clean_state(self):
+        for m in self._modules.values():
+            if hasattr(m, "clean_state"):
+                m.clean_state()
+
     def extra_repr(self):
         return f"predicate={function_repr(self.predicate)}"
-- 
2.43.0


From e7f5cb62fb1b9ff637d532b89b2846daa417f590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:15 +0000
Subject: [PATCH 19/45] fix: stride, padding and receptive field of Conditional

---
 continual/container.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 9b81ce3..1675bdf 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1044,10 +1044,6 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
 
         # Ensure modules have the same delay
         self._delay = max(on_true.delay, getattr(on_false, "delay", 0))
-        self._receptive_field = max(
-            on_true.receptive_field, getattr(on_false, "receptive_field", 1)
-        )
-
         self.add_module(
             "0",
             on_true
@@ -1063,6 +1059,10 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
                 else Sequential(Delay(self._delay - on_false.delay), on_false),
             )
 
+        self._receptive_field = max(
+            m.receptive_field for m in self._modules.values()
+        )
+
     def forward(self, input: Tensor) -> Tensor:
         if self.predicate(self, input):
             return apply_forward(self._modules["0"], input)
@@ -1115,6 +1115,14 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
     def receptive_field(self) -> int:
         return self._receptive_field
 
+    @property
+    def stride(self) -> Tuple[int]:
+        return getattr(self._modules["0"], "stride", (1,))
+
+    @property
+    def padding(self) -> Tuple[int]:
+        return (max(getattr(m, "padding", (0,))[0] for m in self._modules.values()),)
+
     def clean_state(self):
         for m in self._modules.values():
             if hasattr(m, "clean_state"):
-- 
2.43.0


From cd149be5825ca4f32121a6ad6fbb5f7236aa355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:41 +0000
Subject: [PATCH 20/45] fix: modules shared in a network are only enhanced once

---
 continual/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/convert.py b/continual/convert.py
index fde95c8..57bb6c4 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -224,7 +224,7 @@ def continual(module: nn.Module) -> CoModule:
         ))
 
     """
-    if isinstance(module, CoModule):
+    if isinstance(module, CoModule) or CoModule.is_valid(module):
         return module
 
     if type(module) in NAIVE_MAPPING:
-- 
2.43.0


From b5adf3463d2e11bcfd408a8cc6e8c12bd6cdd6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:51 +0000
Subject: [PATCH 21/45] fix: attention steps leave the passed state untouched

---
 continual/multihead_attention/mha_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index f65cf8c..fbe97ec 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -418,7 +418,7 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
         )
         stride_index = prev_state[-1]
         if stride_index < 0:
-            stride_index += 1
+            stride_index = stride_index + 1
 
         new_state = (*new_state, stride_index)
 
-- 
2.43.0


From a5946a960c7defe556bc8e6a6e93452f6478bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 22/45] fix: attention steps without state update on a fresh
 module

---
 continual/multihead_attention/mha_base.py | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index fbe97ec..57eed5c 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -11,10 +11,6 @@ from continual.module import CoModule
 State = List[Tensor]
 
 
-def _clone_state(state):
-    return [s.clone() if isinstance(s, torch.Tensor) else s for s in state]
-
-
 # Copy of torch.nn impl
 def multi_head_attention_forward_step(  # noqa: C901
     scaled_dot_product_attention_step: Callable,
@@ -460,9 +456,6 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         tmp_state = self.get_state()
 
-        if not update_state and tmp_state:
-            backup_state = _clone_state(tmp_state)
-
         o, tmp_state = MultiheadAttentionBase._forward_step(
             self, query, key, value, tmp_state
         )
@@ -472,8 +465,6 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         if update_state:
             self.set_state(tmp_state)
-        elif tmp_state is not None:
-            self.set_state(backup_state)
 
         return o
 
@@ -514,9 +505,6 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         tmp_state = self.get_state()
 
-        if not update_state and tmp_state:
-            backup_state = _clone_state(tmp_state)
-
         T = query.shape[0]
         assert T == key.shape[0]
         assert T == value.shape[0]
@@ -533,8 +521,6 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
 
         if update_state:
             self.set_state(tmp_state)
-        elif backup_state is not None:
-            self.set_state(backup_state)
 
         if len(outs) == 0:
             return o
-- 
2.43.0


From 63c780a68df126dca8c10a96eb1952f774a9d5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:09 +0000
Subject: [PATCH 23/45] fix: attention steps with separate key and value
 dimensions

---
 continual/multihead_attention/mha_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/continual/multihead_attention/mha_base.py b/continual/multihead_attention/mha_base.py
index 57eed5c..f389b9d 100644
--- a/continual/multihead_attention/mha_base.py
+++ b/continual/multihead_attention/mha_base.py
@@ -411,6 +411,10 @@ class MultiheadAttentionBase(CoModule, MultiheadAttention):
             self.out_proj.weight,
             self.out_proj.bias,
             training=self.training,
+            use_separate_proj_weight=not self._qkv_same_embed_dim,
+            q_proj_weight=self.q_proj_weight,
+            k_proj_weight=self.k_proj_weight,
+            v_proj_weight=self.v_proj_weight,
         )
         stride_index = prev_state[-1]
         if stride_index < 0:
-- 
2.43.0


From 03f7f4cb5ab8c32c0b1c017a1b0a54cafd8f69ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:16 +0000
Subject: [PATCH 24/45] fix: buffer index of retroactive residuals

---
 continual/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 21dcc4f..79a7722 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -91,7 +91,7 @@ class RetroactiveUnity(Delay):
         buffer[index % (self.delay + 1)] = input
         new_index = index + 1
         if new_index > 0:
-            new_index = new_index % self.delay
+            new_index = new_index % (self.delay + 1)
 
         # Get output
         output = None
-- 
2.43.0


From 336534085493ed9a6b049f02ae78082d87ed1c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 25/45] fix: residual of single-output encoder layers follows
 the query index

---
 continual/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 79a7722..05e24e1 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -8,7 +8,7 @@ from torch import Tensor, nn
 
 from continual.delay import State as DelayState
 
-from .closure import Identity, Lambda
+from .closure import Lambda
 from .container import BroadcastReduce, Residual, Sequential
 from .delay import Delay, PaddingMode
 from .linear import Linear
@@ -270,7 +270,7 @@ def SingleOutputTransformerEncoderLayer(
                         "residual",
                         SelectOrDelay(mha.delay)
                         if single_output_forward
-                        else Identity(),
+                        else Delay(mha.delay),
                     ),
                     (
                         "self_attn",
-- 
2.43.0


From 0e19c0c0d1cc50c0af4e3493c93c655c30d2fb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 26/45] fix: gelu activation in transformer encoder layers

---
 continual/transformer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/continual/transformer.py b/continual/transformer.py
index 05e24e1..5688105 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -244,7 +244,9 @@ def SingleOutputTransformerEncoderLayer(
                 ),
                 (
                     "activation",
-                    activation,
+                    activation
+                    if isinstance(activation, nn.Module)
+                    else Lambda(activation, takes_time=True),
                 ),
                 (
                     "dropout",
@@ -472,7 +474,7 @@ def TransformerEncoderLayerFactory(
     if activation in {"relu", "gelu"}:
         activation = {
             "relu": nn.functional.relu,
-            "gelu": nn.functional.relu,
+            "gelu": nn.functional.gelu,
         }[activation]
 
     def TransformerEncoderLayer(mha_type: MhaType):
-- 
2.43.0


From a66851156822afb227da1f51ad5da9713150ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 27/45] fix: state handling of RecyclingPositionalEncoding

---
 continual/positional_encoding.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/continual/positional_encoding.py b/continual/positional_encoding.py
index b55bfd5..9bd9a28 100644
--- a/continual/positional_encoding.py
+++ b/continual/positional_encoding.py
@@ -180,7 +180,7 @@ class RecyclingPositionalEncoding(co.CoModule, nn.Module):
         self, input: Tensor, prev_state: Optional[State] = None
     ) -> Tuple[Tensor, State]:
         if prev_state is None:
-            state_index = self.init_state()[0]
+            state_index = torch.tensor(0)
         else:
             state_index = prev_state[0]
         output = input + self.pe(state_index.unsqueeze(0))
@@ -192,5 +192,11 @@ class RecyclingPositionalEncoding(co.CoModule, nn.Module):
         self.state_index = torch.tensor(0)
         return (self.state_index,)
 
+    def get_state(self) -> State:
+        return (self.state_index,)
+
+    def set_state(self, state: State):
+        (self.state_index,) = state
+
     def clean_state(self):
         self.state_index = torch.tensor(0)
-- 
2.43.0


From cb383b0f1b5bff7979b2e5798f9642a2b2dacb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 28/45] fix: block outputs of single-output attention with
 sequence first

---
 continual/multihead_attention/single_output_mha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continual/multihead_attention/single_output_mha.py b/continual/multihead_attention/single_output_mha.py
index 819b09a..1739ab5 100644
--- a/continual/multihead_attention/single_output_mha.py
+++ b/continual/multihead_attention/single_output_mha.py
@@ -393,7 +393,7 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
         )
 
         if isinstance(o, Tensor):
-            o = o.squeeze(2)
+            o = o.squeeze(2 if self.batch_first else 1)
             if self.embed_dim_second:
                 o = o.transpose(1, 2)  # N T E -> N E T
 
-- 
2.43.0


From b41ffcf4f8f5387003aa15877115971502b4c6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 29/45] fix: do not convert norm_first encoders to a different
 function

---
 continual/transformer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/continual/transformer.py b/continual/transformer.py
index 5688105..1600c20 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -584,6 +584,7 @@ class TransformerEncoder(Sequential):
 
         # Create model
         tel = trans_enc.layers[0]
+        assert not tel.norm_first, "Encoder layers with norm_first are not supported"
         layer_factory = TransformerEncoderLayerFactory(
             d_model=tel.self_attn.embed_dim,
             nhead=tel.self_attn.num_heads,
-- 
2.43.0


From 642d17e3383e8171d10884a56ffb4b399a89743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:40 +0000
Subject: [PATCH 30/45] fix: do not convert bidirectional recurrent networks to
 unidirectional ones

---
 continual/rnn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/continual/rnn.py b/continual/rnn.py
index 905cc51..1d54b4d 100644
--- a/continual/rnn.py
+++ b/continual/rnn.py
@@ -154,6 +154,7 @@ class RNN(CoModule, nn.RNN):
 
     @staticmethod
     def build_from(module: nn.RNN, **kwargs) -> "RNN":
+        assert not module.bidirectional, "Bidirectional modules cannot be continual"
         comodule = RNN(
             **{
                 **dict(
@@ -370,6 +371,7 @@ class GRU(CoModule, nn.GRU):
 
     @staticmethod
     def build_from(module: nn.GRU, **kwargs) -> "GRU":
+        assert not module.bidirectional, "Bidirectional modules cannot be continual"
         comodule = GRU(
             **{
                 **dict(
@@ -626,6 +628,7 @@ class LSTM(CoModule, nn.LSTM):
 
     @staticmethod
     def build_from(module: nn.LSTM, **kwargs) -> "LSTM":
+        assert not module.bidirectional, "Bidirectional modules cannot be continual"
         comodule = LSTM(
             **{
                 **dict(
-- 
2.43.0


From 06f03cd98287c70984896f4e431a5c947554dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 31/45] fix: forward_stepping of modules with a single number
 as stride or padding

---
 continual/convert.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index 57bb6c4..20dc2c8 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -5,6 +5,7 @@ from types import FunctionType
 from typing import Callable, Type, Union
 
 from torch import Tensor, nn
+from torch.nn.modules.utils import _single
 
 from .closure import Lambda
 from .container import Sequential
@@ -87,8 +88,8 @@ def forward_stepping(module: nn.Module, dim: int = 2):
     module._forward_step = _forward_step(module.forward)
     module.delay = 0
     module.receptive_field = 1
-    module.stride = tuple(getattr(module, "stride", [1]))
-    module.padding = tuple(getattr(module, "padding", [0]))
+    module.stride = _single(getattr(module, "stride", 1))
+    module.padding = _single(getattr(module, "padding", 0))
     module.build_from = build_from
     module.get_state = dummy
     module.set_state = dummy
-- 
2.43.0


From a9e426003d08a771a0876c03b6971ab77ba1f122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:16 +0000
Subject: [PATCH 32/45] fix: explicit method calls of containers inside a
 call_mode context

---
 continual/container.py | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index 1675bdf..aaa10d7 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -1,4 +1,5 @@
 from collections import OrderedDict, abc
+from contextlib import contextmanager
 from enum import Enum
 from functools import reduce, wraps
 from typing import Callable, List, Optional, Sequence, Tuple, TypeVar, Union, overload
@@ -8,7 +9,7 @@ from torch import Tensor, nn
 
 from .delay import Delay
 from .logging import getLogger
-from .module import CoModule, PaddingMode, _callmode
+from .module import CoModule, PaddingMode, _callmode, call_mode
 from .skip import Skip
 from .utils import (
     function_repr,
@@ -55,6 +56,17 @@ ReductionFunc = Callable[[Sequence[Tensor]], Tensor]
 ReductionFuncOrEnum = Union[Reduction, ReductionFunc, str]
 
 
+@contextmanager
+def _called_as(module: CoModule, mode: str):
+    """Calls of the module use the given mode, also within a ``call_mode`` context"""
+    with temporary_parameter(module, "call_mode", _callmode(mode)):
+        if call_mode.prev is None:
+            yield module
+        else:
+            with call_mode(mode):
+                yield module
+
+
 def apply_forward(module: CoModule, input: Tensor):
     if isinstance(module, nn.RNNBase):
         return module.forward(input)[0]
@@ -340,7 +352,7 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
             if inputs[i] is None:  # No output on this stream (yet)
                 outs.append(None)
                 continue
-            with temporary_parameter(m, "call_mode", _callmode("forward_step")):
+            with _called_as(m, "forward_step"):
                 outs.append(m(inputs[i], update_state=update_state))
         return outs
 
@@ -352,14 +364,14 @@ class Parallel(FlattenableStateDict, CoModule, nn.Sequential):
             if inputs[i] is None:  # No output on this stream (yet)
                 outs.append(None)
                 continue
-            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
+            with _called_as(m, "forward_steps"):
                 outs.append(m(inputs[i], pad_end=pad_end, update_state=update_state))
         return outs
 
     def forward(self, inputs: List[T]) -> List[T]:
         outs = []
         for i, m in enumerate(self):
-            with temporary_parameter(m, "call_mode", _callmode("forward")):
+            with _called_as(m, "forward"):
                 outs.append(apply_forward(m, inputs[i]))
         return outs
 
@@ -649,14 +661,14 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
 
     def forward(self, input):
         for m in self:
-            with temporary_parameter(m, "call_mode", _callmode("forward")):
+            with _called_as(m, "forward"):
                 input = apply_forward(m, input)
         return input
 
     def forward_step(self, input, update_state=True):
         for module in self:
             # ptflops only works when __call__ is triggered
-            with temporary_parameter(module, "call_mode", _callmode("forward_step")):
+            with _called_as(module, "forward_step"):
                 input = module(
                     input, update_state=update_state
                 )  # == module.forward_step
@@ -695,7 +707,7 @@ class Sequential(FlattenableStateDict, CoModule, nn.Sequential):
             if not type(input) in {Tensor, list} or len(input) == 0:
                 return None  # pragma: no cover
             # ptflops only works when __call__ is triggered
-            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
+            with _called_as(m, "forward_steps"):
                 # == m.forward_steps
                 input = m(input, pad_end=pad_end, update_state=update_state)
 
@@ -896,7 +908,7 @@ class BroadcastReduce(Sequential):
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", _callmode("forward_step")):
+            with _called_as(m, "forward_step"):
                 outs.append(m(input, update_state=update_state))  # == m.forward_step
         if all(isinstance(o, Tensor) for o in outs):
             return self.reduce(outs)
@@ -906,7 +918,7 @@ class BroadcastReduce(Sequential):
     def forward_steps(self, input: Tensor, pad_end=False, update_state=True) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", _callmode("forward_steps")):
+            with _called_as(m, "forward_steps"):
                 # m.forward_steps
                 outs.append(m(input, pad_end=pad_end, update_state=update_state))
 
@@ -915,7 +927,7 @@ class BroadcastReduce(Sequential):
     def forward(self, input: Tensor) -> Tensor:
         outs = []
         for m in self:
-            with temporary_parameter(m, "call_mode", _callmode("forward")):
+            with _called_as(m, "forward"):
                 outs.append(apply_forward(m, input))
 
         return self.reduce(outs)
@@ -1065,10 +1077,13 @@ class Conditional(FlattenableStateDict, CoModule, nn.Module):
 
     def forward(self, input: Tensor) -> Tensor:
         if self.predicate(self, input):
-            return apply_forward(self._modules["0"], input)
+            module = self._modules["0"]
         elif "1" in self._modules:
-            return apply_forward(self._modules["1"], input)
-        return input
+            module = self._modules["1"]
+        else:
+            return input
+        with _called_as(module, "forward"):
+            return apply_forward(module, input)
 
     def forward_step(self, input: Tensor, update_state=True) -> Tensor:
         if self.predicate(self, input):
-- 
2.43.0


From cedda141e6c49747f9c63a048ee55b2528cddb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:33 +0000
Subject: [PATCH 33/45] fix: activations given by name in encoder layers

---
 continual/transformer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/continual/transformer.py b/continual/transformer.py
index 1600c20..02f8512 100644
--- a/continual/transformer.py
+++ b/continual/transformer.py
@@ -151,6 +151,12 @@ def sum_last_pairs(inputs: Sequence[Tensor]) -> Tensor:
     return reduce(torch.Tensor.add, inputs[1:], inputs[0])
 
 
+def _activation_fn(activation):
+    if isinstance(activation, str):
+        return {"relu": nn.functional.relu, "gelu": nn.functional.gelu}[activation]
+    return activation
+
+
 def SingleOutputTransformerEncoderLayer(
     d_model: int,
     nhead: int,
@@ -216,6 +222,7 @@ def SingleOutputTransformerEncoderLayer(
         sequence_len > 0
     ), "Please provide a positive integer value as sequence length."
 
+    activation = _activation_fn(activation)
     factory_kwargs = {"device": device, "dtype": dtype}
     norm1 = nn.LayerNorm(d_model, eps=layer_norm_eps, **factory_kwargs)
     norm2 = nn.LayerNorm(d_model, eps=layer_norm_eps, **factory_kwargs)
@@ -354,6 +361,7 @@ def RetroactiveTransformerEncoderLayer(
     assert (
         sequence_len > 0
     ), "Please provide a positive integer value as sequence length."
+    activation = _activation_fn(activation)
     factory_kwargs = {"device": device, "dtype": dtype}
     norm1 = nn.LayerNorm(d_model, eps=layer_norm_eps, **factory_kwargs)
     norm2 = nn.LayerNorm(d_model, eps=layer_norm_eps, **factory_kwargs)
-- 
2.43.0


From 59b5e23d0cc7bd00903769f676357bf8d7f1998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:33 +0000
Subject: [PATCH 34/45] fix: do not convert batch norms without running
 statistics

---
 continual/convert.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index 20dc2c8..d5e4232 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -148,9 +148,6 @@ NAIVE_MAPPING = {
     nn.Softmax2d,
     nn.LogSoftmax,
     # >> Norm modules
-    nn.BatchNorm1d,
-    nn.BatchNorm2d,
-    nn.BatchNorm3d,
     nn.LayerNorm,
     nn.GroupNorm,
     # >> Dropout modules
@@ -177,7 +174,19 @@ def _instance_norm_condition(
     )
 
 
+def _batch_norm_condition(
+    module: Union[nn.BatchNorm1d, nn.BatchNorm2d, nn.BatchNorm3d]
+):
+    assert module.track_running_stats, (
+        f"{type(module)} must be specified with `track_running_stats==True`"
+        + _circumvent_message
+    )
+
+
 CONDITIONAL_MAPPING = {
+    nn.BatchNorm1d: _batch_norm_condition,
+    nn.BatchNorm2d: _batch_norm_condition,
+    nn.BatchNorm3d: _batch_norm_condition,
     nn.InstanceNorm1d: _instance_norm_condition,
     nn.InstanceNorm2d: _instance_norm_condition,
     nn.InstanceNorm3d: _instance_norm_condition,
-- 
2.43.0


From 26af0196e746bda1daeb6e6be2e0edd45dfea130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:20 +0000
Subject: [PATCH 35/45] fix: let copies of time-independent modules be copied
 with their own parameters

---
 continual/convert.py | 98 ++++++++++++++++++++++----------------------
 1 file changed, 49 insertions(+), 49 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index d5e4232..ce55e56 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -1,6 +1,6 @@
 """ Register modules with conversion system and 3rd-party libraries """
 
-from functools import wraps
+from functools import partial
 from types import FunctionType
 from typing import Callable, Type, Union
 
@@ -36,6 +36,45 @@ __all__ = [
 ]
 
 
+class _Stepping:
+    """Stepwise methods of a time-independent ``forward``.
+
+    Along with the partial functions below, this follows the module when it is copied.
+    """
+
+    def __init__(self, forward: Callable[..., Tensor], dim: int):
+        self.forward = forward
+        self.dim = dim
+
+    def _forward_step(self, x: Tensor, prev_state=None) -> Tensor:
+        return self.forward(x.unsqueeze(self.dim)).squeeze(self.dim), prev_state
+
+    def forward_step(self, x: Tensor, update_state=True) -> Tensor:
+        return self.forward(x.unsqueeze(self.dim)).squeeze(self.dim)
+
+    def forward_steps(self, x: Tensor, pad_end=False, update_state=True) -> Tensor:
+        return self.forward(x)
+
+
+def _forward_with_callmode(module: nn.Module, stepping: _Stepping, *args, **kwargs):
+    _call_mode = (
+        call_mode.cur
+        if call_mode.prev is not None
+        else getattr(module, "call_mode", _callmode("forward"))
+    )
+    if _call_mode == _callmode("forward"):
+        return stepping.forward(*args, **kwargs)
+    return CoModule._call_impl(module, *args, **kwargs)
+
+
+def _dummy(*args, **kwargs):
+    ...  # pragma: no cover
+
+
+def _build_from(cls, mod):  # pragma: no cover
+    return cls()
+
+
 def forward_stepping(module: nn.Module, dim: int = 2):
     """Enhances torch.nn.Module with `forward_step` and `forward_steps`
 
@@ -52,65 +91,26 @@ def forward_stepping(module: nn.Module, dim: int = 2):
         dim (int, optional): The dimension to unsqueeze during `forward_step`. Defaults to 2.
     """
 
-    def _forward_step(func: Callable[[Tensor], Tensor]):
-        @wraps(func)
-        def call(x: Tensor, prev_state=None) -> Tensor:
-            return func(x.unsqueeze(dim)).squeeze(dim), prev_state
-
-        return call
-
-    def forward_step(func: Callable[[Tensor], Tensor]):
-        @wraps(func)
-        def call(x: Tensor, update_state=True) -> Tensor:
-            return func(x.unsqueeze(dim)).squeeze(dim)
-
-        return call
-
-    def forward_steps(func: Callable[[Tensor], Tensor]):
-        @wraps(func)
-        def call(x: Tensor, pad_end=False, update_state=True) -> Tensor:
-            x = func(x)
-            return x
-
-        return call
-
-    def dummy(*args, **kwargs):
-        ...  # pragma: no cover
-
-    @staticmethod
-    def build_from(mod):  # pragma: no cover
-        return module.__class__()
-
     # module.__class__.__bases__ = (*module.__class__.__bases__, CoModule)
-    orig_forward = module.forward
-    module.forward_steps = forward_steps(module.forward)
-    module.forward_step = forward_step(module.forward)
-    module._forward_step = _forward_step(module.forward)
+    stepping = _Stepping(module.forward, dim)
+    module.forward_steps = stepping.forward_steps
+    module.forward_step = stepping.forward_step
+    module._forward_step = stepping._forward_step
     module.delay = 0
     module.receptive_field = 1
     module.stride = _single(getattr(module, "stride", 1))
     module.padding = _single(getattr(module, "padding", 0))
-    module.build_from = build_from
-    module.get_state = dummy
-    module.set_state = dummy
-    module.clean_state = dummy
+    module.build_from = partial(_build_from, module.__class__)
+    module.get_state = _dummy
+    module.set_state = _dummy
+    module.clean_state = _dummy
     module._state_shape = 0
     module._dynamic_state_inds = []
 
     # Call mode
     module.call_mode = _callmode("forward")
 
-    def forward_with_callmode(*args, **kwargs):
-        _call_mode = (
-            call_mode.cur
-            if call_mode.prev is not None
-            else getattr(module, "call_mode", _callmode("forward"))
-        )
-        if _call_mode == _callmode("forward"):
-            return orig_forward(*args, **kwargs)
-        return CoModule._call_impl(module, *args, **kwargs)
-
-    module.forward = forward_with_callmode
+    module.forward = partial(_forward_with_callmode, module, stepping)
 
     return module
 
-- 
2.43.0


From 0fe53bee0a2556c1c039186e4c19e262e399a746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:20 +0000
Subject: [PATCH 36/45] fix: run hooks of time-independent modules once per
 call

---
 continual/convert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/continual/convert.py b/continual/convert.py
index ce55e56..77f14a2 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -64,7 +64,10 @@ def _forward_with_callmode(module: nn.Module, stepping: _Stepping, *args, **kwar
     )
     if _call_mode == _callmode("forward"):
         return stepping.forward(*args, **kwargs)
-    return CoModule._call_impl(module, *args, **kwargs)
+    # Hooks are handled by the call which got us here
+    if _call_mode == _callmode("forward_steps"):
+        return module.forward_steps(*args, **kwargs)
+    return module.forward_step(*args, **kwargs)
 
 
 def _dummy(*args, **kwargs):
-- 
2.43.0


From cab0128a3664ed796ba61b4b01f2d4d91bc5bc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:20 +0000
Subject: [PATCH 37/45] fix: accept call modes given as other tensors, as in
 copied modules

---
 continual/module.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index c709150..50ccdfc 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -347,11 +347,11 @@ class CoModule(ABC):
         """
         _call_mode = call_mode.cur if call_mode.prev is not None else self.call_mode
         forward_call = {
-            (True, _callmode("forward")): self._slow_forward,
-            (False, _callmode("forward")): self.forward,
-            (False, _callmode("forward_steps")): self.forward_steps,
-            (False, _callmode("forward_step")): self.forward_step,
-        }[(bool(torch._C._get_tracing_state()), _call_mode)]
+            (True, int(_callmode("forward"))): self._slow_forward,
+            (False, int(_callmode("forward"))): self.forward,
+            (False, int(_callmode("forward_steps"))): self.forward_steps,
+            (False, int(_callmode("forward_step"))): self.forward_step,
+        }[(bool(torch._C._get_tracing_state()), int(_call_mode))]
 
         # If we don't have any hooks, we want to skip the rest of the logic in
         # this function, and just call forward.
-- 
2.43.0


From 0534fee7393324612d3d28580da3eed4eada2965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:20 +0000
Subject: [PATCH 38/45] fix: pass keyword arguments to hooks registered
 with_kwargs

---
 continual/module.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index 50ccdfc..a41933e 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -5,6 +5,7 @@ from enum import Enum
 from typing import List, Optional, Tuple, Union
 
 import torch
+import torch.nn.modules.module as module_hooks
 import torch.utils.hooks as hooks
 from torch import Tensor
 from torch.nn.modules.module import (
@@ -369,9 +370,14 @@ class CoModule(ABC):
         if self._backward_hooks or _global_backward_hooks:
             full_backward_hooks, non_full_backward_hooks = self._get_backward_hooks()
         if _global_forward_pre_hooks or self._forward_pre_hooks:
-            for hook in itertools.chain(
-                _global_forward_pre_hooks.values(), self._forward_pre_hooks.values()
+            for hook_id, hook in itertools.chain(
+                _global_forward_pre_hooks.items(), self._forward_pre_hooks.items()
             ):
+                if hook_id in getattr(self, "_forward_pre_hooks_with_kwargs", ()):
+                    result = hook(self, input, kwargs)
+                    if result is not None:
+                        input, kwargs = result
+                    continue
                 result = hook(self, input)
                 if result is not None:
                     if not isinstance(result, tuple):
@@ -385,10 +391,17 @@ class CoModule(ABC):
 
         result = forward_call(*input, **kwargs)
         if _global_forward_hooks or self._forward_hooks:
-            for hook in itertools.chain(
-                _global_forward_hooks.values(), self._forward_hooks.values()
+            with_kwargs = {
+                **getattr(module_hooks, "_global_forward_hooks_with_kwargs", {}),
+                **getattr(self, "_forward_hooks_with_kwargs", {}),
+            }
+            for hook_id, hook in itertools.chain(
+                _global_forward_hooks.items(), self._forward_hooks.items()
             ):
-                hook_result = hook(self, input, result)
+                if hook_id in with_kwargs:
+                    hook_result = hook(self, input, kwargs, result)
+                else:
+                    hook_result = hook(self, input, result)
                 if hook_result is not None:
                     result = hook_result
 
-- 
2.43.0


From 42d34cb9f4bcbe608cbafccab27447d0ace0cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:06 +0000
Subject: [PATCH 39/45] fix: gradients through streamed max pooling

Continual max pooling overwrote its buffer in place, so that a backward pass through
the outputs of a stream failed. The buffer is now copied when gradients are tracked.
---
 continual/pooling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/continual/pooling.py b/continual/pooling.py
index c5d28fe..0e1f642 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -205,9 +205,12 @@ class _PoolNd(CoModule, nn.Module):
 
         pooled_frame = self._spatial_pool_fn(input)
         buffer, index, stride_index = prev_state or self.init_state(pooled_frame)
+        if buffer.requires_grad or pooled_frame.requires_grad:
+            # Outputs of earlier steps need their buffer in the backward pass
+            buffer = buffer.clone()
         buffer[index] = pooled_frame
 
-        next_buffer = buffer  # .clone() if self.training else buffer.detach()
+        next_buffer = buffer
         next_index = (index + 1) % len(buffer)
         next_stride_index = stride_index + 1
         if next_stride_index > 0:
-- 
2.43.0


From 766fdb1917bf2f398c6165c5e4ce51ffb692e511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:50 +0000
Subject: [PATCH 40/45] fix: refuse bidirectional=True in continual recurrent
 networks instead of ignoring it

---
 continual/rnn.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/continual/rnn.py b/continual/rnn.py
index 1d54b4d..096f6c6 100644
--- a/continual/rnn.py
+++ b/continual/rnn.py
@@ -134,9 +134,9 @@ class RNN(CoModule, nn.RNN):
         # assert (
         #     batch_first
         # ), "`batch_first == False` is not supported for a Continual module"
-        # assert (
-        #     not bidirectional
-        # ), "`bidirectional == True` is not supported for a Continual module"
+        assert not kwargs.get(
+            "bidirectional", False
+        ), "`bidirectional == True` is not supported for a Continual module"
 
         nn.RNN.__init__(
             self,
@@ -352,9 +352,9 @@ class GRU(CoModule, nn.GRU):
         # assert (
         #     batch_first
         # ), "`batch_first == False` is not supported for a Continual module"
-        # assert (
-        #     not bidirectional
-        # ), "`bidirectional == True` is not supported for a Continual module"
+        assert not kwargs.get(
+            "bidirectional", False
+        ), "`bidirectional == True` is not supported for a Continual module"
 
         nn.GRU.__init__(
             self,
@@ -608,9 +608,9 @@ class LSTM(CoModule, nn.LSTM):
         # assert (
         #     batch_first
         # ), "`batch_first == False` is not supported for a Continual module"
-        # assert (
-        #     not bidirectional
-        # ), "`bidirectional == True` is not supported for a Continual module"
+        assert not kwargs.get(
+            "bidirectional", False
+        ), "`bidirectional == True` is not supported for a Continual module"
 
         nn.LSTM.__init__(
             self,
-- 
2.43.0


From 9268eef34cb065690d70f98d55c8dc114776ff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:12 +0000
Subject: [PATCH 41/45] fix: accept the empty state returned by get_state in
 set_state

---
 continual/conv.py                                 |  5 ++++-
 continual/delay.py                                |  7 +++++--
 continual/multihead_attention/retroactive_mha.py  |  5 ++++-
 .../multihead_attention/single_output_mha.py      |  5 ++++-
 continual/pooling.py                              |  5 ++++-
 continual/rnn.py                                  | 15 ++++++++++++---
 6 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/continual/conv.py b/continual/conv.py
index bd684f3..cdc3631 100644
--- a/continual/conv.py
+++ b/continual/conv.py
@@ -165,7 +165,10 @@ class _ConvCoNd(CoModule, _ConvNd):
             return (self.state_buffer, self.state_index, self.stride_index)
         return None
 
-    def set_state(self, state: State):
+    def set_state(self, state: Optional[State]):
+        if state is None:  # As returned by get_state prior to initialisation
+            self.clean_state()
+            return
         self.state_buffer, self.state_index, self.stride_index = state
 
     @torch.jit.export
diff --git a/continual/delay.py b/continual/delay.py
index 78b4665..9e8e78c 100644
--- a/continual/delay.py
+++ b/continual/delay.py
@@ -1,4 +1,4 @@
-from typing import Tuple, Union
+from typing import Optional, Tuple, Union
 
 import torch
 from torch import Tensor
@@ -84,7 +84,10 @@ class Delay(CoModule, torch.nn.Module):
             return (self.state_buffer, self.state_index)
         return None
 
-    def set_state(self, state: State):
+    def set_state(self, state: Optional[State]):
+        if state is None:  # As returned by get_state prior to initialisation
+            self.clean_state()
+            return
         self.state_buffer, self.state_index = state
 
     def _forward_step(self, input: Tensor, prev_state: State) -> Tuple[Tensor, State]:
diff --git a/continual/multihead_attention/retroactive_mha.py b/continual/multihead_attention/retroactive_mha.py
index 415f45b..6d2af8e 100644
--- a/continual/multihead_attention/retroactive_mha.py
+++ b/continual/multihead_attention/retroactive_mha.py
@@ -265,7 +265,10 @@ class RetroactiveMultiheadAttention(MultiheadAttentionBase):
                 self.stride_index,
             )
 
-    def set_state(self, state: State):
+    def set_state(self, state: Optional[State]):
+        if state is None:  # As returned by get_state prior to initialisation
+            self.clean_state()
+            return
         (
             self.d_mem,
             self.AV_mem,
diff --git a/continual/multihead_attention/single_output_mha.py b/continual/multihead_attention/single_output_mha.py
index 1739ab5..c11998c 100644
--- a/continual/multihead_attention/single_output_mha.py
+++ b/continual/multihead_attention/single_output_mha.py
@@ -243,7 +243,10 @@ class SingleOutputMultiheadAttention(MultiheadAttentionBase):
             )
         return None
 
-    def set_state(self, state: State):
+    def set_state(self, state: Optional[State]):
+        if state is None:  # As returned by get_state prior to initialisation
+            self.clean_state()
+            return
         (
             self.Q_mem,
             self.K_T_mem,
diff --git a/continual/pooling.py b/continual/pooling.py
index 0e1f642..dac49ae 100644
--- a/continual/pooling.py
+++ b/continual/pooling.py
@@ -191,7 +191,10 @@ class _PoolNd(CoModule, nn.Module):
         if len(self.state_buffer) > 0:
             return (self.state_buffer, self.state_index, self.stride_index)
 
-    def set_state(self, state: State):
+    def set_state(self, state: Optional[State]):
+        if state is None:  # As returned by get_state prior to initialisation
+            self.clean_state()
+            return
         self.state_buffer, self.state_index, self.stride_index = state
 
     def _forward_step(
diff --git a/continual/rnn.py b/continual/rnn.py
index 096f6c6..de74af0 100644
--- a/continual/rnn.py
+++ b/continual/rnn.py
@@ -189,7 +189,10 @@ class RNN(CoModule, nn.RNN):
         if hasattr(self, "_hidden_state"):
             return (self._hidden_state,)
 
-    def set_state(self, state: State):
+    def set_state(self, state: Optional[State]):
+        if state is None:  # As returned by get_state prior to initialisation
+            self.clean_state()
+            return
         if isinstance(state, Tensor):
             state = (state,)
         self._hidden_state = state[0]
@@ -405,7 +408,10 @@ class GRU(CoModule, nn.GRU):
         if hasattr(self, "_hidden_state"):
             return (self._hidden_state,)
 
-    def set_state(self, state: State):
+    def set_state(self, state: Optional[State]):
+        if state is None:  # As returned by get_state prior to initialisation
+            self.clean_state()
+            return
         if isinstance(state, Tensor):
             state = (state,)
         self._hidden_state = state[0]
@@ -665,7 +671,10 @@ class LSTM(CoModule, nn.LSTM):
         if hasattr(self, "_hidden_state") and hasattr(self, "_cell_state"):
             return (self._hidden_state, self._cell_state)
 
-    def set_state(self, state: LSTMState):
+    def set_state(self, state: Optional[LSTMState]):
+        if state is None:  # As returned by get_state prior to initialisation
+            self.clean_state()
+            return
         self._hidden_state, self._cell_state = state
 
     def forward(
-- 
2.43.0


From 9f2582a7d80cb89d0bdb760ee64e41ebb7418e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:07 +0000
Subject: [PATCH 42/45] fix: keep call modes of nested modules when their
 container is called

---
 continual/container.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/continual/container.py b/continual/container.py
index aaa10d7..6b4838c 100644
--- a/continual/container.py
+++ b/continual/container.py
@@ -59,12 +59,19 @@ ReductionFuncOrEnum = Union[Reduction, ReductionFunc, str]
 @contextmanager
 def _called_as(module: CoModule, mode: str):
     """Calls of the module use the given mode, also within a ``call_mode`` context"""
-    with temporary_parameter(module, "call_mode", _callmode(mode)):
-        if call_mode.prev is None:
-            yield module
-        else:
-            with call_mode(mode):
+    # Setting the mode of a container changes the modes of its parts as well
+    parts = list(module.modules())[1:] if hasattr(module, "__len__") else []
+    part_modes = [(m, m.call_mode) for m in parts if hasattr(m, "call_mode")]
+    try:
+        with temporary_parameter(module, "call_mode", _callmode(mode)):
+            if call_mode.prev is None:
                 yield module
+            else:
+                with call_mode(mode):
+                    yield module
+    finally:
+        for part, part_mode in part_modes:
+            part.call_mode = part_mode
 
 
 def apply_forward(module: CoModule, input: Tensor):
-- 
2.43.0


From b3c45f5b9267e7120c5e211e12f78d3900e40772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:08 +0000
Subject: [PATCH 43/45] fix: understand call modes given by name or number on
 converted modules

---
 continual/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/continual/convert.py b/continual/convert.py
index 77f14a2..6b5c74a 100644
--- a/continual/convert.py
+++ b/continual/convert.py
@@ -57,10 +57,10 @@ class _Stepping:
 
 
 def _forward_with_callmode(module: nn.Module, stepping: _Stepping, *args, **kwargs):
-    _call_mode = (
+    _call_mode = _callmode(
         call_mode.cur
         if call_mode.prev is not None
-        else getattr(module, "call_mode", _callmode("forward"))
+        else getattr(module, "call_mode", "forward")
     )
     if _call_mode == _callmode("forward"):
         return stepping.forward(*args, **kwargs)
-- 
2.43.0


From 4b92a53f7aa3ac34b8f7e5e634ef88df3d18f065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:23 +0000
Subject: [PATCH 44/45] fix: keep the outer flat_state_dict context when a
 nested one ends

---
 continual/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/continual/utils.py b/continual/utils.py
index fccdcae..79a8a85 100644
--- a/continual/utils.py
+++ b/continual/utils.py
@@ -64,12 +64,14 @@ class _FlatStateDict(object):
 
     def __init__(self):
         self.flatten = False
+        self._outer = []  # flatten of enclosing contexts
 
     def __enter__(self):
+        self._outer.append(self.flatten)
         self.flatten = True
 
     def __exit__(self, *args, **kwargs):
-        self.flatten = False
+        self.flatten = self._outer.pop()
 
 
 flat_state_dict = _FlatStateDict()
-- 
2.43.0


From eaf5d6f1d8b526c7d8e8a582b6aea244f092305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:23 +0000
Subject: [PATCH 45/45] fix: backward hooks and backward pre-hooks on calls

---
 continual/module.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/continual/module.py b/continual/module.py
index a41933e..60188e8 100644
--- a/continual/module.py
+++ b/continual/module.py
@@ -360,13 +360,18 @@ class CoModule(ABC):
             self._backward_hooks
             or self._forward_hooks
             or self._forward_pre_hooks
+            or getattr(self, "_backward_pre_hooks", None)
             or _global_backward_hooks
+            or getattr(module_hooks, "_global_backward_pre_hooks", None)
             or _global_forward_hooks
             or _global_forward_pre_hooks
         ):
             return forward_call(*input, **kwargs)
         # Do not call functions when jit is used
         full_backward_hooks, non_full_backward_hooks = [], []
+        backward_pre_hooks = ()  # Passed to BackwardHook where torch supports them
+        if hasattr(self, "_get_backward_pre_hooks"):
+            backward_pre_hooks = (self._get_backward_pre_hooks(),)
         if self._backward_hooks or _global_backward_hooks:
             full_backward_hooks, non_full_backward_hooks = self._get_backward_hooks()
         if _global_forward_pre_hooks or self._forward_pre_hooks:
@@ -385,8 +390,8 @@ class CoModule(ABC):
                     input = result
 
         bw_hook = None
-        if full_backward_hooks:
-            bw_hook = hooks.BackwardHook(self, full_backward_hooks)
+        if full_backward_hooks or any(backward_pre_hooks):
+            bw_hook = hooks.BackwardHook(self, full_backward_hooks, *backward_pre_hooks)
             input = bw_hook.setup_input_hook(input)
 
         result = forward_call(*input, **kwargs)
-- 
2.43.0

