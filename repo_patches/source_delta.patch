From 8620207b1b0c7ed345c599674214e32f5ac69ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 01/22] fix: rebuild cached transform matrices when dtype or
 device change

The matrix objects only rebuilt their cached matrices when the signal size
(or level) changed. Calling an object with float64 data and then with float32
data of the same size raised a RuntimeError in torch.sparse.mm.
---
 src/ptwt/matmul_transform.py   | 13 +++++++++++++
 src/ptwt/matmul_transform_2.py | 13 +++++++++++++
 src/ptwt/matmul_transform_3.py | 13 +++++++++++++
 3 files changed, 39 insertions(+)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 9e78b59..a435b9f 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -254,6 +254,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
         self.axis = _ensure_axes(axes=axis, dim=1)[0]
 
         self.input_length: Optional[int] = None
+        self._matrix_device_dtype: Optional[tuple[torch.device, torch.dtype]] = None
         self.fwt_matrix_list: list[torch.Tensor] = []
         self.pad_list: list[bool] = []
         self.padded = False
@@ -401,6 +402,12 @@ class MatrixWavedec(BaseMatrixWaveDec):
         elif self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
+        device_dtype = (input_signal.device, input_signal.dtype)
+        if self._matrix_device_dtype != device_dtype:
+            # the stored matrices were built for another device or dtype
+            self._matrix_device_dtype = device_dtype
+            re_build = True
+
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
                 device=input_signal.device, dtype=input_signal.dtype
@@ -548,6 +555,7 @@ class MatrixWaverec(object):
         self.ifwt_matrix_list: list[torch.Tensor] = []
         self.level: Optional[int] = None
         self.input_length: Optional[int] = None
+        self._matrix_device_dtype: Optional[tuple[torch.device, torch.dtype]] = None
         self.padded = False
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
@@ -670,6 +678,11 @@ class MatrixWaverec(object):
             self.input_length = input_length
             re_build = True
 
+        if self._matrix_device_dtype != (torch_device, torch_dtype):
+            # the stored matrices were built for another device or dtype
+            self._matrix_device_dtype = (torch_device, torch_dtype)
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 02ab458..724d917 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -331,6 +331,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.separable = separable
         self.input_signal_shape: Optional[tuple[int, int]] = None
+        self._matrix_device_dtype: Optional[tuple[torch.device, torch.dtype]] = None
         self.fwt_matrix_list: list[
             Union[torch.Tensor, tuple[torch.Tensor, torch.Tensor]]
         ] = []
@@ -492,6 +493,12 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         elif self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
+        device_dtype = (input_signal.device, input_signal.dtype)
+        if self._matrix_device_dtype != device_dtype:
+            # the stored matrices were built for another device or dtype
+            self._matrix_device_dtype = device_dtype
+            re_build = True
+
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
                 device=input_signal.device, dtype=input_signal.dtype
@@ -627,6 +634,7 @@ class MatrixWaverec2(object):
         ] = []
         self.level: Optional[int] = None
         self.input_signal_shape: Optional[tuple[int, int]] = None
+        self._matrix_device_dtype: Optional[tuple[torch.device, torch.dtype]] = None
 
         self.padded = False
 
@@ -773,6 +781,11 @@ class MatrixWaverec2(object):
             self.level = level
             re_build = True
 
+        if self._matrix_device_dtype != (torch_device, torch_dtype):
+            # the stored matrices were built for another device or dtype
+            self._matrix_device_dtype = (torch_device, torch_dtype)
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index c1eca34..efc9249 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -123,6 +123,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.axes = _ensure_axes(axes=axes, dim=3)
         self.input_signal_shape: Optional[tuple[int, int, int]] = None
+        self._matrix_device_dtype: Optional[tuple[torch.device, torch.dtype]] = None
         self.fwt_matrix_list: list[list[torch.Tensor]] = []
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
@@ -237,6 +238,12 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         elif self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
+        device_dtype = (input_signal.device, input_signal.dtype)
+        if self._matrix_device_dtype != device_dtype:
+            # the stored matrices were built for another device or dtype
+            self._matrix_device_dtype = device_dtype
+            re_build = True
+
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
                 device=input_signal.device, dtype=input_signal.dtype
@@ -326,6 +333,7 @@ class MatrixWaverec3(object):
         self.orthogonalization = orthogonalization
         self.ifwt_matrix_list: list[list[torch.Tensor]] = []
         self.input_signal_shape: Optional[tuple[int, int, int]] = None
+        self._matrix_device_dtype: Optional[tuple[torch.device, torch.dtype]] = None
         self.level: Optional[int] = None
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
@@ -443,6 +451,11 @@ class MatrixWaverec3(object):
             self.level = level
             re_build = True
 
+        if self._matrix_device_dtype != (torch_device, torch_dtype):
+            # the stored matrices were built for another device or dtype
+            self._matrix_device_dtype = (torch_device, torch_dtype)
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
-- 
2.43.0


From 83db4348322acbbedb4c242bdade278fa757bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 02/22] fix: recompute the default level of matrix transforms
 for every input

With level=None the level computed for the first input was stored in the object
and reused for later inputs of other sizes. Longer signals were decomposed too
shallowly, and a first input too short for any level made every later call raise
a ValueError.
---
 src/ptwt/matmul_transform.py   | 15 ++++++++-------
 src/ptwt/matmul_transform_2.py | 14 ++++++++------
 src/ptwt/matmul_transform_3.py | 14 ++++++++------
 3 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index a435b9f..cb43584 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -309,9 +309,9 @@ class MatrixWavedec(BaseMatrixWaveDec):
             )
 
     def _construct_analysis_matrices(
-        self, device: Union[torch.device, str], dtype: torch.dtype
+        self, device: Union[torch.device, str], dtype: torch.dtype, level: int
     ) -> None:
-        if self.level is None or self.input_length is None:
+        if self.input_length is None:
             raise AssertionError
         self.fwt_matrix_list = []
         self.size_list = []
@@ -320,10 +320,10 @@ class MatrixWavedec(BaseMatrixWaveDec):
 
         filt_len = self.wavelet.dec_len
         curr_length = self.input_length
-        for curr_level in range(1, self.level + 1):
+        for curr_level in range(1, level + 1):
             if curr_length < filt_len:
                 sys.stderr.write(
-                    f"Warning: The selected number of decomposition levels {self.level}"
+                    f"Warning: The selected number of decomposition levels {level}"
                     f" is too large for the given input size {self.input_length}. At "
                     f"level {curr_level}, the current signal length {curr_length} is "
                     f"smaller than the filter length {filt_len}. Therefore, the "
@@ -397,10 +397,11 @@ class MatrixWavedec(BaseMatrixWaveDec):
 
         if self.level is None:
             wlen = len(self.wavelet)
-            self.level = int(np.log2(length / (wlen - 1)))
-            re_build = True
+            level = int(np.log2(length / (wlen - 1)))
         elif self.level <= 0:
             raise ValueError("level must be a positive integer.")
+        else:
+            level = self.level
 
         device_dtype = (input_signal.device, input_signal.dtype)
         if self._matrix_device_dtype != device_dtype:
@@ -410,7 +411,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
 
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
-                device=input_signal.device, dtype=input_signal.dtype
+                device=input_signal.device, dtype=input_signal.dtype, level=level
             )
 
         lo = input_signal.T
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 724d917..85212fa 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -387,8 +387,9 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         self,
         device: Union[torch.device, str],
         dtype: torch.dtype,
+        level: int,
     ) -> None:
-        if self.level is None or self.input_signal_shape is None:
+        if self.input_signal_shape is None:
             raise AssertionError
         self.fwt_matrix_list = []
         self.size_list = []
@@ -397,11 +398,11 @@ class MatrixWavedec2(BaseMatrixWaveDec):
 
         filt_len = self.wavelet.dec_len
         current_height, current_width = self.input_signal_shape
-        for curr_level in range(1, self.level + 1):
+        for curr_level in range(1, level + 1):
             if current_height < filt_len or current_width < filt_len:
                 # we have reached the max decomposition depth.
                 sys.stderr.write(
-                    f"Warning: The selected number of decomposition levels {self.level}"
+                    f"Warning: The selected number of decomposition levels {level}"
                     f" is too large for the given input shape {self.input_signal_shape}"
                     f". At level {curr_level}, at least one of the current signal "
                     f"height and width ({current_height}, {current_width}) is smaller "
@@ -486,12 +487,13 @@ class MatrixWavedec2(BaseMatrixWaveDec):
 
         if self.level is None:
             wlen = len(self.wavelet)
-            self.level = int(
+            level = int(
                 np.min([np.log2(height / (wlen - 1)), np.log2(width / (wlen - 1))])
             )
-            re_build = True
         elif self.level <= 0:
             raise ValueError("level must be a positive integer.")
+        else:
+            level = self.level
 
         device_dtype = (input_signal.device, input_signal.dtype)
         if self._matrix_device_dtype != device_dtype:
@@ -501,7 +503,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
 
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
-                device=input_signal.device, dtype=input_signal.dtype
+                device=input_signal.device, dtype=input_signal.dtype, level=level
             )
 
         def _add_padding(signal: torch.Tensor, pad: tuple[bool, bool]) -> torch.Tensor:
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index efc9249..cf7bc1d 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -135,8 +135,9 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         self,
         device: Union[torch.device, str],
         dtype: torch.dtype,
+        level: int,
     ) -> None:
-        if self.level is None or self.input_signal_shape is None:
+        if self.input_signal_shape is None:
             raise AssertionError
         self.fwt_matrix_list = []
         self.size_list = []
@@ -145,7 +146,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
 
         filt_len = self.wavelet.dec_len
         current_depth, current_height, current_width = self.input_signal_shape
-        for curr_level in range(1, self.level + 1):
+        for curr_level in range(1, level + 1):
             if (
                 current_height < filt_len
                 or current_width < filt_len
@@ -153,7 +154,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             ):
                 # we have reached the max decomposition depth.
                 sys.stderr.write(
-                    f"Warning: The selected number of decomposition levels {self.level}"
+                    f"Warning: The selected number of decomposition levels {level}"
                     f" is too large for the given input shape {self.input_signal_shape}"
                     f". At level {curr_level}, at least one of the current signal "
                     f"depth, height, and width ({current_depth}, {current_height},"
@@ -225,7 +226,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
 
         if self.level is None:
             wlen = len(self.wavelet)
-            self.level = int(
+            level = int(
                 np.min(
                     [
                         np.log2(depth / (wlen - 1)),
@@ -234,9 +235,10 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                     ]
                 )
             )
-            re_build = True
         elif self.level <= 0:
             raise ValueError("level must be a positive integer.")
+        else:
+            level = self.level
 
         device_dtype = (input_signal.device, input_signal.dtype)
         if self._matrix_device_dtype != device_dtype:
@@ -246,7 +248,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
 
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
-                device=input_signal.device, dtype=input_signal.dtype
+                device=input_signal.device, dtype=input_signal.dtype, level=level
             )
 
         split_list: list[WaveletDetailDict] = []
-- 
2.43.0


From 06d879c425cc4e797ca90e15ca2aa24a7c2c898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 03/22] fix: do not add entries to the caller's coefficient
 dictionaries

For inputs with exactly one batch dimension the separable and the 3d matrix
synthesis stored the approximation in the detail dictionaries of the caller. A
second MatrixWaverec3 call with the same coefficients raised a ValueError.
---
 src/ptwt/matmul_transform_3.py       | 4 ++--
 src/ptwt/separable_conv_transform.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index cf7bc1d..36a7e0d 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -481,8 +481,8 @@ class MatrixWaverec3(object):
                         "All coefficients on each level must have the same shape"
                     )
 
-            coeff_dict["aaa"] = lll
-            lll = self._cat_coeff_recursive(coeff_dict)
+            # copy the dict, the input coefficients belong to the caller
+            lll = self._cat_coeff_recursive({**coeff_dict, "aaa": lll})
 
             for dim, mat in enumerate(self.ifwt_matrix_list[level - 1 - c_pos][::-1]):
                 lll = _batch_dim_mm(mat, lll, dim=(-1) * (dim + 1))
diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index 54ba9de..350043a 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -178,9 +178,9 @@ def _separable_conv_waverecn(
 
     approx: torch.Tensor = coeffs[0]
     for level_dict in coeffs[1:]:
-        keys = list(level_dict.keys())
-        level_dict["a" * max(map(len, keys))] = approx
-        approx = _separable_conv_idwtn(level_dict, wavelet)
+        approx_key = "a" * max(map(len, level_dict.keys()))
+        # copy the dict, the input coefficients belong to the caller
+        approx = _separable_conv_idwtn({**level_dict, approx_key: approx}, wavelet)
     return approx
 
 
-- 
2.43.0


From f087e2f53353ec74bb9ca9cca42154c951211a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 04/22] fix: keep the period in the circular padding of the
 stationary transform

If one side needed more than one period of padding and the other less, the
second wrap was taken from an already padded, no longer N-periodic signal.
swt of short signals was wrong and iswt did not invert it (e.g. db3, level 2,
length 5).
---
 src/ptwt/stationary_transform.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/ptwt/stationary_transform.py b/src/ptwt/stationary_transform.py
index cb2c0cb..0216fe3 100644
--- a/src/ptwt/stationary_transform.py
+++ b/src/ptwt/stationary_transform.py
@@ -33,24 +33,27 @@ def _circular_pad(x: torch.Tensor, padding_dimensions: Sequence[int]) -> torch.T
     ):
         return F.pad(x, padding_dimensions, mode="circular")
 
-    # repeat to pad at maximum trailing dimensions until all padding dimensions are zero
-    while any(padding_dimension > 0 for padding_dimension in padding_dimensions):
-        # reduce every padding dimension to at maximum trailing dimension width
-        reduced_padding_dimensions = [
-            min(trailing_dimension, padding_dimension)
+    # wrap full periods first, which keeps the signal periodic with its original
+    # length, until the remaining padding dimensions fit into a single period
+    padding_dimensions = list(padding_dimensions)
+    while any(
+        padding_dimension > trailing_dimension
+        for padding_dimension in padding_dimensions
+    ):
+        full_periods = [
+            trailing_dimension if padding_dimension > trailing_dimension else 0
             for padding_dimension in padding_dimensions
         ]
-        # pad using reduced dimensions,
-        # which will never throw the circular wrap error
-        x = F.pad(x, reduced_padding_dimensions, mode="circular")
+        # padding at most one period will never throw the circular wrap error
+        x = F.pad(x, full_periods, mode="circular")
         # remove the pad width that was just padded, and repeat
-        # if any pad width is greater than zero
+        # if any pad width is greater than a period
         padding_dimensions = [
-            max(padding_dimension - trailing_dimension, 0)
-            for padding_dimension in padding_dimensions
+            padding_dimension - full_period
+            for padding_dimension, full_period in zip(padding_dimensions, full_periods)
         ]
 
-    return x
+    return F.pad(x, padding_dimensions, mode="circular")
 
 
 def swt(
-- 
2.43.0


From 7b08f46fbb667948f47fec2cbd6773dedf33aeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 05/22] fix: return the root path from the 2d frequency order
 of level zero

get_freq_order(0) returned an empty list whereas the one-dimensional packet
tree and the natural order list the root path.
---
 src/ptwt/packets.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/packets.py b/src/ptwt/packets.py
index a4dceb6..180c11c 100644
--- a/src/ptwt/packets.py
+++ b/src/ptwt/packets.py
@@ -747,7 +747,10 @@ class WaveletPacket2D(BaseDict):
                 graycode_order = [x + path for path in graycode_order] + [
                     y + path for path in graycode_order[::-1]
                 ]
-            return graycode_order
+            if level == 0:
+                return [""]
+            else:
+                return graycode_order
 
         def _expand_2d_path(path: tuple[str, ...]) -> tuple[str, str]:
             expanded_paths = {"d": "hh", "h": "hl", "v": "lh", "a": "ll"}
-- 
2.43.0


From d20d4f09b35ff9bf12792acf945c0a7bb8f41c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 06/22] fix: support non-square matrices in sparse_replace_row

The removal matrix has to be square in the number of rows, its size was that of
the input matrix.
---
 src/ptwt/sparse_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 3bafea9..a72d7f3 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -233,7 +233,7 @@ def sparse_replace_row(
     removal_matrix = torch.sparse_coo_tensor(
         torch.stack([diag_indices] * 2, 0),
         diag,
-        size=matrix.shape,
+        size=(matrix.shape[0], matrix.shape[0]),
         device=matrix.device,
         dtype=matrix.dtype,
     )
-- 
2.43.0


From d062882029bec923655c7150cf127e061fcc4005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 07/22] fix: allow diagonals that lie completely below the
 matrix in sparse_diag

A col_offset of at most -rows left no entries and the second maximum raised a
RuntimeError (offsets to the right of the matrix worked). construct_conv2d_matrix
with mode 'same' failed whenever the filter was twice as wide as the image.
---
 src/ptwt/sparse_math.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index a72d7f3..50ba406 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -181,14 +181,10 @@ def sparse_diag(
     if col_offset < 0:
         diag_indices[0] += abs(col_offset)
 
-    if torch.max(diag_indices[0]) >= rows:
-        mask = diag_indices[0] < rows
-        diag_indices = diag_indices[:, mask]
-        diagonal = diagonal[mask]
-    if torch.max(diag_indices[1]) >= cols:
-        mask = diag_indices[1] < cols
-        diag_indices = diag_indices[:, mask]
-        diagonal = diagonal[mask]
+    # drop the entries that lie outside of the matrix
+    mask = (diag_indices[0] < rows) & (diag_indices[1] < cols)
+    diag_indices = diag_indices[:, mask]
+    diagonal = diagonal[mask]
 
     diag = torch.sparse_coo_tensor(
         diag_indices,
-- 
2.43.0


From 5baa80d3019ebbf02c5b887f67b75abc28909a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 08/22] fix: keep the dtype in the empty case of sparse_kron

The product with an all-zero float64 matrix was returned in float32, which made
construct_conv2d_matrix (mode 'same', filter wider than twice the image) return a
float32 matrix for a float64 filter or fail.
---
 src/ptwt/sparse_math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 50ba406..478c8a9 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -64,9 +64,10 @@ def sparse_kron(
     # take care of the zero case.
     if nzz_a == 0 or nzz_b == 0:
         return torch.sparse_coo_tensor(
-            torch.zeros([2, 1]),
+            torch.zeros([2, 1], dtype=torch.long),
             torch.zeros([1]),
             size=output_shape,
+            dtype=torch.promote_types(sparse_tensor_a.dtype, sparse_tensor_b.dtype),
             device=sparse_tensor_a.device,
         )
 
-- 
2.43.0


From e0804d054808c708c199d21c3739c4156b383f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 09/22] fix: use the filter length in the default level of the
 matrix transforms

len() of a WaveletTensorTuple is the number of filters (four) and not the filter
length, so level=None chose a wrong level.
---
 src/ptwt/matmul_transform.py   | 2 +-
 src/ptwt/matmul_transform_2.py | 2 +-
 src/ptwt/matmul_transform_3.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index cb43584..36dd626 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -396,7 +396,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
             re_build = True
 
         if self.level is None:
-            wlen = len(self.wavelet)
+            wlen = self.wavelet.dec_len
             level = int(np.log2(length / (wlen - 1)))
         elif self.level <= 0:
             raise ValueError("level must be a positive integer.")
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 85212fa..e2daa38 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -486,7 +486,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             re_build = True
 
         if self.level is None:
-            wlen = len(self.wavelet)
+            wlen = self.wavelet.dec_len
             level = int(
                 np.min([np.log2(height / (wlen - 1)), np.log2(width / (wlen - 1))])
             )
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 36a7e0d..df7d3fa 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -225,7 +225,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             re_build = True
 
         if self.level is None:
-            wlen = len(self.wavelet)
+            wlen = self.wavelet.dec_len
             level = int(
                 np.min(
                     [
-- 
2.43.0


From 36308798151670a64c0468f442f99100212a583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 10/22] fix: support tensor tuples with the default level of
 n-d transforms

wavedec2 and wavedec3 passed the WaveletTensorTuple to pywt.dwtn_max_level, which
takes it for one wavelet per axis and raises a ValueError; the separable
transforms used its len(), which is the number of filters.
---
 src/ptwt/conv_transform_2.py         | 3 ++-
 src/ptwt/conv_transform_3.py         | 5 ++---
 src/ptwt/separable_conv_transform.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ptwt/conv_transform_2.py b/src/ptwt/conv_transform_2.py
index a0ff680..f26ebd2 100644
--- a/src/ptwt/conv_transform_2.py
+++ b/src/ptwt/conv_transform_2.py
@@ -17,6 +17,7 @@ from ._util import (
     _check_same_device_dtype,
     _construct_2d_filt,
     _get_filter_tensors,
+    _get_len,
     _get_padding_n,
     _group_for_symmetric,
     _pad_symmetric,
@@ -135,7 +136,7 @@ def wavedec2(
     )
 
     if level is None:
-        level = pywt.dwtn_max_level([data.shape[-1], data.shape[-2]], wavelet)
+        level = pywt.dwt_max_level(min(data.shape[-2:]), _get_len(wavelet))
 
     result_lst: list[WaveletDetailTuple2d] = []
     res_ll = data
diff --git a/src/ptwt/conv_transform_3.py b/src/ptwt/conv_transform_3.py
index f6249a8..550018a 100644
--- a/src/ptwt/conv_transform_3.py
+++ b/src/ptwt/conv_transform_3.py
@@ -17,6 +17,7 @@ from ._util import (
     _check_same_device_dtype,
     _construct_3d_filt,
     _get_filter_tensors,
+    _get_len,
     _get_padding_n,
     _group_for_symmetric,
     _pad_symmetric,
@@ -114,9 +115,7 @@ def wavedec3(
     )
 
     if level is None:
-        level = pywt.dwtn_max_level(
-            [data.shape[-1], data.shape[-2], data.shape[-3]], wavelet
-        )
+        level = pywt.dwt_max_level(min(data.shape[-3:]), _get_len(wavelet))
 
     result_lst: list[WaveletDetailDict] = []
     res_lll = data
diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index 350043a..24928cc 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -16,8 +16,8 @@ import torch
 
 from ._util import (
     AxisHint,
-    _as_wavelet,
     _check_same_device_dtype,
+    _get_len,
     _postprocess_coeffs,
     _postprocess_tensor,
     _preprocess_coeffs,
@@ -138,7 +138,7 @@ def _separable_conv_wavedecn(
     approx = input
 
     if level is None:
-        wlen = len(_as_wavelet(wavelet))
+        wlen = _get_len(wavelet)
         level = int(
             min([np.log2(axis_len / (wlen - 1)) for axis_len in input.shape[1:]])
         )
-- 
2.43.0


From 5ca417e9532c5f94173bf6104cca8d130e00821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 11/22] fix: do not return an extra dimension from wavedec3 at
 level zero

For volumes too small for a single default level (or level=0) the internal
channel dimension stayed in the returned approximation tensor.
---
 src/ptwt/conv_transform_3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/conv_transform_3.py b/src/ptwt/conv_transform_3.py
index 550018a..82a2f96 100644
--- a/src/ptwt/conv_transform_3.py
+++ b/src/ptwt/conv_transform_3.py
@@ -118,7 +118,8 @@ def wavedec3(
         level = pywt.dwt_max_level(min(data.shape[-3:]), _get_len(wavelet))
 
     result_lst: list[WaveletDetailDict] = []
-    res_lll = data
+    # without any level, the added channel dimension must not be returned
+    res_lll = data.squeeze(1)
     for _ in range(level):
         if len(res_lll.shape) == 4:
             res_lll = res_lll.unsqueeze(1)
-- 
2.43.0


From 2945a07bca556bf01d4a1785b7beec705704b9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 12/22] fix: let MatrixWaverec3 invert coefficients without
 detail levels

MatrixWavedec3 returns only the approximation if the volume is smaller than the
filter. MatrixWaverec3 rejected this with a ValueError whereas the 1d and 2d
objects return the approximation.
---
 src/ptwt/matmul_transform_3.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index df7d3fa..df92493 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -432,7 +432,10 @@ class MatrixWaverec3(object):
         torch_device, torch_dtype = _check_same_device_dtype(coefficients)
 
         level = len(coefficients) - 1
-        if type(coefficients[-1]) is dict:
+        if level == 0:
+            # the analysis stopped before the first level, nothing to invert
+            depth, height, width = coefficients[0].shape[-3:]
+        elif type(coefficients[-1]) is dict:
             depth, height, width = tuple(
                 c * 2 for c in coefficients[-1]["ddd"].shape[-3:]
             )
-- 
2.43.0


From c7e20d1ddc5aef4b8d26b76cc538194b0bef5d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 13/22] fix: keep reconstructed packets when missing siblings
 are initialized

Reconstruct lazily expanded a missing inner node after its sibling had been
reconstructed, and the expansion overwrote this sibling with the analysis of the
old data. The root then depended on more than the leaves.
---
 src/ptwt/packets.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/packets.py b/src/ptwt/packets.py
index 180c11c..207df48 100644
--- a/src/ptwt/packets.py
+++ b/src/ptwt/packets.py
@@ -216,7 +216,11 @@ class WaveletPacket(BaseDict):
             self.maxlevel = pywt.dwt_max_level(self[""].shape[-1], self.wavelet.dec_len)
 
         for level in reversed(range(self.maxlevel)):
-            for node in self.get_level(level):
+            nodes = self.get_level(level)
+            # Nodes are always expanded together with their siblings. Initialize the
+            # missing nodes first to keep siblings that are already reconstructed.
+            self.initialize(nodes)
+            for node in nodes:
                 # check if any children is not available
                 # we need to check manually to avoid lazy init
                 for child in self._filter_keys:
@@ -493,7 +497,11 @@ class WaveletPacket2D(BaseDict):
             self.maxlevel = pywt.dwt_max_level(min_transform_size, self.wavelet.dec_len)
 
         for level in reversed(range(self.maxlevel)):
-            for node in WaveletPacket2D.get_natural_order(level):
+            nodes = WaveletPacket2D.get_natural_order(level)
+            # Nodes are always expanded together with their siblings. Initialize the
+            # missing nodes first to keep siblings that are already reconstructed.
+            self.initialize(nodes)
+            for node in nodes:
                 # check if any children is not available
                 # we need to check manually to avoid lazy init
                 for child in self._filter_keys:
-- 
2.43.0


From f88900dd81cf5db64e1a5733004ef18c6b6e2244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 14/22] fix: return the input from the non-separable
 MatrixWavedec2 at level zero

---
 src/ptwt/matmul_transform_2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index e2daa38..9f570d5 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -538,6 +538,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                 split_list.append(WaveletDetailTuple2d(lh, hl, hh))
         else:
             ll = input_signal.transpose(-2, -1).reshape([batch_size, -1]).T
+            ll_height, ll_width = height, width
             for scale, fwt_matrix in enumerate(self.fwt_matrix_list):
                 fwt_matrix = cast(torch.Tensor, fwt_matrix)
                 pad = self.pad_list[scale]
@@ -566,7 +567,8 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                 )
                 split_list.append(WaveletDetailTuple2d(*reshaped))
                 ll = four_split[0]
-            ll = ll.T.reshape(batch_size, size[1] // 2, size[0] // 2).transpose(2, 1)
+                ll_height, ll_width = size[0] // 2, size[1] // 2
+            ll = ll.T.reshape(batch_size, ll_width, ll_height).transpose(2, 1)
 
         split_list.reverse()
         result: WaveletCoeff2d = ll, *split_list
-- 
2.43.0


From 2cd5d66ea57544271c71faa079deb6d2368a5b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:28 +0000
Subject: [PATCH 15/22] fix: discard partially built matrices when their
 construction fails

An exception while the boundary-filter matrices were built left a partial
list behind which later calls with the same shape used.
---
 src/ptwt/matmul_transform.py   | 10 ++++++++--
 src/ptwt/matmul_transform_2.py | 18 ++++++++++--------
 src/ptwt/matmul_transform_3.py | 10 ++++++++--
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 36dd626..38e1559 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -318,6 +318,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
         self.pad_list = []
         self.padded = False
 
+        matrix_list: list[torch.Tensor] = []
         filt_len = self.wavelet.dec_len
         curr_length = self.input_length
         for curr_level in range(1, level + 1):
@@ -349,10 +350,12 @@ class MatrixWavedec(BaseMatrixWaveDec):
                 device=device,
                 dtype=dtype,
             )
-            self.fwt_matrix_list.append(an)
+            matrix_list.append(an)
             curr_length = curr_length // 2
 
         self.size_list.append(curr_length)
+        # stored only when complete: a failed construction must leave no matrices
+        self.fwt_matrix_list = matrix_list
 
     def __call__(self, input_signal: torch.Tensor) -> list[torch.Tensor]:
         """Compute the matrix FWT for the given input signal.
@@ -618,6 +621,7 @@ class MatrixWaverec(object):
         if self.level is None or self.input_length is None:
             raise AssertionError
 
+        matrix_list: list[torch.Tensor] = []
         filt_len = self.wavelet.rec_len
         curr_length = self.input_length
 
@@ -647,8 +651,10 @@ class MatrixWaverec(object):
                 device=device,
                 dtype=dtype,
             )
-            self.ifwt_matrix_list.append(sn)
+            matrix_list.append(sn)
             curr_length = curr_length // 2
+        # stored only when complete: a failed construction must leave no matrices
+        self.ifwt_matrix_list = matrix_list
 
     def __call__(self, coefficients: WaveletCoeff1d) -> torch.Tensor:
         """Run the synthesis or inverse matrix FWT.
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 9f570d5..c077a26 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -396,6 +396,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         self.pad_list = []
         self.padded = False
 
+        matrix_list: list[Union[torch.Tensor, tuple[torch.Tensor, torch.Tensor]]] = []
         filt_len = self.wavelet.dec_len
         current_height, current_width = self.input_signal_shape
         for curr_level in range(1, level + 1):
@@ -433,9 +434,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                     device=device,
                     dtype=dtype,
                 )
-                self.fwt_matrix_list.append(
-                    (analysis_matrix_rows, analysis_matrix_cols)
-                )
+                matrix_list.append((analysis_matrix_rows, analysis_matrix_cols))
             else:
                 analysis_matrix_2d = construct_boundary_a2(
                     wavelet=self.wavelet,
@@ -445,10 +444,12 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                     device=device,
                     dtype=dtype,
                 )
-                self.fwt_matrix_list.append(analysis_matrix_2d)
+                matrix_list.append(analysis_matrix_2d)
             current_height = current_height // 2
             current_width = current_width // 2
         self.size_list.append((current_height, current_width))
+        # stored only when complete: a failed construction must leave no matrices
+        self.fwt_matrix_list = matrix_list
 
     def __call__(self, input_signal: torch.Tensor) -> WaveletCoeff2d:
         """Compute the FWT for the given input signal.
@@ -697,6 +698,7 @@ class MatrixWaverec2(object):
             raise AssertionError
 
         current_height, current_width = self.input_signal_shape
+        matrix_list: list[Union[torch.Tensor, tuple[torch.Tensor, torch.Tensor]]] = []
         filt_len = self.wavelet.rec_len
 
         for curr_level in range(1, self.level + 1):
@@ -730,9 +732,7 @@ class MatrixWaverec2(object):
                     device=device,
                     dtype=dtype,
                 )
-                self.ifwt_matrix_list.append(
-                    (synthesis_matrix_rows, synthesis_matrix_cols)
-                )
+                matrix_list.append((synthesis_matrix_rows, synthesis_matrix_cols))
             else:
                 synthesis_matrix_2d = construct_boundary_s2(
                     self.wavelet,
@@ -742,9 +742,11 @@ class MatrixWaverec2(object):
                     device=device,
                     dtype=dtype,
                 )
-                self.ifwt_matrix_list.append(synthesis_matrix_2d)
+                matrix_list.append(synthesis_matrix_2d)
             current_height = current_height // 2
             current_width = current_width // 2
+        # stored only when complete: a failed construction must leave no matrices
+        self.ifwt_matrix_list = matrix_list
 
     def __call__(
         self,
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index df92493..2ff5d20 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -144,6 +144,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         self.pad_list = []
         self.padded = False
 
+        matrix_list: list[list[torch.Tensor]] = []
         filt_len = self.wavelet.dec_len
         current_depth, current_height, current_width = self.input_signal_shape
         for curr_level in range(1, level + 1):
@@ -184,7 +185,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                 for dimension_length in (current_depth, current_height, current_width)
             ]
 
-            self.fwt_matrix_list.append(analysis_matrics)
+            matrix_list.append(analysis_matrics)
 
             current_depth, current_height, current_width = (
                 current_depth // 2,
@@ -192,6 +193,8 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                 current_width // 2,
             )
         self.size_list.append((current_depth, current_height, current_width))
+        # stored only when complete: a failed construction must leave no matrices
+        self.fwt_matrix_list = matrix_list
 
     def __call__(self, input_signal: torch.Tensor) -> WaveletCoeffNd:
         """Compute a separable 3d FWT using boundary wavelets.
@@ -355,6 +358,7 @@ class MatrixWaverec3(object):
             raise AssertionError
 
         current_depth, current_height, current_width = self.input_signal_shape
+        matrix_list: list[list[torch.Tensor]] = []
         filt_len = self.wavelet.rec_len
 
         for curr_level in range(1, self.level + 1):
@@ -392,12 +396,14 @@ class MatrixWaverec3(object):
                 for dimension_length in (current_depth, current_height, current_width)
             ]
 
-            self.ifwt_matrix_list.append(synthesis_matrices)
+            matrix_list.append(synthesis_matrices)
             current_depth, current_height, current_width = (
                 current_depth // 2,
                 current_height // 2,
                 current_width // 2,
             )
+        # stored only when complete: a failed construction must leave no matrices
+        self.ifwt_matrix_list = matrix_list
 
     def _cat_coeff_recursive(self, input_dict: WaveletDetailDict) -> torch.Tensor:
         done_dict = {}
-- 
2.43.0


From 3db7e4d8420a8f43d589f5cd0069aeb009770666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 16/22] fix: raise ValueError for axes that repeat with
 different signs

---
 src/ptwt/_util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ptwt/_util.py b/src/ptwt/_util.py
index ae58976..211d236 100644
--- a/src/ptwt/_util.py
+++ b/src/ptwt/_util.py
@@ -352,6 +352,8 @@ def _get_transpose_order(
     axes: Sequence[int], data_shape: Sequence[int]
 ) -> tuple[list[int], list[int]]:
     axes = list(map(lambda a: a + len(data_shape) if a < 0 else a, axes))
+    # a positive and a negative axis may denote the same dimension
+    _check_axes_argument(axes)
     all_axes = list(range(len(data_shape)))
     remove_transformed = list(filter(lambda a: a not in axes, all_axes))
     return remove_transformed, axes
-- 
2.43.0


From 39e2bbae751b435a4252d819a838a93acf3b8ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 17/22] fix: reject detail tuples that do not have three
 entries

---
 src/ptwt/_util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ptwt/_util.py b/src/ptwt/_util.py
index 211d236..0555373 100644
--- a/src/ptwt/_util.py
+++ b/src/ptwt/_util.py
@@ -421,6 +421,10 @@ def _coeff_tree_map(
     ] = []
     for element in coeffs[1:]:
         if isinstance(element, tuple):
+            if len(element) != 3:
+                raise ValueError(
+                    f"Detail tuples must have three entries, got {len(element)}."
+                )
             result_lst.append(
                 WaveletDetailTuple2d(
                     function(element[0]),
-- 
2.43.0


From fe3f9f57d9aa47f427af28731aefb8a08cd0a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 18/22] fix: reject coefficients whose batch dimensions differ

---
 src/ptwt/_util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/_util.py b/src/ptwt/_util.py
index 0555373..a559f9a 100644
--- a/src/ptwt/_util.py
+++ b/src/ptwt/_util.py
@@ -567,7 +567,13 @@ def _preprocess_coeffs(
         coeffs = _coeff_tree_map(coeffs, lambda x: x.unsqueeze(0))
     elif len(ds) > ndim + 1:
         # for all tensors in `coeffs`: fold leading dims to batch dim
-        coeffs = _coeff_tree_map(coeffs, lambda t: _fold_axes(t, ndim)[0])
+        def _fold(tensor: torch.Tensor) -> torch.Tensor:
+            folded, shape = _fold_axes(tensor, ndim)
+            if shape[:-ndim] != ds[:-ndim]:
+                raise ValueError("coefficients must have the same batch dimensions")
+            return folded
+
+        coeffs = _coeff_tree_map(coeffs, _fold)
 
     if add_channel_dim:
         # for all tensors in `coeffs`: add channel dim
-- 
2.43.0


From c409dd137f359b7c172b687f9f40d392853c1d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 19/22] fix: validate keys and shapes in the separable
 synthesis

---
 src/ptwt/separable_conv_transform.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index 24928cc..d42a767 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -9,6 +9,7 @@ using torch.nn.functional.conv1d and it's transpose.
 
 from __future__ import annotations
 
+from itertools import product
 from typing import Optional, Union
 
 import numpy as np
@@ -177,8 +178,22 @@ def _separable_conv_waverecn(
         raise ValueError("All entries after approximation tensor must be dicts.")
 
     approx: torch.Tensor = coeffs[0]
-    for level_dict in coeffs[1:]:
-        approx_key = "a" * max(map(len, level_dict.keys()))
+    approx_key = "a" * (len(approx.shape) - 1)
+    detail_keys = {"".join(key) for key in product("ad", repeat=len(approx_key))}
+    detail_keys.remove(approx_key)
+    for c_pos, level_dict in enumerate(coeffs[1:]):
+        if level_dict.keys() != detail_keys:
+            raise ValueError(f"Detail dicts must have the keys {sorted(detail_keys)}.")
+        shape = next(iter(level_dict.values())).shape
+        # the reconstruction exceeds the next level by at most one sample per axis
+        extra = [a_len - d_len for a_len, d_len in zip(approx.shape, shape)]
+        if (
+            any(detail.shape != shape for detail in level_dict.values())
+            or len(shape) != len(approx.shape)
+            or extra[0] != 0
+            or any(e not in ((0, 1) if c_pos else (0,)) for e in extra[1:])
+        ):
+            raise ValueError("All coefficients on each level must have the same shape")
         # copy the dict, the input coefficients belong to the caller
         approx = _separable_conv_idwtn({**level_dict, approx_key: approx}, wavelet)
     return approx
-- 
2.43.0


From 1e5ba01a8502aa9828412e9aa6a40b8d01edf91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 20/22] fix: reject approximations of another shape in
 MatrixWaverec3

---
 src/ptwt/matmul_transform_3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 2ff5d20..15d7b2b 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -489,6 +489,11 @@ class MatrixWaverec3(object):
                     raise ValueError(
                         "All coefficients on each level must have the same shape"
                     )
+            if c_pos == 0 and test_shape != lll.shape:
+                # later levels may exceed the next shape where the analysis padded
+                raise ValueError(
+                    "All coefficients on each level must have the same shape"
+                )
 
             # copy the dict, the input coefficients belong to the caller
             lll = self._cat_coeff_recursive({**coeff_dict, "aaa": lll})
-- 
2.43.0


From 607544ed2fff3358f97ce363cc9f840f8c3de94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 21/22] fix: reject unknown padding modes when matrix
 transforms are constructed

---
 src/ptwt/matmul_transform.py   | 3 +++
 src/ptwt/matmul_transform_2.py | 3 +++
 src/ptwt/matmul_transform_3.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 38e1559..f0402b8 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -25,6 +25,7 @@ from ._util import (
     _postprocess_tensor,
     _preprocess_coeffs,
     _preprocess_tensor,
+    _translate_boundary_strings,
 )
 from .constants import (
     BoundaryMode,
@@ -249,6 +250,8 @@ class MatrixWavedec(BaseMatrixWaveDec):
         """
         self.wavelet = _as_wavelet(wavelet)
         self.level = level
+        # unknown modes must not pass unnoticed until an odd length needs padding
+        _translate_boundary_strings(odd_coeff_padding_mode)
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.orthogonalization = orthogonalization
         self.axis = _ensure_axes(axes=axis, dim=1)[0]
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index c077a26..bfbe96e 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -24,6 +24,7 @@ from ._util import (
     _postprocess_tensor,
     _preprocess_coeffs,
     _preprocess_tensor,
+    _translate_boundary_strings,
 )
 from .constants import (
     BoundaryMode,
@@ -328,6 +329,8 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         self.axes = _ensure_axes(axes=axes, dim=2)
         self.level = level
         self.orthogonalization = orthogonalization
+        # unknown modes must not pass unnoticed until an odd length needs padding
+        _translate_boundary_strings(odd_coeff_padding_mode)
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.separable = separable
         self.input_signal_shape: Optional[tuple[int, int]] = None
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 15d7b2b..aa3ae6a 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -20,6 +20,7 @@ from ._util import (
     _postprocess_tensor,
     _preprocess_coeffs,
     _preprocess_tensor,
+    _translate_boundary_strings,
 )
 from .constants import (
     BoundaryMode,
@@ -120,6 +121,8 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         self.wavelet = _as_wavelet(wavelet)
         self.level = level
         self.orthogonalization = orthogonalization
+        # unknown modes must not pass unnoticed until an odd length needs padding
+        _translate_boundary_strings(odd_coeff_padding_mode)
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.axes = _ensure_axes(axes=axes, dim=3)
         self.input_signal_shape: Optional[tuple[int, int, int]] = None
-- 
2.43.0


From 9252d2c0df7d05f8ee1db326888de6bc7502d20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:57 +0000
Subject: [PATCH 22/22] fix: keep transform matrices usable for training after
 inference mode

Matrices built by a call under torch.inference_mode were inference tensors. The
object kept them, and a later call with data that requires a gradient failed.
---
 src/ptwt/matmul_transform.py   | 2 ++
 src/ptwt/matmul_transform_2.py | 2 ++
 src/ptwt/matmul_transform_3.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index f0402b8..bc8d7d1 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -311,6 +311,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
                 "level."
             )
 
+    @torch.inference_mode(False)  # the cache outlives the mode of this call
     def _construct_analysis_matrices(
         self, device: Union[torch.device, str], dtype: torch.dtype, level: int
     ) -> None:
@@ -615,6 +616,7 @@ class MatrixWaverec(object):
                 "level."
             )
 
+    @torch.inference_mode(False)  # the cache outlives the mode of this call
     def _construct_synthesis_matrices(
         self, device: Union[torch.device, str], dtype: torch.dtype
     ) -> None:
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index bfbe96e..abda974 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -386,6 +386,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                 "level."
             )
 
+    @torch.inference_mode(False)  # the cache outlives the mode of this call
     def _construct_analysis_matrices(
         self,
         device: Union[torch.device, str],
@@ -690,6 +691,7 @@ class MatrixWaverec2(object):
                 "level."
             )
 
+    @torch.inference_mode(False)  # the cache outlives the mode of this call
     def _construct_synthesis_matrices(
         self,
         device: Union[torch.device, str],
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index aa3ae6a..3d055fd 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -134,6 +134,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         if self.wavelet.dec_len != self.wavelet.rec_len:
             raise ValueError("All filters must have the same length")
 
+    @torch.inference_mode(False)  # the cache outlives the mode of this call
     def _construct_analysis_matrices(
         self,
         device: Union[torch.device, str],
@@ -350,6 +351,7 @@ class MatrixWaverec3(object):
         if self.wavelet.dec_len != self.wavelet.rec_len:
             raise ValueError("All filters must have the same length")
 
+    @torch.inference_mode(False)  # the cache outlives the mode of this call
     def _construct_synthesis_matrices(
         self,
         device: Union[torch.device, str],
-- 
2.43.0

