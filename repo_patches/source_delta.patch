From 061a5927dd3afb5d709816efede88cdd4f45ed44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 01/29] fix: consolidate() stores shN channel-grouped so the
 views keep their values

---
 src/gsply/gsdata.py         | 5 +++--
 src/gsply/torch/gstensor.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index a085d3d..f2c141a 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -861,9 +861,10 @@ class GSData:
             sh_coeffs = sh_bands * 3  # Total coefficients (9, 24, or 45)
             n_props = 14 + sh_coeffs
 
-            # Flatten shN from (N, bands, 3) to (N, bands*3)
+            # Flatten shN from (N, bands, 3) to channel-grouped (N, 3*bands), the layout
+            # that _recreate_from_base() and the PLY writer expect
             shn_flat = np.ascontiguousarray(
-                self.shN.reshape(n_gaussians, sh_coeffs), dtype=np.float32
+                self.shN.transpose(0, 2, 1).reshape(n_gaussians, sh_coeffs), dtype=np.float32
             )
 
             # Allocate and populate using JIT kernel
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 94cb4c3..79237e6 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -885,7 +885,8 @@ class GSTensor:
         # Handle shN if present
         if self.shN is not None and self.shN.shape[1] > 0:
             sh_coeffs = self.shN.shape[1]
-            shN_flat = self.shN.reshape(n_gaussians, sh_coeffs * 3)
+            # Channel-grouped order, the layout _recreate_from_base() expects
+            shN_flat = self.shN.transpose(1, 2).reshape(n_gaussians, sh_coeffs * 3)
             new_base[:, 6 : 6 + sh_coeffs * 3] = shN_flat
             opacity_idx = 6 + sh_coeffs * 3
         else:
-- 
2.43.0


From 375283aea468e5af5c41c1cd1444be71aa9c7e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 02/29] fix: zero-copy PLY write keeps the SH degree of empty
 scenes

---
 src/gsply/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 92aedc8..88a79ee 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1148,7 +1148,7 @@ def write_uncompressed(
         # shN.shape = (N, K, 3) where K is number of bands
         # Header needs total coefficients = K * 3
         num_sh_rest = (
-            data.shN.shape[1] * 3 if (data.shN is not None and data.shN.size > 0) else None
+            data.shN.shape[1] * 3 if (data.shN is not None and data.shN.shape[1] > 0) else None
         )
         header_bytes = _build_header_fast(num_gaussians, num_sh_rest)
 
-- 
2.43.0


From 8f356a19041a1417238bdbbbc4c1652ee46a53ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 03/29] fix: PLY header parser stops at end of file

---
 src/gsply/formats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gsply/formats.py b/src/gsply/formats.py
index 3f987b0..03b4e3a 100644
--- a/src/gsply/formats.py
+++ b/src/gsply/formats.py
@@ -180,6 +180,8 @@ def _parse_ply_header(file_path: Path) -> tuple[dict[str, dict[str, Any]], int]:
 
         while True:
             line = f.readline()
+            if not line:
+                raise ValueError("Invalid PLY: no end_header found")
             header_size += len(line)
             line_str = line.decode("ascii").strip()
 
-- 
2.43.0


From 48dc99b9d091260de3ab06881be7f16fada8c901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 04/29] fix: add_mask_layer() no longer changes the layer names
 of other containers

---
 src/gsply/gsdata.py         | 2 +-
 src/gsply/torch/gstensor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index f2c141a..0595fcb 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -671,7 +671,7 @@ class GSData:
             self.masks = np.column_stack([self.masks, mask])
             if self.mask_names is None:
                 self.mask_names = [f"layer_{i}" for i in range(self.masks.shape[1] - 1)]
-            self.mask_names.append(name)
+            self.mask_names = [*self.mask_names, name]  # the list may be shared
 
     def get_mask_layer(self, name: str) -> np.ndarray:
         """Get a mask layer by name.
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 79237e6..2d48bbb 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1770,7 +1770,7 @@ class GSTensor:
             self.masks = torch.cat([self.masks, mask.unsqueeze(-1)], dim=1)
             if self.mask_names is None:
                 self.mask_names = [f"layer_{i}" for i in range(self.masks.shape[1] - 1)]
-            self.mask_names.append(name)
+            self.mask_names = [*self.mask_names, name]  # the list may be shared
 
     def get_mask_layer(self, name: str) -> torch.Tensor:
         """Get a mask layer by name.
-- 
2.43.0


From 230b4c4e32a55cd83b8a9ed6391a807394644d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 05/29] fix: assigning a field no longer leaves a stale _base
 behind

---
 src/gsply/gsdata.py         | 11 +++++++++++
 src/gsply/torch/gstensor.py | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 0595fcb..d4c1b11 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -455,6 +455,17 @@ class GSData:
     mask_names: list[str] | None = None  # Names for each mask layer
     _base: np.ndarray | None = None  # Private field for zero-copy views
 
+    def __setattr__(self, name, value):
+        # Replacing a field detaches it from the shared base array: drop _base so that
+        # slicing, copying, transfers and zero-copy writes use the new values
+        if (
+            name in ("means", "scales", "quats", "opacities", "sh0", "shN")
+            and self._base is not None
+            and value is not getattr(self, name)
+        ):
+            object.__setattr__(self, "_base", None)
+        object.__setattr__(self, name, value)
+
     def __post_init__(self):
         """Auto-detect format if not provided."""
         # Copy format dict to avoid sharing mutable state between instances
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 2d48bbb..768215e 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -83,6 +83,17 @@ class GSTensor:
     mask_names: list[str] | None = None
     _base: torch.Tensor | None = None
 
+    def __setattr__(self, name, value):
+        # Replacing a field detaches it from the shared base tensor: drop _base so that
+        # slicing, copying, transfers and zero-copy writes use the new values
+        if (
+            name in ("means", "scales", "quats", "opacities", "sh0", "shN")
+            and self._base is not None
+            and value is not getattr(self, name)
+        ):
+            object.__setattr__(self, "_base", None)
+        object.__setattr__(self, name, value)
+
     def __post_init__(self):
         """Auto-detect format if not provided."""
         # Copy format dict to avoid sharing mutable state between instances
-- 
2.43.0


From 3911fe7df1e94d067470bdd272341ad54c1dae78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 06/29] fix: plywrite() and save() no longer convert the
 caller's data in place

---
 src/gsply/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 88a79ee..77361b8 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1582,14 +1582,14 @@ def plywrite(
                 file_path = Path(str(file_path) + ".compressed.ply")
 
         # Ensure data is in PLY format (log-scales, logit-opacities) before writing
-        data = _ensure_ply_format(data, inplace=True)
+        data = _ensure_ply_format(data, inplace=False)
 
         # Extract arrays for compressed write (compressed write doesn't use GSData yet)
         means, scales, quats, opacities, sh0, shN = data.unpack()  # noqa: N806
         write_compressed(file_path, means, scales, quats, opacities, sh0, shN)
     else:
         # Ensure data is in PLY format (log-scales, logit-opacities) before writing
-        data = _ensure_ply_format(data, inplace=True)
+        data = _ensure_ply_format(data, inplace=False)
         write_uncompressed(file_path, data, validate=validate)
 
 
-- 
2.43.0


From 26ee02413825c935f8dd57f54f6bb957f892eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 07/29] fix: GSTensor.save() converts linear data to PLY format
 like plywrite_gpu()

---
 src/gsply/torch/compression.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 64d3f71..2b039b8 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -853,8 +853,18 @@ def write_compressed_gpu(file_path: str | Path, gstensor: GSTensor) -> None:
     :param file_path: Output file path
     :param gstensor: GSTensor on GPU to compress and save
     """
+    from gsply.gsdata import DataFormat
+
     file_path = Path(file_path)
 
+    # The file stores log-scales and logit-opacities
+    fmt = gstensor._format
+    if (
+        fmt.get("scales") != DataFormat.SCALES_PLY
+        or fmt.get("opacities") != DataFormat.OPACITIES_PLY
+    ):
+        gstensor = gstensor.normalize(inplace=False)
+
     # Compress on GPU
     chunk_bounds, packed_vertex, packed_sh = compress_gpu(
         gstensor.means,
-- 
2.43.0


From 680aac96c587cfdf13051f15bb7cf748f2c19af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 08/29] fix: RGB colors are converted back to SH coefficients
 when saved

---
 src/gsply/torch/compression.py | 4 +++-
 src/gsply/writer.py            | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 2b039b8..5e8b99d 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -857,13 +857,15 @@ def write_compressed_gpu(file_path: str | Path, gstensor: GSTensor) -> None:
 
     file_path = Path(file_path)
 
-    # The file stores log-scales and logit-opacities
+    # The file stores log-scales, logit-opacities and SH colors
     fmt = gstensor._format
     if (
         fmt.get("scales") != DataFormat.SCALES_PLY
         or fmt.get("opacities") != DataFormat.OPACITIES_PLY
     ):
         gstensor = gstensor.normalize(inplace=False)
+    if fmt.get("sh0") == DataFormat.SH0_RGB:
+        gstensor = gstensor.to_sh(inplace=False)
 
     # Compress on GPU
     chunk_bounds, packed_vertex, packed_sh = compress_gpu(
diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 77361b8..2569894 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -865,7 +865,7 @@ def _compute_chunk_boundaries(num_chunks: int, num_gaussians: int) -> tuple[np.n
 
 
 def _ensure_ply_format(data: GSData, inplace: bool = True) -> GSData:
-    """Ensure data is in PLY format (log-scales, logit-opacities).
+    """Ensure data is in PLY format (log-scales, logit-opacities, SH colors).
 
     Checks format flags and converts if needed. Used before writing PLY files.
 
@@ -880,7 +880,10 @@ def _ensure_ply_format(data: GSData, inplace: bool = True) -> GSData:
         logger.debug(
             f"[PLY Write] Converting from {scales_format}/{opacities_format} to PLY format before writing"
         )
-        return data.normalize(inplace=inplace)
+        data = data.normalize(inplace=inplace)
+    if data._format.get("sh0") == DataFormat.SH0_RGB:
+        # f_dc and the compressed colors are defined in terms of SH coefficients
+        data = data.to_sh(inplace=inplace)
     return data
 
 
-- 
2.43.0


From 4b364ba66c4c48b66fdb6ea2a71b7e1fb4fe42df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 09/29] fix: zero-copy PLY write is limited to float32 base
 arrays

---
 src/gsply/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 2569894..b08ff7d 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1146,7 +1146,7 @@ def write_uncompressed(
     file_path = Path(file_path)
 
     # ZERO-COPY FAST PATH: Write _base array directly if it exists
-    if data._base is not None:
+    if data._base is not None and data._base.dtype == np.float32:
         num_gaussians = len(data)
         # shN.shape = (N, K, 3) where K is number of bands
         # Header needs total coefficients = K * 3
-- 
2.43.0


From 7c7834efc629043d11741a22aa6f86559a58f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 10/29] fix: GSTensor.shN is a view of _base, so in-place edits
 are not lost

---
 src/gsply/torch/gstensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 768215e..f305276 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -958,8 +958,8 @@ class GSTensor:
             shN_flat = base_tensor[:, 6 : 6 + sh_coeffs * 3]
             # PLY stores SH coefficients channel-grouped: [R0..Rk, G0..Gk, B0..Bk]
             # Reshape to [N, 3, K] then transpose to [N, K, 3] for gsplat convention
-            # contiguous() is required for correct memory layout after transpose
-            shN = shN_flat.reshape(n_gaussians, 3, sh_coeffs).transpose(1, 2).contiguous()
+            # Stays a view like the other fields, so in-place edits reach _base
+            shN = shN_flat.view(n_gaussians, 3, sh_coeffs).transpose(1, 2)
             opacity_idx = 6 + sh_coeffs * 3
         else:
             shN = None
-- 
2.43.0


From ff559925793f2505bffd1757cb74bedc06eb9332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 11/29] fix: indexing treats boolean lists and NumPy masks as
 masks

---
 src/gsply/gsdata.py         | 4 ++++
 src/gsply/torch/gstensor.py | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index d4c1b11..21e091c 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1895,6 +1895,10 @@ class GSData:
                 _format=self._format,  # Preserve format flag
             )
 
+        # A list of booleans is a mask, not a list of 0/1 indices
+        if isinstance(key, list) and key and all(isinstance(k, (bool, np.bool_)) for k in key):
+            key = np.array(key, dtype=bool)
+
         # Handle boolean array masking
         if isinstance(key, np.ndarray) and key.dtype == bool:
             if len(key) != len(self):
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index f305276..3757a98 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1074,6 +1074,12 @@ class GSTensor:
                 _format=self._format,  # Preserve format flag
             )
 
+        # NumPy masks and lists of booleans are masks, not 0/1 indices
+        if (isinstance(key, np.ndarray) and key.dtype == bool) or (
+            isinstance(key, list) and key and all(isinstance(k, (bool, np.bool_)) for k in key)
+        ):
+            key = torch.as_tensor(key, dtype=torch.bool, device=self.device)
+
         # Handle boolean tensor masking
         if isinstance(key, torch.Tensor) and key.dtype == torch.bool:
             if len(key) != len(self):
-- 
2.43.0


From 7a657273037740b89d0796a68a499988b5319a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 12/29] fix: compressed readers reject headers that do not
 match the data layout

---
 src/gsply/reader.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index 97e5422..011254c 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -574,11 +574,21 @@ def _parse_elements_from_header(header_lines: list[str]) -> dict:
 
 def _is_compressed_format(header_lines: list) -> bool:
     """Check if PLY header indicates compressed format."""
+    if "format binary_little_endian 1.0" not in header_lines:
+        return False
+
     # Reuse element parsing logic
     elements = _parse_elements_from_header(header_lines)
 
-    # Compressed format has "chunk" and "vertex" elements with specific properties
-    if "chunk" not in elements or "vertex" not in elements:
+    # Compressed format has "chunk" and "vertex" elements with specific properties,
+    # optionally followed by "sh"; the data is stored in this order
+    names = list(elements)
+    if names[:2] != ["chunk", "vertex"] or ("sh" in elements and names[2] != "sh"):
+        return False
+
+    # The unpacking kernel looks up the chunk of every vertex without bounds checks
+    num_vertices = elements["vertex"]["count"]
+    if num_vertices < 0 or elements["chunk"]["count"] != (num_vertices + 255) // 256:
         return False
 
     chunk_props = elements["chunk"]["properties"]
@@ -599,7 +609,16 @@ def _is_compressed_format(header_lines: list) -> bool:
         if prop_name != expected_name:
             return False
 
-    return True
+    # SH coefficients (if any): one byte per coefficient and vertex
+    if "sh" in elements and (
+        elements["sh"]["count"] != num_vertices
+        or any(prop_type != "uchar" for prop_type, _ in elements["sh"]["properties"])
+    ):
+        return False
+
+    return all(prop_type == "float" for prop_type, _ in chunk_props) and all(
+        prop_type == "uint" for prop_type, _ in vertex_props
+    )
 
 
 def _decompress_data_internal(
-- 
2.43.0


From 9e018d1d7c254949b66742e1c35fde806b2b66d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 13/29] fix: read_uncompressed() rejects vertex layouts it
 would misread

---
 src/gsply/reader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index 011254c..66efb06 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -467,6 +467,13 @@ def read_uncompressed(file_path: str | Path) -> GSData | None:  # noqa: PLR0911
             if not is_binary_le or vertex_count is None:
                 return None
 
+            # The vertex data must come first and consist of floats only
+            elements = _parse_elements_from_header(header_lines)
+            if next(iter(elements)) != "vertex" or any(
+                prop_type != "float" for prop_type, _ in elements["vertex"]["properties"]
+            ):
+                return None
+
             # Detect SH degree from property count
             property_count = len(property_names)
             sh_degree = get_sh_degree_from_property_count(property_count)
-- 
2.43.0


From cd7a2929694eeb93db79525b84ee0458a0b62139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 14/29] fix: plyread() reports truncated header lines as
 ValueError

---
 src/gsply/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index 66efb06..a65c632 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -545,7 +545,7 @@ def read_uncompressed(file_path: str | Path) -> GSData | None:  # noqa: PLR0911
             ),  # PLY files use log-scales and logit-opacities
         )
 
-    except (OSError, ValueError):
+    except (OSError, ValueError, IndexError):
         return None
 
 
@@ -853,7 +853,7 @@ def read_compressed(file_path: str | Path) -> GSData | None:
             chunk_data, vertex_data, shN_data, num_vertices, num_chunks
         )
 
-    except (OSError, ValueError):
+    except (OSError, ValueError, IndexError):
         return None
 
 
-- 
2.43.0


From dc337b5cadae8bdcaecc1412114b992da1eb36e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 15/29] fix: normalize()/denormalize() convert only the field
 that needs it in mixed-format data

---
 src/gsply/gsdata.py         | 18 ++++++++++++++++++
 src/gsply/torch/gstensor.py | 12 ++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 21e091c..e586c73 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1453,6 +1453,13 @@ class GSData:
         min_opacity = 1e-4
         max_opacity = 1.0 - 1e-4
 
+        # Mixed formats: the kernel converts both fields, so keep the one already converted
+        kept = {}
+        if self.is_scales_ply and self.is_opacities_linear:
+            kept["scales"] = self.scales.copy()
+        elif self.is_scales_linear and self.is_opacities_ply:
+            kept["opacities"] = self.opacities.copy()
+
         # Use fused deactivation kernel for optimal performance (~8-15x faster)
         result = apply_pre_deactivations(
             self,
@@ -1461,6 +1468,8 @@ class GSData:
             max_opacity=max_opacity,
             inplace=inplace,
         )
+        for name, values in kept.items():
+            setattr(result, name, values)
 
         # Update format dict: scales and opacities are now in PLY format
         if inplace:
@@ -1504,8 +1513,17 @@ class GSData:
         """
         from gsply.utils import apply_pre_activations
 
+        # Mixed formats: the kernel converts both fields, so keep the one already converted
+        kept = {}
+        if self.is_scales_linear and self.is_opacities_ply:
+            kept["scales"] = self.scales.copy()
+        elif self.is_scales_ply and self.is_opacities_linear:
+            kept["opacities"] = self.opacities.copy()
+
         # Use fused activation kernel for optimal performance (~8-15x faster)
         result = apply_pre_activations(self, inplace=inplace)
+        for name, values in kept.items():
+            setattr(result, name, values)
 
         # Update format dict: scales and opacities are now in linear format
         if inplace:
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 3757a98..c937fe7 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -589,6 +589,12 @@ class GSTensor:
             torch.clamp(self.opacities, min=min_opacity, max=max_opacity), eps=min_opacity
         )
 
+        # Mixed formats: keep the field that is already converted
+        if self.is_scales_ply and self.is_opacities_linear:
+            scales = self.scales
+        elif self.is_scales_linear and self.is_opacities_ply:
+            opacities = self.opacities
+
         if inplace:
             self.scales = scales
             self.opacities = opacities
@@ -646,6 +652,12 @@ class GSTensor:
         # Convert logit-opacities back to linear: sigmoid(logit)
         opacities = torch.sigmoid(self.opacities)
 
+        # Mixed formats: keep the field that is already converted
+        if self.is_scales_linear and self.is_opacities_ply:
+            scales = self.scales
+        elif self.is_scales_ply and self.is_opacities_linear:
+            opacities = self.opacities
+
         if inplace:
             self.scales = scales
             self.opacities = opacities
-- 
2.43.0


From 760fe9fe16655ad5b2414c5ed4734ae58224b014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 16/29] fix: end_header must be a line of its own

A comment that ends in 'end_header' ended the header early, so the data was
read from a shifted offset.
---
 src/gsply/reader.py            | 6 +++---
 src/gsply/torch/compression.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index a65c632..5ea5892 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -160,8 +160,8 @@ def _read_header_fast(f) -> tuple[list[str], int] | None:
         # Read first chunk (typical header is 300-2000 bytes)
         chunk = f.read(_HEADER_READ_CHUNK_SIZE)
 
-        # Find end_header marker
-        end_marker = b"end_header\n"
+        # Find end_header marker (a line of its own, not the end of a comment)
+        end_marker = b"\nend_header\n"
         end_idx = chunk.find(end_marker)
 
         if end_idx == -1:
@@ -770,7 +770,7 @@ def _parse_header_from_bytes(compressed_bytes: bytes) -> tuple[list[str], int, d
     :raises ValueError: If header is invalid or not compressed format
     """
     # Fast path: Find end_header with byte search (like _read_header_fast)
-    end_marker = b"end_header\n"
+    end_marker = b"\nend_header\n"
     end_idx = compressed_bytes.find(end_marker)
 
     if end_idx == -1:
diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 5e8b99d..1587576 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -774,15 +774,15 @@ def read_compressed_gpu(file_path: str | Path, device: str = "cuda") -> GSTensor
             if not chunk:
                 break
             header_bytes += chunk
-            if b"end_header\n" in header_bytes:
+            if b"\nend_header\n" in header_bytes:
                 break
 
         # Find header end
-        end_idx = header_bytes.find(b"end_header\n")
+        end_idx = header_bytes.find(b"\nend_header\n")
         if end_idx == -1:
             raise ValueError("Invalid PLY: no end_header found")
 
-        header_bytes = header_bytes[: end_idx + len(b"end_header\n")]
+        header_bytes = header_bytes[: end_idx + len(b"\nend_header\n")]
         data_offset = len(header_bytes)
 
         # Parse header
-- 
2.43.0


From 2ce8af6d111f5c5753857fab780aee5d55c3c836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 17/29] fix: reject repeated elements, malformed header lines
 and reordered chunk bounds

Malformed element/property lines raised IndexError in decompress_from_bytes();
repeated elements replaced the first one; the chunk properties' names were not
compared with the order in which they are decoded.
---
 src/gsply/reader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index 5ea5892..120fc62 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -49,6 +49,7 @@ from gsply.formats import (
     QUAT_INDEX_SHIFT,
     QUAT_NORM,
     SH_BANDS_TO_DEGREE,
+    _EXPECTED_CHUNK_NAMES,
     SH_C0,
     detect_format,
     get_sh_degree_from_property_count,
@@ -566,12 +567,16 @@ def _parse_elements_from_header(header_lines: list[str]) -> dict:
     for line in header_lines:
         if line.startswith("element "):
             parts = line.split()
+            if len(parts) != 3 or parts[1] in elements:
+                raise ValueError(f"Invalid PLY: bad or repeated element line '{line}'")
             name = parts[1]
             count = int(parts[2])
             elements[name] = {"count": count, "properties": []}
             current_element = name
         elif line.startswith("property ") and current_element:
             parts = line.split()
+            if len(parts) < 3:
+                raise ValueError(f"Invalid PLY: bad property line '{line}'")
             prop_type = parts[1]
             prop_name = parts[2]
             elements[current_element]["properties"].append((prop_type, prop_name))
@@ -599,7 +604,7 @@ def _is_compressed_format(header_lines: list) -> bool:
         return False
 
     chunk_props = elements["chunk"]["properties"]
-    if len(chunk_props) != 18:
+    if [prop_name for _, prop_name in chunk_props] != _EXPECTED_CHUNK_NAMES:
         return False
 
     vertex_props = elements["vertex"]["properties"]
-- 
2.43.0


From 8504fae5bff505199dca6bd6b87ef26cd3bd6051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 18/29] fix: sigmoid() and logit() of integer arrays return
 floating-point values

---
 src/gsply/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index e8b4ae4..7d95217 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -79,7 +79,7 @@ def logit(x: np.ndarray | float, eps: float = 1e-6) -> np.ndarray | float:
         val = max(eps, min(val, 1.0 - eps))
         return np.log(val / (1.0 - val))
 
-    out = np.empty_like(x)
+    out = np.empty_like(x, dtype=np.result_type(x, np.float32))
     _logit_impl(x, out, eps)
     return out
 
@@ -112,7 +112,7 @@ def sigmoid(x: np.ndarray | float) -> np.ndarray | float:
         z = np.exp(val)
         return z / (1.0 + z)
 
-    out = np.empty_like(x)
+    out = np.empty_like(x, dtype=np.result_type(x, np.float32))
     _sigmoid_impl(x, out)
     return out
 
-- 
2.43.0


From 6a82dc973bd16649165f0200e0d75923252762f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:18 +0000
Subject: [PATCH 19/29] fix: apply_pre_activations/deactivations() update the
 format tags

---
 src/gsply/utils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index 7d95217..2e3173e 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -342,6 +342,12 @@ def apply_pre_activations(
     data.opacities = opacities
     data.quats = quats
 
+    from gsply.gsdata import DataFormat
+
+    # The values are linear now; stale tags would be saved to PLY files unconverted
+    data._format["scales"] = DataFormat.SCALES_LINEAR
+    data._format["opacities"] = DataFormat.OPACITIES_LINEAR
+
     # CRITICAL: Invalidate _base since we modified arrays in-place.
     # If _base is not invalidated, GSTensor.from_gsdata() will use the fast path
     # and read from _base (which still has PLY format data), ignoring our changes.
@@ -428,6 +434,12 @@ def apply_pre_deactivations(
     data.scales = scales
     data.opacities = opacities
 
+    from gsply.gsdata import DataFormat
+
+    # The values are in PLY format now; stale tags would convert them again when saving
+    data._format["scales"] = DataFormat.SCALES_PLY
+    data._format["opacities"] = DataFormat.OPACITIES_PLY
+
     logger.debug(
         "[PreDeactivation] Deactivated %d Gaussians (min_scale=%.2e, min_opacity=%.2e, max_opacity=%.2e)",
         scales.shape[0],
-- 
2.43.0


From d70057e9080c8975d9f8be35024d8d8066a213bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:02 +0000
Subject: [PATCH 20/29] fix: add_mask_layer() rejects the default name of an
 existing unnamed layer

---
 src/gsply/gsdata.py         | 12 ++++++++----
 src/gsply/torch/gstensor.py | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index e586c73..201e2d7 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -667,8 +667,14 @@ class GSData:
         if mask.shape != (len(self),):
             raise ValueError(f"Mask shape {mask.shape} doesn't match data length ({len(self)},)")
 
+        # Unnamed layers (e.g. of data read from a file) get default names
+        names = self.mask_names
+        if names is None and self.masks is not None:
+            n_layers = 1 if self.masks.ndim == 1 else self.masks.shape[1]
+            names = [f"layer_{i}" for i in range(n_layers)]
+
         # Check for duplicate names
-        if self.mask_names is not None and name in self.mask_names:
+        if names is not None and name in names:
             raise ValueError(f"Mask layer '{name}' already exists")
 
         # Initialize or append to masks
@@ -680,9 +686,7 @@ class GSData:
             if self.masks.ndim == 1:
                 self.masks = self.masks[:, None]
             self.masks = np.column_stack([self.masks, mask])
-            if self.mask_names is None:
-                self.mask_names = [f"layer_{i}" for i in range(self.masks.shape[1] - 1)]
-            self.mask_names = [*self.mask_names, name]  # the list may be shared
+            self.mask_names = [*names, name]  # the list may be shared
 
     def get_mask_layer(self, name: str) -> np.ndarray:
         """Get a mask layer by name.
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index c937fe7..4f6cc8f 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1784,8 +1784,14 @@ class GSTensor:
         if mask.shape != (len(self),):
             raise ValueError(f"Mask shape {mask.shape} doesn't match data length ({len(self)},)")
 
+        # Unnamed layers (e.g. of data read from a file) get default names
+        names = self.mask_names
+        if names is None and self.masks is not None:
+            n_layers = 1 if self.masks.ndim == 1 else self.masks.shape[1]
+            names = [f"layer_{i}" for i in range(n_layers)]
+
         # Check for duplicate names
-        if self.mask_names is not None and name in self.mask_names:
+        if names is not None and name in names:
             raise ValueError(f"Mask layer '{name}' already exists")
 
         # Initialize or append to masks
@@ -1797,9 +1803,7 @@ class GSTensor:
             if self.masks.ndim == 1:
                 self.masks = self.masks.unsqueeze(-1)
             self.masks = torch.cat([self.masks, mask.unsqueeze(-1)], dim=1)
-            if self.mask_names is None:
-                self.mask_names = [f"layer_{i}" for i in range(self.masks.shape[1] - 1)]
-            self.mask_names = [*self.mask_names, name]  # the list may be shared
+            self.mask_names = [*names, name]  # the list may be shared
 
     def get_mask_layer(self, name: str) -> torch.Tensor:
         """Get a mask layer by name.
-- 
2.43.0


From c414c9c1226c36d11d30421a31d65ed35b5114b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:02 +0000
Subject: [PATCH 21/29] fix: add_mask_layer() does not keep a reference to the
 caller's mask

---
 src/gsply/gsdata.py         | 2 +-
 src/gsply/torch/gstensor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 201e2d7..c3b0941 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -679,7 +679,7 @@ class GSData:
 
         # Initialize or append to masks
         if self.masks is None:
-            self.masks = mask[:, None]  # Shape (N, 1)
+            self.masks = mask[:, None].copy()  # Shape (N, 1), independent of the caller's array
             self.mask_names = [name]
         else:
             # Ensure masks is 2D
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 4f6cc8f..97cbcca 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1796,7 +1796,7 @@ class GSTensor:
 
         # Initialize or append to masks
         if self.masks is None:
-            self.masks = mask.unsqueeze(-1)  # Shape (N, 1)
+            self.masks = mask.unsqueeze(-1).clone()  # Shape (N, 1), independent of the caller's
             self.mask_names = [name]
         else:
             # Ensure masks is 2D
-- 
2.43.0


From 50d17a445482f5d79dd6e9b91ebe5dd262d0ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 22/29] fix: report unreadable SOG bundles and images as
 ValueError

---
 src/gsply/sog_reader.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/gsply/sog_reader.py b/src/gsply/sog_reader.py
index 19c9e9b..f79b6f2 100644
--- a/src/gsply/sog_reader.py
+++ b/src/gsply/sog_reader.py
@@ -398,7 +398,10 @@ def _load_webp_image(data: bytes) -> tuple[np.ndarray, int, int]:
             "Or directly: pip install imagecodecs"
         )
 
-    rgba = imagecodecs.webp_decode(data)
+    try:
+        rgba = imagecodecs.webp_decode(data)
+    except RuntimeError as e:
+        raise ValueError(f"Invalid WebP image in SOG data: {e}") from e
     # Ensure RGBA format
     if rgba.shape[2] == 3:
         rgba = np.concatenate(
@@ -409,6 +412,20 @@ def _load_webp_image(data: bytes) -> tuple[np.ndarray, int, int]:
     return rgba_flat, width, height
 
 
+def _read_bundle(source: Path | io.BytesIO) -> dict[str, bytes]:
+    """Read all entries of a SOG ZIP bundle.
+
+    :param source: Path of the bundle or an in-memory file
+    :returns: Entry contents by name
+    :raises ValueError: If source is not a ZIP archive
+    """
+    try:
+        with zipfile.ZipFile(source, "r") as zf:
+            return {name: zf.read(name) for name in zf.namelist()}
+    except zipfile.BadZipFile as e:
+        raise ValueError(f"Invalid SOG bundle: {e}") from e
+
+
 def sogread(file_path: str | Path | bytes) -> GSData:
     """Read SOG (Splat Ordering Grid) format file.
 
@@ -437,8 +454,7 @@ def sogread(file_path: str | Path | bytes) -> GSData:
 
     # Handle bytes input (in-memory ZIP)
     if isinstance(file_path, bytes):
-        with zipfile.ZipFile(io.BytesIO(file_path), "r") as zf:
-            entries = {name: zf.read(name) for name in zf.namelist()}
+        entries = _read_bundle(io.BytesIO(file_path))
     else:
         # Handle file path
         path_obj = Path(file_path)
@@ -446,8 +462,7 @@ def sogread(file_path: str | Path | bytes) -> GSData:
             raise ValueError(f"SOG file or folder not found: {path_obj}")
 
         if path_obj.is_file() and path_obj.suffix.lower() == ".sog":
-            with zipfile.ZipFile(path_obj, "r") as zf:
-                entries = {name: zf.read(name) for name in zf.namelist()}
+            entries = _read_bundle(path_obj)
 
     def load(name: str) -> bytes:
         if entries is not None:
-- 
2.43.0


From feb8dbf2fc90c377e982e4cd82f0b6f640782ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 23/29] fix: reject SOG codebooks and ranges too short for the
 data instead of reading past them

---
 src/gsply/sog_reader.py | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/gsply/sog_reader.py b/src/gsply/sog_reader.py
index f79b6f2..4b89508 100644
--- a/src/gsply/sog_reader.py
+++ b/src/gsply/sog_reader.py
@@ -412,6 +412,37 @@ def _load_webp_image(data: bytes) -> tuple[np.ndarray, int, int]:
     return rgba_flat, width, height
 
 
+def _check_codebook(rgba: np.ndarray, codebook: np.ndarray, count: int, name: str) -> None:
+    """Check that every label used indexes an entry of the codebook.
+
+    The JIT decoders do not check array bounds.
+
+    :param rgba: (W*H*4,) uint8 RGBA label data
+    :param codebook: Codebook values
+    :param count: Number of Gaussians
+    :param name: Attribute name for the error message
+    :raises ValueError: If a label is outside the codebook
+    """
+    labels = rgba[: count * 4].reshape(-1, 4)[:, :3]
+    if labels.size > 0 and labels.max() >= len(codebook):
+        raise ValueError(f"SOG {name} codebook too small for its labels")
+
+
+def _check_range(mins: np.ndarray, maxs: np.ndarray, channels: int, name: str) -> None:
+    """Check that a per-channel value range covers all channels.
+
+    The JIT decoders do not check array bounds.
+
+    :param mins: Minimum values
+    :param maxs: Maximum values
+    :param channels: Number of channels decoded
+    :param name: Attribute name for the error message
+    :raises ValueError: If there are not enough values
+    """
+    if mins.size < channels or maxs.size < channels:
+        raise ValueError(f"SOG {name} mins/maxs need {channels} values")
+
+
 def _read_bundle(source: Path | io.BytesIO) -> dict[str, bytes]:
     """Read all entries of a SOG ZIP bundle.
 
@@ -534,10 +565,12 @@ def sogread(file_path: str | Path | bytes) -> GSData:
         # v3: linear min/max dequantization
         sc_mins = np.array(meta["scales"]["mins"], dtype=np.float32)
         sc_maxs = np.array(meta["scales"]["maxs"], dtype=np.float32)
+        _check_range(sc_mins, sc_maxs, 3, "scales")
         sx, sy, sz = _decode_scales_linear_jit(scales_rgba, sc_mins, sc_maxs, count)
     else:
         # v2: codebook lookup
         scales_codebook = np.array(meta["scales"]["codebook"], dtype=np.float32)
+        _check_codebook(scales_rgba, scales_codebook, count, "scales")
         sx, sy, sz = _decode_scales_jit(scales_rgba, scales_codebook, count)
     scales[:, 0] = sx
     scales[:, 1] = sy
@@ -553,12 +586,14 @@ def sogread(file_path: str | Path | bytes) -> GSData:
         # v3: linear min/max dequantization (4 channels: RGB + opacity in logit space)
         sh0_mins = np.array(meta["sh0"]["mins"], dtype=np.float32)
         sh0_maxs = np.array(meta["sh0"]["maxs"], dtype=np.float32)
+        _check_range(sh0_mins, sh0_maxs, 4, "sh0")
         sh0_r, sh0_g, sh0_b, opacities = _decode_colors_linear_jit(
             sh0_rgba, sh0_mins, sh0_maxs, count
         )
     else:
         # v2: codebook lookup + logit transform on alpha channel
         sh0_codebook = np.array(meta["sh0"]["codebook"], dtype=np.float32)
+        _check_codebook(sh0_rgba, sh0_codebook, count, "sh0")
         sh0_r, sh0_g, sh0_b, opacities = _decode_colors_jit(sh0_rgba, sh0_codebook, count)
 
     sh0 = np.empty((count, 3), dtype=np.float32)
-- 
2.43.0


From 767454a2134a4d0f1d8d7aaf0f0cf028559671af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 24/29] fix: to_ply_tensor()/to_ply_data() convert only the
 field that needs it in mixed-format data

---
 src/gsply/torch/gstensor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 97cbcca..e6791d6 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -514,6 +514,12 @@ class GSTensor:
         # Logit opacities: log(p / (1 - p))
         opacities = torch.logit(torch.clamp(self.opacities, min=_MIN_OPACITY, max=_MAX_OPACITY))
 
+        # Mixed formats: keep the field that is already converted
+        if self.is_scales_ply and self.is_opacities_linear:
+            scales = self.scales
+        elif self.is_scales_linear and self.is_opacities_ply:
+            opacities = self.opacities
+
         # Preserve format and update to PLY format
         format_flag = self._format.copy()
         format_flag["scales"] = DataFormat.SCALES_PLY
-- 
2.43.0


From 364de574479a951aebeaaf988403ee5d792d0b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:55 +0000
Subject: [PATCH 25/29] fix: compressed files without Gaussians can be written
 and read through GSTensor

---
 src/gsply/torch/compression.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 1587576..92e2e87 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -332,7 +332,7 @@ def decompress_gpu(
     # Phase 4B: Batch memory transfer using byte-level concatenation (1.71x speedup)
     # Combine chunk_bounds and vertex_data into single transfer to reduce DMA overhead
     # Use byte-level concatenation to preserve uint32 bit patterns
-    if device != "cpu":
+    if device != "cpu" and num_vertices > 0:
         # Convert to bytes and concatenate (preserves bit patterns)
         chunk_bytes = chunk_data.tobytes()
         vertex_bytes = vertex_data.tobytes()
@@ -447,7 +447,7 @@ def _compute_chunk_bounds_gpu(
         data_padded = data
 
     # Reshape to (NumChunks, 256, D)
-    data_reshaped = data_padded.reshape(num_chunks, CHUNK_SIZE, -1)
+    data_reshaped = data_padded.reshape(num_chunks, CHUNK_SIZE, data.shape[1])
 
     # Create mask to exclude padded values in last chunk
     # For last chunk, mask out positions >= num_gaussians
@@ -627,7 +627,7 @@ def _pack_sh_gpu(shN: torch.Tensor) -> torch.Tensor:  # noqa: N803
     """
     # Transpose [N, K, 3] -> [N, 3, K] then flatten to [N, 3*K]
     # This gives channel-grouped order matching original 3DGS PLY format
-    sh_flat = shN.transpose(1, 2).reshape(shN.shape[0], -1)
+    sh_flat = shN.transpose(1, 2).flatten(start_dim=1)
 
     # Quantize: shN * 32 + 128, clamped to [0, 255]
     return torch.clamp(sh_flat * 32.0 + 128.0, 0.0, 255.0).to(torch.uint8)
-- 
2.43.0


From e3f6dc8ad3202fb75c1a4deb6ff2dfce9f519d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 26/29] fix: reading compressed files with SH works on devices
 other than cpu and cuda

---
 src/gsply/torch/compression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 92e2e87..d3a8372 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -399,7 +399,8 @@ def decompress_gpu(
     shN = None  # noqa: N806
     if sh_data is not None:
         sh_tensor = torch.from_numpy(sh_data)
-        if device != "cpu":
+        if torch.device(device).type == "cuda":
+            # Page-locked memory speeds up the copy, but exists for CUDA only
             sh_tensor = sh_tensor.pin_memory().to(device, non_blocking=True)
         else:
             sh_tensor = sh_tensor.to(device)
-- 
2.43.0


From a4b135ca6ff0f1acce972670cb6a583aae53c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 27/29] fix: read_uncompressed() does not take properties of
 other elements for the vertex's

---
 src/gsply/reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index 120fc62..579c242 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -468,11 +468,11 @@ def read_uncompressed(file_path: str | Path) -> GSData | None:  # noqa: PLR0911
             if not is_binary_le or vertex_count is None:
                 return None
 
-            # The vertex data must come first and consist of floats only
+            # The vertex data must come first and consist of exactly these float properties
             elements = _parse_elements_from_header(header_lines)
-            if next(iter(elements)) != "vertex" or any(
-                prop_type != "float" for prop_type, _ in elements["vertex"]["properties"]
-            ):
+            if next(iter(elements)) != "vertex" or elements["vertex"]["properties"] != [
+                ("float", prop_name) for prop_name in property_names
+            ]:
                 return None
 
             # Detect SH degree from property count
-- 
2.43.0


From 148618f59c5a42bf34fbd4bbb88d95fc40cb44fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 28/29] fix: compressed readers reject SH coefficients that are
 named out of order

---
 src/gsply/reader.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index 579c242..735e70f 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -621,12 +621,14 @@ def _is_compressed_format(header_lines: list) -> bool:
         if prop_name != expected_name:
             return False
 
-    # SH coefficients (if any): one byte per coefficient and vertex
-    if "sh" in elements and (
-        elements["sh"]["count"] != num_vertices
-        or any(prop_type != "uchar" for prop_type, _ in elements["sh"]["properties"])
-    ):
-        return False
+    # SH coefficients (if any): one byte per coefficient and vertex, in order
+    if "sh" in elements:
+        sh_props = elements["sh"]["properties"]
+        if (
+            elements["sh"]["count"] != num_vertices
+            or sh_props != [("uchar", f"f_rest_{i}") for i in range(len(sh_props))]
+        ):
+            return False
 
     return all(prop_type == "float" for prop_type, _ in chunk_props) and all(
         prop_type == "uint" for prop_type, _ in vertex_props
-- 
2.43.0


From 13f377d70cebd7ec0fa250b6aecd8384a8f2d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 29/29] fix: readers reject headers that are not well-formed
 PLY

---
 src/gsply/reader.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index 735e70f..ffeecc0 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -563,23 +563,34 @@ def _parse_elements_from_header(header_lines: list[str]) -> dict:
     """
     elements = {}
     current_element = None
-
-    for line in header_lines:
-        if line.startswith("element "):
-            parts = line.split()
-            if len(parts) != 3 or parts[1] in elements:
+    formats = 0
+
+    if header_lines[0] != "ply":
+        raise ValueError("Invalid PLY: no 'ply' in the first line")
+
+    for line in header_lines[1:]:
+        parts = line.split()
+        keyword = parts[0] if parts else "comment"  # blank lines are ignored
+        if keyword == "format":
+            formats += 1
+        elif keyword == "element":
+            if len(parts) != 3 or parts[1] in elements or not parts[2].isdigit():
                 raise ValueError(f"Invalid PLY: bad or repeated element line '{line}'")
             name = parts[1]
             count = int(parts[2])
             elements[name] = {"count": count, "properties": []}
             current_element = name
-        elif line.startswith("property ") and current_element:
-            parts = line.split()
-            if len(parts) < 3:
+        elif keyword == "property":
+            if current_element is None or len(parts) != (5 if parts[1:2] == ["list"] else 3):
                 raise ValueError(f"Invalid PLY: bad property line '{line}'")
             prop_type = parts[1]
-            prop_name = parts[2]
+            prop_name = parts[-1]
             elements[current_element]["properties"].append((prop_type, prop_name))
+        elif keyword not in ("comment", "obj_info", "end_header"):
+            raise ValueError(f"Invalid PLY: unknown header line '{line}'")
+
+    if formats != 1:
+        raise ValueError("Invalid PLY: there must be exactly one format line")
 
     return elements
 
-- 
2.43.0

