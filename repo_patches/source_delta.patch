From 01d161f0187d649b0961eab81c77f07c5835c6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:05 +0000
Subject: [PATCH 01/32] fix: BasisFlatProd reports num_basis so polynomial_prod
 layers can be built

---
 high_order_layers_torch/Basis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 092a2e2..de77189 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -457,6 +457,7 @@ class BasisFlatProd:
         self.n = n
         self.basis = basis
         self.alpha = alpha
+        self.num_basis = basis.num_basis or n
 
     def interpolate(self, x: Tensor, w: Tensor) -> Tensor:
         """
-- 
2.43.0


From d7be7baa4dbc52cf9dac38d1932b425b11754f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:05 +0000
Subject: [PATCH 02/32] fix: Product layer works without bias

---
 high_order_layers_torch/ProductLayer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/ProductLayer.py b/high_order_layers_torch/ProductLayer.py
index 1ed315b..bbd06fc 100644
--- a/high_order_layers_torch/ProductLayer.py
+++ b/high_order_layers_torch/ProductLayer.py
@@ -50,6 +50,8 @@ class Product(Module):
         this_sum = torch.sum(assemble, dim=1)
         assemble = assemble + 1.0
         assemble = torch.prod(assemble, dim=1) - (1 - self.alpha) * this_sum
-        assemble = assemble - 1 + self.bias
+        assemble = assemble - 1
+        if self.bias is not None:
+            assemble = assemble + self.bias
 
         return assemble
-- 
2.43.0


From 3d6af676c6f228e4a7cfa97301c19ad7fbeb96ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:05 +0000
Subject: [PATCH 03/32] fix: FourierConvolution1d passes its expansion and
 convolution

---
 high_order_layers_torch/FunctionalConvolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/FunctionalConvolution.py b/high_order_layers_torch/FunctionalConvolution.py
index ba7fb13..d244c83 100644
--- a/high_order_layers_torch/FunctionalConvolution.py
+++ b/high_order_layers_torch/FunctionalConvolution.py
@@ -259,7 +259,8 @@ class FourierConvolution1d(FourierConvolution):
             kernel_size=kernel_size,
             length=length,
             rescale_output=rescale_output,
-            conv_wrapper=Conv1d,
+            expansion=Expansion1d,
+            convolution=Conv1d,
             *args,
             **kwargs,
         )
-- 
2.43.0


From b9dea3e1604bf7db61703dfb9f55e466576054ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:05 +0000
Subject: [PATCH 04/32] fix: 1d expansions accept non-contiguous inputs

---
 high_order_layers_torch/Basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index de77189..5a8524a 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -189,7 +189,7 @@ class PiecewiseExpand1d:
             x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
         )
 
-        wid_min_flat = wid_min.view(-1)
+        wid_min_flat = wid_min.reshape(-1)
 
         wrange = wid_min_flat.unsqueeze(-1) + torch.arange(self._n, device=device).view(
             -1
@@ -350,7 +350,7 @@ class PiecewiseDiscontinuousExpand1d:
             x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
         )
 
-        wid_min_flat = wid_min.view(-1)
+        wid_min_flat = wid_min.reshape(-1)
 
         wrange = wid_min_flat.unsqueeze(-1) + torch.arange(self._n, device=device).view(
             -1
-- 
2.43.0


From f4d2cb3d17101f82290511602746a8ea7c6cbe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:05 +0000
Subject: [PATCH 05/32] fix: FourierSeriesEmbedding returns its layer

---
 high_order_layers_torch/positional_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/positional_embeddings.py b/high_order_layers_torch/positional_embeddings.py
index 9bba775..d32f2b5 100644
--- a/high_order_layers_torch/positional_embeddings.py
+++ b/high_order_layers_torch/positional_embeddings.py
@@ -44,7 +44,7 @@ def FourierSeriesEmbedding(
     """
     High order embedding using fourier layer
     """
-    FourierSeries(
+    return FourierSeries(
         n=n, in_features=in_features, out_features=out_features, length=length
     )
 
-- 
2.43.0


From e6da080060daaa2a90878e69657ebd6bbd3854f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:05 +0000
Subject: [PATCH 06/32] fix: HighOrderMLPList builds every configured layer

---
 high_order_layers_torch/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index b58eb7f..c7a2a08 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -133,7 +133,7 @@ class HighOrderMLPList(nn.Module):
             periodicity=periodicity,
         )
         layer_list.append(input_layer)
-        for i in range(1, len(layer_list)):
+        for i in range(1, len(layer_type)):
             if normalization is not None and normalization[i] is not None:
                 layer_list.append(normalization[i]())
             if non_linearity is not None and non_linearity[i] is not None:
-- 
2.43.0


From ad7d867fb968ff92626d78a6f55c889315f6f0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:05 +0000
Subject: [PATCH 07/32] fix: sub-layers of SumLayer and SwitchLayer are
 registered modules

---
 high_order_layers_torch/layers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index 2ecdd52..e30a1a7 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -161,7 +161,7 @@ class LinearReluAdapter(nn.Module):
 class SumLayer(nn.Module):
     def __init__(self, *args, layer_list: list[nn.Module], **kwargs):
         super().__init__()
-        self._layer_list = layer_list
+        self._layer_list = nn.ModuleList(layer_list)
 
     def forward(self, x):
         x_all = [layer(x) for layer in self._layer_list]
@@ -192,7 +192,7 @@ class SwitchLayer(Module):
         self._in_features = in_features
         self._out_features = out_features
 
-        self._layers = [
+        self._layers = nn.ModuleList(
             high_order_fc_layers(
                 layer_type=layer_type,
                 n=n,
@@ -205,7 +205,7 @@ class SwitchLayer(Module):
                 device=device,
             )
             for _ in range(num_input_layers)
-        ]
+        )
 
         self._normalization = normalization
 
-- 
2.43.0


From b509b0d57158c3ff85618ccc21c315ff271ec458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:05 +0000
Subject: [PATCH 08/32] fix: ClassicSinusoidalEmbedding works for dim=2

---
 high_order_layers_torch/positional_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/positional_embeddings.py b/high_order_layers_torch/positional_embeddings.py
index d32f2b5..cfe1bc3 100644
--- a/high_order_layers_torch/positional_embeddings.py
+++ b/high_order_layers_torch/positional_embeddings.py
@@ -25,7 +25,7 @@ class ClassicSinusoidalEmbedding(nn.Module):
 
     def forward(self, x):
         half_dim = self.dim // 2
-        emb = math.log(10000) / (half_dim - 1)
+        emb = math.log(10000) / max(half_dim - 1, 1)
         emb = torch.exp(torch.arange(half_dim) * -emb)
         emb = x.unsqueeze(-1) * emb.unsqueeze(0)
         emb = torch.cat((emb.sin(), emb.cos()), dim=-1)
-- 
2.43.0


From 412b47449a247dbc0df0a52c941200fb57241965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:07 +0000
Subject: [PATCH 09/32] fix: PiecewiseND keeps separate weights for every link

---
 high_order_layers_torch/PolynomialLayers.py | 28 +++++++--------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index b2461fc..6375cb6 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -430,13 +430,10 @@ class PiecewiseND(torch.nn.Module):
             * weight_magnitude
             - weight_magnitude
         ) / self.in_features
-        self.w.data = segment_values.repeat_interleave(
-            self.total_segments * self.weights_per_segment
-        )
-        print("self.w.data", self.w)
+        with torch.no_grad():
+            self.w.copy_(segment_values.unsqueeze(-1).expand_as(self.w))
 
     def which_segment(self, x: torch.Tensor) -> torch.Tensor:
-        print('segments x', torch.min(x[:,:,0]), torch.max(x[:,:,1]))
         return (
             (
                 (x + self._half)
@@ -511,22 +508,15 @@ class PiecewiseND(torch.nn.Module):
         return expanded_indices
 
     def _reshape_weights(self, weight_indices):
-        # Reshape weights based on weight indices
-        batch_size, num_inputs, _ = weight_indices.shape
-        weight_indices = weight_indices.unsqueeze(2).expand(
-            -1, -1, self.out_features, -1
-        )
+        # Select the weights of every link for each input point
+        num_inputs = weight_indices.shape[1]
+        input_index = torch.arange(num_inputs, device=self.device).view(1, -1, 1)
 
-        # Select weights for each input point
-        # selected_weights = self.w[weight_indices]
-
-        # Reshape to [out_features, num_inputs, batch_size, weights_per_segment]
-        reshaped_weights = self.w[weight_indices].view(
-            batch_size, num_inputs, self.out_features, self.weights_per_segment
-        )
+        # [batch, num_inputs, weights_per_segment, out_features]
+        selected_weights = self.w[input_index, :, weight_indices]
 
-        # Permute to get the desired shape [out_features, num_inputs, batch_size, weights_per_segment]
-        return reshaped_weights
+        # [batch, num_inputs, out_features, weights_per_segment]
+        return selected_weights.permute(0, 1, 3, 2)
 
 
 class PiecewisePolynomial(Piecewise):
-- 
2.43.0


From efa5a7181efc828ee0fb7ce94e06ce70ae6c7276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:07 +0000
Subject: [PATCH 10/32] fix: MultiHeadAttention applies each sample's own mask

---
 high_order_layers_torch/attentions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index cdfc944..7d7b0b0 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -324,7 +324,8 @@ class MultiHeadAttention(nn.Module):
         )  # BNxV_LENxD
 
         if mask is not None:
-            mask = mask.unsqueeze(1).repeat(1, self.num_heads, 1, 1)  # BxNxQ_LENxK_LEN
+            # The heads come first in the batched queries and keys.
+            mask = mask.unsqueeze(0).repeat(self.num_heads, 1, 1, 1)  # NxBxQ_LENxK_LEN
 
         context, attn = self.scaled_dot_attn(query, key, value, mask)
 
-- 
2.43.0


From aa2a7534dd79152de95a887338fe664c26c1efc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:07 +0000
Subject: [PATCH 11/32] fix: MultiHeadLocationAwareAttention weights the values
 of its own head

---
 high_order_layers_torch/attentions.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index 7d7b0b0..5616d7c 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -235,11 +235,6 @@ class MultiHeadLocationAwareAttention(nn.Module):
         ).squeeze(2)
         attn = F.softmax(score, dim=1)
 
-        value = value.view(batch_size, seq_len, self.num_heads, self.dim).permute(
-            0, 2, 1, 3
-        )
-        value = value.contiguous().view(-1, seq_len, self.dim)
-
         context = torch.bmm(attn.unsqueeze(1), value).view(
             batch_size, -1, self.num_heads * self.dim
         )
-- 
2.43.0


From 54304b219f88e306436c07d85eb49d84d5e0c9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:07 +0000
Subject: [PATCH 12/32] fix: CustomizingAttention attends to its values and to
 its own last alignment

---
 high_order_layers_torch/attentions.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/high_order_layers_torch/attentions.py b/high_order_layers_torch/attentions.py
index 5616d7c..bfe2d98 100644
--- a/high_order_layers_torch/attentions.py
+++ b/high_order_layers_torch/attentions.py
@@ -505,8 +505,8 @@ class CustomizingAttention(nn.Module):
         query = query.contiguous().view(-1, q_len, self.dim)
         value = value.contiguous().view(-1, v_len, self.dim)
 
-        context, attn = self.scaled_dot_attn(query, value)
-        attn = attn.squeeze()
+        context, attn = self.scaled_dot_attn(query, value, value)
+        attn = attn.squeeze(1)
 
         context = context.view(self.num_heads, batch_size, q_len, self.dim).permute(
             1, 2, 0, 3
@@ -517,14 +517,15 @@ class CustomizingAttention(nn.Module):
 
     def get_loc_energy(self, last_attn: Tensor, batch_size: int, v_len: int) -> Tensor:
         conv_feat = self.conv1d(last_attn.unsqueeze(1))
-        conv_feat = conv_feat.view(batch_size, self.num_heads, -1, v_len).permute(
+        # The alignment is returned with the heads first.
+        conv_feat = conv_feat.view(self.num_heads, batch_size, -1, v_len).permute(
             0, 1, 3, 2
         )
 
         loc_energy = self.loc_proj(conv_feat).view(
-            batch_size, self.num_heads, v_len, self.dim
+            self.num_heads, batch_size, v_len, self.dim
         )
-        loc_energy = loc_energy.permute(0, 2, 1, 3).reshape(
+        loc_energy = loc_energy.permute(1, 2, 0, 3).reshape(
             batch_size, v_len, self.num_heads * self.dim
         )
 
-- 
2.43.0


From c29260c66a5de3d42c0471f7114eb6499133c8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:07 +0000
Subject: [PATCH 13/32] fix: piecewise layers place their segments and nodes on
 [-length/2, length/2]

---
 high_order_layers_torch/Basis.py            |  8 ++++----
 high_order_layers_torch/PolynomialLayers.py | 14 ++++++++------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 5a8524a..31ba980 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -132,7 +132,7 @@ class PiecewiseExpand:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseExpand1d:
@@ -214,7 +214,7 @@ class PiecewiseExpand1d:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseDiscontinuousExpand:
@@ -293,7 +293,7 @@ class PiecewiseDiscontinuousExpand:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class PiecewiseDiscontinuousExpand1d:
@@ -375,7 +375,7 @@ class PiecewiseDiscontinuousExpand1d:
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
 
 class BasisFlat:
diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 6375cb6..8655b7d 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -231,7 +231,7 @@ class Piecewise(nn.Module):
         If not set, then it defaults to random uniform.
         """
         super().__init__()
-        self._poly = poly(n)
+        self._poly = poly(n, length=length)
         self._n = n
         self._segments = segments
         self.in_features = in_features
@@ -341,7 +341,7 @@ class Piecewise(nn.Module):
             - index is the segment index
         """
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
     def interpolate(
         self,
@@ -459,8 +459,10 @@ class PiecewiseND(torch.nn.Module):
 
     def _eta(self, index: torch.Tensor) -> torch.Tensor:
         return (
-            index.float() / torch.tensor(self.segments, device=self.device).float() * 2
-            - 1
+            index.float()
+            / torch.tensor(self.segments, device=self.device).float()
+            * self._length
+            - self._half
         )
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
@@ -589,7 +591,7 @@ class PiecewiseDiscontinuous(nn.Module):
         super().__init__()
         self._n = n
         self.device = device
-        self._poly = poly(self._n)
+        self._poly = poly(self._n, length=length)
         self._segments = segments
         self.in_features = in_features
         self.out_features = out_features
@@ -684,7 +686,7 @@ class PiecewiseDiscontinuous(nn.Module):
 
     def _eta(self, index: int):
         eta = index / float(self._segments)
-        return eta * 2 - 1
+        return eta * self._length - self._half
 
     def interpolate(self, layer_out: "PiecewiseDiscontinuous"):
         interpolate_polynomial_layer(layer_in=self, layer_out=layer_out)
-- 
2.43.0


From 52fb4b0e819a677adf8a1f0cedbf97ef7e77cf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:07 +0000
Subject: [PATCH 14/32] fix: scale of the networks reaches their layers as
 length

---
 high_order_layers_torch/layers.py   | 2 ++
 high_order_layers_torch/networks.py | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index e30a1a7..e245c04 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -182,6 +182,7 @@ class SwitchLayer(Module):
         in_features: int,
         out_features: int,
         scale: float = 2.0,
+        length: float = None,
         segments: int = None,
         normalization: Callable[[Any], Any] = None,
         num_input_layers: int = 2,
@@ -201,6 +202,7 @@ class SwitchLayer(Module):
                 segments=segments,
                 rescale_output=False,
                 scale=scale,
+                length=scale if length is None else length,
                 periodicity=None,
                 device=device,
             )
diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index c7a2a08..ce806b9 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -130,6 +130,7 @@ class HighOrderMLPList(nn.Module):
             segments=segments[0],
             rescale_output=rescale_output,
             scale=scale,
+            length=scale,
             periodicity=periodicity,
         )
         layer_list.append(input_layer)
@@ -147,6 +148,7 @@ class HighOrderMLPList(nn.Module):
                 segments=segments[i],
                 rescale_output=rescale_output,
                 scale=scale,
+                length=scale,
                 periodicity=periodicity,
             )
             layer_list.append(this_layer)
@@ -227,6 +229,7 @@ class HighOrderMLP(nn.Module):
             segments=in_segments,
             rescale_output=rescale_output,
             scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             intialization=initialization,
@@ -250,6 +253,7 @@ class HighOrderMLP(nn.Module):
                 segments=hidden_segments,
                 rescale_output=rescale_output,
                 scale=scale,
+                length=scale,
                 periodicity=periodicity,
                 device=device,
                 initialization=initialization,
@@ -277,6 +281,7 @@ class HighOrderMLP(nn.Module):
             segments=out_segments,
             rescale_output=rescale_output,
             scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             initialization=initialization,
@@ -363,6 +368,7 @@ class HighOrderMultiMLP(nn.Module):
             segments=in_segments,
             rescale_output=rescale_output,
             scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             intialization=initialization,
@@ -423,6 +429,7 @@ class HighOrderMultiMLP(nn.Module):
             segments=out_segments,
             rescale_output=rescale_output,
             scale=scale,
+            length=scale,
             periodicity=periodicity,
             device=device,
             initialization=initialization,
-- 
2.43.0


From 265aed0a68e879310f8103f057f7315188c3d8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:07 +0000
Subject: [PATCH 15/32] fix: positions_from_mesh returns the axis orthogonal to
 each rotated axis

---
 high_order_layers_torch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/utils.py b/high_order_layers_torch/utils.py
index 643468c..b1892d2 100644
--- a/high_order_layers_torch/utils.py
+++ b/high_order_layers_torch/utils.py
@@ -121,7 +121,7 @@ def positions_from_mesh(
         r1_min = torch.min(r1)
         dr1 = r1_max - r1_min
 
-        r2 = rot_x * xv - rot_y * yv
+        r2 = rot_x * yv - rot_y * xv
         r2_max = torch.max(r2)
         r2_min = torch.min(r2)
         dr2 = r2_max - r2_min
-- 
2.43.0


From 5d09a0553c8c1215ea7d0ebf10edb0293c371278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:07 +0000
Subject: [PATCH 16/32] fix: SparseLion applies its weight decay

---
 high_order_layers_torch/sparse_optimizers/sparse_lion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/sparse_optimizers/sparse_lion.py b/high_order_layers_torch/sparse_optimizers/sparse_lion.py
index 21bce8f..7900050 100644
--- a/high_order_layers_torch/sparse_optimizers/sparse_lion.py
+++ b/high_order_layers_torch/sparse_optimizers/sparse_lion.py
@@ -16,7 +16,7 @@ def update_fn(p, grad, exp_avg, lr, wd, beta1, beta2, update_indexes: torch.Tens
     :param update_indexes: True/False array indicating which indexes should be updated
     """
 
-    p.data[update_indexes].mul_(1 - lr * wd)
+    p.data[update_indexes] = p.data[update_indexes].mul_(1 - lr * wd)
 
     # weight update
     grad_update = grad[update_indexes]
-- 
2.43.0


From 0ae822744d48de4663da6c4d143994a21216e14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:07 +0000
Subject: [PATCH 17/32] fix: plateau scheduler no longer passes the removed
 verbose argument

---
 high_order_layers_torch/modules.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index 664e17b..17dedfa 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -73,7 +73,6 @@ class PredictionNetMixin:
                 optimizer,
                 patience=self.cfg.optimizer.patience,
                 factor=self.cfg.optimizer.factor,
-                verbose=True,
             )
             reduce_on_plateau = True
         elif self.cfg.optimizer.scheduler == "exponential":
-- 
2.43.0


From 3c62a379b539003dc7c15cdb134d116f5c0a712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:16 +0000
Subject: [PATCH 18/32] fix: convolutions rescale by the number of inputs of
 each output

---
 high_order_layers_torch/FunctionalConvolution.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/high_order_layers_torch/FunctionalConvolution.py b/high_order_layers_torch/FunctionalConvolution.py
index d244c83..0be94a6 100644
--- a/high_order_layers_torch/FunctionalConvolution.py
+++ b/high_order_layers_torch/FunctionalConvolution.py
@@ -207,7 +207,9 @@ class FourierConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = (
+            in_channels // self.conv.groups * math.prod(self.conv.kernel_size)
+        )
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -307,7 +309,9 @@ class PolynomialConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = (
+            in_channels // self.conv.groups * math.prod(self.conv.kernel_size)
+        )
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -434,7 +438,9 @@ class PiecewisePolynomialConvolution(nn.Module):
             **kwargs,
         )
 
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = (
+            in_channels // self.conv.groups * math.prod(self.conv.kernel_size)
+        )
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
@@ -561,7 +567,9 @@ class PiecewiseDiscontinuousPolynomialConvolution(nn.Module):
             convolution=convolution,
             **kwargs,
         )
-        self._total_in = in_channels * kernel_size * kernel_size
+        self._total_in = (
+            in_channels // self.conv.groups * math.prod(self.conv.kernel_size)
+        )
         self._rescale = 1.0
         if rescale_output is True:
             self._rescale = 1.0 / self._total_in
-- 
2.43.0


From f0c9c5a4fab1b0bf2b5283a2f5b33d3954a7713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:16 +0000
Subject: [PATCH 19/32] fix: 2d convolutions can be initialised with groups

---
 high_order_layers_torch/FunctionalConvolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/FunctionalConvolution.py b/high_order_layers_torch/FunctionalConvolution.py
index 0be94a6..1f7b9cc 100644
--- a/high_order_layers_torch/FunctionalConvolution.py
+++ b/high_order_layers_torch/FunctionalConvolution.py
@@ -359,7 +359,7 @@ class PolynomialConvolution2d(PolynomialConvolution):
             self.conv.weight,
             num_nodes=n,
             out_channels=self._out_channels,
-            in_channels=self._channels,
+            in_channels=self.conv.weight.shape[1],
             kernel_height=kernel_size,
             kernel_width=kernel_size,
             weight_magnitude=weight_magnitude,
@@ -489,7 +489,7 @@ class PiecewisePolynomialConvolution2d(PiecewisePolynomialConvolution):
             self.conv.weight,
             num_nodes=segments * (n - 1) + 1,
             out_channels=self._out_channels,
-            in_channels=self._channels,
+            in_channels=self.conv.weight.shape[1],
             kernel_height=kernel_size,
             kernel_width=kernel_size,
             weight_magnitude=weight_magnitude,
@@ -620,7 +620,7 @@ class PiecewiseDiscontinuousPolynomialConvolution2d(
             self.conv.weight,
             num_nodes=n * segments,
             out_channels=self._out_channels,
-            in_channels=self._channels,
+            in_channels=self.conv.weight.shape[1],
             kernel_height=kernel_size,
             kernel_width=kernel_size,
             weight_magnitude=weight_magnitude,
-- 
2.43.0


From e3d339db2aeb473fe59a62cc7b2ffec77f9d3059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:16 +0000
Subject: [PATCH 20/32] fix: tail focus network collects and reports the sizes
 it produces

---
 high_order_layers_torch/networks.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index ce806b9..cc484d8 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -727,6 +727,8 @@ class HighOrderTailFocusNetwork(nn.Module):
                 f"Length of channels list {self.channels} should be one more than number of layers."
             )
 
+        # Each level ends with its normalization, if there is one
+        self._level_end = "conv" if normalization is None else "normal"
         self.layer_list = []
         self.layer_dict = {}
         for i in range(len(self.channels) - 1):
@@ -758,14 +760,16 @@ class HighOrderTailFocusNetwork(nn.Module):
 
     def compute_sizes(self, input_size: int):
         widths = [input_size]
-        for i, val in enumerate(self.kernel_size):
-            nw = math.ceil((widths[i] - self.kernel_size[i] + 1) / self.stride[i])
+        for i in range(len(self.channels) - 1):
+            stride = 1 if self.stride is None else self.stride[i]
+            width = widths[i] + 2 * self._padding
+            nw = math.ceil((width - self.kernel_size[i] + 1) / stride)
             widths.append(nw)
 
         output_sizes = [
-            self.channels[i] * focus
-            for i, focus in enumerate(self.focus + [widths[-1]])
-        ]
+            self.channels[i] * min(self.focus[i], widths[i])
+            for i in range(len(self.channels) - 1)
+        ] + [self.channels[-1] * widths[-1]]
 
         return widths, output_sizes
 
@@ -774,7 +778,7 @@ class HighOrderTailFocusNetwork(nn.Module):
         count = 1
         for name in self.layer_list:
             x = self.layer_dict[name](x)  # Assuming it only does this move once!
-            if "normal" in name and count < len(self.focus):
+            if self._level_end in name and count < len(self.focus):
                 tail = x[:, :, -self.focus[count] :].flatten(1)
                 early.append(tail)
                 count += 1
-- 
2.43.0


From 58deb1b772b9e7ccf7a5d048047e74c352ae9377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:16 +0000
Subject: [PATCH 21/32] fix: select_network reads n_hidden, the output width
 and the model type from cfg.net

---
 high_order_layers_torch/modules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/modules.py b/high_order_layers_torch/modules.py
index 17dedfa..a3b063b 100644
--- a/high_order_layers_torch/modules.py
+++ b/high_order_layers_torch/modules.py
@@ -117,7 +117,7 @@ def select_network(cfg: DictConfig, device: str = None):
 
         lower_layers = LowOrderMLP(
             in_width=cfg.net.hidden.width,
-            out_width=cfg.output.width,
+            out_width=cfg.net.output.width,
             hidden_width=cfg.net.hidden.width,
             hidden_layers=cfg.net.hidden.layers - 1,
             non_linearity=torch.nn.ReLU(),
@@ -135,7 +135,7 @@ def select_network(cfg: DictConfig, device: str = None):
             layer_type=cfg.net.layer_type,
             n=cfg.net.n,
             n_in=cfg.net.n_in,
-            n_hidden=cfg.net.n_in,
+            n_hidden=cfg.net.n_hidden,
             n_out=cfg.net.n_out,
             in_width=cfg.net.input.width,
             in_segments=cfg.net.input.segments,
@@ -184,7 +184,7 @@ def select_network(cfg: DictConfig, device: str = None):
 
     else:
         raise ValueError(
-            f"Unrecognized model_type {cfg.model_type} should be high_order, high_order_input or high_order_conv!"
+            f"Unrecognized model_type {cfg.net.model_type} should be high_order, high_order_input or high_order_conv!"
         )
 
     return model
-- 
2.43.0


From 2908316dd0ad5aa07f9a702d1e84c806087433df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:16 +0000
Subject: [PATCH 22/32] fix: residual layers add their input instead of
 re-applying the previous layer

---
 high_order_layers_torch/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index cc484d8..0d7f943 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -261,7 +261,7 @@ class HighOrderMLP(nn.Module):
 
             # This will add the result of the previous layer after normalization
             if resnet is True and i > 0:
-                hidden_layer = SumLayer(layer_list=[hidden_layer, layer_list[-1]])
+                hidden_layer = SumLayer(layer_list=[hidden_layer, nn.Identity()])
 
             layer_list.append(hidden_layer)
 
-- 
2.43.0


From 22b2b0f6a845835025b77922c36b6d61e1b905be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:16 +0000
Subject: [PATCH 23/32] fix: HighOrderMultiMLP columns are plain HighOrderMLP
 networks

---
 high_order_layers_torch/networks.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 0d7f943..2a8985c 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -385,10 +385,9 @@ class HighOrderMultiMLP(nn.Module):
             # need to make a special network or special layer
             # think about it.
 
-            replica_network = HighOrderMultiMLP(
+            replica_network = HighOrderMLP(
                 layer_type=layer_type,
                 n=n,
-                replicas=replicas,
                 in_width=hidden_width,
                 out_width=hidden_width,
                 hidden_layers=hidden_layers,
@@ -436,7 +435,7 @@ class HighOrderMultiMLP(nn.Module):
         )
         self.output_list.append(self.output_layer)
 
-        self.model_in = nn.Sequential(*self.input_list)
+        self.model_in = nn.Sequential(*self.layer_list)
         self.model_out = nn.Sequential(*self.output_list)
 
     def forward(self, x: Tensor) -> Tensor:
-- 
2.43.0


From 983c35b8c4dba6b08b5c781380733d8c5554da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:16 +0000
Subject: [PATCH 24/32] fix: product layers can be interpolated

---
 high_order_layers_torch/PolynomialLayers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 8655b7d..b2e01e9 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -779,10 +779,10 @@ def interpolate_polynomial_layer(
     n_in = poly_in.basis.n
     n_out = poly_out.basis.n
 
-    if isinstance(layer_in, PiecewisePolynomial):
+    if isinstance(layer_in, Piecewise):
         offset = -1
         end = 1
-    elif isinstance(layer_in, PiecewiseDiscontinuousPolynomial):
+    elif isinstance(layer_in, PiecewiseDiscontinuous):
         offset = 0
         end = 0
 
-- 
2.43.0


From 31bf68e2c05dd0d792e7f30b221dbd5395c9dec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:16 +0000
Subject: [PATCH 25/32] fix: ND polynomial layers accept one n for all
 dimensions

---
 high_order_layers_torch/LagrangePolynomial.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/LagrangePolynomial.py b/high_order_layers_torch/LagrangePolynomial.py
index 1248ef6..37a3445 100644
--- a/high_order_layers_torch/LagrangePolynomial.py
+++ b/high_order_layers_torch/LagrangePolynomial.py
@@ -288,9 +288,15 @@ class LagrangePolyFlatND(BasisFlatND):
 """
 
 class LagrangePolyFlatND(LagrangeBasisND):
-    def __init__(self, n: int, length: float = 2.0, dimensions: int = 2, **kwargs):
+    def __init__(
+        self,
+        n: Union[List[int], int],
+        length: float = 2.0,
+        dimensions: int = 2,
+        **kwargs
+    ):
         super().__init__(
-            n,
+            [n] * dimensions if isinstance(n, int) else n,
             length=length,
             dimensions=dimensions,
             **kwargs
-- 
2.43.0


From 254d8d54b43db310a54fa841f74529dae96ea5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:16 +0000
Subject: [PATCH 26/32] fix: initialization of networks and piecewise layers
 takes effect

---
 high_order_layers_torch/PolynomialLayers.py |  9 ++++++++-
 high_order_layers_torch/layers.py           |  2 ++
 high_order_layers_torch/networks.py         | 10 +++++-----
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index b2e01e9..1013934 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -544,6 +544,7 @@ class PiecewisePolynomial(Piecewise):
             poly=LagrangePoly,
             periodicity=periodicity,
             device=device,
+            **kwargs,
         )
 
 
@@ -570,6 +571,7 @@ class PiecewisePolynomialProd(Piecewise):
             poly=LagrangePolyProd,
             periodicity=periodicity,
             device=device,
+            **kwargs,
         )
 
 
@@ -605,7 +607,9 @@ class PiecewiseDiscontinuous(nn.Module):
                 self.w, out_features, in_features, weight_magnitude, device
             )
         else:
-            self.w.data.uniform_(-1 / in_features, 1 / in_features)
+            self.w.data.uniform_(
+                -weight_magnitude / in_features, weight_magnitude / in_features
+            )
 
         self._length = length
         self._half = 0.5 * length
@@ -718,6 +722,7 @@ class PiecewiseDiscontinuousPolynomial(PiecewiseDiscontinuous):
             poly=LagrangePoly,
             periodicity=periodicity,
             device=device,
+            **kwargs,
         )
 
 
@@ -743,6 +748,8 @@ class PiecewiseDiscontinuousPolynomialProd(PiecewiseDiscontinuous):
             weight_magnitude,
             poly=LagrangePolyProd,
             periodicity=periodicity,
+            device=device,
+            **kwargs,
         )
 
 
diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index e245c04..454f567 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -187,6 +187,7 @@ class SwitchLayer(Module):
         normalization: Callable[[Any], Any] = None,
         num_input_layers: int = 2,
         device: str = "cpu",
+        initialize: str = "constant_random",
         **kwargs,
     ) -> None:
         super().__init__()
@@ -205,6 +206,7 @@ class SwitchLayer(Module):
                 length=scale if length is None else length,
                 periodicity=None,
                 device=device,
+                initialize=initialize,
             )
             for _ in range(num_input_layers)
         )
diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index 2a8985c..dcb915d 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -232,7 +232,7 @@ class HighOrderMLP(nn.Module):
             length=scale,
             periodicity=periodicity,
             device=device,
-            intialization=initialization,
+            initialize=initialization,
         )
         layer_list.append(self.input_layer)
         for i in range(hidden_layers):
@@ -256,7 +256,7 @@ class HighOrderMLP(nn.Module):
                 length=scale,
                 periodicity=periodicity,
                 device=device,
-                initialization=initialization,
+                initialize=initialization,
             )
 
             # This will add the result of the previous layer after normalization
@@ -284,7 +284,7 @@ class HighOrderMLP(nn.Module):
             length=scale,
             periodicity=periodicity,
             device=device,
-            initialization=initialization,
+            initialize=initialization,
         )
         layer_list.append(self.output_layer)
         self.model = nn.Sequential(*layer_list)
@@ -371,7 +371,7 @@ class HighOrderMultiMLP(nn.Module):
             length=scale,
             periodicity=periodicity,
             device=device,
-            intialization=initialization,
+            initialize=initialization,
         )
         self.layer_list.append(self.input_layer)
 
@@ -431,7 +431,7 @@ class HighOrderMultiMLP(nn.Module):
             length=scale,
             periodicity=periodicity,
             device=device,
-            initialization=initialization,
+            initialize=initialization,
         )
         self.output_list.append(self.output_layer)
 
-- 
2.43.0


From 935f71475d1bd268d113641d73ecdd9e6f99e54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:16 +0000
Subject: [PATCH 27/32] fix: refinement of a periodic layer reads the segment
 containing each node

---
 high_order_layers_torch/PolynomialLayers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index 1013934..a21b344 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -269,7 +269,13 @@ class Piecewise(nn.Module):
         if self.periodicity is not None:
             x = make_periodic(x, self.periodicity)
 
-        # get the segment index
+        return self.containing_segment(x)
+
+    def containing_segment(self, x: torch.Tensor) -> Tensor:
+        """
+        Return the segment(s) of the domain the x are in without
+        applying the periodicity.
+        """
         id_min = (((x + self._half) / self._length) * self._segments).long()
         id_min = id_min.clamp(0, self._segments - 1)
         return id_min
@@ -926,7 +932,7 @@ def refine_polynomial_layer(
                     x_global = layer_out.x_global(x_out, j)
 
                     # figure out which segments these correspond to in the input
-                    index_in = layer_in.which_segment(x_global)
+                    index_in = layer_in.containing_segment(x_global)
 
                     # compute the local x value in the input so we can interpolate
                     x_local_in = layer_in.x_local(x_global, index_in)
-- 
2.43.0


From 5061b99cbbff0474f7da2afdddc2a144a729c8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:16 +0000
Subject: [PATCH 28/32] fix: LazyLayerNormLastDim registers its parameters
 before the first call

---
 high_order_layers_torch/layers.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/high_order_layers_torch/layers.py b/high_order_layers_torch/layers.py
index 454f567..28656de 100644
--- a/high_order_layers_torch/layers.py
+++ b/high_order_layers_torch/layers.py
@@ -3,6 +3,7 @@ import math
 import torch.nn as nn
 from torch.nn import Linear
 import torch.nn.functional as F
+from torch.nn.modules.lazy import LazyModuleMixin
 
 from .FunctionalConvolution import *
 from .FunctionalConvolutionTranspose import *
@@ -18,7 +19,7 @@ from .utils import (
 )
 
 
-class LazyLayerNormLastDim(nn.Module):
+class LazyLayerNormLastDim(LazyModuleMixin, nn.Module):
     """
     Lazily initialize the layer norm to the last dimension of the input
     variable. Assumes dimension remains constant.
@@ -26,17 +27,19 @@ class LazyLayerNormLastDim(nn.Module):
 
     def __init__(self, bias=True):
         super().__init__()
-        self.weight = None
-        self.bias = bias
+        self.weight = nn.UninitializedParameter()
+        self.bias = nn.UninitializedParameter() if bias else None
+
+    def initialize_parameters(self, input):
+        if self.has_uninitialized_params():
+            with torch.no_grad():
+                self.weight.materialize(input.shape[-1:], device=input.device)
+                self.weight.fill_(1.0)
+                if self.bias is not None:
+                    self.bias.materialize(input.shape[-1:], device=input.device)
+                    self.bias.zero_()
 
     def forward(self, input):
-        if self.weight is None:
-            ndim = input.shape[-1]
-            self.weight = nn.Parameter(torch.ones(ndim)).to(input.device)
-            self.bias = (
-                nn.Parameter(torch.zeros(ndim)).to(input.device) if self.bias else None
-            )
-
         return F.layer_norm(input, self.weight.shape, self.weight, self.bias, 1e-5)
 
 
-- 
2.43.0


From 1cdf9428bd752b5b2dde135dc3575414856ec29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:53 +0000
Subject: [PATCH 29/32] fix: ND Lagrange basis is one, not minus one, at its
 own node

---
 high_order_layers_torch/LagrangePolynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_order_layers_torch/LagrangePolynomial.py b/high_order_layers_torch/LagrangePolynomial.py
index 37a3445..04ff58e 100644
--- a/high_order_layers_torch/LagrangePolynomial.py
+++ b/high_order_layers_torch/LagrangePolynomial.py
@@ -99,7 +99,7 @@ class LagrangeBasisND:
     def _compute_denominators(self):
         return [
             torch.where(X_diff == 0, torch.tensor(1.0, device=self.device), X_diff)
-            for X_diff in [Xi.unsqueeze(0) - Xi.unsqueeze(1) for Xi in self.X]
+            for X_diff in [Xi.unsqueeze(1) - Xi.unsqueeze(0) for Xi in self.X]
         ]
 
     def _compute_indexes(self):
-- 
2.43.0


From fd91272d41f51145d28c123002587a209871cbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:37 +0000
Subject: [PATCH 30/32] fix: piecewise convolutions work in double precision

---
 high_order_layers_torch/Basis.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/high_order_layers_torch/Basis.py b/high_order_layers_torch/Basis.py
index 31ba980..a900565 100644
--- a/high_order_layers_torch/Basis.py
+++ b/high_order_layers_torch/Basis.py
@@ -103,6 +103,7 @@ class PiecewiseExpand:
             x.shape[3],
             self._variables,
             device=device,
+            dtype=out.dtype,
         )
 
         wid_min_flat = wid_min.reshape(-1)
@@ -186,7 +187,12 @@ class PiecewiseExpand1d:
         out = self._expand(x_in)
 
         mat = torch.zeros(
-            x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
+            x.shape[0],
+            x.shape[1],
+            x.shape[2],
+            self._variables,
+            device=device,
+            dtype=out.dtype,
         )
 
         wid_min_flat = wid_min.reshape(-1)
@@ -268,6 +274,7 @@ class PiecewiseDiscontinuousExpand:
             x.shape[3],
             self._variables,
             device=x.device,
+            dtype=out.dtype,
         )
 
         wid_min_flat = wid_min.reshape(-1)
@@ -347,7 +354,12 @@ class PiecewiseDiscontinuousExpand1d:
         out = self._expand(x_in)
 
         mat = torch.zeros(
-            x.shape[0], x.shape[1], x.shape[2], self._variables, device=device
+            x.shape[0],
+            x.shape[1],
+            x.shape[2],
+            self._variables,
+            device=device,
+            dtype=out.dtype,
         )
 
         wid_min_flat = wid_min.reshape(-1)
-- 
2.43.0


From 0e3cdd91393489aef719edac88ea7d0e21a9776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:05 +0000
Subject: [PATCH 31/32] fix: p- and h-refinement work in double precision

---
 high_order_layers_torch/PolynomialLayers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/high_order_layers_torch/PolynomialLayers.py b/high_order_layers_torch/PolynomialLayers.py
index a21b344..e0d2806 100644
--- a/high_order_layers_torch/PolynomialLayers.py
+++ b/high_order_layers_torch/PolynomialLayers.py
@@ -787,7 +787,7 @@ def interpolate_polynomial_layer(
         )
 
     x_in = poly_in.basis.X.reshape(-1, 1)
-    x_out = poly_out.basis.X.reshape(-1, 1)
+    x_out = poly_out.basis.X.reshape(-1, 1).to(w_in.dtype)
 
     n_in = poly_in.basis.n
     n_out = poly_out.basis.n
@@ -913,7 +913,7 @@ def refine_polynomial_layer(
     w_out = layer_out.w
 
     x_in = poly_in.basis.X.reshape(-1, 1).to(device)
-    x_out = poly_out.basis.X.reshape(-1, 1).to(device)
+    x_out = poly_out.basis.X.reshape(-1, 1).to(device=device, dtype=w_in.dtype)
 
     n_in = poly_in.basis.n
     n_out = poly_out.basis.n
@@ -939,7 +939,9 @@ def refine_polynomial_layer(
 
                     # Since the segments may not be aligned, modify the weights one by one
                     for index, i in enumerate(index_in):
-                        x = torch.tensor([[x_local_in[index, 0]]], device=device)
+                        x = torch.tensor(
+                            [[x_local_in[index, 0]]], device=device, dtype=w_in.dtype
+                        )
                         w = (
                             w_in[
                                 inputs,
-- 
2.43.0


From 16c3702bda12f4f6e2aa13329bd5e7675dec83f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:03 +0000
Subject: [PATCH 32/32] fix: sampling from an autoencoder in double precision

---
 high_order_layers_torch/networks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/high_order_layers_torch/networks.py b/high_order_layers_torch/networks.py
index dcb915d..45748a6 100644
--- a/high_order_layers_torch/networks.py
+++ b/high_order_layers_torch/networks.py
@@ -913,7 +913,9 @@ class VanillaVAE(LightningModule):
         Returns :
             (Tensor)
         """
-        z = torch.randn(num_samples, self.latent_dim, device=self.device)
+        z = torch.randn(
+            num_samples, self.latent_dim, device=self.device, dtype=self.dtype
+        )
 
         samples = self.decode(z)
         return samples
-- 
2.43.0

