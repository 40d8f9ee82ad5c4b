From db827b79d0a1cea42a364faf4eda9a7fd865d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 01/45] fix: moving a tensor keeps the knowledge that its
 memory is shared or mapped

The move constructor dropped is_shadow_/shadow_target_ and mmapped_/original_mmap_,
so the moved-to tensor released memory it does not own (or passed a mapping to delete[]).
---
 src/util/Tensor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index d927f44..322973d 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -74,7 +74,15 @@ Tensor::Tensor ( Tensor && tensor ) {
   height_ = tensor.height_;
   elements_ = tensor.elements_;
 
+  // The memory is still shared or mapped if it was before
+  is_shadow_ = tensor.is_shadow_;
+  shadow_target_ = tensor.shadow_target_;
+  mmapped_ = tensor.mmapped_;
+  original_mmap_ = tensor.original_mmap_;
+
   tensor.data_ptr_ = nullptr;
+  tensor.mmapped_ = false;
+  tensor.original_mmap_ = nullptr;
   tensor.DeleteIfPossible();
 }
 
-- 
2.43.0


From 973d2eb3803e28ce33299251688f1c8f524c4b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 02/45] fix: recognise .Tensor and .jpeg files by their
 extension

The last three characters of the file name were compared with longer extensions, which
never match, and file names of less than three characters threw std::out_of_range.
---
 src/util/Tensor.cpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 322973d..e987437 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -588,11 +588,16 @@ std::size_t Tensor::PixelMaximum ( std::size_t x, std::size_t y, std::size_t sam
 }
 
 
+static bool HasExtension ( const std::string& filename, const std::string& extension ) {
+  return filename.length() >= extension.length() && filename.compare (
+           filename.length() - extension.length(), extension.length(), extension ) == 0;
+}
+
 void Tensor::LoadFromFile ( const std::string& filename ) {
 #ifdef BUILD_PNG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "png" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "PNG" ) == 0 )
+  if ( HasExtension ( filename, "png" )
+       || HasExtension ( filename, "PNG" )
      ) {
     std::ifstream input_image_file ( filename, std::ios::in | std::ios::binary );
 
@@ -606,10 +611,10 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 #endif
 #ifdef BUILD_JPG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "jpg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "jpeg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPG" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPEG" ) == 0 )
+  if ( HasExtension ( filename, "jpg" )
+       || HasExtension ( filename, "jpeg" )
+       || HasExtension ( filename, "JPG" )
+       || HasExtension ( filename, "JPEG" )
      ) {
     Conv::JPGUtil::LoadFromFile ( filename, *this );
     return;
@@ -617,7 +622,7 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 
 #endif
 
-  if ( filename.compare ( filename.length() - 3, 3, "Tensor" ) == 0 ) {
+  if ( HasExtension ( filename, "Tensor" ) ) {
     std::ifstream input_image_file ( filename, std::ios::in | std::ios::binary );
 
     if ( !input_image_file.good() )
@@ -633,8 +638,8 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 void Tensor::WriteToFile ( const std::string& filename ) {
 #ifdef BUILD_PNG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "png" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "PNG" ) == 0 )
+  if ( HasExtension ( filename, "png" )
+       || HasExtension ( filename, "PNG" )
      ) {
     std::ofstream output_image_file ( filename, std::ios::out | std::ios::binary );
 
@@ -649,10 +654,10 @@ void Tensor::WriteToFile ( const std::string& filename ) {
 #endif
 #ifdef BUILD_JPG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "jpg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "jpeg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPG" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPEG" ) == 0 )
+  if ( HasExtension ( filename, "jpg" )
+       || HasExtension ( filename, "jpeg" )
+       || HasExtension ( filename, "JPG" )
+       || HasExtension ( filename, "JPEG" )
      ) {
     Conv::JPGUtil::WriteToFile ( filename, *this );
     return;
@@ -660,7 +665,7 @@ void Tensor::WriteToFile ( const std::string& filename ) {
 
 #endif
 
-  if ( filename.compare ( filename.length() - 3, 3, "Tensor" ) == 0 ) {
+  if ( HasExtension ( filename, "Tensor" ) ) {
     std::ofstream output_image_file ( filename, std::ios::out | std::ios::binary );
 
     if ( !output_image_file.good() )
-- 
2.43.0


From 86d1d2becfc313c0258968e59cf23534ebd03a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 03/45] fix: a memory-mapped tensor can be read into again, and
 unmaps all of its pages

Deserialize overwrote original_mmap_ before releasing the previous mapping, so the new
mapping was unmapped right away; an empty tensor left the old contents in place; reading
without mapping into a mapped tensor of the same size wrote to read-only memory. The
length passed to munmap did not include the offset of the data in its first page.
---
 src/util/CompressedTensor.cpp | 10 +++++++++-
 src/util/Tensor.cpp           |  8 +++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index b8a76a5..ea213a8 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -140,6 +140,12 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
 #endif
     Resize ( samples, width, height, maps, compressed_length );
     
+#ifdef BUILD_POSIX
+  // Whatever is stored here now needs to go before original_mmap_ is replaced
+  if(try_mmap && fd != 0)
+    DeleteIfPossible();
+#endif
+
   if ( compressed_length > 0 && !head_only ) {
 #ifdef BUILD_POSIX
     if(try_mmap && fd != 0) {
@@ -173,7 +179,9 @@ void CompressedTensor::DeleteIfPossible() {
   if ( compressed_data_ptr_ != nullptr ) {
 #ifdef BUILD_POSIX
     if(mmapped_) {
-      munmap((void*)original_mmap_, compressed_length_);
+      // The mapping starts at a page boundary, the data may not
+      munmap((void*)original_mmap_, compressed_length_
+        + (std::size_t)(compressed_data_ptr_ - (char*)original_mmap_));
       original_mmap_ = nullptr;
       mmapped_ = false;
     } else {
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index e987437..2044ef6 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -290,6 +290,10 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
   input.read ( ( char* ) &maps, sizeof ( uint64_t ) / sizeof ( char ) );
 
 #ifdef BUILD_POSIX
+  // A mapping can't be written to, and needs to go before original_mmap_ is replaced
+  if(mmapped_ || (try_mmap && fd != 0))
+    DeleteIfPossible();
+
   if(!try_mmap || fd == 0)
 #endif
     Resize ( samples, width, height, maps );
@@ -405,7 +409,9 @@ void Tensor::DeleteIfPossible() {
     if ( !is_shadow_ ) {
 #ifdef BUILD_POSIX
       if(mmapped_) {
-        munmap((void*)original_mmap_, (elements_ * sizeof(datum)) / sizeof(char));
+        // The mapping starts at a page boundary, the data may not
+        munmap((void*)original_mmap_, ((elements_ * sizeof(datum)) / sizeof(char))
+          + (std::size_t)((char*)data_ptr_ - (char*)original_mmap_));
         original_mmap_ = nullptr;
         mmapped_ = false;
       } else {
-- 
2.43.0


From 1fae9eacdda6e17dad5db6cd151c5e693312d700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 04/45] fix: ListTensorStream::CopySample reports whether the
 sample was copied

It did not return a value, which is undefined behaviour, and leaked its color tables.
---
 src/util/ListTensorStream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util/ListTensorStream.cpp b/src/util/ListTensorStream.cpp
index 0832b12..7ab924e 100644
--- a/src/util/ListTensorStream.cpp
+++ b/src/util/ListTensorStream.cpp
@@ -155,11 +155,15 @@ namespace Conv {
 						}
 					}
 				} // end if
-				Tensor::CopySample(label_tensor, source_sample, target, target_sample);
+				delete[] cr;
+				delete[] cg;
+				delete[] cb;
+				
+				return Tensor::CopySample(label_tensor, source_sample, target, target_sample);
 				
 			} else {
 				// Tensor has an image in it, no transform needed
-				Tensor::CopySample(rgb_tensor, source_sample, target, target_sample);
+				return Tensor::CopySample(rgb_tensor, source_sample, target, target_sample);
 			}
 		} else {
 			return false;
-- 
2.43.0


From 3afdba15f209c29f8211f6f7bbfdbb216104b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 05/45] fix: CompressedTensorStream refuses target samples
 outside of the target

The shortcut for tensors of equal size wrote past the end of the target.
---
 src/util/CompressedTensorStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/CompressedTensorStream.cpp b/src/util/CompressedTensorStream.cpp
index 8f1d7f2..762ee49 100644
--- a/src/util/CompressedTensorStream.cpp
+++ b/src/util/CompressedTensorStream.cpp
@@ -69,7 +69,7 @@ bool CompressedTensorStream::CopySample(const unsigned int source, const std::si
 {
   if(source < tensors_.size()) {
     CompressedTensor* const ctensor = tensors_[source];
-    if(source_sample == 0 && ctensor->width() == target.width() && ctensor->height() == target.height() && ctensor->maps() == target.maps() && ctensor->samples() == 1) {
+    if(source_sample == 0 && target_sample < target.samples() && ctensor->width() == target.width() && ctensor->height() == target.height() && ctensor->maps() == target.maps() && ctensor->samples() == 1) {
       // This is a little hack for faster loading of certain datasets
 #ifdef BUILD_OPENCL
       target.MoveToCPU();
-- 
2.43.0


From 71205b0454ab703a6d99c81a1bbdc04b8fb5feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 06/45] fix: Colorize finds the best class when no score is
 positive

The search started at numeric_limits::min(), the smallest positive number.
---
 src/util/Colorize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Colorize.cpp b/src/util/Colorize.cpp
index 758df1f..b28d423 100644
--- a/src/util/Colorize.cpp
+++ b/src/util/Colorize.cpp
@@ -49,7 +49,7 @@ void Dataset::Colorize(Tensor& net_output_tensor, Tensor& target_tensor) {
        for(unsigned int y = 0; y < net_output_tensor.height(); y++) {
 	for(unsigned int x = 0; x < net_output_tensor.width(); x++) {
 	  unsigned int maxclass = 0;
-	  datum maxvalue = std::numeric_limits<datum>::min();
+	  datum maxvalue = std::numeric_limits<datum>::lowest();
 	  for(unsigned int c = 0; c < GetClasses(); c++) {
 	    const datum value = *net_output_tensor.data_ptr_const(x,y,c,sample);
 	    if(value > maxvalue) {
-- 
2.43.0


From 3fdc6767689c856aec10b8160e0b07c160895400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 07/45] fix: the padded size covers all testing images,
 whatever the number of training images

---
 src/util/TensorStreamDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index 14109dd..c9cfe73 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -87,7 +87,7 @@ TensorStreamDataset::TensorStreamDataset (
       max_height_ = training_stream_->GetHeight(2*t);
   }
 
-  for (unsigned int t = (tensor_count_training_ / 2) ; t < tensors_; t++) {
+  for (unsigned int t = 0; t < (tensor_count_testing_ / 2); t++) {
     if(testing_stream_->GetWidth(2*t) > max_width_)
       max_width_ = testing_stream_->GetWidth(2*t);
     
-- 
2.43.0


From c976954ed9655561846b02bab69f3b1770463dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 08/45] fix: position information of images that are one pixel
 wide or high is 0, not NaN

---
 src/util/TensorStreamDataset.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index c9cfe73..f969732 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -205,8 +205,8 @@ bool TensorStreamDataset::GetTrainingSample (Tensor& data_tensor, Tensor& label_
 		// Write spatial prior data to helper tensor
 		for (unsigned int y = 0; y < data_height; y++) {
 			for (unsigned int x = 0; x < data_width; x++) {
-				*helper_tensor.data_ptr(x, y, 0, sample) = ((datum)x) / ((datum)data_width - 1);
-				*helper_tensor.data_ptr(x, y, 1, sample) = ((datum)y) / ((datum)data_height - 1);
+				*helper_tensor.data_ptr(x, y, 0, sample) = (data_width > 1) ? ((datum)x) / ((datum)data_width - 1) : 0;
+				*helper_tensor.data_ptr(x, y, 1, sample) = (data_height > 1) ? ((datum)y) / ((datum)data_height - 1) : 0;
 			}
 			for (unsigned int x = data_width; x < GetWidth(); x++) {
 				*helper_tensor.data_ptr(x, y, 0, sample) = 0;
@@ -251,8 +251,8 @@ bool TensorStreamDataset::GetTestingSample (Tensor& data_tensor, Tensor& label_t
 		// Write spatial prior data to helper tensor
 		for (unsigned int y = 0; y < data_height; y++) {
 			for (unsigned int x = 0; x < data_width; x++) {
-				*helper_tensor.data_ptr(x, y, 0, sample) = ((datum)x) / ((datum)data_width - 1);
-				*helper_tensor.data_ptr(x, y, 1, sample) = ((datum)y) / ((datum)data_height - 1);
+				*helper_tensor.data_ptr(x, y, 0, sample) = (data_width > 1) ? ((datum)x) / ((datum)data_width - 1) : 0;
+				*helper_tensor.data_ptr(x, y, 1, sample) = (data_height > 1) ? ((datum)y) / ((datum)data_height - 1) : 0;
 			}
 			for (unsigned int x = data_width; x < GetWidth(); x++) {
 				*helper_tensor.data_ptr(x, y, 0, sample) = 0;
-- 
2.43.0


From 18e157dd33abbe186db9f937ffbf612158e48069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 09/45] fix: testing patches start after the training patches

---
 src/util/TensorStreamPatchDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 00dc53b..53ab65a 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -269,7 +269,7 @@ bool TensorStreamPatchDataset::GetTrainingSample (Tensor& data_tensor, Tensor& l
 
 bool TensorStreamPatchDataset::GetTestingSample (Tensor& data_tensor, Tensor& label_tensor, Tensor& helper_tensor, Tensor& weight_tensor, unsigned int sample, unsigned int index) {
   if (index < sample_count_testing_) {
-		index += sample_count_testing_;
+		index += sample_count_training_;
     bool success = true;
 
     // Find patch
-- 
2.43.0


From eb358bb5cba3950e3ae8d6f75513818d24a5bb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 10/45] fix: testing patches are memory mapped from the testing
 file

---
 src/util/TensorStreamPatchDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 53ab65a..155cac0 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -442,7 +442,7 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
     }
 #ifdef BUILD_POSIX
     if(!no_mmap)
-      testing_fd = open(training_file.c_str(), O_RDONLY);
+      testing_fd = open(testing_file.c_str(), O_RDONLY);
     if(testing_fd < 0) {
       FATAL("Failed to load " << testing_file << "!");
     }
-- 
2.43.0


From 5afecccfd74d7beff5fcc48a3ccb2f603ffad299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 11/45] fix: images smaller than the patch size contribute no
 patches

---
 src/util/TensorStreamPatchDataset.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 155cac0..19e7acf 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -122,8 +122,9 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 	for (unsigned int t = 0; t < (tensor_count_training_ / 2); t++) {
 		data_[t].Deserialize(training_stream, false, true, training_fd);
 
-		unsigned int inner_width = data_[t].width() - (patchsize_x_ - 1);
-		unsigned int inner_height = data_[t].height() - (patchsize_y_ - 1);
+		// Images smaller than a patch contain no patches
+		unsigned int inner_width = data_[t].width() >= patchsize_x_ ? data_[t].width() - (patchsize_x_ - 1) : 0;
+		unsigned int inner_height = data_[t].height() >= patchsize_y_ ? data_[t].height() - (patchsize_y_ - 1) : 0;
 
 		if (t == 0)
 			last_sample_[t] = inner_width * inner_height;
@@ -140,8 +141,9 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 	for (unsigned int t = (tensor_count_training_ / 2); t < tensors_; t++) {
 		data_[t].Deserialize(testing_stream, false, true, testing_fd);
 
-		unsigned int inner_width = data_[t].width() - (patchsize_x_ - 1);
-		unsigned int inner_height = data_[t].height() - (patchsize_y_ - 1);
+		// Images smaller than a patch contain no patches
+		unsigned int inner_width = data_[t].width() >= patchsize_x_ ? data_[t].width() - (patchsize_x_ - 1) : 0;
+		unsigned int inner_height = data_[t].height() >= patchsize_y_ ? data_[t].height() - (patchsize_y_ - 1) : 0;
 
 		if (t == 0)
 			last_sample_[t] = inner_width * inner_height;
-- 
2.43.0


From 5a4e3dffea3499c5c87550a8a2e343850a15f8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 12/45] fix: NetGraph::Initialize accumulates gradients per
 output buffer

---
 src/net/NetGraph.cpp | 46 ++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index c7471a4..dd7b673 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -7,6 +7,7 @@
 
 #include <sstream>
 #include <algorithm>
+#include <iterator>
 
 #include "Log.h"
 #include "LossFunctionLayer.h"
@@ -211,35 +212,42 @@ void NetGraph::Initialize() {
     no_multiple_connections = true;
 		std::vector<NetGraphNode*> nodes(nodes_);
     for (NetGraphNode* node : nodes) {
-      if(node->backprop_connections.size() > 1 && dynamic_cast<GradientAccumulationLayer*>(node->layer) == NULL) {
+      if(dynamic_cast<GradientAccumulationLayer*>(node->layer) != NULL)
+        continue;
+      // Every output buffer with more than one backprop connection needs its own gradient accumulation
+      for(unsigned int buffer = 0; buffer < node->output_buffers.size(); buffer++) {
+        auto reads_buffer =
+          [&](const NetGraphBackpropConnection& backprop_connection){ return backprop_connection.buffer == buffer; };
+        std::vector<NetGraphBackpropConnection> readers;
+        std::copy_if(node->backprop_connections.begin(), node->backprop_connections.end(),
+          std::back_inserter(readers), reads_buffer);
+        if(readers.size() < 2)
+          continue;
+
         no_multiple_connections = false;
         LOGINFO << "Node has multiple backprop connections: " << node->layer->GetLayerDescription();
-        
+
+        // Remove these backprop connections from node
+        node->backprop_connections.erase(std::remove_if(node->backprop_connections.begin(), node->backprop_connections.end(),
+        reads_buffer), node->backprop_connections.end());
+
         // Insert gradient accumulation layer
-        GradientAccumulationLayer* ga = new GradientAccumulationLayer(node->backprop_connections.size());
-        NetGraphNode* ga_node = new NetGraphNode(ga, NetGraphConnection(node));
+        GradientAccumulationLayer* ga = new GradientAccumulationLayer(readers.size());
+        NetGraphNode* ga_node = new NetGraphNode(ga, NetGraphConnection(node, buffer));
         AddNode(ga_node);
         
         // Redirect input connections using backprop connections
         int b = 0;
-        for(NetGraphBackpropConnection& backprop_connection : node->backprop_connections) {
-          if(backprop_connection.node != ga_node) {
-            for(NetGraphConnection& target_connection : backprop_connection.node->input_connections) {
-              if(target_connection.node == node && target_connection.buffer == backprop_connection.buffer && target_connection.backprop) {
-                target_connection.node = ga_node;
-                backprop_connection.buffer = b;
-                target_connection.buffer = b++;
-              }
+        for(NetGraphBackpropConnection& backprop_connection : readers) {
+          for(NetGraphConnection& target_connection : backprop_connection.node->input_connections) {
+            if(target_connection.node == node && target_connection.buffer == buffer && target_connection.backprop) {
+              target_connection.node = ga_node;
+              backprop_connection.buffer = b;
+              target_connection.buffer = b++;
             }
-            ga_node->backprop_connections.push_back(backprop_connection);
           }
+          ga_node->backprop_connections.push_back(backprop_connection);
         }
-        
-        // Remove backprop connections from node
-        auto predicate = 
-          [&](NetGraphBackpropConnection backprop_connection){ return backprop_connection.node != ga_node; };
-        node->backprop_connections.erase(std::remove_if(node->backprop_connections.begin(), node->backprop_connections.end(),
-        predicate), node->backprop_connections.end());
       }
     }
   } while(!no_multiple_connections);
-- 
2.43.0


From 7d27762a3251eceaf1d373a6fbf6050c9604be49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 13/45] fix: NetGraph reports null and out-of-network
 connections as incomplete instead of crashing or ignoring them

---
 src/net/NetGraph.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index dd7b673..73cb263 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -59,6 +59,8 @@ void NetGraph::AddNode(NetGraphNode* node) {
   
   // Add backprop connection where appropiate
   for(NetGraphConnection& connection : node->input_connections) {
+    if (connection.node == nullptr)
+      continue; // Reported by NetGraph::IsComplete()
     if (connection.backprop && !connection.node->is_input) {
       NetGraphBackpropConnection backprop_connection(node, connection.buffer);
       connection.node->backprop_connections.push_back(backprop_connection);
@@ -86,8 +88,9 @@ bool NetGraph::IsComplete() const {
 			if (node->layer != nullptr) {
 				for (NetGraphConnection connection : node->input_connections) {
 					if (connection.node != nullptr) {
-						if (std::find(nodes_.begin(), nodes_.end(), node) == nodes_.end()) {
+						if (std::find(nodes_.begin(), nodes_.end(), connection.node) == nodes_.end()) {
 							LOGWARN << "Node has out-of-network connection: " << node->layer->GetLayerDescription();
+							node_okay = false;
 						}
 						else {
 							if (connection.buffer >= connection.node->output_buffers.size()) {
@@ -128,7 +131,8 @@ bool NetGraph::IsComplete() const {
 			LOGDEBUG << "Node is okay: " << node->layer->GetLayerDescription();
 		}
 		else {
-			LOGWARN << "Node is not okay: " << node->layer->GetLayerDescription();
+			if (node != nullptr && node->layer != nullptr)
+				LOGWARN << "Node is not okay: " << node->layer->GetLayerDescription();
 			is_complete = false;
 		}
 	}
-- 
2.43.0


From 1913704dfb24bbf2ccd6c1aed104d1f80a544998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:26 +0000
Subject: [PATCH 14/45] fix: COL2IM checks the column against the width instead
 of the row

---
 src/math/TensorMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index f1cbebe..767a1af 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -332,7 +332,7 @@ void TensorMath::COL2IM(Tensor& source, const int source_width, const int source
           if(iy >= 0 && iy < source_height) {
             for(int ox = 0; ox < target_width; ox++) {
               int ix = ox * stride_width - pad_width + kx;
-              if(ix >= 0 && iy < source_width) {
+              if(ix >= 0 && ix < source_width) {
                 source_ptr[(imap * source_height + iy) * source_width + ix] +=
                   target_ptr[(sample * target_height + oy) * target_width + ox];
               } 
-- 
2.43.0


From 4d1bc680022332aee8bcfd9a8e0c5506ef7f16f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:26 +0000
Subject: [PATCH 15/45] fix: AdvancedMaxPoolingLayer refuses inputs smaller
 than its region

---
 src/net/AdvancedMaxPoolingLayer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/net/AdvancedMaxPoolingLayer.cpp b/src/net/AdvancedMaxPoolingLayer.cpp
index e40d027..3827d34 100644
--- a/src/net/AdvancedMaxPoolingLayer.cpp
+++ b/src/net/AdvancedMaxPoolingLayer.cpp
@@ -59,6 +59,12 @@ bool AdvancedMaxPoolingLayer::CreateOutputs (
     return false;
   }
 
+  // Validate dimensions
+  if (input->data.width() < region_width_ || input->data.height() < region_height_) {
+    LOGERROR << "Input is smaller than the pooling region!";
+    return false;
+  }
+
   const int output_width = ((int)input->data.width() - (int)region_width_ ) / (int)stride_width_ + 1;
   const int output_height = ((int)input->data.height() - (int)region_height_) / (int)stride_height_ + 1;
 
-- 
2.43.0


From 5c0a05df9deac769fce5567c8e8b4450a4d6cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:26 +0000
Subject: [PATCH 16/45] fix: SumLayer and ConcatenationLayer refuse inputs of
 different size

---
 src/net/ConcatenationLayer.cpp | 3 ++-
 src/net/SumLayer.cpp           | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/net/ConcatenationLayer.cpp b/src/net/ConcatenationLayer.cpp
index 25b7609..1e3bb51 100644
--- a/src/net/ConcatenationLayer.cpp
+++ b/src/net/ConcatenationLayer.cpp
@@ -32,8 +32,9 @@ bool ConcatenationLayer::CreateOutputs (const std::vector< CombinedTensor* >& in
   }
   
   if(input_a->data.width() != input_b->data.width()
-    && input_a->data.height() != input_b->data.height()) {
+    || input_a->data.height() != input_b->data.height()) {
     LOGERROR << "Dimensions don't match!";
+    return false;
   }
   
   if(input_a->data.samples() != input_b->data.samples()) {
diff --git a/src/net/SumLayer.cpp b/src/net/SumLayer.cpp
index c599aa1..c80dc12 100644
--- a/src/net/SumLayer.cpp
+++ b/src/net/SumLayer.cpp
@@ -33,8 +33,9 @@ bool SumLayer::CreateOutputs (const std::vector< CombinedTensor* >& inputs,
   }
   
   if(input_a->data.width() != input_b->data.width()
-    && input_a->data.height() != input_b->data.height()) {
+    || input_a->data.height() != input_b->data.height()) {
     LOGERROR << "Dimensions don't match!";
+    return false;
   }
   
   if(input_a->data.samples() != input_b->data.samples()) {
@@ -87,7 +88,7 @@ bool SumLayer::Connect (const std::vector< CombinedTensor* >& inputs,
   }
   
   if((output->data.elements() != input_a->data.elements())
-    && (output_->data.elements() != input_b->data.elements())) {
+    || (output->data.elements() != input_b->data.elements())) {
     LOGERROR << "Wrong output dimensions!";
     return false;
   }
-- 
2.43.0


From fe4cac3d5980936e3527d807d237440d8ed9e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 17/45] fix: GradientAccumulationLayer refuses outputs of
 different size

---
 src/net/GradientAccumulationLayer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net/GradientAccumulationLayer.cpp b/src/net/GradientAccumulationLayer.cpp
index 70fa9e5..a676d00 100644
--- a/src/net/GradientAccumulationLayer.cpp
+++ b/src/net/GradientAccumulationLayer.cpp
@@ -78,6 +78,7 @@ bool GradientAccumulationLayer::Connect (const std::vector< CombinedTensor* >& i
     }
     if(input->data.elements() != outputs[i]->data.elements()) {
       LOGERROR << "Wrong output dimensions!";
+      return false;
     }
     outputs_.push_back(outputs[i]);
   }
-- 
2.43.0


From 071d518ef7a8ee6d93dc21ec9ea9cdb462e76b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 18/45] fix: LocalResponseNormalizationLayer covers the whole
 width of the image

---
 src/net/LocalResponseNormalizationLayer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/net/LocalResponseNormalizationLayer.cpp b/src/net/LocalResponseNormalizationLayer.cpp
index efadf67..808d934 100644
--- a/src/net/LocalResponseNormalizationLayer.cpp
+++ b/src/net/LocalResponseNormalizationLayer.cpp
@@ -83,7 +83,7 @@ void LocalResponseNormalizationLayer::FeedForward() {
     if(normalization_method_ == WITHIN_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = 0;
             unsigned int region_size = 0;
             for(unsigned int iy = (((int)y-sub) > 0 ? (int)y-sub : 0); (iy < input_height_) && (iy <= ((int)y+add)); iy++) {
@@ -103,7 +103,7 @@ void LocalResponseNormalizationLayer::FeedForward() {
     } else if(normalization_method_ == ACROSS_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = 0;
             unsigned int region_size = 0;
             for(unsigned int imap = (((int)map-sub) > 0 ? (int)map-sub : 0); (imap < maps_) && (imap <= ((int)map+add)); imap++) {
@@ -135,7 +135,7 @@ void LocalResponseNormalizationLayer::BackPropagate() {
     if(normalization_method_ == WITHIN_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = (*region_sums_.data_ptr_const(x,y,map,sample));
             unsigned int region_size = 0;
             for(unsigned int iy = (((int)y-sub) > 0 ? (int)y-sub : 0); (iy < input_height_) && (iy <= ((int)y+add)); iy++) {
@@ -163,7 +163,7 @@ void LocalResponseNormalizationLayer::BackPropagate() {
     } else if(normalization_method_ == ACROSS_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = (*region_sums_.data_ptr_const(x,y,map,sample));
             unsigned int region_size = 0;
             for(unsigned int imap = (((int)map-sub) > 0 ? (int)map-sub : 0); (imap < maps_) && (imap <= ((int)map+add)); imap++) {
-- 
2.43.0


From f186b4e2e66a5ea8af473ec0c6ff744e31561102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 19/45] fix: HMaxActivationFunction weights its parameter
 gradients with the output gradient

---
 src/net/HMaxActivationFunction.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/net/HMaxActivationFunction.cpp b/src/net/HMaxActivationFunction.cpp
index 49c2684..613dca1 100644
--- a/src/net/HMaxActivationFunction.cpp
+++ b/src/net/HMaxActivationFunction.cpp
@@ -150,7 +150,9 @@ void HMaxActivationFunction::BackPropagate() {
   // calculate part of the derivative of the KL criterion
   // which is constant for all dimensions
   // https://figss.uni-frankfurt.de/~triesch/publications/Triesch-ICANN2005.pdf
-  datum delta_a = -((datum)(input_->data.elements()))/a * lambda_sparse_regularization;
+  // (zero without regularization, even if a is zero)
+  datum delta_a = lambda_sparse_regularization == 0 ? 0 :
+    -((datum)(input_->data.elements()))/a * lambda_sparse_regularization;
   datum delta_b = -(datum)(input_->data.elements()) * lambda_sparse_regularization;
 	
   for (std::size_t element = 0; element < input_->data.elements(); element++) {
@@ -168,8 +170,8 @@ void HMaxActivationFunction::BackPropagate() {
     datum input_delta = output_delta * a * output_mix; 
     
     // Calculate gradient of the output w.r.t. to weights
-    delta_a += output_mix * input_data;
-    delta_b += output_mix;
+    delta_a += output_delta * output_mix * input_data;
+    delta_b += output_delta * output_mix;
 
     // handle the KL divergence regularization;
     // We need to add the derivative of eq. (4) w.r.t. x here to input_delta
-- 
2.43.0


From 5977a449bf09abf1fe00c5cd511276cbc7b05e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 20/45] fix: QuickProp takes its first step for every weight,
 not only for the first one

---
 src/net/Trainer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/net/Trainer.cpp b/src/net/Trainer.cpp
index a307c79..43134e2 100644
--- a/src/net/Trainer.cpp
+++ b/src/net/Trainer.cpp
@@ -498,7 +498,6 @@ void Trainer::ApplyGradients (datum lr) {
 
             if(first_iteration) {
               current_step = - epsilon_zero * current_slope;
-              first_iteration=false;
             } else {
               // A0
               if(std::abs(current_slope) <= epsilon_flat) {
@@ -541,6 +540,9 @@ void Trainer::ApplyGradients (datum lr) {
     }
   }
   
+  // All weights have taken their first step
+  first_iteration = false;
+
   // Update quickprop stats
   if(settings_.optimization_method == QUICKPROP) {
     System::stat_aggregator->Update(stat_qp_caseA_->stat_id, (double)qp_caseA);
-- 
2.43.0


From fc969af644c863a10b9c2be1328d1f07e9d33ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 21/45] fix: CSVStatSink does not write the header when the
 file cannot be opened

---
 src/util/CSVStatSink.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/CSVStatSink.cpp b/src/util/CSVStatSink.cpp
index 4f7ac90..a76d49b 100644
--- a/src/util/CSVStatSink.cpp
+++ b/src/util/CSVStatSink.cpp
@@ -73,6 +73,7 @@ void CSVStatSink::SetCurrentExperiment(std::string current_experiment) {
     LOGERROR << "Cannot open " << csv_filename << " for writing!";
     delete csv_stream_;
     csv_stream_ = nullptr;
+    return;
   }
   // Write header for hardcoded stats
   (*csv_stream_) << "IsTraining,Epoch,Iterations,SecondsElapsed,";
-- 
2.43.0


From 798b4871cb693071dc5f3199d0072dd00f941251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 22/45] fix: StatAggregator ignores Generate before
 initialization

---
 src/util/StatAggregator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/StatAggregator.cpp b/src/util/StatAggregator.cpp
index e2aed6e..fb0340e 100644
--- a/src/util/StatAggregator.cpp
+++ b/src/util/StatAggregator.cpp
@@ -51,6 +51,10 @@ void StatAggregator::Initialize()
 
 void StatAggregator::Generate()
 {
+  // There is nothing to report before initialization
+  if(state_ == INIT)
+    return;
+
   std::vector<Stat*> output_stats;
   
   for(unsigned int s = 0; s < stat_descriptor_count_; s++) {
-- 
2.43.0


From f6b737e0fee62307c43b6308475d081f7589625f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 23/45] fix: statistics registered after initialization get a
 value of their own

---
 src/util/StatAggregator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/util/StatAggregator.cpp b/src/util/StatAggregator.cpp
index fb0340e..a725d75 100644
--- a/src/util/StatAggregator.cpp
+++ b/src/util/StatAggregator.cpp
@@ -22,6 +22,13 @@ unsigned int StatAggregator::RegisterStat(StatDescriptor* stat_descriptor)
 {
   stat_descriptors_.push_back(stat_descriptor);
   stat_descriptor->stat_id = stat_descriptor_count_;
+
+  // Initialize did not provide for this statistic
+  if(state_ != INIT) {
+    stats_.push_back(Stat());
+    stat_descriptor->init_function(stats_.back());
+  }
+
   return stat_descriptor_count_++;
 }
 
-- 
2.43.0


From 19d234223a3f8be6b747dda310591effa08cfd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 24/45] fix: ConfusionMatrixLayer can be reset before it is
 connected

---
 src/net/ConfusionMatrixLayer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/ConfusionMatrixLayer.cpp b/src/net/ConfusionMatrixLayer.cpp
index 623e8e0..6fec69e 100644
--- a/src/net/ConfusionMatrixLayer.cpp
+++ b/src/net/ConfusionMatrixLayer.cpp
@@ -209,6 +209,10 @@ void ConfusionMatrixLayer::BackPropagate() {
 
 
 void ConfusionMatrixLayer::Reset() {
+  // Statistics can be reset before the layer is connected
+  if ( matrix_ == nullptr )
+    return;
+
   for ( unsigned int c = 0; c < ( classes_ * classes_ ); c++ ) {
     matrix_[c] = 0;
   }
-- 
2.43.0


From 23744d5563c433187a4ea848aa09884400ac62c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 25/45] fix: BinaryStatLayer's F1 value is defined when nothing
 is recognized

---
 src/net/BinaryStatLayer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index 19a1877..6f17e65 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -117,7 +117,8 @@ void BinaryStatLayer::UpdateAll() {
                ( true_positives_[t] + false_negatives_[t] );
 
     if ( precision >= 0 && recall >= 0 ) {
-      f1 = 2 * precision * recall / ( precision + recall );
+      f1 = ( precision + recall ) > 0 ?
+           2 * precision * recall / ( precision + recall ) : 0;
     }
 
     if ( f1 > fmax ) {
@@ -150,7 +151,8 @@ void BinaryStatLayer::UpdateAll() {
           ( true_positives_[tfmax] + false_negatives_[tfmax] );
 
   if ( precision >= 0 && recall >= 0 )
-    f1 = 2 * precision * recall / ( precision + recall );
+    f1 = ( precision + recall ) > 0 ?
+         2 * precision * recall / ( precision + recall ) : 0;
   
   acc = ( true_positives_[tfmax] + true_negatives_[tfmax] ) /
           ( true_positives_[tfmax] + true_negatives_[tfmax] +
-- 
2.43.0


From a946099f407fa54c332af118ddb5f220cdc4adee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 26/45] fix: ConvolutionLayer's descriptor constructor
 validates its parameters

---
 src/net/ConvolutionLayer.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/net/ConvolutionLayer.cpp b/src/net/ConvolutionLayer.cpp
index 0b6e45c..e01e893 100644
--- a/src/net/ConvolutionLayer.cpp
+++ b/src/net/ConvolutionLayer.cpp
@@ -92,7 +92,18 @@ ConvolutionLayer::ConvolutionLayer(std::string configuration) :
   ParseDatumParamIfPossible (configuration, "llr", local_lr);
   ParseCountIfPossible(configuration, "seed", seed);
   
-  // TODO Validation like in large constructor
+  // Validation like in large constructor
+  if (kernel_width_ == 0 || kernel_height_ == 0) {
+    FATAL ("Kernels cannot have zero dimensions");
+  }
+    
+  if(stride_width_ == 0 || stride_height_ == 0) {
+    FATAL("Stride needs to be at least 1!");
+  }
+  
+  if(group_ == 0 || (output_maps_ % group_) != 0) {
+    FATAL("Output maps need to divide group count");
+  }
   
   SetLocalLearningRate(local_lr);
 }
-- 
2.43.0


From 23981fd8a7bf75c088408ac72f040864c13c7009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 27/45] fix: InjectSeed replaces the seed parameter only, and
 as a whole

---
 src/net/LayerFactory.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/net/LayerFactory.cpp b/src/net/LayerFactory.cpp
index fc7195b..2c955d6 100644
--- a/src/net/LayerFactory.cpp
+++ b/src/net/LayerFactory.cpp
@@ -101,13 +101,15 @@ Layer* LayerFactory::ConstructLayer(std::string descriptor) {
   
 std::string LayerFactory::InjectSeed(std::string descriptor, unsigned int seed) {
   if(IsValidDescriptor(descriptor)) {
-    const std::string has_seed_regex = ".*seed=[0-9]+.*";
-    const std::string new_seed_regex = "seed=([0-9])+";
+    const std::string has_seed_regex = "(.* )?seed=[a-zA-Z0-9\\.]+( .*)?";
+    const std::string new_seed_regex = "(\\(| )seed=[a-zA-Z0-9\\.]+";
     std::string configuration = ExtractConfiguration(descriptor);
     std::string layertype = ExtractLayerType(descriptor);
     
     std::stringstream seed_ss;
     seed_ss << "seed=" << seed;
+    // Keep the parenthesis or blank in front of the old seed
+    const std::string replacement_seed = "$1" + seed_ss.str();
     
 #ifdef BUILD_BOOST
     bool already_has_seed = boost::regex_match(configuration, boost::regex(has_seed_regex, boost::regex::extended));
@@ -116,9 +118,9 @@ std::string LayerFactory::InjectSeed(std::string descriptor, unsigned int seed)
 #endif
     if(already_has_seed) {
 #ifdef BUILD_BOOST
-      std::string new_descriptor = boost::regex_replace(descriptor, boost::regex(new_seed_regex, boost::regex::extended), seed_ss.str());
+      std::string new_descriptor = boost::regex_replace(descriptor, boost::regex(new_seed_regex, boost::regex::extended), replacement_seed);
 #else
-      std::string new_descriptor = std::regex_replace(descriptor, std::regex(new_seed_regex, std::regex::extended), seed_ss.str());
+      std::string new_descriptor = std::regex_replace(descriptor, std::regex(new_seed_regex, std::regex::extended), replacement_seed);
 #endif
       return new_descriptor;
     } else {
-- 
2.43.0


From ec41228cdcac4c4118344ee1222a6c0af51f0834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 28/45] fix: layers without a size count as 1x1 in the
 receptive field

---
 src/factory/ConfigurableFactory.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index 089101d..adeb0a5 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -82,7 +82,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       line = line.substr (1);
 
       if (StartsWithIdentifier (line, "convolutional")) {
-        unsigned int kx, ky, stridex = 1, stridey = 1, padx = 0, pady = 0;
+        unsigned int kx = 1, ky = 1, stridex = 1, stridey = 1, padx = 0, pady = 0;
         
         ParseKernelSizeIfPossible (line, "stride", stridex, stridey);
         ParseKernelSizeIfPossible (line, "pad", padx, pady);
@@ -100,7 +100,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
       
       if (StartsWithIdentifier (line, "maxpooling")) {
-        unsigned int kx, ky;
+        unsigned int kx = 1, ky = 1;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         LOGDEBUG << "Adding maxpooling layer to receptive field (" << kx << "," << ky << ")";
         factorx *= kx;
@@ -108,7 +108,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
 
       if (StartsWithIdentifier (line, "downsampling")) {
-        unsigned int kx, ky;
+        unsigned int kx = 1, ky = 1;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         LOGDEBUG << "Adding down-sampling layer to receptive field (" << kx << "," << ky << ")";
         factorx *= kx;
@@ -116,7 +116,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
       
       if (StartsWithIdentifier (line, "amaxpooling")) {
-        unsigned int kx, ky, sx, sy;
+        unsigned int kx = 1, ky = 1, sx, sy;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         sx = kx; sy = ky;
         ParseKernelSizeIfPossible (line, "stride", sx, sy);
-- 
2.43.0


From 2bbee359e8ee742b37ae5a04e6a7c2cc729237e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 29/45] fix: fully convolutional networks are padded when the
 receptive field extends in one direction only

---
 src/factory/ConfigurableFactory.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index adeb0a5..f947bdd 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -4,6 +4,7 @@
  *
  * For licensing information, see the LICENSE file included with this project.
  */
+#include <algorithm>
 #include <cstdio>
 
 #include "ErrorLayer.h"
@@ -164,8 +165,9 @@ bool ConfigurableFactory::AddLayers(NetGraph& net, NetGraphConnection data_layer
 
 	bool already_upscaled = (factorx == 1) && (factory == 1);
 
-  if (method_ == FCN && (receptive_field_x_ > 0) && (receptive_field_y_ > 0)) {
-		ResizeLayer* rl = new ResizeLayer(receptive_field_x_, receptive_field_y_);
+  if (method_ == FCN && ((receptive_field_x_ > 0) || (receptive_field_y_ > 0))) {
+		// The receptive field may extend in one direction only
+		ResizeLayer* rl = new ResizeLayer(std::max(receptive_field_x_, 0), std::max(receptive_field_y_, 0));
 		NetGraphNode* node = new NetGraphNode(rl, last_connection);
 		net.AddNode(node);
 
-- 
2.43.0


From 3b36baf2df8015ff670d50630e808a6b8e2c3662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 30/45] fix: localized_error=default selects the default error
 function

---
 src/util/TensorStreamDataset.cpp      | 4 ++--
 src/util/TensorStreamPatchDataset.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index f969732..0c4a570 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -354,8 +354,8 @@ TensorStreamDataset* TensorStreamDataset::CreateFromConfiguration (std::istream&
       if (error_function_name.compare ("kitti") == 0) {
         LOGDEBUG << "Loading dataset with KITTI error function";
         error_function = KITTIData::LocalizedError;
-      } else if (error_function_name.compare ("default")) {
-        LOGDEBUG << "Loading dataset with KITTI error function";
+      } else if (error_function_name.compare ("default") == 0) {
+        LOGDEBUG << "Loading dataset with default error function";
         error_function = DefaultLocalizedErrorFunction;
       }
     }
diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 19e7acf..a6dc469 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -404,8 +404,8 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
       if (error_function_name.compare ("kitti") == 0) {
         LOGDEBUG << "Loading dataset with KITTI error function";
         error_function = KITTIData::LocalizedError;
-      } else if (error_function_name.compare ("default")) {
-        LOGDEBUG << "Loading dataset with KITTI error function";
+      } else if (error_function_name.compare ("default") == 0) {
+        LOGDEBUG << "Loading dataset with default error function";
         error_function = DefaultLocalizedErrorFunction;
       }
     }
-- 
2.43.0


From 52568b2a17df138427f1c9e49c4ec19932d044cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 31/45] fix: class colors and weights may precede the class
 count in dataset configurations

---
 src/util/TensorStreamDataset.cpp      | 11 +++++++++++
 src/util/TensorStreamPatchDataset.cpp | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index 0c4a570..9389a17 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -300,6 +300,17 @@ TensorStreamDataset* TensorStreamDataset::CreateFromConfiguration (std::istream&
   file.clear();
   file.seekg (0, std::ios::beg);
 
+  // The lists need the class count, which may be given after them
+  while (classes == 0 && ! file.eof()) {
+    std::string line;
+    std::getline (file, line);
+    if (StartsWithIdentifier (line, "classes"))
+      ParseCountIfPossible (line, "classes", classes);
+  }
+
+  file.clear();
+  file.seekg (0, std::ios::beg);
+
   while (! file.eof()) {
     std::string line;
     std::getline (file, line);
diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index a6dc469..93dd0f2 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -345,6 +345,17 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
   file.clear();
   file.seekg (0, std::ios::beg);
 
+  // The lists need the class count, which may be given after them
+  while (classes == 0 && ! file.eof()) {
+    std::string line;
+    std::getline (file, line);
+    if (StartsWithIdentifier (line, "classes"))
+      ParseCountIfPossible (line, "classes", classes);
+  }
+
+  file.clear();
+  file.seekg (0, std::ios::beg);
+
   while (! file.eof()) {
     std::string line;
     std::getline (file, line);
-- 
2.43.0


From 7fe114e0f68c8b50d4344341533e8d0b3fca9d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 32/45] fix: reinitializing a ConvolutionLayer resets its bias

---
 src/net/ConvolutionLayer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/net/ConvolutionLayer.cpp b/src/net/ConvolutionLayer.cpp
index e01e893..18b1da9 100644
--- a/src/net/ConvolutionLayer.cpp
+++ b/src/net/ConvolutionLayer.cpp
@@ -354,6 +354,11 @@ void ConvolutionLayer::OnLayerConnect (const std::vector<Layer*> next_layers) {
     weights_->data[i] = dist_weights (rand_);
   }
 
+#ifdef BUILD_OPENCL
+  bias_->data.MoveToCPU();
+#endif
+  bias_->data.Clear();
+
   LOGDEBUG << "Updating weights: " << this_layer_gain << " -> "
            << next_layer_gain;
 }
-- 
2.43.0


From 85c2ad10b176ea5909f75544962e3970092d25e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 33/45] fix: reinitializing a HMaxActivationFunction resets its
 parameters

---
 include/cn24/net/HMaxActivationFunction.h | 1 +
 src/net/HMaxActivationFunction.cpp        | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/include/cn24/net/HMaxActivationFunction.h b/include/cn24/net/HMaxActivationFunction.h
index 6e0973f..c1d8974 100644
--- a/include/cn24/net/HMaxActivationFunction.h
+++ b/include/cn24/net/HMaxActivationFunction.h
@@ -46,6 +46,7 @@ public:
   }
   
   // Implementations for Layer
+  void OnLayerConnect (const std::vector<Layer*> next_layers);
   bool IsNotGradientSafe() {
     return loss_weight_ > 0.0;
   }
diff --git a/src/net/HMaxActivationFunction.cpp b/src/net/HMaxActivationFunction.cpp
index 613dca1..94ef569 100644
--- a/src/net/HMaxActivationFunction.cpp
+++ b/src/net/HMaxActivationFunction.cpp
@@ -195,6 +195,14 @@ void HMaxActivationFunction::BackPropagate() {
   // LOGDEBUG << "delta a: " << delta_a << ", delta b:" << delta_b;
 }
   
+void HMaxActivationFunction::OnLayerConnect (const std::vector<Layer*> next_layers) {
+  Layer::OnLayerConnect(next_layers);
+#ifdef BUILD_OPENCL
+  weights_->data.MoveToCPU();
+#endif
+  weights_->data.Clear(1.0);
+}
+
 datum HMaxActivationFunction::CalculateLossFunction() {
   //datum total_loss = logf(mu_) + (sum_of_activations_/(total_activations_ * mu_)); // - H(y)
   //return total_loss * loss_weight_;
-- 
2.43.0


From 5c7100f065e490194adf943d212961d1213e3aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 34/45] fix: trainNetwork ends at the end of its input instead
 of repeating an empty command forever

---
 tools/trainNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index 0f55e60..caefa77 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -259,7 +259,7 @@ int main (int argc, char* argv[]) {
         std::string command;
         std::getline (std::cin, command);
 
-        if (!parseCommand (graph, *testing_graph, trainer, *testing_trainer, patchwise_training, command))
+        if (!parseCommand (graph, *testing_graph, trainer, *testing_trainer, patchwise_training, command) || std::cin.eof())
           break;
       }
     }
-- 
2.43.0


From 44f0496a48071c32b777cfe953846786e4ed8e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 35/45] fix: direct RGB conversion of grayscale label images
 doesn't read past them

---
 tools/makeCompressedTensorStream.cpp | 5 +++--
 tools/makeTensorStream.cpp           | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/tools/makeCompressedTensorStream.cpp b/tools/makeCompressedTensorStream.cpp
index 1f9d597..81adaa8 100644
--- a/tools/makeCompressedTensorStream.cpp
+++ b/tools/makeCompressedTensorStream.cpp
@@ -120,8 +120,9 @@ int main ( int argc, char** argv ) {
        for ( unsigned int y = 0; y < label_rgb_tensor.height(); y++ ) {
         for ( unsigned int x = 0; x < label_rgb_tensor.width(); x++ ) {     
           *label_tensor.data_ptr ( x,y,0,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,0,0 );
-          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,1,0 );
-          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,2,0 );
+          // grayscale images have the same value in every channel
+          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,label_rgb_tensor.maps() == 1 ? 0 : 1,0 );
+          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,label_rgb_tensor.maps() == 1 ? 0 : 2,0 );
         }
       }
     } else if(number_of_classes == 1) {
diff --git a/tools/makeTensorStream.cpp b/tools/makeTensorStream.cpp
index 2449178..28f0d48 100644
--- a/tools/makeTensorStream.cpp
+++ b/tools/makeTensorStream.cpp
@@ -116,8 +116,9 @@ int main ( int argc, char** argv ) {
        for ( unsigned int y = 0; y < label_rgb_tensor.height(); y++ ) {
         for ( unsigned int x = 0; x < label_rgb_tensor.width(); x++ ) {     
           *label_tensor.data_ptr ( x,y,0,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,0,0 );
-          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,1,0 );
-          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,2,0 );
+          // grayscale images have the same value in every channel
+          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,label_rgb_tensor.maps() == 1 ? 0 : 1,0 );
+          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,label_rgb_tensor.maps() == 1 ? 0 : 2,0 );
         }
       }
     } else if(number_of_classes == 1) {
-- 
2.43.0


From 68965b0d00848d7a54b5a068b5e2960b52e3301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 36/45] fix: tensorStreamTool refuses a file it cannot open
 instead of reading forever

---
 tools/tensorStreamTool.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/tensorStreamTool.cpp b/tools/tensorStreamTool.cpp
index 1e1a685..5ad37c3 100644
--- a/tools/tensorStreamTool.cpp
+++ b/tools/tensorStreamTool.cpp
@@ -25,6 +25,10 @@ int main(int argc, char* argv[]) {
   // Open tensor stream
   std::ifstream file_in(std::string(argv[1]), std::ios::in | std::ios::binary);
 
+  if (!file_in.good()) {
+    FATAL("Cannot open " << argv[1]);
+  }
+
   // Seek until eof to count tensors
   Conv::Tensor tensor;
   unsigned int tensors_in_file = 0;
-- 
2.43.0


From a0638fc20c249ebe3705a387eb372ab5c29d5759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 37/45] fix: tensorTool ends at the end of its input instead of
 repeating an empty command forever

---
 tools/tensorTool.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/tensorTool.cpp b/tools/tensorTool.cpp
index 742bade..714339b 100644
--- a/tools/tensorTool.cpp
+++ b/tools/tensorTool.cpp
@@ -72,6 +72,10 @@ bool parseCommand ( Conv::Tensor& tensor, std::string filename ) {
   std::string entry;
   std::cin >> entry;
 
+  // There are no more commands after the end of the input
+  if ( !std::cin.good() && entry.empty() )
+    return false;
+
   if ( entry.compare ( "q" ) == 0 || entry.compare ( "quit" ) == 0 )
     return false;
 
-- 
2.43.0


From 1cafc2e5d4794bf3430ad47bbd188aee3a9e8088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:01 +0000
Subject: [PATCH 38/45] fix: ExtractPatches doesn't read outside of images
 smaller than half a patch

---
 src/util/Segmentation.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/util/Segmentation.cpp b/src/util/Segmentation.cpp
index 866de3a..f03b455 100644
--- a/src/util/Segmentation.cpp
+++ b/src/util/Segmentation.cpp
@@ -38,17 +38,23 @@ void Segmentation::ExtractPatches (const int patchsize_x,
       unsigned int element =  image_width * py + px;
       for (int ipy = 0; ipy < patchsize_y; ipy++) {
         int image_y = py + ipy - offsety;
-        if (image_y < 0)
-          image_y = -image_y;
-        if (image_y >= image_height)
-          image_y = -1 + image_height + image_height - image_y;
+        // Patches may exceed the image by more than its own size
+        while (image_y < 0 || image_y >= image_height) {
+          if (image_y < 0)
+            image_y = -image_y;
+          if (image_y >= image_height)
+            image_y = -1 + image_height + image_height - image_y;
+        }
 
         for (int ipx = 0; ipx < patchsize_x; ipx++) {
           int image_x = px + ipx - offsetx;
-          if (image_x < 0)
-            image_x = -image_x;
-          if (image_x >= image_width)
-            image_x = -1 + image_width + image_width - image_x;
+          // Patches may exceed the image by more than its own size
+          while (image_x < 0 || image_x >= image_width) {
+            if (image_x < 0)
+              image_x = -image_x;
+            if (image_x >= image_width)
+              image_x = -1 + image_width + image_width - image_x;
+          }
 
           // Copy pixel
           for (unsigned int map = 0; map < image_maps; map++) {
-- 
2.43.0


From 8c02b273e8c9451e945dfa636abae95e300cfd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:02 +0000
Subject: [PATCH 39/45] fix: classifyImage clears the position information
 within the padded image only

---
 tools/classifyImage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/classifyImage.cpp b/tools/classifyImage.cpp
index cc05e4a..c7be727 100644
--- a/tools/classifyImage.cpp
+++ b/tools/classifyImage.cpp
@@ -101,7 +101,7 @@ int main (int argc, char* argv[]) {
     }
   }
   for (unsigned int y = original_height; y < height; y++) {
-    for (unsigned int x = 0; x < height; x++) {
+    for (unsigned int x = 0; x < width; x++) {
       *helper_tensor.data_ptr(x, y, 0, 0) = 0;
       *helper_tensor.data_ptr(x, y, 1, 0) = 0;
     }
-- 
2.43.0


From bd3fe46b5b1f67039c4b90e25cc5f14410d279a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 40/45] fix: classifyImage's position information of images
 that are one pixel wide or high is 0, not NaN

---
 tools/classifyImage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/classifyImage.cpp b/tools/classifyImage.cpp
index c7be727..56a8503 100644
--- a/tools/classifyImage.cpp
+++ b/tools/classifyImage.cpp
@@ -92,8 +92,8 @@ int main (int argc, char* argv[]) {
   // Write spatial prior data to helper tensor
   for (unsigned int y = 0; y < original_height; y++) {
     for (unsigned int x = 0; x < original_width; x++) {
-      *helper_tensor.data_ptr(x, y, 0, 0) = ((Conv::datum)x) / ((Conv::datum)original_width - 1);
-      *helper_tensor.data_ptr(x, y, 1, 0) = ((Conv::datum)y) / ((Conv::datum)original_height - 1);
+      *helper_tensor.data_ptr(x, y, 0, 0) = (original_width > 1) ? ((Conv::datum)x) / ((Conv::datum)original_width - 1) : 0;
+      *helper_tensor.data_ptr(x, y, 1, 0) = (original_height > 1) ? ((Conv::datum)y) / ((Conv::datum)original_height - 1) : 0;
     }
     for (unsigned int x = original_width; x < width; x++) {
       *helper_tensor.data_ptr(x, y, 0, 0) = 0;
-- 
2.43.0


From e76f1001a724995be288f35617f0637cfbfffb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:16 +0000
Subject: [PATCH 41/45] fix: resizing a tensor that shared the memory of an
 empty one leaked its own memory

---
 src/util/Tensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 2044ef6..829de06 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -144,7 +144,7 @@ void Tensor::Resize ( const std::size_t samples, const std::size_t width,
     return;
 
   // Delete the old allocation if it is different from the new one
-  if(preallocated_memory != data_ptr_ && !dont_delete)
+  if((preallocated_memory == nullptr || preallocated_memory != data_ptr_) && !dont_delete)
     DeleteIfPossible();
 
   // Calculate memory requirement
-- 
2.43.0


From 92ac89af072dc70451350604981cf8675d095378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 42/45] fix: pooling starts with the first element of the
 window, so that windows of lowest or infinite values are maximized, too

---
 src/net/AdvancedMaxPoolingLayer.cpp | 6 +++---
 src/net/MaxPoolingLayer.cpp         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/net/AdvancedMaxPoolingLayer.cpp b/src/net/AdvancedMaxPoolingLayer.cpp
index 3827d34..e778050 100644
--- a/src/net/AdvancedMaxPoolingLayer.cpp
+++ b/src/net/AdvancedMaxPoolingLayer.cpp
@@ -148,9 +148,9 @@ void AdvancedMaxPoolingLayer::FeedForward() {
       for (unsigned int ox = 0; ox < output_width_; ox++) {
         for (unsigned int oy = 0; oy < output_height_; oy++) {
           // Find maximum in region
-          datum maximum = std::numeric_limits<datum>::lowest();
-          unsigned int mix = 0;
-          unsigned int miy = 0;
+          unsigned int mix = ox * stride_width_;
+          unsigned int miy = oy * stride_height_;
+          datum maximum = *input_->data.data_ptr_const (mix, miy, map, sample);
           for (unsigned int iy = oy * stride_height_;
                 iy < (oy * stride_height_) + region_height_; iy++) {
             for (unsigned int ix = ox * stride_width_;
diff --git a/src/net/MaxPoolingLayer.cpp b/src/net/MaxPoolingLayer.cpp
index 997e6e4..5ca38a1 100644
--- a/src/net/MaxPoolingLayer.cpp
+++ b/src/net/MaxPoolingLayer.cpp
@@ -144,9 +144,9 @@ void MaxPoolingLayer::FeedForward() {
       for (unsigned int ox = 0; ox < output_width_; ox++) {
         for (unsigned int oy = 0; oy < output_height_; oy++) {
           // Find maximum in region
-          datum maximum = std::numeric_limits<datum>::lowest();
-          unsigned int mix = 0;
-          unsigned int miy = 0;
+          unsigned int mix = ox * region_width_;
+          unsigned int miy = oy * region_height_;
+          datum maximum = *input_->data.data_ptr_const (mix, miy, map, sample);
           for (unsigned int ix = ox * region_width_;
                ix < (ox + 1) * region_width_; ix++) {
             for (unsigned int iy = oy * region_height_;
-- 
2.43.0


From d6596d268772f80886d68097abbc4c37d1d807be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:40 +0000
Subject: [PATCH 43/45] fix: pooling finds its maximum again in images of more
 than 2^24 pixels

---
 src/net/AdvancedMaxPoolingLayer.cpp |  8 +++++---
 src/net/MaxPoolingLayer.cpp         | 13 ++++++++-----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/net/AdvancedMaxPoolingLayer.cpp b/src/net/AdvancedMaxPoolingLayer.cpp
index e778050..6376d66 100644
--- a/src/net/AdvancedMaxPoolingLayer.cpp
+++ b/src/net/AdvancedMaxPoolingLayer.cpp
@@ -165,8 +165,10 @@ void AdvancedMaxPoolingLayer::FeedForward() {
             }
           }
           
-          // Found maximum, save
-          *maximum_mask_.data_ptr(ox, oy, map, sample) = input_width_ * miy + mix;
+          // Found maximum, save its offset in the region (a datum cannot hold
+          // the index in very large images)
+          *maximum_mask_.data_ptr(ox, oy, map, sample) =
+            region_width_ * (miy - oy * stride_height_) + (mix - ox * stride_width_);
           
           // Feed forward
           *output_->data.data_ptr(ox, oy, map, sample) = maximum;
@@ -224,7 +226,6 @@ void AdvancedMaxPoolingLayer::BackPropagate() {
     for (unsigned int map = 0; map < maps_; map++) {
       for (unsigned int ix = 0; ix < input_width_; ix++) {
         for(unsigned int iy = 0; iy < input_height_; iy++) {
-          const unsigned int mask_index = ix + input_width_ * iy;
           const unsigned int oxstart = (ix < region_width_) ? 
             0 : (ix - region_width_) / stride_width_+ 1;
           const unsigned int oxend = MP_HELPER_MIN(ix / stride_width_ + 1, output_width_);
@@ -236,6 +237,7 @@ void AdvancedMaxPoolingLayer::BackPropagate() {
           datum sum = 0.0;
           for (unsigned int oy = oystart; oy < oyend; oy++) {
             for (unsigned int ox = oxstart; ox < oxend; ox++) {
+              const unsigned int mask_index = region_width_ * (iy - oy * stride_height_) + (ix - ox * stride_width_);
               if(*maximum_mask_.data_ptr_const(ox, oy, map, sample) == mask_index)
                 sum += *output_->delta.data_ptr_const(ox, oy, map, sample);
             }
diff --git a/src/net/MaxPoolingLayer.cpp b/src/net/MaxPoolingLayer.cpp
index 5ca38a1..89e677f 100644
--- a/src/net/MaxPoolingLayer.cpp
+++ b/src/net/MaxPoolingLayer.cpp
@@ -163,9 +163,10 @@ void MaxPoolingLayer::FeedForward() {
             }
           }
           
-          // Found maximum, save
-          *maximum_ix_.data_ptr(ox, oy, map, sample) = mix;
-          *maximum_iy_.data_ptr(ox, oy, map, sample) = miy;
+          // Found maximum, save its offset in the region (a datum cannot hold
+          // the coordinates in very large images)
+          *maximum_ix_.data_ptr(ox, oy, map, sample) = mix - ox * region_width_;
+          *maximum_iy_.data_ptr(ox, oy, map, sample) = miy - oy * region_height_;
           
           // Feed forward
           *output_->data.data_ptr(ox, oy, map, sample) = maximum;
@@ -220,8 +221,10 @@ void MaxPoolingLayer::BackPropagate() {
     for (unsigned int map = 0; map < maps_; map++) {
       for (unsigned int ox = 0; ox < output_width_; ox++) {
         for (unsigned int oy = 0; oy < output_height_; oy++) {
-          unsigned int ix = *maximum_ix_.data_ptr_const(ox, oy, map, sample);
-          unsigned int iy = *maximum_iy_.data_ptr_const(ox, oy, map, sample);
+          unsigned int ix = ox * region_width_ +
+            (unsigned int) *maximum_ix_.data_ptr_const(ox, oy, map, sample);
+          unsigned int iy = oy * region_height_ +
+            (unsigned int) *maximum_iy_.data_ptr_const(ox, oy, map, sample);
           *(input_->delta.data_ptr(ix, iy, map, sample)) = 
              *output_->delta.data_ptr_const(ox, oy, map, sample);
         }
-- 
2.43.0


From ac8879fb85cc1544495961b42627ab2d5eebfa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:11 +0000
Subject: [PATCH 44/45] fix: reference GEMV with a transposed matrix exchanged
 the lengths of its operands

---
 src/math/TensorMath.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index 767a1af..f9e8803 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -130,15 +130,18 @@ void TensorMath::GEMV(const bool is_row_major, const bool transpose_A, const int
   if(!is_row_major)
     FATAL("Reference GEMV does not support column-major matrices!");
   
-  // ...
+  // M and N are the dimensions of A before it is transposed (as in BLAS)
+  const int result_elements = transpose_A ? N : M;
+  const int sum_elements = transpose_A ? M : N;
+  
   const datum* a_ptr = A.data_ptr_const(0, 0, 0, smA);
   const datum* x_ptr = X.data_ptr_const(0, 0, 0, smX);
   datum* y_ptr = Y.data_ptr(0, 0, 0, smY);
   
   #pragma omp parallel for default(shared)
-  for(int i = 0; i < M; i++) {
+  for(int i = 0; i < result_elements; i++) {
     datum sum = 0.0;
-    for(int j = 0; j < N; j++) {
+    for(int j = 0; j < sum_elements; j++) {
       const datum a_value = transpose_A ?
         a_ptr[j * ldA + i]
       :
-- 
2.43.0


From aac48441536b2485ce73f41af2ee9df71e4a6faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:54 +0000
Subject: [PATCH 45/45] fix: tensorStreamStats counted the class weights once
 when ignoring weights and twice when not

---
 tools/tensorStreamStats.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/tensorStreamStats.cpp b/tools/tensorStreamStats.cpp
index b19f515..1eddb5f 100644
--- a/tools/tensorStreamStats.cpp
+++ b/tools/tensorStreamStats.cpp
@@ -54,8 +54,10 @@ int main(int argc, char* argv[]) {
         unsigned int pixel_class = label_tensor.PixelMaximum(x,y,0);
         Conv::datum weight = *weight_tensor.data_ptr_const(x,y);
         
-        pixel_counts[pixel_class] += (long double)weight;
-        pixel_counts_weighted[pixel_class] += (long double)(weight * class_weights[pixel_class]);
+        // The dataset's weights already include the class weight
+        if(class_weights[pixel_class] > 0)
+          pixel_counts[pixel_class] += (long double)(weight / class_weights[pixel_class]);
+        pixel_counts_weighted[pixel_class] += (long double)weight;
       }
     }
   }
-- 
2.43.0

