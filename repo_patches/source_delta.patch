From 8b9d594baf85c1fa5b4cb663d67036bd14cef0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 01/34] fix: GaussianDistribution JSON reading with diagonal
 covariance

Diagonal distributions could not be reloaded (the vectors were read with
dimension*dimension elements) and the output covariance was dropped.
---
 src/core/distributions/xmmGaussianDistribution.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index ae2b290..38743c4 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -93,19 +93,24 @@ xmm::GaussianDistribution::GaussianDistribution(Json::Value const& root)
 
     allocate();
 
+    // Vector sizes depend on the covariance mode (see allocate())
     json2vector(root["mean"], mean, dimension.get());
-    json2vector(root["covariance"], covariance,
-                dimension.get() * dimension.get());
+    json2vector(root["covariance"], covariance, covariance.size());
 
     // updateInverseCovariance();
     // read from json instead of calling updateInverseCovariance() :
     json2vector(root["inverse_covariance"], inverse_covariance_,
-                dimension.get() * dimension.get());
+                inverse_covariance_.size());
     covariance_determinant_ = root.get("covariance_determinant", 0.).asDouble();
     json2vector(root["inverse_covariance_input"], inverse_covariance_input_,
-                dimension_input.get() * dimension_input.get());
+                inverse_covariance_input_.size());
     covariance_determinant_input_ =
         root.get("covariance_determinant_input", 0.).asDouble();
+    if (root.isMember("output_covariance")) {
+        output_covariance.resize(root["output_covariance"].size());
+        json2vector(root["output_covariance"], output_covariance,
+                    output_covariance.size());
+    }
 
     dimension.onAttributeChange(this,
                                 &xmm::GaussianDistribution::onAttributeChange);
-- 
2.43.0


From fe3cdef20df9c581e3317a245bbc207f21601136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 02/34] fix: sign of the determinant after a row exchange in
 Gauss-Jordan inversion

---
 src/core/common/xmmMatrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index b9611eb..86d5966 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -300,6 +300,7 @@ class Matrix {
             // if found > Exchange lines
             if (i != k) {
                 mat.swap_lines(i, k);
+                *det = -*det;
             }
 
             new_mat._data = mat._data;
-- 
2.43.0


From 2bcc4d1d343f3dee76da95e63a80a424333cf0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 03/34] fix: copy the hierarchical attribute in HMM parameters
 assignment

---
 src/models/hmm/xmmHmmParameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index 2e4711a..e5bb122 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -114,6 +114,7 @@ xmm::ClassParameters<xmm::HMM>& xmm::ClassParameters<xmm::HMM>::operator=(
         covariance_mode = src.covariance_mode;
         transition_mode = src.transition_mode;
         regression_estimator = src.regression_estimator;
+        hierarchical = src.hierarchical;
         states.onAttributeChange(
             this, &xmm::ClassParameters<xmm::HMM>::onAttributeChange);
         gaussians.onAttributeChange(
-- 
2.43.0


From 4c3ad366f28576b854ce96b071af1a64252f9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 04/34] fix: read double-precision parameters from JSON without
 narrowing to float

---
 src/core/model/xmmModelSharedParameters.cpp | 2 +-
 src/models/gmm/xmmGmmParameters.cpp         | 4 ++--
 src/models/hmm/xmmHmmParameters.cpp         | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 21d74a8..1abcfa9 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -95,7 +95,7 @@ xmm::SharedParameters::SharedParameters(Json::Value const& root)
     em_algorithm_max_iterations.set(
         root.get("em_algorithm_max_iterations", 0).asInt());
     em_algorithm_percent_chg.set(
-        root.get("em_algorithm_percent_chg", 0.01).asFloat());
+        root.get("em_algorithm_percent_chg", 0.01).asDouble());
     likelihood_window.set(root.get("likelihood_window", 1).asInt());
     std::vector<std::string> tmpColNames(dimension.get());
     for (int i = 0; i < tmpColNames.size(); i++)
diff --git a/src/models/gmm/xmmGmmParameters.cpp b/src/models/gmm/xmmGmmParameters.cpp
index 3e4fdb7..adf4c97 100644
--- a/src/models/gmm/xmmGmmParameters.cpp
+++ b/src/models/gmm/xmmGmmParameters.cpp
@@ -80,8 +80,8 @@ xmm::ClassParameters<xmm::GMM>::ClassParameters(Json::Value const& root)
         this, &xmm::ClassParameters<xmm::GMM>::onAttributeChange);
 
     gaussians.set(root["gaussians"].asInt());
-    relative_regularization.set(root["relative_regularization"].asFloat());
-    absolute_regularization.set(root["absolute_regularization"].asFloat());
+    relative_regularization.set(root["relative_regularization"].asDouble());
+    absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
         root["covariance_mode"].asInt()));
 }
diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index e5bb122..cbc058e 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -92,8 +92,8 @@ xmm::ClassParameters<xmm::HMM>::ClassParameters(Json::Value const& root)
     : ClassParameters() {
     states.set(root["states"].asInt());
     gaussians.set(root["gaussians"].asInt());
-    relative_regularization.set(root["relative_regularization"].asFloat());
-    absolute_regularization.set(root["absolute_regularization"].asFloat());
+    relative_regularization.set(root["relative_regularization"].asDouble());
+    absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
         root["covariance_mode"].asInt()));
     transition_mode.set(
-- 
2.43.0


From feaea4c0be317a7dc4c8f4927f8a23ced0641ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 05/34] fix: allocate the data pointers of copied and assigned
 phrases

---
 src/core/trainingset/xmmPhrase.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 10a456e..827e9b2 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -66,8 +66,10 @@ xmm::Phrase::Phrase(Phrase const& src)
       input_length_(src.input_length_),
       output_length_(src.output_length_),
       max_length_(src.max_length_) {
+    data_ = new float*[bimodal_ ? 2 : 1];
+    data_[0] = NULL;
+    if (bimodal_) data_[1] = NULL;
     if (own_memory_) {
-        data_ = new float*[bimodal_ ? 2 : 1];
         if (max_length_ > 0) {
             unsigned int modality_dim =
                 bimodal_ ? dimension_input.get() : dimension.get();
@@ -162,12 +164,8 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
                 } catch (std::exception& e) {
                 }
             }
-            try {
-                delete[] data_;
-            } catch (std::exception& e) {
-            }
-            data_ = NULL;
         }
+        delete[] data_;
         own_memory_ = src.own_memory_;
         bimodal_ = src.bimodal_;
         empty_ = src.empty_;
@@ -180,8 +178,10 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
         column_names = src.column_names;
         label = src.label;
 
+        data_ = new float*[bimodal_ ? 2 : 1];
+        data_[0] = NULL;
+        if (bimodal_) data_[1] = NULL;
         if (own_memory_) {
-            data_ = new float*[bimodal_ ? 2 : 1];
             if (max_length_ > 0) {
                 unsigned int modality_dim =
                     bimodal_ ? dimension_input.get() : dimension.get();
-- 
2.43.0


From f75280d1f66c85fe2af837176c6baef01113fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 06/34] fix: rescale the output modality of bimodal phrases in
 place

---
 src/core/trainingset/xmmPhrase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 827e9b2..c28686e 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -521,8 +521,8 @@ void xmm::Phrase::rescale(std::vector<float> offset, std::vector<float> gain) {
             }
             p = getPointer_output(t);
             for (int d = dimension_input.get(); d < dimension.get(); d++) {
-                p[d] -= offset[d];
-                p[d] *= gain[d];
+                p[d - dimension_input.get()] -= offset[d];
+                p[d - dimension_input.get()] *= gain[d];
             }
         } else {
             p = getPointer(t);
-- 
2.43.0


From fc4dc04385739e7da2ec0923ecbc103c7eb053c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 07/34] fix: release only owned phrase data when the dimension
 changes

---
 src/core/trainingset/xmmPhrase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index c28686e..6914543 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -564,14 +564,14 @@ void xmm::Phrase::onAttributeChange(xmm::AttributeBase* attr_pointer) {
         max_length_ = 0;
         empty_ = true;
         if (own_memory_) {
-            delete data_[0];
+            delete[] data_[0];
         }
         data_[0] = nullptr;
         if (bimodal_) {
             if (own_memory_) {
-                data_[1] = nullptr;
+                delete[] data_[1];
             }
-            delete data_[1];
+            data_[1] = nullptr;
         }
         column_names.resize(dimension.get());
     }
-- 
2.43.0


From 9a8055af7670dcd556650b7f013f59acf2e45433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 08/34] fix: deep copy of phrases in the TrainingSet copy
 constructor

---
 src/core/trainingset/xmmTrainingSet.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 0099ea4..6704511 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -55,8 +55,7 @@ xmm::TrainingSet::TrainingSet(TrainingSet const &src)
       column_names(src.column_names),
       own_memory_(src.own_memory_),
       bimodal_(src.bimodal_),
-      labels_(src.labels_),
-      phrases_(src.phrases_) {
+      labels_(src.labels_) {
     dimension.onAttributeChange(this, &xmm::TrainingSet::onAttributeChange);
     dimension_input.onAttributeChange(this,
                                       &xmm::TrainingSet::onAttributeChange);
-- 
2.43.0


From 28f570273ea5ff0fd709fea0243ada0c6644c1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 09/34] fix: stop listening to phrases that leave a TrainingSet

---
 src/core/trainingset/xmmTrainingSet.cpp | 23 +++++++++++++++++++++--
 src/core/trainingset/xmmTrainingSet.hpp |  6 ++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 6704511..f2d0ff3 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -127,7 +127,7 @@ xmm::TrainingSet &xmm::TrainingSet::operator=(TrainingSet const &src) {
     return *this;
 }
 
-xmm::TrainingSet::~TrainingSet() {}
+xmm::TrainingSet::~TrainingSet() { clear(); }
 
 bool xmm::TrainingSet::ownMemory() const { return own_memory_; }
 
@@ -219,6 +219,7 @@ std::shared_ptr<xmm::Phrase> xmm::TrainingSet::getPhrase(int n) const {
 }
 
 void xmm::TrainingSet::addPhrase(int phraseIndex, std::string label) {
+    removeListenerForPhrase(phraseIndex);
     phrases_[phraseIndex] = std::make_shared<Phrase>(
         own_memory_ ? MemoryMode::OwnMemory : MemoryMode::SharedMemory,
         bimodal_ ? Multimodality::Bimodal : Multimodality::Unimodal);
@@ -232,7 +233,9 @@ void xmm::TrainingSet::addPhrase(int phraseIndex, std::string label) {
 }
 
 void xmm::TrainingSet::addPhrase(int phraseIndex, Phrase const &phrase) {
-    phrases_[phraseIndex] = std::make_shared<Phrase>(phrase);
+    std::shared_ptr<Phrase> newPhrase = std::make_shared<Phrase>(phrase);
+    removeListenerForPhrase(phraseIndex);
+    phrases_[phraseIndex] = newPhrase;
     phrases_[phraseIndex]->events.removeListeners();
     phrases_[phraseIndex]->events.addListener(this,
                                               &xmm::TrainingSet::onPhraseEvent);
@@ -241,6 +244,7 @@ void xmm::TrainingSet::addPhrase(int phraseIndex, Phrase const &phrase) {
 
 void xmm::TrainingSet::addPhrase(int phraseIndex,
                                  std::shared_ptr<Phrase> phrase) {
+    removeListenerForPhrase(phraseIndex);
     phrases_[phraseIndex] = phrase;
     phrases_[phraseIndex]->events.addListener(this,
                                               &xmm::TrainingSet::onPhraseEvent);
@@ -248,6 +252,7 @@ void xmm::TrainingSet::addPhrase(int phraseIndex,
 }
 
 void xmm::TrainingSet::removePhrase(int phraseIndex) {
+    removeListenerForPhrase(phraseIndex);
     phrases_.erase(phraseIndex);
     update();
 }
@@ -269,6 +274,10 @@ void xmm::TrainingSet::removePhrasesOfClass(std::string const &label) {
 
 void xmm::TrainingSet::clear() {
     sub_training_sets_.clear();
+    for (auto &phrase : phrases_) {
+        phrase.second->events.removeListener(this,
+                                             &xmm::TrainingSet::onPhraseEvent);
+    }
     phrases_.clear();
     labels_.clear();
 }
@@ -287,6 +296,16 @@ void xmm::TrainingSet::onPhraseEvent(PhraseEvent const &e) {
     }
 }
 
+void xmm::TrainingSet::removeListenerForPhrase(int phraseIndex) {
+    auto it = phrases_.find(phraseIndex);
+    if (it == phrases_.end()) return;
+    // The same phrase can be stored at several indices
+    for (auto &phrase : phrases_) {
+        if (phrase.first != phraseIndex && phrase.second == it->second) return;
+    }
+    it->second->events.removeListener(this, &xmm::TrainingSet::onPhraseEvent);
+}
+
 void xmm::TrainingSet::update() {
     labels_.clear();
     for (auto &phrase : phrases_) {
diff --git a/src/core/trainingset/xmmTrainingSet.hpp b/src/core/trainingset/xmmTrainingSet.hpp
index 6fa03c6..aadee92 100644
--- a/src/core/trainingset/xmmTrainingSet.hpp
+++ b/src/core/trainingset/xmmTrainingSet.hpp
@@ -319,6 +319,12 @@ class TrainingSet : public Writable {
      */
     virtual void onAttributeChange(AttributeBase* attr_pointer);
 
+    /**
+     @brief stop listening to the events of the phrase at the given index
+     @param phraseIndex index of the phrase
+     */
+    void removeListenerForPhrase(int phraseIndex);
+
     /**
      @brief create all the sub-training sets: one for each label
      @details each subset contains only the phrase for the given label
-- 
2.43.0


From cba3db015bef45b42ae100e2201e86877be28eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 10/34] fix: copy the shared parameters and results of KMeans

---
 src/models/kmeans/xmmKMeans.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index cd04cd6..dd9139e 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -48,12 +48,18 @@ xmm::KMeans::KMeans(unsigned int clusters_)
 }
 
 xmm::KMeans::KMeans(KMeans const& src)
-    : configuration(src.configuration),
+    : shared_parameters(
+          std::make_shared<SharedParameters>(*src.shared_parameters)),
+      configuration(src.configuration),
+      results(src.results),
       centers(src.centers),
       initialization_mode(src.initialization_mode) {}
 
 xmm::KMeans& xmm::KMeans::operator=(KMeans const& src) {
     if (this != &src) {
+        shared_parameters =
+            std::make_shared<SharedParameters>(*src.shared_parameters);
+        results = src.results;
         initialization_mode = src.initialization_mode;
         configuration = src.configuration;
         centers = src.centers;
-- 
2.43.0


From 1c1f80ab0f72f184cc8ebaa9b7a4ed26c5b13008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 11/34] fix: allocate KMeans results after training

---
 src/models/kmeans/xmmKMeans.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index dd9139e..e548995 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -111,6 +111,7 @@ void xmm::KMeans::train(TrainingSet* trainingSet) {
             configuration.relative_distance_threshold.get())
             break;
     }
+    reset();
 }
 
 void xmm::KMeans::initClustersWithFirstPhrase(std::shared_ptr<Phrase> phrase) {
-- 
2.43.0


From 6aaa079a260b853a0844ac77b1d85fd964393f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 12/34] fix: attach copied class models to the shared
 parameters of the copy

---
 src/core/model/xmmModel.hpp            | 2 ++
 src/core/model/xmmModelSingleClass.hpp | 8 ++++++++
 src/models/hmm/xmmHmmSingleClass.hpp   | 9 +++++++++
 3 files changed, 19 insertions(+)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 815d900..f01f34c 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -89,6 +89,7 @@ class Model : public Writable {
                 "Cannot copy: source model is still training");
         models = src.models;
         for (auto& model : models) {
+            model.second.setSharedParameters(shared_parameters);
             model.second.training_events.removeListeners();
             model.second.training_events.addListener(
                 this,
@@ -145,6 +146,7 @@ class Model : public Writable {
             models.clear();
             models = src.models;
             for (auto& model : this->models) {
+                model.second.setSharedParameters(shared_parameters);
                 model.second.training_events.removeListeners();
                 model.second.training_events.addListener(
                     this,
diff --git a/src/core/model/xmmModelSingleClass.hpp b/src/core/model/xmmModelSingleClass.hpp
index cad4a34..4b07762 100644
--- a/src/core/model/xmmModelSingleClass.hpp
+++ b/src/core/model/xmmModelSingleClass.hpp
@@ -208,6 +208,14 @@ class SingleClassProbabilisticModel : public Writable {
     /** @name Training */
     ///@{
 
+    /**
+     @brief Attach the model to another set of shared parameters
+     @param p shared parameters
+     */
+    virtual void setSharedParameters(std::shared_ptr<SharedParameters> p) {
+        shared_parameters = p;
+    }
+
     /**
      @brief Checks if the model is training
      @return true if the model is training
diff --git a/src/models/hmm/xmmHmmSingleClass.hpp b/src/models/hmm/xmmHmmSingleClass.hpp
index 7dd78f3..6ee9d28 100644
--- a/src/models/hmm/xmmHmmSingleClass.hpp
+++ b/src/models/hmm/xmmHmmSingleClass.hpp
@@ -79,6 +79,15 @@ class SingleClassHMM : public SingleClassProbabilisticModel {
      */
     SingleClassHMM& operator=(SingleClassHMM const& src);
 
+    /**
+     @brief Attach the model and its states to another set of shared parameters
+     @param p shared parameters
+     */
+    virtual void setSharedParameters(std::shared_ptr<SharedParameters> p) {
+        SingleClassProbabilisticModel::setSharedParameters(p);
+        for (auto& state : states) state.setSharedParameters(p);
+    }
+
     /** @name Accessors */
     ///@{
 
-- 
2.43.0


From 9aab53f151adb29b985e468e48061b548c7980a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 13/34] fix: initialize the filtering state of copied class
 models

---
 src/core/model/xmmModelSingleClass.cpp |  2 ++
 src/models/hmm/xmmHmmSingleClass.cpp   | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index 28259e4..9bcb96c 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -56,6 +56,7 @@ xmm::SingleClassProbabilisticModel::SingleClassProbabilisticModel(
     : label(src.label),
       shared_parameters(src.shared_parameters),
       training_status(this, label),
+      likelihood_buffer_(src.likelihood_buffer_),
       is_training_(false),
       cancel_training_(false) {
     if (is_training_)
@@ -92,6 +93,7 @@ operator=(SingleClassProbabilisticModel const& src) {
         label = src.label;
         training_status = TrainingEvent(this, label),
         shared_parameters = src.shared_parameters;
+        likelihood_buffer_ = src.likelihood_buffer_;
         is_training_ = false;
         cancel_training_ = false;
     }
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 401d2a5..de3168a 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -33,7 +33,9 @@
 #include "xmmHmmSingleClass.hpp"
 
 xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p)
-    : SingleClassProbabilisticModel(p), is_hierarchical_(true) {}
+    : SingleClassProbabilisticModel(p),
+      forward_initialized_(false),
+      is_hierarchical_(true) {}
 
 xmm::SingleClassHMM::SingleClassHMM(SingleClassHMM const& src)
     : SingleClassProbabilisticModel(src),
@@ -41,6 +43,7 @@ xmm::SingleClassHMM::SingleClassHMM(SingleClassHMM const& src)
       states(src.states),
       prior(src.prior),
       transition(src.transition),
+      forward_initialized_(false),
       is_hierarchical_(src.is_hierarchical_),
       exit_probabilities_(src.exit_probabilities_) {
     alpha.resize(parameters.states.get());
@@ -51,7 +54,9 @@ xmm::SingleClassHMM::SingleClassHMM(SingleClassHMM const& src)
 
 xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
                                     Json::Value const& root)
-    : SingleClassProbabilisticModel(p, root), is_hierarchical_(true) {
+    : SingleClassProbabilisticModel(p, root),
+      forward_initialized_(false),
+      is_hierarchical_(true) {
     parameters.fromJson(root["parameters"]);
 
     allocate();
@@ -79,6 +84,7 @@ xmm::SingleClassHMM& xmm::SingleClassHMM::operator=(SingleClassHMM const& src) {
     if (this != &src) {
         SingleClassProbabilisticModel::operator=(src);
 
+        forward_initialized_ = false;
         is_hierarchical_ = src.is_hierarchical_;
         parameters = src.parameters;
         transition = src.transition;
-- 
2.43.0


From 1ab7250b05cdf0b3e4c14be204671a396bd839d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 14/34] fix: complete the training in sequential mode

---
 src/core/model/xmmModel.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index f01f34c..e117d91 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -298,7 +298,7 @@ class Model : public Writable {
             joinTraining();
         }
         if (configuration.multithreading == MultithreadingMode::Sequential) {
-            is_training_ = false;
+            joinTraining();
         }
     }
 
@@ -358,7 +358,7 @@ class Model : public Writable {
             joinTraining();
         }
         if (configuration.multithreading == MultithreadingMode::Sequential) {
-            is_training_ = false;
+            joinTraining();
         }
     }
 
-- 
2.43.0


From 974660054afe26ced4965ad6873262fd84558938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 15/34] fix: initialization of the hierarchical forward
 variables of ergodic models

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 4afd41a..a097046 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -160,14 +160,15 @@ void xmm::HierarchicalHMM::forward_init(std::vector<float> const &observation) {
         // primitive
         if (model.second.parameters.transition_mode.get() ==
             HMM::TransitionMode::Ergodic) {
+            model.second.results.instant_likelihood = 0.0;
             for (int i = 0; i < model.second.parameters.states.get(); i++) {
                 if (shared_parameters->bimodal.get()) {
                     model.second.alpha_h[0][i] =
-                        model.second.prior[i] *
+                        this->prior[model_index] * model.second.prior[i] *
                         model.second.states[i].obsProb_input(&observation[0]);
                 } else {
                     model.second.alpha_h[0][i] =
-                        model.second.prior[i] *
+                        this->prior[model_index] * model.second.prior[i] *
                         model.second.states[i].obsProb(&observation[0]);
                 }
                 model.second.results.instant_likelihood +=
-- 
2.43.0


From bd4b4219e1d2f040172eee6c54485d01cf139632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 16/34] fix: update the likelihood window once per observation
 in non-hierarchical mode

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index a097046..505c1f4 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -395,7 +395,14 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
         } else {
             this->forward_init(observation);
         }
+
+        // Compute time progression
+        for (auto &model : models) {
+            model.second.updateAlphaWindow();
+            model.second.updateResults();
+        }
     } else {
+        // updates the time progression of each class
         int i(0);
         for (auto &model : models) {
             results.instant_likelihoods[i] = model.second.filter(observation);
@@ -403,11 +410,6 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
         }
     }
 
-    // Compute time progression
-    for (auto &model : models) {
-        model.second.updateAlphaWindow();
-        model.second.updateResults();
-    }
     updateResults();
 
     if (shared_parameters->bimodal.get()) {
-- 
2.43.0


From 538743e807762c440c177e03944be36f6b792dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 17/34] fix: allocate the forward variables when resetting a
 non-hierarchical HMM

---
 src/models/hmm/xmmHmmSingleClass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index de3168a..fb30f81 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1109,6 +1109,8 @@ void xmm::SingleClassHMM::reset() {
         beta_.clear();
         previous_beta_.clear();
     } else {
+        alpha.resize(parameters.states.get());
+        previous_alpha_.resize(parameters.states.get());
         addCyclicTransition(0.05);
     }
 }
-- 
2.43.0


From fede41f2652ec84174ec7a4b93fcdafe745343ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 18/34] fix: output covariance of the likeliest state in HMM
 regression

---
 src/models/hmm/xmmHmmSingleClass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index fb30f81..2989383 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1221,6 +1221,8 @@ void xmm::SingleClassHMM::regression(
         states[results.likeliest_state].regression(observation_input);
         results.output_values =
             states[results.likeliest_state].results.output_values;
+        results.output_covariance =
+            states[results.likeliest_state].results.output_covariance;
         return;
     }
 
-- 
2.43.0


From a16f22eeb01a20f89789b3abbcc25b701a165ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 19/34] fix: skip empty phrases in the estimation of HMM priors

---
 src/models/hmm/xmmHmmSingleClass.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 2989383..4f92374 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -986,7 +986,8 @@ void xmm::SingleClassHMM::baumWelch_estimatePrior(TrainingSet* trainingSet) {
     double sumprior = 0.;
     int phraseIndex(0);
     for (auto it = trainingSet->cbegin(); it != trainingSet->cend(); it++) {
-        for (int i = 0; i < numStates; i++) {
+        // Empty phrases carry no initial observation
+        for (int i = 0; it->second->size() > 0 && i < numStates; i++) {
             prior[i] += gamma_sequence_[phraseIndex][i];
             sumprior += gamma_sequence_[phraseIndex][i];
         }
-- 
2.43.0


From 99306f7a930d2bece2f96984cd0327c4d559e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 20/34] fix: do not copy the listener when assigning an
 attribute

---
 src/core/common/xmmAttribute.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/core/common/xmmAttribute.hpp b/src/core/common/xmmAttribute.hpp
index d1dcfc8..6dce847 100644
--- a/src/core/common/xmmAttribute.hpp
+++ b/src/core/common/xmmAttribute.hpp
@@ -170,8 +170,7 @@ class Attribute : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
@@ -317,8 +316,7 @@ class Attribute<std::vector<T>> : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
@@ -505,8 +503,7 @@ class Attribute<std::vector<std::string>> : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
-- 
2.43.0


From a0fa6734b6e15b7029aa8880c7cfaa39c65ae541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 21/34] fix: keep the message of a JsonException alive after
 what() returns

---
 src/core/common/xmmJson.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/common/xmmJson.hpp b/src/core/common/xmmJson.hpp
index 8a27eee..109db4d 100644
--- a/src/core/common/xmmJson.hpp
+++ b/src/core/common/xmmJson.hpp
@@ -190,7 +190,7 @@ class JsonException : public std::exception {
      @return exception message
      */
     virtual const char* what() const throw() {
-        std::string message;
+        std::string& message = message_;
         switch (errorType_) {
             case JsonErrorType::JsonMissingNode:
                 message = "Json Structure Error: Missing Node";
@@ -224,6 +224,11 @@ class JsonException : public std::exception {
      @brief Name of the Json Node presenting an error
      */
     std::vector<std::string> nodename_;
+
+    /**
+     @brief Exception message, built on demand
+     */
+    mutable std::string message_;
 };
 
 /**
-- 
2.43.0


From 4a7352e86577fb323b93547c49608e62ee6bf30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 22/34] fix: input dimension limits when shared parameters
 become unimodal

---
 src/core/model/xmmModelSharedParameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 1abcfa9..8d8ef05 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -151,7 +151,7 @@ void xmm::SharedParameters::onAttributeChange(AttributeBase* attr_pointer) {
         } else {
             dimension.setLimitMin(1);
             if (dimension.get() < 1) dimension.set(1);
-            dimension_input.setLimitMax(0);
+            dimension_input.setLimits(0, 0);
             dimension_input.set(0);
         }
     } else if (attr_pointer == &dimension) {
-- 
2.43.0


From cc75bbbc110b363811f674e37ccbe3280988883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 23/34] fix: exit probabilities when the number of states of a
 class changes

---
 src/models/hmm/xmmHmmSingleClass.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 4f92374..307a81a 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1367,7 +1367,8 @@ void xmm::SingleClassHMM::updateExitProbabilities(float* exitProbabilities) {
         throw std::runtime_error(
             "Model is Not hierarchical: method cannot be used");
     if (exitProbabilities == NULL) {
-        exit_probabilities_.resize(numStates, 0.0);
+        if (exit_probabilities_.size() != numStates)
+            exit_probabilities_.assign(numStates, 0.0);
         exit_probabilities_[numStates - 1] =
             DEFAULT_EXITPROBABILITY_LAST_STATE();
     } else {
-- 
2.43.0


From 45e637c7cf0e3edd0bfa4598301a1853cb45017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:09 +0000
Subject: [PATCH 24/34] fix: keep the input dimension below the total dimension

Reducing the dimension left dimension_input above its new limit (and new
bimodal phrases accepted dimension_input == dimension).
---
 src/core/distributions/xmmGaussianDistribution.cpp | 2 ++
 src/core/model/xmmModelSharedParameters.cpp        | 2 ++
 src/core/trainingset/xmmPhrase.cpp                 | 7 +++++--
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 38743c4..17a4b2f 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -142,6 +142,8 @@ xmm::GaussianDistribution& xmm::GaussianDistribution::operator=(
 void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
     if (attr_pointer == &dimension) {
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() > dimension.get() - 1)
+            dimension_input.set(dimension.get() - 1, true);
     }
     if (attr_pointer == &dimension || attr_pointer == &dimension_input) {
         allocate();
diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 8d8ef05..499a6e1 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -156,6 +156,8 @@ void xmm::SharedParameters::onAttributeChange(AttributeBase* attr_pointer) {
         }
     } else if (attr_pointer == &dimension) {
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() > dimension.get() - 1)
+            dimension_input.set(dimension.get() - 1);
         column_names.resize(dimension.get());
     }
     attr_pointer->changed = false;
diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 6914543..32600a0 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -47,7 +47,7 @@ xmm::Phrase::Phrase(MemoryMode memoryMode, Multimodality multimodality)
     label.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
     dimension.setLimitMin((bimodal_) ? 2 : 1);
     dimension.set((bimodal_) ? 2 : 1, true);
-    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
+    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
     dimension_input.set((bimodal_) ? 1 : 0, true);
     data_ = new float*[bimodal_ ? 2 : 1];
     data_[0] = NULL;
@@ -575,8 +575,11 @@ void xmm::Phrase::onAttributeChange(xmm::AttributeBase* attr_pointer) {
         }
         column_names.resize(dimension.get());
     }
-    if (attr_pointer == &dimension)
+    if (attr_pointer == &dimension) {
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() > dimension.get() - 1)
+            dimension_input.set(dimension.get() - 1, true);
+    }
     if (attr_pointer == &label) {
         PhraseEvent event(this, PhraseEvent::Type::LabelChanged);
         events.notifyListeners(event);
-- 
2.43.0


From 21d1c1e0259cd51d27c63b640cd9e7136b0047a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:09 +0000
Subject: [PATCH 25/34] fix: TrainingSet dimension limits, propagate them to
 the per-label subsets

Setting the input dimension after the dimension of a set that already
contains phrases threw a domain_error half-way.
---
 src/core/trainingset/xmmTrainingSet.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index f2d0ff3..8845b37 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -44,7 +44,7 @@ xmm::TrainingSet::TrainingSet(MemoryMode memoryMode,
 
     dimension.setLimitMin((bimodal_) ? 2 : 1);
     dimension.set((bimodal_) ? 2 : 1, true);
-    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
+    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
     dimension_input.set((bimodal_) ? 1 : 0, true);
     column_names.resize(dimension.get());
 }
@@ -82,7 +82,7 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
     bimodal_ = root.get("bimodal", false).asBool();
 
     dimension.setLimitMin((bimodal_) ? 2 : 1);
-    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
+    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
     dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
     dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
     std::vector<std::string> tmpColNames(dimension.get());
@@ -146,11 +146,15 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
         }
         for (std::map<std::string, TrainingSet>::iterator it =
                  sub_training_sets_.begin();
-             it != sub_training_sets_.end(); ++it)
+             it != sub_training_sets_.end(); ++it) {
             it->second.dimension.set(dimension.get(), true);
+            it->second.dimension_input.setLimitMax(dimension.get() - 1);
+        }
 
         column_names.resize(dimension.get());
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() > dimension.get() - 1)
+            dimension_input.set(dimension.get() - 1);
     }
     if (attr_pointer == &dimension_input) {
         for (auto &phrase : phrases_) {
-- 
2.43.0


From 41239f1106be92bea6dfb6c55bef445b697d5024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:56 +0000
Subject: [PATCH 26/34] fix: setting the covariance mode to its current value
 no longer corrupts the covariance

---
 src/core/distributions/xmmGaussianDistribution.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 17a4b2f..e5a4dc8 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -149,7 +149,8 @@ void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
         allocate();
     }
     if (attr_pointer == &covariance_mode) {
-        if (covariance_mode.get() == CovarianceMode::Diagonal) {
+        if (covariance_mode.get() == CovarianceMode::Diagonal &&
+            covariance.size() != dimension.get()) {
             std::vector<double> new_covariance(dimension.get());
             for (unsigned int d = 0; d < dimension.get(); ++d) {
                 new_covariance[d] = covariance[d * dimension.get() + d];
@@ -158,7 +159,8 @@ void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
             inverse_covariance_.resize(dimension.get());
             if (bimodal_)
                 inverse_covariance_input_.resize(dimension_input.get());
-        } else if (covariance_mode.get() == CovarianceMode::Full) {
+        } else if (covariance_mode.get() == CovarianceMode::Full &&
+                   covariance.size() != dimension.get() * dimension.get()) {
             std::vector<double> new_covariance(
                 dimension.get() * dimension.get(), 0.0);
             for (unsigned int d = 0; d < dimension.get(); ++d) {
-- 
2.43.0


From d11fdef47fbca8e3be23cb83865a8ecf4f15d69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:08 +0000
Subject: [PATCH 27/34] fix: switching shared parameters back to bimodal
 restores the input dimension limits

---
 src/core/model/xmmModelSharedParameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 499a6e1..a9d4c68 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -146,7 +146,7 @@ void xmm::SharedParameters::onAttributeChange(AttributeBase* attr_pointer) {
         if (bimodal.get()) {
             dimension.setLimitMin(2);
             if (dimension.get() < 2) dimension.set(2);
-            dimension_input.setLimitMin(1);
+            dimension_input.setLimits(1, dimension.get() - 1);
             if (dimension_input.get() < 1) dimension_input.set(1);
         } else {
             dimension.setLimitMin(1);
-- 
2.43.0


From 449777f8d1d1de9656327e61ad1a560202e73469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 28/34] fix: column names can be set after the dimension of a
 training set with phrases changed

---
 src/core/trainingset/xmmTrainingSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 8845b37..f188f77 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -149,6 +149,7 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
              it != sub_training_sets_.end(); ++it) {
             it->second.dimension.set(dimension.get(), true);
             it->second.dimension_input.setLimitMax(dimension.get() - 1);
+            it->second.column_names.resize(dimension.get());
         }
 
         column_names.resize(dimension.get());
-- 
2.43.0


From 981a81238605c1f2dc0f06842cb07c78a5a6d62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 29/34] fix: training progression stays within [0,1] when
 training runs past the minimum number of iterations

---
 src/core/model/xmmModelSingleClass.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index 9bcb96c..fd4c6ff 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -32,6 +32,7 @@
  */
 
 #include "xmmModelSingleClass.hpp"
+#include <algorithm>
 #include <cmath>
 
 #pragma mark -
@@ -175,9 +176,11 @@ void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
                 float(training_status.iterations) /
                 float(shared_parameters->em_algorithm_max_iterations.get());
         else
-            training_status.progression =
+            training_status.progression = std::min(
+                1.f,
                 float(training_status.iterations) /
-                float(shared_parameters->em_algorithm_min_iterations.get());
+                    float(
+                        shared_parameters->em_algorithm_min_iterations.get()));
 
         training_events.notifyListeners(training_status);
     }
-- 
2.43.0


From 6a6cff9e7428e7fbb6b8b763d296c754af0b3b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:40 +0000
Subject: [PATCH 30/34] fix: transition rows without expected transitions
 become equiprobable instead of NaN

---
 src/models/hmm/xmmHmmSingleClass.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 307a81a..0d2cbfb 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -326,8 +326,14 @@ void xmm::SingleClassHMM::normalizeTransitions() {
             norm_transition = 0.;
             for (int j = 0; j < numStates; j++)
                 norm_transition += transition[i * numStates + j];
-            for (int j = 0; j < numStates; j++)
-                transition[i * numStates + j] /= norm_transition;
+            for (int j = 0; j < numStates; j++) {
+                // States never left in the training data have no expected
+                // transition: their transitions are equiprobable
+                if (norm_transition > 0.)
+                    transition[i * numStates + j] /= norm_transition;
+                else
+                    transition[i * numStates + j] = 1 / (float)numStates;
+            }
         }
         for (int i = 0; i < numStates; i++) prior[i] /= norm_prior;
     } else {
-- 
2.43.0


From 6c1f8804034ada94760e1969651ad0e52f00a8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:25 +0000
Subject: [PATCH 31/34] fix: column names of new shared parameters match their
 dimension

---
 src/core/model/xmmModelSharedParameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index a9d4c68..41f2235 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -41,6 +41,7 @@ xmm::SharedParameters::SharedParameters()
       em_algorithm_max_iterations(0),
       em_algorithm_percent_chg(0.01, 0.),
       likelihood_window(1, 1) {
+    column_names.resize(dimension.get());
     bimodal.onAttributeChange(this, &xmm::SharedParameters::onAttributeChange);
     dimension.onAttributeChange(this,
                                 &xmm::SharedParameters::onAttributeChange);
-- 
2.43.0


From 964af6c82e8786e6164cb6de234376f8f8aa3789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:25 +0000
Subject: [PATCH 32/34] fix: refuse JSON models with a wrong number of
 components or states

---
 src/models/gmm/xmmGmmSingleClass.cpp | 6 ++++++
 src/models/hmm/xmmHmmSingleClass.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/models/gmm/xmmGmmSingleClass.cpp b/src/models/gmm/xmmGmmSingleClass.cpp
index 64d7bd3..8cdbba4 100644
--- a/src/models/gmm/xmmGmmSingleClass.cpp
+++ b/src/models/gmm/xmmGmmSingleClass.cpp
@@ -55,6 +55,12 @@ xmm::SingleClassGMM::SingleClassGMM(std::shared_ptr<SharedParameters> p,
     json2vector(root["mixture_coeffs"], mixture_coeffs,
                 parameters.gaussians.get());
 
+    if (!root["components"].isArray())
+        throw JsonException(JsonException::JsonErrorType::JsonTypeError,
+                            "components");
+    if (root["components"].size() != parameters.gaussians.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "components");
     int c(0);
     for (auto p : root["components"]) {
         components[c++].fromJson(p);
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 0d2cbfb..6905bdd 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -74,6 +74,12 @@ xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
                     parameters.states.get());
     }
 
+    if (!root["states"].isArray())
+        throw JsonException(JsonException::JsonErrorType::JsonTypeError,
+                            "states");
+    if (root["states"].size() != parameters.states.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "states");
     int s(0);
     for (auto p : root["states"]) {
         states[s++].fromJson(p);
-- 
2.43.0


From b4d4c760806b6cbc5a2a3d287d7bb8909c1d98de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:07 +0000
Subject: [PATCH 33/34] fix: adding, retraining or removing a class of a
 non-hierarchical HMM no longer throws

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 505c1f4..0838a8f 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -134,7 +134,9 @@ void xmm::HierarchicalHMM::updateTransition() {
 
 void xmm::HierarchicalHMM::updateExitProbabilities() {
     for (auto &model : models) {
-        model.second.updateExitProbabilities();
+        // Exit probabilities only exist for hierarchical decoding
+        if (model.second.is_hierarchical_)
+            model.second.updateExitProbabilities();
     }
 }
 
-- 
2.43.0


From 4b97ad5b74cae4526c6723dc79e8b9c8f0245637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:50 +0000
Subject: [PATCH 34/34] fix: NaN is outside the limits of every numeric
 attribute

---
 src/core/common/xmmAttribute.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/common/xmmAttribute.cpp b/src/core/common/xmmAttribute.cpp
index bdf3655..7c912f8 100644
--- a/src/core/common/xmmAttribute.cpp
+++ b/src/core/common/xmmAttribute.cpp
@@ -87,7 +87,8 @@ void xmm::checkLimits<long>(long const& value, long const& limit_min,
 template <>
 void xmm::checkLimits<float>(float const& value, float const& limit_min,
                              float const& limit_max) {
-    if (value < limit_min || value > limit_max)
+    // Written so that NaN, which lies in no range, is refused
+    if (!(value >= limit_min && value <= limit_max))
         throw std::domain_error("Attribute value out of range. Range: [" +
                                 std::to_string(limit_min) + " ; " +
                                 std::to_string(limit_max) + "]");
@@ -96,7 +97,8 @@ void xmm::checkLimits<float>(float const& value, float const& limit_min,
 template <>
 void xmm::checkLimits<double>(double const& value, double const& limit_min,
                               double const& limit_max) {
-    if (value < limit_min || value > limit_max)
+    // Written so that NaN, which lies in no range, is refused
+    if (!(value >= limit_min && value <= limit_max))
         throw std::domain_error("Attribute value out of range. Range: [" +
                                 std::to_string(limit_min) + " ; " +
                                 std::to_string(limit_max) + "]");
-- 
2.43.0

