From 6dc6a295240abf32b12acaef63e2c500c4b12ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:56 +0000
Subject: [PATCH 01/20] fix: messages read the binary factor with sender and
 receiver positions swapped

---
 src/src/structure/SpecialFactors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index d1f11a2..d470a10 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -144,8 +144,8 @@ void fill_message(const UnaryFactor &merged_unaries,
                   const Immutable &binary_factor, Function &recipient) {
   std::size_t message_pos;
   std::size_t sender_pos;
-  get_positions(binary_factor, merged_unaries.getVariable(), message_pos,
-                sender_pos);
+  get_positions(binary_factor, merged_unaries.getVariable(), sender_pos,
+                message_pos);
   std::size_t message_size =
       binary_factor.function().vars().getVariables()[message_pos]->size();
   for (std::size_t r = 0; r < message_size; ++r) {
-- 
2.43.0


From 10ce2ce5eb6a890e2bd97d31c5bdd8092c84374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:56 +0000
Subject: [PATCH 02/20] fix: max-product message of all null products was
 FLT_MIN instead of 0

---
 src/src/structure/SpecialFactors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index d470a10..f5619c9 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -181,7 +181,7 @@ MessageMAP::MessageMAP(const UnaryFactor &merged_unaries,
           get_other_var(binary_factor, merged_unaries.getVariable()))) {
   struct Reducer {
     void update(float v) { val = std::max<float>(val, v); }
-    float val = std::numeric_limits<float>::min();
+    float val = 0;
   };
   fill_message<Reducer>(merged_unaries, binary_factor, functionMutable());
 }
-- 
2.43.0


From 878ee54202be2a8b78c168276b70ce3610980f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:56 +0000
Subject: [PATCH 03/20] fix: normalizing all null merged unaries produced NaN

---
 src/src/structure/SpecialFactors.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index f5619c9..fe96b6b 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -52,7 +52,11 @@ public:
   }
 
   void normalize() {
-    float coeff = 1.f / *std::max_element(imgs_->begin(), imgs_->end());
+    const float max = *std::max_element(imgs_->begin(), imgs_->end());
+    if (0 == max) {
+      return; // nothing to scale
+    }
+    float coeff = 1.f / max;
     for (auto &val : *imgs_) {
       val *= coeff;
     }
-- 
2.43.0


From b2d6e719dacc2b1026d9c04d790987eed770c47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:56 +0000
Subject: [PATCH 04/20] fix: replaceVariables with repeated variables read the
 group out of bounds

---
 src/src/categoric/Group.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/categoric/Group.cpp b/src/src/categoric/Group.cpp
index 59794c6..ccda384 100644
--- a/src/src/categoric/Group.cpp
+++ b/src/src/categoric/Group.cpp
@@ -45,7 +45,8 @@ void Group::add(const VariablePtr &var) {
 
 void Group::replaceVariables(const VariablesSoup &new_variables) {
   auto new_group_sorted = to_vars_set(new_variables);
-  if (new_group_sorted.size() != group.size()) {
+  if ((new_variables.size() != group.size()) ||
+      (new_group_sorted.size() != group.size())) {
     throw Error{"Invalid new variables group"};
   }
   for (std::size_t k = 0; k < new_variables.size(); ++k) {
-- 
2.43.0


From ada706c3aa74116af835d8926b92f42819feff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:56 +0000
Subject: [PATCH 05/20] fix: GroupRange of a group reserved one entry per joint
 combination

---
 src/src/categoric/GroupRange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/categoric/GroupRange.cpp b/src/src/categoric/GroupRange.cpp
index f42fe12..cbeb5f1 100644
--- a/src/src/categoric/GroupRange.cpp
+++ b/src/src/categoric/GroupRange.cpp
@@ -20,7 +20,7 @@ GroupRange::Data::Data(const std::vector<size_t> &s, bool eor)
 namespace {
 std::vector<size_t> get_sizes(const Group &variables) {
   std::vector<size_t> result;
-  result.reserve(variables.size());
+  result.reserve(variables.getVariables().size());
   for (const auto &var : variables.getVariables()) {
     result.push_back(var->size());
   }
-- 
2.43.0


From 38f2fbd522ab7aed067f5a107b08c4258e0677a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:56 +0000
Subject: [PATCH 06/20] fix: null images explicitly set were visited as non
 null ones

---
 src/header/EasyFactorGraph/factor/Function.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/header/EasyFactorGraph/factor/Function.h b/src/header/EasyFactorGraph/factor/Function.h
index 3772529..abc7318 100644
--- a/src/header/EasyFactorGraph/factor/Function.h
+++ b/src/header/EasyFactorGraph/factor/Function.h
@@ -67,6 +67,9 @@ public:
     VisitorConst<SparseContainer, DenseContainer>{
         [&](const SparseContainer &c) {
           for (const auto &[comb, img] : c) {
+            if (img == 0) {
+              continue;
+            }
             float img2 = img;
             if constexpr (UseTransformed) {
               img2 = this->transform(img2);
-- 
2.43.0


From abb383dbe44484bf7c8e0ca5fc7b4f2f53ec9766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:56 +0000
Subject: [PATCH 07/20] fix: removing an evidence activated the connections to
 other evidences

---
 src/src/structure/EvidenceManager.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/src/structure/EvidenceManager.cpp b/src/src/structure/EvidenceManager.cpp
index c7e7a33..7945dd7 100644
--- a/src/src/structure/EvidenceManager.cpp
+++ b/src/src/structure/EvidenceManager.cpp
@@ -76,10 +76,19 @@ void EvidenceRemover::removeEvidence_(const categoric::VariablePtr &variable) {
   resetBelief();
   state.evidences.erase(evidence_it);
   auto &node = *state.nodes[variable].get();
-  while (!node.disabled_connections.empty()) {
-    auto it = node.disabled_connections.begin();
-    it->first->merged_unaries.reset();
-    Node::activate(node, *it->first, it->second.factor);
+  auto it = node.disabled_connections.begin();
+  while (it != node.disabled_connections.end()) {
+    auto &[connected_node, connection] = *it;
+    ++it; // activation erases the element
+    if (auto other_it = state.evidences.find(connected_node->variable);
+        other_it != state.evidences.end()) {
+      // still disabled, since the other node remains an evidence
+      connection.message = std::make_unique<factor::Evidence>(
+          *connection.factor, other_it->first, other_it->second);
+    } else {
+      connected_node->merged_unaries.reset();
+      Node::activate(node, *connected_node, connection.factor);
+    }
   }
   node.merged_unaries.reset();
 }
-- 
2.43.0


From 9adfcd392161e857e7d14a123ce1a1cc088832b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:56 +0000
Subject: [PATCH 08/20] fix: a refused removeEvidences left the model half
 updated

---
 src/src/structure/EvidenceManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/src/structure/EvidenceManager.cpp b/src/src/structure/EvidenceManager.cpp
index 7945dd7..dd7eb2b 100644
--- a/src/src/structure/EvidenceManager.cpp
+++ b/src/src/structure/EvidenceManager.cpp
@@ -107,6 +107,12 @@ void EvidenceRemover::removeEvidences(
   if (variables.empty()) {
     return;
   }
+  const auto &evidences = this->state().evidences;
+  for (const auto &variable : variables) {
+    if (evidences.find(variable) == evidences.end()) {
+      throw Error::make(variable->name(), " is not an evidence");
+    }
+  }
   for (const auto &variable : variables) {
     removeEvidence_(variable);
   }
-- 
2.43.0


From 223f2c058d822d70a5539920d6e52a0c0350d683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:56 +0000
Subject: [PATCH 09/20] fix: joint marginal with many evidences used dangling
 indicators

---
 src/src/structure/QueryManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/structure/QueryManager.cpp b/src/src/structure/QueryManager.cpp
index fd49c1b..06af245 100644
--- a/src/src/structure/QueryManager.cpp
+++ b/src/src/structure/QueryManager.cpp
@@ -115,6 +115,7 @@ QueryManager::getJointMarginalDistribution(const categoric::Group &subgroup,
 
   std::unordered_set<const factor::Immutable *> contributions;
   std::vector<factor::Indicator> indicators;
+  indicators.reserve(locations.size()); // addresses are stored below
   for (auto &[node, location] : locations) {
     VisitorConst<HiddenClusters::iterator, Evidences::iterator>{
         [&node = node, &subgroup_nodes,
-- 
2.43.0


From 7abff0927f979ee15009d3fa3b22396ded37d067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:56 +0000
Subject: [PATCH 10/20] fix: asking for 0 threads left the model without a pool

---
 src/src/structure/bases/PoolAware.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/src/structure/bases/PoolAware.cpp b/src/src/structure/bases/PoolAware.cpp
index 151877e..58130ca 100644
--- a/src/src/structure/bases/PoolAware.cpp
+++ b/src/src/structure/bases/PoolAware.cpp
@@ -77,6 +77,9 @@ void PoolAware::setPoolSize(const std::size_t new_size) {
   if (new_size == pool->size()) {
     return;
   }
+  if (0 == new_size) {
+    throw Error{"Invalid Pool size"}; // keep the current pool
+  }
   pool.emplace(new_size);
 }
 } // namespace EFG::strct
-- 
2.43.0


From dc4f431a4655ad3d8307d3f5e581b74da800f9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:56 +0000
Subject: [PATCH 11/20] fix: a refused binary factor could leave a new variable
 in the model

---
 src/src/structure/bases/FactorsAware.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/src/structure/bases/FactorsAware.cpp b/src/src/structure/bases/FactorsAware.cpp
index 05812f7..8086dc6 100644
--- a/src/src/structure/bases/FactorsAware.cpp
+++ b/src/src/structure/bases/FactorsAware.cpp
@@ -88,6 +88,12 @@ void hybrid_insertion(Node *node_hidden, Node *node_evidence,
 void FactorsAware::addBinaryDistribution(
     const EFG::factor::ImmutablePtr &binary_factor) {
   const auto &vars = binary_factor->function().vars().getVariables();
+  for (const auto &var : vars) {
+    // check before creating any node
+    if (auto info = locate(var); info.has_value()) {
+      check_is_same_variable(var, info.value().node->variable);
+    }
+  }
   const auto nodeA_location = findOrMakeNode(vars.front());
   auto *nodeA = nodeA_location.node;
   const auto nodeB_location = findOrMakeNode(vars.back());
-- 
2.43.0


From 5358dc222c0ba66f1a2646da9071c6d3530b8c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:36 +0000
Subject: [PATCH 12/20] fix: merged unaries and marginalized evidences were
 stale after a change of weights

---
 .../trainable/FactorsTunableManager.h            |  3 +++
 src/src/trainable/FactorsTunableManager.cpp      | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h b/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
index 7b23c52..5e5b27d 100644
--- a/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
+++ b/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
@@ -62,6 +62,9 @@ protected:
   virtual std::vector<float>
   getWeightsGradient_(const TrainSet::Iterator &train_set_combinations) = 0;
 
+  // to call every time the weight of a factor in the model changes
+  void resetWeightsDependencies();
+
   std::unordered_set<FactorExponentialPtr> tunable_factors;
   Tuners tuners;
 };
diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index 2b86e32..d37fe59 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -58,7 +58,22 @@ void FactorsTunableGetter::setWeights(const std::vector<float> &weights) {
   for (std::size_t k = 0; k < tuners.size(); ++k) {
     tuners[k]->setWeight(weights[k]);
   }
+  resetWeightsDependencies();
+}
+
+void FactorsTunableGetter::resetWeightsDependencies() {
   resetBelief();
+  auto &state = stateMutable();
+  for (auto &[var, node] : state.nodes) {
+    node->merged_unaries.reset();
+    for (auto &[connected_node, connection] : node->disabled_connections) {
+      if (auto it = state.evidences.find(connected_node->variable);
+          it != state.evidences.end()) {
+        connection.message = std::make_unique<factor::Evidence>(
+            *connection.factor, it->first, it->second);
+      }
+    }
+  }
 }
 
 std::vector<float> FactorsTunableGetter::getWeightsGradient(
@@ -140,6 +155,7 @@ void FactorsTunableInserter::addTunableFactor(
         tuner_sharing.addElement(std::move(tuner));
         tuner_sharing.setWeight(tuner_sharing.getWeight());
       });
+  resetWeightsDependencies();
 }
 
 void FactorsTunableInserter::copyTunableFactor(
-- 
2.43.0


From 6ea4cf2f307d3782342d16d6da9071564c4c8751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:36 +0000
Subject: [PATCH 13/20] fix: a tunable factor refused for an unknown sharing
 group remained in the model

---
 src/src/trainable/FactorsTunableManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index d37fe59..302ac0c 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -134,6 +134,9 @@ TunerPtr FactorsTunableInserter::makeTuner(const FactorExponentialPtr &factor) {
 void FactorsTunableInserter::addTunableFactor(
     const FactorExponentialPtr &factor,
     const std::optional<categoric::VariablesSet> &group_sharing_weight) {
+  if (std::nullopt != group_sharing_weight) {
+    findTuner(*group_sharing_weight); // throws before inserting the factor
+  }
   addDistribution(factor);
   auto tuner = makeTuner(factor);
   tunable_factors.emplace(factor);
-- 
2.43.0


From db9a58d6ccb1a58d491b81d636a40b8fdb1b1a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:36 +0000
Subject: [PATCH 14/20] fix: import_train_set dropped the parsed rows and blank
 lines were parsed

---
 src/src/io/TrainSetImport.cpp |  4 ++--
 src/src/io/Utils.cpp          | 30 +++++++++++++++++++++++-------
 src/src/io/Utils.h            |  9 ++++++---
 3 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/src/io/TrainSetImport.cpp b/src/src/io/TrainSetImport.cpp
index 529510a..6eb59bd 100644
--- a/src/src/io/TrainSetImport.cpp
+++ b/src/src/io/TrainSetImport.cpp
@@ -17,13 +17,13 @@ train::TrainSet import_train_set(const std::string &file_name) {
     std::size_t line_numb = 0;
     std::size_t expected_size = 0;
     for_each_line(stream, [&](const std::string &line) {
-      auto &&[combination, img] = parse_combination_image(line);
+      auto combination = parse_combination(line);
       if ((expected_size != 0) && (combination.size() != expected_size)) {
         throw Error::make("Invalid combination size at line ",
                           std::to_string(line_numb));
       }
       expected_size = combination.size();
-      combinations.emplace_back(std::move(expected_size));
+      combinations.emplace_back(std::move(combination));
       ++line_numb;
     });
   });
diff --git a/src/src/io/Utils.cpp b/src/src/io/Utils.cpp
index 7757e80..246229a 100644
--- a/src/src/io/Utils.cpp
+++ b/src/src/io/Utils.cpp
@@ -10,15 +10,31 @@
 #include <sstream>
 
 namespace EFG::io {
-std::pair<std::vector<std::size_t>, float>
-parse_combination_image(const std::string &line) {
+namespace {
+std::vector<std::string> get_tokens(const std::string &line) {
   std::stringstream buff{line};
   std::vector<std::string> tokens;
-  {
-    std::string token;
-    while (buff >> token) {
-      tokens.emplace_back(std::move(token));
-    }
+  std::string token;
+  while (buff >> token) {
+    tokens.emplace_back(std::move(token));
+  }
+  return tokens;
+}
+} // namespace
+
+std::vector<std::size_t> parse_combination(const std::string &line) {
+  std::vector<std::size_t> comb;
+  for (const auto &token : get_tokens(line)) {
+    comb.push_back(static_cast<std::size_t>(std::atoi(token.c_str())));
+  }
+  return comb;
+}
+
+std::pair<std::vector<std::size_t>, float>
+parse_combination_image(const std::string &line) {
+  const std::vector<std::string> tokens = get_tokens(line);
+  if (tokens.empty()) {
+    throw Error{"Found an empty line"};
   }
   std::vector<std::size_t> comb;
   std::for_each(
diff --git a/src/src/io/Utils.h b/src/src/io/Utils.h
index 1fd9bce..89a9196 100644
--- a/src/src/io/Utils.h
+++ b/src/src/io/Utils.h
@@ -42,13 +42,16 @@ void useOutStrem(const std::filesystem::path &file_name, Pred &&pred) {
 template <typename Predicate>
 void for_each_line(std::istream &stream, const Predicate &pred) {
   std::string line;
-  while (!stream.eof()) {
-    line.clear();
-    std::getline(stream, line);
+  while (std::getline(stream, line)) {
+    if (line.find_first_not_of(" \t\r") == std::string::npos) {
+      continue; // blank line
+    }
     pred(line);
   }
 }
 
+std::vector<std::size_t> parse_combination(const std::string &line);
+
 std::pair<std::vector<std::size_t>, float>
 parse_combination_image(const std::string &line);
 
-- 
2.43.0


From 0e811577d16339ebd8878fe29264947a8877fc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:36 +0000
Subject: [PATCH 15/20] fix: json export lost digits of images and weights,
 import kept escape sequences in names

---
 src/src/io/json/Exporter.cpp | 15 +++++++++++++--
 src/src/io/json/Importer.cpp |  3 +--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/src/io/json/Exporter.cpp b/src/src/io/json/Exporter.cpp
index 30e1273..a686979 100644
--- a/src/src/io/json/Exporter.cpp
+++ b/src/src/io/json/Exporter.cpp
@@ -11,6 +11,9 @@
 
 #include "../Utils.h"
 
+#include <limits>
+#include <sstream>
+
 namespace EFG::io::json {
 void Exporter::exportToFile(const nlohmann::json &source,
                             const std::filesystem::path &out) {
@@ -19,6 +22,14 @@ void Exporter::exportToFile(const nlohmann::json &source,
 }
 
 namespace {
+// enough digits to recover the same number
+std::string to_string(float value) {
+  std::stringstream stream;
+  stream.precision(std::numeric_limits<float>::max_digits10);
+  stream << value;
+  return stream.str();
+}
+
 void printVariable(const categoric::VariablePtr &var,
                    nlohmann::json &recipient) {
   recipient["name"] = var->name();
@@ -40,7 +51,7 @@ nlohmann::json &printPotential(const factor::Immutable &distr,
   distr.function().forEachNonNullCombination<false>(
       [&](const auto &comb, float img) {
         auto &Distr_val_added = Distr_val.emplace_back();
-        Distr_val_added["D"] = std::to_string(img);
+        Distr_val_added["D"] = to_string(img);
         auto &values = Distr_val_added["v"];
         for (const auto &v : comb) {
           values.emplace_back() = std::to_string(v);
@@ -52,7 +63,7 @@ nlohmann::json &printPotential(const factor::Immutable &distr,
 nlohmann::json &printExpPotential(const factor::FactorExponential &distr,
                                   nlohmann::json &recipient) {
   auto &pot_tag = printPotential(distr, recipient);
-  pot_tag["weight"] = std::to_string(distr.getWeight());
+  pot_tag["weight"] = to_string(distr.getWeight());
   return pot_tag;
 }
 } // namespace
diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index e78b250..d8afd46 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -37,8 +37,7 @@ const nlohmann::json &access(const nlohmann::json &subject,
 
 std::string to_string(const nlohmann::json &subject) {
   if (subject.is_string()) {
-    auto raw_dump = subject.dump();
-    return std::string{raw_dump, 1, raw_dump.size() - 2};
+    return subject.get<std::string>();
   }
   throw Error{"Expected a string"};
 }
-- 
2.43.0


From 1d061ded7a17b2a2737e126aa0174c562793d15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:36 +0000
Subject: [PATCH 16/20] fix: evidences of a ConditionalRandomField were not
 assigned in the order of getObservedVariables

---
 .../model/ConditionalRandomField.h            |  3 ++-
 src/src/model/ConditionalRandomField.cpp      | 24 ++++++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/header/EasyFactorGraph/model/ConditionalRandomField.h b/src/header/EasyFactorGraph/model/ConditionalRandomField.h
index acca867..045e290 100644
--- a/src/header/EasyFactorGraph/model/ConditionalRandomField.h
+++ b/src/header/EasyFactorGraph/model/ConditionalRandomField.h
@@ -84,6 +84,7 @@ private:
   void replaceIfNeeded(train::TunerPtr &container,
                        const train::BaseTuner &subject);
 
-  const std::vector<std::size_t> evidence_vars_positions;
+  // ordered as getObservedVariables()
+  std::vector<std::size_t> evidence_vars_positions;
 };
 } // namespace EFG::model
diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index 34e8154..747f5b5 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -30,18 +30,15 @@ find_positions(const categoric::VariablesSoup &all_vars,
 }
 } // namespace
 
-ConditionalRandomField::ConditionalRandomField(const ConditionalRandomField &o)
-    : evidence_vars_positions(
-          find_positions(o.getAllVariables(), o.getObservedVariables())) {
+ConditionalRandomField::ConditionalRandomField(
+    const ConditionalRandomField &o) {
   absorb(SourceStructure{static_cast<const strct::FactorsConstGetter *>(&o),
                          static_cast<const train::FactorsTunableGetter *>(&o)},
          false);
 }
 
 ConditionalRandomField::ConditionalRandomField(const RandomField &source,
-                                               bool copy)
-    : evidence_vars_positions(find_positions(source.getAllVariables(),
-                                             source.getObservedVariables())) {
+                                               bool copy) {
   absorb(
       SourceStructure{
           static_cast<const strct::FactorsConstGetter *>(&source),
@@ -60,6 +57,8 @@ void ConditionalRandomField::absorb(const SourceStructure &source, bool copy) {
   for (const auto &[var, val] : evidences) {
     setEvidence(findVariable(var->name()), val);
   }
+  evidence_vars_positions =
+      find_positions(getAllVariables(), getObservedVariables());
   // replace tuners of factors connected to an evidence
   for (auto &tuner : tuners) {
     train::visitTuner(
@@ -125,8 +124,17 @@ void ConditionalRandomField::setEvidences(
     throw Error::make("Expected ", std::to_string(state.evidences.size()),
                       " evidences, but got instead ", values.size());
   }
+  const auto observed = getObservedVariables();
   std::size_t k = 0;
-  for (const auto &[var, val] : state.evidences) {
+  for (const auto &var : observed) {
+    if (var->size() <= values[k]) {
+      throw Error::make(std::to_string(values[k]),
+                        " is an invalid evidence for variable ", var->name());
+    }
+    ++k;
+  }
+  k = 0;
+  for (const auto &var : observed) {
     setEvidence(var, values[k]);
     ++k;
   }
@@ -168,7 +176,7 @@ std::vector<float> ConditionalRandomField::getWeightsGradient_(
         [this, &tasks](const auto &combination) {
           {
             std::size_t var_pos = 0;
-            for (auto &[var, val] : this->state().evidences) {
+            for (const auto &var : this->getObservedVariables()) {
               this->setEvidence(
                   var, combination[this->evidence_vars_positions[var_pos]]);
               ++var_pos;
-- 
2.43.0


From 7f28f006309c01a6e6578331bcb58492247f9172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:36 +0000
Subject: [PATCH 17/20] fix: makeTrainSet divided by zero for small percentages

---
 src/src/model/ConditionalRandomField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index 747f5b5..cbe7da5 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -218,8 +218,8 @@ std::vector<std::vector<std::size_t>> ConditionalRandomField::makeTrainSet(
     categoric::for_each_combination(evidences_range, emplace_samples);
   } else {
     const std::size_t result_max_size = evidences_group.size();
-    const std::size_t result_size_approx =
-        static_cast<std::size_t>(floorf(result_max_size * range_percentage));
+    const std::size_t result_size_approx = std::max<std::size_t>(
+        1, static_cast<std::size_t>(floorf(result_max_size * range_percentage)));
     const std::size_t delta = result_max_size / result_size_approx;
     std::size_t k = 0;
     while (k < result_max_size) {
-- 
2.43.0


From f0606e290d6cc67f397c654e2e29db6fdca4886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:36 +0000
Subject: [PATCH 18/20] fix: values with null probability could be sampled

---
 src/src/structure/GibbsSampler.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/src/structure/GibbsSampler.cpp b/src/src/structure/GibbsSampler.cpp
index 503bac7..2d14a78 100644
--- a/src/src/structure/GibbsSampler.cpp
+++ b/src/src/structure/GibbsSampler.cpp
@@ -21,13 +21,18 @@ std::size_t UniformSampler::sampleFromDiscrete(
     const std::vector<float> &distribution) const {
   float s = this->sample();
   float cumul = 0.f;
+  std::size_t last_possible = distribution.size() - 1;
   for (std::size_t k = 0; k < distribution.size(); ++k) {
+    if (distribution[k] == 0) {
+      continue;
+    }
+    last_possible = k;
     cumul += distribution[k];
     if (s <= cumul) {
       return k;
     }
   }
-  return distribution.size() - 1;
+  return last_possible;
 }
 
 void UniformSampler::resetSeed(std::size_t newSeed) {
-- 
2.43.0


From 62d28e553bac1cc133e45bad466cca0939fb0631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:41 +0000
Subject: [PATCH 19/20] fix: pool workers started before the initialization of
 the pointer they poll

---
 src/header/EasyFactorGraph/structure/bases/PoolAware.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/header/EasyFactorGraph/structure/bases/PoolAware.h b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
index 4577a51..4963de3 100644
--- a/src/header/EasyFactorGraph/structure/bases/PoolAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
@@ -40,9 +40,10 @@ private:
   struct Worker {
     Worker(std::size_t th_id, Context &context);
 
-    std::thread loop;
-
+    // declared before the thread using it, in order to be initialized first
     std::atomic<const Tasks *> to_process = nullptr;
+
+    std::thread loop;
   };
   using WorkerPtr = std::unique_ptr<Worker>;
   std::vector<WorkerPtr> workers;
-- 
2.43.0


From 3e88424d4c31c7b050a2fe980d081c3539e178e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:18 +0000
Subject: [PATCH 20/20] fix: emptying a Cache no longer dereferences the null
 pointer it holds

---
 src/header/EasyFactorGraph/misc/Cache.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/header/EasyFactorGraph/misc/Cache.h b/src/header/EasyFactorGraph/misc/Cache.h
index 66ab345..e570ad7 100644
--- a/src/header/EasyFactorGraph/misc/Cache.h
+++ b/src/header/EasyFactorGraph/misc/Cache.h
@@ -15,7 +15,9 @@ template <typename T> class Cache : std::unique_ptr<T> {
 public:
   Cache() = default;
 
-  T &reset(std::unique_ptr<T> new_value = nullptr) {
+  void reset() { cast_() = nullptr; }
+
+  T &reset(std::unique_ptr<T> new_value) {
     auto &ref = cast_();
     ref = std::move(new_value);
     return *ref;
-- 
2.43.0

