From 6445181e15c85e841d7c7bd2ddb87a1d2e9a8bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 01/25] fix: characteristic length must not depend on where the
 element lies

The running maxima started at zero instead of the lowest double, so an element
with only negative coordinates got a bounding box reaching to the origin.
---
 src/nimble_element.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_element.cc b/src/nimble_element.cc
index 009ec5d..0067344 100644
--- a/src/nimble_element.cc
+++ b/src/nimble_element.cc
@@ -227,7 +227,7 @@ HexElement::ComputeCharacteristicLength(const double* node_coords)
   double characteristic_length, distance_squared, min_distance_squared, nx, ny, nz, mx, my, mz;
   double x_min, x_max, y_min, y_max, z_min, z_max;
 
-  x_max = y_max = z_max = 0.0;
+  x_max = y_max = z_max = std::numeric_limits<double>::lowest();
   min_distance_squared = x_min = y_min = z_min = std::numeric_limits<double>::max();
 
   for (int n = 0; n < num_nodes_; n++) {
-- 
2.43.0


From 454cc1d81879a84d166904a335ac491d29dc71e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 02/25] fix: a material parameter without a value is refused
 instead of reading past the end

---
 src/nimble_material_factory_base.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nimble_material_factory_base.cc b/src/nimble_material_factory_base.cc
index 673ba91..641d178 100644
--- a/src/nimble_material_factory_base.cc
+++ b/src/nimble_material_factory_base.cc
@@ -78,6 +78,10 @@ MaterialFactoryBase::ParseMaterialParametersString(const std::string& material_p
   std::map<std::string, double>      material_double_parameters;
   for (; token != tokens_end; token += 2) {
     auto&& key = *token;
+    if (token + 1 == tokens_end) {
+      std::string errMsg = "Missing value for material parameter: '" + key + "'";
+      throw std::invalid_argument(errMsg);
+    }
     auto&& val = *(token + 1);
     if (std::find(valid_double_parameter_names.begin(), valid_double_parameter_names.end(), key) !=
         valid_double_parameter_names.end()) {
@@ -113,6 +117,10 @@ MaterialFactoryBase::ParseMaterialParamsStringToMap(const std::string& material_
   std::map<std::string, double>      material_double_parameters;
   for (; token != tokens_end; token += 2) {
     auto&& key = *token;
+    if (token + 1 == tokens_end) {
+      std::string errMsg = "Missing value for material parameter: '" + key + "'";
+      throw std::invalid_argument(errMsg);
+    }
     auto&& val = *(token + 1);
     if (std::find(valid_double_parameter_names.begin(), valid_double_parameter_names.end(), key) !=
         valid_double_parameter_names.end()) {
-- 
2.43.0


From 09521e5217ac766fcf01a64fbe027612233a22f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:26 +0000
Subject: [PATCH 03/25] fix: parentheses and blanks around a sub-expression are
 removed until none is left

---
 src/nimble_expression_parser.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/nimble_expression_parser.cc b/src/nimble_expression_parser.cc
index 14e65fb..0bb2977 100644
--- a/src/nimble_expression_parser.cc
+++ b/src/nimble_expression_parser.cc
@@ -165,9 +165,13 @@ ExpressionParsing::RemoveRedundantParenthesis(ExpressionParsing::Reader& text)
 void
 ExpressionParsing::ApplyNecessaryFormatting(ExpressionParsing::Reader& text)
 {
-  if (text.IsEmpty()) return;
-  RemoveWhitespace(text);
-  RemoveRedundantParenthesis(text);
+  unsigned int length;
+  do {
+    if (text.IsEmpty()) return;
+    length = text.length;
+    RemoveWhitespace(text);
+    RemoveRedundantParenthesis(text);
+  } while (text.length != length);
 }
 
 ExpressionParsing::RealValuedExpression*
-- 
2.43.0


From 9f9c73088259b548bed6b393380fa73384d52c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:26 +0000
Subject: [PATCH 04/25] fix: logical not parses the operand that follows it

---
 src/nimble_expression_parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 02b4274..57b3c07 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -654,7 +654,7 @@ class EquationContext
       return mem.New<GenericAnd<bool, bool, bool>>(
           ParseBooleanExpression(r.sub(r.first, r.pos)), ParseBooleanExpression(r.sub(r.pos + 1, r.length)));
 
-    if (r << '!') return mem.New<GenericNot<bool, bool>>(ParseBooleanExpression(r.sub(r.first + 1, r.length)));
+    if (r << '!') return mem.New<GenericNot<bool, bool>>(ParseBooleanExpression(r.sub(r.pos + 1, r.length)));
 
     if (r << '>') {
       if (r.first[r.pos + 1] == '=')
-- 
2.43.0


From d121be435fb0d0b39a10924fe7449ad76f36edab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:26 +0000
Subject: [PATCH 05/25] fix: a sign or an exponent is not taken for the binary
 + or - of an expression

---
 src/nimble_expression_parser.h | 36 ++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 57b3c07..084f6f2 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -581,6 +581,26 @@ class EquationContext
     }
     return 0;
   }
+  // True if the '+' or '-' at position i joins two operands, i.e. it is neither
+  // a sign nor part of the exponent of a number
+  static bool
+  IsBinaryOperator(const Reader& r, unsigned int i)
+  {
+    const char* f = r.first;
+    if (i > 1 && i + 1 < r.length && f[i - 1] == 'e' && IsDigit(f[i + 1]) && (IsDigit(f[i - 2]) || f[i - 2] == '.'))
+      return false;
+    while (i > 0 && f[i - 1] == ' ') i--;
+    return i > 0 && std::strchr("+-*/^%=<>~", f[i - 1]) == nullptr;
+  }
+  // Moves r to the last '+' or '-' outside of parentheses that joins two operands
+  static bool
+  FindBinaryOperator(Reader& r, char op)
+  {
+    for (r.pos = r.length - 1; r.pos > 0; r.Prev('(', ')')) {
+      if (r.first[r.pos] == op && IsBinaryOperator(r, r.pos)) return true;
+    }
+    return false;
+  }
   RealValuedExpression*
   ParseOperation(Reader r)
   {
@@ -598,21 +618,11 @@ class EquationContext
     if (r << '%')
       return mem.New<DoubleMod>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
-    if (r << '+')
+    if (FindBinaryOperator(r, '+'))
       return mem.New<DoubleAdd>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
-    if (r << '-') {
-      // We need to ensure that we found a minus sign and not a value negation
-      while (r.pos > 0 && (r.first[r.pos] == '-' || r.first[r.pos] == ' ')) r.pos--;
-      if (r.pos > 0 || r.first[r.pos] != '-') {
-        char c = r.first[r.pos];
-        if (c != '*' && c != '/' && c != '^' && c != 'e' && c != '=' && c != '<' && c != '~' && c != '>') {
-          while (r.first[r.pos] != '-') r.pos++;  // Moves it back to the last minus sign
-          return mem.New<DoubleSubtract>(
-              ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
-        }
-      }
-    }
+    if (FindBinaryOperator(r, '-'))
+      return mem.New<DoubleSubtract>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
     if (r << '*')
       return mem.New<DoubleMultiply>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
-- 
2.43.0


From 50767a102c5dd0662c2c3ffe8a0eb1d2ce039a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 06/25] fix: IOFileName keeps directories containing .g or .e
 and names containing blanks

---
 src/nimble_parser.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index fd63ec9..d266ce5 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -65,10 +65,11 @@ IOFileName(
   if (serial_name == "none") { return serial_name; }
 
   std::string file_name = serial_name;
-  size_t      pos       = file_name.rfind(".g");
-  if (pos != std::string::npos) { file_name = file_name.substr(0, pos); }
+  // strip off .g or .e suffix (a .g or .e in the directory part is not a suffix)
+  size_t pos = file_name.rfind(".g");
+  if (pos != std::string::npos && file_name.find('/', pos) == std::string::npos) { file_name = file_name.substr(0, pos); }
   pos = file_name.rfind(".e");
-  if (pos != std::string::npos) { file_name = file_name.substr(0, pos); }
+  if (pos != std::string::npos && file_name.find('/', pos) == std::string::npos) { file_name = file_name.substr(0, pos); }
   if (!label.empty()) { file_name += "." + label; }
   file_name += "." + extension;
   if (num_ranks > 1) {
@@ -81,8 +82,7 @@ IOFileName(
     ss << file_name << "." << num_ranks << ".";
     for (int i = 0; i < num_zero_padding; i++) { ss << 0; }
     ss << my_rank;
-    // file_name += ss.str(); // DJL not thread safe??
-    ss >> file_name;
+    file_name = ss.str();
   }
   return file_name;
 }
-- 
2.43.0


From 94d4c1ca583ea74b6d6ccf8ce5d3fd518b96645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 07/25] fix: input deck lines of blanks only, indented comments
 and lines of 1000 characters or more

---
 src/nimble_parser.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index d266ce5..0650a3d 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -196,7 +196,6 @@ Parser::Initialize()
 void
 Parser::ReadFile()
 {
-  int         max_chars_per_line = 1000;
   std::string delimiter(" ");
 
   std::ifstream fin;
@@ -207,9 +206,8 @@ Parser::ReadFile()
   }
 
   while (!fin.eof()) {
-    char buf[max_chars_per_line];
-    fin.getline(buf, max_chars_per_line);
-    std::string line(buf);
+    std::string line;
+    std::getline(fin, line);
 
     // Strip out comments (# character)
     size_t pound_pos = line.find("#");
@@ -218,7 +216,8 @@ Parser::ReadFile()
     if (line.size() > 0) {
       size_t start_pos = line.find_first_not_of(" \t");
       size_t end_pos   = line.find_last_not_of(" \t");
-      line             = line.substr(start_pos, end_pos - start_pos + 1);
+      // Lines consisting of whitespace only are blank
+      line = (start_pos == std::string::npos) ? std::string() : line.substr(start_pos, end_pos - start_pos + 1);
     }
 
     if (line.size() > 0) {
-- 
2.43.0


From ec31a7c4f034ff0528dd9d68e0ecf59662cd73dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:07 +0000
Subject: [PATCH 08/25] fix: node sets and side sets are read whatever the
 number of their distribution factors

---
 src/nimble_genesis_mesh.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index a31a3bd..54bb6ef 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -176,7 +176,7 @@ GenesisMesh::ReadFile(std::string file_name)
     retval = ex_get_set_param(exodus_file_id, EX_NODE_SET, id, &num_nodes_in_ns, &num_dist_factors_in_ns);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_param");
     node_sets_[id] = std::vector<int>();
-    if (num_nodes_in_ns > 0 && num_dist_factors_in_ns == num_nodes_in_ns) {
+    if (num_nodes_in_ns > 0) {
       node_sets_[id] = std::vector<int>(num_nodes_in_ns);
       retval         = ex_get_set(exodus_file_id, EX_NODE_SET, id, &node_sets_[id][0], NULL);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set");
@@ -184,7 +184,7 @@ GenesisMesh::ReadFile(std::string file_name)
       for (unsigned int j = 0; j < node_sets_[id].size(); j++) { node_sets_[id][j] -= 1; }
     }
     ns_distribution_factors_[id] = std::vector<double>();
-    if (num_nodes_in_ns > 0) {
+    if (num_nodes_in_ns > 0 && num_dist_factors_in_ns > 0) {
       ns_distribution_factors_[id] = std::vector<double>(num_dist_factors_in_ns);
       retval = ex_get_set_dist_fact(exodus_file_id, EX_NODE_SET, id, &ns_distribution_factors_[id][0]);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_dist_fact");
@@ -217,7 +217,7 @@ GenesisMesh::ReadFile(std::string file_name)
     retval = ex_get_set_param(exodus_file_id, EX_SIDE_SET, id, &num_nodes_in_ss, &num_dist_factors_in_ss);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_param");
     side_sets_[id] = std::vector<int>();
-    if (num_nodes_in_ss > 0 && num_dist_factors_in_ss == num_nodes_in_ss) {
+    if (num_nodes_in_ss > 0) {
       side_sets_[id] = std::vector<int>(num_nodes_in_ss);
       retval         = ex_get_set(exodus_file_id, EX_SIDE_SET, id, &side_sets_[id][0], NULL);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set");
@@ -225,7 +225,7 @@ GenesisMesh::ReadFile(std::string file_name)
       for (unsigned int j = 0; j < side_sets_[id].size(); j++) { side_sets_[id][j] -= 1; }
     }
     ss_distribution_factors_[id] = std::vector<double>();
-    if (num_nodes_in_ss > 0) {
+    if (num_nodes_in_ss > 0 && num_dist_factors_in_ss > 0) {
       ss_distribution_factors_[id] = std::vector<double>(num_dist_factors_in_ss);
       retval = ex_get_set_dist_fact(exodus_file_id, EX_SIDE_SET, id, &ss_distribution_factors_[id][0]);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_dist_fact");
-- 
2.43.0


From a6ab7b190be0618bc56b45f2cdfdf258fae3439f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:07 +0000
Subject: [PATCH 09/25] fix: ReadTextFile lists the blocks among all blocks of
 the mesh

---
 src/nimble_genesis_mesh.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index 54bb6ef..71eb7ec 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -386,6 +386,8 @@ GenesisMesh::ReadTextFile(std::string file_name)
       ss >> block_id >> block_name >> num_elem_in_block >> num_nodes_per_elem;
       block_ids_.push_back(block_id);
       block_names_[block_id]              = block_name;
+      all_block_ids_.push_back(block_id);
+      all_block_names_[block_id]          = block_name;
       block_num_nodes_per_elem_[block_id] = num_nodes_per_elem;
       block_elem_connectivity_[block_id]  = std::vector<int>(num_elem_in_block * num_nodes_per_elem);
       block_elem_global_ids_[block_id]    = std::vector<int>(num_elem_in_block);
-- 
2.43.0


From 5a9bda71c9e69aecc28cabccc31c1c166f6e03e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:07 +0000
Subject: [PATCH 10/25] fix: name of the two-dimensional triangle element

---
 src/nimble_genesis_mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index 71eb7ec..1f80013 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -487,7 +487,7 @@ GenesisMesh::GetElementType(int block_id) const
 
   if (dim == 2) {
     switch (num_node_per_elem) {
-      case 3: elem_type = "TRIANGLE:"; break;
+      case 3: elem_type = "TRIANGLE"; break;
       case 4: elem_type = "QUAD"; break;
       default: elem_type = "UNKNOWN"; break;
     }
-- 
2.43.0


From 8ebbb642f59a9bfc6711eff0acaf0ce1e2dcc800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:19 +0000
Subject: [PATCH 11/25] fix: mpicontext::gather splits the lists at their own
 lengths

---
 src/nimble.mpi.mpicontext.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nimble.mpi.mpicontext.h b/src/nimble.mpi.mpicontext.h
index e4e4e41..eaada3f 100644
--- a/src/nimble.mpi.mpicontext.h
+++ b/src/nimble.mpi.mpicontext.h
@@ -214,11 +214,11 @@ class mpicontext
 
       // Step 3: Copy data from a contiguous block into a vector of vectors.
       std::vector<std::vector<int>> result(this->get_size());
-      int *                         start_iter = destination.data(), *end_iter = destination.data() + recv_counts[0];
+      int*                          start_iter = destination.data();
       for (size_t i = 0; i < result.size(); ++i) {
-        result[i]  = std::vector<int>(start_iter, end_iter);
-        start_iter = end_iter;
-        end_iter += recv_counts[i];
+        int* end_iter = start_iter + recv_counts[i];
+        result[i]     = std::vector<int>(start_iter, end_iter);
+        start_iter    = end_iter;
       }
       // Return result
       return result;
-- 
2.43.0


From ae6718db0d3867d7004565c50b949c3edd5f4671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:19 +0000
Subject: [PATCH 12/25] fix: mpicontext::scatter sends the lists and returns
 the list of the root

---
 src/nimble.mpi.mpicontext.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nimble.mpi.mpicontext.h b/src/nimble.mpi.mpicontext.h
index eaada3f..9421cbc 100644
--- a/src/nimble.mpi.mpicontext.h
+++ b/src/nimble.mpi.mpicontext.h
@@ -250,8 +250,10 @@ class mpicontext
       std::vector<int> source_made_contiguous(std::accumulate(send_counts.begin(), send_counts.end(), 0), 0);
 
       std::partial_sum(send_counts.begin(), send_counts.end() - 1, displacements.data() + 1);
+      for (size_t i = 0; i < send_counts.size(); ++i)
+        std::copy(source[i].begin(), source[i].end(), source_made_contiguous.begin() + displacements[i]);
       MPI_Scatterv(
-          source.data(),
+          source_made_contiguous.data(),
           send_counts.data(),
           displacements.data(),
           MPI_INT,
@@ -260,6 +262,7 @@ class mpicontext
           MPI_INT,
           root,
           this->get_comm());
+      return destination;
     } else {
       int recvcount;
       MPI_Scatter(0, 0, MPI_INT, &recvcount, 1, MPI_INT, root, this->get_comm());
@@ -267,7 +270,6 @@ class mpicontext
       MPI_Scatterv(0, 0, 0, MPI_INT, recvbuff.data(), recvcount, MPI_INT, root, this->get_comm());
       return recvbuff;
     }
-    return std::vector<int>();
   }
 
   template <size_t count>
-- 
2.43.0


From baa6a5b1019741456e6deb3a35ca00ef23dfcbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:01 +0000
Subject: [PATCH 13/25] fix: refuse blocks whose elements are not eight-node
 hexahedra

Blocks of tetrahedra or quadrilaterals were processed as hexahedra, which
read the connectivity past its end and gave meaningless results.
---
 src/nimble_kokkos_model_data.cc | 6 ++++++
 src/nimble_model_data.cc        | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/nimble_kokkos_model_data.cc b/src/nimble_kokkos_model_data.cc
index 8f5957b..a6806fa 100644
--- a/src/nimble_kokkos_model_data.cc
+++ b/src/nimble_kokkos_model_data.cc
@@ -910,6 +910,12 @@ ModelData::InitializeBlocks(
   std::vector<int> block_ids = mesh_.GetBlockIds();
   for (int i = 0; i < num_blocks; i++) {
     int                block_id                  = block_ids.at(i);
+    // the blocks are made of eight-node hexahedra
+    if (mesh_.GetNumElementsInBlock(block_id) > 0 && mesh_.GetElementType(block_id) != "HEX") {
+      throw std::invalid_argument(
+          "\nError:  Block " + std::to_string(block_id) + " contains " + mesh_.GetElementType(block_id) +
+          " elements, only HEX elements are supported.\n");
+    }
     std::string const& model_material_parameters = parser_.GetModelMaterialParameters(block_id);
     int                num_elements_in_block     = mesh_.GetNumElementsInBlock(block_id);
     blocks_[block_id]                            = nimble_kokkos::Block();
diff --git a/src/nimble_model_data.cc b/src/nimble_model_data.cc
index 24a8210..b8767c5 100644
--- a/src/nimble_model_data.cc
+++ b/src/nimble_model_data.cc
@@ -46,6 +46,8 @@
 #include <algorithm>
 #include <cctype>
 #include <sstream>
+#include <stdexcept>
+#include <string>
 
 #include "nimble_data_manager.h"
 #include "nimble_genesis_mesh.h"
@@ -426,6 +428,12 @@ ModelData::EmplaceBlocks(
 
   const std::vector<int>& block_ids = mesh_.GetBlockIds();
   for (int block_id : block_ids) {
+    // the blocks are made of eight-node hexahedra
+    if (mesh_.GetNumElementsInBlock(block_id) > 0 && mesh_.GetElementType(block_id) != "HEX") {
+      throw std::invalid_argument(
+          "\nError:  Block " + std::to_string(block_id) + " contains " + mesh_.GetElementType(block_id) +
+          " elements, only HEX elements are supported.\n");
+    }
     std::string const& model_material_parameters = parser_.GetModelMaterialParameters(block_id);
     auto               block_ptr                 = std::shared_ptr<nimble::Block>(new TBlock());
     block_ptr->Initialize(model_material_parameters, *material_factory_ptr);
-- 
2.43.0


From 003451ad12cadef45ae495ea8c2db2cca2fc9390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:04 +0000
Subject: [PATCH 14/25] fix: quasistatic runs use the host model data

The quasistatic integrator needs nimble::ModelData, but the data manager
always created the Kokkos one, so every quasistatic run was refused with
"Incompatible Model Data".
---
 src/nimble.cc              | 4 ++++
 src/nimble_data_manager.cc | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/nimble.cc b/src/nimble.cc
index 560d38f..b11713a 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -65,6 +65,7 @@
 #include "nimble_kokkos_block_material_interface_factory.h"
 #include "nimble_kokkos_material_factory.h"
 #endif
+#include "nimble_material_factory.h"
 
 #ifdef NIMBLE_HAVE_VT
 #include <vt/transport.h>
@@ -273,6 +274,9 @@ NimbleApplication::CreateCLI(int argc, char **argv)
 std::unique_ptr< MaterialFactoryBase >
 NimbleApplication::CreateMaterialFactory()
 {
+  // the quasistatic integrator works on the host
+  if (impl_->parser_->TimeIntegrationScheme() == "quasistatic")
+    return std::make_unique<nimble::MaterialFactory>();
   return std::make_unique<nimble_kokkos::MaterialFactory>();
 }
 
diff --git a/src/nimble_data_manager.cc b/src/nimble_data_manager.cc
index 061dfed..c32d47a 100644
--- a/src/nimble_data_manager.cc
+++ b/src/nimble_data_manager.cc
@@ -109,6 +109,9 @@ DataManager::Initialize()
 #else
     NIMBLE_ABORT(" Wrong environment !\n");
 #endif
+  } else if (parser_.TimeIntegrationScheme() == "quasistatic") {
+    // the quasistatic integrator works on the host
+    model_data_ = std::make_shared<nimble::ModelData>();
   } else {
     model_data_ = std::make_shared<nimble_kokkos::ModelData>();
   }
-- 
2.43.0


From 22c0b9a76ef77a7cdde7d137b4facd3e04f44175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:04 +0000
Subject: [PATCH 15/25] fix: quasistatic residual norm covers all unknowns

Only the first num_nodes of the num_nodes * dim residual entries were
looked at, so out-of-balance forces at the other unknowns were taken for
equilibrium.
---
 src/integrators/quasistatic_time_integrator.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index 2435a45..f891c0b 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -68,9 +68,8 @@ ComputeQuasistaticResidual(
     double*                           residual_vector,
     bool                              is_output_step)
 {
-  const int dim          = mesh.GetDim();
-  const int num_nodes    = static_cast<int>(mesh.GetNumNodes());
-  const int num_unknowns = num_nodes * mesh.GetDim();
+  const int dim       = mesh.GetDim();
+  const int num_nodes = static_cast<int>(mesh.GetNumNodes());
 
   auto model_data = data_manager.GetModelData();
 
@@ -95,11 +94,13 @@ ComputeQuasistaticResidual(
   }
   bc.ModifyRHSForKinematicBC(linear_system_global_node_ids.data(), residual_vector);
 
-  double l2_norm = InnerProduct(num_nodes, residual_vector, residual_vector);
+  double l2_norm = InnerProduct(linear_system_num_unknowns, residual_vector, residual_vector);
   l2_norm        = sqrt(l2_norm);
 
   double infinity_norm(0.0);
-  for (int i = 0; i < num_nodes; i++) { infinity_norm = std::max(infinity_norm, std::abs(residual_vector[i])); }
+  for (int i = 0; i < linear_system_num_unknowns; i++) {
+    infinity_norm = std::max(infinity_norm, std::abs(residual_vector[i]));
+  }
 #ifdef NIMBLE_HAVE_MPI
   double restmp = infinity_norm;
   MPI_Allreduce(&restmp, &infinity_norm, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
-- 
2.43.0


From bd9ce2b45ac6496608d6acea3c45b5ebdfc0c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:04 +0000
Subject: [PATCH 16/25] fix: quasistatic convergence is judged by the residual

A step that converged in the last permitted iteration was reported as
failed, and one whose residual is not a number as converged.
---
 src/integrators/quasistatic_time_integrator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index f891c0b..07e8e11 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -397,7 +397,7 @@ QuasistaticTimeIntegrator::Integrate()
 
     }  // while (residual > convergence_tolerance ... )
 
-    if (iteration == max_nonlinear_iterations) {
+    if (!(residual <= convergence_tolerance)) {
       if (my_rank == 0) {
         std::cout << "\n**** Nonlinear solver failed to converge!\n" << std::endl;
         std::cout << "**** Relevant input deck parameters for the nonlinear solver:" << std::endl;
-- 
2.43.0


From 3553b315d2677f520c796c688fb0f6cff73b7f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:20 +0000
Subject: [PATCH 17/25] fix: quasistatic element data belong to the accepted
 displacement

When the full Newton step is better than the line search, displacement and
force were taken from it but stress and deformation gradient stayed those of
the line search.
---
 src/integrators/quasistatic_time_integrator.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index 07e8e11..57bc8c8 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -382,10 +382,20 @@ QuasistaticTimeIntegrator::Integrate()
 
       // if the alpha = 1.0 result was better, use alpha = 1.0
       if (trial_residual < residual) {
-        residual = trial_residual;
         displacement.copy(trial_displacement);
-        internal_force.copy(trial_internal_force);
-        for (int i = 0; i < linear_system_num_unknowns; i++) { residual_vector[i] = trial_residual_vector[i]; }
+        // recompute so that the element data belong to this displacement as well
+        residual = ComputeQuasistaticResidual(
+            mesh,
+            data_manager,
+            bc,
+            linear_system_num_unknowns,
+            linear_system_global_node_ids,
+            time_previous,
+            time_current,
+            displacement,
+            internal_force,
+            residual_vector.data(),
+            is_output_step);
       }
 
       iteration += 1;
-- 
2.43.0


From 0a1cad394af7cb80ccaf5c9b4d55ffe8dee17c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:26 +0000
Subject: [PATCH 18/25] fix: rows without entries of a sparse matrix

Their start stayed 0, so that no entry of the row before them was found and
setting that row did nothing.
---
 src/nimble_linear_solver.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/nimble_linear_solver.cc b/src/nimble_linear_solver.cc
index 0f8d83d..e5388b5 100644
--- a/src/nimble_linear_solver.cc
+++ b/src/nimble_linear_solver.cc
@@ -68,10 +68,8 @@ CRSMatrixContainer::AllocateNonzeros(std::vector<int> const& i_index, std::vecto
   int current_row = -1;
   for (int i = 0; i < i_index_.size(); i++) {
     int row = i_index_[i];
-    if (row > current_row) {
-      row_first_index_[row] = i;
-      current_row           = row;
-    }
+    // rows without entries start, and end, where the next one starts
+    while (current_row < row) { row_first_index_[++current_row] = i; }
   }
   row_first_index_[num_rows_] = i_index_.size();
 }
-- 
2.43.0


From a3eed00c7ccf079bdb69c5e2fec00e617b35b759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:26 +0000
Subject: [PATCH 19/25] fix: the last row of a diagonal matrix has an end

Access to its entry and setting that row read past the end of the row starts.
---
 src/nimble_linear_solver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nimble_linear_solver.h b/src/nimble_linear_solver.h
index 0c6ae96..790a63d 100644
--- a/src/nimble_linear_solver.h
+++ b/src/nimble_linear_solver.h
@@ -133,7 +133,8 @@ class CRSMatrixContainer
     data_.resize(num_rows_);
     i_index_.resize(num_rows_);
     j_index_.resize(num_rows_);
-    row_first_index_.resize(num_rows_);
+    row_first_index_.resize(num_rows_ + 1);
+    row_first_index_[num_rows_] = num_rows_;
     for (int i = 0; i < num_rows_; i++) {
       data_[i]            = 0.0;
       i_index_[i]         = i;
-- 
2.43.0


From 9ce4bdd11da07dfe1c886ad3d0262fe4571cd0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:40 +0000
Subject: [PATCH 20/25] fix: explicit runs impose the kinematic conditions of
 the initial time at the start, not those of time 0

---
 src/integrators/explicit_time_integrator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index c3bfa32..9e45e9e 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -144,7 +144,7 @@ ExplicitTimeIntegrator::Integrate()
 
   watch_simulation.push_region("BC enforcement");
   model_data.ApplyInitialConditions(data_manager);
-  model_data.ApplyKinematicConditions(data_manager, 0.0, 0.0);
+  model_data.ApplyKinematicConditions(data_manager, initial_time, initial_time);
   watch_simulation.pop_region_and_report_time();
 
   data_manager.WriteOutput(time_current);
-- 
2.43.0


From 1403d60678d4c731bf54d5e75b130026be8ee82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:28 +0000
Subject: [PATCH 21/25] fix: the stable time step is the least over all ranks

---
 src/integrators/explicit_time_integrator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index 9e45e9e..ee67642 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -123,6 +123,10 @@ ExplicitTimeIntegrator::Integrate()
   model_data.ComputeLumpedMass(data_manager);
 
   double     critical_time_step = model_data.GetCriticalTimeStep();
+#ifdef NIMBLE_HAVE_MPI
+  // the elements are distributed over the ranks
+  MPI_Allreduce(MPI_IN_PLACE, &critical_time_step, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
+#endif
   auto const lumped_mass        = model_data.GetScalarNodeData("lumped_mass");
 
   double initial_time = parser.InitialTime();
-- 
2.43.0


From 9196ce97b9a12e956e1eeb5aad8f5eb6485fe286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:25 +0000
Subject: [PATCH 22/25] fix: --use_uq turns on the UQ capability

---
 src/nimble_cli.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_cli.cc b/src/nimble_cli.cc
index 66c5ecb..b548b78 100644
--- a/src/nimble_cli.cc
+++ b/src/nimble_cli.cc
@@ -98,7 +98,7 @@ CommandLineConfiguration::ConfigureCommandLineArguments() {
 #endif
           });
 
-  impl_->cli_app_.add_flag("--use_uq", impl_->use_vt_, "Use UQ capability")->check([](const std::string&) -> std::string {
+  impl_->cli_app_.add_flag("--use_uq", impl_->use_uq_, "Use UQ capability")->check([](const std::string&) -> std::string {
 #ifdef NIMBLE_HAVE_UQ
     return {};  // Empty string on success
 #else
-- 
2.43.0


From 0b0b6c4920eb8831346f992ff13d223c457d203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:25 +0000
Subject: [PATCH 23/25] fix: a UQ run uses host materials

---
 src/nimble.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nimble.cc b/src/nimble.cc
index b11713a..6dab3b7 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -274,8 +274,8 @@ NimbleApplication::CreateCLI(int argc, char **argv)
 std::unique_ptr< MaterialFactoryBase >
 NimbleApplication::CreateMaterialFactory()
 {
-  // the quasistatic integrator works on the host
-  if (impl_->parser_->TimeIntegrationScheme() == "quasistatic")
+  // the quasistatic integrator and the UQ model data work on the host
+  if (impl_->parser_->TimeIntegrationScheme() == "quasistatic" || impl_->parser_->UseUQ())
     return std::make_unique<nimble::MaterialFactory>();
   return std::make_unique<nimble_kokkos::MaterialFactory>();
 }
-- 
2.43.0


From cf2b073e0dda9b129c87aba4211a8cefd89e0a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:26 +0000
Subject: [PATCH 24/25] fix: a block without uncertain parameters is refused

---
 src/uq/nimble_uq_model_data.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/uq/nimble_uq_model_data.cc b/src/uq/nimble_uq_model_data.cc
index 58c090d..a4196b1 100644
--- a/src/uq/nimble_uq_model_data.cc
+++ b/src/uq/nimble_uq_model_data.cc
@@ -45,6 +45,7 @@
 
 #include "nimble_uq_model_data.h"
 
+#include <algorithm>
 #include <map>
 
 #include "nimble_boundary_condition_manager.h"
@@ -82,6 +83,11 @@ ModelData::InitializeBlocks(
     std::string const& nominal_params_string   = parser_.GetModelMaterialParameters(block_id);
     bool               block_id_present = std::find(block_ids.begin(), block_ids.end(), block_id) != block_ids.end();
     uq_model_->ParseBlockInput(uq_params_this_material, block_id, nominal_params_string, material_factory_base, block_id_present, blocks_);
+    block_ids.erase(std::remove(block_ids.begin(), block_ids.end(), block_id), block_ids.end());
+  }
+  // a block without uncertain parameters is refused
+  for (int block_id : block_ids) {
+    uq_model_->ParseBlockInput("none", block_id, "", material_factory_base, true, blocks_);
   }
   //
   uq_model_->Initialize();
-- 
2.43.0


From 9a94289972ccf525668bc1188b72cc44f70c31f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:26 +0000
Subject: [PATCH 25/25] fix: sum over the ranks only the forces of exact
 samples

---
 src/uq/nimble_uq_model_data.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uq/nimble_uq_model_data.cc b/src/uq/nimble_uq_model_data.cc
index a4196b1..5c21709 100644
--- a/src/uq/nimble_uq_model_data.cc
+++ b/src/uq/nimble_uq_model_data.cc
@@ -215,7 +215,7 @@ ModelData::ComputeInternalForce(
   constexpr int vector_dimension = 3;
   vector_comm->VectorReduction(vector_dimension, force.data());
   int num_exact_trajectories = uq_model_->GetNumExactSamples();
-  for(int i=0; i <= num_exact_trajectories; i++){
+  for(int i=0; i < num_exact_trajectories; i++){
     vector_comm->VectorReduction(vector_dimension,uq_model_->Forces()[i]);
   }
 
-- 
2.43.0

