From c0720e86ea8baa113895c65fe9e5f61a5fff686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 01/12] fix: TransposeMultiply passes the offset array first to
 the scatter/gather kernels

---
 src/math/CompressedMatrix.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/CompressedMatrix.cc b/src/math/CompressedMatrix.cc
index 4659d11..55e4c1f 100644
--- a/src/math/CompressedMatrix.cc
+++ b/src/math/CompressedMatrix.cc
@@ -567,11 +567,11 @@ void CompressedMatrix<DoubleType>::TransposeMultiply(const DoubleVec_t<DoubleTyp
   const DoubleVec_t<DoubleType> &Vals = this->GetReal();
   if (compressionType_ == CompressionType::CCM)
   {
-    RowScaleMultiply(Rows, Cols, Vals, x, y);
+    RowScaleMultiply(Cols, Rows, Vals, x, y);
   }
   else if (compressionType_ == CompressionType::CRM)
   {
-    ColScaleMultiply(Cols, Rows, Vals, x, y);
+    ColScaleMultiply(Rows, Cols, Vals, x, y);
   }
 }
 
@@ -603,11 +603,11 @@ void CompressedMatrix<DoubleType>::TransposeMultiply(const ComplexDoubleVec_t<Do
   const ComplexDoubleVec_t<DoubleType> &Vals = this->GetComplex();
   if (compressionType_ == CompressionType::CCM)
   {
-    RowScaleMultiply(Rows, Cols, Vals, x, y);
+    RowScaleMultiply(Cols, Rows, Vals, x, y);
   }
   else if (compressionType_ == CompressionType::CRM)
   {
-    ColScaleMultiply(Cols, Rows, Vals, x, y);
+    ColScaleMultiply(Rows, Cols, Vals, x, y);
   }
 }
 }
-- 
2.43.0


From 5824e195ab44e32e6d82972ee7dca3342c7ebbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 02/12] fix: ClearMatrix sizes the pending entries by the
 matrix dimension, not the stored entry count

---
 src/math/CompressedMatrix.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/CompressedMatrix.cc b/src/math/CompressedMatrix.cc
index 55e4c1f..0a4a624 100644
--- a/src/math/CompressedMatrix.cc
+++ b/src/math/CompressedMatrix.cc
@@ -476,11 +476,11 @@ void CompressedMatrix<DoubleType>::ClearMatrix()
   }
 
   OutOfBandEntries_Real.clear();
-  OutOfBandEntries_Real.resize(sz);
+  OutOfBandEntries_Real.resize(this->size());
   if (GetMatrixType() == MatrixType::COMPLEX)
   {
     OutOfBandEntries_Imag.clear();
-    OutOfBandEntries_Imag.resize(sz);
+    OutOfBandEntries_Imag.resize(this->size());
   }
 }
 
-- 
2.43.0


From cd7f4466dd290779a30702456bfd9df334e4e1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:09 +0000
Subject: [PATCH 03/12] fix: coupling weighted tetrahedron values on nodes use
 all six edges

---
 src/models/TetrahedronEdgeModel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/TetrahedronEdgeModel.cc b/src/models/TetrahedronEdgeModel.cc
index 55a5582..1d5e290 100644
--- a/src/models/TetrahedronEdgeModel.cc
+++ b/src/models/TetrahedronEdgeModel.cc
@@ -205,7 +205,7 @@ void TetrahedronEdgeModel::GetScalarValuesOnNodes(TetrahedronEdgeModel::Interpol
     for (size_t i = 0; i < number_tetrahedron; ++i)
     {
       const ConstEdgeDataList &cel = ttcedl[i];
-      for (size_t j = 0; j < 3; ++j)
+      for (size_t j = 0; j < 6; ++j)
       {
         const Edge &edge = *((*cel[j]).edge);
         const size_t ni0 = edge.GetHead()->GetIndex();
-- 
2.43.0


From 5f3b835592fab566f78f54557fc67da0ab05358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:25 +0000
Subject: [PATCH 04/12] fix: report the node of the largest relative error in
 Equation::DefaultUpdate

---
 src/Equation/Equation.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Equation/Equation.cc b/src/Equation/Equation.cc
index bde16dd..fd788f4 100644
--- a/src/Equation/Equation.cc
+++ b/src/Equation/Equation.cc
@@ -286,6 +286,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
     DoubleType aerr = 0.0;
     DoubleType rerr = 0.0;
     size_t     aerr_node = 0;
+    size_t     rerr_node = 0;
 
     for (size_t i = 0; i < upds.size(); ++i)
     {
@@ -304,6 +305,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
         if (nrerror > rerr)
         {
             rerr = nrerror;
+            rerr_node = i;
         }
 
     }
@@ -311,7 +313,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
     setAbsError(aerr);
     setRelError(rerr);
     setAbsErrorNodeIndex(aerr_node);
-    setRelErrorNodeIndex(aerr_node);
+    setRelErrorNodeIndex(rerr_node);
 //    dsErrors::EquationMathErrorInfo(*this, rerr, aerr, OutputStream::OutputType::INFO);
 }
 
-- 
2.43.0


From 32994ec8d19f93e5f500eafea1e2efb027fcc2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:39 +0000
Subject: [PATCH 05/12] fix: replacing an equation with another variable
 removes the mapping of the old variable

---
 src/Geometry/Region.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index 03d4b25..d89e753 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -1149,7 +1149,7 @@ void Region::AddEquation(EquationHolder &eq)
             "Region: " << this->GetName() << ", Equation: " << nm << ", Old variable: " << oeq.GetVariable() << ", New Variable: " << var << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
 
-        variableEquationMap.erase(var);
+        variableEquationMap.erase(oeq.GetVariable());
         variableEquationMap[var] = nm;
       }
       else
-- 
2.43.0


From 5e3ab12e24b16cce969dac40e9c282548ee644e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:36 +0000
Subject: [PATCH 06/12] fix: refuse to replace an equation when its new
 variable belongs to another equation

---
 src/Geometry/Region.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index d89e753..ed6e161 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -1144,6 +1144,14 @@ void Region::AddEquation(EquationHolder &eq)
     {
       if (oeq.GetVariable() != var)
       {
+        if (variableEquationMap.count(var))
+        {
+          std::ostringstream eos;
+          eos << "ERROR: Can't replace equation if its new variable is already being used\n"
+              << "Equation: " << nm << ", Other Equation: " << variableEquationMap[var] << ", Variable: "  << var << "\n";
+          GeometryStream::WriteOut(OutputStream::OutputType::FATAL, *this, eos.str());
+        }
+
         std::ostringstream os;
         os << "Warning: Adding a new equation by the same name with a different variable will remove mapping to other variable.\n"
             "Region: " << this->GetName() << ", Equation: " << nm << ", Old variable: " << oeq.GetVariable() << ", New Variable: " << var << "\n";
-- 
2.43.0


From e377b73029eb57ead7000db6a0edd418f0d59e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:50 +0000
Subject: [PATCH 07/12] fix: a contact equation skips a shared node only when
 the other contact has an equation of the same name

---
 src/Equation/ContactEquation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Equation/ContactEquation.cc b/src/Equation/ContactEquation.cc
index dd4bd4c..02bf12a 100644
--- a/src/Equation/ContactEquation.cc
+++ b/src/Equation/ContactEquation.cc
@@ -137,7 +137,7 @@ ConstNodeList_t ContactEquation<DoubleType>::GetActiveNodes() const
           else
           {
 
-            const ContactEquationPtrMap_t &cepm = contact.GetEquationPtrList();
+            const ContactEquationPtrMap_t &cepm = ocontact.GetEquationPtrList();
 
             for (ContactEquationPtrMap_t::const_iterator cepmit = cepm.begin(); cepmit != cepm.end(); ++cepmit)
             {
-- 
2.43.0


From 7b4afcdcc40ea6a69ec56eeb75d68e952fd03b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:04 +0000
Subject: [PATCH 08/12] fix: enter the circuit node derivative of a contact
 equation once, not once per variable

---
 src/Equation/ContactEquation.cc | 126 ++++++++++++++++----------------
 1 file changed, 63 insertions(+), 63 deletions(-)

diff --git a/src/Equation/ContactEquation.cc b/src/Equation/ContactEquation.cc
index 02bf12a..d0180f1 100644
--- a/src/Equation/ContactEquation.cc
+++ b/src/Equation/ContactEquation.cc
@@ -1558,48 +1558,48 @@ void ContactEquation<DoubleType>::AssembleEdgeEquationOnCircuit(const std::strin
           m.push_back(dsMath::RealRowColVal<DoubleType>(crow, col, val));
         }
       }
+    }
 
+    {
+      std::string dermodel = emodel;
+      dermodel += ":" + circuitnode;
+      ConstEdgeModelPtr edm = region.GetEdgeModel(dermodel);
+      if (!edm)
       {
-        std::string dermodel = emodel;
-        dermodel += ":" + circuitnode;
-        ConstEdgeModelPtr edm = region.GetEdgeModel(dermodel);
-        if (!edm)
-        {
-          dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
-        }
-        else
-        {
-          EdgeScalarData<DoubleType> edd(*ec);
-          edd.times_equal_model(*edm);
+        dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
+      }
+      else
+      {
+        EdgeScalarData<DoubleType> edd(*ec);
+        edd.times_equal_model(*edm);
 
-          const Region::NodeToConstEdgeList_t &ntelist = region.GetNodeToEdgeList();
+        const Region::NodeToConstEdgeList_t &ntelist = region.GetNodeToEdgeList();
 
-          for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
-          {
-            const ConstEdgeList &el = ntelist[(*cit)->GetIndex()];
+        for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
+        {
+          const ConstEdgeList &el = ntelist[(*cit)->GetIndex()];
 
-            for (ConstEdgeList::const_iterator it = el.begin() ; it != el.end(); ++it)
+          for (ConstEdgeList::const_iterator it = el.begin() ; it != el.end(); ++it)
+          {
+            if (bothNodesOnContact(cnode_set, **it, n0_sign, n1_sign))
             {
-              if (bothNodesOnContact(cnode_set, **it, n0_sign, n1_sign))
-              {
-                continue;
-              }
+              continue;
+            }
 
-              const  size_t eind = (*it)->GetIndex();
-              const DoubleType val = edd[eind];
+            const  size_t eind = (*it)->GetIndex();
+            const DoubleType val = edd[eind];
 
-              if ((*it)->GetHead() == (*cit))
-              {
-                m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n0_sign * val));
-              }
-              else if ((*it)->GetTail() == (*cit))
-              {
-                m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n1_sign * val));
-              }
-              else
-              {
-                dsAssert(0, "UNEXPECTED");
-              }
+            if ((*it)->GetHead() == (*cit))
+            {
+              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n0_sign * val));
+            }
+            else if ((*it)->GetTail() == (*cit))
+            {
+              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, n1_sign * val));
+            }
+            else
+            {
+              dsAssert(0, "UNEXPECTED");
             }
           }
         }
@@ -1809,45 +1809,45 @@ void ContactEquation<DoubleType>::AssembleTriangleEdgeEquationOnCircuit(const st
           m.push_back(dsMath::RealRowColVal<DoubleType>(crow, col, val));
         }
       }
+    }
 
+    {
+      std::string dermodel = emodel;
+      dermodel += ":" + circuitnode;
+      ConstTriangleEdgeModelPtr edm = region.GetTriangleEdgeModel(dermodel);
+      if (!edm)
       {
-        std::string dermodel = emodel;
-        dermodel += ":" + circuitnode;
-        ConstTriangleEdgeModelPtr edm = region.GetTriangleEdgeModel(dermodel);
-        if (!edm)
-        {
-          dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
-        }
-        else
-        {
-          TriangleEdgeScalarData<DoubleType> edd(*ec);
-          edd.times_equal_model(*edm);
+        dsErrors::MissingContactEquationModel(region, *this, dermodel, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
+      }
+      else
+      {
+        TriangleEdgeScalarData<DoubleType> edd(*ec);
+        edd.times_equal_model(*edm);
 
-          for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
+        for (ConstNodeList_t::const_iterator cit = cnodes.begin(); cit != cnodes.end(); ++cit)
+        {
+          const ConstTriangleList &ntl = nttlist[(*cit)->GetIndex()];
+          for (ConstTriangleList::const_iterator ti = ntl.begin(); ti != ntl.end(); ++ti)
           {
-            const ConstTriangleList &ntl = nttlist[(*cit)->GetIndex()];
-            for (ConstTriangleList::const_iterator ti = ntl.begin(); ti != ntl.end(); ++ti)
+            const Triangle &triangle = **ti;
+            const size_t tindex = triangle.GetIndex();
+            const ConstEdgeList &edgeList = ttelist[tindex];
+            for (size_t eindex = 0; eindex < edgeList.size(); ++eindex)
             {
-              const Triangle &triangle = **ti;
-              const size_t tindex = triangle.GetIndex();
-              const ConstEdgeList &edgeList = ttelist[tindex];
-              for (size_t eindex = 0; eindex < edgeList.size(); ++eindex)
-              {
-                const Edge &edge = *edgeList[eindex];
+              const Edge &edge = *edgeList[eindex];
 
-                auto val = GetHeadOrTail(edge, *cit, n0_sign, n1_sign, DoubleType(0.0));
+              auto val = GetHeadOrTail(edge, *cit, n0_sign, n1_sign, DoubleType(0.0));
 
-                if ( (val == DoubleType(0.0)) || bothNodesOnContact(cnode_set, edge, n0_sign, n1_sign))
-                {
-                  continue;
-                }
+              if ( (val == DoubleType(0.0)) || bothNodesOnContact(cnode_set, edge, n0_sign, n1_sign))
+              {
+                continue;
+              }
 
-                const size_t vindex = 3 * tindex + eindex;
+              const size_t vindex = 3 * tindex + eindex;
 
-                val *= edd[vindex];
+              val *= edd[vindex];
 
-                m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, val));
-              }
+              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, crow, val));
             }
           }
         }
-- 
2.43.0


From 82bb54240c84f8056f50770bf55b45214838ef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:15 +0000
Subject: [PATCH 09/12] fix: discard the stale copy in the other precision when
 one model value is set

---
 src/models/ModelDataHolder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/models/ModelDataHolder.cc b/src/models/ModelDataHolder.cc
index a574dcf..42c015e 100644
--- a/src/models/ModelDataHolder.cc
+++ b/src/models/ModelDataHolder.cc
@@ -295,6 +295,8 @@ void ModelDataHolder::SetValue(size_t index, const float128 &nv)
 
   float128_values[index] = nv;
 
+  // any copy in the other precision is stale
+  clear_type(MDtype::DOUBLE);
 }
 #endif
 
@@ -317,6 +319,9 @@ void ModelDataHolder::SetValue(size_t index, const double &nv)
     expand_uniform();
 
     double_values[index] = nv;
+
+    // any copy in the other precision is stale
+    clear_type(MDtype::EXTENDED);
   }
 }
 
-- 
2.43.0


From 2aa9afc09b8362f8665480b69a78977a50515a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:15 +0000
Subject: [PATCH 10/12] fix: compare extended precision uniform values with
 zero and one in extended precision

---
 src/models/ModelDataHolder.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/models/ModelDataHolder.cc b/src/models/ModelDataHolder.cc
index 42c015e..7037812 100644
--- a/src/models/ModelDataHolder.cc
+++ b/src/models/ModelDataHolder.cc
@@ -101,12 +101,24 @@ void ModelDataHolder::clear() const
 
 bool ModelDataHolder::IsZero() const
 {
+#ifdef DEVSIM_EXTENDED_PRECISION
+  if (type == MDtype::EXTENDED)
+  {
+    return is_uniform && (float128_uniform_value == 0.0);
+  }
+#endif
   bool ret = is_uniform && (double_uniform_value == 0.0);
   return ret;
 }
 
 bool ModelDataHolder::IsOne() const
 {
+#ifdef DEVSIM_EXTENDED_PRECISION
+  if (type == MDtype::EXTENDED)
+  {
+    return is_uniform && (float128_uniform_value == 1.0);
+  }
+#endif
   bool ret = is_uniform && (double_uniform_value == 1.0);
   return ret;
 }
-- 
2.43.0


From 389e68f7bb8e1b6686e954f56ccfb3770df28449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:41 +0000
Subject: [PATCH 11/12] fix: use the z coordinate in the gradient over
 tetrahedra

---
 src/Geometry/GradientField.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/GradientField.cc b/src/Geometry/GradientField.cc
index 4e007e7..e545eb2 100644
--- a/src/Geometry/GradientField.cc
+++ b/src/Geometry/GradientField.cc
@@ -89,7 +89,7 @@ void GradientField<DoubleType>::CalcMatrices3d() const
   //// Assert fields exist
   ConstNodeModelPtr ux = myregion_->GetNodeModel("x");
   ConstNodeModelPtr uy = myregion_->GetNodeModel("y");
-  ConstNodeModelPtr uz = myregion_->GetNodeModel("y");
+  ConstNodeModelPtr uz = myregion_->GetNodeModel("z");
 
   dsAssert(ux.get(), "UNEXPECTED");
   dsAssert(uy.get(), "UNEXPECTED");
-- 
2.43.0


From 37d3a93a4afc336ef1b7fefca07998478f1c34e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:51 +0000
Subject: [PATCH 12/12] fix: average the one-dimensional gradient once over all
 edges of a node

---
 src/GeomModels/VectorGradient.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/GeomModels/VectorGradient.cc b/src/GeomModels/VectorGradient.cc
index 4bc4736..7756cef 100644
--- a/src/GeomModels/VectorGradient.cc
+++ b/src/GeomModels/VectorGradient.cc
@@ -109,11 +109,11 @@ void VectorGradient<DoubleType>::calc1d() const
         val += vgrad[eindex];
         ++count;
       }
-      if (count != 0)
-      {
-        val /= count;
-        vx[i] = val;
-      }
+    }
+    if (count != 0)
+    {
+      val /= count;
+      vx[i] = val;
     }
   }
 
-- 
2.43.0

