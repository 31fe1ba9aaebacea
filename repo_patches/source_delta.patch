From 99425f1a61eaa40bff68ca4572db971aa5ffd0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 01/95] fix: Element::Conj modified data shared with other
 elements and kept stale fields

---
 Manifolds/Element.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 40d25ab..b999734 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1948,7 +1948,8 @@ namespace ROPTLIB{
         assert(Space != nullptr);
         assert(iscomplex);
         integer num = length / 2;
-        scal_(&num, &GLOBAL::DNONE, Space + 1, &GLOBAL::ITWO);
+        realdp *thisptr = this->ObtainWritePartialData();
+        scal_(&num, &GLOBAL::DNONE, thisptr + 1, &GLOBAL::ITWO);
         return (*this);
     };
 
-- 
2.43.0


From cc67ecc618428167972a3f1795fd2a81d4a70b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 02/95] fix: Element::HaddRankone modified data shared with
 other elements and kept stale fields

---
 Manifolds/Element.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index b999734..4348364 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1617,7 +1617,9 @@ namespace ROPTLIB{
         const realdp *uptr = u.ObtainReadData();
         const realdp *vptr = v.ObtainReadData();
 
-        ger_(&m, &n, &scalar, const_cast<realdp *> (uptr), &GLOBAL::IONE, const_cast<realdp *> (vptr), &GLOBAL::IONE, Space, &m);
+        realdp *thisptr = this->ObtainWritePartialData();
+
+        ger_(&m, &n, &scalar, const_cast<realdp *> (uptr), &GLOBAL::IONE, const_cast<realdp *> (vptr), &GLOBAL::IONE, thisptr, &m);
         
         return *this;
     };
@@ -1633,7 +1635,7 @@ namespace ROPTLIB{
         const realdp *vptr = v.ObtainReadData();
 
         ger_(&m, &n, &scalar, const_cast<realdpcomplex *> ((realdpcomplex *) uptr), &GLOBAL::IONE, const_cast<realdpcomplex *> ((realdpcomplex *) vptr), &GLOBAL::IONE,
-                 (realdpcomplex *) Space, &m);
+                 (realdpcomplex *) this->ObtainWritePartialData(), &m);
         
         return *this;
     };
-- 
2.43.0


From d91fec910a9a3150e7715adcf42eb590e9e09ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 03/95] fix: Element::SubmatrixAssignment lost the other
 entries when the data was shared

---
 Manifolds/Element.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 4348364..51bbf9a 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2238,7 +2238,7 @@ namespace ROPTLIB{
         assert(rend - rstart + 1 == mat.Getrow() && cend - cstart + 1 == mat.Getcol() && mat.Getiscomplex() == iscomplex);
         const realdp *matptr = mat.ObtainReadData();
         integer matrow = mat.Getrow();
-        this->NewMemoryOnWrite();
+        this->ObtainWritePartialData();
         if(!iscomplex)
         {
             for(integer j = cstart; j <= cend; j++)
-- 
2.43.0


From 05c1bdb9e48a4a4be2d241048b00cd3f3351682e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 04/95] fix: assigning an element that already shares its data
 did not copy its shape

---
 Manifolds/SmartSpace.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Manifolds/SmartSpace.cpp b/Manifolds/SmartSpace.cpp
index 9d42f3d..89bc89d 100644
--- a/Manifolds/SmartSpace.cpp
+++ b/Manifolds/SmartSpace.cpp
@@ -85,8 +85,17 @@ namespace ROPTLIB{
 
 	void SmartSpace::CopyTo(SmartSpace &eta) const
 	{
-		if (this == &eta || (eta.Space == Space && !(eta.Space == nullptr && Space == nullptr)))
+		if (this == &eta)
 			return;
+
+		if (eta.Space == Space && Space != nullptr)
+		{
+			/*The data is shared already, but the shape may have been changed since then*/
+			if (eta.ls == ls && eta.length == length)
+				for (integer i = 0; i < ls; i++)
+					eta.size[i] = size[i];
+			return;
+		}
         
 		bool IsSameSize = true;
         
-- 
2.43.0


From d8a422640769bf6ca6f9b84a55cc97e99ffc8ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 05/95] fix: operator+= and operator-= did not change their
 left operand

---
 Manifolds/Element.cpp | 4 ++--
 Manifolds/Element.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 51bbf9a..714c150 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -214,7 +214,7 @@ namespace ROPTLIB{
         return result;
     };
 
-    Element operator+=(Element left, Element right)
+    Element &operator+=(Element &left, Element right)
     {
         assert(left.Getlength() == right.Getlength());
         realdp *leftptr = left.ObtainWritePartialData();
@@ -290,7 +290,7 @@ namespace ROPTLIB{
         return result;
     };
 
-    Element operator-=(Element left, Element right)
+    Element &operator-=(Element &left, Element right)
     {
         assert(left.Getlength() == right.Getlength());
         realdp *leftptr = left.ObtainWritePartialData();
diff --git a/Manifolds/Element.h b/Manifolds/Element.h
index b541cc1..1d99634 100644
--- a/Manifolds/Element.h
+++ b/Manifolds/Element.h
@@ -65,7 +65,7 @@ namespace ROPTLIB{
         friend Element operator+(realdpcomplex left, Element right);
         
         /*left = left + right*/
-        friend Element operator+=(Element left, Element right);
+        friend Element &operator+=(Element &left, Element right);
         
         /*substract an element from another. They have to be both real or complex*/
         friend Element operator-(Element left, Element right);
@@ -83,7 +83,7 @@ namespace ROPTLIB{
         friend Element operator-(realdpcomplex left, Element right);
         
         /*left = left - right*/
-        friend Element operator-=(Element left, Element right);
+        friend Element &operator-=(Element &left, Element right);
         
         /*a element times another, they have to be both real or complex
          This is matrix multiplication*/
-- 
2.43.0


From 744c92e37df5dcc89bb8263b41dd3e565b6e419b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 06/95] fix: Reshape, ScaledIdOPE and CopyOnWrite kept fields
 computed from the old data

---
 Manifolds/Element.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 714c150..ba368bb 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1811,6 +1811,7 @@ namespace ROPTLIB{
 
     Element &Element::Reshape(integer r, integer c, integer n)
     {
+        RemoveAllFromFields();
         if(!iscomplex)
         {
             assert(r * c * n == length);
@@ -2693,6 +2694,7 @@ namespace ROPTLIB{
 
     void Element::CopyOnWrite(void)
     {
+        RemoveAllFromFields();
         SmartSpace::CopyOnWrite();
         ResetMultiElementsParams(powsinterval, numoftypes, elements, numofelements);
     };
@@ -2861,7 +2863,7 @@ namespace ROPTLIB{
             printf("Warning: This is not a square matrix. It can not be assigned to be an identity matrix!\n");
             return;
         }
-        SmartSpace::NewMemoryOnWrite();
+        NewMemoryOnWrite();
         integer ell = size[0];
         for (integer i = 0; i < ell; i++)
         {
-- 
2.43.0


From 278ecdc5606501199efd22a371eee3f82a060932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 07/95] fix: EigenDecomSym reused a cached decomposition of the
 other triangular part

---
 Manifolds/Element.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index ba368bb..fc32133 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -896,6 +896,17 @@ namespace ROPTLIB{
 
     void Element::EigenDecomSym(char *JobZ, char *UorL)
     {
+        /*the cached decomposition can only be used if it was computed from the same triangular part*/
+        realdp isU = (strcmp(UorL, "U") == 0) ? 1 : 0;
+        if(FieldsExist("_EigUorL") && Field("_EigUorL").ObtainReadData()[0] != isU)
+        {
+            RemoveFromFields("_EigVal");
+            RemoveFromFields("_EigVec");
+        }
+        Element EigUorL(1);
+        EigUorL.ObtainWriteEntireData()[0] = isU;
+        AddToFields("_EigUorL", EigUorL);
+        
         if(FieldsExist("_EigVal") && (strcmp(JobZ, "N") == 0))
             return;
         
-- 
2.43.0


From d938854b01f1f6d4266052a52d8d28057c7f6211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 08/95] fix: GetRealInComplex and GetImagInComplex returned a
 half filled complex element

---
 Manifolds/Element.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index fc32133..cd3f1b6 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2558,7 +2558,7 @@ namespace ROPTLIB{
     Element Element::GetRealInComplex(void) const
     {
         assert(iscomplex && Space != nullptr);
-        Element result(Getrow(), Getcol(), Getnum(), "complex");
+        Element result(Getrow(), Getcol(), Getnum());
         realdp *resultptr = result.ObtainWritePartialData();
         for(integer i = 0; i < length / 2; i++)
         {
@@ -2570,7 +2570,7 @@ namespace ROPTLIB{
     Element Element::GetImagInComplex(void) const
     {
         assert(iscomplex && Space != nullptr);
-        Element result(Getrow(), Getcol(), Getnum(), "complex");
+        Element result(Getrow(), Getcol(), Getnum());
         realdp *resultptr = result.ObtainWritePartialData();
         for(integer i = 0; i < length / 2; i++)
         {
-- 
2.43.0


From cef536c97c4971da7fc4b0e5fb57d4f3a0703b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 09/95] fix: a copy of a component of a product element kept
 pointing into the product's memory

---
 Manifolds/SmartSpace.cpp | 33 +++++++++++++++++++++++++++++++++
 Manifolds/SmartSpace.h   |  1 +
 2 files changed, 34 insertions(+)

diff --git a/Manifolds/SmartSpace.cpp b/Manifolds/SmartSpace.cpp
index 89bc89d..7efe44f 100644
--- a/Manifolds/SmartSpace.cpp
+++ b/Manifolds/SmartSpace.cpp
@@ -97,6 +97,37 @@ namespace ROPTLIB{
 			return;
 		}
         
+		/*The data of a component belong to its product element, therefore they are copied, never shared*/
+		if (isview && Space != nullptr && !eta.isview)
+		{
+			if (eta.sharedtimes != nullptr)
+			{
+				(*(eta.sharedtimes))--;
+				if (*(eta.sharedtimes) == 0)
+				{
+					delete eta.sharedtimes;
+					delete[] eta.Space;
+				}
+				eta.sharedtimes = nullptr;
+				eta.Space = nullptr;
+			}
+			if (eta.ls != ls)
+			{
+				delete[] eta.size;
+				eta.size = new integer[ls];
+				eta.ls = ls;
+			}
+			for (integer i = 0; i < ls; i++)
+				eta.size[i] = size[i];
+			eta.length = length;
+			eta.NewMemory();
+			eta.sharedtimes = new integer;
+			*(eta.sharedtimes) = 1;
+			integer N = length, inc = 1;
+			copy_(&N, Space, &inc, eta.Space, &inc);
+			return;
+		}
+
 		bool IsSameSize = true;
         
 		if (eta.ls != ls)
@@ -294,12 +325,14 @@ namespace ROPTLIB{
 		length = inlength;
 		sharedtimes = insharedtimes;
 		Space = inSpace;
+		isview = true;
 	};
 
     void SmartSpace::SetByParams(integer *insharedtimes, realdp *inSpace)
     {
         sharedtimes = insharedtimes;
         Space = inSpace;
+        isview = true;
     };
 
     void SmartSpace::DeleteBySettingNull(void)
diff --git a/Manifolds/SmartSpace.h b/Manifolds/SmartSpace.h
index 173dae9..3daafb7 100644
--- a/Manifolds/SmartSpace.h
+++ b/Manifolds/SmartSpace.h
@@ -108,6 +108,7 @@ namespace ROPTLIB{
 
 		integer *sharedtimes; /*The number of use of the data*/
 		realdp *Space; /*The pointer which points to the data*/
+		bool isview = false; /*true if this is a component of a product element, i.e., Space points into the data of the product element*/
 
 		/*allocate memory*/
 		void NewMemory(void);
-- 
2.43.0


From 5dd07d36137c42e5794656f05756853f79319a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 10/95] fix: assigning a product element left stale fields on
 its components

---
 Manifolds/Element.cpp | 21 ++++++++++++++-------
 Manifolds/Element.h   |  3 +++
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index cd3f1b6..e57ca0a 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2601,16 +2601,13 @@ namespace ROPTLIB{
 
     void Element::CopyTo(Element &eta) const
     {
+        if(this == &eta)
+            return;
+        
         SmartSpace::CopyTo(eta);
         eta.Setiscomplex(iscomplex);
         eta.ResetMultiElementsParams(powsinterval, numoftypes, elements, numofelements);
-        for(integer i = 0; i < numoftypes; i++)
-        {
-            for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
-            {
-                elements[j].CopyFieldsTo(eta.GetElement(j));
-            }
-        }
+        CopyComponentFieldsTo(eta);
         
         MAP::const_iterator thisiter = Fields.begin();
         MAP::const_iterator etaiter, etaiterpre;
@@ -2644,6 +2641,16 @@ namespace ROPTLIB{
         }
     };
 
+    void Element::CopyComponentFieldsTo(Element &eta) const
+    {
+        for(integer i = 0; i < numofelements && i < eta.numofelements; i++)
+        {
+            eta.elements[i].RemoveAllFromFields();
+            elements[i].CopyFieldsTo(eta.elements[i]);
+            elements[i].CopyComponentFieldsTo(eta.elements[i]);
+        }
+    };
+
     void Element::CopyFieldsTo(Element &eta) const
     {
         MAP::const_iterator thisiter = Fields.begin();
diff --git a/Manifolds/Element.h b/Manifolds/Element.h
index 1d99634..a065808 100644
--- a/Manifolds/Element.h
+++ b/Manifolds/Element.h
@@ -465,6 +465,9 @@ namespace ROPTLIB{
         this Element and "eta" Element will use same space to store shared temp data.*/
         virtual void CopyFieldsTo(Element &eta) const;
 
+        /*For a product element, make the temp data in each component of "eta" be those in the corresponding component of this Element.*/
+        void CopyComponentFieldsTo(Element &eta) const;
+
         /*Randomly create this Element. In other words, the space will be allocated based
         on the size. Then each entry in the space will be generated by the uniform distribution in [start, end].
         Note that all the temporary data are also removed.*/
-- 
2.43.0


From e881402b899cdeb150597629e7974d7e2e8bec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 11/95] fix: components of a product element shared one size
 array

---
 Manifolds/Element.cpp | 46 +++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index e57ca0a..0fa833b 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2422,14 +2422,14 @@ namespace ROPTLIB{
 
         for (integer i = 0; i < numoftypes; i++)
         {
-            isize = new integer[types[i]->Getls()];
-            for (integer j = 0; j < types[i]->Getls(); j++)
-            {
-                isize[j] = types[i]->Getsize()[j];
-            }
-
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                isize = new integer[types[i]->Getls()];
+                for (integer k = 0; k < types[i]->Getls(); k++)
+                {
+                    isize[k] = types[i]->Getsize()[k];
+                }
+
                 if(types[i]->GetSpace() != nullptr)
                 {
                     printf("Warning: the types of element for creating a collection of multiple elements are not empty. This will cause memory leakage!\n");
@@ -2478,14 +2478,14 @@ namespace ROPTLIB{
 
         for (integer i = 0; i < numoftypes; i++)
         {
-            isize = new integer[types[i]->Getls()];
-            for (integer j = 0; j < types[i]->Getls(); j++)
-            {
-                isize[j] = types[i]->Getsize()[j];
-            }
-
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                isize = new integer[types[i]->Getls()];
+                for (integer k = 0; k < types[i]->Getls(); k++)
+                {
+                    isize[k] = types[i]->Getsize()[k];
+                }
+
                 if(types[i]->GetSpace() != nullptr)
                 {
                     printf("Warning: the types of element for creating a collection of multiple elements are not empty. This will cause memory leakage!\n");
@@ -3005,15 +3005,14 @@ namespace ROPTLIB{
             integer ils;
             for(integer i = 0; i < numoftypes; i++)
             {
-                ils = inelements[i].Getls();
-                isize = new integer[ils];
-                
-                for(integer j = 0; j < ils; j++)
-                {
-                    isize[j] = inelements[powsinterval[i]].Getsize()[j];
-                }
                 for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
                 {
+                    ils = inelements[j].Getls();
+                    isize = new integer[ils];
+                    for(integer k = 0; k < ils; k++)
+                    {
+                        isize[k] = inelements[j].Getsize()[k];
+                    }
                     if(Space == nullptr)
                     {
                         isharedtimes = nullptr;
@@ -3040,13 +3039,12 @@ namespace ROPTLIB{
         {
             for (integer i = 0; i < numoftypes; i++)
             {
-                if (elements[powsinterval[i]].Getsize() != nullptr)
-                {
-                    delete[] elements[powsinterval[i]].Getsize();
-                }
-                
                 for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
                 {
+                    if (elements[j].Getsize() != nullptr)
+                    {
+                        delete[] elements[j].Getsize();
+                    }
                     if (elements[j].GetSharedTimes() != nullptr)
                     {
                         (*(elements[j].GetSharedTimes()))--;
-- 
2.43.0


From f8b91770390650cef4619b7137716f6f44ebbe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 12/95] fix: assigning a product element kept the old shapes of
 its components

---
 Manifolds/Element.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 0fa833b..6a89eb2 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2947,11 +2947,17 @@ namespace ROPTLIB{
         if(numoftypes != innumoftypes || numofelements != innumofelements)
             issamesize = false;
         
+        for(integer i = 0; issamesize && i <= numoftypes; i++)
+        {
+            if(powsinterval[i] != inpowsinterval[i])
+                issamesize = false;
+        }
+        
         if(issamesize)
         {
             for(integer i = 0; i < innumofelements; i++)
             {
-                if(inelements[i].Getlength() != elements[i].Getlength())
+                if(inelements[i].Getlength() != elements[i].Getlength() || inelements[i].Getls() != elements[i].Getls())
                 {
                     issamesize = false;
                     break;
@@ -2981,7 +2987,10 @@ namespace ROPTLIB{
                     }
                     
                     elements[j].SetByParams(isharedtimes, Space + shift);
-                    elements[j].ResetMultiElementsParams(elements[j].Getpowsinterval(), elements[j].Getnumoftypes(), elements[j].Getelements(), elements[j].Getnumofelements());
+                    for(integer k = 0; k < inelements[j].Getls(); k++)
+                        elements[j].size[k] = inelements[j].Getsize()[k];
+                    elements[j].Setiscomplex(inelements[j].Getiscomplex());
+                    elements[j].ResetMultiElementsParams(inelements[j].Getpowsinterval(), inelements[j].Getnumoftypes(), inelements[j].Getelements(), inelements[j].Getnumofelements());
                     shift += ((Space == nullptr) ? 0 : elements[j].Getlength());
                 }
             }
-- 
2.43.0


From 716eca40a424cb5bcec3bfffb7204ce680245991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 13/95] fix: a problem started with undefined flags for using
 derivatives

---
 Problems/Problem.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Problems/Problem.h b/Problems/Problem.h
index e721254..153dce5 100644
--- a/Problems/Problem.h
+++ b/Problems/Problem.h
@@ -27,6 +27,9 @@ namespace ROPTLIB{
 
 	class Problem{
 	public:
+		/*The derivatives are used by default and the analytic ones are preferred.*/
+		Problem(void) : Domain(nullptr), UseGrad(true), UseHess(true), NumGradHess(false) {};
+
 		/*This function indicates this is an abstract class.*/
 		virtual ~Problem(void) = 0;
 
-- 
2.43.0


From dd9d13d75974e118ce524edd6232d0bda18cc370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 14/95] fix: the inverse polar retraction failed on complex
 points and ignored the intrinsic representation

---
 Manifolds/CStiefel.cpp | 9 ++++++---
 Manifolds/Stiefel.cpp  | 5 ++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index be3044d..3b0d2b3 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -525,12 +525,15 @@ namespace ROPTLIB{
 
     Vector &CStiefel::InvPolarRetraction(const Variable &x, const Variable &y, Vector *result) const
     {
-        Vector A(p, p); A.AlphaABaddBetaThis(1, x, GLOBAL::C, y, GLOBAL::N, 0); /* A = x.GetTranspose() * y; */
+        Vector A(p, p, "complex"); A.AlphaABaddBetaThis(1, x, GLOBAL::C, y, GLOBAL::N, 0); /* A = x.GetTranspose() * y; */
 
-        Vector tIp(p, p); tIp.SetToIdentity(); tIp = 2 * tIp;
+        Vector tIp(p, p, "complex"); tIp.SetToIdentity(); tIp = 2 * tIp;
         Vector soln = tIp.SYL(A, A.GetTranspose());
-        *result = x; result->AlphaABaddBetaThis(1, y, GLOBAL::N, soln, GLOBAL::N, -1); /* y * tIp.SYL(A, A.GetTranspose()) - x; */
+        Vector exresult(x); exresult.AlphaABaddBetaThis(1, y, GLOBAL::N, soln, GLOBAL::N, -1); /* y * tIp.SYL(A, A.GetTranspose()) - x; */
+        if(IsIntrApproach)
+            return ObtainIntr(x, exresult, result);
 
+        *result = exresult;
         return *result;
     };
 
diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index 6fbe5d5..911c1f1 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -584,8 +584,11 @@ namespace ROPTLIB{
         
         Vector tIp(p, p); tIp.SetToIdentity(); tIp = 2 * tIp;
         Vector soln = tIp.SYL(A, A.GetTranspose());
-        *result = x; result->AlphaABaddBetaThis(1, y, GLOBAL::N, soln, GLOBAL::N, -1); /* y * tIp.SYL(A, A.GetTranspose()) - x; */
+        Vector exresult(x); exresult.AlphaABaddBetaThis(1, y, GLOBAL::N, soln, GLOBAL::N, -1); /* y * tIp.SYL(A, A.GetTranspose()) - x; */
+        if(IsIntrApproach)
+            return ObtainIntr(x, exresult, result);
         
+        *result = exresult;
         return *result;
     };
 
-- 
2.43.0


From a3a1beabe6034eeec64b09bcd5089dfcb7cd4374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 15/95] fix: CStiefel::ObtainNorVerExtr used undefined
 imaginary parts on the diagonal

---
 Manifolds/CStiefel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index 3b0d2b3..64df8ec 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -389,6 +389,7 @@ namespace ROPTLIB{
         for(integer i = 0; i < p; i++)
         {
             xTetaxptr[i + i * p].r = intretaxptr[idx];
+            xTetaxptr[i + i * p].i = 0;
             idx++;
         }
         for(integer i = 0; i < p; i++)
-- 
2.43.0


From 5036596cdae28ff33f542b6acacb76657ee02f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 16/95] fix: intrinsic retraction on symmetric fixed rank
 matrices failed when n is less than 2p

---
 Manifolds/CSymFixedRankQ.cpp | 3 ++-
 Manifolds/SymFixedRankQ.cpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CSymFixedRankQ.cpp b/Manifolds/CSymFixedRankQ.cpp
index 25e9b52..4de1fca 100644
--- a/Manifolds/CSymFixedRankQ.cpp
+++ b/Manifolds/CSymFixedRankQ.cpp
@@ -267,7 +267,8 @@ namespace ROPTLIB{
             Z.SubmatrixAssignment(p, 2 * p - 1, 0, p - 1, Identity);
             Z = YYp_R * Z * YYp_R.GetTranspose();
             Z.EigenDecomSym();
-            Vector ZD = Z.Field("_EigVal").GetSubmatrix(p, 2 * p - 1, 0, 0).GetSqrt(), ZU = Z.Field("_EigVec").GetSubmatrix(0, 2 * p - 1, p, 2 * p - 1);
+            integer m = Z.Getrow(); /* 2 * p, or n if n < 2 * p */
+            Vector ZD = Z.Field("_EigVal").GetSubmatrix(m - p, m - 1, 0, 0).GetSqrt(), ZU = Z.Field("_EigVec").GetSubmatrix(0, m - 1, m - p, m - 1);
             Vector ZUD = ZD.GetDiagTimesM(ZU, GLOBAL::R);
             
             /*Find a representation Y such that Y minimize \|X - Y\|_F*/
diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index f2187ce..f653e6e 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -319,7 +319,8 @@ namespace ROPTLIB{
             Z.SubmatrixAssignment(p, 2 * p - 1, 0, p - 1, Identity);
             Z = YYp_R * Z * YYp_R.GetTranspose();
             Z.EigenDecomSym();
-            Vector ZD = Z.Field("_EigVal").GetSubmatrix(p, 2 * p - 1, 0, 0).GetSqrt(), ZU = Z.Field("_EigVec").GetSubmatrix(0, 2 * p - 1, p, 2 * p - 1);
+            integer m = Z.Getrow(); /* 2 * p, or n if n < 2 * p */
+            Vector ZD = Z.Field("_EigVal").GetSubmatrix(m - p, m - 1, 0, 0).GetSqrt(), ZU = Z.Field("_EigVec").GetSubmatrix(0, m - 1, m - p, m - 1);
             Vector ZUD = ZD.GetDiagTimesM(ZU, GLOBAL::R);
             
             /*Find a representation Y such that Y minimize \|X - Y\|_F*/
-- 
2.43.0


From 3f2cb4ab0168d53660dd8eabf913aeb35b2e2be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 17/95] fix: SymFixedRankQ::ObtainExtr for the third metric
 needed an earlier ObtainIntr at the same point

---
 Manifolds/SymFixedRankQ.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index f653e6e..92823a7 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -699,6 +699,12 @@ namespace ROPTLIB{
             x.HHRDecom();
         }
         
+        if(!x.FieldsExist("BL"))
+        { /*BL is computed from x in ObtainIntrQEUC*/
+            Vector zeroext(EMPTYEXTR), zerointr(EMPTYINTR); zeroext.SetToZeros();
+            ObtainIntrQEUC(x, zeroext, &zerointr);
+        }
+        
         integer dim = p * (p + 1) / 2;
         Vector BL = x.Field("BL");
         
-- 
2.43.0


From 11a81bb1298f92297faa94e28eb3a6549ce6e9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 18/95] fix: SymFixedRankQ and CSymFixedRankQ transported
 operators with the transport of vectors under the locking condition

---
 Manifolds/CSymFixedRankQ.cpp | 2 +-
 Manifolds/SymFixedRankQ.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CSymFixedRankQ.cpp b/Manifolds/CSymFixedRankQ.cpp
index 4de1fca..150dc53 100644
--- a/Manifolds/CSymFixedRankQ.cpp
+++ b/Manifolds/CSymFixedRankQ.cpp
@@ -236,7 +236,7 @@ namespace ROPTLIB{
         }
 
         if (HasHHR)
-            return LCVectorTransport(x, etax, y, Hx, result);
+            return LCTranHInvTran(x, etax, y, Hx, result);
 
         printf("Error: CSymFixedRankQ::TranHInvTran has not been done!\n");
         return Manifold::TranHInvTran(x, etax, y, Hx, result);
diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index 92823a7..d46c92d 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -287,7 +287,7 @@ namespace ROPTLIB{
         }
 
         if (HasHHR)
-            return LCVectorTransport(x, etax, y, Hx, result);
+            return LCTranHInvTran(x, etax, y, Hx, result);
 
         printf("Error: TranHInvTran has not been done!\n");
         return Manifold::TranHInvTran(x, etax, y, Hx, result);
-- 
2.43.0


From ce378a765b0144ca1a4510172fa6f20cdd3f501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 19/95] fix: flags of some manifolds were never initialised and
 FixedRankQ2F reported the dimension of its total space

---
 Manifolds/FixedRankQ2F.cpp | 1 +
 Manifolds/Manifold.h       | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/Manifolds/FixedRankQ2F.cpp b/Manifolds/FixedRankQ2F.cpp
index 7691906..f4c262e 100644
--- a/Manifolds/FixedRankQ2F.cpp
+++ b/Manifolds/FixedRankQ2F.cpp
@@ -16,6 +16,7 @@ namespace ROPTLIB{
         Vector Prod(2, &F1, 1, &F2, 1);
         EMPTYEXTR = Prod;
 		EMPTYINTR = Vector ((m + n - r) * r);
+        IntrinsicDim = (m + n - r) * r;
 	};
 
     void FixedRankQ2F::CheckParams(void) const
diff --git a/Manifolds/Manifold.h b/Manifolds/Manifold.h
index b65ee03..c40c459 100644
--- a/Manifolds/Manifold.h
+++ b/Manifolds/Manifold.h
@@ -32,6 +32,9 @@ namespace ROPTLIB{
 
 	class Manifold{
 	public:
+		/*By default, the locking condition is not imposed and the extrinsic representation is used*/
+		Manifold(void) : HasHHR(false), IsIntrApproach(false), IntrinsicDim(0), ExtrinsicDim(0) {};
+
 		/*Indicate this class is abstract*/
 		virtual ~Manifold(void) = 0;
         
-- 
2.43.0


From c1996c07f14ba5e11c01b8e7723371513cd6e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:33 +0000
Subject: [PATCH 20/95] fix: Beta was one on manifolds that do not override it
 although their differentiated retraction computes it

---
 Manifolds/Manifold.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 7f2125b..f12619a 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -159,6 +159,12 @@ namespace ROPTLIB{
         #ifdef CHECKMANIFOLDOVERRIDDEN
                 printf("Manifold::Beta has not been overridden!\n");
         #endif
+        /*beta is computed and attached to etax by the differentiated retraction if the locking condition is required*/
+        if (HasHHR && etax.FieldsExist("beta"))
+        {
+            Vector beta = etax.Field("beta");
+            return beta.ObtainReadData()[0];
+        }
 		return 1;
 	};
 
-- 
2.43.0


From 6027a7f8734d3dc22007e8b6a013a5ff3ce00aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 21/95] fix: default DiffRetraction took norms of an
 overwritten argument and of the result at the wrong point

---
 Manifolds/Manifold.cpp       | 8 +++++---
 Manifolds/MultiManifolds.cpp | 6 +++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index f12619a..98e0382 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -133,16 +133,18 @@ namespace ROPTLIB{
                 printf("Manifold::DiffRetraction has not been overridden!\n");
         #endif
         
+        /*xix and result may be the same*/
+        realdp nxix2 = (IsEtaXiSameDir && HasHHR) ? Metric(x, xix, xix) : 0;
         Projection(y, xix, result);
 
         if (IsEtaXiSameDir && HasHHR)
         {
             Vector beta(3);
             realdp *betaptr = beta.ObtainWriteEntireData();
-            realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, xix, xix));
-            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(x, *result, *result)) / EtatoXi;
+            realdp EtatoXi = sqrt(Metric(x, etax, etax) / nxix2);
+            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
             betaptr[1] = Metric(x, etax, etax);
-            betaptr[2] = Metric(x, *result, *result) * EtatoXi * EtatoXi;
+            betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
             etax.AddToFields("beta", beta);
             
             if (HasHHR)
diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 4a53cd0..f54dcaa 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -317,10 +317,10 @@ namespace ROPTLIB{
         {
             Vector beta(3);
             realdp *betaptr = beta.ObtainWriteEntireData();
-            realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, xix, xix));
-            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(x, *result, *result)) / EtatoXi;
+            realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, inxix, inxix));
+            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
             betaptr[1] = Metric(x, etax, etax);
-            betaptr[2] = Metric(x, *result, *result) * EtatoXi * EtatoXi;
+            betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
             etax.AddToFields("beta", beta);
             
             if (HasHHR)
-- 
2.43.0


From 1d32fb61c491991b75081c34da235c813730a10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 22/95] fix: transport with the locking condition divided by
 zero for a vanishing reflection or transported vector

---
 Manifolds/Manifold.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 98e0382..413a002 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -723,7 +723,9 @@ namespace ROPTLIB{
         ScalarTimesVector(y, 2.0, eps1, &nu1);
         VectorLinearCombination(y, -1.0, eps1, -1.0, TRetaVector, &nu2);
         tau1tau2ptr[0] = static_cast<realdp> (2) / Metric(y, nu1, nu1);
-        tau1tau2ptr[1] = static_cast<realdp> (2) / Metric(y, nu2, nu2);
+        /*If TRetaVector equals -eps1, then nu2 is zero up to rounding and the first reflection is already enough*/
+        realdp normnu2sq = Metric(y, nu2, nu2);
+        tau1tau2ptr[1] = (normnu2sq > std::numeric_limits<realdp>::epsilon() * Metric(y, eps1, eps1)) ? static_cast<realdp> (2) / normnu2sq : static_cast<realdp> (0);
         
         etax.AddToFields("tau1tau2", tau1tau2);
         etax.AddToFields("nu1", nu1);
@@ -736,8 +738,12 @@ namespace ROPTLIB{
         {
             Obtainnu1nu2forLC(x, etax, y);
         }
+        /*xix and result may be the same*/
+        realdp normxixsq = Metric(x, xix, xix);
         HasHHR = false; VectorTransport(x, etax, y, xix, result); HasHHR = true;
-        ScalarTimesVector(y, sqrt(Metric(x, xix, xix) / Metric(y, *result, *result)), *result, result);
+        realdp normresultsq = Metric(y, *result, *result);
+        if (normresultsq > 0)
+            ScalarTimesVector(y, sqrt(normxixsq / normresultsq), *result, result);
         
         Element tau1tau2 = etax.Field("tau1tau2");
         const realdp *tau1tau2ptr = tau1tau2.ObtainReadData();
-- 
2.43.0


From 28483a9d534844ad34ef6e9b5b2329e59b80a537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 23/95] fix: an extrinsic product manifold mixed up and changed
 the representations of its components

---
 Manifolds/MultiManifolds.cpp | 69 +++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 28 deletions(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index f54dcaa..95b45cf 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -3,6 +3,34 @@
 /*Define the namespace*/
 namespace ROPTLIB{
 
+    /*If the product manifold uses the extrinsic representation, then so do all the component manifolds during an operation of
+    the product. The representations of the component manifolds are restored when the object goes out of scope.*/
+    class ComponentRepresentations{
+    public:
+        ComponentRepresentations(Manifold **inmanifolds, integer innumoftypes, bool inIsIntrApproach) : manifolds(inmanifolds), numoftypes(inIsIntrApproach ? 0 : innumoftypes), IsIntr(nullptr)
+        {
+            if (numoftypes == 0)
+                return;
+            IsIntr = new bool[numoftypes];
+            for (integer i = 0; i < numoftypes; i++)
+                IsIntr[i] = manifolds[i]->GetIsIntrinsic();
+            for (integer i = 0; i < numoftypes; i++)
+                manifolds[i]->SetIsIntrApproach(false);
+        };
+        ~ComponentRepresentations(void)
+        {
+            for (integer i = numoftypes - 1; i >= 0; i--)
+                manifolds[i]->SetIsIntrApproach(IsIntr[i]);
+            delete[] IsIntr;
+        };
+    private:
+        ComponentRepresentations(const ComponentRepresentations &);
+        ComponentRepresentations &operator=(const ComponentRepresentations &);
+        Manifold **manifolds;
+        integer numoftypes;
+        bool *IsIntr;
+    };
+
 	MultiManifolds::MultiManifolds(integer numberofmanifolds, ...)
 	{
 		numoftypes = numberofmanifolds;
@@ -128,6 +156,7 @@ namespace ROPTLIB{
 
 	realdp MultiManifolds::Metric(const Variable &x, const Vector &etax, const Vector &xix) const
 	{
+        ComponentRepresentations representations(manifolds, numoftypes, IsIntrApproach);
         realdp result = 0;
         for(integer i = 0; i < numoftypes; i++)
         {
@@ -161,6 +190,7 @@ namespace ROPTLIB{
 
 	Vector &MultiManifolds::Projection(const Variable &x, const Vector &etax, Vector *result) const
 	{
+        ComponentRepresentations representations(manifolds, numoftypes, IsIntrApproach);
         /*etax and result may be the same. Store etax first then new memory for result. Otherwise, the memory in etax is also changed.*/
         Vector inetax = etax;
         result->NewMemoryOnWrite();
@@ -195,28 +225,14 @@ namespace ROPTLIB{
 
 	Variable &MultiManifolds::Retraction(const Variable &x, const Vector &etax, Variable *result) const
 	{
+        ComponentRepresentations representations(manifolds, numoftypes, IsIntrApproach);
         result->NewMemoryOnWrite();
         
-        if(IsIntrApproach)
-        {
-            for(integer i = 0; i < numoftypes; i++)
-            {
-                for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
-                {
-                    manifolds[i]->Retraction(x.GetElement(j), etax.GetElement(j), &(result->GetElement(j)));
-                }
-            }
-            return *result;
-        }
-        
-        /*if using extrinsic representation, then*/
         for(integer i = 0; i < numoftypes; i++)
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
-                manifolds[i]->SetIsIntrApproach(false);
                 manifolds[i]->Retraction(x.GetElement(j), etax.GetElement(j), &(result->GetElement(j)));
-                manifolds[i]->SetIsIntrApproach(true);
             }
         }
         return *result;
@@ -224,26 +240,14 @@ namespace ROPTLIB{
 
     Vector &MultiManifolds::InvRetraction(const Variable &x, const Variable &y, Vector *result) const
     {
+        ComponentRepresentations representations(manifolds, numoftypes, IsIntrApproach);
         result->NewMemoryOnWrite();
-        if(IsIntrApproach)
-        {
-            for(integer i = 0; i < numoftypes; i++)
-            {
-                for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
-                {
-                    manifolds[i]->InvRetraction(x.GetElement(j), y.GetElement(j), &(result->GetElement(j)));
-                }
-            }
-            return *result;
-        }
         
         for(integer i = 0; i < numoftypes; i++)
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
-                manifolds[i]->SetIsIntrApproach(false);
                 manifolds[i]->InvRetraction(x.GetElement(j), y.GetElement(j), &(result->GetElement(j)));
-                manifolds[i]->SetIsIntrApproach(true);
             }
         }
         
@@ -252,6 +256,7 @@ namespace ROPTLIB{
 
 	Vector &MultiManifolds::coTangentVector(const Variable &x, const Vector &etax, const Variable &y, const Vector &xiy, Vector *result) const
 	{
+        ComponentRepresentations representations(manifolds, numoftypes, IsIntrApproach);
         /*xiy and result may be the same. Store xiy first then allocate memory for result. Otherwise, the memory in xiy may be also changed.*/
         Vector inxiy = xiy;
         result->NewMemoryOnWrite();
@@ -302,6 +307,7 @@ namespace ROPTLIB{
 
 	Vector &MultiManifolds::DiffRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
 	{
+        ComponentRepresentations representations(manifolds, numoftypes, IsIntrApproach);
         /*xix and result may be the same. Store xix first then allocate memory for result. Otherwise, the memory in xix may be also changed.*/
         Vector inxix = xix;
         result->NewMemoryOnWrite();
@@ -334,6 +340,7 @@ namespace ROPTLIB{
 
 	realdp MultiManifolds::Dist(const Variable &x1, const Variable &x2) const
 	{
+        ComponentRepresentations representations(manifolds, numoftypes, IsIntrApproach);
 		realdp result = 0, tmp = 0;
 		for (integer i = 0; i < numoftypes; i++)
 		{
@@ -350,6 +357,7 @@ namespace ROPTLIB{
 	{
 		if (HasHHR)
 			return LCVectorTransport(x, etax, y, xix, result);
+        ComponentRepresentations representations(manifolds, numoftypes, IsIntrApproach);
         
         /*xix and result may be the same. Store xix first then allocate memory for result. Otherwise, the memory in xix may be also changed.*/
         Vector inxix = xix;
@@ -368,6 +376,7 @@ namespace ROPTLIB{
 	{
 		if (HasHHR)
 			return LCInverseVectorTransport(x, etax, y, xiy, result);
+        ComponentRepresentations representations(manifolds, numoftypes, IsIntrApproach);
         
         /*xiy and result may be the same. Store xiy first then allocate memory for result. Otherwise, the memory in xiy may be also changed.*/
         Vector inxiy = xiy;
@@ -386,6 +395,7 @@ namespace ROPTLIB{
 	{
 		if (HasHHR)
 			return LCTranHInvTran(x, etax, y, Hx, result);
+        ComponentRepresentations representations(manifolds, numoftypes, IsIntrApproach);
 
         result->CopyOnWrite();
         
@@ -406,6 +416,7 @@ namespace ROPTLIB{
 
 	LinearOPE &MultiManifolds::HaddScaledRank1OPE(const Variable &x, const LinearOPE &Hx, realdp scalar, const Vector &etax, const Vector &xix, LinearOPE *result) const
 	{
+        ComponentRepresentations representations(manifolds, numoftypes, IsIntrApproach);
         Vector xixflat(xix);
         xixflat.NewMemoryOnWrite();
         for (integer i = 0; i < numoftypes; i++)
@@ -461,6 +472,7 @@ namespace ROPTLIB{
 
 	Vector &MultiManifolds::EucGradToGrad(const Variable &x, const Vector &egf, const Problem *prob, Vector *result) const
 	{
+        ComponentRepresentations representations(manifolds, numoftypes, IsIntrApproach);
         if(prob->GetUseHess())
         {
             /*The copy on write is necessary. The reason is that the egf may be from a component in a product of elements.
@@ -489,6 +501,7 @@ namespace ROPTLIB{
 
 	Vector &MultiManifolds::EucHvToHv(const Variable &x, const Vector &etax, const Vector &exix, const Problem *prob, Vector *result) const
 	{
+        ComponentRepresentations representations(manifolds, numoftypes, IsIntrApproach);
         /*exix and result may be the same. Store exix first then allocate memory for result. Otherwise, the memory in exix may be also changed.*/
         Vector inexix = exix;
         result->NewMemoryOnWrite();
-- 
2.43.0


From 6f9c4796a7f803dd54e1ee293fe021d3d5c8f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 24/95] fix: MultiManifolds::TranHInvTran ignored the operator
 unless the result was the operator itself

---
 Manifolds/MultiManifolds.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 95b45cf..d578990 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -397,6 +397,7 @@ namespace ROPTLIB{
 			return LCTranHInvTran(x, etax, y, Hx, result);
         ComponentRepresentations representations(manifolds, numoftypes, IsIntrApproach);
 
+        *result = Hx;
         result->CopyOnWrite();
         
 		integer start, end = 0;
-- 
2.43.0


From aeb624c82420245aa22ab2585e42f4aa8debe11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 25/95] fix: FixedRankE::ObtainNorVerIntr needed decompositions
 that nobody had computed

---
 Manifolds/FixedRankE.cpp     | 10 ++++++++++
 Manifolds/MultiManifolds.cpp |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 84ca83b..07840a8 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -116,6 +116,16 @@ namespace ROPTLIB{
     Vector &FixedRankE::ObtainNorVerIntr(const Variable &x, const Vector &etax, Vector *result) const
     {
         Vector U = x.Field("U"), D = x.Field("D"), V = x.Field("V");
+        if(!(U.FieldsExist("_HHR")))
+        {
+            U.HHRDecom();
+            x.AddToFields("U", U);
+        }
+        if(!(V.FieldsExist("_HHR")))
+        {
+            V.HHRDecom();
+            x.AddToFields("V", V);
+        }
         Vector QUTetax = etax.HHRMtp(U.Field("_HHR"), U.Field("_tau"), GLOBAL::T, GLOBAL::L);
         Vector QUTetaxQV = QUTetax.HHRMtp(V.Field("_HHR"), V.Field("_tau"), GLOBAL::N, GLOBAL::R);
         const realdp *QUTetaxQVptr = QUTetaxQV.ObtainReadData();
diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index d578990..2299d76 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -493,7 +493,7 @@ namespace ROPTLIB{
         {
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
-                egf.CopyFieldsTo(egf.GetElement(j));
+                inegf.CopyFieldsTo(inegf.GetElement(j));
                 manifolds[i]->EucGradToGrad(x.GetElement(j), inegf.GetElement(j), prob, &(result->GetElement(j)));
             }
         }
-- 
2.43.0


From f6f4040eda6e83ad9c4cac4b53162ab2ef729abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 26/95] fix: SphereTx reported the dimension of the tangent
 space as that of its unit sphere

---
 Manifolds/SphereTx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/SphereTx.cpp b/Manifolds/SphereTx.cpp
index 4c61b58..7b48247 100644
--- a/Manifolds/SphereTx.cpp
+++ b/Manifolds/SphereTx.cpp
@@ -17,7 +17,7 @@ namespace ROPTLIB{
 		 upper one has codimension ExtrinsicDim - IntrinsicDim - 1
 		 bottom one has codimension 1 */
 		ExtrinsicDim = mani->GetExtrDim();
-		IntrinsicDim = mani->GetIntrDim();
+		IntrinsicDim = mani->GetIntrDim() - 1;
 		name.assign("SphereTx");
         
         if(mani->GetIsIntrinsic())
-- 
2.43.0


From 7b12635bc96730593ab6eec4e696d0918f1793c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 27/95] fix: the affine invariant distance on SPD matrices left
 out the logarithm

---
 Manifolds/SPDManifold.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index 776398c..6483387 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -444,6 +444,10 @@ namespace ROPTLIB{
         Vector tmp2(EMPTYEXTR); tmp2.AlphaABaddBetaThis(1, tmp, GLOBAL::N, tmp, GLOBAL::T, 0);
         tmp2.EigenDecomSym();
         Vector EigVals = tmp2.Field("_EigVal");
+        EigVals.CopyOnWrite();
+        realdp *EigValsptr = EigVals.ObtainWritePartialData();
+        for (integer i = 0; i < n; i++)
+            EigValsptr[i] = std::log(EigValsptr[i]);
         return EigVals.Fnorm();
 	};
 
-- 
2.43.0


From 6fbf659b08752a667b5268d5a61b1a5b75d85c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 28/95] fix: Sphere::ExpHInvTran updated a block of columns
 with swapped dimensions

---
 Manifolds/Sphere.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index a528d33..49a2ae2 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -140,7 +140,7 @@ namespace ROPTLIB{
 		realdp *resultL = result->ObtainWritePartialData();
 		/* resultL(:, start : start + length - 1) <- scalar * Hxpy * xv^T + resultL(:, start : start + length - 1),
 		details: www.netlib.org/lapack/explore-html/dc/da8/ger_8f.html */
-		ger_(&length, &ell, &scalar, Hxpy, &GLOBAL::IONE, const_cast<realdp *> (xv), &GLOBAL::IONE, resultL + start * ell, &ell);
+		ger_(&ell, &length, &scalar, Hxpy, &GLOBAL::IONE, const_cast<realdp *> (xv), &GLOBAL::IONE, resultL + start * ell, &ell);
 
 		delete[] Hxpy;
         return *result;
-- 
2.43.0


From 4ab18fb1a8b3db931b1379315d72e539804c25ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 29/95] fix: the exponential map of the sphere and its
 differential were not finite for a zero tangent vector and read overwritten
 arguments

---
 Manifolds/Sphere.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index 49a2ae2..f1a9b0c 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -58,6 +58,11 @@ namespace ROPTLIB{
 	Variable &Sphere::ExpRetraction(const Variable &x, const Vector &etax, Variable *result) const
 	{
 		realdp normetax = sqrt(Metric(x, etax, etax));
+		if (normetax == 0)
+		{
+			*result = x;
+			return *result;
+		}
 		VectorLinearCombination(x, cos(normetax), x, sin(normetax) / normetax, etax, result);
 		realdp normresult = sqrt(Metric(x, *result, *result));
 		return ScalarTimesVector(x, static_cast<realdp> (1) / normresult, *result, result);
@@ -68,10 +73,12 @@ namespace ROPTLIB{
 		realdp xiytx = Metric(x, x, xiy);
 		realdp xiytetax = Metric(x, xiy, etax);
 		realdp normetax = sqrt(Metric(x, etax, etax));
+		if (normetax == 0)
+			return Projection(x, xiy, result);
 		realdp sinnormetax = sin(normetax);
 		realdp cosnormetax = cos(normetax);
-		VectorLinearCombination(x, sinnormetax / normetax, xiy, (xiytetax * cosnormetax / normetax
-			- xiytx * sinnormetax - xiytetax * sinnormetax / normetax / normetax) / normetax, etax, result);
+		VectorLinearCombination(x, (xiytetax * cosnormetax / normetax
+			- xiytx * sinnormetax - xiytetax * sinnormetax / normetax / normetax) / normetax, etax, sinnormetax / normetax, xiy, result);
 		return Projection(x, *result, result);
 	};
 
@@ -79,6 +86,12 @@ namespace ROPTLIB{
 	{
 		realdp etaxtxix = Metric(x, etax, xix);
 		realdp normetax = sqrt(Metric(x, etax, etax));
+		if (normetax == 0)
+		{
+			*result = xix;
+			return *result;
+		}
+		realdp nxix = std::sqrt(Metric(x, xix, xix));
 		realdp sinnormetax = sin(normetax);
         VectorLinearCombination(x, -sinnormetax * etaxtxix / normetax, x, sinnormetax / normetax, xix, result);
         ScalarVectorAddVector(x, (cos(normetax) - sinnormetax / normetax) * etaxtxix / normetax / normetax, etax, *result, result);
@@ -86,7 +99,6 @@ namespace ROPTLIB{
 
         if (IsEtaXiSameDir && HasHHR)
         {
-            realdp nxix = std::sqrt(Metric(x, xix, xix));
             Vector beta(3);
             realdp *betaptr = beta.ObtainWriteEntireData();
             realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
-- 
2.43.0


From a879284e45f87642aabe204ff8003c6328d34498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 30/95] fix: parallel translation on SPD matrices multiplied
 every vector by zero

---
 Manifolds/SPDManifold.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index 6483387..99147e3 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -507,7 +507,12 @@ namespace ROPTLIB{
         Vector LiELiThalf = LiE.GetTranspose().TriangleLinSol(x.Field("_L"));
         LiELiThalf.ScalarTimesThis(0.5);
         Vector tmp = x.Field("_L") * LiELiThalf.ExpSym().TriangleLinSol(x.Field("_L"), GLOBAL::T).GetTranspose();
-        LiE.AlphaABaddBetaThis(0, tmp, GLOBAL::N, exxix, GLOBAL::N, 0); /*LiE is for temporary storage*/
+        LiE.AlphaABaddBetaThis(1, tmp, GLOBAL::N, exxix, GLOBAL::N, 0); /*LiE is for temporary storage*/
+        if(IsIntrApproach)
+        {
+            exxix.AlphaABaddBetaThis(1, LiE, GLOBAL::N, tmp, GLOBAL::T, 0);
+            return ObtainIntr(y, exxix, result);
+        }
         result->AlphaABaddBetaThis(1, LiE, GLOBAL::N, tmp, GLOBAL::T, 0); /* *result = tmp * exxix * tmp.GetTranspose(); */
         return *result;
     };
-- 
2.43.0


From e4d860642adc1ed4906ce58d1c3382eda14070f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 31/95] fix: the differentiated polar retraction was not finite
 when a component of the direction is zero

---
 Manifolds/CStiefel.cpp   | 3 ++-
 Manifolds/FixedRankE.cpp | 6 ++++--
 Manifolds/Stiefel.cpp    | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index 64df8ec..c10da77 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -553,7 +553,8 @@ namespace ROPTLIB{
                 ObtainExtr(x, etax, &etaxtmp);
             else
                 etaxtmp = etax;
-			realdp alpha = sqrt(Metric(x, xix, xix) / Metric(x, etax, etax));
+			realdp netax2 = Metric(x, etax, etax);
+			realdp alpha = (netax2 == 0) ? 0 : sqrt(Metric(x, xix, xix) / netax2);
             Vector Vt = y.Field("_Vt");
             Vector S = y.Field("_S");
             Vector tmp(EMPTYEXTR);
diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 07840a8..79c17a2 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -214,14 +214,16 @@ namespace ROPTLIB{
             Vector Dx = x.Field("D"), Dy = y.Field("D");
             Vector Vx = x.Field("V"), dVeta = etax.Field("dV"), Vy = y.Field("V"), dVxix = xix.Field("dV");
             
-            realdp alpha1 = sqrt(dUxix.DotProduct(dUxix) / dUeta.DotProduct(dUeta));
+            /* a component of etax that is zero stays zero */
+            realdp ndUeta2 = dUeta.DotProduct(dUeta), ndVeta2 = dVeta.DotProduct(dVeta);
+            realdp alpha1 = (ndUeta2 == 0) ? 0 : sqrt(dUxix.DotProduct(dUxix) / ndUeta2);
             Vector Uy_Vt = Uy.Field("_Vt"), Uy_S = Uy.Field("_S");
             Vector tmp1 = dUeta * Uy_Vt.GetTranspose();
             Uy_S = 1 / Uy_S;
             tmp1 = Uy_S.GetDiagTimesM(tmp1, GLOBAL::R) * Uy_Vt;
             Vector result1 = (tmp1 - Uy * (tmp1.GetTranspose() * tmp1)) * alpha1;
             
-            realdp alpha2 = sqrt(dVxix.DotProduct(dVxix) / dVeta.DotProduct(dVeta));
+            realdp alpha2 = (ndVeta2 == 0) ? 0 : sqrt(dVxix.DotProduct(dVxix) / ndVeta2);
             Vector Vy_Vt = Vy.Field("_Vt"), Vy_S = Vy.Field("_S");
             Vector tmp2 = dVeta * Vy_Vt.GetTranspose();
             Vy_S = 1 / Vy_S;
diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index 911c1f1..46edeaa 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -607,7 +607,8 @@ namespace ROPTLIB{
                 ObtainExtr(x, etax, &etaxtmp);
             else
                 etaxtmp = etax;
-			realdp alpha = sqrt(Metric(x, xix, xix) / Metric(x, etax, etax));
+			realdp netax2 = Metric(x, etax, etax);
+			realdp alpha = (netax2 == 0) ? 0 : sqrt(Metric(x, xix, xix) / netax2);
             Vector Vt = y.Field("_Vt");
             Vector S = y.Field("_S");
             Vector tmp(EMPTYEXTR);
-- 
2.43.0


From a0363bc5f2616681f59faf86c61b95d1524ee7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 32/95] fix: transports with the Cayley retraction used the
 decomposition of the last retraction at the point

---
 Manifolds/Stiefel.cpp | 46 ++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index 46edeaa..d68715e 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -804,10 +804,11 @@ namespace ROPTLIB{
 		realdp *resultptr = result->ObtainWritePartialData();
 		gemm_(GLOBAL::N, GLOBAL::N, &N, &P, &P2, &GLOBAL::DONE, Uptr, &N, Mk3ptr, &P2, &GLOBAL::DONE, resultptr, &N);
 
-        x.AddToFields("Mk2", Mk2);
-        x.AddToFields("Mk3", Mk3);
-        x.AddToFields("LUP", LUP);
-        x.AddToFields("U", U);
+        /*these belong to this direction; a later retraction at x along another direction must not replace them*/
+        etax.AddToFields("Mk2", Mk2);
+        etax.AddToFields("Mk3", Mk3);
+        etax.AddToFields("LUP", LUP);
+        etax.AddToFields("U", U);
         return *result;
 	};
 
@@ -821,10 +822,16 @@ namespace ROPTLIB{
 	{
 		if (IsEtaXiSameDir)
 		{
-			const realdp *Mk2ptr = x.Field("Mk2").ObtainReadData();
-			const realdp *Mk3ptr = x.Field("Mk3").ObtainReadData();
-			const realdp *LUPptr = x.Field("LUP").ObtainReadData();
-			const realdp *Uptr = x.Field("U").ObtainReadData();
+            if (!etax.FieldsExist("LUP"))
+            {
+                Vector tmpy(EMPTYEXTR);
+                CayleyRetraction(x, etax, &tmpy);
+            }
+            realdp nxix = sqrt(Metric(x, xix, xix));
+			const realdp *Mk2ptr = etax.Field("Mk2").ObtainReadData();
+			const realdp *Mk3ptr = etax.Field("Mk3").ObtainReadData();
+			const realdp *LUPptr = etax.Field("LUP").ObtainReadData();
+			const realdp *Uptr = etax.Field("U").ObtainReadData();
 
 			realdp *Mk2Mk3 = new realdp[4 * p * p];
 			realdp *tmp = Mk2Mk3 + 2 * p * p;
@@ -860,13 +867,14 @@ namespace ROPTLIB{
             else
                 *result = exresult;
             
-			ScalarTimesVector(x, sqrt(Metric(x, xix, xix) / Metric(x, etax, etax)), *result, result);
+			realdp netax = sqrt(Metric(x, etax, etax));
+			ScalarTimesVector(x, (netax == 0) ? 0 : nxix / netax, *result, result);
 
             if (IsEtaXiSameDir && HasHHR)
             {
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
-                realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, xix, xix));
+                realdp EtatoXi = netax / nxix;
                 betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
                 betaptr[1] = Metric(x, etax, etax);
                 betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
@@ -892,8 +900,13 @@ namespace ROPTLIB{
         else
             exxix = xix;
         
-        const realdp *LUPptr = x.Field("LUP").ObtainReadData();
-        const realdp *Uptr = x.Field("U").ObtainReadData();
+        if (!etax.FieldsExist("LUP"))
+        {
+            Vector tmpy(EMPTYEXTR);
+            CayleyRetraction(x, etax, &tmpy);
+        }
+        const realdp *LUPptr = etax.Field("LUP").ObtainReadData();
+        const realdp *Uptr = etax.Field("U").ObtainReadData();
         
 		realdp *V = new realdp[n * 2 * p + 2 * p * p];
 		realdp *Vtxix = V + n * 2 * p;
@@ -933,8 +946,13 @@ namespace ROPTLIB{
         else
             exxiy = xiy;
         
-        const realdp *LUPptr = x.Field("LUP").ObtainReadData();
-        const realdp *Uptr = x.Field("U").ObtainReadData();
+        if (!etax.FieldsExist("LUP"))
+        {
+            Vector tmpy(EMPTYEXTR);
+            CayleyRetraction(x, etax, &tmpy);
+        }
+        const realdp *LUPptr = etax.Field("LUP").ObtainReadData();
+        const realdp *Uptr = etax.Field("U").ObtainReadData();
         
 		realdp *V = new realdp[n * 2 * p + 2 * p * p];
 		realdp *Utxiy = V + n * 2 * p;
-- 
2.43.0


From f8cc7cd53cac25b6586a9313f1ff1375ea4a249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 33/95] fix: differentiated retractions and a gradient
 conversion read arguments that the result had overwritten

---
 Manifolds/CStiefel.cpp   |  4 ++--
 Manifolds/FixedRankE.cpp | 12 ++++++------
 Manifolds/SphereTx.cpp   |  2 +-
 Manifolds/Stiefel.cpp    |  4 ++--
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index c10da77..d63c911 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -554,7 +554,8 @@ namespace ROPTLIB{
             else
                 etaxtmp = etax;
 			realdp netax2 = Metric(x, etax, etax);
-			realdp alpha = (netax2 == 0) ? 0 : sqrt(Metric(x, xix, xix) / netax2);
+			realdp nxix = std::sqrt(Metric(x, xix, xix)); /*xix and result may be the same*/
+			realdp alpha = (netax2 == 0) ? 0 : nxix / std::sqrt(netax2);
             Vector Vt = y.Field("_Vt");
             Vector S = y.Field("_S");
             Vector tmp(EMPTYEXTR);
@@ -571,7 +572,6 @@ namespace ROPTLIB{
 
 			if (IsEtaXiSameDir && HasHHR)
 			{
-                realdp nxix = std::sqrt(Metric(x, xix, xix));
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
                 realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 79c17a2..331c20c 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -213,6 +213,8 @@ namespace ROPTLIB{
             Vector Ux = x.Field("U"), dUeta = etax.Field("dU"), Uy = y.Field("U"), dUxix = xix.Field("dU");
             Vector Dx = x.Field("D"), Dy = y.Field("D");
             Vector Vx = x.Field("V"), dVeta = etax.Field("dV"), Vy = y.Field("V"), dVxix = xix.Field("dV");
+            Vector dDxix = xix.Field("dD"); /*xix and result may be the same*/
+            realdp nxix = std::sqrt(Metric(x, xix, xix));
             
             /* a component of etax that is zero stays zero */
             realdp ndUeta2 = dUeta.DotProduct(dUeta), ndVeta2 = dVeta.DotProduct(dVeta);
@@ -230,14 +232,13 @@ namespace ROPTLIB{
             tmp2 = Vy_S.GetDiagTimesM(tmp2, GLOBAL::R) * Vy_Vt;
             Vector result2 = (tmp2 - Vy * (tmp2.GetTranspose() * tmp2)) * alpha2;
             
-            *result = Uy * Dy * result2.GetTranspose() + Uy * xix.Field("dD") * Vy.GetTranspose() + result1 * Dy * Vy.GetTranspose();
+            *result = Uy * Dy * result2.GetTranspose() + Uy * dDxix * Vy.GetTranspose() + result1 * Dy * Vy.GetTranspose();
             result->AddToFields("dU", result1);
-            result->AddToFields("dD", xix.Field("dD"));
+            result->AddToFields("dD", dDxix);
             result->AddToFields("dV", result2);
             
             if (IsEtaXiSameDir && HasHHR)
             {
-                realdp nxix = std::sqrt(Metric(x, xix, xix));
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
                 realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
@@ -287,12 +288,11 @@ namespace ROPTLIB{
 
 	Vector &FixedRankE::EucGradToGrad(const Variable &x, const Vector &egf, const Problem *prob, Vector *result)  const
 	{
-        Projection(x, egf, result);
         if(prob->GetUseHess())
         {
-            x.AddToFields("EGrad", egf);
+            x.AddToFields("EGrad", egf); /*before the projection, since egf and result may be the same*/
         }
-        return *result;
+        return Projection(x, egf, result);
 	};
 
 	Vector &FixedRankE::EucHvToHv(const Variable &x, const Vector &etax, const Vector &exix, const Problem *prob, Vector *result) const
diff --git a/Manifolds/SphereTx.cpp b/Manifolds/SphereTx.cpp
index 7b48247..f865d72 100644
--- a/Manifolds/SphereTx.cpp
+++ b/Manifolds/SphereTx.cpp
@@ -97,11 +97,11 @@ namespace ROPTLIB{
 	{
 		if (IsEtaXiSameDir)
 		{
+            realdp nxix = std::sqrt(Metric(x, xix, xix)); /*xix and result may be the same*/
             VectorTransport(x, etax, y, xix, result);
             
             if (IsEtaXiSameDir && HasHHR)
             {
-                realdp nxix = std::sqrt(Metric(x, xix, xix));
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
                 realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index d68715e..a519379 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -608,7 +608,8 @@ namespace ROPTLIB{
             else
                 etaxtmp = etax;
 			realdp netax2 = Metric(x, etax, etax);
-			realdp alpha = (netax2 == 0) ? 0 : sqrt(Metric(x, xix, xix) / netax2);
+			realdp nxix = std::sqrt(Metric(x, xix, xix)); /*xix and result may be the same*/
+			realdp alpha = (netax2 == 0) ? 0 : nxix / std::sqrt(netax2);
             Vector Vt = y.Field("_Vt");
             Vector S = y.Field("_S");
             Vector tmp(EMPTYEXTR);
@@ -625,7 +626,6 @@ namespace ROPTLIB{
 
 			if (IsEtaXiSameDir && HasHHR)
 			{
-                realdp nxix = std::sqrt(Metric(x, xix, xix));
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
                 realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
-- 
2.43.0


From 84a98c372d9847b43e746c79f495031c7cbe89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 34/95] fix: SphereTx::EucHvToHv lost its argument when the
 result was written over it

---
 Manifolds/SphereTx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/SphereTx.cpp b/Manifolds/SphereTx.cpp
index f865d72..09364be 100644
--- a/Manifolds/SphereTx.cpp
+++ b/Manifolds/SphereTx.cpp
@@ -160,7 +160,7 @@ namespace ROPTLIB{
 	{
         Vector EGrad = x.Field("EGrad");
         
-        mani->VectorLinearCombination(root, 1, exix, - mani->Metric(root, EGrad, x), etax, result);
+        mani->ScalarVectorAddVector(root, - mani->Metric(root, EGrad, x), etax, exix, result); /*exix and result may be the same*/
         return Projection(x, *result, result);
 	};
 }; /*end of ROPTLIB namespace*/
-- 
2.43.0


From 55e62038375fb7661bbb2b8881a28a882a2478e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 35/95] fix: the Wolfe line search accepted the initial step
 without sufficient decrease after backtracking and doubling

---
 Solvers/SolversSMLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index e73b786..1557e7a 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -720,7 +720,7 @@ namespace ROPTLIB{
 						LSstatus = LSSM_MAXSTEPSIZE;
 						return;
 					}
-					if (stepsize != initiallength && f2 > f1 + LS_alpha * stepsize * initialslope)
+					if (f2 > f1 + LS_alpha * stepsize * initialslope)
 					{
 						stepsizelo = (stepsize < prestepsize) ? stepsize : prestepsize;
 						stepsizediff = fabs(prestepsize - stepsize);
-- 
2.43.0


From 2e13a48c0468a5cf92faab3728fa70eb8c21a106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 36/95] fix: the Wolfe line search accepted a step without
 curvature after ten doublings and gave up at the maximum step although it was
 acceptable

---
 Solvers/SolversSMLS.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 1557e7a..996e5c3 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -701,7 +701,6 @@ namespace ROPTLIB{
 				newslope = dh();
 				if (newslope < LS_beta * initialslope)
 				{
-					times = 0;
 					while (f2 <= f1 + LS_alpha * stepsize * initialslope && newslope < LS_beta * initialslope && stepsize < Maxstepsize)
 					{
 						prestepsize = stepsize;
@@ -710,13 +709,9 @@ namespace ROPTLIB{
 						f2 = h();
 						if (f2 <= f1 + LS_alpha * stepsize * initialslope)
 							newslope = dh();
-						times++;
-						if (times > 10)
-							break;
 					}
-					if (stepsize >= Maxstepsize)
+					if (stepsize >= Maxstepsize && f2 <= f1 + LS_alpha * stepsize * initialslope && newslope < LS_beta * initialslope)
 					{
-						Prob->Grad(x2, &gf2); ng++;
 						LSstatus = LSSM_MAXSTEPSIZE;
 						return;
 					}
-- 
2.43.0


From 543d9db617970d04135deb6c429a5ecf63d4df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 37/95] fix: a failed Wolfe line search returned its last
 trial, which may be worse than the best one

---
 Solvers/SolversSMLS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 996e5c3..f78dbce 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -757,6 +757,8 @@ namespace ROPTLIB{
 						}
 						if (newslope < LS_beta * initialslope)
 						{
+							/*the last trial may violate the sufficient decrease condition, use the best one*/
+							stepsize = stepsizelo;
 							f2 = h();
 							newslope = dh();
 							LSstatus = LSSM_NOCURVATURE;
-- 
2.43.0


From f67d7536bb2e12d608e78b1e2d07af5599b266e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 38/95] fix: the Wolfe line search tried steps below the
 minimum step size

---
 Solvers/SolversSMLS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index f78dbce..b167c7b 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -800,6 +800,7 @@ namespace ROPTLIB{
 				prestepsize = stepsize;
 				f2pre = f2;
 				stepsize = (steptemp <= static_cast<realdp> (1e-2) * stepsize) ? static_cast<realdp> (1e-2) * stepsize : steptemp;
+				stepsize = (stepsize < Minstepsize) ? Minstepsize : stepsize;
 			}
 		}
 	};
-- 
2.43.0


From 642bbe499797f14a22f03ffe53a5ab16e4a714ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 39/95] fix: the Armijo line search reported another step than
 the last trial and ignored the minimum step size in its first interpolation

---
 Solvers/SolversSMLS.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index b167c7b..7248d1b 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -328,8 +328,7 @@ namespace ROPTLIB{
 			realdp LS_ratio = LS_ratio1;
 			while (maxpref - f2 < -LS_alpha * initialslope * stepsize)
 			{
-				stepsize *= LS_ratio;
-				if (stepsize < Minstepsize)
+				if (stepsize * LS_ratio < Minstepsize)
 				{
 					if (Verbose > FINALRESULT)
 					{
@@ -338,6 +337,7 @@ namespace ROPTLIB{
 					LSstatus = LSSM_MINSTEPSIZE;
 					break;
 				}
+				stepsize *= LS_ratio;
 				f2 = h();
 			}
             newslope = dh();
@@ -351,14 +351,26 @@ namespace ROPTLIB{
 			stepsize = -initialslope * prestepsize * prestepsize / 2 / (f2 - f1 - initialslope * prestepsize);
 			stepsize = (stepsize < LS_ratio2 * prestepsize) ? stepsize : LS_ratio2 * prestepsize;
 			stepsize = (stepsize > LS_ratio1 * prestepsize) ? stepsize : LS_ratio1 * prestepsize;
-			f2pre = f2;
-			prestepsize2 = prestepsize;
-			f2 = h();
-			prestepsize = stepsize;
+			if (stepsize < Minstepsize)
+			{
+				if (Verbose > FINALRESULT)
+				{
+					printf("Warning: step size reaches the minimum: %3.2e!\n", Minstepsize);
+				}
+				LSstatus = LSSM_MINSTEPSIZE;
+				stepsize = prestepsize; /*the last trial*/
+			}
+			else
+			{
+				f2pre = f2;
+				prestepsize2 = prestepsize;
+				f2 = h();
+				prestepsize = stepsize;
+			}
 		}
 
 		realdp a11, a12, a21, a22, b1, b2, c, a = 0, b = 0;
-		while (maxpref - f2 < -LS_alpha * initialslope * stepsize)
+		while (LSstatus == LSSM_SUCCESS && maxpref - f2 < -LS_alpha * initialslope * stepsize)
 		{
 			a11 = static_cast<realdp> (1) / prestepsize / prestepsize;
 			a12 = static_cast<realdp> (- 1) / prestepsize2 / prestepsize2;
@@ -379,6 +391,7 @@ namespace ROPTLIB{
 					printf("Warning: step size reaches the minimum: %3.2e!\n", Minstepsize);
 				}
 				LSstatus = LSSM_MINSTEPSIZE;
+				stepsize = prestepsize; /*the last trial*/
 				break;
 			}
 			f2pre = f2;
-- 
2.43.0


From eaf1e0ffeaf10744200ba8c1d476ee8e4db3552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:43 +0000
Subject: [PATCH 40/95] fix: a failed strong Wolfe line search left a step and
 a gradient that did not belong to the point

---
 Solvers/SolversSMLS.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 7248d1b..9330c8c 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -541,9 +541,13 @@ namespace ROPTLIB{
             xincr = (xincr < xdiff * LS_ratio2) ? xincr : xdiff * LS_ratio2;
 			stepsize = xlo + xincr;
 			times++;
-			if (times >= 10)
+			if (times >= 10 || stepsize < Minstepsize)
 			{
-				LSstatus = LSSM_LSERROR;
+				LSstatus = (times >= 10) ? LSSM_LSERROR : LSSM_MINSTEPSIZE;
+				/*return the best step size found, or the shortest one if all of them violate the sufficient decrease condition*/
+				stepsize = (xlo > 0) ? xlo : xhi;
+				f2 = h();
+				newslope = dh();
 				return;
 			}
 			f2 = h();
@@ -568,11 +572,6 @@ namespace ROPTLIB{
 				fxlo = f2;
 				xloslope = newslope;
 			}
-			if (stepsize <= Minstepsize)
-			{
-				LSstatus = LSSM_MINSTEPSIZE;
-				return;
-			}
 		}
 	};
 
-- 
2.43.0


From ef06cb766d5550ca9699e729e4e69304c34242ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 41/95] fix: line search solvers moved to a worse point when
 the line search failed

---
 Solvers/SolversSMLS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 9330c8c..b888157 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -101,6 +101,8 @@ namespace ROPTLIB{
 				printf("New function value is either nan or inf. Stop!\n");
 				break;
 			}
+			if (LSstatus < LSSM_SUCCESS && f2 > f1) /*the line search fails to find a better iterate, keep the current one*/
+				break;
 			iter++;
 
 			/*Update the Hessian approximation for quasi-Newton methods 
-- 
2.43.0


From 5586abf6a2f4b69e6513acbdb25d73b847ee7274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:59 +0000
Subject: [PATCH 42/95] fix: the exact line search compared with the norm of
 the gradient instead of the slope

---
 Solvers/SolversSMLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index b888157..a9ad320 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -430,7 +430,7 @@ namespace ROPTLIB{
 				if (t * LS_ratio < minstep)
 				{
 					sgf2 = dh();
-					if (fabs(sgf2 / initialslope) > 1e-1 && sf2 > f1 + LS_alpha * stepsize * ngf1)
+					if (fabs(sgf2 / initialslope) > 1e-1 && sf2 > f1 + LS_alpha * stepsize * initialslope)
 						LSstatus = LSSM_NONEXACT;
 					break;
 				}
-- 
2.43.0


From 863deac7903c5bc68f63df53cb86914ed09403ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:05 +0000
Subject: [PATCH 43/95] fix: the strong Wolfe line search interpolated with a
 huge value for the starting point and clamped reversed intervals to the wrong
 end

---
 Solvers/SolversSMLS.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index a9ad320..b7c03ae 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -496,7 +496,7 @@ namespace ROPTLIB{
 	/* Algorithm 3.5 in NW06 */
 	void SolversSMLS::LinesearchStrongWolfe(void)
 	{
-		realdp prestepsize = 0, fpre = std::numeric_limits<realdp>::max(), newslopepre = initialslope;
+		realdp prestepsize = 0, fpre = f1, newslopepre = initialslope;
         realdp tstepsize = 0;
 		LSstatus = LSSM_SUCCESS;
 		while (1)
@@ -539,8 +539,9 @@ namespace ROPTLIB{
 		{
 			xdiff = (xhi - xlo);
 			xincr = -xloslope * xdiff * xdiff / 2 / (fxhi - (fxlo + xloslope * xdiff));
-            xincr = (xincr < xdiff * LS_ratio1) ? xdiff * LS_ratio1 : xincr;
-            xincr = (xincr < xdiff * LS_ratio2) ? xincr : xdiff * LS_ratio2;
+            /*xdiff and xincr are negative if xhi < xlo*/
+            xincr = (xincr / xdiff < LS_ratio1) ? xdiff * LS_ratio1 : xincr;
+            xincr = (xincr / xdiff < LS_ratio2) ? xincr : xdiff * LS_ratio2;
 			stepsize = xlo + xincr;
 			times++;
 			if (times >= 10 || stepsize < Minstepsize)
-- 
2.43.0


From e7585a57d02a1530841a47fc3e8854ebacb32e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:28 +0000
Subject: [PATCH 44/95] fix: trust region solvers recorded the value of
 rejected candidates in the series of function values

---
 Solvers/SolversSMTR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSMTR.cpp b/Solvers/SolversSMTR.cpp
index 47f9f72..c811608 100644
--- a/Solvers/SolversSMTR.cpp
+++ b/Solvers/SolversSMTR.cpp
@@ -108,7 +108,7 @@ namespace ROPTLIB{
 			if (Verbose >= ITERRESULT)
 			{
 				timeSeriesptr[iter] = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
-				funSeriesptr[iter] = f2;
+				funSeriesptr[iter] = f1;
                 gradSeriesptr[iter] = ngf2;
 			}
 		}
-- 
2.43.0


From ff011b03491d1d20e2badb20d4b72647f028972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 45/95] fix: LRTRSR1 scaled its model by infinity or nan when
 the gradient difference is orthogonal to the step

---
 Solvers/LRTRSR1.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index ef2c5f6..719c763 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -519,7 +519,8 @@ namespace ROPTLIB{
         {
             inpsy = Mani->Metric(x1, s, y);
             inpyy = Mani->Metric(x1, y, y);
-            gamma = inpyy / inpsy;
+            if (fabs(inpsy) > mintol * sqrt(Mani->Metric(x1, s, s) * inpyy)) /*otherwise, y gives no scale*/
+                gamma = inpyy / inpsy;
             Mani->ScalarTimesVector(x1, gamma, s, &Heta2);
         }
         Vector zeta(y); Mani->ScalarVectorAddVector(x1, -1, Heta2, y, &zeta);
@@ -533,7 +534,7 @@ namespace ROPTLIB{
              function is quadratic and its Hessian is identity everywhere. */
         {
             inpyy = Mani->Metric(x1, y, y);
-            if(isupdated == true)
+            if(isupdated == true && fabs(inpsy) > mintol * sqrt(inpss * inpyy))
                 gamma = inpyy / inpsy;
             
             if(LMrestart && Currentlength >= LengthSY)
-- 
2.43.0


From d407c98d3da0a8d8166813903827d62706f2f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:13 +0000
Subject: [PATCH 46/95] fix: LRTRSR1 kept the memory position of the last run
 and read an unset flag

---
 Solvers/LRTRSR1.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 719c763..0cca618 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -36,6 +36,7 @@ namespace ROPTLIB{
 		SS = nullptr;
 		SY = nullptr;
 		gamma = 1;
+		isupdated = false;
 		SolverName.assign("LRTRSR1");
 	};
 
@@ -85,6 +86,10 @@ namespace ROPTLIB{
 		if (SY != nullptr)
 			delete[] SY;
 		SY = new realdp[LengthSY * LengthSY];
+		Currentlength = 0;
+		beginidx = 0;
+		gamma = 1;
+		isupdated = false;
 		SolversSMTR::Run();
 	};
 
-- 
2.43.0


From a28a9386edba58a31f8b9a27081644d37be35c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:41 +0000
Subject: [PATCH 47/95] fix: LRTRSR1 started its radius equation at a wrong
 bound when a gradient component is negative

---
 Solvers/LRTRSR1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 0cca618..72a2ffa 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -253,8 +253,8 @@ namespace ROPTLIB{
                     realdp sigmaHat = 0;
                     for (integer i = 0; i < k + 1; i++)
                     {
-                        if (sigmaHat < a_jptr[i] / Delta - Lambdaptr[i])
-                            sigmaHat = a_jptr[i] / Delta - Lambdaptr[i];
+                        if (sigmaHat < fabs(a_jptr[i]) / Delta - Lambdaptr[i])
+                            sigmaHat = fabs(a_jptr[i]) / Delta - Lambdaptr[i];
                     }
                     if (sigmaHat > -lambda_min)
                         sigmaStar = LocalNewton(sigmaHat, 10, tolLocalNewton, Lambda, a_j);
-- 
2.43.0


From ddcc42205af61e677e43be381c2656e08c8bab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:48 +0000
Subject: [PATCH 48/95] fix: LRTRSR1 left the trust region or aborted in the
 hard case of its subproblem

---
 Solvers/LRTRSR1.cpp | 46 ++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 72a2ffa..b91a770 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -206,40 +206,52 @@ namespace ROPTLIB{
                         v[i] = 0;
                     }
                 }
-                const realdp *P_parallelptr = P_parallel.ObtainReadData();
-                gemm_(GLOBAL::N, GLOBAL::N, &n, &GLOBAL::IONE, &k, &GLOBAL::DNONE, const_cast<realdp *> (P_parallelptr), &n, v, &k, &GLOBAL::DZERO, pStar, &n);
+                Vector p(n), gf1reshape(gf1); gf1reshape.Reshape(n);
+                p.SetToZeros();
+                if (k > 0)
+                {
+                    const realdp *P_parallelptr = P_parallel.ObtainReadData();
+                    gemm_(GLOBAL::N, GLOBAL::N, &n, &GLOBAL::IONE, &k, &GLOBAL::DNONE, const_cast<realdp *> (P_parallelptr), &n, v, &k, &GLOBAL::DZERO, p.ObtainWriteEntireData(), &n);
+                }
                 delete[] v;
                 if (fabs(gamma + sigmaStar) > tolLocalNewton)
                 {
-                    eta2 = (P_parallel * g_parallel - gf1) / (gamma + sigmaStar) + eta2;
+                    Vector gperp(gf1reshape);
+                    if (k > 0)
+                        gperp.AlphaABaddBetaThis(-1, P_parallel, GLOBAL::N, g_parallel, GLOBAL::N, 1); /* gperp = gf1 - P_parallel * g_parallel */
+                    p.AlphaXaddThis(static_cast<realdp> (-1) / (gamma + sigmaStar), gperp);
                 }
 
                 if (lambda_min < 0)
                 {
-                    realdp alpha = sqrt(Delta * Delta - dot_(&n, pStar, &GLOBAL::IONE, pStar, &GLOBAL::IONE));
+                    realdp alpha = Delta * Delta - p.DotProduct(p);
+                    alpha = (alpha > 0) ? sqrt(alpha) : 0;
 
+                    /*an eigenvector of the smallest eigenvalue*/
                     Vector zstar(n);
-                    if (fabs(lambda_min - Lambdaptr[0]) < tolLocalNewton)
+                    if (k > 0 && fabs(lambda_min - Lambdaptr[0]) < tolLocalNewton)
                     {
-                        zstar = (alpha / std::sqrt(P_parallel.DotProduct(P_parallel))) * P_parallel;
+                        zstar = P_parallel.GetSubmatrix(0, n - 1, 0, 0); zstar.Reshape(n);
                     }
                     else
-                    {
-                        realdp norm_umin = 1;
-                        for (integer i = 0; i < k; i++)
+                    {/*lambda_min is gamma, the eigenvectors are orthogonal to the columns of P_parallel. At least one of the first k + 1
+                      unit vectors is not in the range of P_parallel*/
+                        for (integer i = 0; i < k + 1 && i < n; i++)
                         {
-                            Vector subM = P_parallel.GetSubmatrix(i, i, 0, k - 1);
-                            zstar.AlphaABaddBetaThis(1, P_parallel, GLOBAL::N, subM, GLOBAL::T, 0); /*zstar = P_parallel * P_parallel.GetSubmatrix(i, i, 0, k - 1).GetTranspose();*/
-                            realdp *zstarptr = zstar.ObtainWritePartialData();
-                            zstarptr[i] += 1;
-                            norm_umin = std::sqrt(zstar.DotProduct(zstar));
-                            if (norm_umin > tolLocalNewton)
+                            zstar.SetToZeros();
+                            zstar.ObtainWritePartialData()[i] = 1;
+                            if (k > 0)
+                            {
+                                Vector subM = P_parallel.GetSubmatrix(i, i, 0, k - 1);
+                                zstar.AlphaABaddBetaThis(-1, P_parallel, GLOBAL::N, subM, GLOBAL::T, 1); /*zstar = e_i - P_parallel * P_parallel^T e_i;*/
+                            }
+                            if (zstar.Fnorm() * zstar.Fnorm() * (k + 1) > 0.5)
                                 break;
                         }
-                        zstar = (alpha / norm_umin) * zstar;
                     }
-                    eta2 = zstar + eta2;
+                    p.AlphaXaddThis(alpha / zstar.Fnorm(), zstar);
                 }
+                copy_(&n, const_cast<realdp *> (p.ObtainReadData()), &GLOBAL::IONE, pStar, &GLOBAL::IONE);
                 tCGstatusSM = TRSM_NEGCURVTURE;
             }
             else
-- 
2.43.0


From 00453b30b20a370c31a61140cfb2177b4f11276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:54 +0000
Subject: [PATCH 49/95] fix: RTRSR1 replaced its model in the second iteration
 and updated it with the action of the discarded one

---
 Solvers/RTRSR1.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Solvers/RTRSR1.cpp b/Solvers/RTRSR1.cpp
index d6b017f..b92030f 100644
--- a/Solvers/RTRSR1.cpp
+++ b/Solvers/RTRSR1.cpp
@@ -81,12 +81,19 @@ namespace ROPTLIB{
         Mani->InverseVectorTransport(x1, eta2, x2, gf2, &y);  nV++;
         Mani->ScalarVectorAddVector(x1, -1, gf1, y, &y);
         s = eta2;
+        
+        if (iter == 0)
+        {
+            realdp inpsy = Mani->Metric(x1, s, y), inpyy = Mani->Metric(x1, y, y);
+            if (fabs(inpsy) > sqrt(mintolsq * Mani->Metric(x1, s, s) * inpyy)) /*otherwise, y gives no scale*/
+            {
+                B.ScaledIdOPE(inpyy / inpsy);
+                Mani->ScalarTimesVector(x1, inpyy / inpsy, s, &Heta2);
+            }
+        }
         Vector zeta(y); Mani->ScalarVectorAddVector(x1, -1, Heta2, y, &zeta);
         denorminator = Mani->Metric(x1, s, zeta);
         
-        if (iter == 1)
-            B.ScaledIdOPE(Mani->Metric(x1, y, y) / Mani->Metric(x1, s, y));
-        
         inpss = Mani->Metric(x1, s, s);
         norm2ymBs = Mani->Metric(x1, zeta, zeta);
         if (denorminator * denorminator >= mintolsq * inpss * norm2ymBs && (norm2ymBs >= mintolsq || ngf2 / ngf0 < 1e-3))
-- 
2.43.0


From fa123087b37a20f714abee27632ae3373338a9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:01 +0000
Subject: [PATCH 50/95] fix: rank one updates divided by zero when the model is
 exact

---
 Solvers/LRTRSR1.cpp | 2 +-
 Solvers/RTRSR1.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index b91a770..80d088e 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -546,7 +546,7 @@ namespace ROPTLIB{
         inpss = Mani->Metric(x1, s, s);
         inpsy = Mani->Metric(x1, s, y);
         
-        if (denorminator * denorminator >= mintolsq * inpss * norm2ymBs && (norm2ymBs >= mintolsq || ngf2 / ngf0 < 1e-3)
+        if (denorminator != 0 && denorminator * denorminator >= mintolsq * inpss * norm2ymBs && (norm2ymBs >= mintolsq || ngf2 / ngf0 < 1e-3)
             && (iter != 0 || fabs(gamma - inpsy / inpss) > mintol)) /* This is for the robustness when the cost
              function is quadratic and its Hessian is identity everywhere. */
         {
diff --git a/Solvers/RTRSR1.cpp b/Solvers/RTRSR1.cpp
index b92030f..970bcf3 100644
--- a/Solvers/RTRSR1.cpp
+++ b/Solvers/RTRSR1.cpp
@@ -96,7 +96,7 @@ namespace ROPTLIB{
         
         inpss = Mani->Metric(x1, s, s);
         norm2ymBs = Mani->Metric(x1, zeta, zeta);
-        if (denorminator * denorminator >= mintolsq * inpss * norm2ymBs && (norm2ymBs >= mintolsq || ngf2 / ngf0 < 1e-3))
+        if (denorminator != 0 && denorminator * denorminator >= mintolsq * inpss * norm2ymBs && (norm2ymBs >= mintolsq || ngf2 / ngf0 < 1e-3))
         {
             Mani->HaddScaledRank1OPE(x1, B, static_cast<realdp> (1) / denorminator, zeta, zeta, &B);
             isupdated = true;
-- 
2.43.0


From 636a14f0d947f1af7baeba65b20ba9f47e731ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:26 +0000
Subject: [PATCH 51/95] fix: LRTRSR1 took the root of a negative rounding error
 and ignored gradients below an absolute bound

---
 Solvers/LRTRSR1.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 80d088e..b9d4045 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -161,10 +161,10 @@ namespace ROPTLIB{
         for(integer i = 0; i < k + 1; i++)
             if(lambda_min > Lambdaptr[i])
                 lambda_min = Lambdaptr[i];
-        realdp a_kp2 = std::sqrt(Mani->Metric(x1, gf1, gf1) - ((k == 0) ? 0 : g_parallel.DotProduct(g_parallel)));
-        
-        if (a_kp2 * a_kp2 < tolLocalNewton)
-            a_kp2 = 0;
+        /*the squared norm of the part of the gradient that is orthogonal to P_parallel. It may be negative due to rounding*/
+        realdp g_g = Mani->Metric(x1, gf1, gf1);
+        realdp a_kp2 = g_g - ((k == 0) ? 0 : g_parallel.DotProduct(g_parallel));
+        a_kp2 = (a_kp2 < tolLocalNewton * g_g) ? 0 : std::sqrt(a_kp2);
         
         Vector a_j(k + 1);
         realdp *a_jptr = a_j.ObtainWriteEntireData();
-- 
2.43.0


From ec866603cb9b1e3576de848f6a1c37de35756a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 52/95] fix: LRTRSR1 read past its eigenvalues or assumed a
 missing one when it stores as many pairs as there are dimensions

---
 Solvers/LRTRSR1.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index b9d4045..c3e073c 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -73,6 +73,9 @@ namespace ROPTLIB{
 
 	void LRTRSR1::Run(void)
 	{
+		/*the compact representation of the model needs linearly independent pairs*/
+		integer n = gf1.Getlength();
+		LengthSY = (LengthSY > n) ? n : LengthSY;
 		DeleteVectors(S, LengthSY);
 		NewVectors(S, LengthSY);
 		DeleteVectors(Y, LengthSY);
@@ -151,7 +154,7 @@ namespace ROPTLIB{
         const realdp *Dptr = D.ObtainReadData();
         for (integer i = 0; i < k; i++)
             Lambdaptr[i] = Dptr[i] + gamma;
-        Lambdaptr[k] = gamma;
+        Lambdaptr[k] = (k < n) ? gamma : Lambdaptr[k - 1]; /*if k = n, then there is no direction orthogonal to P_parallel*/
         
         for (integer i = 0; i < k + 1; i++)
             if (fabs(Lambdaptr[i]) <= tolLocalNewton)
-- 
2.43.0


From 58ee7b723bbd05dc5839bffd35589e9fea9c0129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:18 +0000
Subject: [PATCH 53/95] fix: Wolfe line search never ended once a trial value
 was not a number

---
 Solvers/SolversSMLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index b7c03ae..3fc352d 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -814,7 +814,7 @@ namespace ROPTLIB{
 				}
 				prestepsize = stepsize;
 				f2pre = f2;
-				stepsize = (steptemp <= static_cast<realdp> (1e-2) * stepsize) ? static_cast<realdp> (1e-2) * stepsize : steptemp;
+				stepsize = (steptemp > static_cast<realdp> (1e-2) * stepsize) ? steptemp : static_cast<realdp> (1e-2) * stepsize; /*also used if steptemp is nan*/
 				stepsize = (stepsize < Minstepsize) ? Minstepsize : stepsize;
 			}
 		}
-- 
2.43.0


From 94c45b102c3d5673feb9c5c0424ceb7ff350e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:23 +0000
Subject: [PATCH 54/95] fix: a run that starts at a stationary point was not
 stopped by the relative gradient criterion

---
 Solvers/SolversSM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSM.cpp b/Solvers/SolversSM.cpp
index c935bd3..78afdeb 100644
--- a/Solvers/SolversSM.cpp
+++ b/Solvers/SolversSM.cpp
@@ -66,7 +66,7 @@ namespace ROPTLIB{
 			return ngf2 < Tolerance;
         
 		if (Stop_Criterion == SM_GRAD_F_0)
-			return (ngf2 / ngf0) < Tolerance;
+			return ngf2 < Tolerance * ngf0 || ngf2 == 0; /*ngf0 is zero if the initial iterate is stationary*/
         
 		printf("Error: Stopping Criterion is not specefic!\n");
 		return true;
-- 
2.43.0


From a68a60c70fbc579b304cf6e31b9441ae92c024c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:20 +0000
Subject: [PATCH 55/95] fix: the initial step size was infinite or not a number
 at an exactly stationary iterate and the Wolfe search never ended

---
 Solvers/SolversSMLS.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 3fc352d..0156829 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -303,6 +303,9 @@ namespace ROPTLIB{
 			/*Safeguard for the initial stepsize*/
             stepsize = (stepsize < quadintstepsize / 100) ? quadintstepsize : stepsize;
 			stepsize = (stepsize < std::numeric_limits<realdp>::epsilon()) ? Initstepsize / ngf1 : stepsize;
+			if (std::isnan(stepsize)) /*no information about the scale*/
+				stepsize = Initstepsize;
+			stepsize = (stepsize > Maxstepsize) ? Maxstepsize : stepsize;
 		}
 	};
 
-- 
2.43.0


From 90bdc1a659d9af15bb0344648f5fc7cdda24b440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 56/95] fix: LRTRSR1 aborted for complex extrinsic vectors, it
 projected a step still viewed as real

---
 Solvers/LRTRSR1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index c3e073c..d009289 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -282,10 +282,10 @@ namespace ROPTLIB{
                     ComputeSBySMW(gamma + sigmaStar, Psig, Psi.Field("_R"), PMGQ, Psi); /*gf1, Psig, YMGS, PMGQ, RT*/
                 tCGstatusSM = TRSM_EXCREGION;
             }
-        Mani->Projection(x1, eta2, &eta2);
         /*recover the types of data*/
         gf1.Setiscomplex(gf1iscomplex);
         eta2.Setiscomplex(gf1iscomplex);
+        Mani->Projection(x1, eta2, &eta2);
     };
 
 	void LRTRSR1::ComputeSBySMW(realdp tauStar, const Vector &Psig, const Vector &R, const Vector &PMGQ, const Vector &Psi)
-- 
2.43.0


From a35011d7b74040af262b39dea5df117fd2c7cd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:27 +0000
Subject: [PATCH 57/95] fix: LRTRSR1 aborted for vectors that are not a column
 or a matrix

---
 Solvers/LRTRSR1.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index d009289..25e1d11 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -317,8 +317,10 @@ namespace ROPTLIB{
             /*otherwise, use below eta2*/
             /* eta2 = Psi * (vw % Psig) + (static_cast<realdp> (-1) / tauStar) * gf1; */
             Vector tmp = vw % Psig;
-            eta2 = gf1;
-            eta2.AlphaABaddBetaThis(1, Psi, GLOBAL::N, tmp, GLOBAL::N, static_cast<realdp> (-1) / tauStar);
+            eta2 = gf1; /*its shape need not be that of a column*/
+            integer n = Psi.Getrow(), k = Psi.Getcol();
+            realdp coef = static_cast<realdp> (-1) / tauStar;
+            gemv_(GLOBAL::N, &n, &k, &GLOBAL::DONE, const_cast<realdp *> (Psi.ObtainReadData()), &n, const_cast<realdp *> (tmp.ObtainReadData()), &GLOBAL::IONE, &coef, eta2.ObtainWritePartialData(), &GLOBAL::IONE);
             
 			return;
 		}
-- 
2.43.0


From 163690af175520d367731ac747bb54a65c7ad819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 58/95] fix: LRBFGS used the pairs of an earlier run, which it
 had deleted, when it was run again

---
 Solvers/LRBFGS.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Solvers/LRBFGS.cpp b/Solvers/LRBFGS.cpp
index 1782b5c..6c6fcd3 100644
--- a/Solvers/LRBFGS.cpp
+++ b/Solvers/LRBFGS.cpp
@@ -87,6 +87,10 @@ namespace ROPTLIB{
 		if (RHO != nullptr)
 			delete[] RHO;
 		RHO = new realdp[LengthSY];
+		Currentlength = 0;
+		beginidx = 0;
+		gamma = 1;
+		isupdated = false;
 		SolversSMLS::Run();
 	};
 
-- 
2.43.0


From 80b0d60f817d7aafa39dce419452b9496ced54a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:52 +0000
Subject: [PATCH 59/95] fix: the Newton methods aborted if another solver for
 the same problem was created before their run

---
 Solvers/RNewton.cpp   | 8 ++++++++
 Solvers/RNewton.h     | 3 +++
 Solvers/RTRNewton.cpp | 8 ++++++++
 Solvers/RTRNewton.h   | 3 +++
 4 files changed, 22 insertions(+)

diff --git a/Solvers/RNewton.cpp b/Solvers/RNewton.cpp
index 31b7b63..7fbaf47 100644
--- a/Solvers/RNewton.cpp
+++ b/Solvers/RNewton.cpp
@@ -8,6 +8,14 @@ namespace ROPTLIB{
 		Initialization(prob, initialx);
 	};
 
+	void RNewton::Run(void)
+	{
+		/*another solver for the same problem may have been created since this one*/
+		Prob->SetUseGrad(true);
+		Prob->SetUseHess(true);
+		SolversSMLS::Run();
+	};
+
 	void RNewton::SetProbX(const Problem *prob, const Variable *initialx)
 	{
 		SolversSMLS::SetProbX(prob, initialx);
diff --git a/Solvers/RNewton.h b/Solvers/RNewton.h
index 93de9ed..ff2e6f0 100644
--- a/Solvers/RNewton.h
+++ b/Solvers/RNewton.h
@@ -34,6 +34,9 @@ namespace ROPTLIB{
 		initialx is the initial iterate.*/
 		RNewton(const Problem *prob, const Variable *initialx);
 
+		/*Run the algorithm. The action of the Hessian is declared to be used before SolversSMLS::Run is called*/
+		virtual void Run(void);
+
 		/*Check whether the parameters about RNewton are legal or not.*/
 		virtual void CheckParams(void);
 
diff --git a/Solvers/RTRNewton.cpp b/Solvers/RTRNewton.cpp
index d76bf43..7eed1fa 100644
--- a/Solvers/RTRNewton.cpp
+++ b/Solvers/RTRNewton.cpp
@@ -9,6 +9,14 @@ namespace ROPTLIB{
 		Initialization(prob, initialx);
 	};
 
+	void RTRNewton::Run(void)
+	{
+		/*another solver for the same problem may have been created since this one*/
+		Prob->SetUseGrad(true);
+		Prob->SetUseHess(true);
+		SolversSMTR::Run();
+	};
+
 	void RTRNewton::SetProbX(const Problem *prob, const Variable *initialx)
 	{
 		SolversSMTR::SetProbX(prob, initialx);
diff --git a/Solvers/RTRNewton.h b/Solvers/RTRNewton.h
index d582c30..562fe72 100644
--- a/Solvers/RTRNewton.h
+++ b/Solvers/RTRNewton.h
@@ -25,6 +25,9 @@ namespace ROPTLIB{
 		initialx is the initial iterate.*/
 		RTRNewton(const Problem *prob, const Variable *initialx);
 
+		/*Run the algorithm. The action of the Hessian is declared to be used before SolversSMTR::Run is called*/
+		virtual void Run(void);
+
 	protected:
         /*Call Solvers::SetProbX function; initialize temporary vectors; and indicate RTRNewton needs action of Hessian.
         INPUT:    prob is the problem which defines the cost function, gradient and possible the action of Hessian
-- 
2.43.0


From 0702d3f276c713d894fbcf0e42f3cd3567830362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:17 +0000
Subject: [PATCH 60/95] fix: initial step sizes were taken from the
 Barzilai-Borwein step sizes of an earlier run of the same solver

---
 Solvers/SolversSMLS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 0156829..f9c1f98 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -10,6 +10,7 @@ namespace ROPTLIB{
         Variable xTemp(x1);
         Vector gfTemp = Prob->GetDomain()->GetEMPTY();
 		pre_funs.clear();
+		pre_BBs.clear();
 
 		SolversSM::Run();
 
-- 
2.43.0


From 3cf52bcb748fb17554a964c3678bc4b71cb9639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 61/95] fix: the stopping function given by the user was told
 that the series of function values is empty

---
 Solvers/AManPG.cpp          | 8 +++++++-
 Solvers/ManPG.cpp           | 8 +++++++-
 Solvers/Solvers.cpp         | 1 +
 Solvers/SolversNSMSubLS.cpp | 2 ++
 Solvers/SolversSMLS.cpp     | 8 +++++++-
 Solvers/SolversSMTR.cpp     | 6 ++++++
 6 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/Solvers/AManPG.cpp b/Solvers/AManPG.cpp
index 93045c1..8412a81 100644
--- a/Solvers/AManPG.cpp
+++ b/Solvers/AManPG.cpp
@@ -122,6 +122,7 @@ namespace ROPTLIB{
             timeSeriesptr[iter] = static_cast<realdp > (getTickCount() - starttime) / CLK_PS;
             funSeriesptr[iter] = f1;
             dirSeriesptr[iter] = 0;
+            lengthSeries = iter + 1;
             initialstepsizeptr[iter] = 0;
             acceptedstepsizeptr[iter] = 0;
         }
@@ -216,6 +217,11 @@ namespace ROPTLIB{
             
             /*Call the function to check whether the stopping criterion is satisfied or not.
             The default function is written in Solvers.h and Solvers.cpp*/
+            if (Verbose >= ITERRESULT)
+            {/*the stopping function is given the values so far*/
+                funSeriesptr[iter + 1] = f2;
+                lengthSeries = iter + 2;
+            }
             isstop = IsStopped();
             
             iter++;
@@ -229,7 +235,7 @@ namespace ROPTLIB{
                 }
                 /*Store debug information in the arrays*/
                 timeSeriesptr[iter] = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
-                funSeriesptr[iter] = f2; dirSeriesptr[iter] = ndir1;
+                dirSeriesptr[iter] = ndir1;
                 acceptedstepsizeptr[iter] = stepsize;
                 initialstepsizeptr[iter] = initiallength;
             }
diff --git a/Solvers/ManPG.cpp b/Solvers/ManPG.cpp
index 8f959af..24cef8b 100644
--- a/Solvers/ManPG.cpp
+++ b/Solvers/ManPG.cpp
@@ -49,6 +49,7 @@ namespace ROPTLIB{
             timeSeriesptr[iter] = static_cast<realdp > (getTickCount() - starttime) / CLK_PS;
             funSeriesptr[iter] = f1;
             dirSeriesptr[iter] = 0;
+            lengthSeries = iter + 1;
             initialstepsizeptr[iter] = 0;
             acceptedstepsizeptr[iter] = 0;
         }
@@ -117,6 +118,11 @@ namespace ROPTLIB{
             
             /*Call the function to check whether the stopping criterion is satisfied or not.
             The default function is written in SolversNSM.h and SolversNSM.cpp*/
+            if (Verbose >= ITERRESULT)
+            {/*the stopping function is given the values so far*/
+                funSeriesptr[iter] = f2;
+                lengthSeries = iter + 1;
+            }
             isstop = IsStopped();
 
             if (Verbose >= ITERRESULT)
@@ -128,7 +134,7 @@ namespace ROPTLIB{
                 }
                 /*Store debug information in the arrays*/
                 timeSeriesptr[iter] = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
-                funSeriesptr[iter] = f2; dirSeriesptr[iter] = ndir1;
+                dirSeriesptr[iter] = ndir1;
                 acceptedstepsizeptr[iter] = stepsize;
                 initialstepsizeptr[iter] = initiallength;
             }
diff --git a/Solvers/Solvers.cpp b/Solvers/Solvers.cpp
index 0c8d7e3..f85d0c9 100644
--- a/Solvers/Solvers.cpp
+++ b/Solvers/Solvers.cpp
@@ -34,6 +34,7 @@ namespace ROPTLIB{
 		mexCallMATLAB(0, lhs, 1, rhs, "feval");
 #endif
 		starttime = getTickCount();
+		lengthSeries = 0;
 		if (Verbose >= ITERRESULT)
 		{
             timeSeries = Vector(1 + Max_Iteration);
diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 808097d..986fe6d 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -30,6 +30,7 @@ namespace ROPTLIB{
 			timeSeriesptr[iter] = static_cast<realdp > (getTickCount() - starttime) / CLK_PS;
 			funSeriesptr[iter] = f1;
 			dirSeriesptr[iter] = 0;
+			lengthSeries = iter + 1; /*the stopping function is given the values so far*/
             initialstepsizeptr[iter] = 0;
             acceptedstepsizeptr[iter] = 0;
 		}
@@ -96,6 +97,7 @@ namespace ROPTLIB{
 				/*Store debug information in the arrays*/
 				timeSeriesptr[iter] = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
 				funSeriesptr[iter] = f2; dirSeriesptr[iter - 1] = ndir1;
+				lengthSeries = iter + 1;
                 initialstepsizeptr[iter] = initiallength;
                 acceptedstepsizeptr[iter] = stepsize;
 			}
diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index f9c1f98..a20f5cb 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -39,6 +39,7 @@ namespace ROPTLIB{
 			timeSeriesptr[iter] = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
 			funSeriesptr[iter] = f1;
 			gradSeriesptr[iter] = ngf1;
+			lengthSeries = iter + 1;
 			initialstepsizeptr[iter] = 0;
 			acceptedstepsizeptr[iter] = 0;
 		}
@@ -113,6 +114,11 @@ namespace ROPTLIB{
 			/*norm of the gradient at x2*/
 			ngf2 = sqrt(Mani->Metric(x2, gf2, gf2));
             
+			if (Verbose >= ITERRESULT)
+			{/*the stopping function is given the values so far*/
+				funSeriesptr[iter] = f2;
+				lengthSeries = iter + 1;
+			}
             /*Call the function to check whether the stopping criterion is satisfied or not.
             The default function is written in Solvers.h and Solvers.cpp*/
             isstop = IsStopped();
@@ -125,7 +131,7 @@ namespace ROPTLIB{
                 
 				/*Store debug information in the arrays*/
 				timeSeriesptr[iter] = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
-				funSeriesptr[iter] = f2; gradSeriesptr[iter] = ngf2;
+				gradSeriesptr[iter] = ngf2;
 				acceptedstepsizeptr[iter] = stepsize;
 			}
 			/*Switch information at x1 and x2*/
diff --git a/Solvers/SolversSMTR.cpp b/Solvers/SolversSMTR.cpp
index c811608..2639b6e 100644
--- a/Solvers/SolversSMTR.cpp
+++ b/Solvers/SolversSMTR.cpp
@@ -30,6 +30,7 @@ namespace ROPTLIB{
 			timeSeriesptr[iter] = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
 			funSeriesptr[iter] = f1;
             gradSeriesptr[iter] = ngf1;
+			lengthSeries = iter + 1;
 		}
 		Delta = initial_Delta;
 		bool isstop = IsStopped();
@@ -83,6 +84,11 @@ namespace ROPTLIB{
 			{
 				Acceptence(); /* Algorithm specific operations */
 				ngf2 = sqrt(Mani->Metric(x2, gf2, gf2));
+				if (Verbose >= ITERRESULT)
+				{/*the stopping function is given the values so far*/
+					funSeriesptr[iter + 1] = f2;
+					lengthSeries = iter + 2;
+				}
 				isstop = IsStopped(); /*This is done when the candidate is accepted. This is necessary for partly smooth stopping criterion*/
                 xTemp = x1;
                 x1 = x2;
-- 
2.43.0


From dbfbcb3a4ca8faf43295d4929e9e4cf217b65313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:00 +0000
Subject: [PATCH 62/95] fix: RNewton replaces the Newton step found in the
 first inner iteration by steepest descent

---
 Solvers/RNewton.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/RNewton.cpp b/Solvers/RNewton.cpp
index 7fbaf47..a81c78c 100644
--- a/Solvers/RNewton.cpp
+++ b/Solvers/RNewton.cpp
@@ -173,7 +173,7 @@ namespace ROPTLIB{
             Mani->ScalarVectorAddVector(x2, -1, z, delta, &delta); /*delta =  - z + betatemp * delta*/
 		}
 		innerIter = j;
-		if (j == 0)
+		if (j == 0 && tCGLSSMstatus != LSSM_LCON && tCGLSSMstatus != LSSM_SCON) /*no step has been taken*/
             eta1 = delta;
 	};
 
-- 
2.43.0


From 2ab95dc60a782b094418c78509e59aac10ab40cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:18 +0000
Subject: [PATCH 63/95] fix: RCG uses the preconditioner for its coefficient
 but not for its direction

---
 Solvers/RCG.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Solvers/RCG.cpp b/Solvers/RCG.cpp
index 70d174d..5238de5 100644
--- a/Solvers/RCG.cpp
+++ b/Solvers/RCG.cpp
@@ -89,7 +89,7 @@ namespace ROPTLIB{
         Vector Tgf1(gf1); Mani->VectorTransport(x1, eta2, x2, gf1, &Tgf1); nV++;
         Vector Teta1 = Prob->GetDomain()->GetEMPTY();
         Prob->PreConditioner(x2, gf2, &Pgf2);
-        if(std::fabs(Mani->Metric(x2, gf2, Tgf1)) / Mani->Metric(x1, gf1, gf1) > 0.1)
+        if(std::fabs(Mani->Metric(x2, Pgf2, Tgf1)) / Mani->Metric(x1, gf1, Pgf1) > 0.1)
         { /*Restart using the safeguard (5.52) in [NW06] */
             sigma = 0;
         }
@@ -130,8 +130,8 @@ namespace ROPTLIB{
                     Vector y(Tgf1);Mani->VectorLinearCombination(x2, 1, gf2, -1, Tgf1, &y);
                     Mani->VectorTransport(x1, eta2, x2, eta1, &Teta1); nVp++;
                     realdp yp = Mani->Metric(x2, y, Teta1);
-                    Mani->VectorLinearCombination(x2, 1, y, - 2.0 * Mani->Metric(x2, y, y) / yp, Teta1, &Tgf1);
-                    sigma = Mani->Metric(x2, Tgf1, Pgf2) / yp;
+                    Vector Py(y); Prob->PreConditioner(x2, y, &Py);
+                    sigma = (Mani->Metric(x2, y, Pgf2) - 2.0 * Mani->Metric(x2, y, Py) / yp * Mani->Metric(x2, Teta1, gf2)) / yp;
                 }
                     break;
                 default:
@@ -141,9 +141,9 @@ namespace ROPTLIB{
         }
         Pgf1 = Pgf2;
         if(sigma == 0)
-            Mani->ScalarTimesVector(x2, -1, gf2, &eta1);
+            Mani->ScalarTimesVector(x2, -1, Pgf2, &eta1);
         else
-            Mani->VectorLinearCombination(x2, -1, gf2, sigma, Teta1, &eta1);
+            Mani->VectorLinearCombination(x2, -1, Pgf2, sigma, Teta1, &eta1);
 	};
 
 	void RCG::SetParams(PARAMSMAP params)
-- 
2.43.0


From 76456c890b3968ff01f43c506daed3f6d5f4b6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:24 +0000
Subject: [PATCH 64/95] fix: the BB initial step size takes inner products at
 the previous iterate

---
 Solvers/SolversSMLS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index a20f5cb..9bf2e96 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -226,8 +226,8 @@ namespace ROPTLIB{
                 Mani->VectorTransport(x2, eta2, x1, eta2, &s);
                 Mani->VectorTransport(x2, eta2, x1, gf2, &y);
                 Mani->VectorLinearCombination(x1, 1, gf1, -1, y, &y);
-				BB1 = Mani->Metric(x2, s, s) / Mani->Metric(x2, s, y);
-				BB2 = Mani->Metric(x2, s, y) / Mani->Metric(x2, y, y);
+				BB1 = Mani->Metric(x1, s, s) / Mani->Metric(x1, s, y);
+				BB2 = Mani->Metric(x1, s, y) / Mani->Metric(x1, y, y);
 				pre_BBs.push_front((BB2 < std::numeric_limits<realdp>::epsilon()) ? Initstepsize / ngf1 : BB2);
 				if (pre_BBs.size() > Num_pre_BB)
 					pre_BBs.pop_back();
-- 
2.43.0


From 487fc79b4e5861abedd16a9aedde511f45d3ca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:20 +0000
Subject: [PATCH 65/95] fix: the bands of periodic splines overlap in memory

---
 Others/Spline.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Others/Spline.cpp b/Others/Spline.cpp
index 885c9ec..49fd9ae 100644
--- a/Others/Spline.cpp
+++ b/Others/Spline.cpp
@@ -9,10 +9,10 @@ namespace ROPTLIB{
 		int i, nn;
 		realdp *d, *ud, *ld, *vec, *s;
 		nn = n - 1;
-		d = new realdp[5 * nn - 1];
+		d = new realdp[5 * nn + 1];
 		ud = d + nn;
-		ld = ud + (nn - 1);
-		vec = ld + (nn - 1);
+		ld = ud + nn;
+		vec = ld + nn;
 		s = vec + nn;
 		if (fabs(Y[0] - Y[nn]) > sqrt(std::numeric_limits<realdp>::epsilon()))
 		{
@@ -54,10 +54,10 @@ namespace ROPTLIB{
 		realdp *d, *ud, *ld, *vec, *s;
 		realdp hi;
 		nn = n - 1;
-		d = new realdp[5 * nn - 1];
+		d = new realdp[5 * nn + 1];
 		ud = d + nn;
-		ld = ud + (nn - 1);
-		vec = ld + (nn - 1);
+		ld = ud + nn;
+		vec = ld + nn;
 		s = vec + nn;
 		if (fabs(Y[0] - Y[nn]) > sqrt(std::numeric_limits<realdp>::epsilon()))
 		{
-- 
2.43.0


From 63e07bc28e2908d8e8c6d819362e56f5771feb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:25 +0000
Subject: [PATCH 66/95] fix: periodic splines through two or three points read
 outside the bands

---
 Others/Spline.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/Others/Spline.cpp b/Others/Spline.cpp
index 49fd9ae..ede8eab 100644
--- a/Others/Spline.cpp
+++ b/Others/Spline.cpp
@@ -230,6 +230,24 @@ namespace ROPTLIB{
 		realdp temp = ud[nn - 1];
 		realdp coef;
 		int i;
+		if (nn < 3)
+		{ /*the bands of the cyclic matrix coincide*/
+			realdp det = (nn == 1) ? ld[0] + d[0] + ud[0] : d[0] * d[1] - (ld[0] + ud[0]) * (ld[1] + ud[1]);
+			if (nn < 1 || fabs(det) < std::numeric_limits<realdp>::epsilon())
+			{
+				printf("periodic system can not be solved!!");
+				return 0;
+			}
+			if (nn == 1)
+				s[1] = vec[0] / det;
+			else
+			{
+				s[1] = (vec[0] * d[1] - (ld[0] + ud[0]) * vec[1]) / det;
+				s[2] = (d[0] * vec[1] - (ld[1] + ud[1]) * vec[0]) / det;
+			}
+			s[0] = s[nn];
+			return 1;
+		}
 		realdp *last_column = new realdp[nn - 2];
 		last_column[0] = ld[0];
 
-- 
2.43.0


From 30b2d91386d29df9380eca3a28d920f04c3e6fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:30 +0000
Subject: [PATCH 67/95] fix: non-uniform splines look for the interval relative
 to the first break

---
 Others/Spline.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Others/Spline.cpp b/Others/Spline.cpp
index ede8eab..7c770e8 100644
--- a/Others/Spline.cpp
+++ b/Others/Spline.cpp
@@ -311,7 +311,7 @@ namespace ROPTLIB{
 		realdp output;
 		nn = N - 1;
 		i = 0;
-		while (i < N && t - (breaks[i] - breaks[0]) >= -std::numeric_limits<realdp>::epsilon())
+		while (i < N && t - breaks[i] >= -std::numeric_limits<realdp>::epsilon())
 			i++;
 		i--;
 		i = (i < 0) ? 0 : i;
@@ -370,7 +370,7 @@ namespace ROPTLIB{
 		nn = N - 1;
 		i = 0;
 
-		while (i < N && t - (breaks[i] - breaks[0]) >= -std::numeric_limits<realdp>::epsilon())
+		while (i < N && t - breaks[i] >= -std::numeric_limits<realdp>::epsilon())
 			i++;
 		i--;
 		i = (i < 0) ? 0 : i;
@@ -411,7 +411,7 @@ namespace ROPTLIB{
 		realdp output;
 		nn = N - 1;
 		i = 0;
-		while (i < N && t - (breaks[i] - breaks[0]) >= -std::numeric_limits<realdp>::epsilon())
+		while (i < N && t - breaks[i] >= -std::numeric_limits<realdp>::epsilon())
 			i++;
 		i--;
 		i = (i < 0) ? 0 : i;
-- 
2.43.0


From 21a0255c90c4c5599c1984a8e6c24293a0fbe89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:36 +0000
Subject: [PATCH 68/95] fix: proximal gradient parameters set by name are
 truncated to integers

---
 Solvers/SolversNSMPGLS.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Solvers/SolversNSMPGLS.cpp b/Solvers/SolversNSMPGLS.cpp
index cf6e767..e8fddf0 100644
--- a/Solvers/SolversNSMPGLS.cpp
+++ b/Solvers/SolversNSMPGLS.cpp
@@ -115,17 +115,17 @@ namespace ROPTLIB{
             else
             if (iter->first == static_cast<std::string> ("LS_ratio"))
             {
-                LS_ratio = static_cast<integer> (iter->second);
+                LS_ratio = static_cast<realdp> (iter->second);
             }
             else
             if (iter->first == static_cast<std::string> ("LS_alpha"))
             {
-                LS_alpha = static_cast<integer> (iter->second);
+                LS_alpha = static_cast<realdp> (iter->second);
             }
             else
             if (iter->first == static_cast<std::string> ("Minstepsize"))
             {
-                Minstepsize = static_cast<integer> (iter->second);
+                Minstepsize = static_cast<realdp> (iter->second);
             }
         }
     };
-- 
2.43.0


From d27276c56a611b5d61a1aee27623d4918199676d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:46 +0000
Subject: [PATCH 69/95] fix: HasHHR set by name is lost when a parameter set is
 chosen in the same call

---
 Manifolds/CStiefel.cpp       | 3 ++-
 Manifolds/CSymFixedRankQ.cpp | 3 ++-
 Manifolds/Sphere.cpp         | 2 ++
 Manifolds/Stiefel.cpp        | 3 ++-
 Manifolds/SymFixedRankQ.cpp  | 3 ++-
 5 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index d63c911..9da5e94 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -696,7 +696,6 @@ namespace ROPTLIB{
 
 	void CStiefel::SetParams(PARAMSMAP params)
 	{
-		Manifold::SetParams(params);
 		PARAMSMAP::iterator iter;
 		for (iter = params.begin(); iter != params.end(); iter++)
 		{
@@ -721,5 +720,7 @@ namespace ROPTLIB{
 				}
 			}
 		}
+		/*after the parameter set, which has its own value of HasHHR*/
+		Manifold::SetParams(params);
 	};
 }; /*end of ROPTLIB namespace*/
diff --git a/Manifolds/CSymFixedRankQ.cpp b/Manifolds/CSymFixedRankQ.cpp
index 150dc53..42baee4 100644
--- a/Manifolds/CSymFixedRankQ.cpp
+++ b/Manifolds/CSymFixedRankQ.cpp
@@ -25,7 +25,6 @@ namespace ROPTLIB{
 
     void CSymFixedRankQ::SetParams(PARAMSMAP params)
     {
-        Manifold::SetParams(params);
         PARAMSMAP::iterator iter;
         for (iter = params.begin(); iter != params.end(); iter++)
         {
@@ -52,6 +51,8 @@ namespace ROPTLIB{
                 }
             }
         }
+        /*after the parameter set, which has its own value of HasHHR*/
+        Manifold::SetParams(params);
     };
 
     void CSymFixedRankQ::ChooseParamsSet1(void)
diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index f1a9b0c..5593867 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -288,5 +288,7 @@ namespace ROPTLIB{
 				}
 			}
 		}
+		/*after the parameter set, which has its own value of HasHHR*/
+		Manifold::SetParams(params);
 	};
 }; /*end of ROPTLIB namespace*/
diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index a519379..1ed5d39 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -986,7 +986,6 @@ namespace ROPTLIB{
 
 	void Stiefel::SetParams(PARAMSMAP params)
 	{
-		Manifold::SetParams(params);
 		PARAMSMAP::iterator iter;
 		for (iter = params.begin(); iter != params.end(); iter++)
 		{
@@ -1014,5 +1013,7 @@ namespace ROPTLIB{
 				}
 			}
 		}
+		/*after the parameter set, which has its own value of HasHHR*/
+		Manifold::SetParams(params);
 	};
 }; /*end of ROPTLIB namespace*/
diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index d46c92d..1612668 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -21,7 +21,6 @@ namespace ROPTLIB{
 
 	void SymFixedRankQ::SetParams(PARAMSMAP params)
 	{
-		Manifold::SetParams(params);
 		PARAMSMAP::iterator iter;
 		for (iter = params.begin(); iter != params.end(); iter++)
 		{
@@ -54,6 +53,8 @@ namespace ROPTLIB{
 				}
 			}
 		}
+		/*after the parameter set, which has its own value of HasHHR*/
+		Manifold::SetParams(params);
 	};
 
 	void SymFixedRankQ::ChooseParamsSet1(void)
-- 
2.43.0


From 508cf6f43f5910795587a6165938ecb7cc67cf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:55 +0000
Subject: [PATCH 70/95] fix: SymFixedRankQ lists its metric under the name of
 another one

---
 Manifolds/SymFixedRankQ.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index 1612668..ea48526 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -105,7 +105,7 @@ namespace ROPTLIB{
 
     void SymFixedRankQ::CheckParams(void) const
     {
-        std::string SFRANKQMetricnames[SFRANKQMETRICLENGTH] = { "SFRANKQEUC", "SFRANKQQEUC", "SFRANKQHGZ" };
+        std::string SFRANKQMetricnames[SFRANKQMETRICLENGTH] = { "SFRANKQEUC", "SFRANKQHGZ", "SFRANKQQEUC" };
         std::string SFRANKQVTnames[SFRANKQVECTORTRANSPORTLENGTH] = { "SFRANKQPARALLELIZATION", "SFRANKQPROJECTION" };
         Manifold::CheckParams();
         printf("%s PARAMETERS:\n", name.c_str());
-- 
2.43.0


From a7d6c7350ed30bc7776378a96dd9f70055c9c366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:02 +0000
Subject: [PATCH 71/95] fix: RandGaussian scales by the variance and moves the
 mean before scaling

---
 Manifolds/SmartSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/SmartSpace.cpp b/Manifolds/SmartSpace.cpp
index 7efe44f..ca00eca 100644
--- a/Manifolds/SmartSpace.cpp
+++ b/Manifolds/SmartSpace.cpp
@@ -73,7 +73,7 @@ namespace ROPTLIB{
 	{
 		NewMemoryOnWrite();
 		for (integer i = 0; i < length; i++)
-			Space[i] = (genrandnormal() + mean) * variance;
+			Space[i] = genrandnormal() * sqrt(variance) + mean;
 	};
 
     void SmartSpace::SetToZeros(void)
-- 
2.43.0


From 978c478a3b39a6daa73a31723472e2ddaa76225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:51 +0000
Subject: [PATCH 72/95] fix: the Euclidean Hessian of SphereSparsestVector is
 not the identity

---
 Problems/SphereSparsestVector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Problems/SphereSparsestVector.cpp b/Problems/SphereSparsestVector.cpp
index af3b503..5a28be2 100644
--- a/Problems/SphereSparsestVector.cpp
+++ b/Problems/SphereSparsestVector.cpp
@@ -45,7 +45,9 @@ namespace ROPTLIB{
 	
 	Vector &SphereSparsestVector::EucHessianEta(const Variable &x, const Vector &etax, Vector *result) const
 	{
+        /*the cost is linear around every point at which it is differentiable*/
         *result = etax;
+        result->SetToZeros();
         return *result;
 	};
 
-- 
2.43.0


From 506f2fef4664844fa8934d29e234e5e57b48c822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:57 +0000
Subject: [PATCH 73/95] fix: the penalty of blind deconvolution reads past the
 end of the second factor

---
 Problems/CFRankQ2FBlindDecon2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Problems/CFRankQ2FBlindDecon2D.cpp b/Problems/CFRankQ2FBlindDecon2D.cpp
index 1024ff1..5c09e4e 100644
--- a/Problems/CFRankQ2FBlindDecon2D.cpp
+++ b/Problems/CFRankQ2FBlindDecon2D.cpp
@@ -57,7 +57,7 @@ namespace ROPTLIB {
                 rownorm2FBUptr[i] = dot_(&length, const_cast<realdp *> (FBUptr) + i * 2, &LL2, const_cast<realdp *> (FBUptr) + i * 2, &LL2);
                 rownorm2FBUptr[i] += dot_(&length, const_cast<realdp *> (FBUptr) + i * 2 + 1, &LL2, const_cast<realdp *> (FBUptr) + i * 2 + 1, &LL2);
             }
-            length = L * 2 * r;
+            length = V.Getlength();
             const realdp *Vptr = V.ObtainReadData();
             rownorm2FBUptr[L] = dot_(&length, const_cast<realdp *> (Vptr), &GLOBAL::IONE, const_cast<realdp *> (Vptr), &GLOBAL::IONE);
             
-- 
2.43.0


From bafed180a8da2ef1e7e17196aa5127e80200ec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:25 +0000
Subject: [PATCH 74/95] fix: convex hulls of matrix shaped or product tangent
 vectors abort

---
 Problems/SphereConvexHull.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Problems/SphereConvexHull.cpp b/Problems/SphereConvexHull.cpp
index 9891061..8d99e4b 100644
--- a/Problems/SphereConvexHull.cpp
+++ b/Problems/SphereConvexHull.cpp
@@ -24,7 +24,7 @@ namespace ROPTLIB{
         Vector xsq = x.GetHadamardProduct(x);
         const realdp *xsqPtr = xsq.ObtainReadData();
         
-        Vector Wxsq(W[0].Getrow()), PWxsq(W[0].Getrow());
+        Vector Wxsq(W[0]), PWxsq(W[0]);
         Wxsq.SetToZeros();
         for(integer i = 0; i < lengthW; i++)
         {
@@ -68,7 +68,7 @@ namespace ROPTLIB{
         }
         Vector xeta = x.GetHadamardProduct(etax);
         const realdp *xetaptr = xeta.ObtainReadData();
-        Vector Wxeta(W[0].Getrow()), PWxeta(W[0].Getrow());
+        Vector Wxeta(W[0]), PWxeta(W[0]);
         Wxeta.SetToZeros();
         for(integer i = 0; i < lengthW; i++)
         {
-- 
2.43.0


From 70f7dd05358798162e981a667ee8aecfa9053f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:53 +0000
Subject: [PATCH 75/95] fix: SolversNSMSubLS::GetSearchDir left the length of
 the previous direction when the least norm vector is short

---
 Solvers/SolversNSMSubLS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 986fe6d..9571a90 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -253,6 +253,7 @@ namespace ROPTLIB{
 			}
 			if (nminPv <= Del)
 			{
+				ndir1 = nminPv;
 				return;
 			}
             /*end the stopping criterion*/
-- 
2.43.0


From 391f50ecbeffde6bd9bd5e39863580afd3c48b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:57 +0000
Subject: [PATCH 76/95] fix: SolversNSMSubLS::GetSearchDir computes the least
 norm vector with the last gradient it collected

---
 Solvers/SolversNSMSubLS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 9571a90..d5053a3 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -234,7 +234,7 @@ namespace ROPTLIB{
         gfs[0] = gf1;
 		Currentlengthgfs = 1;
 		realdp Pngfsq = 0, hb;
-		for (integer i = 0; i < Lengthgfs - 1; i++)
+		for (integer i = 0; i < Lengthgfs; i++)
 		{
 			/*minPv = argmin \| v \|_P^2, v in convex hall of W, let eta1 = - P minPv.*/
 			Pngfsq = MinPNormConHull(Mani, x1, gfs, Currentlengthgfs, this, Hv, minPv);
@@ -262,7 +262,7 @@ namespace ROPTLIB{
 			stepsize = Eps / ndir1;
 			f2 = h();
 			hb = f2 - f1 + LS_alpha * stepsize * Pngfsq; /* - Pngfsq is the initial slope*/
-			if (hb <= 0)
+			if (hb <= 0 || Currentlengthgfs == Lengthgfs)
 			{
 				return;
 			}
-- 
2.43.0


From 1cb35ae079d5612c4b57beeea2e2dff9e200ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:02 +0000
Subject: [PATCH 77/95] fix: SolversNSMSubLS::Run ends when no smaller
 neighborhood and no search direction is left

---
 Solvers/SolversNSMSubLS.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index d5053a3..3db597b 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -48,6 +48,9 @@ namespace ROPTLIB{
 			isstop = IsStopped();
 			if (fabs(ndir1) <= Del || fabs(ndir1) <= Tolerance)
 			{
+				/*no smaller neighborhood is left and there is no direction to go*/
+				if (Eps <= Min_Eps && fabs(ndir1) <= Tolerance)
+					break;
 				Eps *= Theta_eps;
 				Eps = (Eps > Min_Eps) ? Eps : Min_Eps;
 				if (Eps > Min_Eps)
@@ -56,7 +59,7 @@ namespace ROPTLIB{
 				}
 				else
 				{
-					while (fabs(ndir1) < Del)
+					while (fabs(ndir1) <= Del && Del > 0)
 					{
 						Del *= Theta_del;
 					}
-- 
2.43.0


From 07fc85cae0133e979a7be0eff6824cf9e37d1bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:36 +0000
Subject: [PATCH 78/95] fix: SolversNSMSubLS::Run ended by a stopping criterion
 that was evaluated for a larger neighborhood than Min_Eps

---
 Solvers/SolversNSMSubLS.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 3db597b..5644c45 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -39,13 +39,16 @@ namespace ROPTLIB{
         LSstatus = LSNSM_SUCCESS;
 
 		/*Start the loop*/
-		while ( iter < Max_Iteration && ((!isstop) || iter < Min_Iteration || Eps > Min_Eps) && (LSstatus == LSNSM_SUCCESS || LSstatus == LSNSM_MAXSTEPSIZE) )
+		while ( iter < Max_Iteration && (LSstatus == LSNSM_SUCCESS || LSstatus == LSNSM_MAXSTEPSIZE) )
 		{
 			GetSearchDir(); /* Obtain search direction eta1, the minimum length vector minPv, and ndir1 = \|minPv\|_P */
 
 			/*Call the function to check whether the stopping criterion is satisfied or not.
 			The default function is written in Solvers.h and Solvers.cpp*/
 			isstop = IsStopped();
+			/*reported only if it holds for the smallest neighborhood*/
+			if (isstop && iter >= Min_Iteration && Eps <= Min_Eps)
+				break;
 			if (fabs(ndir1) <= Del || fabs(ndir1) <= Tolerance)
 			{
 				/*no smaller neighborhood is left and there is no direction to go*/
-- 
2.43.0


From 71fc2e771d820339c3a9452266113f9f12ffd155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:42 +0000
Subject: [PATCH 79/95] fix: SolversNSMSubLS::Run evaluated the stopping
 criterion with a trial point of GetSearchDir or the previous iterate

---
 Solvers/SolversNSMSubLS.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 5644c45..6886b82 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -41,8 +41,12 @@ namespace ROPTLIB{
 		/*Start the loop*/
 		while ( iter < Max_Iteration && (LSstatus == LSNSM_SUCCESS || LSstatus == LSNSM_MAXSTEPSIZE) )
 		{
+			ftmp = f2;
 			GetSearchDir(); /* Obtain search direction eta1, the minimum length vector minPv, and ndir1 = \|minPv\|_P */
 
+			/*x2 and f2 were used for trial points; the stopping criterion is about the current iterate and the last two values*/
+			f2 = ftmp; x2 = x1;
+
 			/*Call the function to check whether the stopping criterion is satisfied or not.
 			The default function is written in Solvers.h and Solvers.cpp*/
 			isstop = IsStopped();
-- 
2.43.0


From 15e4fc4f9ce91b732cdb4ea1f85e2acea7202044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:47 +0000
Subject: [PATCH 80/95] fix: SolversNSMSubLS::Run ignored TimeBound until the
 neighborhood was the smallest one

---
 Solvers/SolversNSMSubLS.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 6886b82..4b6a629 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -50,6 +50,9 @@ namespace ROPTLIB{
 			/*Call the function to check whether the stopping criterion is satisfied or not.
 			The default function is written in Solvers.h and Solvers.cpp*/
 			isstop = IsStopped();
+			/*the bound on time holds for every neighborhood*/
+			if (static_cast<realdp>(getTickCount() - starttime) / CLK_PS > TimeBound)
+				break;
 			/*reported only if it holds for the smallest neighborhood*/
 			if (isstop && iter >= Min_Iteration && Eps <= Min_Eps)
 				break;
-- 
2.43.0


From 33e8512c14ca8567ffc88488a6c221f2dbeb1ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:52 +0000
Subject: [PATCH 81/95] fix: SolversNSMSubLS::Run left the last entry of the
 series of search direction lengths unset

---
 Solvers/SolversNSMSubLS.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 4b6a629..5a49d2b 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -124,7 +124,10 @@ namespace ROPTLIB{
 		}
 		ComTime = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
 		if (Verbose >= ITERRESULT)
+		{
 			lengthSeries = iter + 1;
+			dirSeriesptr[iter] = ndir1;
+		}
         PrintFinalInfo();
 	};
 
-- 
2.43.0


From 8dd6257d248fb0aa6638dbe7438c980a14c30a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:57 +0000
Subject: [PATCH 82/95] fix: SolversNSMSubLS::LinesearchWolfeLipschitz recorded
 a step at the maximum that was not taken

---
 Solvers/SolversNSMSubLS.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 5a49d2b..3ba4d1b 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -356,17 +356,17 @@ namespace ROPTLIB{
                 stepsize = (2 * stepsize < Maxstepsize) ? 2 * stepsize : Maxstepsize;
 
                 if (stepsize == Maxstepsize)
+                {/*x2, f2 and gf2 belong to the last step that was evaluated*/
+                    stepsize = prestepsize;
+                    LSstatus = LSNSM_MAXSTEPSIZE;
                     break;
+                }
             }
         }
         if (stepsize <= Minstepsize)
         {
             LSstatus = LSNSM_MINSTEPSIZE;
         }
-        if (stepsize >= Maxstepsize)
-        {
-            LSstatus = LSNSM_MAXSTEPSIZE;
-        }
     };
 
     void SolversNSMSubLS::ZoomLP(realdp a, realdp b)
-- 
2.43.0


From 83bb386a6357ae3816a164116350bfc488f0a305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:03 +0000
Subject: [PATCH 83/95] fix: SolversNSMSubLS::ZoomLP ended at a trial point of
 larger cost or not at all

---
 Solvers/SolversNSMSubLS.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 3ba4d1b..f886ea3 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -376,14 +376,23 @@ namespace ROPTLIB{
         {
             stepsize = (a + b) / 2;
 
-            if (stepsize < Minstepsize)
+            if (stepsize < Minstepsize || stepsize <= a || stepsize >= b)
             {
                 if (Verbose > FINALRESULT)
                 {
                     printf("Warning: step size reaches the minimum: %3.2e!\n", Minstepsize);
                 }
                 LSstatus = LSNSM_MINSTEPSIZE;
+                /*keep the last point with a sufficient decrease, which is x1 if there is none*/
+                stepsize = a;
+                f2 = h();
                 dh();
+                if (f2 > f1)
+                {
+                    stepsize = 0;
+                    Mani->ScalarTimesVector(x1, stepsize, eta1, &eta2);
+                    x2 = x1; gf2 = gf1; f2 = f1;
+                }
                 break;
             }
 
-- 
2.43.0


From 03d3ef9cf16c103e8472e7fae6162f126014df23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:27 +0000
Subject: [PATCH 84/95] fix: LRBFGSSub::Run used the pairs of a previous run
 after they were deleted

---
 Solvers/LRBFGSSub.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Solvers/LRBFGSSub.cpp b/Solvers/LRBFGSSub.cpp
index 8c70bac..2e2408d 100644
--- a/Solvers/LRBFGSSub.cpp
+++ b/Solvers/LRBFGSSub.cpp
@@ -13,6 +13,10 @@ namespace ROPTLIB{
         if (RHO != nullptr)
             delete[] RHO;
         RHO = new realdp[LengthSY];
+        /*the pairs of a previous run are gone*/
+        Currentlength = 0;
+        beginidx = 0;
+        gamma = 1;
         SolversNSMSubLS::Run();
 	};
 
-- 
2.43.0


From 680a567c5412ae3e810f16be49dcc58c1c9c7b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:14 +0000
Subject: [PATCH 85/95] fix: Del was shrunk to zero when the least norm vector
 vanished in SolversNSMSubLS

---
 Solvers/SolversNSMSubLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index f886ea3..169101f 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -69,7 +69,7 @@ namespace ROPTLIB{
 				}
 				else
 				{
-					while (fabs(ndir1) <= Del && Del > 0)
+					while (fabs(ndir1) > 0 && fabs(ndir1) <= Del)
 					{
 						Del *= Theta_del;
 					}
-- 
2.43.0


From 9d53cce1b1fb13f1f13fd6e52152292d070215ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:05 +0000
Subject: [PATCH 86/95] fix: division by zero when the search direction
 vanished in SolversNSMSubLS

---
 Solvers/SolversNSMSubLS.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 169101f..3a79ff0 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -275,6 +275,10 @@ namespace ROPTLIB{
             /*end the stopping criterion*/
             
 			ndir1 = sqrt(Mani->Metric(x1, eta1, eta1));
+			if (ndir1 == 0) /*no direction to go*/
+			{
+				return;
+			}
 			stepsize = Eps / ndir1;
 			f2 = h();
 			hb = f2 - f1 + LS_alpha * stepsize * Pngfsq; /* - Pngfsq is the initial slope*/
-- 
2.43.0


From 450f610d237857d81295dd1fc085f73731846d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:36 +0000
Subject: [PATCH 87/95] fix: a solver for a subproblem restarted the clock of
 the solver that uses it

---
 Problems/Problem.h  | 1 -
 Solvers/Solvers.cpp | 1 -
 Solvers/Solvers.h   | 2 +-
 3 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/Problems/Problem.h b/Problems/Problem.h
index 153dce5..f3d561a 100644
--- a/Problems/Problem.h
+++ b/Problems/Problem.h
@@ -23,7 +23,6 @@ namespace ROPTLIB{
     class Problem;
 
     extern Vector MinMaxEigValHessian(Variable *X, Manifold *Domain, const Problem *Prob);
-    extern unsigned long starttime;    /*the start time of running the algorithm*/
 
 	class Problem{
 	public:
diff --git a/Solvers/Solvers.cpp b/Solvers/Solvers.cpp
index f85d0c9..2b7465b 100644
--- a/Solvers/Solvers.cpp
+++ b/Solvers/Solvers.cpp
@@ -4,7 +4,6 @@
 /*Define the namespace*/
 namespace ROPTLIB{
 
-    unsigned long starttime = 0;
 	void Solvers::CheckParams(void)
 	{
 		std::string VERBOSEnames[VERBOSELENGTH] = { "NOOUTPUT", "FINALRESULT", "ITERRESULT", "DETAILED" };
diff --git a/Solvers/Solvers.h b/Solvers/Solvers.h
index 10a6997..bcd6f19 100644
--- a/Solvers/Solvers.h
+++ b/Solvers/Solvers.h
@@ -29,7 +29,6 @@ namespace ROPTLIB{
 	The details of output information can be found in Appendix B of the User Manual.
 	*/
 	enum VERBOSEINFO{ NOOUTPUT, FINALRESULT, ITERRESULT, DETAILED, VERBOSELENGTH };
-    extern unsigned long starttime;    /*the start time of running the algorithm*/
 
 	class Solvers{
 	public:
@@ -157,6 +156,7 @@ namespace ROPTLIB{
 
 		/* For debug information */
 		integer iter; /*number of iterations*/
+		unsigned long starttime;    /*the start time of this run; a solver may run other solvers for its subproblems*/
 		realdp ComTime;	/*the computational time*/
 		integer nf, ng, nR, nV, nVp, nH; /*number of function evaluations
 										 number of gradient evaluations
-- 
2.43.0


From 87520f8f2fa347909deb6c0fbe386437c2fa1377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:50 +0000
Subject: [PATCH 88/95] fix: search direction and least norm vector did not
 belong together in SolversNSMSubLS::GetSearchDir

---
 Solvers/SolversNSMSubLS.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 3a79ff0..b2c299b 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -264,8 +264,12 @@ namespace ROPTLIB{
 				nminPv = sqrt(Mani->Metric(x1, minPv, minPv));
 			else
 			{
-				nminPv = sqrt(MinPNormConHull(Mani, x1, gfs, Currentlengthgfs, nullptr, nullptr, minPv));
+				/*minPv stays the vector eta1 has been computed from, unless the algorithm stops here*/
+				Vector minv(minPv);
+				nminPv = sqrt(MinPNormConHull(Mani, x1, gfs, Currentlengthgfs, nullptr, nullptr, minv));
 				subprobtimes++;
+				if (nminPv <= Del)
+					minPv = minv;
 			}
 			if (nminPv <= Del)
 			{
-- 
2.43.0


From 07edc91cd52bbf3153d24546cdadd7bbf5119964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:00 +0000
Subject: [PATCH 89/95] fix: the step of a rejected trial was returned by
 TangentSpaceProximalMap

---
 Manifolds/Manifold.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 413a002..483eef2 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -938,6 +938,8 @@ namespace ROPTLIB{
             nFz = nFu;
             (*outSMiter)++;
         }
+        if(earlytermination) /*BLambda is that of the rejected trial*/
+            ComputeBLambda(x, SMz, Weight, etax, prob, &BLambda);
         *inoutinitD = SMz;
         prob->ProxW(BLambda, Weight, result); result->AlphaXaddThis(-1, x); /*result = prob->ProxW(BLambda, Weight) - x*/
         Projection(x, *result, result);
-- 
2.43.0


From ef4227793a19f6eb2577724b0ae8029653437ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:21 +0000
Subject: [PATCH 90/95] fix: AManPG did not count all evaluations

---
 Solvers/AManPG.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Solvers/AManPG.cpp b/Solvers/AManPG.cpp
index 8412a81..8287d00 100644
--- a/Solvers/AManPG.cpp
+++ b/Solvers/AManPG.cpp
@@ -204,16 +204,16 @@ namespace ROPTLIB{
             totalSMiter += SMiter;
             totalSMCGiter += SMCGiter;
             
-            Mani->Retraction(y1, eta1, &z2);
-            fz2 = Prob->f(z2);
+            Mani->Retraction(y1, eta1, &z2); nR++;
+            fz2 = Prob->f(z2); nf++;
             s2 = (1.0 + std::sqrt(1.0 + 4.0 * s1 * s1)) / 2.0;
             Vector zeta(gf1); Mani->InvRetraction(z2, z1, &zeta);
             Mani->ScalarTimesVector(z2, -(s1 - 1) / s2, zeta, &zeta);
             
-            Mani->Retraction(z2, zeta, &y2);
+            Mani->Retraction(z2, zeta, &y2); nR++;
             
-            fy2 = Prob->f(y2);
-            Prob->Grad(y2, &gfy2);
+            fy2 = Prob->f(y2); nf++;
+            Prob->Grad(y2, &gfy2); ng++;
             
             /*Call the function to check whether the stopping criterion is satisfied or not.
             The default function is written in Solvers.h and Solvers.cpp*/
-- 
2.43.0


From e2f850c0097d34c94cf7fce2a0f5ca98b67bcffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:26 +0000
Subject: [PATCH 91/95] fix: the line search of the proximal gradient solvers
 accepted an increase of the cost

---
 Solvers/SolversNSMPGLS.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Solvers/SolversNSMPGLS.cpp b/Solvers/SolversNSMPGLS.cpp
index e8fddf0..3332da7 100644
--- a/Solvers/SolversNSMPGLS.cpp
+++ b/Solvers/SolversNSMPGLS.cpp
@@ -64,8 +64,10 @@ namespace ROPTLIB{
         LSstatus = LSPG_SUCCESS;
         f2 = h();
         realdp maxpref = f1;
+        /*initialslope is that of the smooth part of the cost. It may be positive, the cost must not increase.*/
+        realdp slope = (initialslope < 0) ? initialslope : 0;
         /* simple backtracking */
-        while (maxpref - f2 < - LS_alpha * initialslope * stepsize)
+        while (maxpref - f2 < - LS_alpha * slope * stepsize)
         {
             stepsize *= LS_ratio;
             if (stepsize < Minstepsize)
-- 
2.43.0


From 36996272d9066280c5ce941412c799b86394534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:46 +0000
Subject: [PATCH 92/95] fix: AManPG with NSM_FUN_REL stopped as soon as the
 safeguard restarted

---
 Solvers/AManPG.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Solvers/AManPG.cpp b/Solvers/AManPG.cpp
index 8287d00..1fcee29 100644
--- a/Solvers/AManPG.cpp
+++ b/Solvers/AManPG.cpp
@@ -105,6 +105,7 @@ namespace ROPTLIB{
         z1 = x1; gfz1 = gf1; fz1 = f1;
         
         s1 = 1;
+        realdp fpre = f1;
         iter = 0;
         
         Vector initialstepsize(1 + Max_Iteration), acceptedstepsize(1 + Max_Iteration);
@@ -195,6 +196,7 @@ namespace ROPTLIB{
                     s1 = 1;
                 }
                 /*update the safeguard iterate*/
+                fpre = f1;
                 x1 = z1;
                 f1 = Prob->f(x1); nf++;
                 Prob->Grad(x1, &gf1); ng++;
@@ -222,7 +224,11 @@ namespace ROPTLIB{
                 funSeriesptr[iter + 1] = f2;
                 lengthSeries = iter + 2;
             }
+            /*x1 only changes here if the safeguard was updated, its relative change is with respect to the previous safeguard iterate*/
+            realdp fTemp = f2;
+            f2 = (iter % SGIterGap == 0) ? fpre : std::numeric_limits<realdp>::infinity();
             isstop = IsStopped();
+            f2 = fTemp;
             
             iter++;
 
-- 
2.43.0


From 5c208bfd9e6050140d1e8d9fdf8c60b25082484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:36 +0000
Subject: [PATCH 93/95] fix: transport by projection in intrinsic coordinates
 did not project (symmetric fixed rank matrices)

---
 Manifolds/CSymFixedRankQ.cpp | 1 +
 Manifolds/SymFixedRankQ.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Manifolds/CSymFixedRankQ.cpp b/Manifolds/CSymFixedRankQ.cpp
index 42baee4..2cd45f0 100644
--- a/Manifolds/CSymFixedRankQ.cpp
+++ b/Manifolds/CSymFixedRankQ.cpp
@@ -734,6 +734,7 @@ namespace ROPTLIB{
         if(IsIntrApproach)
         {
             Vector exxix(EMPTYEXTR); ObtainExtr(x, xix, &exxix);
+            ExtrProjection(y, exxix, &exxix);
             return ObtainIntr(y, exxix, result);
         }
         
diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index ea48526..b077b3f 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -930,6 +930,7 @@ namespace ROPTLIB{
         if(IsIntrApproach)
         {
             Vector exxix(EMPTYEXTR); ObtainExtr(x, xix, &exxix);
+            ExtrProjection(y, exxix, &exxix);
             return ObtainIntr(y, exxix, result);
         }
         
-- 
2.43.0


From ea3958d7c4f7549a787a3a694deac4056b864d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:31 +0000
Subject: [PATCH 94/95] fix: the transport of SPDManifold ignored HasHHR, the
 inverse and the operators did not

---
 Manifolds/SPDManifold.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index 99147e3..ae0ee19 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -475,6 +475,9 @@ namespace ROPTLIB{
 
     Vector &SPDManifold::VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
     {
+        if (HasHHR)
+            return LCVectorTransport(x, etax, y, xix, result);
+
         if (VecTran == SPDPARATRAN)
             return ParallelTranslation(x, etax, y, xix, result);
         
-- 
2.43.0


From 465c6f88d4305bdc3e2977b9e11af03474f52fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:56 +0000
Subject: [PATCH 95/95] fix: LRTRSR1 stalled when the last pair is parallel,
 its gamma made the model singular

---
 Solvers/LRTRSR1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 25e1d11..19058fd 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -556,7 +556,7 @@ namespace ROPTLIB{
              function is quadratic and its Hessian is identity everywhere. */
         {
             inpyy = Mani->Metric(x1, y, y);
-            if(isupdated == true && fabs(inpsy) > mintol * sqrt(inpss * inpyy))
+            if(isupdated == true && fabs(inpsy) > mintol * sqrt(inpss * inpyy) && (LengthSY == 0 || inpss * inpyy - inpsy * inpsy > mintol * inpss * inpyy)) /*if y is a multiple of s, then y - gamma s would vanish*/
                 gamma = inpyy / inpsy;
             
             if(LMrestart && Currentlength >= LengthSY)
-- 
2.43.0

