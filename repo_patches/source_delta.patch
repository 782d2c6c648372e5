From 93f92b5e4102d90fb2ffb5a0c3dba50227681e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 01/18] fix: RBTree assignment from an empty tree dereferenced
 a null root

---
 util/rbtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/rbtree.h b/util/rbtree.h
index cdf17d4..cac4272 100644
--- a/util/rbtree.h
+++ b/util/rbtree.h
@@ -522,7 +522,7 @@ public:
     assert(this != &a);
     if (mRoot)
       clear(mRoot, mAllocator);
-    mRoot = copy(a.mRoot, mAllocator, nullptr);
+    mRoot = (a.mRoot) ? copy(a.mRoot, mAllocator, nullptr): nullptr;
     mCount = a.mCount;
     assert(assertValid());
   }
-- 
2.43.0


From e65ee5ac573377181e20b1798869cda9f0120e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 02/18] fix: Monom::div left the module position on a scalar
 quotient

---
 ginv/monom.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index 13392fd..33a8df4 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -275,6 +275,8 @@ void Monom::mult(Monom::Variable v, const Monom& a) {
   
 void Monom::div(const Monom& a) {
   assert(divisiable(a));
+  if (a.mPos >= 0)
+    mPos = -1;
   mDegree -=a.mDegree;
   Variable *i=mVariables;
   const Variable* const iend=mVariables+mSize;
-- 
2.43.0


From f269202962d6c2485cb8aada7d21ff8c872b3c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 03/18] fix: comparing with a product ignored the module
 position of the second factor

---
 ginv/poly.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/ginv/poly.cpp b/ginv/poly.cpp
index a6b8dcd..99d4e49 100644
--- a/ginv/poly.cpp
+++ b/ginv/poly.cpp
@@ -22,6 +22,10 @@
 
 namespace GInv {
 
+static inline int posMult(const Monom& b, const Monom& c) {
+  return (b.pos() == -1) ? c.pos(): b.pos();
+}
+
 int Poly::TOPlex(const Monom& a, const Monom& b) {
   int r=a.lex(b);
   if (r == 0 && a.pos() != b.pos())
@@ -45,22 +49,22 @@ int Poly::TOPalex(const Monom& a, const Monom& b) {
 
 int Poly::TOPlex2(const Monom& a, const Monom& b, const Monom& c) {
   int r=a.lex(b, c);
-  if (r == 0 && a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (r == 0 && a.pos() != posMult(b, c))
+    r = (a.pos() > posMult(b, c)) ? 1: -1;
   return r;
 }
 
 int Poly::TOPdeglex2(const Monom& a, const Monom& b, const Monom& c) {
   int r=a.deglex(b, c);
-  if (r == 0 && a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (r == 0 && a.pos() != posMult(b, c))
+    r = (a.pos() > posMult(b, c)) ? 1: -1;
   return r;
 }
 
 int Poly::TOPalex2(const Monom& a, const Monom& b, const Monom& c) {
   int r=a.alex(b, c);
-  if (r == 0 && a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (r == 0 && a.pos() != posMult(b, c))
+    r = (a.pos() > posMult(b, c)) ? 1: -1;
   return r;
 }
 
@@ -93,8 +97,8 @@ int Poly::POTalex(const Monom& a, const Monom& b) {
 
 int Poly::POTlex2(const Monom& a, const Monom& b, const Monom& c) {
   int r;
-  if (a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (a.pos() != posMult(b, c))
+    r = (a.pos() > posMult(b, c)) ? 1: -1;
   else
     r = a.lex(b, c);
   return r;
@@ -102,8 +106,8 @@ int Poly::POTlex2(const Monom& a, const Monom& b, const Monom& c) {
 
 int Poly::POTdeglex2(const Monom& a, const Monom& b, const Monom& c) {
   int r;
-  if (a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (a.pos() != posMult(b, c))
+    r = (a.pos() > posMult(b, c)) ? 1: -1;
   else
     r = a.deglex(b, c);
   return r;
@@ -111,8 +115,8 @@ int Poly::POTdeglex2(const Monom& a, const Monom& b, const Monom& c) {
 
 int Poly::POTalex2(const Monom& a, const Monom& b, const Monom& c) {
   int r;
-  if (a.pos() != b.pos())
-    r = (a.pos() > b.pos()) ? 1: -1;
+  if (a.pos() != posMult(b, c))
+    r = (a.pos() > posMult(b, c)) ? 1: -1;
   else
     r = a.alex(b, c);
   return r;
-- 
2.43.0


From 212051420cad6b91a36896fde710e7c32e504cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:10 +0000
Subject: [PATCH 04/18] fix: adding an integer constant to a polynomial kept
 zero terms and misplaced the constant

---
 ginv/poly_int.cpp | 46 ++++++++--------------------------------------
 1 file changed, 8 insertions(+), 38 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 6d0a199..a025867 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -128,24 +128,10 @@ void PolyInt::minus() {
 
 void PolyInt::add(const char* hex) {
   assert(mHead);
-  List<Term*>::Iterator i(mHead.begin());
-  assert(i);
-  int size=i.data()->mMonom.size();
-  while(i && (i.data()->mMonom.degree() > 0 ||
-              i.data()->mMonom.pos() >= 0))
-    ++i;
-  if (!i)
-    i.insert(new(mAllocator) Term(mAllocator, size, hex));
-  else {
-    assert(i.data()->mMonom.degree() == 0 &&
-           i.data()->mMonom.pos() == -1);
-    Integer a(mAllocator, hex);
-    i.data()->mCoeff.add(a);
-    if (i.data()->mCoeff.isZero()) {
-      mAllocator->destroy(i.data());
-      i.del();
-    }
-  }
+  Allocator allocator[1];
+  Integer c(allocator, hex);
+  if (!c.isZero())
+    add(PolyInt(allocator, mOrder, mSize, hex));
   assert(assertValid());
 }
 
@@ -184,26 +170,10 @@ void PolyInt::add(const PolyInt &a) {
 
 void PolyInt::sub(const char* hex) {
   assert(mHead);
-  List<Term*>::Iterator i(mHead.begin());
-  assert(i);
-  int size=i.data()->mMonom.size();
-  while(i && (i.data()->mMonom.degree() > 0 ||
-              i.data()->mMonom.pos() >= 0))
-    ++i;
-  if (!i) {
-    i.insert(new(mAllocator) Term(mAllocator, size, hex));
-    i.data()->mCoeff.set_neg();
-  }
-  else {
-    assert(i.data()->mMonom.degree() == 0 &&
-           i.data()->mMonom.pos() == -1);
-    Integer a(mAllocator, hex);
-    i.data()->mCoeff.sub(a);
-    if (i.data()->mCoeff.isZero()) {
-      mAllocator->destroy(i.data());
-      i.del();
-    }
-  }
+  Allocator allocator[1];
+  Integer c(allocator, hex);
+  if (!c.isZero())
+    sub(PolyInt(allocator, mOrder, mSize, hex));
   assert(assertValid());
 }
 
-- 
2.43.0


From da1b016369185b5195b16a38180553fc15ba792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:10 +0000
Subject: [PATCH 05/18] fix: subtracting a polynomial from itself read freed
 terms

---
 ginv/poly_int.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index a025867..4b67b48 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -179,6 +179,10 @@ void PolyInt::sub(const char* hex) {
 
 void PolyInt::sub(const PolyInt &a) {
   assert(comparable(a));
+  if (this == &a) {
+    clear();
+    return;
+  }
   List<Term*>::ConstIterator ia(a.mHead.begin());
   List<Term*>::Iterator i(mHead.begin());
   while(i && ia)
-- 
2.43.0


From cebad068b51d6b80f02a08474ea8e7f79c0ad4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:14 +0000
Subject: [PATCH 06/18] fix: multiplying by a single-term polynomial leaked the
 old terms

---
 ginv/poly_int.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 4b67b48..a9046c1 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -269,7 +269,8 @@ void PolyInt::mult(const PolyInt &a) {
       }
     }
     mHead.swap(tmp);
-    mAllocator->destroy(tmp.head());
+    for(List<Term*>::ConstIterator k(tmp.begin()); k; ++k)
+      mAllocator->destroy(k.data());
   }
   else {
     List<Term*> sum(mAllocator);
-- 
2.43.0


From 057fd581228028b7ebc248b15d34e1d13bda3319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:14 +0000
Subject: [PATCH 07/18] fix: the zeroth power of a polynomial was zero

---
 ginv/poly_int.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index a9046c1..b13215f 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -333,8 +333,10 @@ void PolyInt::pow(int deg) {
   assert(deg >= 0);
   if (deg == 1)
     ;
-  else if (deg == 0)
-    clear();
+  else if (deg == 0) {
+    PolyInt one(mAllocator, mOrder, mSize, "1");
+    swap(one);
+  }
   else {
     assert(deg > 1);
     PolyInt tmp(mAllocator, *this);
-- 
2.43.0


From 6d729917d443ebba17a3d449194435e788c5cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 08/18] fix: eliminating an equal monomial ignored the module
 position

---
 ginv/poly_int.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index b13215f..eb12a94 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -475,7 +475,7 @@ void PolyInt::redMaybe(const PolyInt& a) {
   List<Term*>::Iterator i(mHead.begin());
   while(i && mCmp1(i.data()->mMonom, a.lm()) > 0)
     ++i;
-  if (i && i.data()->mMonom == a.lm())
+  if (i && mCmp1(i.data()->mMonom, a.lm()) == 0)
     redTail(i, a);
 }
 
-- 
2.43.0


From e3626ffb8c4e13615ef68afe63d6de82a4ff7442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 09/18] fix: the primitive part of a negative single term
 changed its sign

---
 ginv/poly_int.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index eb12a94..d50ca54 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -513,6 +513,8 @@ void PolyInt::pp() {
         return;
       ++i;
     }
+    if (g.sgn() < 0)
+      g.set_neg();
 
     i = mHead.begin();
     while(i) {
-- 
2.43.0


From 1057b079c737db3e8e001ac7f053acd0418a6a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 10/18] fix: copying a Janet tree lost the last subtree of
 every level

---
 ginv/janet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginv/janet.cpp b/ginv/janet.cpp
index 73b1e62..ee660c2 100644
--- a/ginv/janet.cpp
+++ b/ginv/janet.cpp
@@ -97,6 +97,8 @@ Janet::Link Janet::build(Link j, Allocator* allocator) {
     i->mNextDeg = new(allocator) Node(j->mDeg, j->mWrap);
     i = i->mNextDeg;
   }
+  if (j->mNextVar)
+    i->mNextVar = build(j->mNextVar, allocator);
   return r;
 }
 
-- 
2.43.0


From 62f79a8db2e0f3400ab4221aba2851ff3c10bf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 11/18] fix: updating a basis element ignored a change of
 module position only

---
 ginv/wrap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/wrap.cpp b/ginv/wrap.cpp
index 532d960..9f79080 100644
--- a/ginv/wrap.cpp
+++ b/ginv/wrap.cpp
@@ -23,7 +23,7 @@
 namespace GInv {
 
 void Wrap::update(const Monom& m) {
-  if (mLm.lex(m) != 0) {
+  if (mLm.pos() != m.pos() || mLm.lex(m) != 0) {
     mLm = m;
     mAnsector = m;
     for(int i=0; i < mLm.size(); i++) {
-- 
2.43.0


From 46b8c4923866cd6aab2c8ea712e78775858a05cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:35 +0000
Subject: [PATCH 12/18] fix: pushing a monomial twice into a completion used it
 after destroying it

---
 ginv/mcompletion.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginv/mcompletion.cpp b/ginv/mcompletion.cpp
index 337881f..4868d19 100644
--- a/ginv/mcompletion.cpp
+++ b/ginv/mcompletion.cpp
@@ -35,8 +35,10 @@ void MCompletion::insert(Wrap *w) {
   }
   if (!j || mCmp(*j.data(), *w) > 0)
     j.insert(w);
-  else
+  else {
     mAllocator->destroy(w);
+    return;
+  }
   ++j;
   while(j) {
     for(int v=0; v < w->lm().size(); v++) {
-- 
2.43.0


From f8c6f32a18e5a6c938732f64e2f741b864f27d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 13/18] fix: basis construction missed a constant found inside
 a block and took module elements of degree zero for the whole ring

---
 ginv/poly_int.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index d50ca54..7480eda 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -699,7 +699,7 @@ void JanetPolyInt::algorithmBlockTQ() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (j.data()->poly().degree() == 0 && j.data()->poly().lm().pos() < 0) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -818,6 +818,12 @@ std::cerr << "A" << std::endl;
     } while(k1);
 
     GCListWrapPolyInt::Iterator k(tmp.begin());
+    if (k.data()->poly().degree() == 0 && k.data()->poly().lm().pos() < 0) {
+      for(; k; k.del())
+        delete k.data();
+      setOne(order, size);
+      break;
+    }
     while(k) {
       k.data()->update(k.data()->poly().lm());
       k.data()->poly().pp();
-- 
2.43.0


From ada300fbe31d6ab32b8fde239745856cc0a3e1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 14/18] fix: basis construction compared leading monomials of
 module elements without the position

---
 ginv/poly_int.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 7480eda..9931fac 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -760,7 +760,8 @@ std::cerr << "A" << std::endl;
       do {
         GCListWrapPolyInt::Iterator j(k);
         ++j;
-        while(j && j.data()->poly().lm() == k.data()->poly().lm()) {
+        while(j && j.data()->poly().lm() == k.data()->poly().lm() &&
+            j.data()->poly().lm().pos() == k.data()->poly().lm().pos()) {
           tmp2.push(j.data());
           j.del();
         }
-- 
2.43.0


From 83c117350daf957ef56166e8ada9af42a230bbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 15/18] fix: the product criterion was applied to module
 elements

---
 ginv/poly_int.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 9931fac..37974c4 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -597,7 +597,7 @@ void JanetPolyInt::prolong(WrapPolyInt *w) {
     if (w->NM(i) && !w->build(i)) {
       Monom m(allocator, i, w->lm());
       const WrapPolyInt *d=find(m);
-      if (d && m.degree() >=
+      if (d && m.pos() < 0 && m.degree() >=
         (w->ansector().degree() + d->ansector().degree())) {
         ++mCritI;
         w->setBuild(i);
-- 
2.43.0


From 21976009fdf8dd8fdaf9135214480fd18b3defde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 16/18] fix: basis construction dropped prolongations of
 elements above the last degree

---
 ginv/poly_int.cpp | 8 +++++++-
 ginv/poly_int.h   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 37974c4..f08ab25 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -611,6 +611,12 @@ void JanetPolyInt::prolong(WrapPolyInt *w) {
     }
 }
 
+bool JanetPolyInt::prolongAll() {
+  for(GCListWrapPolyInt::ConstIterator k(mT.begin()); k; ++k)
+    prolong(k.data());
+  return mQ;
+}
+
 bool JanetPolyInt::assertT() const {
   if (mT) {
     GCListWrapPolyInt::ConstIterator i(mT.begin());
@@ -683,7 +689,7 @@ void JanetPolyInt::algorithmBlockTQ() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(mQ || prolongAll()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index f6f95fa..87c59bb 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -367,6 +367,7 @@ class JanetPolyInt {
   void setPos();
   void setOne(int order, int size);
   void prolong(WrapPolyInt *w);
+  bool prolongAll();
   bool assertT() const;
 
   static void insert(GCListWrapPolyInt &lst, WrapPolyInt *w);
-- 
2.43.0


From 974f2d2c8ee93ea149170711fdecaad6fce67f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 17/18] fix: new basis elements were not tail reduced

---
 ginv/poly_int.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index f08ab25..6ff602b 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -855,26 +855,28 @@ std::cerr << "A" << std::endl;
     k = mT.begin();
     while(k && j) {
       if (j.data()->poly().cmp(k.data()->poly()) < 0) {
-        assert(j.data()->poly().isNf(*this));
         k.insert(j.data());
         ++j;
       }
-      else {
-        int r=k.data()->poly().nfTail(*this);
-        if (r) {
-          mReduction += r;
-          k.data()->poly().pp();
-          k.data()->reallocate();
-        }
+      int r=k.data()->poly().nfTail(*this);
+      if (r) {
+        mReduction += r;
+        k.data()->poly().pp();
+        k.data()->reallocate();
       }
       if (k.data()->lm().degree() <= deg)
         prolong(k.data());
       ++k;
     }
     while(j) {
-      assert(j.data()->poly().isNf(*this));
       k.insert(j.data());
       ++j;
+      int r=k.data()->poly().nfTail(*this);
+      if (r) {
+        mReduction += r;
+        k.data()->poly().pp();
+        k.data()->reallocate();
+      }
       if (k.data()->lm().degree() <= deg)
         prolong(k.data());
       ++k;
-- 
2.43.0


From c4e9f6ce99da3c2e7685cc81d38434f881016738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 18/18] fix: assertions rejected module elements in Monom::gcd,
 Monom::lcm and Janet::insert

---
 ginv/janet.cpp | 2 +-
 ginv/monom.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ginv/janet.cpp b/ginv/janet.cpp
index ee660c2..44b682d 100644
--- a/ginv/janet.cpp
+++ b/ginv/janet.cpp
@@ -338,7 +338,7 @@ void Janet::insert(Wrap *wrap) {
     Monom::Variable var = 0;
     do {
       assert(j);
-      assert(d > 0);
+      assert(d > 0 || var == 0);
       assert(var < wrap->lm().size());
 
       while(j.degree() < wrap->lm()[var] && j.nextDeg())
diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index 33a8df4..67de331 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -289,7 +289,7 @@ void Monom::div(const Monom& a) {
 
 int Monom::gcd(const Monom& a) const {
   assert(mSize == a.mSize);
-  assert(mPos == -1 || a.mPos == -1);
+  assert(mPos == -1 || a.mPos == -1 || mPos == a.mPos);
   int r=0;
   for(int i=0; i < mSize; i++)
     r += (mVariables[i] <= a.mVariables[i]) ? mVariables[i]: a.mVariables[i];
@@ -298,7 +298,7 @@ int Monom::gcd(const Monom& a) const {
 
 int Monom::lcm(const Monom& a) const {
   assert(mSize == a.mSize);
-  assert(mPos == -1 || a.mPos == -1);
+  assert(mPos == -1 || a.mPos == -1 || mPos == a.mPos);
   int r=0;
   for(int i=0; i < mSize; i++)
     r += (mVariables[i] >= a.mVariables[i]) ? mVariables[i]: a.mVariables[i];
-- 
2.43.0

