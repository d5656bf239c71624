From 662af5ed8cf10011c424c8159c8f14cf98de8f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 01/29] fix: Tribool inequality with false compared against the
 wrong state

---
 include/opengm/utilities/tribool.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/tribool.hxx b/include/opengm/utilities/tribool.hxx
index 30b4706..084fc62 100644
--- a/include/opengm/utilities/tribool.hxx
+++ b/include/opengm/utilities/tribool.hxx
@@ -126,7 +126,7 @@ namespace opengm {
    ) const
    {
       return (value_ != Tribool::True && a == true)
-         || (value_ != Tribool::True && a == false);
+         || (value_ != Tribool::False && a == false);
    }
 
    inline Tribool::operator bool() const
-- 
2.43.0


From 4524b8148a1817e2ec24ba30f8e1da46e829b08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 02/29] fix: comparing two Tribools treated an undetermined
 value as false

---
 include/opengm/utilities/tribool.hxx | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/opengm/utilities/tribool.hxx b/include/opengm/utilities/tribool.hxx
index 084fc62..682612a 100644
--- a/include/opengm/utilities/tribool.hxx
+++ b/include/opengm/utilities/tribool.hxx
@@ -22,9 +22,11 @@ namespace opengm {
       Tribool& operator=(Tribool::State state);
 
       bool operator==(const bool a) const;
+      bool operator==(const Tribool& a) const;
       template<class T>
          bool operator==(T a) const;
       bool operator!=(const bool a) const;
+      bool operator!=(const Tribool& a) const;
       operator bool() const;
       bool operator!() const;
       bool maybe() const;
@@ -109,6 +111,15 @@ namespace opengm {
          || (value_ == Tribool::False && a == false));
    }
 
+   inline bool 
+   Tribool::operator==
+   (
+      const Tribool& a
+   ) const
+   {
+      return value_ == a.value_;
+   }
+
    template<class T>
    inline bool 
    Tribool::operator==
@@ -129,6 +140,15 @@ namespace opengm {
          || (value_ != Tribool::False && a == false);
    }
 
+   inline bool 
+   Tribool::operator!=
+   (
+      const Tribool& a
+   ) const
+   {
+      return value_ != a.value_;
+   }
+
    inline Tribool::operator bool() const
    {
       return value_ == Tribool::True;
-- 
2.43.0


From a491cf7d0dc1f7b4b0925589cd01a27309ed1e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:08 +0000
Subject: [PATCH 03/29] fix: FastSequence copies with spare capacity freed
 stack memory, and assignment leaked or freed it

---
 .../opengm/datastructures/fast_sequence.hxx   | 25 ++++++-------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/include/opengm/datastructures/fast_sequence.hxx b/include/opengm/datastructures/fast_sequence.hxx
index d5ada69..e6d4446 100644
--- a/include/opengm/datastructures/fast_sequence.hxx
+++ b/include/opengm/datastructures/fast_sequence.hxx
@@ -117,7 +117,7 @@ FastSequence<T, MAX_STACK>::FastSequence
    const  FastSequence<T, MAX_STACK> & other
 )
 :  size_(other.size_),
-   capacity_(other.capacity_)
+   capacity_(other.size_>MAX_STACK?other.size_:MAX_STACK)
 {
    OPENGM_ASSERT(size_<=capacity_);
    OPENGM_ASSERT(capacity_>=MAX_STACK);
@@ -148,27 +148,16 @@ FastSequence<T, MAX_STACK> & FastSequence<T, MAX_STACK>::operator=
 )
 {
    if(&other != this) {
-      // size_=other.size_;
-      // capacity_=other.capacity_;
-      // OPENGM_ASSERT(size_<=capacity_);
-      // OPENGM_ASSERT(capacity_>=MAX_STACK);
-      if(other.size_>MAX_STACK) {
+      if(other.size_>capacity_) {
+         T * tmp = new T[other.size_];
          // delete old sequence
-         if(size_>MAX_STACK) {
+         if(capacity_>MAX_STACK) {
             delete [] pointerToSequence_;
-            pointerToSequence_ = new T[other.size_];
          }
-         // nothing to delete
-         else{
-            pointerToSequence_ = new T[other.size_];
-         }
-         size_=other.size_;
-         capacity_=size_;
-      }
-      else{
-         pointerToSequence_=stackSequence_;
-         size_=other.size_;
+         pointerToSequence_ = tmp;
+         capacity_ = other.size_;
       }
+      size_ = other.size_;
       std::copy(other.pointerToSequence_, other.pointerToSequence_+size_, pointerToSequence_);
    }
    return *this;
-- 
2.43.0


From 4f658501706b9256ede76ea42efbc564333a1ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:08 +0000
Subject: [PATCH 04/29] fix: empty BufferVectors kept an uninitialised data
 pointer that assignment deletes

---
 include/opengm/datastructures/buffer_vector.hxx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index b997815..acf652c 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -73,7 +73,8 @@ namespace opengm{
       const size_t size
    )
    :  size_(size),
-      capacity_(size) {
+      capacity_(size),
+      data_(NULL) {
       if(size_!=0) {
       data_ = new T[size];
       }
@@ -89,9 +90,12 @@ namespace opengm{
       const T & value
    )
    :  size_(size),
-      capacity_(size) {
-      data_ = new T[size];
-      std::fill(data_,data_+size_,value);
+      capacity_(size),
+      data_(NULL) {
+      if(size_!=0) {
+         data_ = new T[size];
+         std::fill(data_,data_+size_,value);
+      }
    }
    
    
@@ -103,7 +107,8 @@ namespace opengm{
       const  BufferVector<T> & other
    )
    :  size_(other.size_),
-      capacity_(other.size_)
+      capacity_(other.size_),
+      data_(NULL)
    {
       if(size_!=0) {
          data_ = new T[size_];
-- 
2.43.0


From 94eb92ed983124053c3390693cd399c8385a30d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:08 +0000
Subject: [PATCH 05/29] fix: BufferVector::reserve changed the number of
 elements

---
 include/opengm/datastructures/buffer_vector.hxx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index acf652c..3c9614a 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -296,10 +296,8 @@ namespace opengm{
          else{
             data_=new T[size];
          }
-         size_=size;
          capacity_=size;
       }
-      //size_=size;
       OPENGM_ASSERT(size_<=capacity_);
    }
    
-- 
2.43.0


From 2690df3e8d110d3c641be8083200cc647773548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:08 +0000
Subject: [PATCH 06/29] fix: growing an empty BufferVector leaked the buffer it
 had reserved

---
 include/opengm/datastructures/buffer_vector.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index 3c9614a..f950ffa 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -269,6 +269,7 @@ namespace opengm{
             data_=tmp;
          }
          else{
+            delete[] data_;
             data_=new T[size];
             capacity_=size;
          }
@@ -294,6 +295,7 @@ namespace opengm{
             data_=tmp;
          }
          else{
+            delete[] data_;
             data_=new T[size];
          }
          capacity_=size;
-- 
2.43.0


From 86e5a3dfd8cfbb016f0248be81f8ed536d4c9820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:29 +0000
Subject: [PATCH 07/29] fix: push_back of one of the sequence's own entries
 read freed memory

---
 include/opengm/datastructures/buffer_vector.hxx | 3 ++-
 include/opengm/datastructures/fast_sequence.hxx | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index f950ffa..7c72b5e 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -232,6 +232,7 @@ namespace opengm{
       const T & value
    ) {
       OPENGM_ASSERT(size_<=capacity_);
+      const T valueCopy = value; // value may refer to an entry of this vector
       if(capacity_==size_) {
          if(size_!=0) {
             T * tmp=new T[capacity_*2];
@@ -246,7 +247,7 @@ namespace opengm{
             data_=tmp;
          }
       }
-      data_[size_]=value;
+      data_[size_]=valueCopy;
       ++size_;
       OPENGM_ASSERT(size_<=capacity_);
    }
diff --git a/include/opengm/datastructures/fast_sequence.hxx b/include/opengm/datastructures/fast_sequence.hxx
index e6d4446..a514d8f 100644
--- a/include/opengm/datastructures/fast_sequence.hxx
+++ b/include/opengm/datastructures/fast_sequence.hxx
@@ -236,6 +236,7 @@ FastSequence<T, MAX_STACK>::push_back
 ) {
    OPENGM_ASSERT(capacity_ >= MAX_STACK);
    OPENGM_ASSERT(size_ <= capacity_);
+   const T valueCopy = value; // value may refer to an entry of this sequence
    if(capacity_ == size_) {
       T * tmp=new T[capacity_ * 2];
       std::copy(pointerToSequence_, pointerToSequence_ + size_, tmp);
@@ -245,7 +246,7 @@ FastSequence<T, MAX_STACK>::push_back
       capacity_ *= 2;
       pointerToSequence_ = tmp;
    }
-   pointerToSequence_[size_]=value;
+   pointerToSequence_[size_]=valueCopy;
    ++size_;
    OPENGM_ASSERT(size_<=capacity_);
    OPENGM_ASSERT(capacity_>=MAX_STACK);
-- 
2.43.0


From 6e4b2148b9816f967002d950bfef0feec94d11c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:29 +0000
Subject: [PATCH 08/29] fix: in-place inverse operation of Integrator had no
 effect

---
 include/opengm/operations/integrator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/operations/integrator.hxx b/include/opengm/operations/integrator.hxx
index aa2305f..1b7be65 100644
--- a/include/opengm/operations/integrator.hxx
+++ b/include/opengm/operations/integrator.hxx
@@ -44,7 +44,7 @@ struct Integrator
    /// inverse operation (in-place)
    template<class T1, class T2>
       static void iop(const T1& in1,  T2& out)
-         { out - in1; }
+         { out -= in1; }
 
    /// inverse operation (call by reference)
    template<class T1,class T2,class T3>
-- 
2.43.0


From 4aacca97afef35c9365328283cd29d0e2ddec893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:35 +0000
Subject: [PATCH 09/29] fix: Accumulation::neutral returned the number of
 labels

---
 include/opengm/utilities/accumulation.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/accumulation.hxx b/include/opengm/utilities/accumulation.hxx
index 61039aa..f1316c8 100644
--- a/include/opengm/utilities/accumulation.hxx
+++ b/include/opengm/utilities/accumulation.hxx
@@ -58,7 +58,7 @@ template<class Value, class State, class Accumulator>
 inline typename Accumulation<Value, State, Accumulator>::ValueType
 Accumulation<Value, State, Accumulator>::neutral() const
 {
-   return state_.size();
+   return Accumulator::template neutral<ValueType>();
 }
    
 template<class Value, class State, class Accumulator>
-- 
2.43.0


From c7352cd09fef56be26f3fa26850babe080ea45af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:35 +0000
Subject: [PATCH 10/29] fix: Logsumexp combined two operands with the stale
 output, and neutral elements to NaN

---
 include/opengm/operations/logsumexp.hxx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/opengm/operations/logsumexp.hxx b/include/opengm/operations/logsumexp.hxx
index 87f4d70..036f322 100644
--- a/include/opengm/operations/logsumexp.hxx
+++ b/include/opengm/operations/logsumexp.hxx
@@ -39,7 +39,10 @@ struct Logsumexp
    {
       T2 theMax = std::max(in1, out);
       T2 theMin = std::min(in1, out);
-      out = theMax + log(1 + exp(theMin - theMax));  // numerically better
+      if(theMin == -std::numeric_limits<T2>::infinity())
+         out = theMax; // neutral element
+      else
+         out = theMax + log(1 + exp(theMin - theMax));  // numerically better
    }
 
    /// operation (not in-place)
@@ -47,9 +50,12 @@ struct Logsumexp
       static void op(const T1 in1, const T2 in2, T3& out)
 //         { out = log(exp(in1) + exp(in2)); }
    {
-      T2 theMax = std::max(in1, out);
-      T2 theMin = std::min(in1, out);
-      out = theMax + log(1 + exp(theMin - theMax));  // numerically better
+      T3 theMax = std::max<T3>(in1, in2);
+      T3 theMin = std::min<T3>(in1, in2);
+      if(theMin == -std::numeric_limits<T3>::infinity())
+         out = theMax; // neutral element
+      else
+         out = theMax + log(1 + exp(theMin - theMax));  // numerically better
    }
 
    /// inverse operation (in-place)
-- 
2.43.0


From 110935d3223e8adbcb32b7424af33f25cf081ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:45 +0000
Subject: [PATCH 11/29] fix: swapping RandomAccessSets left the other set with
 the wrong comparison

---
 include/opengm/datastructures/randomaccessset.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/randomaccessset.hxx b/include/opengm/datastructures/randomaccessset.hxx
index 7fd5b4f..9a1debc 100644
--- a/include/opengm/datastructures/randomaccessset.hxx
+++ b/include/opengm/datastructures/randomaccessset.hxx
@@ -424,7 +424,7 @@ RandomAccessSet<Key,Compare,Alloc>::swap
 )
 {
    vector_.swap(rhs.vector_);
-   compare_=rhs.compare_;
+   std::swap(compare_, rhs.compare_);
 }
 
 /// clear the set
-- 
2.43.0


From 08c50c0945ef9647bbf2bd45cb51d7a62d69a47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:45 +0000
Subject: [PATCH 12/29] fix: RandomAccessSet::insert with a position did not
 compile

---
 include/opengm/datastructures/randomaccessset.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opengm/datastructures/randomaccessset.hxx b/include/opengm/datastructures/randomaccessset.hxx
index 9a1debc..c69bb5b 100644
--- a/include/opengm/datastructures/randomaccessset.hxx
+++ b/include/opengm/datastructures/randomaccessset.hxx
@@ -363,9 +363,9 @@ RandomAccessSet<Key,Compare,Alloc>::insert
    const typename RandomAccessSet<Key,Compare,Alloc>::value_type& value
 )
 {
-   if((position == begin() || this->operator()(*(position-1),value))
-   && (position == end() || this->operator()(value, *position))) {
-       return vector_.insert(position, value);
+   if((position == begin() || compare_(*(position-1),value))
+   && (position == end() || compare_(value, *position))) {
+       return vector_.insert(vector_.begin() + (position - begin()), value);
    }
    return insert(value).first;
 }
-- 
2.43.0


From 254e4cc2c749dd0565f326f1606b1dd5282bb63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:45 +0000
Subject: [PATCH 13/29] fix: reverse iteration of RandomAccessSet did not
 compile

---
 .../opengm/datastructures/randomaccessset.hxx  | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/opengm/datastructures/randomaccessset.hxx b/include/opengm/datastructures/randomaccessset.hxx
index c69bb5b..1673bbd 100644
--- a/include/opengm/datastructures/randomaccessset.hxx
+++ b/include/opengm/datastructures/randomaccessset.hxx
@@ -51,6 +51,8 @@ public:
    typedef typename VectorType::const_pointer const_pointer;
    /// const reverse iterator
    typedef typename VectorType::const_reverse_iterator	const_reverse_iterator;
+   /// reverse iterator
+   typedef typename VectorType::reverse_iterator	reverse_iterator;
 
    // memeber functions:
    // constructor
@@ -67,13 +69,13 @@ public:
    // iterators
    const_iterator begin() const;
    const_iterator end() const;
-   const_iterator rbegin() const;
-   const_iterator rend() const;
+   const_reverse_iterator rbegin() const;
+   const_reverse_iterator rend() const;
 
    iterator begin();
    iterator end();
-   iterator rbegin();
-   iterator rend();
+   reverse_iterator rbegin();
+   reverse_iterator rend();
    bool empty() const;
    size_type size() const;
    size_type max_size() const;
@@ -232,7 +234,7 @@ RandomAccessSet<Key,Compare,Alloc>::end() const
 /// reverse const begin iterator
 /// \returns reverse begin iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::const_iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::const_reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rbegin() const
 {
    return vector_.rbegin();
@@ -241,7 +243,7 @@ RandomAccessSet<Key,Compare,Alloc>::rbegin() const
 /// reverse const end iterator
 /// \param reverse end iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::const_iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::const_reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rend() const
 {
     return vector_.rend();
@@ -268,7 +270,7 @@ RandomAccessSet<Key,Compare,Alloc>::end()
 /// reverse  begin iterator
 /// \param reverse begin iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rbegin()
 {
    return vector_.rbegin();
@@ -277,7 +279,7 @@ RandomAccessSet<Key,Compare,Alloc>::rbegin()
 /// reverse end iterator
 /// \param reverse end iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rend()
 {
     return vector_.rend();
-- 
2.43.0


From 6c7e6f8915240a9e7b842dd6c5c18f2c733720d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:12 +0000
Subject: [PATCH 14/29] fix: SimpleDiscreteSpace::assignDense changed the space
 when it rejected its input, and read the first entry of an empty range

---
 .../graphicalmodel/space/simplediscretespace.hxx       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/opengm/graphicalmodel/space/simplediscretespace.hxx b/include/opengm/graphicalmodel/space/simplediscretespace.hxx
index 48a8179..f455a08 100644
--- a/include/opengm/graphicalmodel/space/simplediscretespace.hxx
+++ b/include/opengm/graphicalmodel/space/simplediscretespace.hxx
@@ -57,14 +57,14 @@ SimpleDiscreteSpace<I, L>::assignDense
    Iterator begin,
    Iterator end
 ) {
-   numberOfVariables_ = std::distance(begin, end);
-   numberOfLabels_ = static_cast<L>(*begin);
-   while(begin != end) {
-      if(numberOfLabels_ != static_cast<LabelType>(*begin)) {
+   const LabelType numberOfLabels = begin != end ? static_cast<LabelType>(*begin) : numberOfLabels_;
+   for(Iterator it = begin; it != end; ++it) {
+      if(numberOfLabels != static_cast<LabelType>(*it)) {
          throw opengm::RuntimeError("*begin == SimpleDiscreteSpace.numberOfLabels_ is violated in SimpleDiscreteSpace::assignDense");
       }
-      ++begin;
    }
+   numberOfVariables_ = std::distance(begin, end);
+   numberOfLabels_ = numberOfLabels;
 }
 
 template<class I, class L>
-- 
2.43.0


From 80820888f30626d001562957e5dfc729dd13864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:12 +0000
Subject: [PATCH 15/29] fix: StaticSimpleDiscreteSpace did not compile, did not
 add variables, and took the number of labels for the number of variables

---
 .../space/static_simplediscretespace.hxx             | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx b/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
index 793d08a..f810667 100644
--- a/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
+++ b/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
@@ -52,15 +52,13 @@ StaticSimpleDiscreteSpace<LABELS,I, L>::assignDense(
    Iterator begin,
    Iterator end
 ) {
-   numberOfVariables_=std::distance(begin, end);
-   numberOfVariables_=static_cast<L>(*begin);
-   while(begin!=end) {
-      if(LABELS!=static_cast<size_t>(*begin)) {
+   for(Iterator it = begin; it != end; ++it) {
+      if(LABELS!=static_cast<size_t>(*it)) {
          throw opengm::RuntimeError("*begin==LABELS_ is violated \
          in StaticSimpleDiscreteSpace::assignDense ");
       }
-      ++begin;
    }
+   numberOfVariables_=std::distance(begin, end);
 }
 
 template<size_t LABELS,class I, class L>
@@ -80,6 +78,8 @@ StaticSimpleDiscreteSpace<LABELS,I, L>::addVariable(
       throw opengm::RuntimeError("numberOfLabels==LABELS is violated \
       in StaticSimpleDiscreteSpace::addVariable ");
    }
+   ++numberOfVariables_;
+   return numberOfVariables_ - 1;
 }
 
 template<size_t LABELS,class I, class L>
@@ -93,7 +93,7 @@ inline typename StaticSimpleDiscreteSpace<LABELS,I, L>::LabelType
 StaticSimpleDiscreteSpace<LABELS,I, L>::numberOfLabels(
    const IndexType dimension
 ) const {
-   return static_cast<L> LABELS;
+   return static_cast<L>(LABELS);
 }
 
 template<size_t LABELS,class I, class L>
-- 
2.43.0


From 5e151b73f2409b26a1820a76fef183114faf6900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:12 +0000
Subject: [PATCH 16/29] fix: ViewSpace::addVariable did not throw its error and
 returned an undefined index

---
 include/opengm/graphicalmodel/space/viewspace.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/space/viewspace.hxx b/include/opengm/graphicalmodel/space/viewspace.hxx
index 1aa2da0..367ba62 100644
--- a/include/opengm/graphicalmodel/space/viewspace.hxx
+++ b/include/opengm/graphicalmodel/space/viewspace.hxx
@@ -63,7 +63,7 @@ ViewSpace<GM>::addVariable(
    const LabelType numberOfLabels
 )
 {
-   opengm::RuntimeError("cannot add Variable with a ViewSpace as a space object");
+   throw opengm::RuntimeError("cannot add Variable with a ViewSpace as a space object");
 }
 
 template<class GM>
-- 
2.43.0


From 5a664300f044e8e70a78fc631a0de1357e5e3db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:12 +0000
Subject: [PATCH 17/29] fix: isSimpleSpace read the first variable of an empty
 space, and compared label counts as indices

---
 include/opengm/graphicalmodel/space/space_base.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/space/space_base.hxx b/include/opengm/graphicalmodel/space/space_base.hxx
index 1c67f59..203c9da 100644
--- a/include/opengm/graphicalmodel/space/space_base.hxx
+++ b/include/opengm/graphicalmodel/space/space_base.hxx
@@ -28,7 +28,10 @@ template<class SPACE, class I, class L>
 inline bool
 SpaceBase<SPACE, I, L>::isSimpleSpace() const {
    const IndexType numVar = static_cast<SPACE const*>(this)->numberOfVariables();
-   const IndexType l = static_cast<SPACE const*>(this)->numberOfLabels(0);
+   if(numVar == 0) {
+      return true;
+   }
+   const LabelType l = static_cast<SPACE const*>(this)->numberOfLabels(0);
    for(size_t i=1;i<numVar;++i) {
       if(l!=static_cast<SPACE const *>(this)->numberOfLabels(i)) {
          return false;
-- 
2.43.0


From 46845e7f007819a2d5a88115e71ff8075bc5c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 18/29] fix: ViewSpace::numberOfLabels was defined with another
 return type than declared

---
 include/opengm/graphicalmodel/space/viewspace.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/space/viewspace.hxx b/include/opengm/graphicalmodel/space/viewspace.hxx
index 367ba62..4a50eff 100644
--- a/include/opengm/graphicalmodel/space/viewspace.hxx
+++ b/include/opengm/graphicalmodel/space/viewspace.hxx
@@ -75,7 +75,7 @@ ViewSpace<GM>::numberOfVariables() const
 }
 
 template<class GM>
-inline typename ViewSpace<GM>::IndexType
+inline typename ViewSpace<GM>::LabelType
 ViewSpace<GM>::numberOfLabels
 (
    const IndexType dimension
-- 
2.43.0


From 7dd1ceb47552f6d22a1c4517836e3d84eebd63b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 19/29] fix: an empty DynamicSingleSiteFunction kept an
 uninitialised or freed data pointer that assignment deletes

---
 include/opengm/functions/singlesitefunction.hxx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/opengm/functions/singlesitefunction.hxx b/include/opengm/functions/singlesitefunction.hxx
index 2d02123..740a26e 100644
--- a/include/opengm/functions/singlesitefunction.hxx
+++ b/include/opengm/functions/singlesitefunction.hxx
@@ -141,7 +141,7 @@ public:
    typedef T value_type;
 
    DynamicSingleSiteFunction(const size_t size = 0)
-      :  size_(size)
+      :  dataPointer_(NULL), size_(size)
       {
          if(size_ != 0){
             dataPointer_ = new T[size];
@@ -149,7 +149,7 @@ public:
       }
 
    DynamicSingleSiteFunction(const size_t size, ValueType value)
-      :  size_(size)
+      :  dataPointer_(NULL), size_(size)
       {
          if(size_ != 0) {
             dataPointer_ = new T[size];
@@ -172,7 +172,8 @@ public:
             std::copy(other.dataPointer_, other.dataPointer_+size_, dataPointer_);
          }
          else {
-            size_=0;
+            dataPointer_ = NULL;
+            size_ = 0;
          }
       }
 
@@ -193,6 +194,7 @@ public:
                   std::copy(other.dataPointer_, other.dataPointer_+size_, dataPointer_);
                }
                else {
+                  dataPointer_ = NULL;
                   size_ = 0;
                }
             }
@@ -212,6 +214,7 @@ public:
                size_=size;
             }
             else {
+               dataPointer_ = NULL;
                size_ = 0;
             }
          }
@@ -227,7 +230,8 @@ public:
                std::fill(dataPointer_, dataPointer_+size_, value);
             }
             else {
-               size_=0;
+               dataPointer_ = NULL;
+               size_ = 0;
             }
          }
          else {
-- 
2.43.0


From db531314eeaa3367e7359970d9c6c18b20696893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 20/29] fix: serializing a DynamicSingleSiteFunction did not
 write its size

---
 include/opengm/functions/singlesitefunction.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/functions/singlesitefunction.hxx b/include/opengm/functions/singlesitefunction.hxx
index 740a26e..5b76207 100644
--- a/include/opengm/functions/singlesitefunction.hxx
+++ b/include/opengm/functions/singlesitefunction.hxx
@@ -344,6 +344,7 @@ public:
 
    template<class INDEX_OUTPUT_ITERATOR, class VALUE_OUTPUT_ITERATOR >
       static void serialize(const  DynamicSingleSiteFunction<T>  & f, INDEX_OUTPUT_ITERATOR ii, VALUE_OUTPUT_ITERATOR vi){
+      *ii=f.size();
       for(size_t i=0;i<f.size();++i){
          size_t c[]={i};
          *vi=f(c);
-- 
2.43.0


From b290bbb4753e48e5b04568d015f6fd711612b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 21/29] fix: functions with more than 2^31 label vectors
 reported a wrong number of entries

---
 include/opengm/functions/constant.hxx                         | 4 ++--
 .../constraint_functions/linear_constraint_function.hxx       | 4 ++--
 .../constraint_functions/num_labels_limitation_function.hxx   | 2 +-
 include/opengm/functions/pottsg.hxx                           | 4 ++--
 include/opengm/functions/pottsn.hxx                           | 2 +-
 .../soft_constraint_functions/label_cost_function.hxx         | 4 ++--
 .../soft_constraint_functions/sum_constraint_function.hxx     | 2 +-
 7 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/opengm/functions/constant.hxx b/include/opengm/functions/constant.hxx
index 00b8cf6..6809555 100644
--- a/include/opengm/functions/constant.hxx
+++ b/include/opengm/functions/constant.hxx
@@ -91,7 +91,7 @@ ConstantFunction<T, I, L>::ConstantFunction
 )
 :  value_(value),
    shape_(shapeBegin, shapeEnd),
-   size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<ITERATOR>::value_type >()))
+   size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>()))
 {}
 
 template <class T, class I, class L>
@@ -187,7 +187,7 @@ FunctionSerialization< ConstantFunction<T, I, L> >::deserialize
       ++indexInIterator;
       dst.shape_[i]=*indexInIterator;
    }
-   dst.size_=std::accumulate(dst.shape_.begin(), dst.shape_.end(), 1, std::multiplies<size_t>());
+   dst.size_=std::accumulate(dst.shape_.begin(), dst.shape_.end(), static_cast<size_t>(1), std::multiplies<size_t>());
 }
 
 } // namespace opengm
diff --git a/include/opengm/functions/constraint_functions/linear_constraint_function.hxx b/include/opengm/functions/constraint_functions/linear_constraint_function.hxx
index 6fde8f2..a5ee790 100644
--- a/include/opengm/functions/constraint_functions/linear_constraint_function.hxx
+++ b/include/opengm/functions/constraint_functions/linear_constraint_function.hxx
@@ -439,7 +439,7 @@ template<class VALUE_TYPE, class INDEX_TYPE, class LABEL_TYPE>
 template <class SHAPE_ITERATOR_TYPE>
 inline LinearConstraintFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LinearConstraintFunction(SHAPE_ITERATOR_TYPE shapeBegin, SHAPE_ITERATOR_TYPE shapeEnd, const LinearConstraintsContainerType& constraints, const ValueType returnValid, const ValueType returnInvalid)
    : shape_(shapeBegin, shapeEnd),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      constraints_(constraints), violatedConstraintsIds_(constraints_.size()),
      violatedConstraintsWeights_(constraints_.size()),
      returnValid_(returnValid), returnInvalid_(returnInvalid),
@@ -457,7 +457,7 @@ template<class VALUE_TYPE, class INDEX_TYPE, class LABEL_TYPE>
 template <class SHAPE_ITERATOR_TYPE, class CONSTRAINTS_ITERATOR_TYPE>
 inline LinearConstraintFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LinearConstraintFunction(SHAPE_ITERATOR_TYPE shapeBegin, SHAPE_ITERATOR_TYPE shapeEnd, CONSTRAINTS_ITERATOR_TYPE constraintsBegin, CONSTRAINTS_ITERATOR_TYPE constraintsEnd, const ValueType returnValid, const ValueType returnInvalid)
    : shape_(shapeBegin, shapeEnd),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      constraints_(constraintsBegin, constraintsEnd),
      violatedConstraintsIds_(constraints_.size()),
      violatedConstraintsWeights_(constraints_.size()),
diff --git a/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx b/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx
index 735e3fd..ba4cd4f 100644
--- a/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx
+++ b/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx
@@ -456,7 +456,7 @@ inline NumLabelsLimitationFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::NumLabel
   useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
   maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
   maxNumUsedLabels_(maxNumUsedLabels),
-  size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+  size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
   returnValid_(returnValid), returnInvalid_(returnInvalid),
   constraints_(1), violatedConstraintsIds_(1), violatedConstraintsWeights_(1),
   indicatorVariableList_(maxNumLabels_) {
diff --git a/include/opengm/functions/pottsg.hxx b/include/opengm/functions/pottsg.hxx
index 8985555..cbe8d5a 100644
--- a/include/opengm/functions/pottsg.hxx
+++ b/include/opengm/functions/pottsg.hxx
@@ -101,7 +101,7 @@ PottsGFunction<T, I, L>::PottsGFunction
    ITERATOR shapeEnd
 )
 :  shape_(shapeBegin, shapeEnd),
-   size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<ITERATOR>::value_type >()))
+   size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>()))
 {
 
    OPENGM_ASSERT(shape_.size() <= MaximalOrder_);
@@ -124,7 +124,7 @@ PottsGFunction<T, I, L>::PottsGFunction
    ITERATOR2 valuesBegin
 )
 :  shape_(shapeBegin, shapeEnd),
-   size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<ITERATOR>::value_type >()))
+   size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>()))
 {  
    OPENGM_ASSERT(shape_.size() <= MaximalOrder_); 
    if(shape_.size()<=4){
diff --git a/include/opengm/functions/pottsn.hxx b/include/opengm/functions/pottsn.hxx
index a45f01f..fe8022e 100644
--- a/include/opengm/functions/pottsn.hxx
+++ b/include/opengm/functions/pottsn.hxx
@@ -78,7 +78,7 @@ PottsNFunction<T, I, L>::PottsNFunction
    const T valueNotEqual
 )
 :  shape_(shapeBegin, shapeEnd),
-   size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<ITERATOR>::value_type >())),
+   size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
    valueEqual_(valueEqual),
    valueNotEqual_(valueNotEqual)
 {
diff --git a/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx b/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx
index 11a1ba1..f811bee 100644
--- a/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx
+++ b/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx
@@ -294,7 +294,7 @@ inline LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LabelCostFunction(
    : shape_(shapeBegin, shapeEnd), numVariables_(shape_.size()),
      maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
      useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      costs_(costsBegin, costsEnd), useSingleCost_(false), singleLabel_(),
      singleCost_() {
    OPENGM_ASSERT(costs_.size() >= maxNumLabels_);
@@ -306,7 +306,7 @@ inline LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LabelCostFunction(
    : shape_(shapeBegin, shapeEnd), numVariables_(shape_.size()),
      maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
      useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      costs_(), useSingleCost_(true), singleLabel_(label), singleCost_(cost) {
    OPENGM_ASSERT(singleLabel_ < maxNumLabels_);
 }
diff --git a/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx b/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx
index 74c233f..7459633 100644
--- a/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx
+++ b/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx
@@ -312,7 +312,7 @@ inline SumConstraintFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::SumConstraintF
    : shape_(shapeBegin, shapeEnd), numVariables_(shape_.size()),
      useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
      maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      coefficients_(coefficientsBegin, coefficientsEnd),
      shareCoefficients_(shareCoefficients), coefficientsOffsets_(),
      lambda_(lambda), bound_(bound) {
-- 
2.43.0


From 4a98e9d2c67820c5dafba13255a859c39ae14f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 22/29] fix: PottsFunction and AbsoluteDifferenceFunction
 computed their number of entries in the label type

---
 include/opengm/functions/absolute_difference.hxx | 2 +-
 include/opengm/functions/potts.hxx               | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/opengm/functions/absolute_difference.hxx b/include/opengm/functions/absolute_difference.hxx
index f0163c0..7734d4d 100644
--- a/include/opengm/functions/absolute_difference.hxx
+++ b/include/opengm/functions/absolute_difference.hxx
@@ -111,7 +111,7 @@ AbsoluteDifferenceFunction<T, I, L>::dimension() const {
 template <class T, class I, class L>
 inline size_t
 AbsoluteDifferenceFunction<T, I, L>::size() const {
-   return numberOfLabels1_ * numberOfLabels2_;
+   return static_cast<size_t>(numberOfLabels1_) * static_cast<size_t>(numberOfLabels2_);
 }
 
 template<class T, class I, class L>
diff --git a/include/opengm/functions/potts.hxx b/include/opengm/functions/potts.hxx
index c182463..ac38679 100644
--- a/include/opengm/functions/potts.hxx
+++ b/include/opengm/functions/potts.hxx
@@ -140,7 +140,7 @@ PottsFunction<T, I, L>::dimension() const {
 template <class T, class I, class L>
 inline size_t
 PottsFunction<T, I, L>::size() const {
-   return numberOfLabels1_*numberOfLabels2_;
+   return static_cast<size_t>(numberOfLabels1_) * static_cast<size_t>(numberOfLabels2_);
 }
 
 template<class T, class I, class L>
@@ -269,7 +269,7 @@ inline typename PottsFunction<T, I, L>::ValueType
 PottsFunction<T, I, L>::sum() const
 {
    const LabelType minLabels = std::min(numberOfLabels1_, numberOfLabels2_);
-   return valueNotEqual_ * static_cast<T>(numberOfLabels1_ * numberOfLabels2_ - minLabels)
+   return valueNotEqual_ * static_cast<T>(size() - minLabels)
       + valueEqual_*static_cast<T>(minLabels);
 }
 
@@ -282,7 +282,7 @@ PottsFunction<T, I, L>::product() const
    // the call of std::pow is ambiguous for many common combinations of types. this is just a
    // work-around with possible loss of precision, e.g. if valuesNotEqual_ is a long double
    const double x1 = static_cast<double>(valueNotEqual_);
-   const int n1 = static_cast<int>(numberOfLabels1_ * numberOfLabels2_ - minLabels);
+   const int n1 = static_cast<int>(size() - minLabels);
    const double x2 = static_cast<double>(valueEqual_);
    const int n2 = static_cast<int>(minLabels);
    return static_cast<T>(std::pow(x1, n1) * std::pow(x2, n2));
-- 
2.43.0


From 8e64996369f3fd95b9a2179174afb006d822b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 23/29] fix: minimum and maximum of a Potts function with a
 single label vector counted the value for unequal labels

---
 include/opengm/functions/potts.hxx | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/opengm/functions/potts.hxx b/include/opengm/functions/potts.hxx
index ac38679..bf57eac 100644
--- a/include/opengm/functions/potts.hxx
+++ b/include/opengm/functions/potts.hxx
@@ -254,14 +254,14 @@ template<class T, class I, class L>
 inline typename PottsFunction<T, I, L>::ValueType
 PottsFunction<T, I, L>::min() const
 {
-   return valueEqual_<valueNotEqual_ ? valueEqual_ :valueNotEqual_;
+   return size() == 1 || valueEqual_<valueNotEqual_ ? valueEqual_ :valueNotEqual_;
 }
 
 template<class T, class I, class L>
 inline typename PottsFunction<T, I, L>::ValueType
 PottsFunction<T, I, L>::max() const
 {
-   return valueNotEqual_>valueEqual_ ? valueNotEqual_ :valueEqual_;
+   return size() != 1 && valueNotEqual_>valueEqual_ ? valueNotEqual_ :valueEqual_;
 }
 
 template<class T, class I, class L>
@@ -292,12 +292,7 @@ template<class T, class I, class L>
 inline MinMaxFunctor<typename PottsFunction<T, I, L>::ValueType>
 PottsFunction<T, I, L>::minMax() const
 {
-   if(valueEqual_<valueNotEqual_) {
-      return MinMaxFunctor<T>(valueEqual_, valueNotEqual_);
-   }
-   else {
-      return MinMaxFunctor<T>(valueNotEqual_, valueEqual_);
-   }
+   return MinMaxFunctor<T>(min(), max());
 }
 
 } // namespace opengm
-- 
2.43.0


From 8df3f652b587e3b116a16aab543ea8bb2035119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 24/29] fix: FoEFunction deserialization takes the order from
 the data instead of dividing by the number of experts (division by zero for a
 function without experts)

---
 include/opengm/functions/fieldofexperts.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/functions/fieldofexperts.hxx b/include/opengm/functions/fieldofexperts.hxx
index 6c18af4..68533f8 100644
--- a/include/opengm/functions/fieldofexperts.hxx
+++ b/include/opengm/functions/fieldofexperts.hxx
@@ -268,7 +268,7 @@ FunctionSerialization<FoEFunction<T, I, L> >::deserialize
       ++valueInIterator;   
    }
 
-   dst=FoEFunction<T, I, L>(experts,alphas,numLabels);
+   dst=FoEFunction<T, I, L>(experts.begin(),alphas.begin(),numLabels,order,numExperts);
 }
 
 } // namespace opengm
-- 
2.43.0


From e6a27f1c596187ad0aae914c69b87b5271b0e8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 25/29] fix: dereferencing a const AccessorIterator returned a
 reference to a temporary for accessors that return values (shape iterators of
 functions and factors)

---
 include/opengm/utilities/accessor_iterator.hxx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/opengm/utilities/accessor_iterator.hxx b/include/opengm/utilities/accessor_iterator.hxx
index a9bec89..032b477 100644
--- a/include/opengm/utilities/accessor_iterator.hxx
+++ b/include/opengm/utilities/accessor_iterator.hxx
@@ -75,6 +75,12 @@ public:
       >::type,
       value_type&
    >::type reference;
+   typedef typename meta::If
+   <
+      meta::IsFundamental<value_type>::value,
+      const value_type,
+      const value_type&
+   >::type const_reference;
    typedef size_t difference_type;
    typedef std::random_access_iterator_tag iterator_category;
 
@@ -96,9 +102,9 @@ public:
    pointer operator->();
    const value_type* operator->() const;
    reference operator*();
-   const value_type& operator*() const;
+   const_reference operator*() const;
    reference operator[](const size_t);
-   const value_type& operator[](const size_t) const;
+   const_reference operator[](const size_t) const;
 
    AccessorIterator<A, isConst>& operator++();
    AccessorIterator<A, isConst> operator++(int);
@@ -225,7 +231,7 @@ AccessorIterator<A, isConst>::operator->() const
 }
 
 template<class A, bool isConst>
-inline const typename AccessorIterator<A, isConst>::value_type&
+inline typename AccessorIterator<A, isConst>::const_reference
 AccessorIterator<A, isConst>::operator*() const
 {
    OPENGM_ASSERT(index_ < accessor_.size());
@@ -241,7 +247,7 @@ AccessorIterator<A, isConst>::operator*()
 }
 
 template<class A, bool isConst>
-inline const typename AccessorIterator<A, isConst>::value_type&
+inline typename AccessorIterator<A, isConst>::const_reference
 AccessorIterator<A, isConst>::operator[]
 (
    const size_t j
-- 
2.43.0


From d0b149274b396c3b7c3bb44833560ca025515016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:08 +0000
Subject: [PATCH 26/29] fix: isGeneralizedPotts evaluated functions outside
 their shape

---
 .../functions/function_properties_base.hxx    | 110 +++---------------
 1 file changed, 18 insertions(+), 92 deletions(-)

diff --git a/include/opengm/functions/function_properties_base.hxx b/include/opengm/functions/function_properties_base.hxx
index 68882d5..4a40599 100644
--- a/include/opengm/functions/function_properties_base.hxx
+++ b/include/opengm/functions/function_properties_base.hxx
@@ -397,100 +397,26 @@ template<class FUNCTION, class VALUE, class INDEX, class LABEL>
 inline bool 
 FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isGeneralizedPotts() const {
    const FunctionType& f=*static_cast<FunctionType const *>(this);
-   if(f.dimension()==2) {
-      LABEL l[] = {0, 1};
-      VALUE v0 = f(l);
-      l[1]=0;
-      VALUE v1 = f(l);
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) {
-            if((l[0]==l[1] && f(l)!=v1) || ((l[0]!=l[1] && f(l)!=v0)) ) return false;
-         }
-      }
-      return true;
-   }
-   else  if(f.dimension()==3) {
-      LABEL l[] = {0, 1, 2};
-      VALUE v000 = f(l);
-      l[2]=0; l[1]=1; l[0]=1;
-      VALUE v001 = f(l);
-      l[2]=1; l[1]=0; l[0]=1;
-      VALUE v010 = f(l);
-      l[2]=1; l[1]=1; l[0]=0;
-      VALUE v100 = f(l); 
-      l[2]=0; l[1]=0; l[0]=0;
-      VALUE v111 = f(l);
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) { 
-            for(l[2]=0;l[2]<f.shape(2);++l[2]) {
-               if((l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000) ) return false;
-               if((l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v001) ) return false;
-               if((l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v010) ) return false;
-               if((l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v100) ) return false;
-               if((l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v111) ) return false;
+   const size_t dimension=f.dimension();
+   if(dimension>=2 && dimension<=4) {
+      // one value for each pattern of equal labels, taken from the first label vector with that pattern
+      VALUE value[64];
+      bool known[64]={false};
+      ShapeWalker<FunctionShapeIteratorType> shapeWalker(f.functionShapeBegin(), dimension);
+      for(INDEX i=0;i<f.size();++i, ++shapeWalker) {
+         size_t pattern=0;
+         for(size_t a=1;a<dimension;++a) {
+            for(size_t b=0;b<a;++b) {
+               pattern=2*pattern+(shapeWalker.coordinateTuple()[a]==shapeWalker.coordinateTuple()[b] ? 1 : 0);
             }
          }
-      }
-      return true;
-   } 
-   else  if(f.dimension()==4) {
-      LABEL l[] = {0, 1, 2, 3};
-      VALUE v000000 = f(l);
-      l[3]=2; l[2]=1; l[1]=0;l[0]=0;
-      VALUE v000001 = f(l);
-      l[3]=2; l[2]=0; l[1]=1;l[0]=0;
-      VALUE v000010 = f(l);
-      l[3]=2; l[2]=0; l[1]=0;l[0]=1;
-      VALUE v000100 = f(l); 
-      l[3]=1; l[2]=0; l[1]=0;l[0]=0; //3-1
-      VALUE v000111 = f(l);
-      l[3]=0; l[2]=1; l[1]=2; l[0]=0;
-      VALUE v001000 = f(l);
-      l[3]=0; l[2]=1; l[1]=1; l[0]=0;
-      VALUE v001100 = f(l);
-      l[3]=0; l[2]=1; l[1]=0; l[0]=0; //3-1
-      VALUE v011001 = f(l);
-      l[3]=0; l[2]=0; l[1]=0; l[0]=1; //3-1
-      VALUE v110100 = f(l); 
-      l[3]=0; l[2]=0; l[1]=0; l[0]=0;
-      VALUE v111111 = f(l);
-      l[3]=1; l[2]=1; l[1]=0; l[0]=0;
-      VALUE v100001 = f(l); 
-      l[3]=1; l[2]=0; l[1]=1; l[0]=0;
-      VALUE v010010 = f(l); 
-      l[3]=0; l[2]=0; l[1]=1; l[0]=2;
-      VALUE v100000 = f(l); 
-      l[3]=0; l[2]=1; l[1]=0; l[0]=2;
-      VALUE v010000 = f(l);
-      l[3]=0; l[2]=0; l[1]=1; l[0]=0; //3-1
-      VALUE v101010 = f(l); 
-
-
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) { 
-            for(l[2]=0;l[2]<f.shape(2);++l[2]) { 
-               for(l[3]=0;l[3]<f.shape(3);++l[3]) {
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v000001) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v000010) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000100) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v000111) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v001000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v001100) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v010010) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v010000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v011001) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]==l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v110100) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]==l[3] && l[0]==l[3] && l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v111111) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v100001) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v100000) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v101010) ) {std::cout<<"1"; return false;}
-               }
-            }
+         const VALUE v=f(shapeWalker.coordinateTuple().begin());
+         if(!known[pattern]) {
+            value[pattern]=v;
+            known[pattern]=true;
+         }
+         else if(v!=value[pattern]) {
+            return false;
          }
       }
       return true;
-- 
2.43.0


From 917368562b71a3b9209a36754514824795e40301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:16 +0000
Subject: [PATCH 27/29] fix: copying the geometry of an array without shape
 passed null pointers to memcpy

---
 include/opengm/datastructures/marray/marray.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 0c91d2f..2b918f8 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -5801,7 +5801,9 @@ Geometry<A>::Geometry
         strides_[j] = g.strides_[j];
     }
     */
-    memcpy(shape_, g.shape_, (dimension_*3)*sizeof(size_t));
+    if(dimension_ != 0) {
+        memcpy(shape_, g.shape_, (dimension_*3)*sizeof(size_t));
+    }
 }
 
 template<class A>
@@ -5922,7 +5924,9 @@ Geometry<A>::operator=
             strides_[j] = g.strides_[j];
         }
         */
-        memcpy(shape_, g.shape_, (dimension_*3)*sizeof(size_t));
+        if(dimension_ != 0) {
+            memcpy(shape_, g.shape_, (dimension_*3)*sizeof(size_t));
+        }
         size_ = g.size_;
         coordinateOrder_ = g.coordinateOrder_;
         isSimple_ = g.isSimple_;
-- 
2.43.0


From 949c64e7ed95319d779785d2d8ead252feb23c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:07 +0000
Subject: [PATCH 28/29] fix: findInSortedSequence: do not read before an empty
 sequence

---
 include/opengm/utilities/sorting.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/utilities/sorting.hxx b/include/opengm/utilities/sorting.hxx
index 22e6f1d..8a135a6 100644
--- a/include/opengm/utilities/sorting.hxx
+++ b/include/opengm/utilities/sorting.hxx
@@ -17,6 +17,8 @@ findInSortedSequence
    const TYPE_TO_FIND & toFind,
    INDEXTYPE & position
 ) {
+   if(sequenceSize==0)
+      return false;
    if(toFind>static_cast<TYPE_TO_FIND>(sequenceBegin[sequenceSize-1]))
       return false;
    for(INDEXTYPE p=0;p<sequenceSize;++p) {
-- 
2.43.0


From b608aa35c5e925140c5bf838fea32b4d4123dffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:38 +0000
Subject: [PATCH 29/29] fix: indicator variables with several conditions were
 not ordered as documented (no strict weak ordering)

---
 .../datastructures/indicator_variable.hxx     | 42 ++++++++-----------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/include/opengm/datastructures/indicator_variable.hxx b/include/opengm/datastructures/indicator_variable.hxx
index e151794..c6b1a77 100644
--- a/include/opengm/datastructures/indicator_variable.hxx
+++ b/include/opengm/datastructures/indicator_variable.hxx
@@ -575,14 +575,13 @@ bool operator<(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1,
             return false;
          }
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second >= indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first;
+            } else if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second < indicatorVar2.variableLabelPairs_[i].second;
             }
          }
+         return false;
       }
       return true;
    }
@@ -603,14 +602,13 @@ bool operator>(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1,
             return false;
          }
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second <= indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first;
+            } else if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second > indicatorVar2.variableLabelPairs_[i].second;
             }
          }
+         return false;
       }
       return true;
    }
@@ -628,12 +626,10 @@ bool operator<=(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1
       }
       if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second > indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first;
+            } else if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second < indicatorVar2.variableLabelPairs_[i].second;
             }
          }
       }
@@ -653,12 +649,10 @@ bool operator>=(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1
       }
       if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second < indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first;
+            } else if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second > indicatorVar2.variableLabelPairs_[i].second;
             }
          }
       }
-- 
2.43.0

