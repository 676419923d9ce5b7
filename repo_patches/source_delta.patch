From 941ce14453f0deef423f6527534cdbbb0a268fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:20 +0000
Subject: [PATCH 01/35] fix: json::Parser compares the end of input with the
 scanner, not with the pattern

have(const char*) tested m_End against an address inside the pattern literal,
so whether `true`/`false` was accepted depended on where the allocator placed
the input.
---
 include/eni/json/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index 20cd201..8231840 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -260,7 +260,7 @@ private:
   bool have(const char *pPat) {
     int i = 0;
     for(; pPat[i] != '\0'; ++i){
-      if((m_End <= pPat+i) || (pPat[i] != m_It[i])) return 0;
+      if((m_End <= m_It+i) || (pPat[i] != m_It[i])) return 0;
     }
     m_It += i;
     return 1;
-- 
2.43.0


From f3cfe5d88f602e4fdac39d2495d4de31935f9db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:20 +0000
Subject: [PATCH 02/35] fix: EniBase rejects arguments that are not a JSON
 array

check() called toArray() on whatever the text contained and dereferenced an
invalid pointer for `{}`, `"x"`, `1` or `true`.
---
 include/eni/eni.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index 0153398..6c1c420 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -68,7 +68,7 @@ public:
 private:
   bool check(const json::Value& pArgs) {
     if (!m_Parsed) {
-      m_ParseSuccess = parse(pArgs.toArray());
+      m_ParseSuccess = pArgs.isArray() && parse(pArgs.toArray());
       m_Parsed = true;
     }
     return m_ParseSuccess;
-- 
2.43.0


From 3ee92c4908da438af6c41265e646910d0b90d5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:20 +0000
Subject: [PATCH 03/35] fix: copying an uninitialized hash table leaves the
 copy uninitialized

The copy got a zero-sized bucket array, looked initialized, and divided by
zero on the next insert or find.
---
 include/eni/adt/bits/HashBase.tcc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/eni/adt/bits/HashBase.tcc b/include/eni/adt/bits/HashBase.tcc
index 2b4a2a6..8a0c6e0 100644
--- a/include/eni/adt/bits/HashBase.tcc
+++ b/include/eni/adt/bits/HashBase.tcc
@@ -63,6 +63,10 @@ TableImpl<K, V, H, E>::TableImpl(const TableImpl& pCopy)
     m_NumOfEntries(pCopy.m_NumOfEntries),
     m_NumOfTombstones(pCopy.m_NumOfTombstones) {
 
+  // An uninitialized table stays uninitialized: there is nothing to copy.
+  if (!pCopy.isInit())
+    return;
+
   m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
   ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
 
@@ -97,6 +101,10 @@ TableImpl<K, V, H, E>& TableImpl<K, V, H, E>::operator=(const TableImpl& pCopy)
   m_NumOfEntries = pCopy.m_NumOfEntries;
   m_NumOfTombstones = pCopy.m_NumOfTombstones;
 
+  // An uninitialized table stays uninitialized: there is nothing to copy.
+  if (!pCopy.isInit())
+    return *this;
+
   m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
   ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
 
-- 
2.43.0


From 88acbec07daba5abf972b5818002b51a23b089dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 04/35] fix: HashTable assignment keeps its contents on
 self-assignment and releases old entries

Copy-assigning a table to itself destroyed its bucket array, and both
assignments dropped the old entries without destroying them.
---
 include/eni/adt/bits/HashTable.tcc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 7a203c9..c5ed7ae 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -56,6 +56,11 @@ template<typename K, typename V, typename H,
 HashTable<K, V, H, E, A>&
 HashTable<K, V, H, E, A>::operator=(const HashTable& pCopy)
 {
+  if (this == &pCopy)
+    return *this;
+
+  // release the entries we own before the buckets are overwritten
+  clear();
 
   internal::TableImpl<K, V, H>::operator=(pCopy);
 
@@ -79,6 +84,13 @@ template<typename K, typename V, typename H,
 HashTable<K, V, H, E, A>&
 HashTable<K, V, H, E, A>::operator=(HashTable&& pOther)
 {
+  if (this == &pOther)
+    return *this;
+
+  // release the entries and the buckets we own before they are overwritten
+  clear();
+  super::clear();
+
   internal::TableImpl<K, V, H>::operator=(std::move(pOther));
   if (std::is_move_assignable<allocator_type>::value)
     m_EntryAlloc = std::move(pOther.m_EntryAlloc);
-- 
2.43.0


From 577d0678d0b57340eed7871a9d88ab0a54529361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 05/35] fix: ChainIterBase looks at occupied buckets only

An absent key whose hash is zero dereferenced an empty bucket, a table without
buckets divided by zero, and the const version did not compile.
---
 include/eni/adt/bits/HashIterator.tcc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/eni/adt/bits/HashIterator.tcc b/include/eni/adt/bits/HashIterator.tcc
index 939e97a..806cc82 100644
--- a/include/eni/adt/bits/HashIterator.tcc
+++ b/include/eni/adt/bits/HashIterator.tcc
@@ -16,14 +16,20 @@ ChainIterBase<HT>::ChainIterBase()
 template<typename HT>
 ChainIterBase<HT>::ChainIterBase(HT* pTable, const key_type& pKey)
   : m_pHashTable(pTable) {
+  // nothing to be found in an empty (and maybe uninitialized) table
+  if (m_pHashTable->empty()) {
+    reset();
+    return;
+  }
   typename HT::hasher_type hasher;
   m_HashValue = hasher(pKey);
   m_EndIndex = m_Index = m_HashValue % m_pHashTable->numOfBuckets();
   const unsigned int probe = 1;
   while(true) {
-    bucket_type &bucket = m_pHashTable->bucket(m_Index);
-    if (hash_table::Tombstone() == bucket.entry) {
-      // Ignore tombstones.
+    const bucket_type &bucket = m_pHashTable->bucket(m_Index);
+    if (hash_table::Tombstone() == bucket.entry ||
+        hash_table::EmptyBucket() == bucket.entry) {
+      // Ignore tombstones and empty buckets.
     }
     else if (m_HashValue == bucket.hash) {
       if (bucket.entry->key() == pKey) {
-- 
2.43.0


From 17f5ac1241e12ab9be4d825403ae43f78b304cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 06/35] fix: HashTable::count counts the entries with the key

It did not compile, and walked the chain of all entries with the same hash
value instead of those with the same key.
---
 include/eni/adt/bits/HashTable.tcc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index c5ed7ae..a87a6b5 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -200,11 +200,7 @@ template<typename K, typename V, typename H,
 typename HashTable<K, V, H, E, A>::size_type
 HashTable<K, V, H, E, A>::count(const key_type& pKey) const
 {
-  const_chain_iterator bucket, bEnd = end(pKey);
-  size_type count = 0;
-  for (bucket = begin(pKey); bucket != bEnd; ++bucket)
-    ++count;
-  return count;
+  return (-1 == super::findKey(pKey)) ? 0 : 1;
 }
 
 template<typename K, typename V, typename H,
-- 
2.43.0


From e6e42beb0b4f12d2e9725e10854cec88d398ab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 07/35] fix: StringMap and PointerIterator assignments return
 *this

Flowing off the end of the function crashed on assignment.
---
 include/eni/adt/StringMap.h              | 2 ++
 include/eni/adt/bits/PointerIterator.tcc | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/eni/adt/StringMap.h b/include/eni/adt/StringMap.h
index 4ee8814..f755b85 100644
--- a/include/eni/adt/StringMap.h
+++ b/include/eni/adt/StringMap.h
@@ -49,10 +49,12 @@ public:
 
   StringMap& operator=(const StringMap& pCopy) {
     super::operator=(pCopy);
+    return *this;
   }
 
   StringMap& operator=(StringMap&& pOther) {
     super::operator=(pOther);
+    return *this;
   }
 
   value_type& at(const key_type& pKey) {
diff --git a/include/eni/adt/bits/PointerIterator.tcc b/include/eni/adt/bits/PointerIterator.tcc
index 5771e0a..9ee7eff 100644
--- a/include/eni/adt/bits/PointerIterator.tcc
+++ b/include/eni/adt/bits/PointerIterator.tcc
@@ -24,6 +24,7 @@ template<typename ItemType> typename PointerIterator<ItemType>::iterator&
 PointerIterator<ItemType>::operator=(const_iterator& pOther)
 {
   m_Ptr = pOther.m_Ptr;
+  return *this;
 }
 
 template<typename ItemType> typename PointerIterator<ItemType>::reference
-- 
2.43.0


From cd274e3ed6f98a9f90147cd1d211dbd2e60e5303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 08/35] fix: StringHashTable keeps the full length of a key

The length was cut to 16 bits, so keys of 65536 bytes or more could not be
found again and were inserted twice.
---
 include/eni/adt/StringHashTable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/StringHashTable.h b/include/eni/adt/StringHashTable.h
index 138b396..05c5a86 100644
--- a/include/eni/adt/StringHashTable.h
+++ b/include/eni/adt/StringHashTable.h
@@ -45,7 +45,7 @@ public:
 protected:
   value_type m_Value;
 
-  uint16_t m_KeyLen;
+  size_t m_KeyLen;
 
   char m_Key[];
 };
-- 
2.43.0


From 260260282671e64a8f6e78575df6475da7714d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 09/35] fix: a new hash table entry has a value-initialized
 value

StringMap::operator[] on a new key returned uninitialized memory for scalar
values.
---
 include/eni/adt/HashBase.h        | 2 +-
 include/eni/adt/StringHashTable.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eni/adt/HashBase.h b/include/eni/adt/HashBase.h
index 3cf4b09..c6aa9c0 100644
--- a/include/eni/adt/HashBase.h
+++ b/include/eni/adt/HashBase.h
@@ -21,7 +21,7 @@ public:
   typedef Value value_type;
 
 public:
-  Entry(const key_type& pKey) : m_Key(pKey) { }
+  Entry(const key_type& pKey) : m_Key(pKey), m_Value() { }
 
   const Key& key() const { return m_Key; }
   Key&       key()       { return m_Key; }
diff --git a/include/eni/adt/StringHashTable.h b/include/eni/adt/StringHashTable.h
index 05c5a86..01b6f9f 100644
--- a/include/eni/adt/StringHashTable.h
+++ b/include/eni/adt/StringHashTable.h
@@ -27,7 +27,7 @@ public:
   typedef ValueType value_type;
 
 public:
-  Entry(const key_type& pKey) : m_KeyLen(pKey.size()) {
+  Entry(const key_type& pKey) : m_Value(), m_KeyLen(pKey.size()) {
     std::memcpy(m_Key, pKey.data(), pKey.size());
     m_Key[pKey.size()] = '\0';
   }
-- 
2.43.0


From 063421968cae502f6e4db2c6c44945f85eeec313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 10/35] fix: Vector::erase can erase the last element

The end of the range is exclusive, so size() is a valid end.
---
 include/eni/adt/bits/Vector.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 05b6c30..0506b6e 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -342,7 +342,7 @@ Vector<ElementType>::erase(size_type pIndex)
 template<class ElementType> void
 Vector<ElementType>::erase(size_type pFirst, size_type pLast)
 {
-  if (0 > pFirst || pFirst >= pLast || pLast >= size())
+  if (0 > pFirst || pFirst >= pLast || pLast > size())
     throw OutOfRange<InvalidVectorIndex>();
   size_type eraseSize = pLast - pFirst;
   std::copy(m_Data + pLast, m_Data + size(), m_Data + pFirst);
-- 
2.43.0


From 32de658d3077e2988e190055b760266d0884286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 11/35] fix: Vector refuses sizes that cannot be allocated

max_size() ignored the size of an element, so the byte count passed to realloc
wrapped around (a zero-sized realloc frees the data), and inserting too many
elements wrapped the new size.
---
 include/eni/adt/bits/Vector.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 0506b6e..b7985bb 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -97,7 +97,7 @@ Vector<ElementType>::size() const
 template<class ElementType> typename Vector<ElementType>::size_type
 Vector<ElementType>::max_size() const
 {
-  return std::numeric_limits<size_t>::max();
+  return std::numeric_limits<difference_type>::max() / sizeof(ElementType);
 }
 
 template<class ElementType> void
@@ -290,6 +290,8 @@ Vector<ElementType>::insert(size_type pIndex, size_type pSize, const_reference p
   if (0 > pIndex || pIndex > size()) {
     throw OutOfRange<InvalidVectorIndex>();
   }
+  if (pSize > max_size() - size()) //< the sum would exceed the maximum size
+    throw LengthError<InvalidVectorSize>();
   resize(size() + pSize);
   pointer ptr = m_Data + pIndex;
   pointer end = m_Data + size();
-- 
2.43.0


From b121d1e290e07fa67d0d35e05672e2083b78991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 12/35] fix: Vector copies an element passed by reference
 before it reallocates

push_back, emplace_back, insert, assign and resize read the argument after
realloc or after shifting, so passing an element of the same vector read freed
or moved memory.
---
 include/eni/adt/bits/Vector.tcc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index b7985bb..fff6a3c 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -109,9 +109,10 @@ Vector<ElementType>::resize(size_type pSize)
 template<class ElementType> void
 Vector<ElementType>::resize(size_t pSize, const ElementType& pValue)
 {
+  value_type value(pValue); //< pValue may be one of our elements
   reserve(pSize);
   if (pSize > m_DataSize)
-    std::fill_n(end(), pSize - m_DataSize, pValue);
+    std::fill_n(end(), pSize - m_DataSize, value);
   m_DataSize = pSize;
 }
 
@@ -208,8 +209,9 @@ Vector<ElementType>::data()
 template<class ElementType> void
 Vector<ElementType>::assign(size_type pSize, const_reference pValue)
 {
+  value_type value(pValue); //< pValue may be one of our elements
   resize(pSize);
-  std::fill_n(m_Data, pSize, pValue);
+  std::fill_n(m_Data, pSize, value);
 }
 
 template<class ElementType> void
@@ -228,8 +230,9 @@ Vector<ElementType>::assign(initializer_list pIList)
 template<class ElementType> void
 Vector<ElementType>::push_back(const_reference pValue)
 {
+  value_type value(pValue); //< pValue may be one of our elements
   reserve(size() + 1);
-  m_Data[m_DataSize++] = pValue;
+  m_Data[m_DataSize++] = value;
 }
 
 template<class ElementType> typename Vector<ElementType>::value_type
@@ -242,8 +245,9 @@ template<class ElementType>
 template<class ...Args> void
 Vector<ElementType>::emplace_back(Args&& ...pArgs)
 {
+  ElementType value(std::forward<Args>(pArgs)...); //< may refer to our elements
   reserve(size() + 1);
-  m_Data[m_DataSize++] = *(new ElementType(std::forward<Args>(pArgs)...));
+  m_Data[m_DataSize++] = value;
 }
 
 template<class ElementType> typename Vector<ElementType>::iterator
@@ -292,11 +296,12 @@ Vector<ElementType>::insert(size_type pIndex, size_type pSize, const_reference p
   }
   if (pSize > max_size() - size()) //< the sum would exceed the maximum size
     throw LengthError<InvalidVectorSize>();
+  value_type value(pValue); //< pValue may be one of our elements
   resize(size() + pSize);
   pointer ptr = m_Data + pIndex;
   pointer end = m_Data + size();
   std::copy_backward(ptr, end - pSize, end);
-  std::fill_n(ptr, pSize, pValue);
+  std::fill_n(ptr, pSize, value);
 }
 
 template<class ElementType> void
-- 
2.43.0


From f1c40f6c2120e40607ed8a2a2d335377ef73bef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 13/35] fix: Vector::insert(iterator, first, last) compiles
 when it is used

---
 include/eni/adt/bits/Vector.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index fff6a3c..67e2b60 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -271,7 +271,7 @@ Vector<ElementType>::insert(iterator pIt, const_iterator pFirst, const_iterator
 {
   size_type index = pIt - begin();
   insert(index, pFirst, pLast);
-  return Vector<ElementType>::iterator(m_Data + index);
+  return iterator(m_Data + index);
 }
 
 template<class ElementType> typename Vector<ElementType>::iterator
-- 
2.43.0


From 9a25501b016b4003a8bb2cd436ddd180b2179a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 14/35] fix: json::Object prints its keys as JSON strings

Keys were written without quotes and escapes, so a printed object was not JSON
and could not be parsed back.
---
 lib/json/Object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/json/Object.cpp b/lib/json/Object.cpp
index 24c388c..0245afe 100644
--- a/lib/json/Object.cpp
+++ b/lib/json/Object.cpp
@@ -33,7 +33,8 @@ void Object::print(std::ostream& pOs) const {
       pOs << ',';
     else
       first = false;
-    pOs << it->key() << ':';
+    Value(it->key()).print(pOs);
+    pOs << ':';
     it->value().print(pOs);
   }
   pOs << '\n';
-- 
2.43.0


From b1961f895cfc05ea2203107fda47e9b19f3ee0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 15/35] fix: RSA encryption rejects messages longer than the
 modulus

The rest of the message was dropped silently.
---
 tools/eni_crypto/eni_crypto.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 6873873..dca1722 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -72,6 +72,8 @@ void rsa::destroy(RSA*& pKey)
 bool rsa::pub_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
   int size = ::RSA_size(&pKey);
+  if (pMsg.length() > size) //< does not fit in one block
+    return false;
   unsigned char* encrypted = new unsigned char[size];
   std::string message(pMsg);
   if (message.length() < size)
@@ -101,6 +103,8 @@ bool rsa::pub_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 bool rsa::priv_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
   int size = ::RSA_size(&pKey);
+  if (pMsg.length() > size) //< does not fit in one block
+    return false;
   unsigned char* encrypted = new unsigned char[size];
   std::string message(pMsg);
   if (message.length() < size)
-- 
2.43.0


From 54504b13f4b36d760b4e01ec6328f1fda56ec287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 16/35] fix: RSA decryption uses the length of the decrypted
 block

The block was read as a C string: a message as long as the modulus was read
past the end of the buffer and a message with a NUL was cut.
---
 tools/eni_crypto/eni_crypto.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index dca1722..2aaf51c 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -95,8 +95,10 @@ bool rsa::pub_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  std::string result(reinterpret_cast<const char*>(decrypted));
-  pResult.assign(result.c_str(), result.length());
+  // strip the padding added by encryption
+  while (len > 0 && '\0' == decrypted[len - 1])
+    --len;
+  pResult.assign(reinterpret_cast<const char*>(decrypted), len);
   return true;
 }
 
@@ -126,8 +128,10 @@ bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  std::string result(reinterpret_cast<const char*>(decrypted));
-  pResult.assign(result.c_str(), result.length());
+  // strip the padding added by encryption
+  while (len > 0 && '\0' == decrypted[len - 1])
+    --len;
+  pResult.assign(reinterpret_cast<const char*>(decrypted), len);
   return true;
 }
 
-- 
2.43.0


From 3eedd249776262c29296b3f316249b6ee4aff8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 17/35] fix: hex2str rejects characters that are not hex digits
 and decodes upper case

Anything was accepted and decoded to garbage, upper case digits included.
---
 tools/eni_crypto/eni_crypto.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 2aaf51c..323756a 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -19,7 +19,9 @@ using namespace eni_crypto;
 ==------------------------------------------------------------------------==*/
 static inline unsigned char hex2digit(char h1, char h0)
 {
-  auto h2d = [](char h) { return (h < 'a') ? (h - '0') : (h - 'a' + 10); };
+  auto h2d = [](char h) {
+    return (h < 'A') ? (h - '0') : (h < 'a') ? (h - 'A' + 10) : (h - 'a' + 10);
+  };
   return h2d(h1) * 16 + h2d(h0);
 }
 
@@ -38,6 +40,8 @@ bool eni_crypto::hex2str(const std::string& pHex, std::string& pStr)
 {
   if (0 != (pHex.length() % 2))
     return false;
+  if (pHex.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
+    return false;
   pStr.clear();
   std::string::const_iterator ic, end = pHex.end();
   for (ic = pHex.begin(); ic != end; ic += 2)
-- 
2.43.0


From 92b384f43b500ba886923f7b28b2f7fcb9010b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 18/35] fix: HashTable::rehash(n) never makes a table too small
 for its elements

Probing for a free bucket did not terminate when n was not larger than the
number of elements, and n == 0 made later lookups divide by zero.
---
 include/eni/adt/bits/HashTable.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index a87a6b5..2fc138d 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -221,6 +221,9 @@ template<typename K, typename V, typename H,
          template<class, class> class E, template<class> class A>
 void HashTable<K, V, H, E, A>::rehash(size_type pCount)
 {
+  // all elements have to fit, with an empty bucket left to end probing
+  if (pCount <= super::m_NumOfEntries)
+    pCount = internal::compute_bucket_size(super::m_NumOfEntries);
   super::doRehash(pCount);
 }
 
-- 
2.43.0


From 4f0c0b548736d23723ddbf0dd781c8e43bc06e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 19/35] fix: HashIterator can be dereferenced with operator*

---
 include/eni/adt/HashIterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eni/adt/HashIterator.h b/include/eni/adt/HashIterator.h
index fc29f55..36d7256 100644
--- a/include/eni/adt/HashIterator.h
+++ b/include/eni/adt/HashIterator.h
@@ -176,8 +176,8 @@ public:
 
   /// @name C++ Iterator (dereferenceable)
   /// @{
-  const_reference operator*() const { return *m_Impl.operator->(); }
-  reference       operator*()       { return *m_Impl.operator->(); }
+  const_reference operator*() const { return *m_Impl.getEntry(); }
+  reference       operator*()       { return *m_Impl.getEntry(); }
   /// @}
 
   /// @name C++ Iterator (incrementable)
-- 
2.43.0


From af1aad5fa1674e0e9b9e208b038334129f404787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 20/35] fix: eni_gas frees the gas value with free

The value is allocated with malloc.
---
 tools/eni_cli/eni_gas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/eni_cli/eni_gas.cpp b/tools/eni_cli/eni_gas.cpp
index 0504115..403ac76 100644
--- a/tools/eni_cli/eni_gas.cpp
+++ b/tools/eni_cli/eni_gas.cpp
@@ -35,6 +35,6 @@ int main(int argc, char* argv[])
   ::dlclose(handle);
 
   std::cout << *gas << std::endl;
-  delete gas;
+  ::free(gas);
   return ExitSuccess;
 }
-- 
2.43.0


From 5d0bbb06d87aeaff58c17e48c68979ca68aa1c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 21/35] fix: the null JSON value is undefined

Value(UNDEF) picked the constructor from int and made the integer 5.
---
 lib/json/Value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 1b428b9..28809ad 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -14,7 +14,7 @@
 using namespace eni;
 using namespace json;
 
-static Value g_NullValue(UNDEF); // XXX
+static Value g_NullValue; // XXX
 
 Value::Value(const Value& pCopy)
   : Notation(pCopy) {
-- 
2.43.0


From b16f4da6492c6115f43da5b79d74af8f66b506cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 22/35] fix: looking up a missing key in a const JSON value
 does not insert it

---
 lib/json/Value.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 28809ad..c748422 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -198,7 +198,9 @@ Value& Value::operator=(const Value& pCopy)
 const Value& Value::operator[](const std::string &key) const
 {
   if (m_Type == OBJECT) {
-    return (*m_Value.object_p)[key];
+    Object::const_iterator it = toObject().find(key);
+    if (it != toObject().end())
+      return it->value();
   }
   return g_NullValue;
 }
-- 
2.43.0


From 6158dfaaaf16a76fad657a373a3621cc84017753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 23/35] fix: the number of dots in StringHasher<ES> saturates

A string with 16 or more dots looked as if it had fewer than its own
substrings, so may_include() gave a false negative.
---
 include/eni/adt/StringHasher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eni/adt/StringHasher.h b/include/eni/adt/StringHasher.h
index 2846d56..0e73861 100644
--- a/include/eni/adt/StringHasher.h
+++ b/include/eni/adt/StringHasher.h
@@ -283,7 +283,8 @@ struct StringHasher<ES> : public std::unary_function<const std::string&, uint32_
       int cur_char = pString[idx];
 
       if ('.' == cur_char) {
-        ++dot;
+        if (dot < 15) //< saturate, there are only four bits
+          ++dot;
         continue;
       }
 
-- 
2.43.0


From d321387b5119c79a11bf59583bb04364f6ac1cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 24/35] fix: rsa_encrypt and rsa_decrypt reject missing or
 non-string arguments

They aborted on missing arguments and dereferenced values of other types as
strings.
---
 tools/eni_crypto/eni_crypto.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 323756a..c99af13 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -144,6 +144,8 @@ bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 ==------------------------------------------------------------------------==*/
 bool RSAEncrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
+    return false;
   m_Key = rsa::create_pubkey(pArgs[0].toString());
   if (nullptr == m_Key)
     return false;
@@ -173,6 +175,8 @@ bool RSAEncrypt::run(json::Array& pRetVal)
 ==------------------------------------------------------------------------==*/
 bool RSADecrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
+    return false;
   m_Key = rsa::create_privkey(pArgs[0].toString());
   if (nullptr == m_Key)
     return false;
-- 
2.43.0


From dc9a2e1cb17c5273d37829d02382d2d1c9f87b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 25/35] fix: scrypt rejects a missing or non-string argument

It aborted on a missing argument and dereferenced values of other types as
strings.
---
 tools/eni_scrypt/eni_scrypt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/eni_scrypt/eni_scrypt.cpp b/tools/eni_scrypt/eni_scrypt.cpp
index 7f543a5..5675703 100644
--- a/tools/eni_scrypt/eni_scrypt.cpp
+++ b/tools/eni_scrypt/eni_scrypt.cpp
@@ -12,6 +12,8 @@
 
 bool Scrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.empty() || !pArgs[0].isString())
+    return false;
   m_Str = pArgs[0].toString();
 
   // input validation
-- 
2.43.0


From b9ac3df134bbc882c0f94e6efd8966f1acf3a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 26/35] fix: reverse rejects a missing or non-string argument

It aborted on a missing argument and dereferenced values of other types as
strings.
---
 examples/eni/reverse/eni_reverse.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/examples/eni/reverse/eni_reverse.cpp b/examples/eni/reverse/eni_reverse.cpp
index 1148465..35f4dae 100644
--- a/examples/eni/reverse/eni_reverse.cpp
+++ b/examples/eni/reverse/eni_reverse.cpp
@@ -15,6 +15,8 @@ public:
 
 private:
   bool parse(const json::Array& pArgs) override {
+    if (pArgs.empty() || !pArgs[0].isString())
+      return false;
     m_Str = pArgs[0].toString();
     return true;
   }
-- 
2.43.0


From 57258fa71bd44a0e7b8e962fdb063ab7b174583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 27/35] fix: the json example rejects bad arguments, ranges and
 indices

Missing arguments, arguments of other types, ranges outside the data, text
that is not JSON and indices past the end aborted or read out of bounds.
---
 examples/eni/json/eni_json.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/examples/eni/json/eni_json.cpp b/examples/eni/json/eni_json.cpp
index 10fd45a..f47d12d 100644
--- a/examples/eni/json/eni_json.cpp
+++ b/examples/eni/json/eni_json.cpp
@@ -13,7 +13,7 @@
 namespace {
 std::string parseString(const std::string& raw) {
     json::Parser parser(raw);
-    if (!parser) return "";
+    if (!parser || !parser.getRoot().isString()) return "";
     return parser.getRoot().toString();
 }
 std::vector<jsmntok_t> internalParse(const char* data, int start, int end) {
@@ -22,11 +22,13 @@ std::vector<jsmntok_t> internalParse(const char* data, int start, int end) {
     p.toknext = 0;
     p.toksuper = -1;
     int len = jsmn_parse(&p, data, end, 0, 0);
+    if (len < 0) len = 0;
     std::vector<jsmntok_t> result(len);
     p.pos = start;
     p.toknext = 0;
     p.toksuper = -1;
-    jsmn_parse(&p, data, end, result.data(), len);
+    len = jsmn_parse(&p, data, end, result.data(), len);
+    if (len < 0) result.clear(); // not a JSON text
     return result;
 }
 std::string encodeToken(const jsmntok_t& tok) {
@@ -40,6 +42,7 @@ std::string encodeToken(const jsmntok_t& tok) {
 std::vector<jsmntok_t> arrayTokens(const char* data, int start, int end) {
     auto tokens = internalParse(data, start, end);
     std::vector<jsmntok_t> result;
+    if (tokens.empty()) return result;
     int after = tokens[0].start;
     int before = tokens[0].end;
     for (int i = 1; i < tokens.size(); i++) {
@@ -69,6 +72,7 @@ std::string arrayGet(const char* data, int start, int end, int index) {
 std::map<std::string, jsmntok_t> objectTokens(const char* data, int start, int end) {
     auto tokens = internalParse(data, start, end);
     std::map<std::string, jsmntok_t> result;
+    if (tokens.empty()) return result;
     int after = tokens[0].start;
     int before = tokens[0].end;
     int key_token = 0;
@@ -108,17 +112,31 @@ public:
 
 private:
     bool parse(const json::Array& pArgs) override {
+        if (pArgs.size() < 4 || !pArgs[0].isString() || !pArgs[1].isString() ||
+            !pArgs[2].isInteger() || !pArgs[3].isInteger())
+            return false;
         std::string op = pArgs[0].toString();
         std::string data = pArgs[1].toString();
+        // the range has to be inside the data
+        if (pArgs[2].toInteger() < 0 ||
+            pArgs[2].toInteger() > pArgs[3].toInteger() ||
+            pArgs[3].toInteger() > data.length())
+            return false;
         int begin = (int)pArgs[2].toInteger();
         int end = (int)pArgs[3].toInteger();
         if (op == "parseString") {
-            m_Str = parseString(std::string(data.data(), begin, end));
+            m_Str = parseString(std::string(data, begin, end));
         } else if (op == "parseArray") {
             m_Str = parseArray(data.data(), begin, end);
         } else if (op == "arrayGet") {
+            if (pArgs.size() < 5 || !pArgs[4].isInteger() ||
+                pArgs[4].toInteger() < 0 ||
+                pArgs[4].toInteger() >= arrayTokens(data.data(), begin, end).size())
+                return false;
             m_Str = arrayGet(data.data(), begin, end, (int)pArgs[4].toInteger());
         } else if (op == "objectGet") {
+            if (pArgs.size() < 5 || !pArgs[4].isString())
+                return false;
             m_Str = objectGet(data.data(), begin, end, pArgs[4].toString());
         } else {
             return false;
-- 
2.43.0


From 378f44b2b76f5013dea3d2de674643e08c9f4567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 28/35] fix: adding to and subtracting constant vector
 iterators compiles

---
 include/eni/adt/PointerIterator.h        | 6 +++---
 include/eni/adt/bits/PointerIterator.tcc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/eni/adt/PointerIterator.h b/include/eni/adt/PointerIterator.h
index 6275c3d..ba3990a 100644
--- a/include/eni/adt/PointerIterator.h
+++ b/include/eni/adt/PointerIterator.h
@@ -67,12 +67,12 @@ public:
   /// @name C++ Random-Access Iterator
   /// @{
   iterator& operator+=(size_type pOffset);
-  iterator operator+(size_type pOffset);
+  iterator operator+(size_type pOffset) const;
 
   iterator& operator-=(size_type pOffset);
-  iterator operator-(size_type pOffset);
+  iterator operator-(size_type pOffset) const;
 
-  difference_type operator-(iterator pOther);
+  difference_type operator-(iterator pOther) const;
 
   reference operator[](size_type pOffset);
 
diff --git a/include/eni/adt/bits/PointerIterator.tcc b/include/eni/adt/bits/PointerIterator.tcc
index 9ee7eff..3f9bcad 100644
--- a/include/eni/adt/bits/PointerIterator.tcc
+++ b/include/eni/adt/bits/PointerIterator.tcc
@@ -89,7 +89,7 @@ PointerIterator<ItemType>::operator+=(size_type pOffset)
 }
 
 template<typename ItemType> typename PointerIterator<ItemType>::iterator
-PointerIterator<ItemType>::operator+(size_type pOffset)
+PointerIterator<ItemType>::operator+(size_type pOffset) const
 {
   return iterator(m_Ptr + pOffset);
 }
@@ -102,13 +102,13 @@ PointerIterator<ItemType>::operator-=(size_type pOffset)
 }
 
 template<typename ItemType> typename PointerIterator<ItemType>::iterator
-PointerIterator<ItemType>::operator-(size_type pOffset)
+PointerIterator<ItemType>::operator-(size_type pOffset) const
 {
   return iterator(m_Ptr - pOffset);
 }
 
 template<typename ItemType> typename PointerIterator<ItemType>::difference_type
-PointerIterator<ItemType>::operator-(iterator pOther)
+PointerIterator<ItemType>::operator-(iterator pOther) const
 {
   return m_Ptr - pOther.m_Ptr;
 }
-- 
2.43.0


From 64bb5eb1827448452d0a66c24635d97c48cf70cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 29/35] fix: a JSON value can be assigned to a part of itself

---
 lib/json/Value.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index c748422..6861ad0 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -168,8 +168,8 @@ void Value::printValue(std::ostream &os) const
 
 Value& Value::operator=(const Value& pCopy)
 {
-  Notation::operator=(pCopy);
-  switch (this->type()) {
+  // this may be a part of pCopy: it keeps its type until pCopy has been copied
+  switch (pCopy.type()) {
     case INT:
       m_Value.int_p = new eni::s256(*pCopy.m_Value.int_p);
       break;
@@ -188,6 +188,7 @@ Value& Value::operator=(const Value& pCopy)
     case UNDEF:
       break;
   }
+  Notation::operator=(pCopy);
   return *this;
 }
 
-- 
2.43.0


From 318db9ca9374f2e50c33b1a46a48638f072fb257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 30/35] Revert "fix: the json example rejects bad arguments,
 ranges and indices"

This reverts commit 57258fa71bd44a0e7b8e962fdb063ab7b174583a.
---
 examples/eni/json/eni_json.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/examples/eni/json/eni_json.cpp b/examples/eni/json/eni_json.cpp
index f47d12d..10fd45a 100644
--- a/examples/eni/json/eni_json.cpp
+++ b/examples/eni/json/eni_json.cpp
@@ -13,7 +13,7 @@
 namespace {
 std::string parseString(const std::string& raw) {
     json::Parser parser(raw);
-    if (!parser || !parser.getRoot().isString()) return "";
+    if (!parser) return "";
     return parser.getRoot().toString();
 }
 std::vector<jsmntok_t> internalParse(const char* data, int start, int end) {
@@ -22,13 +22,11 @@ std::vector<jsmntok_t> internalParse(const char* data, int start, int end) {
     p.toknext = 0;
     p.toksuper = -1;
     int len = jsmn_parse(&p, data, end, 0, 0);
-    if (len < 0) len = 0;
     std::vector<jsmntok_t> result(len);
     p.pos = start;
     p.toknext = 0;
     p.toksuper = -1;
-    len = jsmn_parse(&p, data, end, result.data(), len);
-    if (len < 0) result.clear(); // not a JSON text
+    jsmn_parse(&p, data, end, result.data(), len);
     return result;
 }
 std::string encodeToken(const jsmntok_t& tok) {
@@ -42,7 +40,6 @@ std::string encodeToken(const jsmntok_t& tok) {
 std::vector<jsmntok_t> arrayTokens(const char* data, int start, int end) {
     auto tokens = internalParse(data, start, end);
     std::vector<jsmntok_t> result;
-    if (tokens.empty()) return result;
     int after = tokens[0].start;
     int before = tokens[0].end;
     for (int i = 1; i < tokens.size(); i++) {
@@ -72,7 +69,6 @@ std::string arrayGet(const char* data, int start, int end, int index) {
 std::map<std::string, jsmntok_t> objectTokens(const char* data, int start, int end) {
     auto tokens = internalParse(data, start, end);
     std::map<std::string, jsmntok_t> result;
-    if (tokens.empty()) return result;
     int after = tokens[0].start;
     int before = tokens[0].end;
     int key_token = 0;
@@ -112,31 +108,17 @@ public:
 
 private:
     bool parse(const json::Array& pArgs) override {
-        if (pArgs.size() < 4 || !pArgs[0].isString() || !pArgs[1].isString() ||
-            !pArgs[2].isInteger() || !pArgs[3].isInteger())
-            return false;
         std::string op = pArgs[0].toString();
         std::string data = pArgs[1].toString();
-        // the range has to be inside the data
-        if (pArgs[2].toInteger() < 0 ||
-            pArgs[2].toInteger() > pArgs[3].toInteger() ||
-            pArgs[3].toInteger() > data.length())
-            return false;
         int begin = (int)pArgs[2].toInteger();
         int end = (int)pArgs[3].toInteger();
         if (op == "parseString") {
-            m_Str = parseString(std::string(data, begin, end));
+            m_Str = parseString(std::string(data.data(), begin, end));
         } else if (op == "parseArray") {
             m_Str = parseArray(data.data(), begin, end);
         } else if (op == "arrayGet") {
-            if (pArgs.size() < 5 || !pArgs[4].isInteger() ||
-                pArgs[4].toInteger() < 0 ||
-                pArgs[4].toInteger() >= arrayTokens(data.data(), begin, end).size())
-                return false;
             m_Str = arrayGet(data.data(), begin, end, (int)pArgs[4].toInteger());
         } else if (op == "objectGet") {
-            if (pArgs.size() < 5 || !pArgs[4].isString())
-                return false;
             m_Str = objectGet(data.data(), begin, end, pArgs[4].toString());
         } else {
             return false;
-- 
2.43.0


From 90e55e79c6d1e7ea27dccc4c92e519e3a5d9894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 31/35] Revert "fix: reverse rejects a missing or non-string
 argument"

This reverts commit b9ac3df134bbc882c0f94e6efd8966f1acf3a678.
---
 examples/eni/reverse/eni_reverse.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/examples/eni/reverse/eni_reverse.cpp b/examples/eni/reverse/eni_reverse.cpp
index 35f4dae..1148465 100644
--- a/examples/eni/reverse/eni_reverse.cpp
+++ b/examples/eni/reverse/eni_reverse.cpp
@@ -15,8 +15,6 @@ public:
 
 private:
   bool parse(const json::Array& pArgs) override {
-    if (pArgs.empty() || !pArgs[0].isString())
-      return false;
     m_Str = pArgs[0].toString();
     return true;
   }
-- 
2.43.0


From 98e8039866e41a161b172cfeeb2c2ec5efd48ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 32/35] fix: ParserError is one class in all translation units

---
 include/eni/json/Parser.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index 8231840..4b8fbd2 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -30,11 +30,9 @@
 #include <string>
 #include <vector>
 
-namespace {
+namespace json {
 class ParserError{};
-}
 
-namespace json {
 // the JSON parser for only JSON text in memory
 // read/write files is not supported yet
 using std::vector;
-- 
2.43.0


From 62e5696b29562596fb640fa4411b9adbd3d81bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 33/35] fix: RSA keys protected by a passphrase are refused
 without asking for it

---
 tools/eni_crypto/eni_crypto.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index c99af13..893fa6d 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -49,12 +49,18 @@ bool eni_crypto::hex2str(const std::string& pHex, std::string& pStr)
   return true;
 }
 
+// Refuses keys protected by a passphrase instead of asking on the terminal.
+static int no_passphrase(char*, int, int, void*)
+{
+  return -1;
+}
+
 RSA* rsa::create_pubkey(const std::string& pPemStr)
 {
   BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), -1);
   if (NULL == bio)
     return NULL;
-  RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, NULL, NULL);
+  RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, no_passphrase, NULL);
   return key;
 }
 
@@ -63,7 +69,7 @@ RSA* rsa::create_privkey(const std::string& pPemStr)
   BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), -1);
   if (NULL == bio)
     return NULL;
-  RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, NULL, NULL);
+  RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, no_passphrase, NULL);
   return key;
 }
 
-- 
2.43.0


From 7129cb5d9ace81b9303625d185519fb37304b346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 34/35] fix: the result of rsa_decrypt does not depend on
 random numbers

---
 tools/eni_crypto/eni_crypto.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 893fa6d..5747cff 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -70,6 +70,9 @@ RSA* rsa::create_privkey(const std::string& pPemStr)
   if (NULL == bio)
     return NULL;
   RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, no_passphrase, NULL);
+  // with blinding the result is random when the parts of the key do not match
+  if (NULL != key)
+    RSA_blinding_off(key);
   return key;
 }
 
-- 
2.43.0


From 2fa7291b8b4ec485abb4d970a36184221c0a9a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 35/35] fix: an allocation of more than max_size() elements
 wraps around to a small block

---
 include/eni/support/MallocAllocator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eni/support/MallocAllocator.h b/include/eni/support/MallocAllocator.h
index 1a7b62a..d2ed313 100644
--- a/include/eni/support/MallocAllocator.h
+++ b/include/eni/support/MallocAllocator.h
@@ -50,6 +50,8 @@ public:
   pointer       address(reference       X) const { return &X; }
 
   pointer allocate(size_type pNumOfElements = 1, const void* pU = NULL) {
+    if (pNumOfElements > max_size()) //< the size in bytes would wrap around
+      return NULL;
     return static_cast<pointer>(std::malloc(pNumOfElements*sizeof(DataType)));
   }
 
-- 
2.43.0

