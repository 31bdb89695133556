From dd9afa1dffdd5534ee221e7a75578aa656ecdbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 01/57] fix: a particle set that runs out of memory throws and
 keeps its contents

Allocations were not checked: a failed malloc or realloc left null or freed
data behind (and addParticle wrote past the old block), and a failure part
way through addAttribute left the set's tables out of step.
---
 src/lib/core/ParticleSimple.cpp | 77 +++++++++++++++++++++++----------
 1 file changed, 54 insertions(+), 23 deletions(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index 4fa23e6..4c7d230 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -43,12 +43,23 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 #include <algorithm>
 #include <cassert>
 #include <iostream>
+#include <new>
 
 #include "KdTree.h"
 
 
 using namespace Partio;
 
+namespace{
+//! Resizes a block of memory, the block stays as it is if there is no memory
+char* reallocate(char* block,size_t bytes)
+{
+    void* memory=realloc(block,bytes ? bytes : 1);
+    if(!memory) throw std::bad_alloc();
+    return static_cast<char*>(memory);
+}
+}
+
 ParticlesSimple::
 ParticlesSimple()
     :particleCount(0),allocatedCount(0),kdtree(nullptr)
@@ -220,15 +231,27 @@ addAttribute(const char* attribute,ParticleAttributeType type,const int count)
     attr.type=type;
     attr.attributeIndex=static_cast<int>(attributes.size()); //  all arrays separate so we don't use this here!
     attr.count=count;
-    attributes.push_back(attr);
-    nameToAttribute[attribute]=static_cast<int>(attributes.size()-1);
-
     int stride=TypeSize(type)*count;
-    attributeStrides.push_back(stride);
-    char* dataPointer=(char*)malloc((size_t)allocatedCount*(size_t)stride);
-    attributeData.push_back(dataPointer);
-    attributeOffsets.push_back(dataPointer-(char*)0);
-    attributeIndexedStrs.push_back(IndexedStrTable());
+    char* dataPointer=reallocate(nullptr,(size_t)allocatedCount*(size_t)stride);
+    const size_t oldCount=attributes.size();
+    try{
+        attributes.push_back(attr);
+        nameToAttribute[attr.name]=static_cast<int>(oldCount);
+        attributeStrides.push_back(stride);
+        attributeData.push_back(dataPointer);
+        attributeOffsets.push_back(dataPointer-(char*)0);
+        attributeIndexedStrs.push_back(IndexedStrTable());
+    }catch(...){
+        // leave the set as it was
+        free(dataPointer);
+        attributes.resize(oldCount);
+        nameToAttribute.erase(attr.name);
+        attributeStrides.resize(oldCount);
+        attributeData.resize(oldCount);
+        attributeOffsets.resize(oldCount);
+        attributeIndexedStrs.resize(oldCount);
+        throw;
+    }
 
     return attr;
 }
@@ -246,13 +269,23 @@ addFixedAttribute(const char* attribute,ParticleAttributeType type,const int cou
     attr.type=type;
     attr.attributeIndex=fixedAttributes.size(); //  all arrays separate so we don't use this here!
     attr.count=count;
-    fixedAttributes.push_back(attr);
-    nameToFixedAttribute[attribute]=fixedAttributes.size()-1;
-
     int stride=TypeSize(type)*count;
-    char* dataPointer=(char*)malloc(stride);
-    fixedAttributeData.push_back(dataPointer);
-    fixedAttributeIndexedStrs.push_back(IndexedStrTable());
+    char* dataPointer=reallocate(nullptr,stride);
+    const size_t oldCount=fixedAttributes.size();
+    try{
+        fixedAttributes.push_back(attr);
+        nameToFixedAttribute[attr.name]=static_cast<int>(oldCount);
+        fixedAttributeData.push_back(dataPointer);
+        fixedAttributeIndexedStrs.push_back(IndexedStrTable());
+    }catch(...){
+        // leave the set as it was
+        free(dataPointer);
+        fixedAttributes.resize(oldCount);
+        nameToFixedAttribute.erase(attr.name);
+        fixedAttributeData.resize(oldCount);
+        fixedAttributeIndexedStrs.resize(oldCount);
+        throw;
+    }
 
     return attr;
 }
@@ -261,13 +294,10 @@ ParticleIndex ParticlesSimple::
 addParticle()
 {
     if(allocatedCount==particleCount){
-        allocatedCount=std::max(10,std::max(allocatedCount*3/2,particleCount));
-        for(unsigned int i=0;i<attributes.size();i++) {
-            char *memory = (char*)realloc(attributeData[i],(size_t)attributeStrides[i]*(size_t)allocatedCount);
-            if(memory){
-                attributeData[i]=memory;
-            }
-        }
+        int newCount=std::max(10,std::max(allocatedCount*3/2,particleCount));
+        for(unsigned int i=0;i<attributes.size();i++)
+            attributeData[i]=reallocate(attributeData[i],(size_t)attributeStrides[i]*(size_t)newCount);
+        allocatedCount=newCount;
     }
     ParticleIndex index=particleCount;
     particleCount++;
@@ -279,11 +309,12 @@ addParticles(const int countToAdd)
 {
     if(particleCount+countToAdd>allocatedCount){
         // TODO: this should follow 2/3 rule
-        allocatedCount=allocatedCount+countToAdd;
+        int newCount=allocatedCount+countToAdd;
         for(unsigned int i=0;i<attributes.size();i++){
-            attributeData[i]=(char*)realloc(attributeData[i],(size_t)attributeStrides[i]*(size_t)allocatedCount);
+            attributeData[i]=reallocate(attributeData[i],(size_t)attributeStrides[i]*(size_t)newCount);
             attributeOffsets[i]=attributeData[i]-(char*)0;
         }
+        allocatedCount=newCount;
     }
     int offset=particleCount;
     particleCount+=countToAdd;
-- 
2.43.0


From 1a435c8acb9970f892fd9a4421aec6c772d86e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:31 +0000
Subject: [PATCH 02/57] fix: renaming an indexed string to one that exists
 keeps the string table intact

setIndexedStr erased the end of the map when another token with the same
string had been renamed before, and made strings that are still in the table
impossible to look up.  A failed allocation left table and map out of step.
---
 src/lib/core/ParticleSimple.cpp           | 24 ++++++++++++++---------
 src/lib/core/ParticleSimple.h             | 16 +++++++++++++++
 src/lib/core/ParticleSimpleInterleave.cpp | 24 ++++++++++++++---------
 src/lib/core/ParticleSimpleInterleave.h   | 16 +++++++++++++++
 4 files changed, 62 insertions(+), 18 deletions(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index 4c7d230..3fd154d 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -417,7 +417,12 @@ registerIndexedStr(const ParticleAttribute& attribute,const char* str)
     if(it!=table.stringToIndex.end()) return it->second;
     int newIndex=static_cast<int>(table.strings.size());
     table.strings.push_back(str);
-    table.stringToIndex[str]=newIndex;
+    try{
+        table.stringToIndex[table.strings.back()]=newIndex;
+    }catch(...){
+        table.strings.pop_back();
+        throw;
+    }
     return newIndex;
 }
 
@@ -427,9 +432,14 @@ registerFixedIndexedStr(const FixedAttribute& attribute,const char* str)
     IndexedStrTable& table=fixedAttributeIndexedStrs[attribute.attributeIndex];
     std::map<std::string,int>::const_iterator it=table.stringToIndex.find(str);
     if(it!=table.stringToIndex.end()) return it->second;
-    int newIndex=table.strings.size();
+    int newIndex=static_cast<int>(table.strings.size());
     table.strings.push_back(str);
-    table.stringToIndex[str]=newIndex;
+    try{
+        table.stringToIndex[table.strings.back()]=newIndex;
+    }catch(...){
+        table.strings.pop_back();
+        throw;
+    }
     return newIndex;
 }
 
@@ -468,15 +478,11 @@ fixedIndexedStrs(const FixedAttribute& attr) const
 void ParticlesSimple::setIndexedStr(const ParticleAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=attributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.rename(indexedStringToken,str);
 }
 
 void ParticlesSimple::setFixedIndexedStr(const FixedAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=fixedAttributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.rename(indexedStringToken,str);
 }
diff --git a/src/lib/core/ParticleSimple.h b/src/lib/core/ParticleSimple.h
index 86247e8..ff8d2a6 100644
--- a/src/lib/core/ParticleSimple.h
+++ b/src/lib/core/ParticleSimple.h
@@ -107,6 +107,22 @@ private:
     struct IndexedStrTable{
         std::map<std::string,int> stringToIndex; // TODO: this should be a hash table unordered_map
         std::vector<std::string> strings;
+
+        //! Gives a token a new string, which other tokens may have as well
+        void rename(int token,const char* str){
+            std::string newStr(str);
+            if(newStr==strings[token]) return;
+            stringToIndex[newStr]=token;
+            strings[token].swap(newStr);
+            // newStr is now the old string, look it up as another token that has it
+            std::map<std::string,int>::iterator old=stringToIndex.find(newStr);
+            if(old==stringToIndex.end() || old->second!=token) return;
+            if(strings.size()>=stringToIndex.size()) for(size_t i=0;i<strings.size();i++) if(strings[i]==newStr){
+                old->second=static_cast<int>(i);
+                return;
+            }
+            stringToIndex.erase(old);
+        }
     };
     std::vector<IndexedStrTable> attributeIndexedStrs;
     std::vector<ParticleAttribute> attributes;
diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 573998a..686b3c8 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -388,7 +388,12 @@ registerIndexedStr(const ParticleAttribute& attribute,const char* str)
     if(it!=table.stringToIndex.end()) return it->second;
     int newIndex=static_cast<int>(table.strings.size());
     table.strings.push_back(str);
-    table.stringToIndex[str]=newIndex;
+    try{
+        table.stringToIndex[table.strings.back()]=newIndex;
+    }catch(...){
+        table.strings.pop_back();
+        throw;
+    }
     return newIndex;
 }
 
@@ -398,9 +403,14 @@ registerFixedIndexedStr(const FixedAttribute& attribute,const char* str)
     IndexedStrTable& table=fixedAttributeIndexedStrs[attribute.attributeIndex];
     std::map<std::string,int>::const_iterator it=table.stringToIndex.find(str);
     if(it!=table.stringToIndex.end()) return it->second;
-    int newIndex=table.strings.size();
+    int newIndex=static_cast<int>(table.strings.size());
     table.strings.push_back(str);
-    table.stringToIndex[str]=newIndex;
+    try{
+        table.stringToIndex[table.strings.back()]=newIndex;
+    }catch(...){
+        table.strings.pop_back();
+        throw;
+    }
     return newIndex;
 }
 
@@ -440,15 +450,11 @@ fixedIndexedStrs(const FixedAttribute& attr) const
 void ParticlesSimpleInterleave::setIndexedStr(const ParticleAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=attributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.rename(indexedStringToken,str);
 }
 
 void ParticlesSimpleInterleave::setFixedIndexedStr(const FixedAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=fixedAttributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.rename(indexedStringToken,str);
 }
diff --git a/src/lib/core/ParticleSimpleInterleave.h b/src/lib/core/ParticleSimpleInterleave.h
index bd40e01..20318be 100644
--- a/src/lib/core/ParticleSimpleInterleave.h
+++ b/src/lib/core/ParticleSimpleInterleave.h
@@ -113,6 +113,22 @@ private:
     struct IndexedStrTable{
         std::map<std::string,int> stringToIndex; // TODO: this should be a hash table unordered_map
         std::vector<std::string> strings;
+
+        //! Gives a token a new string, which other tokens may have as well
+        void rename(int token,const char* str){
+            std::string newStr(str);
+            if(newStr==strings[token]) return;
+            stringToIndex[newStr]=token;
+            strings[token].swap(newStr);
+            // newStr is now the old string, look it up as another token that has it
+            std::map<std::string,int>::iterator old=stringToIndex.find(newStr);
+            if(old==stringToIndex.end() || old->second!=token) return;
+            if(strings.size()>=stringToIndex.size()) for(size_t i=0;i<strings.size();i++) if(strings[i]==newStr){
+                old->second=static_cast<int>(i);
+                return;
+            }
+            stringToIndex.erase(old);
+        }
     };
     std::vector<IndexedStrTable> attributeIndexedStrs;
     std::vector<size_t> attributeOffsets; // Inside is data of appropriate type
-- 
2.43.0


From 2d3c0af0673d865f148d9c8921c1944d621d82c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 03/57] fix: an interleaved particle set that runs out of
 memory throws and keeps its contents

---
 src/lib/core/ParticleSimpleInterleave.cpp | 45 ++++++++++++++++++-----
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 686b3c8..272d94f 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -42,12 +42,23 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 #include <algorithm>
 #include <cassert>
 #include <iostream>
+#include <new>
 
 #include "KdTree.h"
 
 
 using namespace Partio;
 
+namespace{
+//! Resizes a block of memory, the block stays as it is if there is no memory
+char* reallocate(char* block,size_t bytes)
+{
+    void* memory=realloc(block,bytes ? bytes : 1);
+    if(!memory) throw std::bad_alloc();
+    return static_cast<char*>(memory);
+}
+}
+
 ParticlesSimpleInterleave::
 ParticlesSimpleInterleave()
     :particleCount(0),allocatedCount(0),data(nullptr),fixedData(nullptr),stride(0),kdtree(nullptr)
@@ -210,13 +221,26 @@ addAttribute(const char* attribute,ParticleAttributeType type,const int count)
     attr.type=type;
     attr.attributeIndex=static_cast<int>(attributes.size()); //  all arrays separate so we don't use this here!
     attr.count=count;
-    attributes.push_back(attr);
-    nameToAttribute[attribute]=static_cast<int>(attributes.size()-1);
 
     // repackage data for new attribute
     int oldStride=stride;
     int newStride=stride+TypeSize(type)*count;
-    char* newData=(char*)malloc((size_t)allocatedCount*(size_t)newStride);
+    char* newData=reallocate(nullptr,(size_t)allocatedCount*(size_t)newStride);
+    const size_t oldCount=attributes.size();
+    try{
+        attributes.push_back(attr);
+        nameToAttribute[attr.name]=static_cast<int>(oldCount);
+        attributeOffsets.push_back(oldStride);
+        attributeIndexedStrs.push_back(IndexedStrTable());
+    }catch(...){
+        // leave the set as it was
+        free(newData);
+        attributes.resize(oldCount);
+        nameToAttribute.erase(attr.name);
+        attributeOffsets.resize(oldCount);
+        attributeIndexedStrs.resize(oldCount);
+        throw;
+    }
     if(data){
         char* ptrNew=newData;
         char* ptrOld=data;
@@ -229,8 +253,6 @@ addAttribute(const char* attribute,ParticleAttributeType type,const int count)
     free(data);
     data=newData;
     stride=newStride;
-    attributeOffsets.push_back(oldStride);
-    attributeIndexedStrs.push_back(IndexedStrTable());
 
     return attr;
 }
@@ -277,8 +299,9 @@ ParticleIndex ParticlesSimpleInterleave::
 addParticle()
 {
     if(allocatedCount==particleCount){
-        allocatedCount=std::max(10,std::max(allocatedCount*3/2,particleCount));
-        data=(char*)realloc(data,(size_t)stride*(size_t)allocatedCount);
+        int newCount=std::max(10,std::max(allocatedCount*3/2,particleCount));
+        data=reallocate(data,(size_t)stride*(size_t)newCount);
+        allocatedCount=newCount;
     }
     return particleCount++;
 }
@@ -287,9 +310,11 @@ ParticlesDataMutable::iterator ParticlesSimpleInterleave::
 addParticles(const int countToAdd)
 {
     if(particleCount+countToAdd>allocatedCount){
-        while(allocatedCount<particleCount+countToAdd)
-            allocatedCount=std::max(10,std::max(allocatedCount*3/2,particleCount));
-        data=(char*)realloc(data,(size_t)stride*(size_t)allocatedCount);
+        int newCount=allocatedCount;
+        while(newCount<particleCount+countToAdd)
+            newCount=std::max(10,std::max(newCount*3/2,particleCount));
+        data=reallocate(data,(size_t)stride*(size_t)newCount);
+        allocatedCount=newCount;
     }
     int offset=particleCount;
     particleCount+=countToAdd;
-- 
2.43.0


From 8235467ed37ff7a366683a2fe73445b229e613f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 04/57] fix: fixed attributes of interleaved particle sets

They shared the stride of the particle attributes, were indexed by the number
of particle attributes and were stored past the end of the particle data, so
adding one corrupted the set and using it went out of bounds.
---
 src/lib/core/ParticleSimpleInterleave.cpp | 43 +++++++++++------------
 src/lib/core/ParticleSimpleInterleave.h   |  1 +
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 272d94f..2289181 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -61,7 +61,7 @@ char* reallocate(char* block,size_t bytes)
 
 ParticlesSimpleInterleave::
 ParticlesSimpleInterleave()
-    :particleCount(0),allocatedCount(0),data(nullptr),fixedData(nullptr),stride(0),kdtree(nullptr)
+    :particleCount(0),allocatedCount(0),data(nullptr),fixedData(nullptr),stride(0),fixedStride(0),kdtree(nullptr)
 {
 }
 
@@ -268,29 +268,28 @@ addFixedAttribute(const char* attribute,ParticleAttributeType type,const int cou
     FixedAttribute attr;
     attr.name=attribute;
     attr.type=type;
-    attr.attributeIndex=attributes.size(); //  all arrays separate so we don't use this here!
+    attr.attributeIndex=static_cast<int>(fixedAttributes.size());
     attr.count=count;
-    fixedAttributes.push_back(attr);
-    nameToFixedAttribute[attribute]=fixedAttributes.size()-1;
 
-    // repackage data for new attribute
-    int oldStride=stride;
-    int newStride=stride+TypeSize(type)*count;
-    char* newData=(char*)malloc((size_t)newStride);
-    if(fixedData){
-        char* ptrNew=newData;
-        char* ptrOld=fixedData;
-        for(int i=0;i<particleCount;i++){
-            memcpy(ptrNew,ptrOld,oldStride);
-            ptrNew+=newStride;
-            ptrOld+=oldStride;
-        }
+    // make room for the new attribute behind the others
+    int oldStride=fixedStride;
+    int newStride=fixedStride+TypeSize(type)*count;
+    fixedData=reallocate(fixedData,(size_t)newStride);
+    const size_t oldCount=fixedAttributes.size();
+    try{
+        fixedAttributes.push_back(attr);
+        nameToFixedAttribute[attr.name]=static_cast<int>(oldCount);
+        fixedAttributeOffsets.push_back(oldStride);
+        fixedAttributeIndexedStrs.push_back(IndexedStrTable());
+    }catch(...){
+        // leave the set as it was
+        fixedAttributes.resize(oldCount);
+        nameToFixedAttribute.erase(attr.name);
+        fixedAttributeOffsets.resize(oldCount);
+        fixedAttributeIndexedStrs.resize(oldCount);
+        throw;
     }
-    free(fixedData);
-    fixedData=newData;
-    stride=newStride;
-    fixedAttributeOffsets.push_back(oldStride);
-    fixedAttributeIndexedStrs.push_back(IndexedStrTable());
+    fixedStride=newStride;
 
     return attr;
 }
@@ -371,7 +370,7 @@ dataInternal(const ParticleAttribute& attribute,const ParticleIndex particleInde
 void* ParticlesSimpleInterleave::
 fixedDataInternal(const FixedAttribute& attribute) const
 {
-    return data+allocatedCount*stride+fixedAttributeOffsets[attribute.attributeIndex];
+    return fixedData+fixedAttributeOffsets[attribute.attributeIndex];
 }
 
 void ParticlesSimpleInterleave::
diff --git a/src/lib/core/ParticleSimpleInterleave.h b/src/lib/core/ParticleSimpleInterleave.h
index 20318be..d7838ea 100644
--- a/src/lib/core/ParticleSimpleInterleave.h
+++ b/src/lib/core/ParticleSimpleInterleave.h
@@ -110,6 +110,7 @@ private:
     char* data;
     char* fixedData;
     int stride;
+    int fixedStride;
     struct IndexedStrTable{
         std::map<std::string,int> stringToIndex; // TODO: this should be a hash table unordered_map
         std::vector<std::string> strings;
-- 
2.43.0


From d948af5d57a83505b66a3d476a241b62dd4eab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:14 +0000
Subject: [PATCH 05/57] fix: batch reads of interleaved particle sets returned
 nothing

dataInternalMultiple and dataAsFloat were compiled out and left the caller's
values as they were.
---
 src/lib/core/ParticleSimpleInterleave.cpp | 25 ++++++++++-------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 2289181..ac443c5 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -374,33 +374,30 @@ fixedDataInternal(const FixedAttribute& attribute) const
 }
 
 void ParticlesSimpleInterleave::
-dataInternalMultiple(const ParticleAttribute&,const int,const ParticleIndex*,const bool,char*) const
+dataInternalMultiple(const ParticleAttribute& attribute,const int indexCount,
+    const ParticleIndex* particleIndices,const bool,char* values) const
 {
-#if 0
     assert(attribute.attributeIndex>=0 && attribute.attributeIndex<(int)attributes.size());
 
-    char* base=attributeData[attribute.attributeIndex];
-    int bytes=attributeStrides[attribute.attributeIndex];
+    int bytes=TypeSize(attribute.type)*attribute.count;
     for(int i=0;i<indexCount;i++)
-        memcpy(values+bytes*i,base+particleIndices[i]*bytes,bytes);
-#endif
+        memcpy(values+bytes*i,dataInternal(attribute,particleIndices[i]),bytes);
 }
 
 void ParticlesSimpleInterleave::
-dataAsFloat(const ParticleAttribute&,const int,
-    const ParticleIndex*,const bool,float*) const
+dataAsFloat(const ParticleAttribute& attribute,const int indexCount,
+    const ParticleIndex* particleIndices,const bool sorted,float* values) const
 {
-#if 0
     assert(attribute.attributeIndex>=0 && attribute.attributeIndex<(int)attributes.size());
 
     if(attribute.type==FLOAT || attribute.type==VECTOR) dataInternalMultiple(attribute,indexCount,particleIndices,sorted,(char*)values);
-    else if(attribute.type==INT){
-        char* attrrawbase=attributeData[attribute.attributeIndex];
-        int* attrbase=(int*)attrrawbase;
+    else if(attribute.type==INT || attribute.type==INDEXEDSTR){
         int count=attribute.count;
-        for(int i=0;i<indexCount;i++) for(int k=0;k<count;k++) values[i*count+k]=(int)attrbase[particleIndices[i]*count+k];
+        for(int i=0;i<indexCount;i++){
+            const int* attrbase=static_cast<const int*>(dataInternal(attribute,particleIndices[i]));
+            for(int k=0;k<count;k++) values[i*count+k]=static_cast<float>(attrbase[k]);
+        }
     }
-#endif
 }
 
 
-- 
2.43.0


From 58fd936d09ed52d18399a3e3720650854265e9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:50 +0000
Subject: [PATCH 06/57] fix: gzip header flags as in RFC 1952

The extra field is flag 4, the comment flag 16 and the header checksum flag 2;
files with any of them, or marked as text (flag 1), were read from the wrong
offset.
---
 src/lib/io/ZIP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 5792b23..a9bfc9e 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -112,15 +112,15 @@ struct GZipFileHeader
     Read_Primitive(istream,os);
     unsigned char dummyByte;
     // read flags if necessary
-    if(flags&2){
-        unsigned short flgExtraLen;
+    if(flags&4){
+        unsigned short flgExtraLen=0;
         Read_Primitive(istream,flgExtraLen);
         for(int k=0;k<flgExtraLen;k++) Read_Primitive(istream,dummyByte);}
     // read filename/comment if present
-    int stringsToRead=((flags&8)?1:0) + ((flags&4)?1:0);
+    int stringsToRead=((flags&8)?1:0) + ((flags&16)?1:0);
     for(int i=0;i<stringsToRead;i++) 
         do{Read_Primitive(istream,dummyByte);}while(dummyByte!=0 && istream);
-    if(flags&1) Read_Primitive(istream,crc16);
+    if(flags&2) Read_Primitive(istream,crc16);
     if(!istream) {std::cerr<<"gzip: got to end of file after only reading gzip header"<<std::endl;return false;}
     return true;}
 
-- 
2.43.0


From 627f63dd8eecdc9957b23be16fe509938af53465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:50 +0000
Subject: [PATCH 07/57] fix: truncated or damaged gzip data

Reading a truncated file looped forever, a damaged one moved the end of the
get area before its start, read zlib's message when there is none and lost the
inflate state.  The stream now goes bad.
---
 src/lib/io/ZIP.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index a9bfc9e..4f3cd28 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -244,12 +244,13 @@ class ZipStreambufDecompress:public std::streambuf
     bool own_istream;
     bool valid;
     bool compressed_data;
+    bool inflating; // strm has to be ended
 
     static const unsigned short DEFLATE=8;
     static const unsigned short UNCOMPRESSED=0;
 public:
     ZipStreambufDecompress(std::istream& stream,bool part_of_zip_file_input)
-        :istream(stream),total_read(0),total_uncompressed(0),part_of_zip_file(part_of_zip_file_input),valid(true)
+        :istream(stream),total_read(0),total_uncompressed(0),part_of_zip_file(part_of_zip_file_input),valid(true),inflating(false)
     {
         strm.zalloc=Z_NULL;strm.zfree=Z_NULL;strm.opaque=Z_NULL;strm.avail_in=0;strm.next_in=Z_NULL;
         setg((char*)in,(char*)in,(char*)in);
@@ -266,11 +267,12 @@ public:
         // initialize the inflate
         if(compressed_data && valid){
             int result=inflateInit2(&strm,-MAX_WBITS);
-            if(result!=Z_OK){std::cerr<<"gzip: inflateInit2 did not return Z_OK"<<std::endl;valid=false;}}
+            if(result!=Z_OK){std::cerr<<"gzip: inflateInit2 did not return Z_OK"<<std::endl;valid=false;}
+            else inflating=true;}
     }
 
     virtual ~ZipStreambufDecompress()
-    {if(compressed_data && valid) inflateEnd(&strm);
+    {if(inflating) inflateEnd(&strm);
     if(!part_of_zip_file) delete &istream;}
 
     int process()
@@ -283,7 +285,9 @@ public:
                 istream.read((char*)in,part_of_zip_file?std::min((unsigned int)buffer_size,header.compressed_size-total_read):(unsigned int)buffer_size);
                 strm.avail_in=static_cast<uInt>(istream.gcount());
                 total_read+=strm.avail_in;
-                strm.next_in=(Bytef*)in;}
+                strm.next_in=(Bytef*)in;
+                if(strm.avail_in==0){ // the end of the compressed data is missing
+                    valid=false;return -1;}}
             int ret=inflate(&strm,Z_NO_FLUSH); // decompress
             switch(ret){
                 case Z_STREAM_ERROR: 
@@ -292,7 +296,7 @@ public:
                 case Z_NEED_DICT:
                 case Z_DATA_ERROR:
                 case Z_MEM_ERROR: 
-                    std::cerr<<"gzip error "<<strm.msg<<std::endl;
+                    std::cerr<<"gzip error "<<(strm.msg?strm.msg:"")<<std::endl;
                     valid=false;return -1;}
             if(ret==Z_STREAM_END) break;}
         int unzip_count=buffer_size-strm.avail_out-4;
@@ -311,8 +315,10 @@ public:
     if(put_back_count>4) put_back_count=4;
     std::memmove(out+(4-put_back_count),gptr()-put_back_count,put_back_count);
     int num=process();
-    setg((char*)(out+4-put_back_count),(char*)(out+4),(char*)(out+4+num));
-    if(num<=0) return EOF;
+    setg((char*)(out+4-put_back_count),(char*)(out+4),(char*)(out+4+std::max(num,0)));
+    // the stream that owns this buffer turns this into badbit
+    if(num<0) throw std::runtime_error("gzip: truncated or damaged data");
+    if(num==0) return EOF;
     return traits_type::to_int_type(*gptr());}
 
     virtual int overflow(int)
-- 
2.43.0


From f9999f3844423b710b5bfbef18b440fe85e3b671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:48 +0000
Subject: [PATCH 08/57] fix: a compressed stream whose file cannot be written
 goes bad

A failure to open or write the file below was ignored, so that writers went
on as if all was well; after a zlib error the deflate state was lost.
---
 src/lib/io/ZIP.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 4f3cd28..fb0f790 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -348,26 +348,32 @@ class ZipStreambufCompress:public std::streambuf
     unsigned int crc;
 
     bool valid;
+    bool deflating; // strm has to be ended
 
 public:
     ZipStreambufCompress(ZipFileHeader* header,std::ostream& stream)
-        :ostream(stream),header(header),valid(true)
+        :ostream(stream),header(header),valid(true),deflating(false)
     {
         strm.zalloc=Z_NULL;strm.zfree=Z_NULL;strm.opaque=Z_NULL;
         int ret=deflateInit2(&strm,Z_DEFAULT_COMPRESSION,Z_DEFLATED,-MAX_WBITS,8,Z_DEFAULT_STRATEGY); 
         if(ret != Z_OK){std::cerr<<"libz: failed to deflateInit"<<std::endl;valid=false;return;}
+        deflating=true;
         setg(0,0,0);
         setp((char*)in,(char*)(in+buffer_size-4)); // we want to be 4 aligned
         // Write appropriate header
         if(header){header->header_offset=static_cast<unsigned int>(stream.tellp());header->Write(ostream,false);}
         else{header_offset=static_cast<unsigned int>(stream.tellp());gzip_header.Write(ostream);}
         uncompressed_size=crc=0;
+        if(!ostream) valid=false;
     }
 
+    //! Whether everything so far could be written
+    bool good() const
+    {return valid;}
+
     virtual ~ZipStreambufCompress()
     {if(valid){
         process(true);
-        deflateEnd(&strm);
         if(header){
             std::streampos final_position=ostream.tellp();
             header->uncompressed_size=uncompressed_size;
@@ -376,6 +382,7 @@ public:
             header->Write(ostream,false);
             ostream.seekp(final_position);}
         else{Write_Primitive(ostream,crc);Write_Primitive(ostream,uncompressed_size);}}
+    if(deflating) deflateEnd(&strm);
     if(!header) delete &ostream;}
 
 protected:
@@ -389,10 +396,12 @@ protected:
         int ret=deflate(&strm,flush?Z_FINISH:Z_NO_FLUSH);
         if(!(ret!=Z_BUF_ERROR && ret!=Z_STREAM_ERROR)){
             valid=false;
-            std::cerr<<"gzip: gzip error "<<strm.msg<<std::endl;;
+            std::cerr<<"gzip: gzip error "<<(strm.msg?strm.msg:"")<<std::endl;;
             return -1;}
         int generated_output=static_cast<int>(strm.next_out-(Bytef*)out);
-        ostream.write((char*)out,generated_output);
+        if(!ostream.write((char*)out,generated_output)){
+            valid=false;
+            return -1;}
         if(header) header->compressed_size+=generated_output;
         if(ret==Z_STREAM_END) break;}
     // update counts, crc's and buffers
@@ -446,8 +455,8 @@ class ZIP_FILE_OSTREAM:public std::ostream
     ZipStreambufCompress buf;
 public:
     ZIP_FILE_OSTREAM(ZipFileHeader* header,std::ostream& ostream)
-        :std::ostream(&buf),buf(header,ostream)
-    {}
+        :std::ostream(nullptr),buf(header,ostream)
+    {init(&buf);if(!buf.good()) setstate(std::ios::badbit);}
 
     virtual ~ZIP_FILE_OSTREAM()
     {}
-- 
2.43.0


From 8b639d86e016c6f5050254f53208283ecc8c095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 09/57] fix: writing reports a file that could not be
 completed; values that could not be read are zero

Helpers for the readers and writers: complete() and finish() report a
file that ended early or could not be written, ParticlesPtr releases a
set when its reader gives up.
---
 src/lib/io/PartioEndian.h |  2 +-
 src/lib/io/ZIP.cpp        | 37 ++++++++++++++++++++++----
 src/lib/io/ZIP.h          |  2 ++
 src/lib/io/io.h           | 55 +++++++++++++++++++++++++++++++++++++++
 4 files changed, 90 insertions(+), 6 deletions(-)

diff --git a/src/lib/io/PartioEndian.h b/src/lib/io/PartioEndian.h
index 9d039d3..1078e62 100644
--- a/src/lib/io/PartioEndian.h
+++ b/src/lib/io/PartioEndian.h
@@ -79,7 +79,7 @@ struct LITEND {
 template<class E,class T> inline void
 read(std::istream& input,T& d)
 {
-    input.read((char*)&d,sizeof(T));
+    if(!input.read((char*)&d,sizeof(T))) d=T(); // never leave memory's old contents in d
     E::swap(d);
 }
 
diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index fb0f790..a295267 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -349,10 +349,11 @@ class ZipStreambufCompress:public std::streambuf
 
     bool valid;
     bool deflating; // strm has to be ended
+    bool finished;
 
 public:
     ZipStreambufCompress(ZipFileHeader* header,std::ostream& stream)
-        :ostream(stream),header(header),valid(true),deflating(false)
+        :ostream(stream),header(header),valid(true),deflating(false),finished(false)
     {
         strm.zalloc=Z_NULL;strm.zfree=Z_NULL;strm.opaque=Z_NULL;
         int ret=deflateInit2(&strm,Z_DEFAULT_COMPRESSION,Z_DEFLATED,-MAX_WBITS,8,Z_DEFAULT_STRATEGY); 
@@ -371,9 +372,11 @@ public:
     bool good() const
     {return valid;}
 
-    virtual ~ZipStreambufCompress()
-    {if(valid){
-        process(true);
+    //! Writes what remains. Returns whether all of it reached the file
+    bool finish()
+    {if(finished) return valid;
+    finished=true;
+    if(valid && process(true)==1){
         if(header){
             std::streampos final_position=ostream.tellp();
             header->uncompressed_size=uncompressed_size;
@@ -381,7 +384,14 @@ public:
             ostream.seekp(header->header_offset);
             header->Write(ostream,false);
             ostream.seekp(final_position);}
-        else{Write_Primitive(ostream,crc);Write_Primitive(ostream,uncompressed_size);}}
+        else{
+            Write_Primitive(ostream,crc);Write_Primitive(ostream,uncompressed_size);
+            if(std::ofstream* file=dynamic_cast<std::ofstream*>(&ostream)) file->close();}
+        if(!ostream) valid=false;}
+    return valid;}
+
+    virtual ~ZipStreambufCompress()
+    {finish();
     if(deflating) deflateEnd(&strm);
     if(!header) delete &ostream;}
 
@@ -461,6 +471,9 @@ public:
     virtual ~ZIP_FILE_OSTREAM()
     {}
 
+    void finish()
+    {if(!buf.finish()) setstate(std::ios::badbit);}
+
 //#####################################################################
 };
 //#####################################################################
@@ -613,6 +626,14 @@ Gzip_Out(const std::string& filename,std::ios::openmode mode)
     return new ZIP_FILE_OSTREAM(0,*outfile);
 }
 //#####################################################################
+// Function Gzip_Finish
+//#####################################################################
+void
+Gzip_Finish(std::ostream& ostream)
+{
+    if(ZIP_FILE_OSTREAM* file=dynamic_cast<ZIP_FILE_OSTREAM*>(&ostream)) file->finish();
+}
+//#####################################################################
 
 #else
 
@@ -643,6 +664,12 @@ Gzip_Out(const std::string& filename,std::ios::openmode mode)
     return 0;    
 }
 //#####################################################################
+// Function Gzip_Finish
+//#####################################################################
+void
+Gzip_Finish(std::ostream&)
+{}
+//#####################################################################
 
 #endif
 } // namespace Partio
diff --git a/src/lib/io/ZIP.h b/src/lib/io/ZIP.h
index aa38cb4..846a832 100644
--- a/src/lib/io/ZIP.h
+++ b/src/lib/io/ZIP.h
@@ -50,6 +50,8 @@ struct ZipFileHeader;
 //#####################################################################
 std::istream* Gzip_In(const std::string& filename,std::ios::openmode mode);
 std::ostream* Gzip_Out(const std::string& filename,std::ios::openmode mode);
+// Function Gzip_Finish - Completes and closes a file of Gzip_Out; the stream goes bad if that fails
+void Gzip_Finish(std::ostream& ostream);
 //#####################################################################
 // Class ZipFileWriter
 //#####################################################################
diff --git a/src/lib/io/io.h b/src/lib/io/io.h
index e2d1874..67ce1ad 100644
--- a/src/lib/io/io.h
+++ b/src/lib/io/io.h
@@ -1,4 +1,5 @@
 #pragma once
+#include "../Partio.h"
 #include "ZIP.h"
 
 #include <fstream>
@@ -6,10 +7,19 @@
 #include <iosfwd>
 #include <string>
 #include <memory>
+#include <sstream>
 
 namespace Partio {
 namespace io {
 
+struct ReleaseParticles
+{
+    void operator()(ParticlesInfo* particles) const { particles->release(); }
+};
+
+//! Holds the set a reader fills, and releases it when the reader gives up
+typedef std::unique_ptr<ParticlesDataMutable, ReleaseParticles> ParticlesPtr;
+
 template <typename T>
 inline void make_stream_locale_independent(T& stream)
 {
@@ -25,6 +35,22 @@ inline std::unique_ptr<std::istream> unzip(const std::string& filename)
     return input;
 }
 
+//! Like unzip, for readers that move about in the file: a compressed file is expanded in memory
+inline std::unique_ptr<std::istream> unzipSeekable(const std::string& filename)
+{
+    std::unique_ptr<std::istream> input(unzip(filename));
+    if (!*input || dynamic_cast<std::ifstream*>(input.get())) return input;
+    std::unique_ptr<std::stringstream> content(
+        new std::stringstream(std::ios::in | std::ios::out | std::ios::binary));
+    make_stream_locale_independent(content);
+    char buffer[4096];
+    while (input->read(buffer, sizeof(buffer)) || input->gcount() > 0) {
+        content->write(buffer, input->gcount());
+    }
+    if (input->bad()) content->setstate(std::ios::badbit);
+    return std::unique_ptr<std::istream>(content.release());
+}
+
 inline std::unique_ptr<std::istream> read(const std::string& filename)
 {
     std::unique_ptr<std::istream> input(
@@ -51,5 +77,34 @@ inline std::unique_ptr<std::ostream> write(const std::string& filename)
     return output;
 }
 
+//! Passes over data. Reads it as seeking does not work with gzip
+inline void skip(std::istream& input, unsigned long long bytes)
+{
+    char buffer[4096];
+    while (bytes > 0 && input) {
+        const size_t chunk = static_cast<size_t>(bytes < sizeof(buffer) ? bytes : sizeof(buffer));
+        input.read(buffer, chunk);
+        bytes -= chunk;
+    }
+}
+
+//! Whether everything read so far was there; reports it when it was not
+inline bool complete(const std::istream& input, const char* filename, std::ostream* errorStream)
+{
+    if (input) return true;
+    if (errorStream) *errorStream << "Partio: File " << filename << " is truncated or unreadable" << std::endl;
+    return false;
+}
+
+//! Completes a written file. Returns false, and reports it, when some of it could not be written
+inline bool finish(std::ostream& output, const char* filename, std::ostream* errorStream)
+{
+    if (std::ofstream* file = dynamic_cast<std::ofstream*>(&output)) file->close();
+    else Gzip_Finish(output);
+    if (output) return true;
+    if (errorStream) *errorStream << "Partio: Unable to write file " << filename << std::endl;
+    return false;
+}
+
 }  // io
 }  // Partio
-- 
2.43.0


From 224e4b32168715dadae1d5fc9009d958749ebf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 10/57] fix: bgeo: truncated and damaged files, a buffer shared
 by threads, failed writes

---
 src/lib/io/BGEO.cpp | 83 ++++++++++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 34 deletions(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index e3406d3..f3ba98c 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -58,12 +58,14 @@ template<>
 struct Helper<ParticleAttribute>
 {
     ParticleAttribute addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size) {return simple->addAttribute(name,type,size);}
+    bool exists(ParticlesDataMutable* simple, const char* name) {ParticleAttribute attr;return simple->attributeInfo(name,attr);}
     int registerIndexedStr(ParticlesDataMutable* simple, const ParticleAttribute& attribute,const char* str) {return simple->registerIndexedStr(attribute,str);}
 };
 template<>
 struct Helper<FixedAttribute>
 {
     FixedAttribute addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size) {return simple->addFixedAttribute(name,type,size);}
+    bool exists(ParticlesDataMutable* simple, const char* name) {FixedAttribute attr;return simple->fixedAttributeInfo(name,attr);}
     int registerIndexedStr(ParticlesDataMutable* simple, const FixedAttribute& attribute,const char* str) {return simple->registerFixedIndexedStr(attribute,str);}
 };
 
@@ -72,6 +74,7 @@ template<>
 struct Helper<DummyAttribute>
 {
     DummyAttribute addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size) { return DummyAttribute(); }
+    bool exists(ParticlesDataMutable* simple, const char* name) { return false; }
     int registerIndexedStr(ParticlesDataMutable* simple, const DummyAttribute& attribute,const char* str) { return 0; }
 };
 struct DummyAccessor{
@@ -86,11 +89,17 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
     for(int i=0;i<nAttrib;i++){
         unsigned short nameLength;
         read<BIGEND>(*input,nameLength);
-        char* name=new char[nameLength+1];
-        input->read(name,nameLength);name[nameLength]=0;
+        string nameBuffer(nameLength,0);
+        input->read(&nameBuffer[0],nameLength);
+        const char* name=nameBuffer.c_str();
         unsigned short size;
         int houdiniType;
         read<BIGEND>(*input,size,houdiniType);
+        if(!*input) return false;
+        if(helper.exists(simple,name)){
+            if(errorStream) *errorStream <<"Partio: attribute '"<<name<<"' appears more than once, aborting"<<endl;
+            return false;
+        }
         if(houdiniType==0 || houdiniType==1 || houdiniType==5){
             // read default values. don't do anything with them
             for(int i=0;i<size;i++) {
@@ -115,30 +124,25 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
             for(int ii=0;ii<numIndices;ii++){
                 unsigned short indexNameLength;
                 read<BIGEND>(*input,indexNameLength);
-                char* indexName=new char[indexNameLength+1];;
-                input->read(indexName,indexNameLength);
-                indexName[indexNameLength]=0;
+                string indexNameBuffer(indexNameLength,0);
+                input->read(&indexNameBuffer[0],indexNameLength);
+                if(!*input) return false;
+                const char* indexName=indexNameBuffer.c_str();
                 if (!headersOnly) {
                     int id=helper.registerIndexedStr(simple,attribute,indexName);
                     if(id != ii){
                         if(errorStream) *errorStream <<"Partio: error on read, expected registerIndexStr to return index "<<ii<<" but got "<<id<<" for string "<<indexName<<std::endl;
                     }
                 }
-                delete [] indexName;
             }
             particleSize+=size;
         }else if(houdiniType==2){
             if(errorStream) *errorStream <<"Partio: found attr of type 'string', aborting"<<endl;
-            delete [] name;
-            simple->release();
-            return 0;
+            return false;
         }else{
             if(errorStream) *errorStream <<"Partio: unknown attribute "<<houdiniType<<" type... aborting"<<endl;
-            delete [] name;
-            simple->release();
-            return 0;
+            return false;
         }
-        delete[] name;
     }
 
     return true;
@@ -148,8 +152,8 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
 void skip(istream *input, size_t numChars)
 {
     static const size_t bufferSize = 4096;
-    static char buffer[bufferSize];
-    while (numChars>0) {
+    char buffer[bufferSize];
+    while (numChars>0 && *input) {
         int toRead=std::min(numChars,bufferSize);
         input->read(buffer,toRead);
         numChars-=toRead;
@@ -163,9 +167,9 @@ bool skipPrimitives(int nPoints, int nPrims, int nPrimAttrib, istream* input,std
     vector<int> primAttrOffsets; // offsets in # of 32 bit offsets
     vector<DummyAttribute> primAttrHandles;
     vector<DummyAccessor> primAccessors;
-    getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, nPrimAttrib, input, 0, true, errorStream);
+    if(!getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, nPrimAttrib, input, 0, true, errorStream)) return false;
 
-    for(int i=0;i<nPrims;i++) {
+    for(int i=0;i<nPrims && *input;i++) {
         int primType;
         read<BIGEND>(*input,primType);
         if(primType==0x00008000) {
@@ -225,11 +229,16 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
         if(errorStream) *errorStream<<"Partio: BGEO must be version 5"<<endl;
         return 0;
     }
+    if(!io::complete(*input,filename,errorStream)) return 0;
+    if(nPoints<0){
+        if(errorStream) *errorStream<<"Partio: BGEO has a negative number of points"<<endl;
+        return 0;
+    }
 
     // Allocate a simple particle with the appropriate number of points
-    ParticlesDataMutable* simple=0;
-    if(headersOnly) simple=new ParticleHeaders;
-    else simple=create();
+    io::ParticlesPtr simple;
+    if(headersOnly) simple.reset(new ParticleHeaders);
+    else simple.reset(create());
 
     simple->addParticles(nPoints);
 
@@ -242,20 +251,23 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     attrOffsets.push_back(0); // pull values from byte offset
     attrHandles.push_back(simple->addAttribute("position",VECTOR,3)); // we always have one
     accessors.push_back(ParticleAccessor(attrHandles[0]));
-    getAttributes(particleSize, attrOffsets, attrHandles, accessors, nPointAttrib, input.get(), simple, headersOnly, errorStream);
+    if(!getAttributes(particleSize, attrOffsets, attrHandles, accessors, nPointAttrib, input.get(), simple.get(), headersOnly, errorStream)){
+        io::complete(*input,filename,errorStream);
+        return 0;
+    }
 
     if(headersOnly) {
-        skip(input.get(),nPoints*particleSize*sizeof(int));
+        skip(input.get(),(size_t)nPoints*particleSize*sizeof(int));
     } else {
         // Read the points
-        int *buffer=new int[particleSize];
+        vector<int> buffer(particleSize);
 
         // make iterator and register accessors
         ParticlesDataMutable::iterator iterator=simple->begin();
         for(size_t i=0;i<accessors.size();i++) iterator.addAccessor(accessors[i]);
 
         for(ParticlesDataMutable::iterator end=simple->end();iterator!=end;++iterator){
-            input->read((char*)buffer,particleSize*sizeof(int));
+            if(!input->read((char*)buffer.data(),particleSize*sizeof(int))) break;
             for(unsigned int attrIndex=0;attrIndex<attrHandles.size();attrIndex++){
                 ParticleAttribute& handle=attrHandles[attrIndex];
                 ParticleAccessor& accessor=accessors[attrIndex];
@@ -268,22 +280,27 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
                 }
             }
         }
-        delete [] buffer;
     }
 
-    if (!skipPrimitives(nPoints, nPrims, nPrimAttrib, input.get(),errorStream)) return simple;
+    bool primitivesSkipped=skipPrimitives(nPoints, nPrims, nPrimAttrib, input.get(),errorStream);
+    if (!io::complete(*input,filename,errorStream)) return 0;
+    if (!primitivesSkipped) return simple.release();
 
     particleSize=0;
     vector<int> fixedAttrOffsets; // offsets in # of 32 bit offsets
     vector<FixedAttribute> fixedAttrHandles;
     vector<DummyAccessor> fixedAccessors;
-    getAttributes(particleSize, fixedAttrOffsets, fixedAttrHandles, fixedAccessors, nAttrib, input.get(), simple, headersOnly, errorStream);
+    if(!getAttributes(particleSize, fixedAttrOffsets, fixedAttrHandles, fixedAccessors, nAttrib, input.get(), simple.get(), headersOnly, errorStream)){
+        io::complete(*input,filename,errorStream);
+        return 0;
+    }
 
-    if (headersOnly) return simple;
+    if (headersOnly) return simple.release();
 
     // Read the points
-    int *fixedBuffer=new int[particleSize];
-    input->read((char*)fixedBuffer,particleSize*sizeof(int));
+    vector<int> fixedBuffer(particleSize);
+    input->read((char*)fixedBuffer.data(),particleSize*sizeof(int));
+    if(!io::complete(*input,filename,errorStream)) return 0;
     for(unsigned int attrIndex=0;attrIndex<fixedAttrHandles.size();attrIndex++){
         FixedAttribute& handle=fixedAttrHandles[attrIndex];
         // TODO: this violates strict aliasing, we could just go to char* and make
@@ -293,10 +310,9 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
             simple->fixedDataWrite<int>(fixedAttrHandles[attrIndex])[k]=fixedBuffer[fixedAttrOffsets[attrIndex]+k];
         }
     }
-    delete [] fixedBuffer;
 
     // return the populated simpleParticle
-    return simple;
+    return simple.release();
 }
 
 bool writeBGEO(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
@@ -461,8 +477,7 @@ bool writeBGEO(const char* filename,const ParticlesData& p,const bool compressed
 	#pragma warning (pop)  
 #endif  
 
-    // success
-    return true;
+    return io::finish(*output,filename,errorStream);
 }
 
 }
-- 
2.43.0


From 41b51d77f73f350494d50a538dadc7d31c0165cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 11/57] fix: geo: position-only sets, long strings, string
 arrays, truncated and damaged files, failed writes

---
 src/lib/io/GEO.cpp | 98 +++++++++++++++++++++++++++-------------------
 1 file changed, 57 insertions(+), 41 deletions(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index f08a8b6..37d7e70 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -65,38 +65,23 @@ void writeString(std::ostream& output,const char* s){
 
 string scanString(istream& input)
 {
-    // TODO: this code does not check for buf overrun
-    // TODO: this code doesn't properly check for FEOF condition
-    char buf[4096];
-    char *ptr=buf;
+    string result;
     char c;
-    while(input.good()){
-        input.get(c);
-        if(!isspace(c)) break;
-    }
-    if(!input.good()) return "";
+    do{
+        if(!input.get(c)) return result;
+    }while(isspace((unsigned char)c));
 
     if(c!='"'){
-        while(input.good()){
-            *ptr++=c;
-            input.get(c);
-            if(isspace(c)) break;
-        }
+        do{
+            result+=c;
+        }while(input.get(c) && !isspace((unsigned char)c));
     }else{
-        while(input.good()){
-            input.get(c);
-            if(c=='\\'){
-                input.get(c);
-                *ptr++=c;
-            }else if(c=='"'){
-                break;
-            }else{
-                *ptr++=c;
-            }
+        while(input.get(c) && c!='"'){
+            if(c=='\\' && !input.get(c)) break;
+            result+=c;
         }
     }
-    *ptr++=0;
-    return string(buf);
+    return result;
 }
 
 ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::ostream* errorStream)
@@ -108,9 +93,9 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
     }
     int NPoints=0, NPointAttrib=0;
 
-    ParticlesDataMutable* simple=0;
-    if(headersOnly) simple=new ParticleHeaders;
-    else simple=create();
+    io::ParticlesPtr simple;
+    if(headersOnly) simple.reset(new ParticleHeaders);
+    else simple.reset(create());
 
     // read NPoints and NPointAttrib
     string word;
@@ -119,10 +104,20 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         if(word=="NPoints") *input>>NPoints;
         else if(word=="NPointAttrib"){*input>>NPointAttrib;break;}
     }
-    // skip until PointAttrib
-    while(input->good()){
-        *input>>word;
-        if(word=="PointAttrib") break;
+    if(NPointAttrib>0){
+        // skip until PointAttrib
+        while(input->good()){
+            *input>>word;
+            if(word=="PointAttrib") break;
+        }
+    }else{
+        // the points follow the header
+        getline(*input,word);
+    }
+    if(!io::complete(*input,filename,errorStream)) return 0;
+    if(NPoints<0){
+        if(errorStream) *errorStream<<"Partio: GEO has a negative number of points"<<endl;
+        return 0;
     }
     // read attribute descriptions
     int attrInfoRead = 0;
@@ -136,13 +131,18 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         string attrName, attrType;
         int nvals = 0;
         *input >> attrName >> nvals >> attrType;
+        ParticleAttribute existing;
+        if(nvals<0 || nvals>65535 || simple->attributeInfo(attrName.c_str(),existing)){
+            if(errorStream) *errorStream<<"Partio: attr '"<<attrName<<"' has a bad size or appears more than once, aborting"<<endl;
+            return 0;
+        }
         if(attrType=="index"){
             if(errorStream) *errorStream<<"Partio: attr '"<<attrName<<"' of type index (string) found, treating as integer"<<endl;
             int nIndices=0;
             *input>>nIndices;
-            ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),INDEXEDSTR,1);
+            ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),INDEXEDSTR,nvals);
             attrs.push_back(attribute);
-            for(int j=0;j<nIndices;j++){
+            for(int j=0;j<nIndices && *input;j++){
                 string indexName;
                 //*input>>indexName;
                 indexName=scanString(*input);
@@ -168,7 +168,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
             else if(attrType=="int") type=INT;
             else{
                 if(errorStream) *errorStream<<"Partio: unknown attribute "<<attrType<<" type... aborting"<<endl;
-                type=NONE;
+                return 0;
             }
             attrs.push_back(simple->addAttribute(attrName.c_str(),type,nvals));
             accessors.push_back(ParticleAccessor(attrs.back()));
@@ -176,16 +176,18 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         }
     }
 
+    if(!io::complete(*input,filename,errorStream)) return 0;
     simple->addParticles(NPoints);
 
     ParticlesDataMutable::iterator iterator=simple->begin();
     iterator.addAccessor(positionAccessor);
     for(size_t i=0;i<accessors.size();i++) iterator.addAccessor(accessors[i]);
 
-    if(headersOnly) return simple; // escape before we try to touch data
+    if(headersOnly) return simple.release(); // escape before we try to touch data
     
     
     float fval;
+    int pointsRead=0;
     // TODO: fix
     for(ParticlesDataMutable::iterator end=simple->end();iterator!=end  && input->good();++iterator){
         float* posInternal=positionAccessor.raw<float>(iterator); 
@@ -193,6 +195,12 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         *input>>fval;
         //cout<<"saw "<<posInternal[0]<<" "<<posInternal[1]<<" "<<posInternal[2]<<endl;
         
+        if(attrs.empty()){
+            if(!*input) break;
+            pointsRead++;
+            continue;
+        }
+
         // skip open paren
         char paren = 0;
         *input>> paren;
@@ -210,9 +218,14 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         }
         // skip closing parenthes
         *input >> paren;
-        if (paren != ')') break;
+        if (!*input || paren != ')') break;
+        pointsRead++;
     }
-    return simple;
+    if(pointsRead<NPoints){
+        if(errorStream) *errorStream<<"Partio: File "<<filename<<" is truncated or unreadable"<<endl;
+        return 0;
+    }
+    return simple.release();
 }
 
 
@@ -230,6 +243,10 @@ void writeType(ostream& output,const ParticlesData&,const ParticleAttribute& att
 bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
+    if(!*output){
+        if(errorStream) *errorStream<<"Partio: Unable to open file "<<filename<<endl;
+        return false;
+    }
     *output<<"PGEOMETRY V5"<<endl;
     *output<<"NPoints "<<p.numParticles()<<" NPrims "<<1<<endl;
     *output<<"NPointGroups "<<0<<" NPrimGroups "<<0<<endl;
@@ -311,8 +328,7 @@ bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,
     *output<<" [0]\nbeginExtra"<<endl;
     *output<<"endExtra"<<endl;
 
-    // success
-    return true;
+    return io::finish(*output,filename,errorStream);
 }
 
 }
-- 
2.43.0


From 6ef5913750b8df3d82e37fcca6d4bd1ea8537579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 12/57] fix: pda: truncated files, failed writes

---
 src/lib/io/PDA.cpp | 58 ++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index 33edab8..0b2c1c6 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -50,16 +50,19 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
         return 0;
     }
 
-    ParticlesDataMutable* simple=0;
-    if(headersOnly) simple=new ParticleHeaders;
-    else simple=create();
+    io::ParticlesPtr simple;
+    if(headersOnly) simple.reset(new ParticleHeaders);
+    else simple.reset(create());
 
     // read NPoints and NPointAttrib
     string word;
     
     if(input->good()){
         *input>>word;
-        if(word!="ATTRIBUTES"){simple->release();return 0;}
+        if(word!="ATTRIBUTES"){
+            if(errorStream) *errorStream <<"Partio: "<<filename<<" does not start as a PDA file"<<endl;
+            return 0;
+        }
     }
 
     vector<string> attrNames;
@@ -70,6 +73,7 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
         if(word=="TYPES") break;;
         attrNames.push_back(word);
     }
+    if(!io::complete(*input,filename,errorStream)) return 0;
 
     size_t index=0;
     while(input->good()){
@@ -78,6 +82,12 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
 
         if(index>=attrNames.size()) continue;
 
+        ParticleAttribute existing;
+        if(simple->attributeInfo(attrNames[index].c_str(),existing)){
+            if(errorStream) *errorStream <<"Partio: attr '"<<attrNames[index]<<"' appears more than once, aborting"<<endl;
+            return 0;
+        }
+
         if(word=="V"){
             attrs.push_back(simple->addAttribute(attrNames[index].c_str(),Partio::VECTOR,3));
         }else if(word=="R"){
@@ -89,29 +99,23 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
         index++;
     }
 
-    unsigned int num=0;
-    if(input->good()){
-        *input>>num;
-        simple->addParticles(num);
-        if(headersOnly) return simple; // escape before we try to touch data
-    }else{
-        simple->release();
-        return 0;
-    }
+    int num=0;
+    *input>>num;
     
     // look for beginning of header
-    if(input->good()){
-        *input>>word;
-        if(word != "BEGIN"){simple->release();return 0;}
-    }
-    if(input->good()){
-        *input>>word;
-        if(word != "DATA"){simple->release();return 0;}
+    string begin,data;
+    *input>>begin>>data;
+    if(!io::complete(*input,filename,errorStream)) return 0;
+    if(begin!="BEGIN" || data!="DATA" || num<0){
+        if(errorStream) *errorStream <<"Partio: "<<filename<<" has a bad PDA header"<<endl;
+        return 0;
     }
 
+    simple->addParticles(num);
+    if(headersOnly) return simple.release(); // escape before we try to touch data
+
     // Read actual particle data
-    if(!input->good()){simple->release();return 0;}
-    for(unsigned int particleIndex=0;input->good() && particleIndex<num; particleIndex++) {
+    for(int particleIndex=0;*input && particleIndex<num; particleIndex++) {
         for(unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++){
             if(attrs[attrIndex].type==Partio::INT){
                 int* data=simple->dataWrite<int>(attrs[attrIndex],particleIndex);
@@ -131,12 +135,17 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
         }
     }
     
-    return simple;
+    if(!io::complete(*input,filename,errorStream)) return 0;
+    return simple.release();
 }
 
 bool writePDA(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
+    if(!*output){
+        if(errorStream) *errorStream <<"Partio: Unable to open file "<<filename<<endl;
+        return false;
+    }
     *output<<"ATTRIBUTES"<<endl;
 
     vector<ParticleAttribute> attrs;
@@ -177,8 +186,7 @@ bool writePDA(const char* filename,const ParticlesData& p,const bool compressed,
         }
         *output<<endl;
     }
-    return true;
-
+    return io::finish(*output,filename,errorStream);
 }
 
 }
-- 
2.43.0


From 720d7ad806eacdca71e07c1d2a9112541844b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 13/57] fix: rib: failed writes

---
 src/lib/io/RIB.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/RIB.cpp b/src/lib/io/RIB.cpp
index 5d5da08..66b9896 100644
--- a/src/lib/io/RIB.cpp
+++ b/src/lib/io/RIB.cpp
@@ -33,6 +33,10 @@ using namespace std;
 bool writeRIB(const char* filename, const ParticlesData& p, const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
+    if(!*output){
+        if(errorStream) *errorStream << "Partio: Unable to open file " << filename << endl;
+        return false;
+    }
     ParticleAttribute dummy;
     bool foundP     = p.attributeInfo("position",  dummy) || p.attributeInfo("P",     dummy);
     bool foundP2    = p.attributeInfo("position2", dummy) || p.attributeInfo("P2",    dummy);
@@ -138,6 +142,6 @@ bool writeRIB(const char* filename, const ParticlesData& p, const bool compresse
     *output << "  ResourceEnd" << endl;
     *output << "AttributeEnd" << endl;
 
-    return true;
+    return io::finish(*output,filename,errorStream);
 }
 }
-- 
2.43.0


From c290a53ad44a14a9faa2b5e9115d9fb89cd0cc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 14/57] fix: pdc: truncated and damaged files, headers of
 compressed files, failed writes

---
 src/lib/io/PDC.cpp | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index baf466c..d7dbeea 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -42,6 +42,8 @@ Modifications from: github user: redpawfx (redpawFX@gmail.com)  and Luma Picture
 #include "PartioEndian.h"
 #include "io.h"
 
+#include <cstring>
+
 namespace Partio{
 
 using namespace std;
@@ -61,10 +63,12 @@ typedef struct{
 string readName(istream& input){
     int nameLen = 0;
     read<BIGEND>(input, nameLen);
-    char* name = new char[nameLen];
-    input.read(name, nameLen);
-    string result(name, name+nameLen);
-    delete [] name;
+    if(nameLen < 0){
+        input.setstate(std::ios::failbit);
+        return "";
+    }
+    string result(nameLen, 0);
+    input.read(&result[0], nameLen);
     return result;
 }
 
@@ -77,7 +81,9 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
     }
 
     PDC_HEADER header;
+    memset(&header, 0, sizeof(header));
     input->read((char*)&header, sizeof(header));
+    if(!io::complete(*input, filename, errorStream)) return 0;
     if(PDC_MAGIC != header.magic){
         if(errorStream) *errorStream << "Partio: Magic number '" << header.magic << "' of '" << filename << "' doesn't match pdc magic '" << PDC_MAGIC << "'" << std::endl;
         return 0;
@@ -86,7 +92,12 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
     BIGEND::swap(header.numParticles);
     BIGEND::swap(header.numAttrs);
 
-    ParticlesDataMutable* simple = headersOnly ? new ParticleHeaders: create();
+    if(header.numParticles < 0){
+        if(errorStream) *errorStream << "Partio: '" << filename << "' has a negative number of particles" << std::endl;
+        return 0;
+    }
+
+    io::ParticlesPtr simple(headersOnly ? new ParticleHeaders: create());
     simple->addParticles(header.numParticles);
 
     for(int attrIndex = 0; attrIndex < header.numAttrs; attrIndex++){
@@ -95,6 +106,11 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
         string attrName = readName(*input);
         int type;
         read<BIGEND>(*input, type);
+        if(!io::complete(*input, filename, errorStream)) return 0;
+        if((type != 3 && type != 5) || simple->attributeInfo(attrName.c_str(), attr)){
+            if(errorStream) *errorStream << "Partio: attribute '" << attrName << "' has unknown type " << type << " or appears more than once" << std::endl;
+            return 0;
+        }
         if(type == 3){
             attr = simple->addAttribute(attrName.c_str(), FLOAT, 1);
         }
@@ -104,12 +120,12 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
 
         // if headersOnly, skip
         if(headersOnly){
-            input->seekg((int)input->tellg() + header.numParticles*sizeof(double)*attr.count);
+            io::skip(*input, (unsigned long long)header.numParticles*sizeof(double)*attr.count);
             continue;
         }
         else{
             double tmp[3];
-            for(int partIndex = 0; partIndex < simple->numParticles(); partIndex++){
+            for(int partIndex = 0; partIndex < simple->numParticles() && *input; partIndex++){
                 for(int dim = 0; dim < attr.count; dim++){
                     read<BIGEND>(*input, tmp[dim]);
                     simple->dataWrite<float>(attr, partIndex)[dim] = (float)tmp[dim];
@@ -118,7 +134,8 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
         }
     }
 
-    return simple;
+    if(!io::complete(*input, filename, errorStream)) return 0;
+    return simple.release();
 }
 
 bool writePDC(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream){
@@ -160,7 +177,7 @@ bool writePDC(const char* filename,const ParticlesData& p,const bool compressed,
             }
         }
     }
-    return true;
+    return io::finish(*output, filename, errorStream);
 }
 
 }// end of namespace Partio
-- 
2.43.0


From 44cc7aaca543cecd87633aabd696e16f3d98fa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 15/57] fix: pdb: word size of files with the default
 extension, truncated and damaged files, failed writes

---
 src/lib/io/PDB.cpp | 63 ++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index a296535..37d2563 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -41,6 +41,8 @@ namespace PDB{
 }
 #include "io.h"
 
+#include <cstring>
+
 namespace Partio
 {
 
@@ -73,7 +75,7 @@ string GetString(istream& input,bool& error)
     error=true;
     while (input)
     {
-        input.read(&c,sizeof(char));
+        if(!input.read(&c,sizeof(char))) break;
         if(c == terminator){error=false;break;}
         s += c;
     }
@@ -90,18 +92,24 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
     }
 
     // Use simple particle since we don't have optimized storage.
-    ParticlesDataMutable* simple=0;
-    if(headersOnly) simple=new ParticleHeaders;
-    else simple=create();
+    io::ParticlesPtr simple;
+    if(headersOnly) simple.reset(new ParticleHeaders);
+    else simple.reset(create());
 
     // Read header and add as many particles as found
     typename PDB_POLICY<bits>::HEADER header;
+    memset(&header,0,sizeof(header));
 
     input->read((char*)&header,sizeof(typename PDB_POLICY<bits>::HEADER));
     if(header.magic != PDB_MAGIC){
         if(errorStream) *errorStream<<"Partio: failed to get PDB magic"<<endl;
         return 0;
     }
+    if(!io::complete(*input,filename,errorStream)) return 0;
+    if(header.data_size>0x7fffffff){
+        if(errorStream) *errorStream<<"Partio: too many particles in "<<filename<<endl;
+        return 0;
+    }
 
     simple->addParticles(header.data_size);
     
@@ -112,15 +120,16 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
         input->read((char*)&channelHeader,sizeof(channelHeader));
         bool error;
         string name=GetString(*input,error);
-        if(error){
-            simple->release();
-            return 0;
-        }
 
         typename PDB_POLICY<bits>::CHANNEL_DATA channelData;
         input->read((char*)&channelData,sizeof(channelData));
+        if(!io::complete(*input,filename,errorStream)) return 0;
+        ParticleAttribute existing;
+        if(channelData.datasize>0xffffff || simple->attributeInfo(name.c_str(),existing)){
+            if(errorStream) *errorStream<<"Partio: Attribute '"<<name<<"' has a bad size or appears more than once"<<endl;
+            return 0;
+        }
 
-        
         ParticleAttributeType type;
         switch(channelHeader.type){
             case PDB_VECTOR: type=VECTOR;break;
@@ -128,39 +137,31 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
             case PDB_LONG: type=INT;break;
             default: type=NONE;break;
         }
-        int size=header.data_size*channelData.datasize;
+        unsigned long long size=(unsigned long long)header.data_size*channelData.datasize;
 
         // Read data or skip if we haven't found appropriate type handle
         if(type==NONE){
-            char buf[1024];
-            int toSkip=size;
-            while(toSkip>0){
-                input->read(buf,min(toSkip,1024));
-                toSkip-=1024;
-            }
+            io::skip(*input,size);
             if(errorStream) *errorStream<<"Partio: Attribute '"<<name<<"' cannot map type"<<endl;
         }else{
             int count=channelData.datasize/TypeSize(type);
             ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,count);
             if(headersOnly){
-                char buf[1024];
-                int toSkip=size;
-                while(toSkip>0){
-                    input->read(buf,min(toSkip,1024));
-                    toSkip-=1024;
-                }
+                io::skip(*input,size);
             }else{
                 Partio::ParticlesDataMutable::iterator it=simple->begin();
                 Partio::ParticleAccessor accessor(attrHandle);
                 it.addAccessor(accessor);
 
-                for(Partio::ParticlesDataMutable::iterator end=simple->end();it!=end;++it){
+                for(Partio::ParticlesDataMutable::iterator end=simple->end();it!=end && *input;++it){
                     input->read(accessor.raw<char>(it),sizeof(float)*attrHandle.count);
+                    io::skip(*input,channelData.datasize-sizeof(float)*attrHandle.count);
                 }
             }
         }
     }
-    return simple;
+    if(!io::complete(*input,filename,errorStream)) return 0;
+    return simple.release();
 }
 
 template<int bits>
@@ -235,7 +236,7 @@ bool writePDBHelper(const char* filename,const ParticlesData& p,const bool compr
             output->write(accessor.raw<char>(it),sizeof(float)*attr.count);
         }
     }
-    return true;
+    return io::finish(*output,filename,errorStream);
 }
 
 ParticlesDataMutable* readPDB32(const char* filename,const bool headersOnly,std::ostream* errorStream)
@@ -259,15 +260,27 @@ ParticlesDataMutable* readPDB(const char* filename,const bool headersOnly,std::o
     }
     // Read header and add as many particles as found
     PDB_POLICY<64>::HEADER header;
+    memset(&header,0,sizeof(header));
     input->read((char*)&header,sizeof(header));
     if(header.magic != PDB_MAGIC){
         if(errorStream) *errorStream <<"Partio: failed to get PDB magic"<<endl;
         return 0;
     }
+    // Without channels there is nothing to tell the word size from, and nothing that depends on it
+    if(input->gcount()<(streamsize)sizeof(PDB_POLICY<32>::HEADER)){
+        if(errorStream) *errorStream <<"Partio: File "<<filename<<" is truncated or unreadable"<<endl;
+        return 0;
+    }
+    if(header.num_data==0) return readPDBHelper<32>(filename,headersOnly,errorStream);
     // Now read a channel io ... and see if the the swap is zero or one and encoding is zero. If so then we probably god a good thing
     // if not, then we assume 64 bit.
     PDB_POLICY<64>::CHANNEL_IO channelIOHeader;
     input->read((char*)&channelIOHeader,sizeof(channelIOHeader));
+    // In a 32 bit file the type of the first channel follows. In a 64 bit file it is half of a pointer.
+    int type32=0;
+    input->read((char*)&type32,sizeof(type32));
+    if(!io::complete(*input,filename,errorStream)) return 0;
+    if(type32>=PDB_VECTOR && type32<=PDB_POINTERT) return readPDBHelper<32>(filename,headersOnly,errorStream);
     //cout<<"we got channel io as "<<int(channelIOHeader.type)<<" swap is "<<channelIOHeader.swap<<endl;
     if(channelIOHeader.type > 5  || channelIOHeader.type < 0 || (channelIOHeader.swap != 1 && channelIOHeader.swap != 0)){
         return readPDBHelper<32>(filename,headersOnly,errorStream);
-- 
2.43.0


From 54e7530faf21da64fedaf8979211dd8f7ef13e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 16/57] fix: prt: channel sizes, truncated and damaged files,
 failed writes

---
 src/lib/io/PRT.cpp | 97 +++++++++++++++++++++++++++++-----------------
 1 file changed, 61 insertions(+), 36 deletions(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index cde7e1f..001f6bd 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -111,11 +111,11 @@ static bool read_buffer(std::istream& is, z_stream& z, char* in_buf, void* p, si
         }
         int ret = inflate( &z, Z_BLOCK  );
         if ( ret != Z_OK && ret != Z_STREAM_END ) {
-            if(errorStream) *errorStream<<"Zlib error "<<z.msg<<std::endl;;
+            if(errorStream) *errorStream<<"Zlib error "<<(z.msg ? z.msg : "")<<std::endl;;
             return false;
         }
         if (ret == Z_STREAM_END && z.avail_out > 0) {
-            std::cerr<<"Truncated prt file  "<<std::endl;;
+            if(errorStream) *errorStream<<"Truncated prt file  "<<std::endl;;
             return false;
         }
     }
@@ -130,7 +130,7 @@ static bool write_buffer(std::ostream& os, z_stream& z, char* out_buf, void* p,
 	z.avail_out = OUT_BUFSIZE;
 	int ret=deflate(&z,flush?Z_FINISH:Z_NO_FLUSH);
 	if (!(ret!=Z_BUF_ERROR && ret!=Z_STREAM_ERROR)) {
-            if(errorStream) *errorStream<<"Zlib error "<<z.msg<<std::endl;;
+            if(errorStream) *errorStream<<"Zlib error "<<(z.msg ? z.msg : "")<<std::endl;;
             return false;
         }
         int	generated_output=(int)(z.next_out-(Bytef*)out_buf);
@@ -151,11 +151,12 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     }
 
     // Use simple particle since we don't have optimized storage.
-    ParticlesDataMutable* simple=0;
-    if (headersOnly) simple=new ParticleHeaders;
-    else simple=create();
+    io::ParticlesPtr simple;
+    if (headersOnly) simple.reset(new ParticleHeaders);
+    else simple.reset(create());
 
     FileHeadder header;
+    memset(&header,0,sizeof(FileHeadder));
     input->read((char*)&header,sizeof(FileHeadder));
 
     if (memcmp(header.magic, magic, sizeof(magic))) {
@@ -174,6 +175,11 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     read<LITEND>(*input,channels);		// number of channel
     read<LITEND>(*input,channelsize);	// size of channel
 
+    if (!io::complete(*input,filename,errorStream)) return 0;
+    if (header.numParticles > 0x7fffffff) {
+        if(errorStream) *errorStream<<"Partio: too many particles in "<<filename<<std::endl;
+        return 0;
+    }
     simple->addParticles((int)header.numParticles);
 
     std::vector<Channel> chans;
@@ -183,7 +189,8 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     
     for (int i=0; i<channels; i++) {
         Channel ch;
-        input->read((char*)&ch, sizeof(Channel));
+        if (!input->read((char*)&ch, sizeof(Channel))) break;
+        ch.name[sizeof(ch.name)-1] = 0;
         ParticleAttributeType type=NONE;
         switch (ch.type) {
         case 0:	// int16
@@ -209,27 +216,39 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
             type = INT;
             break;
         }
-        if (type != NONE) {
+        if (type == NONE) {
+            if(errorStream) *errorStream<<"Partio: channel '"<<(char*)ch.name<<"' has unknown type "<<ch.type<<std::endl;
+            return 0;
+        }
+        // The size of the particle is determined from the channel with largest offset. The channels are not required to be listed in order.
+        if (ch.arity > 0xffff || ch.offset > 0xffffff) {
+            if(errorStream) *errorStream<<"Partio: channel '"<<(char*)ch.name<<"' has a bad size"<<std::endl;
+            return 0;
+        }
+        particleSize = (std::max)( particleSize, ch.offset + ch.arity * sizes[ch.type] );
+
 #ifdef AUTO_CASES
-            if (ch.name[0] >= 'A' && ch.name[0] <= 'Z') {
-                ch.name[0] += 0x20;
-            }
+        if (ch.name[0] >= 'A' && ch.name[0] <= 'Z') {
+            ch.name[0] += 0x20;
+        }
 #endif
-            std::string name((char*)ch.name);
-            ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,ch.arity);
-            chans.push_back(ch);
-            attrs.push_back(attrHandle);
+        std::string name((char*)ch.name);
+        ParticleAttribute existing;
+        if (simple->attributeInfo(name.c_str(),existing)) {
+            if(errorStream) *errorStream<<"Partio: channel '"<<name<<"' appears more than once"<<std::endl;
+            return 0;
         }
-        
-        // The size of the particle is determined from the channel with largest offset. The channels are not required to be listed in order.
-        particleSize = (std::max)( particleSize, chans.back().offset + sizes[ch.type] );
+        ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,ch.arity);
+        chans.push_back(ch);
+        attrs.push_back(attrHandle);
         
         // The channel entry might have more data in other PRT versions.
         if ((unsigned)channelsize > sizeof(Channel))
             input->seekg(channelsize - sizeof(Channel), std::ios::cur);
     }
 
-    if (headersOnly) return simple;
+    if (!io::complete(*input,filename,errorStream)) return 0;
+    if (headersOnly) return simple.release();
 
     z_stream z;
     z.zalloc = Z_NULL;z.zfree = Z_NULL;z.opaque = Z_NULL;
@@ -242,11 +261,16 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     z.next_in = 0;
     z.avail_in = 0;
     
-    char* prt_buf = new char[particleSize];
+    struct InflateEnd { z_stream& z; ~InflateEnd() { inflateEnd( &z ); } } inflateEndOnReturn = { z };
+
+    std::vector<char> prt_buf(particleSize);
 
     for (unsigned int particleIndex=0;particleIndex<(unsigned int )simple->numParticles();particleIndex++) {
         // Read the particle from the file, and decompress it into a single particle-sized buffer.
-        read_buffer(*input, z, (char*)in_buf, prt_buf, particleSize, errorStream);
+        if (!read_buffer(*input, z, (char*)in_buf, prt_buf.data(), particleSize, errorStream)) {
+            if(errorStream) *errorStream<<"Partio: File "<<filename<<" is truncated or damaged"<<std::endl;
+            return 0;
+        }
         
         for (unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++) {
             if (attrs[attrIndex].type==Partio::INT) {
@@ -329,15 +353,8 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
 		}
 	}
     
-    delete[] prt_buf;
-    
-    if (inflateEnd( &z ) != Z_OK) {
-        if(errorStream) *errorStream<<"Zlib inflateEnd error"<<std::endl;
-        return 0;
-    }
-
     // success
-    return simple;
+    return simple.release();
 }
 
 bool writePRT(const char* filename,const ParticlesData& p,const bool /*compressed*/,std::ostream* errorStream)
@@ -363,7 +380,13 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
         int reserve = 4;
         output->write((char*)&header,sizeof(FileHeadder));
         write<LITEND>(*output, reserve);
-        write<LITEND>(*output, (int)p.numAttributes());
+        int numChannels = 0;
+        for (int i=0;i<p.numAttributes();i++) {
+            ParticleAttribute attr;
+            p.attributeInfo(i,attr);
+            if (attr.type!=INDEXEDSTR && attr.type!=NONE && attr.count>0) numChannels++;
+        }
+        write<LITEND>(*output, numChannels);
             reserve = 0x2c;
         write<LITEND>(*output, reserve);
 
@@ -374,7 +397,10 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
             p.attributeInfo(i,attr);
             Channel ch;
             memset(&ch, 0, sizeof(Channel));
-                    memcpy((char*)ch.name, attr.name.c_str(), attr.name.size());
+            if (attr.name.size()>=sizeof(ch.name)) {
+                if(errorStream) *errorStream<<"Partio: attribute name '"<<attr.name<<"' is cut short in PRT"<<std::endl;
+            }
+            memcpy((char*)ch.name, attr.name.c_str(), (std::min)(attr.name.size(), sizeof(ch.name)-1));
             ch.offset = offset;
             switch (attr.type) {
             case FLOAT: ch.type=4; ch.arity=attr.count; offset += sizeof(float)*attr.count; break;
@@ -401,6 +427,8 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
             return false;
         }
 
+        struct DeflateEnd { z_stream& z; ~DeflateEnd() { deflateEnd( &z ); } } deflateEndOnReturn = { z };
+
         char out_buf[OUT_BUFSIZE+10];
         for (int particleIndex=0;particleIndex<p.numParticles();particleIndex++) {
             for (unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++) {
@@ -415,12 +443,9 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
                 }
             }
         }
-        write_buffer(*output, z, (char*)out_buf, 0, 0, true, errorStream);
-        if (deflateEnd( &z ) != Z_OK) {
-            if(errorStream) *errorStream<<"Zlib deflateEnd error"<<std::endl;
+        if (!write_buffer(*output, z, (char*)out_buf, 0, 0, true, errorStream))
             return false;
-        }
-        // success
+        return io::finish(*output,filename,errorStream);
     }// end if numParticles > 0
     return true;
 }
-- 
2.43.0


From 783229e2f45ecddd27effee2cc81b98aafd810dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 17/57] fix: ptc: truncated and damaged files, failed writes

---
 src/lib/io/PTC.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 3448d6f..05069ab 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -56,9 +56,8 @@ inline string GetString(istream& input,const char terminator='\0')
     // TODO: make this check for FEOF condition! and also more efficient
     char c=' ';
     string s;
-    while (c!=terminator && input)
+    while (c!=terminator && input.read(&c,sizeof(char)))
     {
-        input.read(&c,sizeof(char));
 	s += c;
     }
     return s;
@@ -69,9 +68,9 @@ bool ParseSpec(const string& spec,string& typeName,string& name)
     // TODO: make more robust
     const char* s=spec.c_str();
     typeName="";name="";
-    while(*s!=' ') typeName+=*s++;
+    while(*s && *s!=' ' && *s!='\n') typeName+=*s++;
     while(*s==' ') s++;
-    while(*s!='\n') name+=*s++;
+    while(*s && *s!='\n') name+=*s++;
     return true;
 }
 
@@ -126,9 +125,14 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
     read<LITEND>(*input,nVars,dataSize);
 
     // Allocate a simple particle with the appropriate number of points
-    ParticlesDataMutable* simple=0;
-    if(headersOnly) simple=new ParticleHeaders;
-    else simple=create();
+    if(!io::complete(*input,filename,errorStream)) return 0;
+    if(!(nPoints>=0 && nPoints<=0x7fffffff)){
+        if(errorStream) *errorStream <<"Partio: bad number of points in "<<filename<<endl;
+        return 0;
+    }
+    io::ParticlesPtr simple;
+    if(headersOnly) simple.reset(new ParticleHeaders);
+    else simple.reset(create());
     simple->addParticles((int)nPoints);
 
     // PTC files always have something for these items, so allocate the data
@@ -142,6 +146,7 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
     int parsedSize=0;
     for(int chanNum=0;chanNum<nVars;chanNum++){
         ParseSpec(GetString(*input,'\n'),typeName,name);
+        if(!io::complete(*input,filename,errorStream)) return 0;
 
         int dataSize=0;
         ParticleAttributeType dataType;
@@ -159,7 +164,6 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
             dataSize=1;
         }else{
             if(errorStream) *errorStream <<"Partio: "<<filename<<" had unknown attribute spec "<<typeName<<" "<<name<<endl;
-            simple->release();
             return 0;
         }
         
@@ -179,19 +183,18 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
     if(dataSize!=parsedSize){
         if(errorStream) *errorStream <<"Partio: error with PTC, computed dataSize ("<<dataSize
                  <<") different from read one ("<<parsedSize<<")"<<endl;
-        simple->release();
         return 0;
     }
 
     // If all we care about is headers, then return.  
     if(headersOnly){
-        return simple;
+        return simple.release();
     }
 
     // more weird input attributes
     if(version>=1) for(int i=0;i<2;i++) read<LITEND>(*input,dummy);
 
-    for(int pointIndex=0;pointIndex<nPoints;pointIndex++){
+    for(int pointIndex=0;pointIndex<nPoints && *input;pointIndex++){
         float* pos=simple->dataWrite<float>(positionHandle,pointIndex);
         read<LITEND>(*input,pos[0],pos[1],pos[2]);
 
@@ -226,7 +229,8 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
 
     }
 
-    return simple;
+    if(!io::complete(*input,filename,errorStream)) return 0;
+    return simple.release();
 }
 
 bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
@@ -355,7 +359,7 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
         }
         
     }
-    return true;
+    return io::finish(*output,filename,errorStream);
 }
 
 }
-- 
2.43.0


From 95e13f9bae05a70b4a0cdbd36bea23cb03407820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 18/57] fix: pts: colours, compressed files, long lines,
 locale, read errors

---
 src/lib/io/PTS.cpp | 92 ++++++++++++++++++----------------------------
 1 file changed, 35 insertions(+), 57 deletions(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 6c437de..e17149d 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -56,12 +56,9 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
         return 0;
     }
 
-    ParticlesDataMutable* simple=0;
-    if (headersOnly) simple=new ParticleHeaders;
-    else simple=create();
-
-    // read NPoints and NPointAttrib
-    string word;
+    io::ParticlesPtr simple;
+    if (headersOnly) simple.reset(new ParticleHeaders);
+    else simple.reset(create());
 
     vector<string> attrNames;
     vector<ParticleAttribute> attrs;
@@ -73,35 +70,23 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
     /// FORMAT  is  up to 8 elements  space delimited { posX posY posZ  remission quality  red green blue }
     // since there's no header data to parse we're just going to hard code this
 
-    /* Start from the beginning */
-	input->seekg(0,ios::beg);
-
     /* Determine amount of values per line */
-    char line[1024];
-    /* Jump over first line. */
-	input->getline(line,1024);
-    input->getline(line,1024);
+    string line;
+    /* Jump over first line, a garbage count. */
+    getline(*input,line);
+    if (!getline(*input,line)) line.clear();
+    if (input->bad()) {
+        io::complete(*input,filename,errorStream);
+        return 0;
+    }
     int valcount = 0;
-#ifdef PARTIO_WIN32
-	char * nextLine = NULL;
-    char * pch = strtok_s( line, "\t ", &nextLine );
-#else
-	char * pch = strtok( line, "\t " );
-#endif
-    while ( pch )
     {
-        if ( *pch != 0 && *pch != '\n' )
-		{
-            valcount++;
-        }
-#ifdef PARTIO_WIN32
-        pch = strtok_s( NULL, "\t ", &nextLine );
-#else
-		pch = strtok( NULL, "\t " );
-#endif
+        istringstream ss(line);
+        ss.imbue(locale::classic());
+        string token;
+        while (ss >> token) valcount++;
     }
 
-
     switch ( valcount )
 	{
 		case 3:  // position only
@@ -150,49 +135,37 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 		break;
 		default:
 		{
+			if(errorStream) *errorStream<<"Partio: No particle data found in "<<filename<<endl;
 			return 0;
 		}
 		break;
 
     }
 
-    input->seekg(0,ios::beg);
-
     unsigned int num=0;
     simple->addParticles(num);
-    if (headersOnly) return simple; // escape before we try to touch data
-
-    if (input->good())
-    { // garbage count at top of  file
-		char junk[1024];
-        input->getline(junk,1024);
-    }
+    if (headersOnly) return simple.release(); // escape before we try to touch data
 
     // Read actual particle data
-    if (!input->good()) {
-        simple->release();
-        return 0;
-    }
-
     // we have to read line by line, because data is not  clean and consistent so we skip any lines that dont' conform
 
-    for (unsigned int particleIndex=0;input->good();)
+    unsigned int particleIndex=0;
+    do
     {
-        string token = "";
-        char line[1024];
-        input->getline(line, 1024);
-
-        stringstream ss(line);
+        istringstream ss(line);
+        ss.imbue(locale::classic());
 
+        string token;
         float lineData[8];
         int i = 0;
 
         while (ss >> token)
         {
-            stringstream foo(token);
-            float x;
+            istringstream foo(token);
+            foo.imbue(locale::classic());
+            float x = 0;
             foo >> x;
-			lineData[i] = x;
+            if (i < 8) lineData[i] = x;
             i++;
         }
 
@@ -222,9 +195,9 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 					if (attrs[attrIndex].name == "pointColor")
 					{
 						// 8 bit color  conversion
-						data[0]=lineData[4]/255;
-						data[1]=lineData[5]/255;
-						data[2]=lineData[6]/255;
+						data[0]=lineData[valcount-3]/255;
+						data[1]=lineData[valcount-2]/255;
+						data[2]=lineData[valcount-1]/255;
 					}
 					else if (attrs[attrIndex].name == "position")
 					{
@@ -242,8 +215,13 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
             }
             particleIndex++;
         }
+    } while (getline(*input,line));
+
+    if (input->bad()) {
+        io::complete(*input,filename,errorStream);
+        return 0;
     }
-    return simple;
+    return simple.release();
 }
 
 /// THIS DOESENT WORK YET>>
-- 
2.43.0


From 632fec6f33ba9177b6c421b269d80eaa44ed2c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 19/57] fix: mc: truncated, damaged and compressed files

---
 src/lib/io/MC.cpp | 72 ++++++++++++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 32 deletions(-)

diff --git a/src/lib/io/MC.cpp b/src/lib/io/MC.cpp
index 82b5278..c7338fa 100644
--- a/src/lib/io/MC.cpp
+++ b/src/lib/io/MC.cpp
@@ -50,17 +50,10 @@ using namespace std;
 // TODO: convert this to use iterators like the rest of the readers/writers
 
 std::string GetString(std::istream& input, unsigned int size){
-    char* tmp = new char [size];
-    input.read(tmp, size);
-    std::string result(tmp);
-
-    // fix read tag error (ex: DBLA --> DBLAi, why !!)
-    if(result.size() > size){
-        result.resize(size);
-    }
-
-    delete [] tmp;
-    return result;
+    std::string result(size, 0);
+    input.read(&result[0], size);
+    // the string ends at the first zero
+    return result.c_str();
 }
 
 typedef struct{
@@ -77,6 +70,10 @@ bool ReadAttrHeader(std::istream& input, Attribute_Header& attribute){
 
     int chnmSize;
     read<BIGEND>(input, chnmSize);
+    if(chnmSize < 0 || chnmSize > 0xffff){
+        input.setstate(std::ios::failbit);
+        return false;
+    }
     if(chnmSize%4 > 0){
         chnmSize = chnmSize - chnmSize%4 + 4;
     }
@@ -93,7 +90,7 @@ bool ReadAttrHeader(std::istream& input, Attribute_Header& attribute){
 
     read<BIGEND>(input, attribute.blocksize);
 
-    return true;
+    return bool(input);
 }
 
 int CharArrayLen(char** charArray){
@@ -124,7 +121,7 @@ static const int HEADER_SIZE = 56;
 
 ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::ostream* errorStream){
 
-    std::unique_ptr<std::istream> input(io::unzip(filename));
+    std::unique_ptr<std::istream> input(io::unzipSeekable(filename));
     if(!*input){
         if(errorStream) *errorStream << "Partio: Unable to open file " << filename << std::endl;
         return 0;
@@ -153,41 +150,46 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
     read<BIGEND>(*input, blockSize);
 
     // Allocate a simple particle with the appropriate number of points
-    ParticlesDataMutable* simple=0;
+    io::ParticlesPtr simple;
     if(headersOnly){
-        simple = new ParticleHeaders;
+        simple.reset(new ParticleHeaders);
     }
     else{
-        simple=create();
+        simple.reset(create());
     }
 
     int numParticles = 0;
     input->read(tag, 4); // MYCH
-    while(((int)input->tellg()-HEADER_SIZE) < blockSize){
+    while(*input && ((int)input->tellg()-HEADER_SIZE) < blockSize){
         Attribute_Header attrHeader;
-        ReadAttrHeader(*input, attrHeader);
+        if(!ReadAttrHeader(*input, attrHeader)) break;
 
         if(attrHeader.name == std::string("id")){
             numParticles = attrHeader.numParticles;
         }
 
         if(attrHeader.blocksize/sizeof(double) == 1){ // for who ?
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+            input->seekg(attrHeader.blocksize, std::ios::cur);
             continue;
         }
+        ParticleAttribute existing;
+        if(simple->attributeInfo(attrHeader.name.c_str(), existing)){
+            if(errorStream) *errorStream << "Partio: Attribute '" << attrHeader.name << "' appears more than once" << std::endl;
+            return 0;
+        }
 #if 0 // TODO: if we ever put back attributes re-enable this
         if(attributes && (IsStringInCharArray(attrHeader.name, attributes)==false)){
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+            input->seekg(attrHeader.blocksize, std::ios::cur);
             continue;
         }
 #endif
 
         if(attrHeader.type == std::string("FVCA")){
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+            input->seekg(attrHeader.blocksize, std::ios::cur);
             simple->addAttribute(attrHeader.name.c_str(), VECTOR, 3);
         }
         else if(attrHeader.type == std::string("DBLA")){
-			input->seekg((int)input->tellg() + attrHeader.blocksize);
+			input->seekg(attrHeader.blocksize, std::ios::cur);
 			if(attrHeader.name == "id"){
 				simple->addAttribute(attrHeader.name.c_str(), INT, 1);
 			}
@@ -197,31 +199,36 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
         }
         else
 		{
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+            input->seekg(attrHeader.blocksize, std::ios::cur);
             if(errorStream) *errorStream << "Partio: Attribute '" << attrHeader.name << " " << attrHeader.type << "' cannot map type" << std::endl;
         }
     }
+    if(!io::complete(*input, filename, errorStream)) return 0;
+    if(numParticles < 0){
+        if(errorStream) *errorStream << "Partio: too many particles in " << filename << std::endl;
+        return 0;
+    }
     simple->addParticles(numParticles);
 
     // If all we care about is headers, then return.--
     if(headersOnly){
-        return simple;
+        return simple.release();
     }
     //cout << "==============================================================" << endl;
     input->seekg(HEADER_SIZE);
     input->read(tag, 4); // MYCH
-    while((int)input->tellg()-HEADER_SIZE < blockSize){
+    while(*input && (int)input->tellg()-HEADER_SIZE < blockSize){
         Attribute_Header attrHeader;
-        ReadAttrHeader(*input, attrHeader);
+        if(!ReadAttrHeader(*input, attrHeader)) break;
 
         if(attrHeader.blocksize/sizeof(double) == 1){ // for who ?
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+            input->seekg(attrHeader.blocksize, std::ios::cur);
             continue;
         }
 
         ParticleAttribute attrHandle;
         if(simple->attributeInfo(attrHeader.name.c_str(), attrHandle) == false){
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+            input->seekg(attrHeader.blocksize, std::ios::cur);
             continue;
         }
 
@@ -233,7 +240,7 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
         if (attrHeader.type == std::string("DBLA")){
 			if  (attrHeader.name == "id")
 			{
-				for (int i = 0; i < simple->numParticles(); i++)
+				for (int i = 0; i < simple->numParticles() && *input; i++)
 				{
                 double tmp;
                 read<BIGEND>(*input, tmp);
@@ -242,7 +249,7 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
 				}
 			}
 			else{
-				for (int i = 0; i < simple->numParticles(); i++){
+				for (int i = 0; i < simple->numParticles() && *input; i++){
 					double tmp;
 					read<BIGEND>(*input, tmp);
 					float* data = simple->dataWrite<float>(attrHandle, i);
@@ -251,7 +258,7 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
 			}
         }
         else if(attrHeader.type == std::string("FVCA")){
-            for(Partio::ParticlesDataMutable::iterator end = simple->end(); it != end; ++it){
+            for(Partio::ParticlesDataMutable::iterator end = simple->end(); it != end && *input; ++it){
                 input->read(accessor.raw<char>(it), sizeof(float)*attrHandle.count);
             }
             it = simple->begin();
@@ -275,7 +282,8 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
         }*/
 
     }
-    return simple;
+    if(!io::complete(*input, filename, errorStream)) return 0;
+    return simple.release();
 
 }
 /*
-- 
2.43.0


From 8c66115428d3900ac31c0cf6d8bfa1ab395ef109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 20/57] fix: bin: truncated files, failed writes, messages go
 to the error stream

---
 src/lib/io/BIN.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/lib/io/BIN.cpp b/src/lib/io/BIN.cpp
index 326e6dc..7990945 100644
--- a/src/lib/io/BIN.cpp
+++ b/src/lib/io/BIN.cpp
@@ -40,6 +40,8 @@ Modifications from: github user: redpawfx (redpawFX@gmail.com)  and Luma Picture
 #include "../core/ParticleHeaders.h"
 #include "io.h"
 
+#include <cstring>
+
 namespace Partio{
 
 using namespace std;
@@ -91,6 +93,7 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
     }
 
     BIN_HEADER header;
+    memset(&header, 0, sizeof(header));
     input->read((char*)&header, sizeof(BIN_HEADERV6));
 
     // According to the NextLimit bin_particles_file_format.pdf file
@@ -103,7 +106,7 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
 
     // After version 13, we don't know what to do
     if(header.version > 13){
-        cerr << "Partio: Unknown .bin version : " << header.version << endl;
+        if(errorStream) *errorStream << "Partio: Unknown .bin version : " << header.version << endl;
         return 0;
     }
 
@@ -113,7 +116,13 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
     }
 
 
-    ParticlesDataMutable* simple = headersOnly ? new ParticleHeaders: create();
+    if(!io::complete(*input, filename, errorStream)) return 0;
+    if(header.numParticles < 0){
+        if(errorStream) *errorStream << "Partio: negative number of particles in " << filename << endl;
+        return 0;
+    }
+
+    io::ParticlesPtr simple(headersOnly ? new ParticleHeaders: create());
     simple->addParticles(header.numParticles);
 
     ParticleAttribute posAttr;
@@ -153,7 +162,7 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
 
     if (!headersOnly)
     {
-        for(int partIndex = 0; partIndex < simple->numParticles(); partIndex++)
+        for(int partIndex = 0; partIndex < simple->numParticles() && *input; partIndex++)
         {
 
             float position[3] = {0.0,0.0,0.0};
@@ -255,7 +264,7 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
             else
             {
                 // Warning, cast the id on 32 bits here
-                uint64_t pid64;
+                uint64_t pid64 = 0;
                 input->read ((char*) &pid64, sizeof(pid64));
                 pid = (int)pid64;
             }
@@ -263,7 +272,8 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
         }
     }
 
-    return simple;
+    if(!io::complete(*input, filename, errorStream)) return 0;
+    return simple.release();
 }
 
 bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compressed*/,std::ostream* errorStream)
@@ -457,7 +467,7 @@ bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compresse
 
             else
             {
-                cout << "Attribute found that  we don't support yet" << endl;
+                if(errorStream && particles == 0) *errorStream << "Partio: attribute '" << attr.name << "' is not supported in BIN" << endl;
             }
         }
 
@@ -505,7 +515,7 @@ bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compresse
 	output->write((const char*)&zero, sizeof(char)); // no RF 4 data (just 1 byte of 0)
 	output->write((const char*)&zero, sizeof(char)); // no RF 5 data (just 1 byte of 0)
 
-    return true;
+    return io::finish(*output, filename, errorStream);
 }
 
 }// end of namespace Partio
-- 
2.43.0


From 0a093880f9feb3bb350d63227de524501e718a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:40 +0000
Subject: [PATCH 21/57] fix: geo: a header cut short

---
 src/lib/io/GEO.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 37d7e70..72c035e 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -106,8 +106,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
     }
     if(NPointAttrib>0){
         // skip until PointAttrib
-        while(input->good()){
-            *input>>word;
+        while(*input>>word){
             if(word=="PointAttrib") break;
         }
     }else{
@@ -127,7 +126,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
 
     vector<ParticleAttribute> attrs;
     vector<ParticleAccessor> accessors;
-    while (input->good() && attrInfoRead < NPointAttrib) {
+    while (*input && attrInfoRead < NPointAttrib) {
         string attrName, attrType;
         int nvals = 0;
         *input >> attrName >> nvals >> attrType;
-- 
2.43.0


From aa612ac1c1225a10fc02c5bc9a19339f5ccd8302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:37 +0000
Subject: [PATCH 22/57] fix: ptc with a fractional number of points; particles
 of no size are not counted through

---
 src/lib/io/PDA.cpp | 2 +-
 src/lib/io/PDB.cpp | 2 +-
 src/lib/io/PRT.cpp | 2 ++
 src/lib/io/PTC.cpp | 2 +-
 4 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index 0b2c1c6..4f37871 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -115,7 +115,7 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
     if(headersOnly) return simple.release(); // escape before we try to touch data
 
     // Read actual particle data
-    for(int particleIndex=0;*input && particleIndex<num; particleIndex++) {
+    for(int particleIndex=0;*input && !attrs.empty() && particleIndex<num; particleIndex++) {
         for(unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++){
             if(attrs[attrIndex].type==Partio::INT){
                 int* data=simple->dataWrite<int>(attrs[attrIndex],particleIndex);
diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index 37d2563..e0587e4 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -153,7 +153,7 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
                 Partio::ParticleAccessor accessor(attrHandle);
                 it.addAccessor(accessor);
 
-                for(Partio::ParticlesDataMutable::iterator end=simple->end();it!=end && *input;++it){
+                for(Partio::ParticlesDataMutable::iterator end=simple->end();size>0 && it!=end && *input;++it){
                     input->read(accessor.raw<char>(it),sizeof(float)*attrHandle.count);
                     io::skip(*input,channelData.datasize-sizeof(float)*attrHandle.count);
                 }
diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index 001f6bd..310a6b8 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -263,6 +263,8 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     
     struct InflateEnd { z_stream& z; ~InflateEnd() { inflateEnd( &z ); } } inflateEndOnReturn = { z };
 
+    if (particleSize == 0) return simple.release(); // nothing to read
+
     std::vector<char> prt_buf(particleSize);
 
     for (unsigned int particleIndex=0;particleIndex<(unsigned int )simple->numParticles();particleIndex++) {
diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 05069ab..b586adc 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -194,7 +194,7 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
     // more weird input attributes
     if(version>=1) for(int i=0;i<2;i++) read<LITEND>(*input,dummy);
 
-    for(int pointIndex=0;pointIndex<nPoints && *input;pointIndex++){
+    for(int pointIndex=0;pointIndex<simple->numParticles() && *input;pointIndex++){
         float* pos=simple->dataWrite<float>(positionHandle,pointIndex);
         read<LITEND>(*input,pos[0],pos[1],pos[2]);
 
-- 
2.43.0


From aec2402901e61acebe964fe27acd87973cbbc0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:50 +0000
Subject: [PATCH 23/57] fix: a failed cached read no longer keeps the cache
 locked

---
 src/lib/core/ParticleCaching.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/lib/core/ParticleCaching.cpp b/src/lib/core/ParticleCaching.cpp
index 0d3e69e..42badca 100644
--- a/src/lib/core/ParticleCaching.cpp
+++ b/src/lib/core/ParticleCaching.cpp
@@ -34,7 +34,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 */
 #include <iostream>
 #include <cassert>
-#include "Mutex.h"
+#include <mutex>
 #include "../Partio.h"
 
 //#####################################################################
@@ -42,7 +42,8 @@ namespace Partio{
 
 namespace
 {
-    static PartioMutex mutex;
+    // recursive, because reading a bad file releases the partial particle set
+    static std::recursive_mutex mutex;
 }
     
 // cached read write
@@ -51,7 +52,7 @@ std::map<std::string,ParticlesData*> cachedParticles;
 
 ParticlesData* readCached(const char* filename,const bool sort,const bool verbose,std::ostream& error)
 {
-    mutex.lock();
+    std::lock_guard<std::recursive_mutex> lock(mutex);
     std::map<std::string,ParticlesData*>::iterator i=cachedParticles.find(filename);
 
     ParticlesData* p=0;
@@ -59,15 +60,20 @@ ParticlesData* readCached(const char* filename,const bool sort,const bool verbos
         p=i->second;
         cachedParticlesCount[p]++;
     }else{
-        ParticlesDataMutable* p_rw=read(filename,verbose);
+        ParticlesDataMutable* p_rw=read(filename,verbose,error);
         if(p_rw){
-            if(sort) p_rw->sort();
+            try{
+                if(sort) p_rw->sort();
+                cachedParticlesCount[p_rw]=1;
+                cachedParticles[filename]=p_rw;
+            }catch(...){ // not cached, so nobody else can hold it
+                cachedParticlesCount.erase(p_rw);
+                p_rw->release();
+                throw;
+            }
             p=p_rw;
-            cachedParticles[filename]=p;
-            cachedParticlesCount[p]=1;
         }
     }
-    mutex.unlock();
     return p;
 }
 
@@ -75,7 +81,7 @@ void freeCached(ParticlesData* particles)
 {
     if(!particles) return;
 
-    mutex.lock();
+    std::lock_guard<std::recursive_mutex> lock(mutex);
 
     std::map<ParticlesData*,int>::iterator i=cachedParticlesCount.find(particles);
     if(i==cachedParticlesCount.end()){ // Not found in cache, just free
@@ -89,14 +95,12 @@ void freeCached(ParticlesData* particles)
                 i2!=cachedParticles.end();++i2){
                 if(i2->second==particles){
                     cachedParticles.erase(i2);
-                    goto exit_and_release;
+                    return;
                 }
             }        
             assert(false);
         }
     }
-  exit_and_release:
-    mutex.unlock();
 }
 
 void beginCachedAccess(ParticlesData*)
-- 
2.43.0


From bfa65d48da7189ba6a88e5757712ba42f186f46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:50 +0000
Subject: [PATCH 24/57] fix: reader and writer tables are built under the lock
 that guards them

---
 src/lib/io/ParticleIO.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/ParticleIO.cpp b/src/lib/io/ParticleIO.cpp
index ba4698f..05687ea 100644
--- a/src/lib/io/ParticleIO.cpp
+++ b/src/lib/io/ParticleIO.cpp
@@ -34,6 +34,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 */
 
 #include <iostream>
+#include <mutex>
 #include "../core/Mutex.h"
 #include "../Partio.h"
 #include "readers.h"
@@ -52,8 +53,8 @@ readers()
 {
     static map<string,READER_FUNCTION> data;
     static bool initialized=false;
+    std::lock_guard<PartioMutex> lock(initializationMutex);
     if(!initialized){
-	initializationMutex.lock();
         data["bgeo"]=readBGEO;
         data["bhclassic"]=readBGEO;
         data["geo"]=readGEO;
@@ -72,7 +73,6 @@ readers()
         data["itbl"]=readBGEO;
         data["atbl"]=readBGEO;
 	initialized=true;
-	initializationMutex.unlock();
     }
     return data;
 }
@@ -82,8 +82,8 @@ writers()
 {
     static map<string,WRITER_FUNCTION> data;
     static bool initialized=false;
+    std::lock_guard<PartioMutex> lock(initializationMutex);
     if(!initialized){
-	initializationMutex.lock();
         data["bgeo"]=writeBGEO;
         data["bhclassic"]=writeBGEO;
         data["geo"]=writeGEO;
@@ -101,7 +101,6 @@ writers()
         data["itbl"]=writeBGEO;
         data["atbl"]=writeBGEO;
 	initialized=true;
-	initializationMutex.unlock();
     }
     return data;
 }
-- 
2.43.0


From 4d1cb507a2d7160739c24d2688ac3a8098fcb831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:04 +0000
Subject: [PATCH 25/57] fix: bgeo, geo: a string that a table holds twice keeps
 its tokens

---
 src/lib/io/BGEO.cpp | 21 +++++++++++----------
 src/lib/io/GEO.cpp  | 15 ++++++++++-----
 src/lib/io/io.h     |  8 ++++++++
 3 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index f3ba98c..3898764 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -83,7 +83,7 @@ struct DummyAccessor{
 };
 
 template<class TAttribute, class TAccessor>
-bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribute>& attrHandles, vector<TAccessor>& accessors, int nAttrib, istream* input, ParticlesDataMutable* simple, bool headersOnly, std::ostream* errorStream)
+bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribute>& attrHandles, vector<TAccessor>& accessors, vector<vector<int> >& tokens, int nAttrib, istream* input, ParticlesDataMutable* simple, bool headersOnly, std::ostream* errorStream)
 {
     Helper<TAttribute> helper;
     for(int i=0;i<nAttrib;i++){
@@ -100,6 +100,7 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
             if(errorStream) *errorStream <<"Partio: attribute '"<<name<<"' appears more than once, aborting"<<endl;
             return false;
         }
+        tokens.push_back(vector<int>());
         if(houdiniType==0 || houdiniType==1 || houdiniType==5){
             // read default values. don't do anything with them
             for(int i=0;i<size;i++) {
@@ -129,10 +130,7 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
                 if(!*input) return false;
                 const char* indexName=indexNameBuffer.c_str();
                 if (!headersOnly) {
-                    int id=helper.registerIndexedStr(simple,attribute,indexName);
-                    if(id != ii){
-                        if(errorStream) *errorStream <<"Partio: error on read, expected registerIndexStr to return index "<<ii<<" but got "<<id<<" for string "<<indexName<<std::endl;
-                    }
+                    tokens.back().push_back(helper.registerIndexedStr(simple,attribute,indexName));
                 }
             }
             particleSize+=size;
@@ -167,7 +165,8 @@ bool skipPrimitives(int nPoints, int nPrims, int nPrimAttrib, istream* input,std
     vector<int> primAttrOffsets; // offsets in # of 32 bit offsets
     vector<DummyAttribute> primAttrHandles;
     vector<DummyAccessor> primAccessors;
-    if(!getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, nPrimAttrib, input, 0, true, errorStream)) return false;
+    vector<vector<int> > primTokens;
+    if(!getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, primTokens, nPrimAttrib, input, 0, true, errorStream)) return false;
 
     for(int i=0;i<nPrims && *input;i++) {
         int primType;
@@ -251,7 +250,8 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     attrOffsets.push_back(0); // pull values from byte offset
     attrHandles.push_back(simple->addAttribute("position",VECTOR,3)); // we always have one
     accessors.push_back(ParticleAccessor(attrHandles[0]));
-    if(!getAttributes(particleSize, attrOffsets, attrHandles, accessors, nPointAttrib, input.get(), simple.get(), headersOnly, errorStream)){
+    vector<vector<int> > tokens(1);
+    if(!getAttributes(particleSize, attrOffsets, attrHandles, accessors, tokens, nPointAttrib, input.get(), simple.get(), headersOnly, errorStream)){
         io::complete(*input,filename,errorStream);
         return 0;
     }
@@ -276,7 +276,7 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
                 int* data=accessor.raw<int>(iterator);
                 for(int k=0;k<handle.count;k++){
                     BIGEND::swap(buffer[attrOffsets[attrIndex]+k]);
-                    data[k]=buffer[attrOffsets[attrIndex]+k];
+                    data[k]=io::mapToken(tokens[attrIndex],buffer[attrOffsets[attrIndex]+k]);
                 }
             }
         }
@@ -290,7 +290,8 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     vector<int> fixedAttrOffsets; // offsets in # of 32 bit offsets
     vector<FixedAttribute> fixedAttrHandles;
     vector<DummyAccessor> fixedAccessors;
-    if(!getAttributes(particleSize, fixedAttrOffsets, fixedAttrHandles, fixedAccessors, nAttrib, input.get(), simple.get(), headersOnly, errorStream)){
+    vector<vector<int> > fixedTokens;
+    if(!getAttributes(particleSize, fixedAttrOffsets, fixedAttrHandles, fixedAccessors, fixedTokens, nAttrib, input.get(), simple.get(), headersOnly, errorStream)){
         io::complete(*input,filename,errorStream);
         return 0;
     }
@@ -307,7 +308,7 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
         // a different endian swapper
         for(int k=0;k<handle.count;k++){
             BIGEND::swap(fixedBuffer[fixedAttrOffsets[attrIndex]+k]);
-            simple->fixedDataWrite<int>(fixedAttrHandles[attrIndex])[k]=fixedBuffer[fixedAttrOffsets[attrIndex]+k];
+            simple->fixedDataWrite<int>(fixedAttrHandles[attrIndex])[k]=io::mapToken(fixedTokens[attrIndex],fixedBuffer[fixedAttrOffsets[attrIndex]+k]);
         }
     }
 
diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 72c035e..548e07a 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -126,6 +126,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
 
     vector<ParticleAttribute> attrs;
     vector<ParticleAccessor> accessors;
+    vector<vector<int> > tokens;
     while (*input && attrInfoRead < NPointAttrib) {
         string attrName, attrType;
         int nvals = 0;
@@ -135,6 +136,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
             if(errorStream) *errorStream<<"Partio: attr '"<<attrName<<"' has a bad size or appears more than once, aborting"<<endl;
             return 0;
         }
+        tokens.push_back(vector<int>());
         if(attrType=="index"){
             if(errorStream) *errorStream<<"Partio: attr '"<<attrName<<"' of type index (string) found, treating as integer"<<endl;
             int nIndices=0;
@@ -146,10 +148,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
                 //*input>>indexName;
                 indexName=scanString(*input);
                 if (!headersOnly) {
-                    int id=simple->registerIndexedStr(attribute,indexName.c_str());
-                    if(id != j){
-                        if(errorStream) *errorStream<<"Partio: error on read, expected registerIndexStr to return index "<<j<<" but got "<<id<<" for string "<<indexName<<endl;
-                    }
+                    tokens.back().push_back(simple->registerIndexedStr(attribute,indexName.c_str()));
                 }
             }
             accessors.push_back(ParticleAccessor(attrs.back()));
@@ -212,7 +211,13 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
                 case FLOAT: readGeoAttr<FLOAT>(*input,attrs[i],accessors[i],iterator);break;
                 case VECTOR: readGeoAttr<VECTOR>(*input,attrs[i],accessors[i],iterator);break;
                 case INT: readGeoAttr<INT>(*input,attrs[i],accessors[i],iterator);break;
-                case INDEXEDSTR: readGeoAttr<INDEXEDSTR>(*input,attrs[i],accessors[i],iterator);break;
+                case INDEXEDSTR: 
+                    readGeoAttr<INDEXEDSTR>(*input,attrs[i],accessors[i],iterator);
+                    for(int k=0;k<attrs[i].count;k++){
+                        int& token=accessors[i].raw<int>(iterator)[k];
+                        token=io::mapToken(tokens[i],token);
+                    }
+                    break;
             }
         }
         // skip closing parenthes
diff --git a/src/lib/io/io.h b/src/lib/io/io.h
index 67ce1ad..455953b 100644
--- a/src/lib/io/io.h
+++ b/src/lib/io/io.h
@@ -7,6 +7,7 @@
 #include <iosfwd>
 #include <string>
 #include <memory>
+#include <vector>
 #include <sstream>
 
 namespace Partio {
@@ -17,6 +18,13 @@ struct ReleaseParticles
     void operator()(ParticlesInfo* particles) const { particles->release(); }
 };
 
+//! The token a set uses for a token of a file, given the tokens of the file's
+//! strings. They differ after a string that the file's table holds twice.
+inline int mapToken(const std::vector<int>& tokens, const int token)
+{
+    return token >= 0 && (size_t)token < tokens.size() ? tokens[token] : token;
+}
+
 //! Holds the set a reader fills, and releases it when the reader gives up
 typedef std::unique_ptr<ParticlesDataMutable, ReleaseParticles> ParticlesPtr;
 
-- 
2.43.0


From 1c17eab9adfe7ac0acefc382c8eaebfba216a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:38 +0000
Subject: [PATCH 26/57] fix: clones of sets with renamed strings; sets are
 released when cloning or clustering runs out of memory

---
 src/lib/core/Particle.cpp | 43 +++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index b3c81ff..5e41bca 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -84,10 +84,25 @@ const std::string getMappedName(const std::string& input, const std::map<std::st
     return input;
 }
 
+// Holds the set being built, and releases it when building fails
+struct ReleaseParticles {
+    void operator()(ParticlesDataMutable* particles) const {particles->release();}
+};
+typedef std::unique_ptr<ParticlesDataMutable, ReleaseParticles> ParticlesPtr;
+
+// A set does not hold a string twice unless a string was renamed to another one,
+// so tokens may have to change when strings are taken over from another set.
+void mapTokens(int* data, const int count, const std::vector<int>& tokens)
+{
+    for (int i = 0; i < count; ++i) {
+        if (data[i] >= 0 && (size_t)data[i] < tokens.size()) data[i] = tokens[data[i]];
+    }
+}
+
 ParticlesDataMutable*
 cloneSchema(const ParticlesData& other, const std::map<std::string, std::string>* attrNameMap)
 {
-    ParticlesDataMutable* p = create();
+    ParticlesPtr p(create());
 
     FixedAttribute detail;
     for(int i=0;i<other.numFixedAttributes();++i) {
@@ -101,13 +116,13 @@ cloneSchema(const ParticlesData& other, const std::map<std::string, std::string>
         p->addAttribute(getMappedName(attr.name, attrNameMap).c_str(), attr.type, attr.count);
     }
 
-    return p;
+    return p.release();
 }
 
 ParticlesDataMutable*
 clone(const ParticlesData& other, bool particles, const std::map<std::string, std::string>* attrNameMap)
 {
-    ParticlesDataMutable* p = create();
+    ParticlesPtr p(create());
     // Fixed attributes
     FixedAttribute srcFixedAttr, dstFixedAttr;
     for (int i(0), iend(other.numFixedAttributes()); i < iend; ++i) {
@@ -118,10 +133,11 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
         assert(srcFixedAttr.type == dstFixedAttr.type);
         assert(srcFixedAttr.count == dstFixedAttr.count);
         // Register indexed strings
+        std::vector<int> tokens;
         if (srcFixedAttr.type == Partio::INDEXEDSTR) {
             const std::vector<std::string>& values = other.fixedIndexedStrs(srcFixedAttr);
             for (int j = 0, jend = values.size(); j < jend; ++j) {
-                p->registerFixedIndexedStr(dstFixedAttr, values[j].c_str());
+                tokens.push_back(p->registerFixedIndexedStr(dstFixedAttr, values[j].c_str()));
             }
         }
         // Copy fixed data
@@ -129,9 +145,10 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
         void* dst = p->fixedDataWrite<void>(dstFixedAttr);
         size_t size = Partio::TypeSize(dstFixedAttr.type) * dstFixedAttr.count;
         std::memcpy(dst, src, size);
+        if (srcFixedAttr.type == Partio::INDEXEDSTR) mapTokens((int*)dst, dstFixedAttr.count, tokens);
     }
     if (!particles) {
-        return p;
+        return p.release();
     }
     // Particle data
     Partio::ParticleAttribute srcAttr, dstAttr;
@@ -146,10 +163,11 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
         other.attributeInfo(i, srcAttr);
         dstAttr = p->addAttribute(getMappedName(srcAttr.name, attrNameMap).c_str(), srcAttr.type, srcAttr.count);
         // Register indexed strings
+        std::vector<int> tokens;
         if (srcAttr.type == Partio::INDEXEDSTR) {
             const std::vector<std::string>& values = other.indexedStrs(srcAttr);
             for (int m = 0, mend = values.size(); m < mend; ++m) {
-                p->registerIndexedStr(dstAttr, values[m].c_str());
+                tokens.push_back(p->registerIndexedStr(dstAttr, values[m].c_str()));
             }
         }
         size_t size = Partio::TypeSize(srcAttr.type) * srcAttr.count;
@@ -158,10 +176,11 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
             const void *src = other.data<void>(srcAttr, j);
             void *dst = p->dataWrite<void>(dstAttr, j);
             std::memcpy(dst, src, size);
+            if (srcAttr.type == Partio::INDEXEDSTR) mapTokens((int*)dst, dstAttr.count, tokens);
         }
     }
 
-    return p;
+    return p.release();
 }
 
 
@@ -342,7 +361,7 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
     bool hasPosAttr = false;
     ParticleAttribute idAttr;
     bool hasIdAttr = false;
-    ParticlesDataMutable* cluster = create();
+    ParticlesPtr cluster(create());
     std::vector<ParticleAttribute> attributes;
     std::vector<ParticleAttribute> clusterAttributes;
     for (int i=0; i<particles->numAttributes(); i++) {
@@ -367,11 +386,9 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
         }
     }
     if (!hasPosAttr || (posAttr.type != VECTOR && posAttr.type != FLOAT) || posAttr.count !=3) {
-        cluster->release();
         return 0;
     }
     if (!hasIdAttr || idAttr.type != INT || idAttr.count != 1) {
-        cluster->release();
         return 0;
     }
     particles->sort();
@@ -403,7 +420,7 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
         int clusterId = 0;
         cluster->dataWrite<int>(clusterIdAttr,originalPoint.back().first)[0] = clusterId++;
         for (size_t j = 0; j < attributes.size(); j++) {
-            addClusterAttribute(cluster, clusterAttributes[j], particles, index, attributes[j], 0, originalPoint);
+            addClusterAttribute(cluster.get(), clusterAttributes[j], particles, index, attributes[j], 0, originalPoint);
         }
 
         double hashArgs[3];
@@ -431,11 +448,11 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
                 cluster->dataWrite<int>(clusterIdAttr,indexAndInterp.back().first)[0] = clusterId++;
             }
             for (size_t j = 0; j < attributes.size(); j++) {
-                addClusterAttribute(cluster, clusterAttributes[j], particles, index, attributes[j], idAndIndex[i]._index, indexAndInterp);
+                addClusterAttribute(cluster.get(), clusterAttributes[j], particles, index, attributes[j], idAndIndex[i]._index, indexAndInterp);
             }
         }
     }
-    return cluster;;
+    return cluster.release();
 }
 
 template<typename T>
-- 
2.43.0


From 0ee23eede4b2c45f2572c9a692dd1ef4b475f765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:38 +0000
Subject: [PATCH 27/57] fix: merge: strings of new attributes and fixed
 attributes, attributes of different sizes, values one side lacks

---
 src/lib/core/Particle.cpp | 62 ++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 5e41bca..8f9f3a2 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -477,6 +477,29 @@ struct IntPairHash {
     }
 };
 
+// Whether the values of one attribute can be copied to the other
+template<typename T>
+bool canCopy(const AttributePair<T>& attr)
+{
+    if (attr.base.type == attr.delta.type) return true;
+    return (attr.base.type == FLOAT || attr.base.type == VECTOR) && (attr.delta.type == FLOAT || attr.delta.type == VECTOR);
+}
+
+// Takes over as many values of a fixed attribute as both sides have
+void mergeFixed(ParticlesDataMutable& base, const ParticlesData& delta, const AttributePair<FixedAttribute>& attr)
+{
+    const int count = std::min(attr.base.count, attr.delta.count);
+    std::vector<int> tokens;
+    if (attr.base.type == INDEXEDSTR) {
+        for (const std::string& str : delta.fixedIndexedStrs(attr.delta)) {
+            tokens.push_back(base.registerFixedIndexedStr(attr.base, str.c_str()));
+        }
+    }
+    void* dst = base.fixedDataWrite<void>(attr.base);
+    std::memcpy(dst, delta.fixedData<void>(attr.delta), TypeSize(attr.base.type) * count);
+    if (attr.base.type == INDEXEDSTR) mapTokens((int*)dst, count, tokens);
+}
+
 // merge two particle sets.  if no identifiers are specified, the particle sets will be aggregated together.
 // if one or more identifiers are specified, the particle will be overwritten if the identifier(s) match.
 // if the identifier only exists in one particle set, the particle sets will be aggregated together.
@@ -514,26 +537,30 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         ParticleAttribute baseAttr, deltaAttr;
         base.attributeInfo(i, baseAttr);
         if (delta.attributeInfo(baseAttr.name.c_str(), deltaAttr)) {
+            AttributePair<ParticleAttribute> attr{baseAttr, deltaAttr};
+            if (!canCopy(attr)) continue;
             if (baseAttr.type == INDEXEDSTR) {
                 indexStrAttrs.push_back(attrs.size());
             }
-            attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
+            attrs.emplace_back(std::move(attr));
         }
     }
 
     // Identify the attributes to be added (in delta, not present in base)
-    double empty[16]{0};
     for (int i=0; i<delta.numAttributes(); ++i) {
         ParticleAttribute baseAttr, deltaAttr;
         delta.attributeInfo(i, deltaAttr);
         if (!base.attributeInfo(deltaAttr.name.c_str(), baseAttr)) {
             baseAttr = base.addAttribute(deltaAttr.name.c_str(), deltaAttr.type, deltaAttr.count);
-            attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
-
             // Set the attribute to a default value in the base particle set
+            const size_t size = Partio::TypeSize(baseAttr.type) * baseAttr.count;
             for (int p=0; p<base.numParticles(); ++p) {
-                base.set(baseAttr, p, empty);
+                std::memset(base.dataWrite<void>(baseAttr, p), 0, size);
+            }
+            if (baseAttr.type == INDEXEDSTR) {
+                indexStrAttrs.push_back(attrs.size());
             }
+            attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
         }
     }
 
@@ -542,8 +569,8 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         FixedAttribute baseAttr, deltaAttr;
         base.fixedAttributeInfo(i, baseAttr);
         if (delta.fixedAttributeInfo(baseAttr.name.c_str(), deltaAttr)) {
-            const void *src = delta.fixedData<void>(deltaAttr);
-            base.setFixed(baseAttr, src);
+            const AttributePair<FixedAttribute> attr{baseAttr, deltaAttr};
+            if (canCopy(attr)) mergeFixed(base, delta, attr);
         }
     }
 
@@ -553,8 +580,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         delta.fixedAttributeInfo(i, deltaAttr);
         if (!base.fixedAttributeInfo(deltaAttr.name.c_str(), baseAttr)) {
             baseAttr = base.addFixedAttribute(deltaAttr.name.c_str(), deltaAttr.type, deltaAttr.count);
-            const void *src = delta.fixedData<void>(deltaAttr);
-            base.setFixed(baseAttr, src);
+            mergeFixed(base, delta, AttributePair<FixedAttribute>{baseAttr, deltaAttr});
         }
     }
 
@@ -595,7 +621,9 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     bool hasIdentifier = (baseHasIdentifier0 && deltaHasIdentifier0) || (baseHasIdentifier1 && deltaHasIdentifier1);
     // just append if there are mismatched attributes
     hasIdentifier = hasIdentifier && !((baseHasIdentifier0 ^ deltaHasIdentifier0) || (baseHasIdentifier1 ^ deltaHasIdentifier1));
-    for (int i=0; i<delta.numParticles(); ++i) {
+    const std::vector<ParticleAttribute> baseAttrs = getAttrs(base);
+    const int numDelta = delta.numParticles();
+    for (int i=0; i<numDelta; ++i) {
 
         // Grab index into base particle set - either existing or new
         int index(-1);
@@ -609,19 +637,25 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         }
         if (index == -1) {
             index = base.addParticle();
+            for (const ParticleAttribute& attr : baseAttrs) {
+                std::memset(base.dataWrite<void>(attr, index), 0, Partio::TypeSize(attr.type) * attr.count);
+            }
         }
 
         // Copy the attributes to the new/overridden particle
         for (const AttributePair<ParticleAttribute>& attr : attrs) {
-            size_t size = Partio::TypeSize(attr.base.type) * attr.base.count;
+            const int count = std::min(attr.base.count, attr.delta.count);
+            size_t size = Partio::TypeSize(attr.base.type) * count;
             void *dst = base.dataWrite<void>(attr.base, index);
             const void* src;
             std::unique_ptr<int[]> newIndices;
             if (attr.base.type == INDEXEDSTR) {
-                newIndices.reset(new int[attr.base.count]);
+                newIndices.reset(new int[count]);
+                const std::unordered_map<int, int>& toBase = stringToString[attr.base.name];
                 const int* indices = delta.data<int>(attr.delta, i);
-                for (int j=0; j<attr.delta.count; ++j) {
-                    newIndices.get()[j] = stringToString[attr.base.name][indices[j]];
+                for (int j=0; j<count; ++j) {
+                    auto it = toBase.find(indices[j]);
+                    newIndices.get()[j] = it == toBase.end() ? indices[j] : it->second;
                 }
                 src = (void*)(newIndices.get());
             }
-- 
2.43.0


From a4e6987ec6afecff1f6ba8ebad3bd36ded0ee4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:12 +0000
Subject: [PATCH 28/57] fix: a file that could not be completed is left empty,
 not with parts out of place

---
 src/lib/io/ZIP.cpp | 6 +++---
 src/lib/io/io.h    | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index a295267..62a98fb 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -385,9 +385,9 @@ public:
             header->Write(ostream,false);
             ostream.seekp(final_position);}
         else{
-            Write_Primitive(ostream,crc);Write_Primitive(ostream,uncompressed_size);
-            if(std::ofstream* file=dynamic_cast<std::ofstream*>(&ostream)) file->close();}
-        if(!ostream) valid=false;}
+            Write_Primitive(ostream,crc);Write_Primitive(ostream,uncompressed_size);}}
+    if(!header) if(std::ofstream* file=dynamic_cast<std::ofstream*>(&ostream)) file->close();
+    if(!ostream) valid=false;
     return valid;}
 
     virtual ~ZipStreambufCompress()
diff --git a/src/lib/io/io.h b/src/lib/io/io.h
index 455953b..02ec34c 100644
--- a/src/lib/io/io.h
+++ b/src/lib/io/io.h
@@ -110,6 +110,8 @@ inline bool finish(std::ostream& output, const char* filename, std::ostream* err
     if (std::ofstream* file = dynamic_cast<std::ofstream*>(&output)) file->close();
     else Gzip_Finish(output);
     if (output) return true;
+    // what closing a failed file still wrote may be out of place, so leave nothing
+    std::ofstream(filename, std::ios::out | std::ios::binary | std::ios::trunc);
     if (errorStream) *errorStream << "Partio: Unable to write file " << filename << std::endl;
     return false;
 }
-- 
2.43.0


From 1b6d1edf7239b00ddacee19b1795e95a9c0233fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:14 +0000
Subject: [PATCH 29/57] fix: command line tools report failures

---
 src/lib/Partio.h          |  2 +-
 src/lib/io/ParticleIO.cpp |  8 ++++----
 src/tools/partattr.cpp    | 19 ++++++++++++++++---
 src/tools/partconvert.cpp | 19 ++++++++++++-------
 src/tools/partinfo.cpp    | 10 ++++++++++
 5 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/src/lib/Partio.h b/src/lib/Partio.h
index aafe020..941ace1 100644
--- a/src/lib/Partio.h
+++ b/src/lib/Partio.h
@@ -301,7 +301,7 @@ ParticlesInfo* readHeaders(const char* filename,const bool verbose=true,std::ost
 
 //! Provides access to a particle set stored in a file
 //! if filename ends with .gz or forceCompressed is true, the file is compressed.
-void write(const char* filename,const ParticlesData&,const bool forceCompressed=false,bool verbose=true,std::ostream& errorStream=std::cerr);
+bool write(const char* filename,const ParticlesData&,const bool forceCompressed=false,bool verbose=true,std::ostream& errorStream=std::cerr);
 
 //! Cached (only one copy) read only way to read a particle file
 /*!
diff --git a/src/lib/io/ParticleIO.cpp b/src/lib/io/ParticleIO.cpp
index 05687ea..fe9f175 100644
--- a/src/lib/io/ParticleIO.cpp
+++ b/src/lib/io/ParticleIO.cpp
@@ -161,19 +161,19 @@ readHeaders(const char* c_filename,bool verbose,std::ostream& errorStream)
     return (*i->second)(c_filename,true,verbose ? &errorStream : 0);
 }
 
-void
+bool
 write(const char* c_filename,const ParticlesData& particles,const bool forceCompressed,bool verbose,std::ostream& errorStream)
 {
     string filename(c_filename);
     string extension;
     bool endsWithGz;
-    if(!extensionIgnoringGz(filename,extension,endsWithGz,errorStream)) return;
+    if(!extensionIgnoringGz(filename,extension,endsWithGz,errorStream)) return false;
     map<string,WRITER_FUNCTION>::iterator i=writers().find(extension);
     if(i==writers().end()){
         errorStream<<"Partio: No writer defined for extension "<<extension<<endl;
-        return;
+        return false;
     }
-    (*i->second)(c_filename,particles,forceCompressed || endsWithGz,verbose ? &errorStream : 0);
+    return (*i->second)(c_filename,particles,forceCompressed || endsWithGz,verbose ? &errorStream : 0);
 }
 
 } // namespace Partio
diff --git a/src/tools/partattr.cpp b/src/tools/partattr.cpp
index b8997f6..b3f82e2 100644
--- a/src/tools/partattr.cpp
+++ b/src/tools/partattr.cpp
@@ -42,6 +42,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 #define MAXPARTICLES 10
 
 int main(int argc,char *argv[])
+try
 {
     if (argc != 3 && argc != 4){
         std::cerr<<"Usage is: "<<argv[0]<<" <filename> <attrname> [numParticles (default " << MAXPARTICLES << ")\n";
@@ -56,8 +57,13 @@ int main(int argc,char *argv[])
     }
 
     Partio::ParticleAttribute attrhandle;
-    p->attributeInfo(attrName.c_str(), attrhandle);
+    if (!p->attributeInfo(attrName.c_str(), attrhandle)) {
+        std::cerr << "No attribute " << attrName << " in " << argv[1] << std::endl;
+        p->release();
+        return 1;
+    }
     maxParticles = std::min(maxParticles, p->numParticles());
+    if (attrhandle.count < 1) maxParticles = 0;
 
     if (attrhandle.type == Partio::INT) {
         for(int i = 0; i < maxParticles; i++){
@@ -69,7 +75,9 @@ int main(int argc,char *argv[])
         const std::vector<std::string>& indexedStrs = p->indexedStrs(attrhandle);
         for(int i = 0; i < std::min(maxParticles, p->numParticles());i++){
             const int index = p->data<int>(attrhandle,i)[0];
-            std::cout << attrName << "[" << i << "]='" << indexedStrs[index]<<"'\n";
+            std::cout << attrName << "[" << i << "]=";
+            if (index >= 0 && index < (int)indexedStrs.size()) std::cout << "'" << indexedStrs[index]<<"'\n";
+            else std::cout << "<out-of-bounds>\n";
        }
     }
     else {
@@ -87,4 +95,9 @@ int main(int argc,char *argv[])
     p->release();
 
     return 0;
-}
\ No newline at end of file
+}
+catch (const std::exception& e)
+{
+    std::cerr << argv[0] << ": " << e.what() << std::endl;
+    return 1;
+}
diff --git a/src/tools/partconvert.cpp b/src/tools/partconvert.cpp
index 6bf50a3..4a8e629 100644
--- a/src/tools/partconvert.cpp
+++ b/src/tools/partconvert.cpp
@@ -36,17 +36,22 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 #include <iostream>
 
 int main(int argc,char *argv[])
+try
 {
     if(argc!=3){
         std::cerr<<"Usage is: "<<argv[0]<<" <filename in> <filename out>"<<std::endl;
         return 1;
     }
     Partio::ParticlesData* p=Partio::read(argv[1]);
-    if(p){
-        Partio::print(p);
-        Partio::write(argv[2],*p);
-        p->release();
-    }
-    
-    return 0;
+    if(!p) return 1;
+    Partio::print(p);
+    bool written=Partio::write(argv[2],*p);
+    p->release();
+
+    return written ? 0 : 1;
+}
+catch(const std::exception& e)
+{
+    std::cerr<<argv[0]<<": "<<e.what()<<std::endl;
+    return 1;
 }
diff --git a/src/tools/partinfo.cpp b/src/tools/partinfo.cpp
index ee667c1..bf523f7 100644
--- a/src/tools/partinfo.cpp
+++ b/src/tools/partinfo.cpp
@@ -86,6 +86,7 @@ void printParticle(int particleIndex, Partio::ParticlesDataMutable* p, size_t wi
 #define FLAG(shortFlag, longFlag) strcmp(argv[i], shortFlag) == 0 || strcmp(argv[i], longFlag) == 0
 
 int main(int argc, char* argv[])
+try
 {
     const char* filename(nullptr);
     std::set<int> particleIndices;
@@ -111,6 +112,10 @@ int main(int argc, char* argv[])
             particleIndices.insert(atoi(argv[i]));
         }
     }
+    if (!filename) {
+        help();
+        return 1;
+    }
     Partio::ParticlesDataMutable* p = Partio::read(filename);
     if (!p) {
         std::cerr << "Unable to read \"" << filename << "\"\n";
@@ -209,3 +214,8 @@ int main(int argc, char* argv[])
     p->release();
     return 0;
 }
+catch (const std::exception& e)
+{
+    std::cerr << argv[0] << ": " << e.what() << std::endl;
+    return 1;
+}
-- 
2.43.0


From 4a79ded949665eb76efab76a49741d03635fc2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:01 +0000
Subject: [PATCH 30/57] fix: iterators: postfix increment reaches the end,
 adding no particles gives no particle to visit

---
 src/lib/PartioIterator.h                  | 2 +-
 src/lib/core/ParticleSimple.cpp           | 4 ++--
 src/lib/core/ParticleSimpleInterleave.cpp | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/PartioIterator.h b/src/lib/PartioIterator.h
index e0ce86c..1d73735 100644
--- a/src/lib/PartioIterator.h
+++ b/src/lib/PartioIterator.h
@@ -179,7 +179,7 @@ public:
     ParticleIterator operator++(int)
     {
         ParticleIterator newIt(*this);
-        index++;
+        ++*this;
         return newIt;
     }
 
diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index 3fd154d..440bb40 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -324,14 +324,14 @@ addParticles(const int countToAdd)
 ParticlesDataMutable::iterator ParticlesSimple::
 setupIterator(const int index)
 {
-    if(numParticles()==0) return ParticlesDataMutable::iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::iterator();
     return ParticlesDataMutable::iterator(this,index,numParticles()-1);
 }
 
 ParticlesData::const_iterator ParticlesSimple::
 setupConstIterator(const int index) const
 {
-    if(numParticles()==0) return ParticlesDataMutable::const_iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::const_iterator();
     return ParticlesData::const_iterator(this,index,numParticles()-1);
 }
 
diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index ac443c5..75a9259 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -323,14 +323,14 @@ addParticles(const int countToAdd)
 ParticlesDataMutable::iterator ParticlesSimpleInterleave::
 setupIterator(const int index)
 {
-    if(numParticles()==0) return ParticlesDataMutable::iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::iterator();
     return ParticlesDataMutable::iterator(this,index,numParticles()-1);
 }
 
 ParticlesData::const_iterator ParticlesSimpleInterleave::
 setupConstIterator(const int index) const
 {
-    if(numParticles()==0) return ParticlesDataMutable::const_iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::const_iterator();
     return ParticlesData::const_iterator(this,index,numParticles()-1);
 }
 
-- 
2.43.0


From 6b09d3967263d8fc7563bec5261b6a97a1437c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:39 +0000
Subject: [PATCH 31/57] fix: sort releases the tree when there is no memory for
 it

---
 src/lib/core/ParticleSimple.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index 440bb40..fa98bfa 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -43,6 +43,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 #include <algorithm>
 #include <cassert>
 #include <iostream>
+#include <memory>
 #include <new>
 
 #include "KdTree.h"
@@ -151,14 +152,14 @@ sort()
 
     const ParticleIndex baseParticleIndex=0;
     const float* data=this->data<float>(attr,baseParticleIndex); // contiguous assumption used here
-    KdTree<3>* kdtree_temp=new KdTree<3>();
+    std::unique_ptr<KdTree<3> > kdtree_temp(new KdTree<3>());
     kdtree_temp->setPoints(data,numParticles());
     kdtree_temp->sort();
 
     kdtree_mutex.lock();
     // TODO: this is not threadsafe!
     if(kdtree) delete kdtree;
-    kdtree=kdtree_temp;
+    kdtree=kdtree_temp.release();
     kdtree_mutex.unlock();
 }
 
-- 
2.43.0


From ddd38f87caef0d4d48df741295494d194e2d2c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:56 +0000
Subject: [PATCH 32/57] fix: writers do not reach past an attribute of another
 shape

A set read from one format can hold a position, normal or vector attribute
with fewer components than another format's writer expects. Converting it
read past the values (pdc, bin, ptc, geo) or wrote past a buffer (bgeo).
---
 src/lib/io/BGEO.cpp | 2 +-
 src/lib/io/BIN.cpp  | 9 +++++++++
 src/lib/io/GEO.cpp  | 2 +-
 src/lib/io/PDC.cpp  | 2 +-
 src/lib/io/PTC.cpp  | 6 +++---
 5 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index 3898764..c921ac4 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -347,7 +347,7 @@ bool writeBGEO(const char* filename,const ParticlesData& p,const bool compressed
     for(int i=0;i<p.numAttributes();i++){
         ParticleAttribute attr;
         p.attributeInfo(i,attr);
-        if(attr.name=="position"){
+        if(attr.name=="position" && attr.count==3){
             attrOffsets.push_back(0);
             foundPosition=true;
         }else{
diff --git a/src/lib/io/BIN.cpp b/src/lib/io/BIN.cpp
index 7990945..d76afb7 100644
--- a/src/lib/io/BIN.cpp
+++ b/src/lib/io/BIN.cpp
@@ -375,6 +375,15 @@ bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compresse
             ParticleAttribute attr;
             p.attributeInfo(attrIndex,attr);
 
+            // an attribute of another shape cannot be taken over
+            bool isVector = attr.name == "position" || attr.name == "velocity" || attr.name == "force" ||
+                attr.name == "vorticity" || attr.name == "normal" || attr.name == "uvw";
+            if (attr.count < (isVector ? 3 : 1))
+            {
+                if(errorStream && particles == 0) *errorStream << "Partio: attribute '" << attr.name << "' is not supported in BIN" << endl;
+                continue;
+            }
+
             //cout << attr.name << endl;
             if (attr.name ==  "position")
             {
diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 548e07a..aa0ae1d 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -265,7 +265,7 @@ bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,
     for(int i=0;i<p.numAttributes();i++){
         ParticleAttribute attrib;
         p.attributeInfo(i,attrib);
-        if(attrib.name=="position"){
+        if(attrib.name=="position" && attrib.count==3){
             positionHandle=attrib;
             positionAccessor=ParticleAccessor(positionHandle);
             foundPosition=true;
diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index d7dbeea..1d8e777 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -173,7 +173,7 @@ bool writePDC(const char* filename,const ParticlesData& p,const bool compressed,
         for(int partIndex = 0; partIndex < p.numParticles(); partIndex++){
             const float* data = p.data<float>(attr, partIndex);
             for(int dim = 0; dim < count; dim++){
-                write<BIGEND>(*output, (double)data[dim]);
+                write<BIGEND>(*output, dim < attr.count ? (double)data[dim] : 0.0);
             }
         }
     }
diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index b586adc..d4328e7 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -250,9 +250,9 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
     write<LITEND>(*output,numParticlesAsDouble);
 
     ParticleAttribute positionHandle,normalHandle,radiusHandle;
-    bool foundPosition=p.attributeInfo("position",positionHandle);
-    bool foundNormal=p.attributeInfo("normal",normalHandle);
-    bool foundRadius=p.attributeInfo("radius",radiusHandle);
+    bool foundPosition=p.attributeInfo("position",positionHandle) && positionHandle.count==3;
+    bool foundNormal=p.attributeInfo("normal",normalHandle) && normalHandle.count==3;
+    bool foundRadius=p.attributeInfo("radius",radiusHandle) && radiusHandle.count==1;
 
     if(!foundPosition){
         if(errorStream) *errorStream <<"Partio: failed to find attr 'position' for PTC output"<<endl;
-- 
2.43.0


From bd7367a8f8c82324796d280ada3a118b1076ca6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:17 +0000
Subject: [PATCH 33/57] fix: running out of memory while parsing pts and ptc
 text does not read as other data

---
 src/lib/io/PTC.cpp | 1 +
 src/lib/io/PTS.cpp | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index d4328e7..6932b11 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -173,6 +173,7 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
         ParticleAttribute info;
         while(simple->attributeInfo(effectiveName.c_str(),info)){
             ostringstream ss;
+            ss.exceptions(ios::badbit);
             ss<<name<<unique++;
             effectiveName=ss.str();
         }
diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index e17149d..e61c9e5 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -82,6 +82,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
     int valcount = 0;
     {
         istringstream ss(line);
+        ss.exceptions(ios::badbit);
         ss.imbue(locale::classic());
         string token;
         while (ss >> token) valcount++;
@@ -153,6 +154,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
     do
     {
         istringstream ss(line);
+        ss.exceptions(ios::badbit);
         ss.imbue(locale::classic());
 
         string token;
@@ -162,6 +164,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
         while (ss >> token)
         {
             istringstream foo(token);
+            foo.exceptions(ios::badbit);
             foo.imbue(locale::classic());
             float x = 0;
             foo >> x;
-- 
2.43.0


From 444ea27a508b6fcc11c9c48cc6569036718b1b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:11 +0000
Subject: [PATCH 34/57] fix: accept None, bytes and plain calls for the
 attrNameMap of the Python clone functions

---
 src/py/partio.i | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 0835111..2263124 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -67,6 +67,20 @@ struct fixedFloatArray
     };
 };
 
+// The text of a key or value of an attrNameMap. Returns false with an exception set if it has none
+static bool attrNameMapString(PyObject* object, std::string& text)
+{
+    if (PyBytes_Check(object)) {
+        text = PyBytes_AsString(object);
+    } else if (PyUnicode_Check(object)) {
+        PyObject* bytes = PyUnicode_AsUTF8String(object);
+        if (!bytes) return false;
+        text = PyBytes_AsString(bytes);
+        Py_DECREF(bytes);
+    }
+    return true;
+}
+
 %}
 
 // Particle Types
@@ -604,6 +618,11 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
  */
 %template() std::map<std::string, std::string>;
 
+/* None or a dictionary may be given as an attrNameMap. */
+%typemap(typecheck,precedence=SWIG_TYPECHECK_MAP) const std::map<std::string, std::string> * attrNameMap {
+    $1 = PyDict_Check($input) || $input == Py_None;
+}
+
 /* typemap to convert Python arguments into an attrNameMap std::map pointer. */
 %typemap(in) const std::map<std::string, std::string> * attrNameMap (std::map<std::string, std::string> temp) {
     PyObject *key = nullptr;
@@ -613,17 +632,13 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     if (PyDict_Check($input)) {
         while (PyDict_Next($input, &pos, &key, &value)) {
             std::string key_str;
-            if (PyBytes_Check(key))
-                key_str = PyBytes_AsString(key);
-            else if (PyUnicode_Check(key))
-                key_str = PyBytes_AsString(PyUnicode_AsUTF8String(key));
+            if (!attrNameMapString(key, key_str))
+                SWIG_fail;
             if (key_str.empty())
                 continue;
             std::string value_str;
-            if (PyBytes_Check(value))
-                key_str = PyBytes_AsString(value);
-            else if (PyUnicode_Check(value))
-                value_str = PyBytes_AsString(PyUnicode_AsUTF8String(value));
+            if (!attrNameMapString(value, value_str))
+                SWIG_fail;
             temp[std::move(key_str)] = std::move(value_str);
         }
         $1 = &temp;
-- 
2.43.0


From aef3eda78d77fb363622099c27ae6e3b3879b47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:11 +0000
Subject: [PATCH 35/57] fix: check the length of points given from Python and
 raise ValueError

---
 src/py/partio.i | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 2263124..ec51b66 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -139,9 +139,15 @@ public:
         return NULL;
     }
     int size=PyObject_Length($input);
+    if(size<0) return NULL;
+    if(size>(int)(sizeof($1.f)/sizeof($1.f[0]))){
+        PyErr_SetString(PyExc_ValueError,"Sequence is too long");
+        return NULL;
+    }
     $1.count=size;
     for(i=0;i<size;i++){
         PyObject* o=PySequence_GetItem($input,i);
+        if(!o) return NULL;
         if(!PyFloat_Check(o)){
             Py_XDECREF(o);
             PyErr_SetString(PyExc_ValueError,"Expecting a sequence of floats");
@@ -267,7 +273,7 @@ public:
     {
         // make sure we are close
         if(center.count!=3){
-            fprintf(stderr,"Need center to be a 3 tuple of floats\n");
+            PyErr_SetString(PyExc_ValueError,"Need center to be a 3 tuple of floats");
             return NULL;
         }
         // find nearest neighbors
@@ -291,7 +297,7 @@ public:
     {    
         // make sure we are close
         if(bboxMin.count!=3 || bboxMax.count!=3){
-            fprintf(stderr,"Need bboxMin and bboxMax to be a 3 tuple of floats\n");
+            PyErr_SetString(PyExc_ValueError,"Need bboxMin and bboxMax to be a 3 tuple of floats");
             return NULL;
         }
         // find nearest neighbors
-- 
2.43.0


From 61b95180bd9b0e5eaf0859c080e3eb656709bde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:11 +0000
Subject: [PATCH 36/57] fix: check particle indices and values given from
 Python before changing anything

---
 src/py/partio.i | 85 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 30 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index ec51b66..edfbc76 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -48,7 +48,9 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 #include <Partio.h>
 #include <PartioIterator.h>
 #include <PartioAttribute.h>
+#include <algorithm>
 #include <sstream>
+#include <vector>
 namespace Partio{
 typedef uint64_t ParticleIndex;
 }
@@ -124,6 +126,7 @@ public:
 
 %typemap(in) uint64_t {
 	$1 = (uint64_t) PyLong_AsLong($input);
+	if(PyErr_Occurred()) SWIG_fail;
 }
 %typemap(out) uint64_t {
 	$result = PyLong_FromLong(
@@ -316,6 +319,10 @@ public:
     %feature("docstring","Gets attribute data for particleIndex'th particle");
     PyObject* get(const ParticleAttribute& attr,const ParticleIndex particleIndex)
     {
+        if(particleIndex>=(ParticleIndex)$self->numParticles()){
+            PyErr_SetString(PyExc_IndexError,"Invalid particle index");
+            return NULL;
+        }
         PyObject* tuple=PyTuple_New(attr.count);
         if(attr.type==Partio::INT || attr.type==Partio::INDEXEDSTR){
             const int* p=$self->data<int>(attr,particleIndex);
@@ -383,44 +390,54 @@ public:
             return NULL;
         }
         int size=PyObject_Length(tuple);
+        if(size<0) return NULL;
         if(size!=attr.count){
             PyErr_SetString(PyExc_ValueError,"Invalid number of parameters");
             return NULL;
         }
+        if(particleIndex>=(uint64_t)$self->numParticles()){
+            PyErr_SetString(PyExc_IndexError,"Invalid particle index");
+            return NULL;
+        }
         
+        // nothing is changed unless every value is usable
         if(attr.type==Partio::INT || attr.type==Partio::INDEXEDSTR){
-            int* p=$self->dataWrite<int>(attr,particleIndex);
-            if (p) {
-                for(int i=0;i<size;i++){
-                    PyObject* o=PySequence_GetItem(tuple,i);
-                    if(PyInt_Check(o)){
-                        p[i]=PyInt_AsLong(o);
-                    }else{
-                        Py_XDECREF(o);
-                        PyErr_SetString(PyExc_ValueError,"Expecting a sequence of ints");
-                        return NULL;
-                    }
+            std::vector<int> values(size);
+            for(int i=0;i<size;i++){
+                PyObject* o=PySequence_GetItem(tuple,i);
+                if(!o) return NULL;
+                if(PyInt_Check(o)){
+                    values[i]=PyInt_AsLong(o);
+                }else{
                     Py_XDECREF(o);
+                    PyErr_SetString(PyExc_ValueError,"Expecting a sequence of ints");
+                    return NULL;
                 }
+                Py_XDECREF(o);
+                if(PyErr_Occurred()) return NULL;
             }
+            int* p=$self->dataWrite<int>(attr,particleIndex);
+            if (p) std::copy(values.begin(),values.end(),p);
         }else if(attr.type==Partio::FLOAT || attr.type==Partio::VECTOR){
-            float* p=$self->dataWrite<float>(attr,particleIndex);
-            if (p) {
-                for(int i=0;i<size;i++){
-                    PyObject* o=PySequence_GetItem(tuple,i);
-                    //fprintf(stderr,"checking %d\n",i);
-                    if(PyFloat_Check(o)){
-                        p[i]=PyFloat_AsDouble(o);
-                    }else if(PyInt_Check(o)){
-                        p[i]=(float)PyInt_AsLong(o);
-                    }else{
-                        Py_XDECREF(o);
-                        PyErr_SetString(PyExc_ValueError,"Expecting a sequence of floats or ints");
-                        return NULL;
-                    }
+            std::vector<float> values(size);
+            for(int i=0;i<size;i++){
+                PyObject* o=PySequence_GetItem(tuple,i);
+                if(!o) return NULL;
+                //fprintf(stderr,"checking %d\n",i);
+                if(PyFloat_Check(o)){
+                    values[i]=PyFloat_AsDouble(o);
+                }else if(PyInt_Check(o)){
+                    values[i]=(float)PyInt_AsLong(o);
+                }else{
                     Py_XDECREF(o);
+                    PyErr_SetString(PyExc_ValueError,"Expecting a sequence of floats or ints");
+                    return NULL;
                 }
+                Py_XDECREF(o);
+                if(PyErr_Occurred()) return NULL;
             }
+            float* p=$self->dataWrite<float>(attr,particleIndex);
+            if (p) std::copy(values.begin(),values.end(),p);
         }else{
             PyErr_SetString(PyExc_ValueError,"Internal error: invalid attribute type");
             return NULL;
@@ -440,40 +457,48 @@ public:
             return NULL;
         }
         int size=PyObject_Length(tuple);
+        if(size<0) return NULL;
         if(size!=attr.count){
             PyErr_SetString(PyExc_ValueError,"Invalid number of parameters");
             return NULL;
         }
 
+        // nothing is changed unless every value is usable
         if(attr.type==Partio::INT || attr.type==Partio::INDEXEDSTR){
-            int* p=$self->fixedDataWrite<int>(attr);
+            std::vector<int> values(size);
             for(int i=0;i<size;i++){
                 PyObject* o=PySequence_GetItem(tuple,i);
+                if(!o) return NULL;
                 if(PyInt_Check(o)){
-                    p[i]=PyInt_AsLong(o);
+                    values[i]=PyInt_AsLong(o);
                 }else{
                     Py_XDECREF(o);
                     PyErr_SetString(PyExc_ValueError,"Expecting a sequence of ints");
                     return NULL;
                 }
                 Py_XDECREF(o);
+                if(PyErr_Occurred()) return NULL;
             }
+            std::copy(values.begin(),values.end(),$self->fixedDataWrite<int>(attr));
         }else if(attr.type==Partio::FLOAT || attr.type==Partio::VECTOR){
-            float* p=$self->fixedDataWrite<float>(attr);
+            std::vector<float> values(size);
             for(int i=0;i<size;i++){
                 PyObject* o=PySequence_GetItem(tuple,i);
+                if(!o) return NULL;
                 //fprintf(stderr,"checking %d\n",i);
                 if(PyFloat_Check(o)){
-                    p[i]=PyFloat_AsDouble(o);
+                    values[i]=PyFloat_AsDouble(o);
                 }else if(PyInt_Check(o)){
-                    p[i]=(float)PyInt_AsLong(o);
+                    values[i]=(float)PyInt_AsLong(o);
                 }else{
                     Py_XDECREF(o);
                     PyErr_SetString(PyExc_ValueError,"Expecting a sequence of floats or ints");
                     return NULL;
                 }
                 Py_XDECREF(o);
+                if(PyErr_Occurred()) return NULL;
             }
+            std::copy(values.begin(),values.end(),$self->fixedDataWrite<float>(attr));
         }else{
             PyErr_SetString(PyExc_ValueError,"Internal error: invalid attribute type");
             return NULL;
-- 
2.43.0


From dba8a4470550350ae097e385386e825ac59319be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:11 +0000
Subject: [PATCH 37/57] fix: hand strings that are not UTF-8 to Python, and
 headers as ParticlesInfo

---
 src/py/partio.i | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index edfbc76..0ec4486 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -363,7 +363,7 @@ public:
     {
         const std::vector<std::string>& indexes=self->indexedStrs(attr);
         PyObject* list=PyList_New(indexes.size());
-        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,PyString_FromString(indexes[k].c_str()));
+        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,SWIG_FromCharPtrAndSize(indexes[k].data(),indexes[k].size()));
         return list;
     }
 
@@ -373,7 +373,7 @@ public:
     {
         const std::vector<std::string>& indexes=self->fixedIndexedStrs(attr);
         PyObject* list=PyList_New(indexes.size());
-        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,PyString_FromString(indexes[k].c_str()));
+        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,SWIG_FromCharPtrAndSize(indexes[k].data(),indexes[k].size()));
         return list;
     }
 }
@@ -579,11 +579,12 @@ ParticlesDataMutable* create();
 ParticlesDataMutable* read(const char* filename,bool verbose=true,std::ostream& error=std::cerr);
 
 %inline %{
-    template<class T> PyObject* readHelper(T* ptr,std::stringstream& ss){
+    template<class T> PyObject* readHelper(T* ptr,std::stringstream& ss,swig_type_info* type=SWIGTYPE_p_ParticlesDataMutable){
         PyObject* tuple=PyTuple_New(2);
-        PyObject* instance = SWIG_NewPointerObj(SWIG_as_voidptr(ptr), SWIGTYPE_p_ParticlesDataMutable, SWIG_POINTER_OWN);
+        PyObject* instance = SWIG_NewPointerObj(SWIG_as_voidptr(ptr), type, SWIG_POINTER_OWN);
         PyTuple_SetItem(tuple,0,instance);
-        PyTuple_SetItem(tuple,1,PyString_FromString(ss.str().c_str()));
+        const std::string message=ss.str();
+        PyTuple_SetItem(tuple,1,SWIG_FromCharPtrAndSize(message.data(),message.size()));
         return tuple;
     }
 %}
@@ -600,7 +601,7 @@ ParticlesDataMutable* read(const char* filename,bool verbose=true,std::ostream&
     PyObject* readHeadersVerbose(const char* filename){
         std::stringstream ss;
         ParticlesInfo* ptr=readHeaders(filename,true,ss); 
-        return readHelper(ptr,ss);
+        return readHelper(ptr,ss,SWIGTYPE_p_ParticlesInfo);
     }
 %}
 %feature("docstring","Reads the header/attribute information from disk and returns the tuple particleObject,errorMsg");
-- 
2.43.0


From 0f26527ee281d1fd14e826968998e51414bcd956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:11 +0000
Subject: [PATCH 38/57] fix: let Python own the sets that clone, cloneSchema
 and computeClustering return

---
 src/py/partio.i | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index 0ec4486..627d256 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -628,6 +628,7 @@ void print(const ParticlesData* particles);
 
 %feature("autodoc");
 %feature("docstring","Creates a clustered particle set");
+%newobject computeClustering;
 ParticlesDataMutable* computeClustering(ParticlesDataMutable* particles,const int numNeighbors,const double radiusSearch,const double radiusInside,const int connections,const double density)=0;
 
 %feature("autodoc");
@@ -681,10 +682,12 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
 
 %feature("autodoc");
 %feature("docstring","Clone a particle set's attribute schema");
+%newobject cloneSchema;
 ParticlesDataMutable* cloneSchema(const ParticlesData& other, const std::map<std::string, std::string>* attrNameMap=nullptr);
 
 %feature("autodoc");
 %feature("docstring","Clone a particle set");
+%newobject clone;
 ParticlesDataMutable* clone(const ParticlesData& other, bool particles, const std::map<std::string, std::string>* attrNameMap=nullptr);
 
 %feature("autodoc");
-- 
2.43.0


From db5702f6e30dc5d2ad0903fd75850e36556f95e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:11 +0000
Subject: [PATCH 39/57] fix: raise Python exceptions for C++ exceptions and for
 errors of attributeInfo

---
 src/py/partio.i | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index 627d256..f4bbfa2 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -85,6 +85,20 @@ static bool attrNameMapString(PyObject* object, std::string& text)
 
 %}
 
+// C++ exceptions become python exceptions
+%exception {
+    try {
+        $action
+    } catch (const std::bad_alloc&) {
+        PyErr_NoMemory();
+        SWIG_fail;
+    } catch (const std::exception& e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        SWIG_fail;
+    }
+    if (PyErr_Occurred()) SWIG_fail;
+}
+
 // Particle Types
 enum ParticleAttributeType {NONE=0,VECTOR=1,FLOAT=2,INT=3,INDEXEDSTR=4};
 
-- 
2.43.0


From 7241f0870021fb2b2d4f8c590c1e527c06c5e5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:11 +0000
Subject: [PATCH 40/57] fix: partjson's check for a missing indexed string

---
 src/tools/partjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/partjson.py b/src/tools/partjson.py
index 342253d..b9b8292 100644
--- a/src/tools/partjson.py
+++ b/src/tools/partjson.py
@@ -124,7 +124,7 @@ def fromJson(data):
             for attrName, value in particle.items():
                 try:
                     attr = attributes[attrName]
-                except IndexError:
+                except KeyError:
                     sys.stderr.write('Could not match attribute "{}" for particle {} with any defined attributes. Skipping.\n'.format(attrName, pnum))
                     continue
                 if len(value) != attr.count:
-- 
2.43.0


From 43aa8a52e5d7d1c1262216e2d061677042deb299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:11 +0000
Subject: [PATCH 41/57] fix: free the gzip stream and its file when memory runs
 out while opening it

---
 src/lib/io/ZIP.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 62a98fb..a972171 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -45,6 +45,7 @@ extern "C"{
 #include <iomanip>
 #include <iostream>
 #include <stdexcept>
+#include <memory>
 #include <cstring>
 #include <string>
 
@@ -609,12 +610,14 @@ void ZipFileReader::Get_File_List(std::vector<std::string>& filenames) const
 std::istream* 
 Gzip_In(const std::string& filename,std::ios::openmode mode)
 {
-    std::ifstream* infile=new std::ifstream(filename.c_str(),mode | std::ios::binary);
+    std::unique_ptr<std::ifstream> infile(new std::ifstream(filename.c_str(),mode | std::ios::binary));
     GZipFileHeader header;
     bool zipped=header.Read(*infile);
     infile->seekg(0);
-    if(!zipped) return infile;
-    else return new ZIP_FILE_ISTREAM(*infile,false);
+    if(!zipped) return infile.release();
+    std::istream* unzipped=new ZIP_FILE_ISTREAM(*infile,false);
+    infile.release(); // the stream made of it owns it now
+    return unzipped;
 }
 //#####################################################################
 // Function Gzip_Out
@@ -622,8 +625,10 @@ Gzip_In(const std::string& filename,std::ios::openmode mode)
 std::ostream* 
 Gzip_Out(const std::string& filename,std::ios::openmode mode)
 {
-    std::ofstream* outfile=new std::ofstream(filename.c_str(),mode);
-    return new ZIP_FILE_OSTREAM(0,*outfile);
+    std::unique_ptr<std::ofstream> outfile(new std::ofstream(filename.c_str(),mode));
+    std::ostream* zipped=new ZIP_FILE_OSTREAM(0,*outfile);
+    outfile.release(); // the stream made of it owns it now
+    return zipped;
 }
 //#####################################################################
 // Function Gzip_Finish
-- 
2.43.0


From 2b09d7c1f55e6befb89e3bd537b50b74ebee0bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:37 +0000
Subject: [PATCH 42/57] fix: partedit: removing attributes works with Python 3
 and copies every remaining attribute

---
 src/tools/partedit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/partedit.py b/src/tools/partedit.py
index 0c7774e..6df82e4 100644
--- a/src/tools/partedit.py
+++ b/src/tools/partedit.py
@@ -94,7 +94,7 @@ def copyParticles(src, dst):
     srcAttrs = {attr.name:attr for attr in srcAttrs}
     dstAttrs = {attr.name:attr for attr in dstAttrs}
     attrs = {'src':[], 'dst':[]}
-    for name, srcAttr in srcAttrs.iteritems():
+    for name, srcAttr in srcAttrs.items():
         if name in dstAttrs:
             attrs['src'].append(srcAttr)
             attrs['dst'].append(dstAttrs[name])
@@ -102,7 +102,7 @@ def copyParticles(src, dst):
     numParticles = src.numParticles()
     dst.addParticles(numParticles)
     for pnum in range(numParticles):
-        for anum in range(len(attrs)):
+        for anum in range(len(attrs['src'])):
             dst.set(attrs['dst'][anum], pnum, src.get(attrs['src'][anum], pnum))
 
 #------------------------------------------------------------------------------
-- 
2.43.0


From 667a33cd07154e6452f55475256d21c83f87b831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:31 +0000
Subject: [PATCH 43/57] fix: partedit: removing particles or attributes and
 saving a delta keep the indexed strings

---
 src/tools/partedit.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/tools/partedit.py b/src/tools/partedit.py
index 6df82e4..533fba9 100644
--- a/src/tools/partedit.py
+++ b/src/tools/partedit.py
@@ -84,6 +84,15 @@ def getAttrs(numAttributesFunc, attributeInfoFunc, sort=False):
 
     return attrs
 
+#--------------------------------------------------------------------------
+def copyStrings(strings, dstAttr, registerStr, setStr):
+    """ Copy a table of indexed strings to an attribute without strings. """
+
+    for num, string in enumerate(strings):
+        # A table can hold the same string more than once
+        if registerStr(dstAttr, string) != num:
+            setStr(dstAttr, registerStr(dstAttr, '{}#{}'.format(string, num)), string)
+
 #--------------------------------------------------------------------------
 def copyParticles(src, dst):
     """ Copy particles from src to dst. """
@@ -98,6 +107,9 @@ def copyParticles(src, dst):
         if name in dstAttrs:
             attrs['src'].append(srcAttr)
             attrs['dst'].append(dstAttrs[name])
+            if srcAttr.type == partio.INDEXEDSTR:
+                copyStrings(src.indexedStrs(srcAttr), dstAttrs[name],
+                            dst.registerIndexedStr, dst.setIndexedStr)
 
     numParticles = src.numParticles()
     dst.addParticles(numParticles)
@@ -259,6 +271,9 @@ class ParticleData(QObject):
             oldAttrs.append(attr)
             newAttr = data.addAttribute(attr.name, attr.type, attr.count)
             newAttrs.append(newAttr)
+            if attr.type == partio.INDEXEDSTR:
+                copyStrings(self.data.indexedStrs(attr), newAttr,
+                            data.registerIndexedStr, data.setIndexedStr)
 
         data.addParticles(len(modifiedHashes))
         for newIndex, modifiedHash in enumerate(modifiedHashes):
@@ -313,7 +328,10 @@ class ParticleData(QObject):
         want = [pnum for pnum in range(self.data.numParticles()) if pnum not in indices ]
         newData = partio.clone(self.data, False)
         for attr in attributes:
-            newData.addAttribute(attr.name, attr.type, attr.count)
+            newAttr = newData.addAttribute(attr.name, attr.type, attr.count)
+            if attr.type == partio.INDEXEDSTR:
+                copyStrings(self.data.indexedStrs(attr), newAttr,
+                            newData.registerIndexedStr, newData.setIndexedStr)
         newData.addParticles(len(want))
         for i, idx in enumerate(want):
             for attr in attributes:
@@ -363,6 +381,9 @@ class ParticleData(QObject):
         for anum in range(self.data.numFixedAttributes()):
             oldAttr = self.data.fixedAttributeInfo(anum)
             newAttr = newData.addFixedAttribute(oldAttr.name, oldAttr.type, oldAttr.count)
+            if oldAttr.type == partio.INDEXEDSTR:
+                copyStrings(self.data.fixedIndexedStrs(oldAttr), newAttr,
+                            newData.registerFixedIndexedStr, newData.setFixedIndexedStr)
             newData.setFixed(newAttr, self.data.getFixed(oldAttr))
 
         self.setData(newData)
@@ -389,6 +410,9 @@ class ParticleData(QObject):
             srcAttr = self.fixedAttributeInfo(anum)
             if srcAttr.name not in names:
                 dstAttr = newData.addFixedAttribute(srcAttr.name, srcAttr.type, srcAttr.count)
+                if srcAttr.type == partio.INDEXEDSTR:
+                    copyStrings(self.data.fixedIndexedStrs(srcAttr), dstAttr,
+                                newData.registerFixedIndexedStr, newData.setFixedIndexedStr)
                 newData.setFixed(dstAttr, self.data.getFixed(srcAttr))
 
         self.setData(newData)
-- 
2.43.0


From 1bfab5eb7b79157337e28dcd50a8959b1cbf1fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:31 +0000
Subject: [PATCH 44/57] fix: partedit: deltas keep earlier edits when particles
 or attributes are removed

---
 src/tools/partedit.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tools/partedit.py b/src/tools/partedit.py
index 533fba9..8a1225c 100644
--- a/src/tools/partedit.py
+++ b/src/tools/partedit.py
@@ -143,12 +143,14 @@ class ParticleData(QObject):
             self.dirtied.emit(dirty)
 
     #--------------------------------------------------------------------------
-    def setData(self, data):
+    def setData(self, data, rebaseline=True):
         """ Sets the data, linking class methods to partio methods and
             notifying all observers that the data set has changed.
+            Edits keep the original data that deltas are relative to.
         """
         self.data = data
-        self.originalData = copy(data)
+        if rebaseline:
+            self.originalData = copy(data)
         self.facade()
         self.dataReset.emit()
 
@@ -337,7 +339,7 @@ class ParticleData(QObject):
             for attr in attributes:
                 newData.set(attr, i, self.data.get(attr, idx))
 
-        self.setData(newData)
+        self.setData(newData, rebaseline=False)
         self.setDirty(True)
 
     #--------------------------------------------------------------------------
@@ -386,7 +388,7 @@ class ParticleData(QObject):
                             newData.registerFixedIndexedStr, newData.setFixedIndexedStr)
             newData.setFixed(newAttr, self.data.getFixed(oldAttr))
 
-        self.setData(newData)
+        self.setData(newData, rebaseline=False)
         self.setDirty(True)
 
 
@@ -415,7 +417,7 @@ class ParticleData(QObject):
                                 newData.registerFixedIndexedStr, newData.setFixedIndexedStr)
                 newData.setFixed(dstAttr, self.data.getFixed(srcAttr))
 
-        self.setData(newData)
+        self.setData(newData, rebaseline=False)
         self.setDirty(True)
 
 #------------------------------------------------------------------------------
-- 
2.43.0


From ec8fe7e02215e4b329fcbd6bfdbe1617e753fbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:31 +0000
Subject: [PATCH 45/57] fix: partedit: add the first particle, and particles
 with an id of several components

---
 src/tools/partedit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/partedit.py b/src/tools/partedit.py
index 8a1225c..ef69f04 100644
--- a/src/tools/partedit.py
+++ b/src/tools/partedit.py
@@ -302,13 +302,17 @@ class ParticleData(QObject):
         numAttr = self.numAttributes()
 
         idAttr = self.attributeInfo('id')
+        if idAttr and idAttr.count != 1:
+            idAttr = None
         if idAttr:
-            newId = max(self.data.get(idAttr, pnum)[0] for pnum in range(numParticles)) + 1
+            newId = max([self.data.get(idAttr, pnum)[0] for pnum in range(numParticles)] or [-1]) + 1
 
         for anum in range(numAttr):
             attr = self.attributeInfo(anum)
             if idAttr and attr.name == 'id':
                 value = (newId,)
+            elif not numParticles:
+                value = (0,) * attr.count
             else:
                 value = self.get(attr, numParticles-1)
             self.set(attr, numParticles, value)
-- 
2.43.0


From ee043be290c69ed8bafe2230d016f7b39a853c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:31 +0000
Subject: [PATCH 46/57] fix: partedit: a cell edited back to its first value
 changes the data

---
 src/tools/partedit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/partedit.py b/src/tools/partedit.py
index ef69f04..6a8eb19 100644
--- a/src/tools/partedit.py
+++ b/src/tools/partedit.py
@@ -509,6 +509,7 @@ class AttrWidget(QFrame): # pylint:disable=R0903
             item.clearFocus()
         if changed:
             self.value = tuple(newValue)
+            self.textValues = [item.text() for item in self.items]
             if self.particleNum >= 0:
                 self.data.set(self.attr, self.particleNum, self.value)
             else:
-- 
2.43.0


From a18bf4915333d0328659d735b92e48a2f413f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:31 +0000
Subject: [PATCH 47/57] fix: partedit: more default values than components are
 ignored

---
 src/tools/partedit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/partedit.py b/src/tools/partedit.py
index 6a8eb19..4e0eb83 100644
--- a/src/tools/partedit.py
+++ b/src/tools/partedit.py
@@ -1107,7 +1107,7 @@ class PartEdit(QMainWindow):
                 values[i] = float(value) # pylint:disable=R0204
             else:
                 values[i] = 0.0 # pylint:disable=R0204
-        value = tuple(values)
+        value = tuple(values[:count])
 
         self.data.addAttribute(name, attrType, count, fixed, value)
 
-- 
2.43.0


From 2bd8ed4cb85df8f62a02e0e5d9c2fcfd3b0ef151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:31 +0000
Subject: [PATCH 48/57] fix: partinspect: --attrs shows every attribute once

---
 src/tools/partinspect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/partinspect.py b/src/tools/partinspect.py
index 003b7f3..a636083 100644
--- a/src/tools/partinspect.py
+++ b/src/tools/partinspect.py
@@ -38,7 +38,7 @@ class PartioTreeModel(QtCore.QAbstractItemModel):
         for name in names:
             i = nameToIndex[name]
             attrib = self.parts.attributeInfo(i)
-            for j in range(attrib.count):
+            for j in range(1 if attrsOnly else attrib.count):
                 self.attribs.append( (attrib, j) )
 
         if attrsOnly:
-- 
2.43.0


From 92c2f1d12ab6a930b23a24fb61ae27538ad9cd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:35 +0000
Subject: [PATCH 49/57] fix: partview: colours of particles with opacity

Every particle but the first was drawn with components of its neighbours.
---
 src/tools/partview.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools/partview.cpp b/src/tools/partview.cpp
index 1a1a116..b4cd95e 100644
--- a/src/tools/partview.cpp
+++ b/src/tools/partview.cpp
@@ -246,10 +246,10 @@ static void drawParticles()
                 float * rgba = (float *) malloc(particles->numParticles()*sizeof(float)*4);
                 for (int i=0;i<particles->numParticles();i++)
                 {
-                    rgba[i*3] = rgb[i*3];
-                    rgba[(i*3)+1] = rgb[(i*3)+1];
-                    rgba[(i*3)+2] = rgb[(i*3)+2];
-                    rgba[(i*3)+3] = alpha[i];
+                    rgba[i*4] = rgb[i*3];
+                    rgba[(i*4)+1] = rgb[(i*3)+1];
+                    rgba[(i*4)+2] = rgb[(i*3)+2];
+                    rgba[(i*4)+3] = alpha[i];
                 }
                 glColorPointer(  4, GL_FLOAT, 0, rgba );
             }
-- 
2.43.0


From 889fde2122d4ff9c454dbc8536fb62de90fead26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:35 +0000
Subject: [PATCH 50/57] fix: partview: do not leak the colours of every picture
 drawn

---
 src/tools/partview.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tools/partview.cpp b/src/tools/partview.cpp
index b4cd95e..3e97ecb 100644
--- a/src/tools/partview.cpp
+++ b/src/tools/partview.cpp
@@ -233,6 +233,7 @@ static void drawParticles()
         const float * pos=particles->data<float>(positionAttr,0);
         glVertexPointer( 3, GL_FLOAT, 0, pos );
 
+        static std::vector<float> rgba; // must last until the points are drawn
         float colorR = 0.75;
         float colorG = 0.75;
         float colorB = 0.75;
@@ -243,7 +244,7 @@ static void drawParticles()
             if (useAlpha && !alphaMissing)
             {
                 const float* alpha=particles->data<float>(alphaAttr,0);
-                float * rgba = (float *) malloc(particles->numParticles()*sizeof(float)*4);
+                rgba.resize((size_t)particles->numParticles()*4);
                 for (int i=0;i<particles->numParticles();i++)
                 {
                     rgba[i*4] = rgb[i*3];
@@ -251,7 +252,7 @@ static void drawParticles()
                     rgba[(i*4)+2] = rgb[(i*3)+2];
                     rgba[(i*4)+3] = alpha[i];
                 }
-                glColorPointer(  4, GL_FLOAT, 0, rgba );
+                glColorPointer(  4, GL_FLOAT, 0, rgba.data() );
             }
             else
             {
@@ -260,12 +261,11 @@ static void drawParticles()
         }
         else
         {
-            float * rgba;
             const float* alpha;
 
             if (useAlpha && !alphaMissing)
             {
-                rgba = (float *) malloc(particles->numParticles()*sizeof(float)*4);
+                rgba.resize((size_t)particles->numParticles()*4);
                 alpha=particles->data<float>(alphaAttr,0);
                 for (int i=0;i<particles->numParticles();i++)
                 {
@@ -274,16 +274,16 @@ static void drawParticles()
                     rgba[(i*4)+2] = colorB+brightness;
                     rgba[(i*4)+3] = alpha[i];
                 }
-                glColorPointer(  4, GL_FLOAT, 0, rgba );
+                glColorPointer(  4, GL_FLOAT, 0, rgba.data() );
             }
             else
             {
-                rgba = (float *) malloc(particles->numParticles()*sizeof(float)*3);
+                rgba.resize((size_t)particles->numParticles()*3);
                 for (int i=0;i<particles->numParticles()*3;i++)
                 {
                     rgba[i] = colorR+brightness;
                 }
-                glColorPointer(  3, GL_FLOAT, 0, rgba );
+                glColorPointer(  3, GL_FLOAT, 0, rgba.data() );
             }
         }
 
-- 
2.43.0


From 7c5a0830f033d61b221212e63d44ae1f1b6bb40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:35 +0000
Subject: [PATCH 51/57] fix: partview: no key is down at the start

---
 src/tools/partview.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/partview.cpp b/src/tools/partview.cpp
index 3e97ecb..6d9b890 100644
--- a/src/tools/partview.cpp
+++ b/src/tools/partview.cpp
@@ -759,7 +759,7 @@ int main(int argc,char *argv[])
     particleFile = "";
     sourceChanged = false;
     frameNumberOGL = 0;
-    keyStates = new bool[256];
+    keyStates = new bool[256]();
     frameForwardPressed = false;
     frameBackwardPressed = false;
     brightnessUpPressed = false;
-- 
2.43.0


From 771005382a4915e03f409ff5e49791edfa101173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:35 +0000
Subject: [PATCH 52/57] fix: partview: the down key darkens, and the field of
 view stays below 180 degrees

---
 src/tools/partview.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/partview.cpp b/src/tools/partview.cpp
index 6d9b890..0ee8862 100644
--- a/src/tools/partview.cpp
+++ b/src/tools/partview.cpp
@@ -533,7 +533,7 @@ void timer(int time)
             }
             else if (keyStates['Z'])
             {
-                if (fov < 180)
+                if (fov < 175)
                 {
                     fov += 5;
                 }
@@ -660,7 +660,7 @@ static void processNormalKeys(unsigned char key, int x, int y)
     }
     else if (keyStates['Z'])
     {
-        if (fov < 180)
+        if (fov < 175)
         {
             fov += 5;
         }
@@ -690,7 +690,7 @@ static void  processSpecialKeys(int key, int x, int y)
     }
     if (key == GLUT_KEY_DOWN)
     {
-        if (brightness >=1)
+        if (brightness >= -1)
             brightness -= .02;
         brightnessDownPressed = true;
         PreviousClock=glutGet(GLUT_ELAPSED_TIME);
-- 
2.43.0


From 2194e4fed61aae71583a4fc88eb9db7268161a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:35 +0000
Subject: [PATCH 53/57] fix: partview: other keys do not toggle colour and
 opacity while c or a is down

---
 src/tools/partview.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/partview.cpp b/src/tools/partview.cpp
index 0ee8862..52fe8f6 100644
--- a/src/tools/partview.cpp
+++ b/src/tools/partview.cpp
@@ -631,7 +631,7 @@ static void processNormalKeys(unsigned char key, int x, int y)
             pointSize -= 0.5;
         }
     }
-    if (keyStates['c'])
+    if (key == 'c')
     {
         if (useColor) {
             useColor = false;
@@ -641,7 +641,7 @@ static void processNormalKeys(unsigned char key, int x, int y)
         }
     }
 
-    if (keyStates['a'])
+    if (key == 'a')
     {
         if (useAlpha) {
             useAlpha = false;
-- 
2.43.0


From f091cf809070ade141a1f49e4b25aae2e021520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:35 +0000
Subject: [PATCH 54/57] fix: partview: a frame that is missing or unreadable
 keeps the shown one

An unreadable frame crashed, a missing one lost the directory of the file, and
the sets of earlier frames were never released.
---
 src/tools/partview.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/tools/partview.cpp b/src/tools/partview.cpp
index 52fe8f6..d19cddc 100644
--- a/src/tools/partview.cpp
+++ b/src/tools/partview.cpp
@@ -328,6 +328,8 @@ static void drawParticles()
 void  reloadParticleFile(int direction)
 {
 
+    const string shownParticleFile = particleFile;
+    const string shownConnectivityFile = connectivityFile;
     string currentFrame = particleFile;
     string currentConnectivityFrame = connectivityFile;
     string fileName;
@@ -448,21 +450,27 @@ void  reloadParticleFile(int direction)
 		int result = stat(particleFile.c_str(),&statinfo);
 		if (result >=0)
 		{
-			particles=read(particleFile.c_str());
+			ParticlesData* newParticles=read(particleFile.c_str());
+			if (newParticles)
+			{
+				if (particles) particles->release();
+				particles = newParticles;
                         int result2 = stat(connectivityFile.c_str(),&statinfo);
                         if(result2>=0){
                             // std::cerr<<"reading connectivity "<<connectivityFile<<std::endl;
+                            if(connectivity) connectivity->release();
                             connectivity=read(connectivityFile.c_str());
                             if(connectivity){
                                 connectivity->attributeInfo("p1",attr1);
                                 connectivity->attributeInfo("p2",attr2);
                             }
                         }
+			}
 			//particles->attributeNames();
 			if (!glutGetWindow()) {
 				return;
 			}
-			if (particles)
+			if (newParticles)
 			{
 				frameMissing = false;
 				sourceChanged = true;
@@ -475,14 +483,16 @@ void  reloadParticleFile(int direction)
 			{
 				frameMissing = true;
 				loadError = "Couldn't load particle file!";
+				particleFile = shownParticleFile;
+				connectivityFile = shownConnectivityFile;
 			}
 		}
 		else
 		{
 			frameMissing = true;
 			loadError  = "FILE MISSING!!! on disk";
-			particleFile = origFileName;
-
+			particleFile = shownParticleFile;
+			connectivityFile = shownConnectivityFile;
 		}
 	}
 }
@@ -806,6 +816,7 @@ int main(int argc,char *argv[])
         return 1;
     }
     particles->release();
+    if (connectivity) connectivity->release();
     return 0;
 
 }
-- 
2.43.0


From 272a32315fc876ce239ee99ad5efaa0bb127ec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:27 +0000
Subject: [PATCH 55/57] fix: partview: frame numbers in file names

Maya files without a frame, connectivity files without a number and empty
numbers ended the viewer with an exception; digits of the extension or of a
directory of the same name were taken for the number; and sequences could not
be stepped back from 10 to 9 (or pdb files from 1000 to 0999).
---
 src/tools/partview.cpp | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/tools/partview.cpp b/src/tools/partview.cpp
index d19cddc..77a5f3e 100644
--- a/src/tools/partview.cpp
+++ b/src/tools/partview.cpp
@@ -324,6 +324,17 @@ static void drawParticles()
 ///  parses the last frame and  string replaces to
 ///  create the  current frame and re-loads
 
+// replaces the last occurrence of the number in the name of the file, before
+// its extension; a name without it (one file for all frames) stays as it is
+static void replaceFrameNumber(string& path, const string& number, const string& newNumber)
+{
+    size_t name = path.rfind('/') == string::npos ? 0 : path.rfind('/') + 1;
+    size_t end = path.rfind('.');
+    if (end == string::npos || end < name + number.length()) return;
+    size_t at = path.rfind(number, end - number.length());
+    if (at != string::npos && at >= name) path.replace(at, number.length(), newNumber);
+}
+
 /// TODO: push the  code to load a specific frame/find the next/prev frame in the sequence into each format reader file
 void  reloadParticleFile(int direction)
 {
@@ -333,13 +344,10 @@ void  reloadParticleFile(int direction)
     string currentFrame = particleFile;
     string currentConnectivityFrame = connectivityFile;
     string fileName;
-    string origFileName;
-    string origConnectivityFile;
     stringstream ss(currentFrame);
 
     while (getline(ss, fileName,'/'))
     {}
-    origFileName = fileName;
 
     string token;
     stringstream fp(fileName);
@@ -365,7 +373,7 @@ void  reloadParticleFile(int direction)
 
 		if (fileParts.size() <3)
 		{
-			if (extension == "mc") // assuming we have a real Maya NParticle export not a custom one  ex.. nParticleShape1Frame42.mc
+			if (extension == "mc" && numberString.find("Frame") != string::npos) // assuming we have a real Maya NParticle export not a custom one  ex.. nParticleShape1Frame42.mc
 			{
 				numberString.replace(numberString.find("Frame"), 5, ".");
 				string nParticleName;
@@ -393,12 +401,6 @@ void  reloadParticleFile(int direction)
 				paddingString = "%i";
 			}
 
-			/// trying to cover all our bases here.. there's probably a better way to do this.
-			else if(extension == "pdb" && numberString.substr(1,1) != "0")
-			{
-				paddingString = "%i";
-			}
-
 			else
 			{
 				int padding = numberString.length();
@@ -420,6 +422,12 @@ void  reloadParticleFile(int direction)
                 newFrameNumber = frameNumber + direction*pdcMultiplier;
 
                 sprintf(newFrameString, paddingString.c_str(), newFrameNumber);
+                // 10 may be preceded by 09 or by 9
+                string paddedFrame = currentFrame;
+                replaceFrameNumber(paddedFrame, numberString, newFrameString);
+                struct stat paddedInfo;
+                if (numberString[0] != '0' && stat(paddedFrame.c_str(), &paddedInfo) < 0)
+                    sprintf(newFrameString, "%i", newFrameNumber);
                 frameNumberOGL = newFrameNumber/pdcMultiplier;
             }
             else
@@ -428,11 +436,8 @@ void  reloadParticleFile(int direction)
                 frameNumberOGL = frameNumber/pdcMultiplier;
             }
             // now replace the number in the string with the new one
-			fileName.replace(fileName.rfind(numberString), numberString.length(), newFrameString);
-                        if(!currentConnectivityFrame.empty())
-                            currentConnectivityFrame.replace(currentConnectivityFrame.rfind(numberString),numberString.length(),newFrameString);
-
-			currentFrame.replace(currentFrame.find(origFileName), origFileName.length(), fileName);
+			replaceFrameNumber(currentFrame, numberString, newFrameString);
+			replaceFrameNumber(currentConnectivityFrame, numberString, newFrameString);
 
 			particleFile = currentFrame;
                         connectivityFile = currentConnectivityFrame;
-- 
2.43.0


From d5707a866a1c19d1fc372c58704f0600ab70e144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:27 +0000
Subject: [PATCH 56/57] fix: partview: attributes that are missing or of
 another type

Particles without positions, colours that are not three floats, opacities that
are not one, and connectivity without p1 and p2 were read out of bounds.
---
 src/tools/partview.cpp | 48 +++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/tools/partview.cpp b/src/tools/partview.cpp
index 77a5f3e..cc23285 100644
--- a/src/tools/partview.cpp
+++ b/src/tools/partview.cpp
@@ -91,8 +91,16 @@ void renderBitmapString(
 /////////////////////////////////////////
 /// RENDER  callback
 
+// an attribute of the shown particles with that many floats
+static bool usableAttribute(const char* name, int count, ParticleAttribute& attr)
+{
+    return particles->attributeInfo(name, attr) && attr.count == count &&
+           (attr.type == FLOAT || attr.type == VECTOR);
+}
+
 static void drawParticles()
 {
+    static bool positionMissing=true;
     static bool inited=false;
     if (!inited || sourceChanged)
     {
@@ -114,13 +122,14 @@ static void drawParticles()
             if (particles->numParticles() > 0)
             {
 
-                if (!particles->attributeInfo("position",positionAttr))
+                if (!usableAttribute("position",3,positionAttr))
                 {
                     std::cerr<<"Failed to find position attribute "<<std::endl;
-                    return;
+                    positionMissing = true;
                 }
                 else
                 {
+                    positionMissing = false;
                     for (int i=0;i<particles->numParticles();i++)
                     {
                         const float* pos=particles->data<float>(positionAttr,i);
@@ -136,22 +145,22 @@ static void drawParticles()
                         camera.fit(fov,bmin,bmax);
                     }
                 }
-                if (particles->attributeInfo("pointColor", colorAttr) ||
-                    particles->attributeInfo("color", colorAttr) ||
-                    particles->attributeInfo("rgb", colorAttr) ||
-                    particles->attributeInfo("rgbPP", colorAttr) ||
-                    particles->attributeInfo("Cd", colorAttr))
+                if (usableAttribute("pointColor", 3, colorAttr) ||
+                    usableAttribute("color", 3, colorAttr) ||
+                    usableAttribute("rgb", 3, colorAttr) ||
+                    usableAttribute("rgbPP", 3, colorAttr) ||
+                    usableAttribute("Cd", 3, colorAttr))
                 {
                     //std::cerr<<"Found color attribute "<<std::endl;
                     colorMissing = false;
                 } else {
                     colorMissing = true;
                 }
-                if (particles->attributeInfo("pointOpacity", alphaAttr) ||
-                    particles->attributeInfo("alphaPP", alphaAttr) ||
-                    particles->attributeInfo("alpha", alphaAttr) ||
-                    particles->attributeInfo("opacityPP", alphaAttr) ||
-                    particles->attributeInfo("opacity", alphaAttr))
+                if (usableAttribute("pointOpacity", 1, alphaAttr) ||
+                    usableAttribute("alphaPP", 1, alphaAttr) ||
+                    usableAttribute("alpha", 1, alphaAttr) ||
+                    usableAttribute("opacityPP", 1, alphaAttr) ||
+                    usableAttribute("opacity", 1, alphaAttr))
                 {
                     glEnable(GL_BLEND);
                     glBlendFunc(GL_SRC_ALPHA, GL_ONE_MINUS_SRC_ALPHA);
@@ -226,7 +235,8 @@ static void drawParticles()
     glPointSize(pointSize);
 
 
-    if (particles->numParticles() > 0)
+    const int numDrawn = positionMissing ? 0 : particles->numParticles();
+    if (numDrawn > 0)
     {
         // now setup the position/color/alpha output pointers
 
@@ -289,7 +299,7 @@ static void drawParticles()
 
     }
 
-    glDrawArrays( GL_POINTS, 0, particles->numParticles() );
+    glDrawArrays( GL_POINTS, 0, numDrawn );
 
     glDisableClientState( GL_VERTEX_ARRAY );
     glDisableClientState( GL_COLOR_ARRAY );
@@ -303,7 +313,7 @@ static void drawParticles()
             int v1=connectivity->data<int>(attr1,i)[0];
             int v2=connectivity->data<int>(attr2,i)[0];
             //std::cerr<<"v1 "<<v1<<" v2 "<<v2<<std::endl;
-            if(v1 >= 0 && v2 >= 0 && v1<particles->numParticles() && v2<particles->numParticles()){
+            if(v1 >= 0 && v2 >= 0 && v1<numDrawn && v2<numDrawn){
                 const float* p1=particles->data<float>(positionAttr,v1);
                 const float* p2=particles->data<float>(positionAttr,v2);
                 //std::cerr<<"p1 to p2 "<<p1[0]<<" "<<p1[1]<<" "<<p1[2]<<" -- "<<p2[0]<<" "<<p2[1]<<" "<<p2[2]<<std::endl;
@@ -466,8 +476,12 @@ void  reloadParticleFile(int direction)
                             if(connectivity) connectivity->release();
                             connectivity=read(connectivityFile.c_str());
                             if(connectivity){
-                                connectivity->attributeInfo("p1",attr1);
-                                connectivity->attributeInfo("p2",attr2);
+                                if(!connectivity->attributeInfo("p1",attr1) || attr1.type!=INT || attr1.count<1 ||
+                                   !connectivity->attributeInfo("p2",attr2) || attr2.type!=INT || attr2.count<1){
+                                    std::cerr<<"Failed to find p1 and p2 attributes "<<std::endl;
+                                    connectivity->release();
+                                    connectivity=0;
+                                }
                             }
                         }
 			}
-- 
2.43.0


From 7b23e2826cbd25f39a2aea6d6e1f6d4d9b4ae854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:28 +0000
Subject: [PATCH 57/57] fix: ptc names made unique do not depend on the locale

The number added to a repeated variable name was printed in the global locale,
so that the eleventh was called 'Cs1.0' or 'Cs1,0' where digits are grouped.
---
 src/lib/io/PTC.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 6932b11..38c9d27 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -174,6 +174,7 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
         while(simple->attributeInfo(effectiveName.c_str(),info)){
             ostringstream ss;
             ss.exceptions(ios::badbit);
+            ss.imbue(locale::classic());
             ss<<name<<unique++;
             effectiveName=ss.str();
         }
-- 
2.43.0

