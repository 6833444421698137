From 5fa5ad15b270414ca3311fcd482b0eb83ca35ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:18 +0000
Subject: [PATCH 01/58] fix: postfix increment of a particle iterator reaches
 the end

it++ only bumped the index, so a loop written with the postfix form never
compared equal to end() and ran past the last particle.
---
 src/lib/PartioIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PartioIterator.h b/src/lib/PartioIterator.h
index e0ce86c..1d73735 100644
--- a/src/lib/PartioIterator.h
+++ b/src/lib/PartioIterator.h
@@ -179,7 +179,7 @@ public:
     ParticleIterator operator++(int)
     {
         ParticleIterator newIt(*this);
-        index++;
+        ++*this;
         return newIt;
     }
 
-- 
2.43.0


From 14d40aca45e56ca3b614a7c83761bad06b8ff151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:47 +0000
Subject: [PATCH 02/58] fix: keep string lookups right when an indexed string
 is replaced

setIndexedStr/setFixedIndexedStr erased the lookup entry of whichever token
last held the old string; once two tokens shared a string this lost the
entry of the other token, or erased end().
---
 src/lib/core/ParticleSimple.cpp           |  8 ++------
 src/lib/core/ParticleSimple.h             | 16 ++++++++++++++++
 src/lib/core/ParticleSimpleInterleave.cpp |  8 ++------
 src/lib/core/ParticleSimpleInterleave.h   | 16 ++++++++++++++++
 4 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index 4fa23e6..a6bad8b 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -437,15 +437,11 @@ fixedIndexedStrs(const FixedAttribute& attr) const
 void ParticlesSimple::setIndexedStr(const ParticleAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=attributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.set(indexedStringToken,str);
 }
 
 void ParticlesSimple::setFixedIndexedStr(const FixedAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=fixedAttributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.set(indexedStringToken,str);
 }
diff --git a/src/lib/core/ParticleSimple.h b/src/lib/core/ParticleSimple.h
index 86247e8..b32072a 100644
--- a/src/lib/core/ParticleSimple.h
+++ b/src/lib/core/ParticleSimple.h
@@ -107,6 +107,22 @@ private:
     struct IndexedStrTable{
         std::map<std::string,int> stringToIndex; // TODO: this should be a hash table unordered_map
         std::vector<std::string> strings;
+
+        // Replaces the string of an existing token. Two tokens may come to hold
+        // the same string, so a lookup must keep finding whichever remains.
+        void set(int token,const char* str)
+        {
+            const bool duplicates=stringToIndex.size()!=strings.size();
+            const std::string old=strings[token];
+            strings[token]=str;
+            std::map<std::string,int>::iterator it=stringToIndex.find(old);
+            if(it!=stringToIndex.end() && it->second==token){
+                stringToIndex.erase(it);
+                for(size_t i=0;duplicates && i<strings.size();i++)
+                    if(strings[i]==old){stringToIndex[old]=static_cast<int>(i);break;}
+            }
+            stringToIndex.insert(std::make_pair(std::string(str),token));
+        }
     };
     std::vector<IndexedStrTable> attributeIndexedStrs;
     std::vector<ParticleAttribute> attributes;
diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 573998a..ddafee8 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -440,15 +440,11 @@ fixedIndexedStrs(const FixedAttribute& attr) const
 void ParticlesSimpleInterleave::setIndexedStr(const ParticleAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=attributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.set(indexedStringToken,str);
 }
 
 void ParticlesSimpleInterleave::setFixedIndexedStr(const FixedAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=fixedAttributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.set(indexedStringToken,str);
 }
diff --git a/src/lib/core/ParticleSimpleInterleave.h b/src/lib/core/ParticleSimpleInterleave.h
index bd40e01..0aa46b9 100644
--- a/src/lib/core/ParticleSimpleInterleave.h
+++ b/src/lib/core/ParticleSimpleInterleave.h
@@ -113,6 +113,22 @@ private:
     struct IndexedStrTable{
         std::map<std::string,int> stringToIndex; // TODO: this should be a hash table unordered_map
         std::vector<std::string> strings;
+
+        // Replaces the string of an existing token. Two tokens may come to hold
+        // the same string, so a lookup must keep finding whichever remains.
+        void set(int token,const char* str)
+        {
+            const bool duplicates=stringToIndex.size()!=strings.size();
+            const std::string old=strings[token];
+            strings[token]=str;
+            std::map<std::string,int>::iterator it=stringToIndex.find(old);
+            if(it!=stringToIndex.end() && it->second==token){
+                stringToIndex.erase(it);
+                for(size_t i=0;duplicates && i<strings.size();i++)
+                    if(strings[i]==old){stringToIndex[old]=static_cast<int>(i);break;}
+            }
+            stringToIndex.insert(std::make_pair(std::string(str),token));
+        }
     };
     std::vector<IndexedStrTable> attributeIndexedStrs;
     std::vector<size_t> attributeOffsets; // Inside is data of appropriate type
-- 
2.43.0


From 8a18d8b6f1af1780ad21de4f247794ab1ef90aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 03/58] fix: make the interleaved container hold what is put in
 it

Fixed attributes were addressed past the end of the particle block (and
changed the particle stride), bulk and as-float reads did nothing, indices
were not checked, and sort()/findPoints()/findNPoints() were disabled.
---
 src/lib/core/ParticleSimpleInterleave.cpp | 105 +++++++++++-----------
 src/lib/core/ParticleSimpleInterleave.h   |   1 +
 2 files changed, 52 insertions(+), 54 deletions(-)

diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index ddafee8..7b18144 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -50,7 +50,7 @@ using namespace Partio;
 
 ParticlesSimpleInterleave::
 ParticlesSimpleInterleave()
-    :particleCount(0),allocatedCount(0),data(nullptr),fixedData(nullptr),stride(0),kdtree(nullptr)
+    :particleCount(0),allocatedCount(0),data(nullptr),fixedData(nullptr),stride(0),fixedStride(0),kdtree(nullptr)
 {
 }
 
@@ -128,7 +128,6 @@ fixedAttributeInfo(const char* attributeName,FixedAttribute& attribute) const
 void ParticlesSimpleInterleave::
 sort()
 {
-#if 0
     ParticleAttribute attr;
     bool foundPosition=attributeInfo("position",attr);
     if(!foundPosition){
@@ -139,9 +138,12 @@ sort()
         return;
     }
 
-    const float* data=this->data<float>(attr,0); // contiguous assumption used here
+    // the tree wants the positions packed
+    std::vector<float> positions(3*(size_t)numParticles());
+    for(int i=0;i<numParticles();i++)
+        memcpy(&positions[3*(size_t)i],ParticlesData::data<float>(attr,i),3*sizeof(float));
     KdTree<3>* kdtree_temp=new KdTree<3>();
-    kdtree_temp->setPoints(data,numParticles());
+    kdtree_temp->setPoints(positions.data(),numParticles());
     kdtree_temp->sort();
 
     kdtree_mutex.lock();
@@ -149,13 +151,11 @@ sort()
     if(kdtree) delete kdtree;
     kdtree=kdtree_temp;
     kdtree_mutex.unlock();
-#endif
 }
 
 void ParticlesSimpleInterleave::
-findPoints(const float[3],const float[3],std::vector<ParticleIndex>&) const
+findPoints(const float bboxMin[3],const float bboxMax[3],std::vector<ParticleIndex>& points) const
 {
-#if 0
     if(!kdtree){
         std::cerr<<"Partio: findPoints without first calling sort()"<<std::endl;
         return;
@@ -163,18 +163,16 @@ findPoints(const float[3],const float[3],std::vector<ParticleIndex>&) const
 
     BBox<3> box(bboxMin);box.grow(bboxMax);
 
-    int startIndex=points.size();
+    size_t startIndex=points.size();
     kdtree->findPoints(points,box);
-    // remap points found in findPoints to original index spac
-    for(unsigned int i=startIndex;i<points.size();i++) points[i]=kdtree->id(points[i]);
-#endif
+    // remap points found in findPoints to original index space
+    for(size_t i=startIndex;i<points.size();i++) points[i]=kdtree->id(static_cast<int>(points[i]));
 }
 
 float ParticlesSimpleInterleave::
-findNPoints(const float[3],const int,const float,std::vector<ParticleIndex>&,
-    std::vector<float>&) const
+findNPoints(const float center[3],const int nPoints,const float maxRadius,std::vector<ParticleIndex>& points,
+    std::vector<float>& pointDistancesSquared) const
 {
-#if 0
     if(!kdtree){
         std::cerr<<"Partio: findNPoints without first calling sort()"<<std::endl;
         return 0;
@@ -182,18 +180,23 @@ findNPoints(const float[3],const int,const float,std::vector<ParticleIndex>&,
 
     float maxDistance=kdtree->findNPoints(points,pointDistancesSquared,center,nPoints,maxRadius);
     // remap all points since findNPoints clears array
-    for(unsigned int i=0;i<points.size();i++) points[i]=kdtree->id(points[i]);
+    for(size_t i=0;i<points.size();i++) points[i]=kdtree->id(static_cast<int>(points[i]));
     return maxDistance;
-#endif
-    return 0;
 }
 
 int ParticlesSimpleInterleave::
-findNPoints(const float[3], int, const float, ParticleIndex *,
-    float *, float *) const
+findNPoints(const float center[3],int nPoints,const float maxRadius,ParticleIndex *points,
+    float *pointDistancesSquared,float *finalRadius2) const
 {
-    // TODO: I guess they don't support this lookup here
-    return 0;
+    if(!kdtree){
+        std::cerr<<"Partio: findNPoints without first calling sort()"<<std::endl;
+        return 0;
+    }
+
+    int count=kdtree->findNPoints(points,pointDistancesSquared,finalRadius2,center,nPoints,maxRadius);
+    // remap all points since findNPoints clears array
+    for(int i=0;i<count;i++) points[i]=kdtree->id(static_cast<int>(points[i]));
+    return count;
 }
 
 
@@ -246,28 +249,15 @@ addFixedAttribute(const char* attribute,ParticleAttributeType type,const int cou
     FixedAttribute attr;
     attr.name=attribute;
     attr.type=type;
-    attr.attributeIndex=attributes.size(); //  all arrays separate so we don't use this here!
+    attr.attributeIndex=fixedAttributes.size();
     attr.count=count;
     fixedAttributes.push_back(attr);
     nameToFixedAttribute[attribute]=fixedAttributes.size()-1;
 
-    // repackage data for new attribute
-    int oldStride=stride;
-    int newStride=stride+TypeSize(type)*count;
-    char* newData=(char*)malloc((size_t)newStride);
-    if(fixedData){
-        char* ptrNew=newData;
-        char* ptrOld=fixedData;
-        for(int i=0;i<particleCount;i++){
-            memcpy(ptrNew,ptrOld,oldStride);
-            ptrNew+=newStride;
-            ptrOld+=oldStride;
-        }
-    }
-    free(fixedData);
-    fixedData=newData;
-    stride=newStride;
-    fixedAttributeOffsets.push_back(oldStride);
+    // extend the fixed block, which is separate from the particle data
+    fixedAttributeOffsets.push_back(fixedStride);
+    fixedStride+=TypeSize(type)*count;
+    fixedData=(char*)realloc(fixedData,std::max<size_t>(fixedStride,1));
     fixedAttributeIndexedStrs.push_back(IndexedStrTable());
 
     return attr;
@@ -340,43 +330,50 @@ setupAccessor(Partio::ParticleIterator<true>&,ParticleAccessor& accessor) const
 void* ParticlesSimpleInterleave::
 dataInternal(const ParticleAttribute& attribute,const ParticleIndex particleIndex) const
 {
+    assert(attribute.attributeIndex>=0 && attribute.attributeIndex<(int)attributes.size());
+    if (particleIndex >= (ParticleIndex)numParticles()) {
+        std::cerr << "Invalid attempt to set particle value on index "
+                  << particleIndex << " in data with " << numParticles()
+                  << " particles." << std::endl;
+        return nullptr;
+    }
     return data+particleIndex*stride+attributeOffsets[attribute.attributeIndex];
 }
 
 void* ParticlesSimpleInterleave::
 fixedDataInternal(const FixedAttribute& attribute) const
 {
-    return data+allocatedCount*stride+fixedAttributeOffsets[attribute.attributeIndex];
+    assert(attribute.attributeIndex>=0 && attribute.attributeIndex<(int)fixedAttributes.size());
+    return fixedData+fixedAttributeOffsets[attribute.attributeIndex];
 }
 
 void ParticlesSimpleInterleave::
-dataInternalMultiple(const ParticleAttribute&,const int,const ParticleIndex*,const bool,char*) const
+dataInternalMultiple(const ParticleAttribute& attribute,const int indexCount,
+    const ParticleIndex* particleIndices,const bool,char* values) const
 {
-#if 0
     assert(attribute.attributeIndex>=0 && attribute.attributeIndex<(int)attributes.size());
 
-    char* base=attributeData[attribute.attributeIndex];
-    int bytes=attributeStrides[attribute.attributeIndex];
+    const char* base=data+attributeOffsets[attribute.attributeIndex];
+    size_t bytes=TypeSize(attribute.type)*attribute.count;
     for(int i=0;i<indexCount;i++)
-        memcpy(values+bytes*i,base+particleIndices[i]*bytes,bytes);
-#endif
+        memcpy(values+bytes*i,base+particleIndices[i]*stride,bytes);
 }
 
 void ParticlesSimpleInterleave::
-dataAsFloat(const ParticleAttribute&,const int,
-    const ParticleIndex*,const bool,float*) const
+dataAsFloat(const ParticleAttribute& attribute,const int indexCount,
+    const ParticleIndex* particleIndices,const bool sorted,float* values) const
 {
-#if 0
     assert(attribute.attributeIndex>=0 && attribute.attributeIndex<(int)attributes.size());
 
     if(attribute.type==FLOAT || attribute.type==VECTOR) dataInternalMultiple(attribute,indexCount,particleIndices,sorted,(char*)values);
-    else if(attribute.type==INT){
-        char* attrrawbase=attributeData[attribute.attributeIndex];
-        int* attrbase=(int*)attrrawbase;
+    else if(attribute.type==INT || attribute.type==INDEXEDSTR){
+        const char* base=data+attributeOffsets[attribute.attributeIndex];
         int count=attribute.count;
-        for(int i=0;i<indexCount;i++) for(int k=0;k<count;k++) values[i*count+k]=(int)attrbase[particleIndices[i]*count+k];
+        for(int i=0;i<indexCount;i++){
+            const int* ints=(const int*)(base+particleIndices[i]*stride);
+            for(int k=0;k<count;k++) values[i*count+k]=static_cast<float>(ints[k]);
+        }
     }
-#endif
 }
 
 
diff --git a/src/lib/core/ParticleSimpleInterleave.h b/src/lib/core/ParticleSimpleInterleave.h
index 0aa46b9..9c5e455 100644
--- a/src/lib/core/ParticleSimpleInterleave.h
+++ b/src/lib/core/ParticleSimpleInterleave.h
@@ -110,6 +110,7 @@ private:
     char* data;
     char* fixedData;
     int stride;
+    int fixedStride;
     struct IndexedStrTable{
         std::map<std::string,int> stringToIndex; // TODO: this should be a hash table unordered_map
         std::vector<std::string> strings;
-- 
2.43.0


From a7ab4dbfdbfb8b6526478f1a2d174d35cf2a5a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 04/58] fix: report the final search radius when a
 nearest-neighbour query finds nothing to search

findNPoints left *finalRadius2 unset on an empty set.
---
 src/lib/core/KdTree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/core/KdTree.h b/src/lib/core/KdTree.h
index 7b73b86..789cfc8 100644
--- a/src/lib/core/KdTree.h
+++ b/src/lib/core/KdTree.h
@@ -366,6 +366,7 @@ int KdTree<k>::findNPoints(uint64_t *result, float *distanceSquared, float *fina
 {
     float radius_squared=maxRadius*maxRadius;
 
+    *finalSearchRadius2=radius_squared;
     if (!size() || !_sorted || nPoints<1) return 0;
 
     NearestQuery query(result,distanceSquared,p,nPoints,radius_squared);
-- 
2.43.0


From 8ed5afb03c07231ed7123f6cdad250a56c9b9d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 05/58] fix: read the optional gzip header fields by their real
 flag bits

FHCRC is bit 1, FEXTRA bit 2, FNAME bit 3 and FCOMMENT bit 4 (RFC 1952);
files carrying an extra field, a comment or a header crc were decompressed
from the wrong offset.
---
 src/lib/io/ZIP.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 5792b23..2e56557 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -112,15 +112,15 @@ struct GZipFileHeader
     Read_Primitive(istream,os);
     unsigned char dummyByte;
     // read flags if necessary
-    if(flags&2){
+    if(flags&4){ // FEXTRA
         unsigned short flgExtraLen;
         Read_Primitive(istream,flgExtraLen);
         for(int k=0;k<flgExtraLen;k++) Read_Primitive(istream,dummyByte);}
     // read filename/comment if present
-    int stringsToRead=((flags&8)?1:0) + ((flags&4)?1:0);
+    int stringsToRead=((flags&8)?1:0) + ((flags&16)?1:0); // FNAME, FCOMMENT
     for(int i=0;i<stringsToRead;i++) 
         do{Read_Primitive(istream,dummyByte);}while(dummyByte!=0 && istream);
-    if(flags&1) Read_Primitive(istream,crc16);
+    if(flags&2) Read_Primitive(istream,crc16); // FHCRC
     if(!istream) {std::cerr<<"gzip: got to end of file after only reading gzip header"<<std::endl;return false;}
     return true;}
 
-- 
2.43.0


From 5de5153a6da415007e870fab525dbfae7cd68598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 06/58] fix: stop when a compressed file ends in the middle of
 its data

A truncated .gz file made the decompressor spin on Z_BUF_ERROR for ever, and
a corrupted one left the get area with its end before its current position.
---
 src/lib/io/ZIP.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 2e56557..0a01ca6 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -283,7 +283,8 @@ public:
                 istream.read((char*)in,part_of_zip_file?std::min((unsigned int)buffer_size,header.compressed_size-total_read):(unsigned int)buffer_size);
                 strm.avail_in=static_cast<uInt>(istream.gcount());
                 total_read+=strm.avail_in;
-                strm.next_in=(Bytef*)in;}
+                strm.next_in=(Bytef*)in;
+                if(strm.avail_in==0) break;} // input ends before the compressed data does
             int ret=inflate(&strm,Z_NO_FLUSH); // decompress
             switch(ret){
                 case Z_STREAM_ERROR: 
@@ -310,7 +311,7 @@ public:
     int put_back_count=static_cast<int>(gptr()-eback());
     if(put_back_count>4) put_back_count=4;
     std::memmove(out+(4-put_back_count),gptr()-put_back_count,put_back_count);
-    int num=process();
+    int num=std::max(0,process());
     setg((char*)(out+4-put_back_count),(char*)(out+4),(char*)(out+4+num));
     if(num<=0) return EOF;
     return traits_type::to_int_type(*gptr());}
-- 
2.43.0


From 13f7d6e4100bb14346f476884754924da49ea2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 07/58] fix: show the failure to open a compressed output file

Gzip_Out handed back a good stream over a file that was never opened, so
writers could not report the error.
---
 src/lib/io/ZIP.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 0a01ca6..047cf20 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -596,7 +596,9 @@ std::ostream*
 Gzip_Out(const std::string& filename,std::ios::openmode mode)
 {
     std::ofstream* outfile=new std::ofstream(filename.c_str(),mode);
-    return new ZIP_FILE_OSTREAM(0,*outfile);
+    std::ostream* stream=new ZIP_FILE_OSTREAM(0,*outfile);
+    if(!*outfile) stream->setstate(std::ios::failbit); // let the caller see that the open failed
+    return stream;
 }
 //#####################################################################
 
-- 
2.43.0


From c309658072c9c97b90fc3f895dab36cea431edff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 08/58] fix: look for the zip central directory from the end of
 the file

The first match in the last 64k was taken, which can lie inside a stored
member or in the member's compressed data.
---
 src/lib/io/ZIP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 047cf20..9e13c1d 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -526,7 +526,7 @@ Find_And_Read_Central_Header()
     char *buf=new char[static_cast<unsigned int>(read_start)];
     istream.read(buf,read_start);
     int found=-1;
-    for(unsigned int i=0;i<read_start-3;i++){
+    for(int i=static_cast<int>(read_start)-4;i>=0;i--){ // the last one: member data may contain the signature
         if(buf[i]==0x50 && buf[i+1]==0x4b && buf[i+2]==0x05 && buf[i+3]==0x06){found=i;break;}}
     delete [] buf;
     if(found==-1){std::cerr<<"ZIP: Failed to find zip header"<<std::endl;return false;}
-- 
2.43.0


From 3222c9595521bf296b0b0d2feb3efd503afc48b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 09/58] fix: read zip members whose local header does not hold
 their size

Archives written to a pipe store the sizes after the data; the reader took
the zeros of the local header and never got past them.
---
 src/lib/io/ZIP.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 9e13c1d..4f17a5e 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -248,7 +248,7 @@ class ZipStreambufDecompress:public std::streambuf
     static const unsigned short DEFLATE=8;
     static const unsigned short UNCOMPRESSED=0;
 public:
-    ZipStreambufDecompress(std::istream& stream,bool part_of_zip_file_input)
+    ZipStreambufDecompress(std::istream& stream,bool part_of_zip_file_input,const ZipFileHeader* central=0)
         :istream(stream),total_read(0),total_uncompressed(0),part_of_zip_file(part_of_zip_file_input),valid(true)
     {
         strm.zalloc=Z_NULL;strm.zfree=Z_NULL;strm.opaque=Z_NULL;strm.avail_in=0;strm.next_in=Z_NULL;
@@ -257,6 +257,9 @@ public:
         // skip the header
         if(part_of_zip_file){
             valid=header.Read(istream,false);
+            if(central){ // an archive written to a pipe has its sizes only in the central directory
+                header.compressed_size=central->compressed_size;
+                header.uncompressed_size=central->uncompressed_size;}
             if(header.compression_type==DEFLATE) compressed_data=true;
             else if(header.compression_type==UNCOMPRESSED) compressed_data=false;
             else{
@@ -423,8 +426,8 @@ class ZIP_FILE_ISTREAM:public std::istream
 {
     ZipStreambufDecompress buf;
 public:
-    ZIP_FILE_ISTREAM(std::istream& istream,bool part_of_zip_file)
-        :std::istream(&buf),buf(istream,part_of_zip_file)
+    ZIP_FILE_ISTREAM(std::istream& istream,bool part_of_zip_file,const ZipFileHeader* central=0)
+        :std::istream(&buf),buf(istream,part_of_zip_file,central)
     {}
 
     virtual ~ZIP_FILE_ISTREAM()
@@ -562,7 +565,7 @@ std::istream* ZipFileReader::Get_File(const std::string& filename,const bool)
     std::map<std::string,ZipFileHeader*>::iterator i=filename_to_header.find(filename);
     if(i!=filename_to_header.end()){
         ZipFileHeader* header=i->second;
-        istream.seekg((*header).header_offset);return new ZIP_FILE_ISTREAM(istream,true);
+        istream.seekg((*header).header_offset);return new ZIP_FILE_ISTREAM(istream,true,header);
     }
     return 0;
 }
-- 
2.43.0


From 9e60e8c987cb8d798298dfec8396b7c75e602653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 10/58] fix: do not free the storage of a zero-width attribute
 twice

---
 src/lib/core/ParticleSimple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index a6bad8b..39c7eb4 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -264,7 +264,7 @@ addParticle()
         allocatedCount=std::max(10,std::max(allocatedCount*3/2,particleCount));
         for(unsigned int i=0;i<attributes.size();i++) {
             char *memory = (char*)realloc(attributeData[i],(size_t)attributeStrides[i]*(size_t)allocatedCount);
-            if(memory){
+            if(memory || attributeStrides[i]==0){ // an attribute of width 0 has no storage
                 attributeData[i]=memory;
             }
         }
-- 
2.43.0


From 0895ba09a50b16075218d6d884a1ec39c51d81e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 11/58] fix: keep the particle cache usable when a read fails,
 sorts late or reports errors

A reader that releases its own set while it runs no longer deadlocks with
readCached, the error stream is passed on, and asking for a sorted set sorts
one that was first cached unsorted.
---
 src/lib/core/ParticleCaching.cpp | 54 ++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/lib/core/ParticleCaching.cpp b/src/lib/core/ParticleCaching.cpp
index 0d3e69e..8a470d2 100644
--- a/src/lib/core/ParticleCaching.cpp
+++ b/src/lib/core/ParticleCaching.cpp
@@ -42,32 +42,59 @@ namespace Partio{
 
 namespace
 {
+    // guards the maps below; taken by every release of a particle set
     static PartioMutex mutex;
+    // serializes cached loads; never taken while holding mutex, as a reader
+    // may release particle sets of its own while it runs
+    static PartioMutex loadMutex;
+
+    struct Lock
+    {
+        PartioMutex& m;
+        Lock(PartioMutex& m):m(m) {m.lock();}
+        ~Lock() {m.unlock();}
+    };
 }
     
 // cached read write
 std::map<ParticlesData*,int> cachedParticlesCount;
 std::map<std::string,ParticlesData*> cachedParticles;
+// cached particles which nobody asked to be sorted yet
+std::map<ParticlesData*,ParticlesDataMutable*> cachedUnsorted;
 
 ParticlesData* readCached(const char* filename,const bool sort,const bool verbose,std::ostream& error)
 {
-    mutex.lock();
-    std::map<std::string,ParticlesData*>::iterator i=cachedParticles.find(filename);
+    Lock loading(loadMutex);
 
     ParticlesData* p=0;
-    if(i!=cachedParticles.end()){
-        p=i->second;
-        cachedParticlesCount[p]++;
-    }else{
-        ParticlesDataMutable* p_rw=read(filename,verbose);
-        if(p_rw){
-            if(sort) p_rw->sort();
-            p=p_rw;
-            cachedParticles[filename]=p;
-            cachedParticlesCount[p]=1;
+    ParticlesDataMutable* unsorted=0;
+    {
+        Lock lock(mutex);
+        std::map<std::string,ParticlesData*>::iterator i=cachedParticles.find(filename);
+        if(i!=cachedParticles.end()){
+            p=i->second;
+            cachedParticlesCount[p]++;
+            std::map<ParticlesData*,ParticlesDataMutable*>::iterator u=cachedUnsorted.find(p);
+            if(sort && u!=cachedUnsorted.end()){
+                unsorted=u->second;
+                cachedUnsorted.erase(u);
+            }
         }
     }
-    mutex.unlock();
+    if(p){
+        if(unsorted) unsorted->sort();
+        return p;
+    }
+
+    ParticlesDataMutable* p_rw=read(filename,verbose,error);
+    if(p_rw){
+        if(sort) p_rw->sort();
+        p=p_rw;
+        Lock lock(mutex);
+        cachedParticles[filename]=p;
+        cachedParticlesCount[p]=1;
+        if(!sort) cachedUnsorted[p]=p_rw;
+    }
     return p;
 }
 
@@ -85,6 +112,7 @@ void freeCached(ParticlesData* particles)
         if(i->second==0){ // ref count is now zero, remove from structure
             delete particles;
             cachedParticlesCount.erase(i);
+            cachedUnsorted.erase(particles);
             for(std::map<std::string,ParticlesData*>::iterator i2=cachedParticles.begin();
                 i2!=cachedParticles.end();++i2){
                 if(i2->second==particles){
-- 
2.43.0


From b4950dd447f6603c954e153c175149bf5aded13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 12/58] fix: guard the reader and writer tables and respect
 verbose for bad extensions

---
 src/lib/io/ParticleIO.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/lib/io/ParticleIO.cpp b/src/lib/io/ParticleIO.cpp
index ba4698f..3e253fe 100644
--- a/src/lib/io/ParticleIO.cpp
+++ b/src/lib/io/ParticleIO.cpp
@@ -52,8 +52,8 @@ readers()
 {
     static map<string,READER_FUNCTION> data;
     static bool initialized=false;
+    initializationMutex.lock();
     if(!initialized){
-	initializationMutex.lock();
         data["bgeo"]=readBGEO;
         data["bhclassic"]=readBGEO;
         data["geo"]=readGEO;
@@ -72,8 +72,8 @@ readers()
         data["itbl"]=readBGEO;
         data["atbl"]=readBGEO;
 	initialized=true;
-	initializationMutex.unlock();
     }
+    initializationMutex.unlock();
     return data;
 }
 
@@ -82,8 +82,8 @@ writers()
 {
     static map<string,WRITER_FUNCTION> data;
     static bool initialized=false;
+    initializationMutex.lock();
     if(!initialized){
-	initializationMutex.lock();
         data["bgeo"]=writeBGEO;
         data["bhclassic"]=writeBGEO;
         data["geo"]=writeGEO;
@@ -101,19 +101,19 @@ writers()
         data["itbl"]=writeBGEO;
         data["atbl"]=writeBGEO;
 	initialized=true;
-	initializationMutex.unlock();
     }
+    initializationMutex.unlock();
     return data;
 }
 
 //! Gives extension of a file ignoring any trailing .gz
 //! i.e. for 'foo.pdb.gz' it gives 'pdb', for 'foo.pdb' it gives 'pdb'
-bool extensionIgnoringGz(const string& filename,string& ret,bool &endsWithGz,std::ostream& errorStream)
+bool extensionIgnoringGz(const string& filename,string& ret,bool &endsWithGz,std::ostream* errorStream)
 {
     size_t period=filename.rfind('.');
     endsWithGz=false;
     if(period==string::npos){
-        errorStream<<"Partio: No extension detected in filename"<<endl;
+        if(errorStream) *errorStream<<"Partio: No extension detected in filename"<<endl;
         return false;
     }
     string extension=filename.substr(period+1);
@@ -121,7 +121,7 @@ bool extensionIgnoringGz(const string& filename,string& ret,bool &endsWithGz,std
         endsWithGz=true;
         size_t period2=filename.rfind('.',period-1);
         if(period2==string::npos){
-            errorStream<<"Partio: No extension detected in filename"<<endl;
+            if(errorStream) *errorStream<<"Partio: No extension detected in filename"<<endl;
             return false;
         }
         string extension2=filename.substr(period2+1,period-period2-1);
@@ -138,10 +138,10 @@ read(const char* c_filename,bool verbose,std::ostream& errorStream)
     string filename(c_filename);
     string extension;
     bool endsWithGz;
-    if(!extensionIgnoringGz(filename,extension,endsWithGz,errorStream)) return 0;
+    if(!extensionIgnoringGz(filename,extension,endsWithGz,verbose ? &errorStream : 0)) return 0;
     map<string,READER_FUNCTION>::iterator i=readers().find(extension);
     if(i==readers().end()){
-        errorStream<<"Partio: No reader defined for extension "<<extension<<endl;
+        if(verbose) errorStream<<"Partio: No reader defined for extension "<<extension<<endl;
         return 0;
     }
     return (*i->second)(c_filename,false,verbose ? &errorStream : 0);
@@ -153,10 +153,10 @@ readHeaders(const char* c_filename,bool verbose,std::ostream& errorStream)
     string filename(c_filename);
     string extension;
     bool endsWithGz;
-    if(!extensionIgnoringGz(filename,extension,endsWithGz,errorStream)) return 0;
+    if(!extensionIgnoringGz(filename,extension,endsWithGz,verbose ? &errorStream : 0)) return 0;
     map<string,READER_FUNCTION>::iterator i=readers().find(extension);
     if(i==readers().end()){
-        errorStream<<"Partio: No reader defined for extension "<<extension<<endl;
+        if(verbose) errorStream<<"Partio: No reader defined for extension "<<extension<<endl;
         return 0;
     }
     return (*i->second)(c_filename,true,verbose ? &errorStream : 0);
@@ -168,10 +168,10 @@ write(const char* c_filename,const ParticlesData& particles,const bool forceComp
     string filename(c_filename);
     string extension;
     bool endsWithGz;
-    if(!extensionIgnoringGz(filename,extension,endsWithGz,errorStream)) return;
+    if(!extensionIgnoringGz(filename,extension,endsWithGz,verbose ? &errorStream : 0)) return;
     map<string,WRITER_FUNCTION>::iterator i=writers().find(extension);
     if(i==writers().end()){
-        errorStream<<"Partio: No writer defined for extension "<<extension<<endl;
+        if(verbose) errorStream<<"Partio: No writer defined for extension "<<extension<<endl;
         return;
     }
     (*i->second)(c_filename,particles,forceCompressed || endsWithGz,verbose ? &errorStream : 0);
-- 
2.43.0


From 5c73f0fefc83344f80f2d18314b783e8f64b1d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 13/58] fix: refuse damaged BGEO files instead of using what
 they claim

Counts, types and repeated names in a damaged file no longer lead to use of a
released set, writes outside attribute storage or endless loops; strings that
occur twice in a table keep their meaning; over-long strings are clipped.
---
 src/lib/io/BGEO.cpp | 107 +++++++++++++++++++++++++++++++-------------
 src/lib/io/io.h     |  10 +++++
 2 files changed, 86 insertions(+), 31 deletions(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index e3406d3..0f23757 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -44,8 +44,10 @@ using namespace std;
 
 void writeHoudiniStr(ostream& ostream,const string& s)
 {
-    write<BIGEND>(ostream,(short)s.size());
-    ostream.write(s.c_str(),s.size());
+    // lengths are stored in 16 bits
+    const size_t length=std::min<size_t>(s.size(),0xffff);
+    write<BIGEND>(ostream,(unsigned short)length);
+    ostream.write(s.c_str(),length);
 }
 
 template<class T>
@@ -57,12 +59,14 @@ struct Helper
 template<>
 struct Helper<ParticleAttribute>
 {
+    bool hasAttribute(ParticlesDataMutable* simple, const char* name) {ParticleAttribute attr;return simple->attributeInfo(name,attr);}
     ParticleAttribute addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size) {return simple->addAttribute(name,type,size);}
     int registerIndexedStr(ParticlesDataMutable* simple, const ParticleAttribute& attribute,const char* str) {return simple->registerIndexedStr(attribute,str);}
 };
 template<>
 struct Helper<FixedAttribute>
 {
+    bool hasAttribute(ParticlesDataMutable* simple, const char* name) {FixedAttribute attr;return simple->fixedAttributeInfo(name,attr);}
     FixedAttribute addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size) {return simple->addFixedAttribute(name,type,size);}
     int registerIndexedStr(ParticlesDataMutable* simple, const FixedAttribute& attribute,const char* str) {return simple->registerFixedIndexedStr(attribute,str);}
 };
@@ -71,6 +75,7 @@ class DummyAttribute {};
 template<>
 struct Helper<DummyAttribute>
 {
+    bool hasAttribute(ParticlesDataMutable* simple, const char* name) { return false; }
     DummyAttribute addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size) { return DummyAttribute(); }
     int registerIndexedStr(ParticlesDataMutable* simple, const DummyAttribute& attribute,const char* str) { return 0; }
 };
@@ -80,17 +85,24 @@ struct DummyAccessor{
 };
 
 template<class TAttribute, class TAccessor>
-bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribute>& attrHandles, vector<TAccessor>& accessors, int nAttrib, istream* input, ParticlesDataMutable* simple, bool headersOnly, std::ostream* errorStream)
+bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribute>& attrHandles, vector<TAccessor>& accessors, vector<vector<int> >& tokens, int nAttrib, istream* input, ParticlesDataMutable* simple, bool headersOnly, std::ostream* errorStream)
 {
     Helper<TAttribute> helper;
+    tokens.resize(attrHandles.size());
     for(int i=0;i<nAttrib;i++){
-        unsigned short nameLength;
+        unsigned short nameLength=0;
         read<BIGEND>(*input,nameLength);
         char* name=new char[nameLength+1];
         input->read(name,nameLength);name[nameLength]=0;
-        unsigned short size;
-        int houdiniType;
+        unsigned short size=0;
+        int houdiniType=0;
         read<BIGEND>(*input,size,houdiniType);
+        if(!*input || helper.hasAttribute(simple,name) || particleSize>(1<<24)){
+            if(errorStream) *errorStream <<"Partio: truncated or repeated attribute definition '"<<(*input ? name : "")<<"'... aborting"<<endl;
+            delete [] name;
+            return false;
+        }
+        tokens.push_back(vector<int>());
         if(houdiniType==0 || houdiniType==1 || houdiniType==5){
             // read default values. don't do anything with them
             for(int i=0;i<size;i++) {
@@ -112,44 +124,49 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
             attrOffsets.push_back(particleSize);
             int numIndices=0;
             read<BIGEND>(*input,numIndices);
-            for(int ii=0;ii<numIndices;ii++){
-                unsigned short indexNameLength;
+            bool identity=true; // tokens differ from the file's when it repeats a string
+            for(int ii=0;ii<numIndices && *input;ii++){
+                unsigned short indexNameLength=0;
                 read<BIGEND>(*input,indexNameLength);
                 char* indexName=new char[indexNameLength+1];;
                 input->read(indexName,indexNameLength);
                 indexName[indexNameLength]=0;
                 if (!headersOnly) {
                     int id=helper.registerIndexedStr(simple,attribute,indexName);
-                    if(id != ii){
-                        if(errorStream) *errorStream <<"Partio: error on read, expected registerIndexStr to return index "<<ii<<" but got "<<id<<" for string "<<indexName<<std::endl;
-                    }
+                    if(id != ii) identity=false;
+                    tokens.back().push_back(id);
                 }
                 delete [] indexName;
             }
+            if(identity) tokens.back().clear();
             particleSize+=size;
         }else if(houdiniType==2){
             if(errorStream) *errorStream <<"Partio: found attr of type 'string', aborting"<<endl;
             delete [] name;
-            simple->release();
-            return 0;
+            return false;
         }else{
             if(errorStream) *errorStream <<"Partio: unknown attribute "<<houdiniType<<" type... aborting"<<endl;
             delete [] name;
-            simple->release();
-            return 0;
+            return false;
         }
         delete[] name;
     }
 
-    return true;
+    return bool(*input);
+}
+
+// the token to use in memory for a token found in the file
+inline int remapToken(const vector<int>& tokens, int token)
+{
+    return token>=0 && token<(int)tokens.size() ? tokens[token] : token;
 }
 
 // read buffer, seekg doesn't work with gzip
 void skip(istream *input, size_t numChars)
 {
     static const size_t bufferSize = 4096;
-    static char buffer[bufferSize];
-    while (numChars>0) {
+    char buffer[bufferSize];
+    while (numChars>0 && *input) {
         int toRead=std::min(numChars,bufferSize);
         input->read(buffer,toRead);
         numChars-=toRead;
@@ -163,14 +180,16 @@ bool skipPrimitives(int nPoints, int nPrims, int nPrimAttrib, istream* input,std
     vector<int> primAttrOffsets; // offsets in # of 32 bit offsets
     vector<DummyAttribute> primAttrHandles;
     vector<DummyAccessor> primAccessors;
-    getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, nPrimAttrib, input, 0, true, errorStream);
+    vector<vector<int> > primTokens;
+    if(!getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, primTokens, nPrimAttrib, input, 0, true, errorStream)) return false;
 
     for(int i=0;i<nPrims;i++) {
-        int primType;
+        int primType=0;
         read<BIGEND>(*input,primType);
         if(primType==0x00008000) {
-            int size;
+            int size=0;
             read<BIGEND>(*input,size);
+            if(size<0 || !*input) return false;
             if(nPoints>=(int)1<<16)
                 skip(input,size*sizeof(int));
             else
@@ -210,6 +229,11 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     read<BIGEND>(*input,nPrimGroups,nPointAttrib,nVertexAttrib,nPrimAttrib,nAttrib);
 
 
+    if(!*input || nPoints<0){
+        if(errorStream) *errorStream<<"Partio: BGEO header of '"<<filename<<"' is damaged"<<endl;
+        return 0;
+    }
+
     // Check header magic and version
     const char bgeo_magic[5]={'B','g','e','o',0};
     if(strcmp(magic,bgeo_magic)){
@@ -231,9 +255,6 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     if(headersOnly) simple=new ParticleHeaders;
     else simple=create();
 
-    simple->addParticles(nPoints);
-
-
     // Read attribute definitions
     int particleSize=4; // Size in # of 32 bit primitives 
     vector<int> attrOffsets; // offsets in # of 32 bit offsets
@@ -242,10 +263,18 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     attrOffsets.push_back(0); // pull values from byte offset
     attrHandles.push_back(simple->addAttribute("position",VECTOR,3)); // we always have one
     accessors.push_back(ParticleAccessor(attrHandles[0]));
-    getAttributes(particleSize, attrOffsets, attrHandles, accessors, nPointAttrib, input.get(), simple, headersOnly, errorStream);
+    vector<vector<int> > tokens;
+    if(!getAttributes(particleSize, attrOffsets, attrHandles, accessors, tokens, nPointAttrib, input.get(), simple, headersOnly, errorStream)
+        || !io::could_hold(filename,(double)nPoints*particleSize*sizeof(int))){
+        if(errorStream) *errorStream<<"Partio: Unable to read the attributes of '"<<filename<<"'"<<endl;
+        simple->release();
+        return 0;
+    }
+
+    simple->addParticles(nPoints);
 
     if(headersOnly) {
-        skip(input.get(),nPoints*particleSize*sizeof(int));
+        skip(input.get(),(size_t)nPoints*particleSize*sizeof(int));
     } else {
         // Read the points
         int *buffer=new int[particleSize];
@@ -254,7 +283,7 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
         ParticlesDataMutable::iterator iterator=simple->begin();
         for(size_t i=0;i<accessors.size();i++) iterator.addAccessor(accessors[i]);
 
-        for(ParticlesDataMutable::iterator end=simple->end();iterator!=end;++iterator){
+        for(ParticlesDataMutable::iterator end=simple->end();iterator!=end && *input;++iterator){
             input->read((char*)buffer,particleSize*sizeof(int));
             for(unsigned int attrIndex=0;attrIndex<attrHandles.size();attrIndex++){
                 ParticleAttribute& handle=attrHandles[attrIndex];
@@ -264,12 +293,17 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
                 int* data=accessor.raw<int>(iterator);
                 for(int k=0;k<handle.count;k++){
                     BIGEND::swap(buffer[attrOffsets[attrIndex]+k]);
-                    data[k]=buffer[attrOffsets[attrIndex]+k];
+                    data[k]=remapToken(tokens[attrIndex],buffer[attrOffsets[attrIndex]+k]);
                 }
             }
         }
         delete [] buffer;
     }
+    if(!*input){
+        if(errorStream) *errorStream<<"Partio: Unexpected end of file in '"<<filename<<"'"<<endl;
+        simple->release();
+        return 0;
+    }
 
     if (!skipPrimitives(nPoints, nPrims, nPrimAttrib, input.get(),errorStream)) return simple;
 
@@ -277,7 +311,12 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     vector<int> fixedAttrOffsets; // offsets in # of 32 bit offsets
     vector<FixedAttribute> fixedAttrHandles;
     vector<DummyAccessor> fixedAccessors;
-    getAttributes(particleSize, fixedAttrOffsets, fixedAttrHandles, fixedAccessors, nAttrib, input.get(), simple, headersOnly, errorStream);
+    vector<vector<int> > fixedTokens;
+    if(!getAttributes(particleSize, fixedAttrOffsets, fixedAttrHandles, fixedAccessors, fixedTokens, nAttrib, input.get(), simple, headersOnly, errorStream)){
+        if(errorStream) *errorStream<<"Partio: Unable to read the detail attributes of '"<<filename<<"'"<<endl;
+        simple->release();
+        return 0;
+    }
 
     if (headersOnly) return simple;
 
@@ -290,10 +329,15 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
         // a different endian swapper
         for(int k=0;k<handle.count;k++){
             BIGEND::swap(fixedBuffer[fixedAttrOffsets[attrIndex]+k]);
-            simple->fixedDataWrite<int>(fixedAttrHandles[attrIndex])[k]=fixedBuffer[fixedAttrOffsets[attrIndex]+k];
+            simple->fixedDataWrite<int>(fixedAttrHandles[attrIndex])[k]=remapToken(fixedTokens[attrIndex],fixedBuffer[fixedAttrOffsets[attrIndex]+k]);
         }
     }
     delete [] fixedBuffer;
+    if(!*input){
+        if(errorStream) *errorStream<<"Partio: Unexpected end of file in '"<<filename<<"'"<<endl;
+        simple->release();
+        return 0;
+    }
 
     // return the populated simpleParticle
     return simple;
@@ -331,6 +375,7 @@ bool writeBGEO(const char* filename,const ParticlesData& p,const bool compressed
         ParticleAttribute attr;
         p.attributeInfo(i,attr);
         if(attr.name=="position"){
+            if(attr.type==INT || attr.type==INDEXEDSTR || attr.count!=3) break; // not what the format calls position
             attrOffsets.push_back(0);
             foundPosition=true;
         }else{
@@ -366,7 +411,7 @@ bool writeBGEO(const char* filename,const ParticlesData& p,const bool compressed
         accessors.push_back(ParticleAccessor(handles.back()));
     }
     if(!foundPosition){
-        if(errorStream) *errorStream <<"Partio: didn't find attr 'position' while trying to write GEO"<<endl;
+        if(errorStream) *errorStream <<"Partio: didn't find attr 'position' while trying to write BGEO"<<endl;
         return false;
     }
 
diff --git a/src/lib/io/io.h b/src/lib/io/io.h
index e2d1874..05123da 100644
--- a/src/lib/io/io.h
+++ b/src/lib/io/io.h
@@ -51,5 +51,15 @@ inline std::unique_ptr<std::ostream> write(const std::string& filename)
     return output;
 }
 
+// Whether a file (possibly gzipped, which shrinks data at most about 1032 times)
+// is long enough to hold the given number of bytes. Readers ask this before they
+// allocate what a file only claims to contain.
+inline bool could_hold(const std::string& filename, double bytes)
+{
+    std::ifstream input(filename, std::ios::in | std::ios::binary | std::ios::ate);
+    const std::streamoff size = input ? std::streamoff(input.tellg()) : -1;
+    return size < 0 || bytes <= 1040.0 * (double(size) + 1);
+}
+
 }  // io
 }  // Partio
-- 
2.43.0


From bca4b7405e05b6b716508e1b3ffc0a2ed4ce0610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:45 +0000
Subject: [PATCH 14/58] fix: read GEO files without point attributes and refuse
 damaged ones

Files whose points carry only a position lost their data, string attributes
were always read as one component, long strings overran a buffer, and a file
that ended early gave uninitialised values.
---
 src/lib/io/GEO.cpp | 104 +++++++++++++++++++++++++++------------------
 1 file changed, 63 insertions(+), 41 deletions(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index f08a8b6..8806dfd 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -65,38 +65,24 @@ void writeString(std::ostream& output,const char* s){
 
 string scanString(istream& input)
 {
-    // TODO: this code does not check for buf overrun
-    // TODO: this code doesn't properly check for FEOF condition
-    char buf[4096];
-    char *ptr=buf;
-    char c;
-    while(input.good()){
-        input.get(c);
-        if(!isspace(c)) break;
+    string result;
+    char c=0;
+    while(input.get(c)){
+        if(!isspace((unsigned char)c)) break;
     }
-    if(!input.good()) return "";
+    if(!input) return "";
 
     if(c!='"'){
-        while(input.good()){
-            *ptr++=c;
-            input.get(c);
-            if(isspace(c)) break;
-        }
+        do{
+            result+=c;
+        }while(input.get(c) && !isspace((unsigned char)c));
     }else{
-        while(input.good()){
-            input.get(c);
-            if(c=='\\'){
-                input.get(c);
-                *ptr++=c;
-            }else if(c=='"'){
-                break;
-            }else{
-                *ptr++=c;
-            }
+        while(input.get(c) && c!='"'){
+            if(c=='\\' && !input.get(c)) break;
+            result+=c;
         }
     }
-    *ptr++=0;
-    return string(buf);
+    return result;
 }
 
 ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::ostream* errorStream)
@@ -119,10 +105,11 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         if(word=="NPoints") *input>>NPoints;
         else if(word=="NPointAttrib"){*input>>NPointAttrib;break;}
     }
-    // skip until PointAttrib
+    // skip until PointAttrib, or to the end of the header if there are none
     while(input->good()){
         *input>>word;
-        if(word=="PointAttrib") break;
+        if(NPointAttrib>0 && word=="PointAttrib") break;
+        if(NPointAttrib==0 && word=="NAttrib"){*input>>word;break;}
     }
     // read attribute descriptions
     int attrInfoRead = 0;
@@ -132,32 +119,39 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
 
     vector<ParticleAttribute> attrs;
     vector<ParticleAccessor> accessors;
+    vector<vector<int> > tokens; // of each attribute whose tokens differ from the file's
+    double pointBytes=8; // a point takes at least this many characters
     while (input->good() && attrInfoRead < NPointAttrib) {
         string attrName, attrType;
         int nvals = 0;
         *input >> attrName >> nvals >> attrType;
+        ParticleAttribute existing;
+        if(!*input || nvals<0 || nvals>(1<<24) || simple->attributeInfo(attrName.c_str(),existing)) break;
+        tokens.push_back(vector<int>());
+        pointBytes+=2.*nvals;
         if(attrType=="index"){
             if(errorStream) *errorStream<<"Partio: attr '"<<attrName<<"' of type index (string) found, treating as integer"<<endl;
             int nIndices=0;
             *input>>nIndices;
-            ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),INDEXEDSTR,1);
+            ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),INDEXEDSTR,nvals);
             attrs.push_back(attribute);
-            for(int j=0;j<nIndices;j++){
+            bool identity=true;
+            for(int j=0;j<nIndices && *input;j++){
                 string indexName;
                 //*input>>indexName;
                 indexName=scanString(*input);
                 if (!headersOnly) {
                     int id=simple->registerIndexedStr(attribute,indexName.c_str());
-                    if(id != j){
-                        if(errorStream) *errorStream<<"Partio: error on read, expected registerIndexStr to return index "<<j<<" but got "<<id<<" for string "<<indexName<<endl;
-                    }
+                    if(id != j) identity=false;
+                    tokens.back().push_back(id);
                 }
             }
+            if(identity) tokens.back().clear();
             accessors.push_back(ParticleAccessor(attrs.back()));
             attrInfoRead++;
             
         }else{
-            for (int i=0;i<nvals;i++) {
+            for (int i=0;i<nvals && *input;i++) {
                 float defval;
                 *input>>defval;
             }
@@ -168,7 +162,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
             else if(attrType=="int") type=INT;
             else{
                 if(errorStream) *errorStream<<"Partio: unknown attribute "<<attrType<<" type... aborting"<<endl;
-                type=NONE;
+                break;
             }
             attrs.push_back(simple->addAttribute(attrName.c_str(),type,nvals));
             accessors.push_back(ParticleAccessor(attrs.back()));
@@ -176,6 +170,12 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         }
     }
 
+    if(!*input || attrInfoRead<NPointAttrib || NPoints<0 || !io::could_hold(filename,NPoints*pointBytes)){
+        if(errorStream) *errorStream<<"Partio: Unable to read the header of "<<filename<<endl;
+        simple->release();
+        return 0;
+    }
+
     simple->addParticles(NPoints);
 
     ParticlesDataMutable::iterator iterator=simple->begin();
@@ -187,7 +187,8 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
     
     float fval;
     // TODO: fix
-    for(ParticlesDataMutable::iterator end=simple->end();iterator!=end  && input->good();++iterator){
+    bool complete=true;
+    for(ParticlesDataMutable::iterator end=simple->end();iterator!=end && complete;++iterator){
         float* posInternal=positionAccessor.raw<float>(iterator); 
         for(int i=0;i<3;i++) *input>>posInternal[i];
         *input>>fval;
@@ -195,22 +196,38 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         
         // skip open paren
         char paren = 0;
-        *input>> paren;
-        if (paren != '(') break;
+        if(attrs.size()){
+            *input>> paren;
+            if (paren != '('){complete=false;break;}
+        }
         
         // read additional attribute values
         for (unsigned int i=0;i<attrs.size();i++){
             switch(attrs[i].type){
-                case NONE: assert(false);break;
+                case NONE: break;
                 case FLOAT: readGeoAttr<FLOAT>(*input,attrs[i],accessors[i],iterator);break;
                 case VECTOR: readGeoAttr<VECTOR>(*input,attrs[i],accessors[i],iterator);break;
                 case INT: readGeoAttr<INT>(*input,attrs[i],accessors[i],iterator);break;
                 case INDEXEDSTR: readGeoAttr<INDEXEDSTR>(*input,attrs[i],accessors[i],iterator);break;
             }
         }
+        for (unsigned int i=0;i<attrs.size();i++){
+            if(tokens[i].empty()) continue;
+            int* data=accessors[i].raw<int>(iterator);
+            for(int k=0;k<attrs[i].count;k++)
+                if(data[k]>=0 && data[k]<(int)tokens[i].size()) data[k]=tokens[i][data[k]];
+        }
         // skip closing parenthes
-        *input >> paren;
-        if (paren != ')') break;
+        if(attrs.size()){
+            *input >> paren;
+            if (paren != ')') complete=false;
+        }
+        if(!*input) complete=false;
+    }
+    if(!complete){
+        if(errorStream) *errorStream<<"Partio: Unexpected data or end of file in "<<filename<<endl;
+        simple->release();
+        return 0;
     }
     return simple;
 }
@@ -230,6 +247,10 @@ void writeType(ostream& output,const ParticlesData&,const ParticleAttribute& att
 bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
+    if(!*output){
+        if(errorStream) *errorStream<<"Partio: Unable to open file "<<filename<<endl;
+        return false;
+    }
     *output<<"PGEOMETRY V5"<<endl;
     *output<<"NPoints "<<p.numParticles()<<" NPrims "<<1<<endl;
     *output<<"NPointGroups "<<0<<" NPrimGroups "<<0<<endl;
@@ -245,6 +266,7 @@ bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,
         ParticleAttribute attrib;
         p.attributeInfo(i,attrib);
         if(attrib.name=="position"){
+            if(attrib.type==INT || attrib.type==INDEXEDSTR || attrib.count!=3) break; // not what the format calls position
             positionHandle=attrib;
             positionAccessor=ParticleAccessor(positionHandle);
             foundPosition=true;
-- 
2.43.0


From 74301936137185093482cd15906f9408c5e86d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:49 +0000
Subject: [PATCH 15/58] fix: tell 32 and 64 bit PDB files apart and refuse
 damaged ones

The files written for .pdb were taken for the 64 bit variant and read back
wrong.
---
 src/lib/io/PDB.cpp | 70 +++++++++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 22 deletions(-)

diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index a296535..33ec1b2 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -40,6 +40,9 @@ namespace PDB{
 #include "pdb.h"
 }
 #include "io.h"
+#include <cstddef>
+#include <cstring>
+#include <limits>
 
 namespace Partio
 {
@@ -98,8 +101,14 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
     typename PDB_POLICY<bits>::HEADER header;
 
     input->read((char*)&header,sizeof(typename PDB_POLICY<bits>::HEADER));
-    if(header.magic != PDB_MAGIC){
+    if(!*input || header.magic != PDB_MAGIC){
         if(errorStream) *errorStream<<"Partio: failed to get PDB magic"<<endl;
+        simple->release();
+        return 0;
+    }
+    if(header.data_size > (unsigned int)std::numeric_limits<int>::max()){
+        if(errorStream) *errorStream<<"Partio: too many particles in "<<filename<<endl;
+        simple->release();
         return 0;
     }
 
@@ -119,8 +128,15 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
 
         typename PDB_POLICY<bits>::CHANNEL_DATA channelData;
         input->read((char*)&channelData,sizeof(channelData));
+        const double totalSize=(double)header.data_size*channelData.datasize;
+        ParticleAttribute existing;
+        if(!*input || channelData.datasize>(1u<<24) || !io::could_hold(filename,totalSize)
+            || simple->attributeInfo(name.c_str(),existing)){
+            if(errorStream) *errorStream<<"Partio: Attribute '"<<name<<"' of "<<filename<<" is damaged"<<endl;
+            simple->release();
+            return 0;
+        }
 
-        
         ParticleAttributeType type;
         switch(channelHeader.type){
             case PDB_VECTOR: type=VECTOR;break;
@@ -128,15 +144,16 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
             case PDB_LONG: type=INT;break;
             default: type=NONE;break;
         }
-        int size=header.data_size*channelData.datasize;
+        if(type!=NONE && channelData.datasize%TypeSize(type)) type=NONE;
+        size_t size=(size_t)totalSize;
 
         // Read data or skip if we haven't found appropriate type handle
         if(type==NONE){
             char buf[1024];
-            int toSkip=size;
-            while(toSkip>0){
-                input->read(buf,min(toSkip,1024));
-                toSkip-=1024;
+            for(size_t toSkip=size;toSkip>0 && *input;){
+                size_t chunk=min(toSkip,sizeof(buf));
+                input->read(buf,chunk);
+                toSkip-=chunk;
             }
             if(errorStream) *errorStream<<"Partio: Attribute '"<<name<<"' cannot map type"<<endl;
         }else{
@@ -144,21 +161,26 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
             ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,count);
             if(headersOnly){
                 char buf[1024];
-                int toSkip=size;
-                while(toSkip>0){
-                    input->read(buf,min(toSkip,1024));
-                    toSkip-=1024;
+                for(size_t toSkip=size;toSkip>0 && *input;){
+                    size_t chunk=min(toSkip,sizeof(buf));
+                    input->read(buf,chunk);
+                    toSkip-=chunk;
                 }
             }else{
                 Partio::ParticlesDataMutable::iterator it=simple->begin();
                 Partio::ParticleAccessor accessor(attrHandle);
                 it.addAccessor(accessor);
 
-                for(Partio::ParticlesDataMutable::iterator end=simple->end();it!=end;++it){
+                for(Partio::ParticlesDataMutable::iterator end=simple->end();it!=end && *input;++it){
                     input->read(accessor.raw<char>(it),sizeof(float)*attrHandle.count);
                 }
             }
         }
+        if(!*input){
+            if(errorStream) *errorStream<<"Partio: Unexpected end of file in "<<filename<<endl;
+            simple->release();
+            return 0;
+        }
     }
     return simple;
 }
@@ -257,19 +279,23 @@ ParticlesDataMutable* readPDB(const char* filename,const bool headersOnly,std::o
         if(errorStream) *errorStream <<"Partio: Unable to open file "<<filename<<endl;
         return 0;
     }
-    // Read header and add as many particles as found
-    PDB_POLICY<64>::HEADER header;
-    input->read((char*)&header,sizeof(header));
-    if(header.magic != PDB_MAGIC){
+    // The two variants differ in the size of the header and in where the first channel holds its
+    // type, so read as much as the longer one needs and see where a valid type is found.
+    const size_t offset32=sizeof(PDB_POLICY<32>::HEADER)+sizeof(PDB_POLICY<32>::CHANNEL_IO)+offsetof(PDB_POLICY<32>::CHANNEL,type);
+    const size_t offset64=sizeof(PDB_POLICY<64>::HEADER)+sizeof(PDB_POLICY<64>::CHANNEL_IO)+offsetof(PDB_POLICY<64>::CHANNEL,type);
+    char start[offset64+sizeof(int)]={0};
+    input->read(start,sizeof(start));
+    int magic,type32,type64;
+    memcpy(&magic,start,sizeof(int));
+    memcpy(&type32,start+offset32,sizeof(int));
+    memcpy(&type64,start+offset64,sizeof(int));
+    if(magic != PDB_MAGIC){
         if(errorStream) *errorStream <<"Partio: failed to get PDB magic"<<endl;
         return 0;
     }
-    // Now read a channel io ... and see if the the swap is zero or one and encoding is zero. If so then we probably god a good thing
-    // if not, then we assume 64 bit.
-    PDB_POLICY<64>::CHANNEL_IO channelIOHeader;
-    input->read((char*)&channelIOHeader,sizeof(channelIOHeader));
-    //cout<<"we got channel io as "<<int(channelIOHeader.type)<<" swap is "<<channelIOHeader.swap<<endl;
-    if(channelIOHeader.type > 5  || channelIOHeader.type < 0 || (channelIOHeader.swap != 1 && channelIOHeader.swap != 0)){
+    const bool valid32=type32>=PDB_VECTOR && type32<=PDB_POINTERT;
+    const bool valid64=type64>=PDB_VECTOR && type64<=PDB_POINTERT;
+    if(valid32 || !valid64){
         return readPDBHelper<32>(filename,headersOnly,errorStream);
     }else{
         return readPDBHelper<64>(filename,headersOnly,errorStream);
-- 
2.43.0


From 83e76a8d8dc0bf10385cd06e876c6a83ae62437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:08 +0000
Subject: [PATCH 16/58] fix: write and read only what a PDA file can hold

Attributes of other widths shifted all columns after them; unknown types, a
missing or short header and an early end of the file are now refused.
---
 src/lib/io/PDA.cpp | 51 ++++++++++++++++++++++++++++++++++------------
 src/lib/io/io.h    |  9 ++++++++
 2 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index 33edab8..864a4e4 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -34,6 +34,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 */
 #include "../core/ParticleHeaders.h"
 #include "io.h"
+#include <limits>
 
 namespace Partio
 {
@@ -78,26 +79,37 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
 
         if(index>=attrNames.size()) continue;
 
+        ParticleAttribute existing;
+        if(simple->attributeInfo(attrNames[index].c_str(),existing)) break;
         if(word=="V"){
             attrs.push_back(simple->addAttribute(attrNames[index].c_str(),Partio::VECTOR,3));
         }else if(word=="R"){
             attrs.push_back(simple->addAttribute(attrNames[index].c_str(),Partio::FLOAT,1));
         }else if(word=="I"){
             attrs.push_back(simple->addAttribute(attrNames[index].c_str(),Partio::INT,1));
-        }
+        }else break;
 
         index++;
     }
 
+    if(!*input || word!="NUMBER_OF_PARTICLES:" || index<attrNames.size()){
+        if(errorStream) *errorStream <<"Partio: Unable to read the attributes of "<<filename<<endl;
+        simple->release();
+        return 0;
+    }
+
     unsigned int num=0;
-    if(input->good()){
-        *input>>num;
-        simple->addParticles(num);
-        if(headersOnly) return simple; // escape before we try to touch data
-    }else{
+    int components=0;
+    for(size_t i=0;i<attrs.size();i++) components+=attrs[i].count;
+    *input>>num;
+    // every value takes at least two characters
+    if(!*input || num>(unsigned int)std::numeric_limits<int>::max() || !io::could_hold(filename,2.*components*num)){
+        if(errorStream) *errorStream <<"Partio: Unable to read the number of particles of "<<filename<<endl;
         simple->release();
         return 0;
     }
+    simple->addParticles(num);
+    if(headersOnly) return simple; // escape before we try to touch data
     
     // look for beginning of header
     if(input->good()){
@@ -110,8 +122,8 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
     }
 
     // Read actual particle data
-    if(!input->good()){simple->release();return 0;}
-    for(unsigned int particleIndex=0;input->good() && particleIndex<num; particleIndex++) {
+    if(!*input){simple->release();return 0;}
+    for(unsigned int particleIndex=0;*input && particleIndex<num; particleIndex++) {
         for(unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++){
             if(attrs[attrIndex].type==Partio::INT){
                 int* data=simple->dataWrite<int>(attrs[attrIndex],particleIndex);
@@ -130,6 +142,11 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
             }
         }
     }
+    if(!*input){
+        if(errorStream) *errorStream <<"Partio: Unexpected data or end of file in "<<filename<<endl;
+        simple->release();
+        return 0;
+    }
     
     return simple;
 }
@@ -137,19 +154,27 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
 bool writePDA(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
+    if(!*output){
+        if(errorStream) *errorStream <<"Partio: Unable to open file "<<filename<<endl;
+        return false;
+    }
     *output<<"ATTRIBUTES"<<endl;
 
     vector<ParticleAttribute> attrs;
     for (int aIndex=0;aIndex<p.numAttributes();aIndex++){
-        attrs.push_back(ParticleAttribute());
-        p.attributeInfo(aIndex,attrs[aIndex]);
-        *output<<" "<<attrs[aIndex].name;
+        ParticleAttribute attr;
+        p.attributeInfo(aIndex,attr);
+        if(attr.count!=(attr.type==VECTOR ? 3 : 1) || !io::is_word(attr.name)){
+            if(errorStream) *errorStream <<"Partio: Unable to write attribute '"<<attr.name<<"' of type "<<TypeName(attr.type)<<"["<<attr.count<<"] to a pda file"<<endl;
+            continue;
+        }
+        attrs.push_back(attr);
+        *output<<" "<<attr.name;
     }
     *output<<endl;
 
-    // TODO: assert right count
     *output<<"TYPES"<<endl;
-    for (int aIndex=0;aIndex<p.numAttributes();aIndex++){
+    for (size_t aIndex=0;aIndex<attrs.size();aIndex++){
         switch(attrs[aIndex].type){
             case FLOAT: *output<<" R";break;
             case VECTOR: *output<<" V";break;
diff --git a/src/lib/io/io.h b/src/lib/io/io.h
index 05123da..bb86bb6 100644
--- a/src/lib/io/io.h
+++ b/src/lib/io/io.h
@@ -1,6 +1,7 @@
 #pragma once
 #include "ZIP.h"
 
+#include <cctype>
 #include <fstream>
 #include <ios>
 #include <iosfwd>
@@ -51,6 +52,14 @@ inline std::unique_ptr<std::ostream> write(const std::string& filename)
     return output;
 }
 
+// Whether a name can be written as one word of a text format
+inline bool is_word(const std::string& name)
+{
+    for (size_t i = 0; i < name.size(); i++)
+        if (std::isspace(static_cast<unsigned char>(name[i]))) return false;
+    return !name.empty();
+}
+
 // Whether a file (possibly gzipped, which shrinks data at most about 1032 times)
 // is long enough to hold the given number of bytes. Readers ask this before they
 // allocate what a file only claims to contain.
-- 
2.43.0


From 00bc5cd3275c96da4a598f173c6d9516eb5c28ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:08 +0000
Subject: [PATCH 17/58] fix: leave attributes with unwritable names out of GEO
 files

---
 src/lib/io/GEO.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 8806dfd..068d589 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -251,12 +251,18 @@ bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,
         if(errorStream) *errorStream<<"Partio: Unable to open file "<<filename<<endl;
         return false;
     }
+    int nPointAttrib=0;
+    for(int i=0;i<p.numAttributes();i++){
+        ParticleAttribute attrib;
+        p.attributeInfo(i,attrib);
+        if(attrib.name!="position" && io::is_word(attrib.name)) nPointAttrib++;
+    }
     *output<<"PGEOMETRY V5"<<endl;
     *output<<"NPoints "<<p.numParticles()<<" NPrims "<<1<<endl;
     *output<<"NPointGroups "<<0<<" NPrimGroups "<<0<<endl;
-    *output<<"NPointAttrib "<<p.numAttributes()-1<<" NVertexAttrib "<<0<<" NPrimAttrib 1 NAttrib 0"<<endl;
+    *output<<"NPointAttrib "<<nPointAttrib<<" NVertexAttrib "<<0<<" NPrimAttrib 1 NAttrib 0"<<endl;
 
-    if(p.numAttributes()-1>0) *output<<"PointAttrib"<<endl;
+    if(nPointAttrib>0) *output<<"PointAttrib"<<endl;
     ParticleAttribute positionHandle;
     ParticleAccessor positionAccessor(positionHandle);
     bool foundPosition=false;
@@ -270,6 +276,9 @@ bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,
             positionHandle=attrib;
             positionAccessor=ParticleAccessor(positionHandle);
             foundPosition=true;
+        }else if(!io::is_word(attrib.name)){
+            if(errorStream) *errorStream<<"Partio: Unable to write attribute '"<<attrib.name<<"' to a geo file"<<endl;
+            continue;
         }else{
             handles.push_back(attrib);
             accessors.push_back(ParticleAccessor(handles.back()));
-- 
2.43.0


From c11b9bd2ef1324c44608a3dca468dcbfb5687041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:08 +0000
Subject: [PATCH 18/58] fix: keep integers in PDC files and skip types the
 reader does not use

Integers were written as the doubles their bits happen to spell, attributes
of other widths disturbed the file, reading only the headers failed on
compressed files, and damaged files were trusted.
---
 src/lib/io/PDC.cpp | 84 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 70 insertions(+), 14 deletions(-)

diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index baf466c..7a20d1f 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -48,6 +48,9 @@ using namespace std;
 
 static const int PDC_MAGIC = (((((' '<<8)|'C')<<8)|'D')<<8)|'P'; // " CDP"
 
+// types of attributes
+enum { PDC_INT, PDC_INT_ARRAY, PDC_DOUBLE, PDC_DOUBLE_ARRAY, PDC_VECTOR, PDC_VECTOR_ARRAY };
+
 typedef struct{
     int magic;
     int version;
@@ -61,6 +64,8 @@ typedef struct{
 string readName(istream& input){
     int nameLen = 0;
     read<BIGEND>(input, nameLen);
+    if(nameLen < 0 || nameLen > (1<<20)) input.setstate(ios::failbit);
+    if(!input) return "";
     char* name = new char[nameLen];
     input.read(name, nameLen);
     string result(name, name+nameLen);
@@ -77,8 +82,9 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
     }
 
     PDC_HEADER header;
+    header.magic = 0;
     input->read((char*)&header, sizeof(header));
-    if(PDC_MAGIC != header.magic){
+    if(!*input || PDC_MAGIC != header.magic){
         if(errorStream) *errorStream << "Partio: Magic number '" << header.magic << "' of '" << filename << "' doesn't match pdc magic '" << PDC_MAGIC << "'" << std::endl;
         return 0;
     }
@@ -86,36 +92,73 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
     BIGEND::swap(header.numParticles);
     BIGEND::swap(header.numAttrs);
 
+    if(header.numParticles < 0){
+        if(errorStream) *errorStream << "Partio: negative number of particles in " << filename << std::endl;
+        return 0;
+    }
+
     ParticlesDataMutable* simple = headersOnly ? new ParticleHeaders: create();
     simple->addParticles(header.numParticles);
 
     for(int attrIndex = 0; attrIndex < header.numAttrs; attrIndex++){
         // add attribute
         ParticleAttribute attr;
+        attr.type = NONE;
         string attrName = readName(*input);
-        int type;
+        int type = -1;
         read<BIGEND>(*input, type);
-        if(type == 3){
+        // attributes of other types are skipped
+        size_t skipBytes = 0;
+        ParticleAttribute existing;
+        bool valid = *input && !simple->attributeInfo(attrName.c_str(), existing);
+        switch(type){
+            case PDC_INT: skipBytes = sizeof(int); break;
+            case PDC_INT_ARRAY: skipBytes = sizeof(int)*(size_t)header.numParticles; break;
+            case PDC_DOUBLE: skipBytes = sizeof(double); break;
+            case PDC_DOUBLE_ARRAY: skipBytes = sizeof(double)*(size_t)header.numParticles; break;
+            case PDC_VECTOR: skipBytes = 3*sizeof(double); break;
+            case PDC_VECTOR_ARRAY: skipBytes = 3*sizeof(double)*(size_t)header.numParticles; break;
+            default: valid = false;
+        }
+        if(!valid || !io::could_hold(filename, (double)skipBytes)){
+            if(errorStream) *errorStream << "Partio: unable to read attribute '" << attrName << "' of type " << type << " in " << filename << std::endl;
+            simple->release();
+            return 0;
+        }
+
+        if(type == PDC_INT_ARRAY){
+            attr = simple->addAttribute(attrName.c_str(), INT, 1);
+        }
+        else if(type == PDC_DOUBLE_ARRAY){
             attr = simple->addAttribute(attrName.c_str(), FLOAT, 1);
         }
-        else if(type == 5){
+        else if(type == PDC_VECTOR_ARRAY){
             attr = simple->addAttribute(attrName.c_str(), VECTOR, 3);
         }
 
-        // if headersOnly, skip
-        if(headersOnly){
-            input->seekg((int)input->tellg() + header.numParticles*sizeof(double)*attr.count);
-            continue;
+        if(headersOnly || attr.type == NONE){
+            input->ignore(skipBytes);
+            if((size_t)input->gcount() != skipBytes) input->setstate(ios::failbit);
+        }
+        else if(attr.type == INT){
+            for(int partIndex = 0; partIndex < simple->numParticles() && *input; partIndex++){
+                read<BIGEND>(*input, simple->dataWrite<int>(attr, partIndex)[0]);
+            }
         }
         else{
             double tmp[3];
-            for(int partIndex = 0; partIndex < simple->numParticles(); partIndex++){
+            for(int partIndex = 0; partIndex < simple->numParticles() && *input; partIndex++){
                 for(int dim = 0; dim < attr.count; dim++){
                     read<BIGEND>(*input, tmp[dim]);
                     simple->dataWrite<float>(attr, partIndex)[dim] = (float)tmp[dim];
                 }
             }
         }
+        if(!*input){
+            if(errorStream) *errorStream << "Partio: unexpected end of file in " << filename << std::endl;
+            simple->release();
+            return 0;
+        }
     }
 
     return simple;
@@ -128,6 +171,15 @@ bool writePDC(const char* filename,const ParticlesData& p,const bool compressed,
         return false;
     }
 
+    // what the format can hold
+    vector<ParticleAttribute> attrs;
+    for(int attrIndex = 0; attrIndex < p.numAttributes(); attrIndex++){
+        ParticleAttribute attr;
+        p.attributeInfo(attrIndex,attr);
+        if(attr.count == (attr.type == VECTOR ? 3 : 1)) attrs.push_back(attr);
+        else if(errorStream) *errorStream << "Partio: Unable to write data type " << TypeName(attr.type) << "[" << attr.count << "] to a pdc file" << endl;
+    }
+
     // write .pdc header
     write<LITEND>(*output, PDC_MAGIC);
     write<BIGEND>(*output, (int)1); // version
@@ -135,25 +187,29 @@ bool writePDC(const char* filename,const ParticlesData& p,const bool compressed,
     write<BIGEND>(*output, (int)0); // tmp1
     write<BIGEND>(*output, (int)0); // tmp2
     write<BIGEND>(*output, (int)p.numParticles());
-    write<BIGEND>(*output, (int)p.numAttributes());
+    write<BIGEND>(*output, (int)attrs.size());
 
-    for(int attrIndex = 0; attrIndex < p.numAttributes(); attrIndex++){
-        ParticleAttribute attr;
-        p.attributeInfo(attrIndex,attr);
+    for(size_t attrIndex = 0; attrIndex < attrs.size(); attrIndex++){
+        const ParticleAttribute& attr = attrs[attrIndex];
 
         // write attribute name
         write<BIGEND>(*output, (int)attr.name.length());
         output->write(attr.name.c_str(), (int)attr.name.length());
 
         // write type
+        const bool isInt = attr.type == INT || attr.type == INDEXEDSTR;
         int count = 1; // FLOAT
         if(attr.type == VECTOR){
             count = 3;
         }
-        write<BIGEND>(*output, (int)(count+2));
+        write<BIGEND>(*output, isInt ? (int)PDC_INT_ARRAY : (int)(count+2));
 
         // write data
         for(int partIndex = 0; partIndex < p.numParticles(); partIndex++){
+            if(isInt){
+                write<BIGEND>(*output, p.data<int>(attr, partIndex)[0]);
+                continue;
+            }
             const float* data = p.data<float>(attr, partIndex);
             for(int dim = 0; dim < count; dim++){
                 write<BIGEND>(*output, (double)data[dim]);
-- 
2.43.0


From a339f190fc1e0fa6ab11f02f5cf1dabaf16371db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:08 +0000
Subject: [PATCH 19/58] fix: keep vectors vectors in PTC files and refuse
 damaged ones

String attributes were written as the floats their tokens spell, and
attributes of unexpected types or widths were read out of bounds.
---
 src/lib/io/PTC.cpp | 58 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 3448d6f..3a724f2 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -41,6 +41,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 
 #include <cmath>
 #include <cfloat>
+#include <limits>
 #include <sstream>
 
 namespace Partio
@@ -69,10 +70,10 @@ bool ParseSpec(const string& spec,string& typeName,string& name)
     // TODO: make more robust
     const char* s=spec.c_str();
     typeName="";name="";
-    while(*s!=' ') typeName+=*s++;
+    while(*s && *s!=' ') typeName+=*s++;
     while(*s==' ') s++;
-    while(*s!='\n') name+=*s++;
-    return true;
+    while(*s && *s!='\n') name+=*s++;
+    return *s=='\n';
 }
 
 ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::ostream* errorStream)
@@ -83,21 +84,21 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
         return 0;
     }
 
-    int magic;
+    int magic=0;
     read<LITEND>(*input,magic);
     if(ptc_magic!=magic){
         if(errorStream) *errorStream <<"Partio: Magic number '"<<magic<<"' of '"<<filename<<"' doesn't match pptc magic '"<<ptc_magic<<"'"<<endl;
         return 0;
     }
 
-    int version;
+    int version=0;
     read<LITEND>(*input,version);
     if(version>2){
         if(errorStream) *errorStream <<"Partio: ptc reader only supports version 2 or less"<<endl;
         return 0;
     }
 
-    double nPoints;
+    double nPoints=0;
     read<LITEND>(*input,nPoints);
 
     // TODO: allow access to this in the headers only mode for times when only bbox is necessary
@@ -122,14 +123,17 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
     float imgWidth,imgHeight,imgDepth;
     read<LITEND>(*input,imgWidth,imgHeight,imgDepth);
 
-    int nVars,dataSize;
+    int nVars=0,dataSize=0;
     read<LITEND>(*input,nVars,dataSize);
+    if(!*input || !(nPoints>=0 && nPoints<=(double)std::numeric_limits<int>::max())){
+        if(errorStream) *errorStream <<"Partio: the header of '"<<filename<<"' is damaged"<<endl;
+        return 0;
+    }
 
     // Allocate a simple particle with the appropriate number of points
     ParticlesDataMutable* simple=0;
     if(headersOnly) simple=new ParticleHeaders;
     else simple=create();
-    simple->addParticles((int)nPoints);
 
     // PTC files always have something for these items, so allocate the data
     vector<ParticleAttribute> attrHandles;
@@ -141,7 +145,7 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
     // data types are "float", "point", "vector", "normal", "color", or "matrix"
     int parsedSize=0;
     for(int chanNum=0;chanNum<nVars;chanNum++){
-        ParseSpec(GetString(*input,'\n'),typeName,name);
+        if(!ParseSpec(GetString(*input,'\n'),typeName,name)) typeName="";
 
         int dataSize=0;
         ParticleAttributeType dataType;
@@ -182,6 +186,12 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
         simple->release();
         return 0;
     }
+    if(!io::could_hold(filename,nPoints*(20.+4.*dataSize))){
+        if(errorStream) *errorStream <<"Partio: '"<<filename<<"' is too short for its number of particles"<<endl;
+        simple->release();
+        return 0;
+    }
+    simple->addParticles((int)nPoints);
 
     // If all we care about is headers, then return.  
     if(headersOnly){
@@ -191,7 +201,7 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
     // more weird input attributes
     if(version>=1) for(int i=0;i<2;i++) read<LITEND>(*input,dummy);
 
-    for(int pointIndex=0;pointIndex<nPoints;pointIndex++){
+    for(int pointIndex=0;pointIndex<nPoints && *input;pointIndex++){
         float* pos=simple->dataWrite<float>(positionHandle,pointIndex);
         read<LITEND>(*input,pos[0],pos[1],pos[2]);
 
@@ -225,10 +235,20 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
         }
 
     }
+    if(!*input){
+        if(errorStream) *errorStream <<"Partio: Unexpected end of file in '"<<filename<<"'"<<endl;
+        simple->release();
+        return 0;
+    }
 
     return simple;
 }
 
+static bool isFloats(const ParticleAttribute& attr,int count)
+{
+    return attr.count==count && (attr.type==FLOAT || attr.type==VECTOR);
+}
+
 bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
@@ -246,9 +266,9 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
     write<LITEND>(*output,numParticlesAsDouble);
 
     ParticleAttribute positionHandle,normalHandle,radiusHandle;
-    bool foundPosition=p.attributeInfo("position",positionHandle);
-    bool foundNormal=p.attributeInfo("normal",normalHandle);
-    bool foundRadius=p.attributeInfo("radius",radiusHandle);
+    bool foundPosition=p.attributeInfo("position",positionHandle) && isFloats(positionHandle,3);
+    bool foundNormal=p.attributeInfo("normal",normalHandle) && isFloats(normalHandle,3);
+    bool foundRadius=p.attributeInfo("radius",radiusHandle) && isFloats(radiusHandle,1);
 
     if(!foundPosition){
         if(errorStream) *errorStream <<"Partio: failed to find attr 'position' for PTC output"<<endl;
@@ -291,17 +311,19 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
         ParticleAttribute attr;
         p.attributeInfo(i,attr);
         if(attr.name!="position" && attr.name!="radius" && attr.name!="normal"){
-            if(attr.count==3 && attr.type!=INT){
+            if(attr.name.find('\n')!=string::npos || attr.name.empty() || attr.name[0]==' '){
+                if(errorStream) *errorStream <<"Partio: Unable to write attribute '"<<attr.name<<"' to a ptc file"<<endl;
+            }else if(isFloats(attr,3)){
                 attrs.push_back(attr);
-                specs.push_back("color "+attr.name+"\n");
+                specs.push_back((attr.type==VECTOR ? "vector " : "color ")+attr.name+"\n");
                 dataSize+=attr.count;
                 nVars++;
-            }else if(attr.count==1 && attr.type!=INT){
+            }else if(isFloats(attr,1)){
                 attrs.push_back(attr);
                 dataSize+=attr.count;
                 nVars++;
                 specs.push_back("float "+attr.name+"\n");
-            }else if(attr.count==16 && attr.type!=INT){
+            }else if(isFloats(attr,16)){
                 nVars++;
                 attrs.push_back(attr);
                 dataSize+=attr.count;
@@ -332,7 +354,7 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
 	int phi, z;
 	if (n[0] == 0 && n[1] == 0 && n[2] == 0) phi = z = 65535;
 	else {
-            float mag_squared=n[0]*n[0]+n[1]*n[1]+n[2]*n[2];
+            double mag_squared=(double)n[0]*n[0]+(double)n[1]*n[1]+(double)n[2]*n[2];
 	    phi = int((atan2(n[0], n[1]) * (1/(2*M_PI)) + 0.5) * 65535 + 0.5);
 	    z = std::min(int((n[2]/sqrt(mag_squared)+1)/2 * 65535 + 0.5), 65535);
             // phi is redundent when z == 65535; avoid the special value.
-- 
2.43.0


From ef338f67807645dd439b14edb3d49462cab07437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:18 +0000
Subject: [PATCH 20/58] fix: size PRT particles by their channels' widths and
 refuse damaged files

Channels of several components were counted as one, so files not ending in a
scalar channel were misread; string attributes were counted but not written;
names of 32 characters and more overran their field.
---
 src/lib/io/PRT.cpp | 76 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 16 deletions(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index cde7e1f..88ddd24 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -38,7 +38,9 @@ Modifications from: github user: redpawfx (redpawFX@gmail.com)  and Luma Picture
 
 
 */
+#include <cstring>
 #include <iostream>
+#include <limits>
 #ifndef PARTIO_WIN32
 #ifdef PARTIO_USE_ZLIB
 #include "../Partio.h"
@@ -110,12 +112,12 @@ static bool read_buffer(std::istream& is, z_stream& z, char* in_buf, void* p, si
             }
         }
         int ret = inflate( &z, Z_BLOCK  );
-        if ( ret != Z_OK && ret != Z_STREAM_END ) {
-            if(errorStream) *errorStream<<"Zlib error "<<z.msg<<std::endl;;
+        if ( ret == Z_BUF_ERROR || (ret == Z_STREAM_END && z.avail_out > 0) ) {
+            if(errorStream) *errorStream<<"Truncated prt file  "<<std::endl;;
             return false;
         }
-        if (ret == Z_STREAM_END && z.avail_out > 0) {
-            std::cerr<<"Truncated prt file  "<<std::endl;;
+        if ( ret != Z_OK && ret != Z_STREAM_END ) {
+            if(errorStream) *errorStream<<"Zlib error "<<(z.msg ? z.msg : "")<<std::endl;;
             return false;
         }
     }
@@ -130,7 +132,7 @@ static bool write_buffer(std::ostream& os, z_stream& z, char* out_buf, void* p,
 	z.avail_out = OUT_BUFSIZE;
 	int ret=deflate(&z,flush?Z_FINISH:Z_NO_FLUSH);
 	if (!(ret!=Z_BUF_ERROR && ret!=Z_STREAM_ERROR)) {
-            if(errorStream) *errorStream<<"Zlib error "<<z.msg<<std::endl;;
+            if(errorStream) *errorStream<<"Zlib error "<<(z.msg ? z.msg : "")<<std::endl;;
             return false;
         }
         int	generated_output=(int)(z.next_out-(Bytef*)out_buf);
@@ -158,8 +160,9 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     FileHeadder header;
     input->read((char*)&header,sizeof(FileHeadder));
 
-    if (memcmp(header.magic, magic, sizeof(magic))) {
+    if (!*input || memcmp(header.magic, magic, sizeof(magic))) {
         if(errorStream) *errorStream<<"Partio: failed to get PRT magic"<<std::endl;
+        simple->release();
         return 0;
     }
     
@@ -174,16 +177,25 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     read<LITEND>(*input,channels);		// number of channel
     read<LITEND>(*input,channelsize);	// size of channel
 
-    simple->addParticles((int)header.numParticles);
+    if (!*input || channelsize < (int)sizeof(Channel) || header.numParticles > (unsigned long long)std::numeric_limits<int>::max()) {
+        if(errorStream) *errorStream<<"Partio: the header of "<<filename<<" is damaged"<<std::endl;
+        simple->release();
+        return 0;
+    }
 
     std::vector<Channel> chans;
     std::vector<ParticleAttribute> attrs;
     
-    unsigned particleSize = 0;
+    unsigned long long particleSize = 0;
     
     for (int i=0; i<channels; i++) {
         Channel ch;
         input->read((char*)&ch, sizeof(Channel));
+        if (!*input || ch.type >= sizeof(sizes)/sizeof(sizes[0]) || ch.arity > (1u<<20) || ch.offset > (1u<<26)) {
+            if(errorStream) *errorStream<<"Partio: a channel of "<<filename<<" is damaged or of unknown type"<<std::endl;
+            simple->release();
+            return 0;
+        }
         ParticleAttributeType type=NONE;
         switch (ch.type) {
         case 0:	// int16
@@ -215,26 +227,39 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
                 ch.name[0] += 0x20;
             }
 #endif
-            std::string name((char*)ch.name);
-            ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,ch.arity);
-            chans.push_back(ch);
-            attrs.push_back(attrHandle);
+            std::string name((char*)ch.name,strnlen((char*)ch.name,sizeof(ch.name)));
+            ParticleAttribute attrHandle;
+            if (simple->attributeInfo(name.c_str(),attrHandle)) {
+                if(errorStream) *errorStream<<"Partio: leaving out second channel named "<<name<<std::endl;
+            } else {
+                attrHandle=simple->addAttribute(name.c_str(),type,ch.arity);
+                chans.push_back(ch);
+                attrs.push_back(attrHandle);
+            }
         }
         
         // The size of the particle is determined from the channel with largest offset. The channels are not required to be listed in order.
-        particleSize = (std::max)( particleSize, chans.back().offset + sizes[ch.type] );
+        particleSize = (std::max)( particleSize, (unsigned long long)ch.offset + (unsigned long long)sizes[ch.type]*ch.arity );
         
         // The channel entry might have more data in other PRT versions.
         if ((unsigned)channelsize > sizeof(Channel))
             input->seekg(channelsize - sizeof(Channel), std::ios::cur);
     }
 
-    if (headersOnly) return simple;
+    if (!io::could_hold(filename,(double)header.numParticles*particleSize)) {
+        if(errorStream) *errorStream<<"Partio: "<<filename<<" is too short for its number of particles"<<std::endl;
+        simple->release();
+        return 0;
+    }
+    simple->addParticles((int)header.numParticles);
+
+    if (headersOnly || particleSize==0) return simple;
 
     z_stream z;
     z.zalloc = Z_NULL;z.zfree = Z_NULL;z.opaque = Z_NULL;
     if (inflateInit( &z ) != Z_OK) {
         if(errorStream) *errorStream<<"Zlib inflateInit error"<<std::endl;
+        simple->release();
         return 0;
     }
 
@@ -246,7 +271,12 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
 
     for (unsigned int particleIndex=0;particleIndex<(unsigned int )simple->numParticles();particleIndex++) {
         // Read the particle from the file, and decompress it into a single particle-sized buffer.
-        read_buffer(*input, z, (char*)in_buf, prt_buf, particleSize, errorStream);
+        if (!read_buffer(*input, z, (char*)in_buf, prt_buf, particleSize, errorStream)) {
+            delete[] prt_buf;
+            inflateEnd( &z );
+            simple->release();
+            return 0;
+        }
         
         for (unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++) {
             if (attrs[attrIndex].type==Partio::INT) {
@@ -333,6 +363,7 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     
     if (inflateEnd( &z ) != Z_OK) {
         if(errorStream) *errorStream<<"Zlib inflateEnd error"<<std::endl;
+        simple->release();
         return 0;
     }
 
@@ -340,6 +371,11 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     return simple;
 }
 
+// strings cannot be stored, and names have to fit with a terminator
+static bool isWritable(const ParticleAttribute& attr) {
+    return (attr.type==FLOAT || attr.type==INT || attr.type==VECTOR) && attr.count>0 && attr.name.size()<sizeof(Channel().name);
+}
+
 bool writePRT(const char* filename,const ParticlesData& p,const bool /*compressed*/,std::ostream* errorStream)
 {
 	/// Krakatoa pukes on 0 particle files for some reason so don't export at all....
@@ -363,7 +399,14 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
         int reserve = 4;
         output->write((char*)&header,sizeof(FileHeadder));
         write<LITEND>(*output, reserve);
-        write<LITEND>(*output, (int)p.numAttributes());
+        int channels = 0;
+        for (int i=0;i<p.numAttributes();i++) {
+            ParticleAttribute attr;
+            p.attributeInfo(i,attr);
+            if (isWritable(attr)) channels++;
+            else if(errorStream) *errorStream <<"Partio: Unable to write attribute "<<attr.name<<" to a prt file"<<std::endl;
+        }
+        write<LITEND>(*output, channels);
             reserve = 0x2c;
         write<LITEND>(*output, reserve);
 
@@ -372,6 +415,7 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
         for (int i=0;i<p.numAttributes();i++) {
             ParticleAttribute attr;
             p.attributeInfo(i,attr);
+            if (!isWritable(attr)) continue;
             Channel ch;
             memset(&ch, 0, sizeof(Channel));
                     memcpy((char*)ch.name, attr.name.c_str(), attr.name.size());
-- 
2.43.0


From 2c0cf0b5a7e8b78cf5a3d150290e50713dd5354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:51 +0000
Subject: [PATCH 21/58] fix: write and read only what a BIN file can hold

Attributes of unexpected types or widths were read out of bounds, and the
header of a file was used before it was known to be one.
---
 src/lib/io/BIN.cpp | 52 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/lib/io/BIN.cpp b/src/lib/io/BIN.cpp
index 326e6dc..276277d 100644
--- a/src/lib/io/BIN.cpp
+++ b/src/lib/io/BIN.cpp
@@ -39,6 +39,8 @@ Modifications from: github user: redpawfx (redpawFX@gmail.com)  and Luma Picture
 */
 #include "../core/ParticleHeaders.h"
 #include "io.h"
+#include <algorithm>
+#include <iterator>
 
 namespace Partio{
 
@@ -92,6 +94,10 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
 
     BIN_HEADER header;
     input->read((char*)&header, sizeof(BIN_HEADERV6));
+    if(!*input || BIN_MAGIC != header.verificationCode){
+        if(errorStream) *errorStream<< "Partio: Magic number of '" << filename << "' doesn't match BIN magic" << endl;
+        return 0;
+    }
 
     // According to the NextLimit bin_particles_file_format.pdf file
     if (header.version >= 7)
@@ -103,16 +109,17 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
 
     // After version 13, we don't know what to do
     if(header.version > 13){
-        cerr << "Partio: Unknown .bin version : " << header.version << endl;
+        if(errorStream) *errorStream << "Partio: Unknown .bin version : " << header.version << endl;
         return 0;
     }
 
-    if(BIN_MAGIC != header.verificationCode){
-        if(errorStream) *errorStream<< "Partio: Magic number '" << hex<<  header.verificationCode << "' of '" << filename << "' doesn't match BIN magic '" << BIN_MAGIC << "'" << endl;
+    // every particle takes at least this many bytes
+    const int minParticleSize = 17*sizeof(float);
+    if(!*input || header.numParticles < 0 || !io::could_hold(filename, (double)minParticleSize*header.numParticles)){
+        if(errorStream) *errorStream << "Partio: The header of '" << filename << "' is damaged" << endl;
         return 0;
     }
 
-
     ParticlesDataMutable* simple = headersOnly ? new ParticleHeaders: create();
     simple->addParticles(header.numParticles);
 
@@ -153,7 +160,7 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
 
     if (!headersOnly)
     {
-        for(int partIndex = 0; partIndex < simple->numParticles(); partIndex++)
+        for(int partIndex = 0; partIndex < simple->numParticles() && *input; partIndex++)
         {
 
             float position[3] = {0.0,0.0,0.0};
@@ -255,12 +262,17 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
             else
             {
                 // Warning, cast the id on 32 bits here
-                uint64_t pid64;
+                uint64_t pid64 = 0;
                 input->read ((char*) &pid64, sizeof(pid64));
                 pid = (int)pid64;
             }
             simple->dataWrite<int>(pidAttr, partIndex)[0] = (int)pid;
         }
+        if(!*input){
+            if(errorStream) *errorStream << "Partio: Unexpected end of file in '" << filename << "'" << endl;
+            simple->release();
+            return 0;
+        }
     }
 
     return simple;
@@ -338,6 +350,24 @@ bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compresse
     for(int i=0; i <= 2; i++)
         output->write ((const char *) &header.emitterScale[i], sizeof(float));
 
+    // attributes of the names, types and widths the format has a place for
+    static const char* const vectors[] = {"position", "velocity", "force", "vorticity", "normal", "uvw"};
+    static const char* const integers[] = {"neighbors", "id"};
+    static const char* const scalars[] = {"age", "isolationTime", "viscosity", "density", "pressure", "mass", "temperature"};
+    vector<ParticleAttribute> attrs;
+    for(int attrIndex = 0; attrIndex < p.numAttributes(); attrIndex++)
+    {
+        ParticleAttribute attr;
+        p.attributeInfo(attrIndex,attr);
+        const bool isFloat = attr.type == FLOAT || attr.type == VECTOR;
+        const bool supported =
+            (isFloat && attr.count == 3 && find(begin(vectors), end(vectors), attr.name) != end(vectors)) ||
+            (isFloat && attr.count == 1 && find(begin(scalars), end(scalars), attr.name) != end(scalars)) ||
+            (attr.type == INT && attr.count == 1 && find(begin(integers), end(integers), attr.name) != end(integers));
+        if(supported) attrs.push_back(attr);
+        else if(errorStream) *errorStream << "Partio: Unable to write attribute '" << attr.name << "' to a bin file" << endl;
+    }
+
     for (int particles = 0; particles < p.numParticles(); particles++)
     {
         // set defaults for stuff that is not exported...
@@ -360,10 +390,9 @@ bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compresse
 
         // now run thru  the exported attrs  and  replace values for things that we do have
 
-        for(int attrIndex = 0; attrIndex < p.numAttributes(); attrIndex++)
+        for(size_t attrIndex = 0; attrIndex < attrs.size(); attrIndex++)
         {
-            ParticleAttribute attr;
-            p.attributeInfo(attrIndex,attr);
+            const ParticleAttribute& attr = attrs[attrIndex];
 
             //cout << attr.name << endl;
             if (attr.name ==  "position")
@@ -454,11 +483,6 @@ bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compresse
                 const int* data = p.data<int>(attr, particles);
                 pid= data[0];
             }
-
-            else
-            {
-                cout << "Attribute found that  we don't support yet" << endl;
-            }
         }
 
         output->write ((const char *) &position[0], sizeof (float));
-- 
2.43.0


From 2a3d53d24227db3478160c42ff012dd330e6aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:51 +0000
Subject: [PATCH 22/58] fix: report a RIB file that cannot be opened

---
 src/lib/io/RIB.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/io/RIB.cpp b/src/lib/io/RIB.cpp
index 5d5da08..5f6e68a 100644
--- a/src/lib/io/RIB.cpp
+++ b/src/lib/io/RIB.cpp
@@ -33,6 +33,12 @@ using namespace std;
 bool writeRIB(const char* filename, const ParticlesData& p, const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
+    if (!*output)
+    {
+        if(errorStream) *errorStream << "Partio: Unable to open file " << filename << endl;
+        return false;
+    }
+
     ParticleAttribute dummy;
     bool foundP     = p.attributeInfo("position",  dummy) || p.attributeInfo("P",     dummy);
     bool foundP2    = p.attributeInfo("position2", dummy) || p.attributeInfo("P2",    dummy);
-- 
2.43.0


From 3e4fefb4ef09aa4925ebb195bf589ba26d7bef68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 23/58] fix: read MC files in one pass and refuse damaged ones

---
 src/lib/io/MC.cpp | 178 +++++++++++++++++++---------------------------
 1 file changed, 73 insertions(+), 105 deletions(-)

diff --git a/src/lib/io/MC.cpp b/src/lib/io/MC.cpp
index 82b5278..ae91271 100644
--- a/src/lib/io/MC.cpp
+++ b/src/lib/io/MC.cpp
@@ -40,6 +40,8 @@ Modifications from: github user: redpawfx (redpawFX@gmail.com)  and Luma Picture
 #include "../core/ParticleHeaders.h"
 #include "PartioEndian.h" // read/write big-endian file
 #include "io.h"
+#include <limits>
+#include <vector>
 
 namespace Partio
 {
@@ -50,17 +52,10 @@ using namespace std;
 // TODO: convert this to use iterators like the rest of the readers/writers
 
 std::string GetString(std::istream& input, unsigned int size){
-    char* tmp = new char [size];
-    input.read(tmp, size);
-    std::string result(tmp);
-
-    // fix read tag error (ex: DBLA --> DBLAi, why !!)
-    if(result.size() > size){
-        result.resize(size);
-    }
-
-    delete [] tmp;
-    return result;
+    std::string result(size, 0);
+    if(size) input.read(&result[0], size);
+    // names are padded with zeros
+    return result.substr(0, result.find('\0'));
 }
 
 typedef struct{
@@ -68,6 +63,7 @@ typedef struct{
     std::string type;
     unsigned int numParticles;
     unsigned int blocksize;
+    unsigned int headersize; // number of bytes this header takes in the file
 } Attribute_Header;
 
 
@@ -75,8 +71,9 @@ bool ReadAttrHeader(std::istream& input, Attribute_Header& attribute){
     char tag[4];
     input.read(tag, 4); // CHNM
 
-    int chnmSize;
+    int chnmSize = 0;
     read<BIGEND>(input, chnmSize);
+    if(!input || chnmSize < 0 || chnmSize > (1<<20)) return false;
     if(chnmSize%4 > 0){
         chnmSize = chnmSize - chnmSize%4 + 4;
     }
@@ -93,7 +90,8 @@ bool ReadAttrHeader(std::istream& input, Attribute_Header& attribute){
 
     read<BIGEND>(input, attribute.blocksize);
 
-    return true;
+    attribute.headersize = 28 + chnmSize;
+    return bool(input);
 }
 
 int CharArrayLen(char** charArray){
@@ -130,7 +128,7 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
         return 0;
     }
 
-    int magic;
+    int magic = 0;
     read<BIGEND>(*input, magic);
     if(MC_MAGIC != magic){
         if(errorStream) *errorStream  << "Partio: Magic number '" << magic << "' of '" << filename << "' doesn't match mc magic '" << MC_MAGIC << "'" << std::endl;
@@ -149,7 +147,7 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
     char tag[4];
     input->read(tag, 4); // FOR4
 
-    int blockSize;
+    int blockSize = 0;
     read<BIGEND>(*input, blockSize);
 
     // Allocate a simple particle with the appropriate number of points
@@ -161,119 +159,89 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
         simple=create();
     }
 
-    int numParticles = 0;
+    // The number of particles is only known once "id" was found, and compressed
+    // files cannot be read twice, so keep what is read until the end.
+    struct Channel {
+        Attribute_Header header;
+        std::vector<float> floats;
+        std::vector<int> ints;
+    };
+    std::vector<Channel> channels;
+
+    unsigned int numParticles = 0;
     input->read(tag, 4); // MYCH
-    while(((int)input->tellg()-HEADER_SIZE) < blockSize){
-        Attribute_Header attrHeader;
-        ReadAttrHeader(*input, attrHeader);
+    bool valid = bool(*input);
+    for(double consumed = 4; valid && consumed < blockSize;){
+        Channel channel;
+        Attribute_Header& attrHeader = channel.header;
+        valid = ReadAttrHeader(*input, attrHeader) && io::could_hold(filename, attrHeader.blocksize);
+        if(!valid) break;
+        consumed += (double)attrHeader.headersize + attrHeader.blocksize;
 
         if(attrHeader.name == std::string("id")){
             numParticles = attrHeader.numParticles;
         }
 
-        if(attrHeader.blocksize/sizeof(double) == 1){ // for who ?
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+        const bool isVector = attrHeader.type == std::string("FVCA");
+        const bool isDouble = attrHeader.type == std::string("DBLA");
+        const double elementSize = isVector ? 3*sizeof(float) : sizeof(double);
+        // "count" holds one number for all particles
+        if((!isVector && !isDouble) || attrHeader.name == std::string("count")){
+            input->ignore(attrHeader.blocksize);
+            valid = (unsigned int)input->gcount() == attrHeader.blocksize;
+            if(!isVector && !isDouble && errorStream) *errorStream << "Partio: Attribute '" << attrHeader.name << " " << attrHeader.type << "' cannot map type" << std::endl;
             continue;
         }
-#if 0 // TODO: if we ever put back attributes re-enable this
-        if(attributes && (IsStringInCharArray(attrHeader.name, attributes)==false)){
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
-            continue;
+        if(attrHeader.blocksize != elementSize*attrHeader.numParticles){
+            valid = false;
         }
-#endif
-
-        if(attrHeader.type == std::string("FVCA")){
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
-            simple->addAttribute(attrHeader.name.c_str(), VECTOR, 3);
+        else if(headersOnly){
+            input->ignore(attrHeader.blocksize);
+            valid = (unsigned int)input->gcount() == attrHeader.blocksize;
         }
-        else if(attrHeader.type == std::string("DBLA")){
-			input->seekg((int)input->tellg() + attrHeader.blocksize);
-			if(attrHeader.name == "id"){
-				simple->addAttribute(attrHeader.name.c_str(), INT, 1);
-			}
-            else{
-				simple->addAttribute(attrHeader.name.c_str(), FLOAT, 1);
-			}
+        else if(isVector){
+            channel.floats.resize(3*(size_t)attrHeader.numParticles);
+            for(size_t i = 0; i < channel.floats.size() && *input; i++) read<BIGEND>(*input, channel.floats[i]);
+            valid = bool(*input);
         }
-        else
-		{
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
-            if(errorStream) *errorStream << "Partio: Attribute '" << attrHeader.name << " " << attrHeader.type << "' cannot map type" << std::endl;
+        else{
+            for(size_t i = 0; i < attrHeader.numParticles && *input; i++){
+                double tmp = 0;
+                read<BIGEND>(*input, tmp);
+                if(attrHeader.name == std::string("id")) channel.ints.push_back((int)tmp);
+                else channel.floats.push_back((float)tmp);
+            }
+            valid = bool(*input);
         }
+        channels.push_back(channel);
     }
-    simple->addParticles(numParticles);
-
-    // If all we care about is headers, then return.--
-    if(headersOnly){
-        return simple;
+    if(!valid || numParticles > (unsigned int)std::numeric_limits<int>::max()){
+        if(errorStream) *errorStream << "Partio: '" << filename << "' is damaged" << std::endl;
+        simple->release();
+        return 0;
     }
-    //cout << "==============================================================" << endl;
-    input->seekg(HEADER_SIZE);
-    input->read(tag, 4); // MYCH
-    while((int)input->tellg()-HEADER_SIZE < blockSize){
-        Attribute_Header attrHeader;
-        ReadAttrHeader(*input, attrHeader);
-
-        if(attrHeader.blocksize/sizeof(double) == 1){ // for who ?
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
-            continue;
-        }
+    simple->addParticles(numParticles);
 
+    for(size_t c = 0; c < channels.size(); c++){
+        const Channel& channel = channels[c];
+        const bool isVector = channel.header.type == std::string("FVCA");
+        const bool isId = channel.header.name == std::string("id") && !isVector;
         ParticleAttribute attrHandle;
-        if(simple->attributeInfo(attrHeader.name.c_str(), attrHandle) == false){
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+        if(channel.header.numParticles != numParticles || simple->attributeInfo(channel.header.name.c_str(), attrHandle)){
+            if(errorStream) *errorStream << "Partio: leaving out attribute '" << channel.header.name << "' of " << channel.header.numParticles << " values" << std::endl;
             continue;
         }
+        attrHandle = simple->addAttribute(channel.header.name.c_str(), isVector ? VECTOR : isId ? INT : FLOAT, isVector ? 3 : 1);
+        if(headersOnly) continue;
 
         Partio::ParticlesDataMutable::iterator it = simple->begin();
         Partio::ParticleAccessor accessor(attrHandle);
         it.addAccessor(accessor);
-
-		//std::cout << attrHeader.name << std::endl;
-        if (attrHeader.type == std::string("DBLA")){
-			if  (attrHeader.name == "id")
-			{
-				for (int i = 0; i < simple->numParticles(); i++)
-				{
-                double tmp;
-                read<BIGEND>(*input, tmp);
-                int* data = simple->dataWrite<int>(attrHandle, i);
-                data[0] = (int)tmp;
-				}
-			}
-			else{
-				for (int i = 0; i < simple->numParticles(); i++){
-					double tmp;
-					read<BIGEND>(*input, tmp);
-					float* data = simple->dataWrite<float>(attrHandle, i);
-					data[0] = (float)tmp;
-				}
-			}
+        size_t i = 0;
+        for(Partio::ParticlesDataMutable::iterator end = simple->end(); it != end; ++it){
+            if(isId) accessor.raw<int>(it)[0] = channel.ints[i++];
+            else for(int k = 0; k < attrHandle.count; k++) accessor.raw<float>(it)[k] = channel.floats[i++];
         }
-        else if(attrHeader.type == std::string("FVCA")){
-            for(Partio::ParticlesDataMutable::iterator end = simple->end(); it != end; ++it){
-                input->read(accessor.raw<char>(it), sizeof(float)*attrHandle.count);
-            }
-            it = simple->begin();
-            for(Partio::ParticlesDataMutable::iterator end = simple->end(); it != end; ++it){
-                float* data = accessor.raw<float>(it);
-                for(int i = 0; i < attrHandle.count; i++){
-                    BIGEND::swap(data[i]);
-                    //data[k]=buffer[attrOffsets[attrIndex]+k];
-                    //data[i] = endianSwap<float>(data[i]);
-                }
-            }
-
-
-        }
-        /*
-        if(0){
-            std::cout << typeName << std::endl;
-            std::cerr << "Partio: " << filename << " had unknown attribute spec " << typeName << " " << name << std::endl;
-            simple->release();
-            return 0;
-        }*/
-
     }
     return simple;
 
-- 
2.43.0


From 08c985338a67e2d7d2246042b57d060a8f08c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 24/58] fix: read the right PTS columns, compressed files and
 damaged ones safely

---
 src/lib/io/PTS.cpp | 71 +++++++++++++---------------------------------
 1 file changed, 20 insertions(+), 51 deletions(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 6c437de..e45dfbd 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -73,33 +73,18 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
     /// FORMAT  is  up to 8 elements  space delimited { posX posY posZ  remission quality  red green blue }
     // since there's no header data to parse we're just going to hard code this
 
-    /* Start from the beginning */
-	input->seekg(0,ios::beg);
-
     /* Determine amount of values per line */
-    char line[1024];
-    /* Jump over first line. */
-	input->getline(line,1024);
-    input->getline(line,1024);
+    string line;
+    /* Jump over first line, a garbage count. */
+    getline(*input,line);
+    getline(*input,line);
     int valcount = 0;
-#ifdef PARTIO_WIN32
-	char * nextLine = NULL;
-    char * pch = strtok_s( line, "\t ", &nextLine );
-#else
-	char * pch = strtok( line, "\t " );
-#endif
-    while ( pch )
     {
-        if ( *pch != 0 && *pch != '\n' )
-		{
-            valcount++;
-        }
-#ifdef PARTIO_WIN32
-        pch = strtok_s( NULL, "\t ", &nextLine );
-#else
-		pch = strtok( NULL, "\t " );
-#endif
+        stringstream ss(line);
+        while ( ss >> word ) valcount++;
     }
+    /* Index of the first color value */
+    const int colorIndex = valcount-3;
 
 
     switch ( valcount )
@@ -150,38 +135,21 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 		break;
 		default:
 		{
+			if(errorStream) *errorStream<<"Partio: Unable to tell the columns of "<<filename<<endl;
+			simple->release();
 			return 0;
 		}
 		break;
 
     }
 
-    input->seekg(0,ios::beg);
-
-    unsigned int num=0;
-    simple->addParticles(num);
-    if (headersOnly) return simple; // escape before we try to touch data
-
-    if (input->good())
-    { // garbage count at top of  file
-		char junk[1024];
-        input->getline(junk,1024);
-    }
-
     // Read actual particle data
-    if (!input->good()) {
-        simple->release();
-        return 0;
-    }
-
     // we have to read line by line, because data is not  clean and consistent so we skip any lines that dont' conform
 
-    for (unsigned int particleIndex=0;input->good();)
+    unsigned int particleIndex=0;
+    do
     {
         string token = "";
-        char line[1024];
-        input->getline(line, 1024);
-
         stringstream ss(line);
 
         float lineData[8];
@@ -190,16 +158,17 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
         while (ss >> token)
         {
             stringstream foo(token);
-            float x;
+            foo.imbue(locale::classic());
+            float x = 0;
             foo >> x;
-			lineData[i] = x;
+            if (i < 8) lineData[i] = x;
             i++;
         }
 
         if (i == valcount)
         {
             simple->addParticle();
-            for (unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++)
+            for (unsigned int attrIndex=0;!headersOnly && attrIndex<attrs.size();attrIndex++)
             {
                 if (attrs[attrIndex].type==Partio::INT )
                 {
@@ -222,9 +191,9 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 					if (attrs[attrIndex].name == "pointColor")
 					{
 						// 8 bit color  conversion
-						data[0]=lineData[4]/255;
-						data[1]=lineData[5]/255;
-						data[2]=lineData[6]/255;
+						data[0]=lineData[colorIndex]/255;
+						data[1]=lineData[colorIndex+1]/255;
+						data[2]=lineData[colorIndex+2]/255;
 					}
 					else if (attrs[attrIndex].name == "position")
 					{
@@ -242,7 +211,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
             }
             particleIndex++;
         }
-    }
+    } while (getline(*input,line));
     return simple;
 }
 
-- 
2.43.0


From bde3290ed9973a200eb3f07ad06eae7e3f7d19d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:47 +0000
Subject: [PATCH 25/58] fix: hand over what zlib still holds when a zip
 member's data is used up

---
 src/lib/io/ZIP.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 4f17a5e..16e8f1c 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -286,8 +286,7 @@ public:
                 istream.read((char*)in,part_of_zip_file?std::min((unsigned int)buffer_size,header.compressed_size-total_read):(unsigned int)buffer_size);
                 strm.avail_in=static_cast<uInt>(istream.gcount());
                 total_read+=strm.avail_in;
-                strm.next_in=(Bytef*)in;
-                if(strm.avail_in==0) break;} // input ends before the compressed data does
+                strm.next_in=(Bytef*)in;}
             int ret=inflate(&strm,Z_NO_FLUSH); // decompress
             switch(ret){
                 case Z_STREAM_ERROR: 
@@ -298,7 +297,8 @@ public:
                 case Z_MEM_ERROR: 
                     std::cerr<<"gzip error "<<strm.msg<<std::endl;
                     valid=false;return -1;}
-            if(ret==Z_STREAM_END) break;}
+            if(ret==Z_STREAM_END) break;
+            if(ret==Z_BUF_ERROR && strm.avail_in==0) break;} // input ended and zlib holds no more output
         int unzip_count=buffer_size-strm.avail_out-4;
         total_uncompressed+=unzip_count;
         return unzip_count;}
-- 
2.43.0


From b0f14e9377b0319c7b23cd5a07434e538203a146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:53 +0000
Subject: [PATCH 26/58] fix: finish reading PTC and PDB files whose headers
 count particles that hold no data

---
 src/lib/io/PDB.cpp | 2 +-
 src/lib/io/PTC.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index 33ec1b2..27a38fe 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -171,7 +171,7 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
                 Partio::ParticleAccessor accessor(attrHandle);
                 it.addAccessor(accessor);
 
-                for(Partio::ParticlesDataMutable::iterator end=simple->end();it!=end && *input;++it){
+                if(count>0) for(Partio::ParticlesDataMutable::iterator end=simple->end();it!=end && *input;++it){
                     input->read(accessor.raw<char>(it),sizeof(float)*attrHandle.count);
                 }
             }
diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 3a724f2..5d32297 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -201,7 +201,7 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
     // more weird input attributes
     if(version>=1) for(int i=0;i<2;i++) read<LITEND>(*input,dummy);
 
-    for(int pointIndex=0;pointIndex<nPoints && *input;pointIndex++){
+    for(int pointIndex=0;pointIndex<simple->numParticles() && *input;pointIndex++){
         float* pos=simple->dataWrite<float>(positionHandle,pointIndex);
         read<LITEND>(*input,pos[0],pos[1],pos[2]);
 
-- 
2.43.0


From 35441cf300d5957b2b90a08ae9770ae7a3b6e872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 27/58] fix: keep strings and memory right when a clone's
 tables repeat strings or its names collide

---
 src/lib/core/Particle.cpp | 49 ++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index b3c81ff..abc2ef6 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -74,6 +74,30 @@ createInterleave()
     return new ParticlesSimpleInterleave;
 }
 
+// Gives the attribute of p the strings that other's attribute decodes to and returns
+// the token of p for each token of other (a table may hold a string more than once).
+static std::vector<int>
+copyStrings(ParticlesDataMutable& p,const ParticleAttribute& attr,const std::vector<std::string>& strings)
+{
+    std::vector<int> tokens(strings.size());
+    for(size_t i=0;i<strings.size();i++) tokens[i]=p.registerIndexedStr(attr,strings[i].c_str());
+    return tokens;
+}
+
+static std::vector<int>
+copyStrings(ParticlesDataMutable& p,const FixedAttribute& attr,const std::vector<std::string>& strings)
+{
+    std::vector<int> tokens(strings.size());
+    for(size_t i=0;i<strings.size();i++) tokens[i]=p.registerFixedIndexedStr(attr,strings[i].c_str());
+    return tokens;
+}
+
+static void
+remapTokens(int* values,const int count,const std::vector<int>& tokens)
+{
+    for(int i=0;i<count;i++) if(values[i]>=0 && values[i]<(int)tokens.size()) values[i]=tokens[values[i]];
+}
+
 const std::string getMappedName(const std::string& input, const std::map<std::string, std::string>* attrNameMap)
 {
     if (attrNameMap) {
@@ -113,22 +137,23 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
     for (int i(0), iend(other.numFixedAttributes()); i < iend; ++i) {
         other.fixedAttributeInfo(i, srcFixedAttr);
 
-        dstFixedAttr = p->addFixedAttribute(
-            getMappedName(srcFixedAttr.name, attrNameMap).c_str(), srcFixedAttr.type, srcFixedAttr.count);
+        const std::string name = getMappedName(srcFixedAttr.name, attrNameMap);
+        if (p->fixedAttributeInfo(name.c_str(), dstFixedAttr)) continue; // renamed onto another one
+        dstFixedAttr = p->addFixedAttribute(name.c_str(), srcFixedAttr.type, srcFixedAttr.count);
         assert(srcFixedAttr.type == dstFixedAttr.type);
         assert(srcFixedAttr.count == dstFixedAttr.count);
         // Register indexed strings
+        std::vector<int> tokens;
         if (srcFixedAttr.type == Partio::INDEXEDSTR) {
-            const std::vector<std::string>& values = other.fixedIndexedStrs(srcFixedAttr);
-            for (int j = 0, jend = values.size(); j < jend; ++j) {
-                p->registerFixedIndexedStr(dstFixedAttr, values[j].c_str());
-            }
+            tokens = copyStrings(*p, dstFixedAttr, other.fixedIndexedStrs(srcFixedAttr));
         }
         // Copy fixed data
         const void* src = other.fixedData<void>(srcFixedAttr);
         void* dst = p->fixedDataWrite<void>(dstFixedAttr);
         size_t size = Partio::TypeSize(dstFixedAttr.type) * dstFixedAttr.count;
+        if (size == 0) continue;
         std::memcpy(dst, src, size);
+        if (srcFixedAttr.type == Partio::INDEXEDSTR) remapTokens((int*)dst, dstFixedAttr.count, tokens);
     }
     if (!particles) {
         return p;
@@ -144,20 +169,22 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
     // we copy one particle at a time.  A bulk memcpy would be faster.
     for (int i = 0; i < numAttributes; ++i) {
         other.attributeInfo(i, srcAttr);
-        dstAttr = p->addAttribute(getMappedName(srcAttr.name, attrNameMap).c_str(), srcAttr.type, srcAttr.count);
+        const std::string name = getMappedName(srcAttr.name, attrNameMap);
+        if (p->attributeInfo(name.c_str(), dstAttr)) continue; // renamed onto another one
+        dstAttr = p->addAttribute(name.c_str(), srcAttr.type, srcAttr.count);
         // Register indexed strings
+        std::vector<int> tokens;
         if (srcAttr.type == Partio::INDEXEDSTR) {
-            const std::vector<std::string>& values = other.indexedStrs(srcAttr);
-            for (int m = 0, mend = values.size(); m < mend; ++m) {
-                p->registerIndexedStr(dstAttr, values[m].c_str());
-            }
+            tokens = copyStrings(*p, dstAttr, other.indexedStrs(srcAttr));
         }
         size_t size = Partio::TypeSize(srcAttr.type) * srcAttr.count;
+        if (size == 0) continue;
 
         for (Partio::ParticleIndex j = 0; j < numParticles; ++j) {
             const void *src = other.data<void>(srcAttr, j);
             void *dst = p->dataWrite<void>(dstAttr, j);
             std::memcpy(dst, src, size);
+            if (srcAttr.type == Partio::INDEXEDSTR) remapTokens((int*)dst, dstAttr.count, tokens);
         }
     }
 
-- 
2.43.0


From 0c1577cd3389b797f493445decc1f9811889e096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:01 +0000
Subject: [PATCH 28/58] fix: compute clusters right for full radii, float
 positions, repeated strings and clustered input

---
 src/lib/core/Particle.cpp                 | 28 +++++++++++------------
 src/lib/core/ParticleSimple.cpp           |  2 +-
 src/lib/core/ParticleSimpleInterleave.cpp |  2 +-
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index abc2ef6..6792378 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -328,7 +328,7 @@ struct IdAndIndex {
 
 template<class T> T smoothstep(T t){return (3.-2.*t)*t*t;}
 
-void addClusterAttribute(ParticlesDataMutable* cluster, ParticleAttribute& clusterAttribute, const ParticlesDataMutable* particle, const int index, const ParticleAttribute& attribute, const int neighborIndex, const std::vector<std::pair<ParticleIndex,float> >& indexAndInterp)
+void addClusterAttribute(ParticlesDataMutable* cluster, ParticleAttribute& clusterAttribute, const ParticlesDataMutable* particle, const int index, const ParticleAttribute& attribute, const int neighborIndex, const std::vector<std::pair<ParticleIndex,float> >& indexAndInterp, const std::vector<int>& tokens)
 {
     switch(attribute.type){
     case Partio::VECTOR:
@@ -353,6 +353,7 @@ void addClusterAttribute(ParticlesDataMutable* cluster, ParticleAttribute& clust
                 for (int j=0; j<attribute.count; j++) {
                     clusterData[j] = data[j];
                 }
+                if (attribute.type == Partio::INDEXEDSTR) remapTokens(clusterData,attribute.count,tokens);
             }
             break;
         }
@@ -372,17 +373,16 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
     ParticlesDataMutable* cluster = create();
     std::vector<ParticleAttribute> attributes;
     std::vector<ParticleAttribute> clusterAttributes;
+    std::vector<std::vector<int> > clusterTokens; // for each attribute, the clusters' token of each of its tokens
     for (int i=0; i<particles->numAttributes(); i++) {
         ParticleAttribute attr;
         if (particles->attributeInfo(i,attr)) {
-            if (attr.type == Partio::NONE) continue;
+            if (attr.type == Partio::NONE || attr.name == "clusterId") continue; // clusterId is what is computed
             attributes.push_back(attr);
-            clusterAttributes.push_back(cluster->addAttribute(attributes[i].name.c_str(),attributes[i].type,attributes[i].count));
+            clusterAttributes.push_back(cluster->addAttribute(attr.name.c_str(),attr.type,attr.count));
+            clusterTokens.push_back(std::vector<int>());
             if (attr.type == Partio::INDEXEDSTR) {
-                const std::vector<std::string>& strings = particles->indexedStrs(attr);
-                for (size_t j=0; j<strings.size(); j++) {
-                    cluster->registerIndexedStr(clusterAttributes.back(),strings[j].c_str());
-                }
+                clusterTokens.back() = copyStrings(*cluster,clusterAttributes.back(),particles->indexedStrs(attr));
             }
             if (attr.name == "position") {
                 posAttr = attr;
@@ -408,9 +408,9 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
         Vec3 position(center[0], center[1], center[2]);
         int id = particles->data<int>(idAttr,index)[0];
         double radius = std::max(0., radiusInside);
-        radius = std::min(100., radiusInside);
+        radius = std::min(100., radius);
         double innerRadius = .01 * radius * radiusSearch;
-        double invRadius = 1 / (radiusSearch - innerRadius);
+        double invRadius = innerRadius < radiusSearch ? 1 / (radiusSearch - innerRadius) : 0;
 
         std::vector<Partio::ParticleIndex> points;
         std::vector<float> distSq;
@@ -430,14 +430,14 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
         int clusterId = 0;
         cluster->dataWrite<int>(clusterIdAttr,originalPoint.back().first)[0] = clusterId++;
         for (size_t j = 0; j < attributes.size(); j++) {
-            addClusterAttribute(cluster, clusterAttributes[j], particles, index, attributes[j], 0, originalPoint);
+            addClusterAttribute(cluster, clusterAttributes[j], particles, index, attributes[j], 0, originalPoint, clusterTokens[j]);
         }
 
         double hashArgs[3];
         hashArgs[0] = id;
 
-        int foundConnections = std::min((int) idAndIndex.size(), connections+1);
-        for (int i = 1; i < foundConnections; i++) {
+        int foundConnections = std::min((int) idAndIndex.size() - 1, connections);
+        for (int i = 1; i <= foundConnections; i++) {
             const float* neighbor=particles->data<float>(posAttr,idAndIndex[i]._index);
             Vec3 neighborPosition(neighbor[0], neighbor[1], neighbor[2]);
             Vec3 dir = neighborPosition - position;
@@ -458,11 +458,11 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
                 cluster->dataWrite<int>(clusterIdAttr,indexAndInterp.back().first)[0] = clusterId++;
             }
             for (size_t j = 0; j < attributes.size(); j++) {
-                addClusterAttribute(cluster, clusterAttributes[j], particles, index, attributes[j], idAndIndex[i]._index, indexAndInterp);
+                addClusterAttribute(cluster, clusterAttributes[j], particles, index, attributes[j], idAndIndex[i]._index, indexAndInterp, clusterTokens[j]);
             }
         }
     }
-    return cluster;;
+    return cluster;
 }
 
 template<typename T>
diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index 39c7eb4..6944e73 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -133,7 +133,7 @@ sort()
     if(!foundPosition){
         std::cerr<<"Partio: sort, Failed to find position in particle"<<std::endl;
         return;
-    }else if(attr.type!=VECTOR || attr.count!=3){
+    }else if((attr.type!=VECTOR && attr.type!=FLOAT) || attr.count!=3){
         std::cerr<<"Partio: sort, position attribute is not a vector of size 3"<<std::endl;
         return;
     }
diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 7b18144..5d7b2da 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -133,7 +133,7 @@ sort()
     if(!foundPosition){
         std::cerr<<"Partio: sort, Failed to find position in particle"<<std::endl;
         return;
-    }else if(attr.type!=VECTOR || attr.count!=3){
+    }else if((attr.type!=VECTOR && attr.type!=FLOAT) || attr.count!=3){
         std::cerr<<"Partio: sort, position attribute is not a vector of size 3"<<std::endl;
         return;
     }
-- 
2.43.0


From 9358321b3f4cba25b98342740f38b5feb182763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:25 +0000
Subject: [PATCH 29/58] fix: merge string attributes, fixed strings,
 disagreeing attributes and a set with itself correctly

---
 src/lib/core/Particle.cpp | 59 +++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 6792378..d70793b 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -487,6 +487,27 @@ struct IntPairHash {
     }
 };
 
+// Whether values of one attribute can be stored in the other
+template<class ATTR> bool sameValues(const ATTR& a, const ATTR& b)
+{
+    const bool bothFloats = (a.type == FLOAT || a.type == VECTOR) && (b.type == FLOAT || b.type == VECTOR);
+    return a.count == b.count && (a.type == b.type || bothFloats);
+}
+
+// Gives a fixed attribute of base the value that it has in delta
+static void mergeFixed(ParticlesDataMutable& base, const FixedAttribute& baseAttr, const ParticlesData& delta, const FixedAttribute& deltaAttr)
+{
+    const size_t size = TypeSize(deltaAttr.type) * deltaAttr.count;
+    if (size == 0) return;
+    const char* src = delta.fixedData<char>(deltaAttr);
+    std::vector<char> value(src, src + size);
+    if (baseAttr.type == INDEXEDSTR) {
+        const std::vector<std::string> strings = delta.fixedIndexedStrs(deltaAttr);
+        remapTokens((int*)value.data(), deltaAttr.count, copyStrings(base, baseAttr, strings));
+    }
+    base.setFixed(baseAttr, value.data());
+}
+
 // merge two particle sets.  if no identifiers are specified, the particle sets will be aggregated together.
 // if one or more identifiers are specified, the particle will be overwritten if the identifier(s) match.
 // if the identifier only exists in one particle set, the particle sets will be aggregated together.
@@ -498,10 +519,10 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     std::unordered_map<std::pair<int,int>,int,IntPairHash> idToParticleIndex;
     ParticleAttribute baseIdAttr0;
     bool baseHasIdentifier0 = base.attributeInfo(identifier0.c_str(), baseIdAttr0);
-    baseHasIdentifier0 = baseHasIdentifier0 ? baseIdAttr0.type == INT : false;
+    baseHasIdentifier0 = baseHasIdentifier0 ? baseIdAttr0.type == INT && baseIdAttr0.count > 0 : false;
     ParticleAttribute baseIdAttr1;
     bool baseHasIdentifier1 = base.attributeInfo(identifier1.c_str(), baseIdAttr1);
-    baseHasIdentifier1 = baseHasIdentifier1 ? baseIdAttr1.type == INT : false;
+    baseHasIdentifier1 = baseHasIdentifier1 ? baseIdAttr1.type == INT && baseIdAttr1.count > 0 : false;
     if (baseHasIdentifier0 || baseHasIdentifier1) {
         for (int i=0; i<base.numParticles(); i++) {
             idToParticleIndex[std::make_pair(baseHasIdentifier0 ? base.data<int>(baseIdAttr0,i)[0] : 0,
@@ -512,38 +533,44 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     // Locate the identifier attribute in the delta
     ParticleAttribute deltaIdAttr0;
     bool deltaHasIdentifier0 = delta.attributeInfo(identifier0.c_str(), deltaIdAttr0);
-    deltaHasIdentifier0 = deltaHasIdentifier0 ? deltaIdAttr0.type == INT : false;
+    deltaHasIdentifier0 = deltaHasIdentifier0 ? deltaIdAttr0.type == INT && deltaIdAttr0.count > 0 : false;
     ParticleAttribute deltaIdAttr1;
     bool deltaHasIdentifier1 = delta.attributeInfo(identifier1.c_str(), deltaIdAttr1);
-    deltaHasIdentifier1 = deltaHasIdentifier1 ? deltaIdAttr1.type == INT : false;
+    deltaHasIdentifier1 = deltaHasIdentifier1 ? deltaIdAttr1.type == INT && deltaIdAttr1.count > 0 : false;
 
     // Identify the attributes to be copied (base present in delta)
     std::vector<AttributePair<ParticleAttribute>> attrs;
     std::vector<size_t> indexStrAttrs; /* indexes into attrs */
+    std::vector<ParticleAttribute> baseOnlyAttrs; /* no values for these in delta */
     for (int i=0; i<base.numAttributes(); ++i) {
         ParticleAttribute baseAttr, deltaAttr;
         base.attributeInfo(i, baseAttr);
-        if (delta.attributeInfo(baseAttr.name.c_str(), deltaAttr)) {
+        if (delta.attributeInfo(baseAttr.name.c_str(), deltaAttr) && sameValues(baseAttr, deltaAttr)) {
             if (baseAttr.type == INDEXEDSTR) {
                 indexStrAttrs.push_back(attrs.size());
             }
             attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
+        } else {
+            baseOnlyAttrs.push_back(std::move(baseAttr));
         }
     }
 
     // Identify the attributes to be added (in delta, not present in base)
-    double empty[16]{0};
     for (int i=0; i<delta.numAttributes(); ++i) {
         ParticleAttribute baseAttr, deltaAttr;
         delta.attributeInfo(i, deltaAttr);
         if (!base.attributeInfo(deltaAttr.name.c_str(), baseAttr)) {
             baseAttr = base.addAttribute(deltaAttr.name.c_str(), deltaAttr.type, deltaAttr.count);
-            attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
+            if (baseAttr.type == INDEXEDSTR) {
+                indexStrAttrs.push_back(attrs.size());
+            }
 
             // Set the attribute to a default value in the base particle set
+            const std::vector<char> empty(TypeSize(baseAttr.type) * baseAttr.count + 1, 0);
             for (int p=0; p<base.numParticles(); ++p) {
-                base.set(baseAttr, p, empty);
+                base.set(baseAttr, p, empty.data());
             }
+            attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
         }
     }
 
@@ -551,9 +578,8 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     for (int i=0; i<base.numFixedAttributes(); ++i) {
         FixedAttribute baseAttr, deltaAttr;
         base.fixedAttributeInfo(i, baseAttr);
-        if (delta.fixedAttributeInfo(baseAttr.name.c_str(), deltaAttr)) {
-            const void *src = delta.fixedData<void>(deltaAttr);
-            base.setFixed(baseAttr, src);
+        if (delta.fixedAttributeInfo(baseAttr.name.c_str(), deltaAttr) && sameValues(baseAttr, deltaAttr)) {
+            mergeFixed(base, baseAttr, delta, deltaAttr);
         }
     }
 
@@ -563,8 +589,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         delta.fixedAttributeInfo(i, deltaAttr);
         if (!base.fixedAttributeInfo(deltaAttr.name.c_str(), baseAttr)) {
             baseAttr = base.addFixedAttribute(deltaAttr.name.c_str(), deltaAttr.type, deltaAttr.count);
-            const void *src = delta.fixedData<void>(deltaAttr);
-            base.setFixed(baseAttr, src);
+            mergeFixed(base, baseAttr, delta, deltaAttr);
         }
     }
 
@@ -605,7 +630,8 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     bool hasIdentifier = (baseHasIdentifier0 && deltaHasIdentifier0) || (baseHasIdentifier1 && deltaHasIdentifier1);
     // just append if there are mismatched attributes
     hasIdentifier = hasIdentifier && !((baseHasIdentifier0 ^ deltaHasIdentifier0) || (baseHasIdentifier1 ^ deltaHasIdentifier1));
-    for (int i=0; i<delta.numParticles(); ++i) {
+    const int numDeltaParticles = delta.numParticles(); // base and delta may be the same set
+    for (int i=0; i<numDeltaParticles; ++i) {
 
         // Grab index into base particle set - either existing or new
         int index(-1);
@@ -619,11 +645,16 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         }
         if (index == -1) {
             index = base.addParticle();
+            for (const ParticleAttribute& attr : baseOnlyAttrs) {
+                const size_t size = Partio::TypeSize(attr.type) * attr.count;
+                if (size) std::memset(base.dataWrite<void>(attr, index), 0, size);
+            }
         }
 
         // Copy the attributes to the new/overridden particle
         for (const AttributePair<ParticleAttribute>& attr : attrs) {
             size_t size = Partio::TypeSize(attr.base.type) * attr.base.count;
+            if (size == 0) continue;
             void *dst = base.dataWrite<void>(attr.base, index);
             const void* src;
             std::unique_ptr<int[]> newIndices;
-- 
2.43.0


From 7c0839793c6e5280ed92c9a10e66a4659aa37e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:20 +0000
Subject: [PATCH 30/58] fix: Python: refuse particle indices and attribute
 handles which are not of the set

---
 src/py/partio.i | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 0835111..9ec2c7a 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -109,7 +109,15 @@ public:
 
 
 %typemap(in) uint64_t {
-	$1 = (uint64_t) PyLong_AsLong($input);
+    if(!PyLong_Check($input)){
+        PyErr_SetString(PyExc_TypeError,"Expecting an integer index");
+        SWIG_fail;
+    }
+    $1 = (uint64_t) PyLong_AsUnsignedLongLong($input);
+    if(PyErr_Occurred()){
+        PyErr_SetString(PyExc_IndexError,"Invalid index");
+        SWIG_fail;
+    }
 }
 %typemap(out) uint64_t {
 	$result = PyLong_FromLong(
@@ -117,6 +125,26 @@ public:
 }
 %apply uint64_t { ParticleIndex };
 
+/* an attribute handle must be one of the set it is used with */
+%typemap(check) const ParticleAttribute&
+{
+    ParticleAttribute own;
+    if(!arg1->attributeInfo($1->name.c_str(),own) || own.attributeIndex!=$1->attributeIndex
+        || own.type!=$1->type || own.count!=$1->count){
+        PyErr_SetString(PyExc_ValueError,"Not an attribute of this particle set");
+        SWIG_fail;
+    }
+}
+%typemap(check) const FixedAttribute&
+{
+    FixedAttribute own;
+    if(!arg1->fixedAttributeInfo($1->name.c_str(),own) || own.attributeIndex!=$1->attributeIndex
+        || own.type!=$1->type || own.count!=$1->count){
+        PyErr_SetString(PyExc_ValueError,"Not a fixed attribute of this particle set");
+        SWIG_fail;
+    }
+}
+
 %typemap(in) fixedFloatArray
 {
     int i;
@@ -296,6 +324,10 @@ public:
     %feature("docstring","Gets attribute data for particleIndex'th particle");
     PyObject* get(const ParticleAttribute& attr,const ParticleIndex particleIndex)
     {
+        if(particleIndex>=(ParticleIndex)$self->numParticles()){
+            PyErr_SetString(PyExc_IndexError,"Invalid particle index");
+            return NULL;
+        }
         PyObject* tuple=PyTuple_New(attr.count);
         if(attr.type==Partio::INT || attr.type==Partio::INDEXEDSTR){
             const int* p=$self->data<int>(attr,particleIndex);
@@ -367,7 +399,11 @@ public:
             PyErr_SetString(PyExc_ValueError,"Invalid number of parameters");
             return NULL;
         }
-        
+        if(particleIndex>=(uint64_t)$self->numParticles()){
+            PyErr_SetString(PyExc_IndexError,"Invalid particle index");
+            return NULL;
+        }
+
         if(attr.type==Partio::INT || attr.type==Partio::INDEXEDSTR){
             int* p=$self->dataWrite<int>(attr,particleIndex);
             if (p) {
-- 
2.43.0


From cde87e23dff0d6a4b833f8c5e8f404f5cdaf54e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:49 +0000
Subject: [PATCH 31/58] fix: Python: exceptions set by the extensions reach the
 caller

---
 src/py/partio.i | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 9ec2c7a..e80010e 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -69,6 +69,12 @@ struct fixedFloatArray
 
 %}
 
+/* errors set by the extension methods below, whatever they return */
+%exception {
+    $action
+    if(PyErr_Occurred()) SWIG_fail;
+}
+
 // Particle Types
 enum ParticleAttributeType {NONE=0,VECTOR=1,FLOAT=2,INT=3,INDEXEDSTR=4};
 
@@ -281,7 +287,7 @@ public:
     {
         // make sure we are close
         if(center.count!=3){
-            fprintf(stderr,"Need center to be a 3 tuple of floats\n");
+            PyErr_SetString(PyExc_ValueError,"Need center to be a 3 tuple of floats");
             return NULL;
         }
         // find nearest neighbors
@@ -305,7 +311,7 @@ public:
     {    
         // make sure we are close
         if(bboxMin.count!=3 || bboxMax.count!=3){
-            fprintf(stderr,"Need bboxMin and bboxMax to be a 3 tuple of floats\n");
+            PyErr_SetString(PyExc_ValueError,"Need bboxMin and bboxMax to be 3 tuples of floats");
             return NULL;
         }
         // find nearest neighbors
-- 
2.43.0


From 676c819ab818585811039276cb0c4e544e1e5c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:49 +0000
Subject: [PATCH 32/58] fix: Python: long sequences given as points do not
 overflow the fixed array

---
 src/py/partio.i | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index e80010e..abe84ef 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -158,11 +158,15 @@ public:
         PyErr_SetString(PyExc_TypeError,"Expecting a sequence");
         return NULL;
     }
-    int size=PyObject_Length($input);
+    Py_ssize_t size=PyObject_Length($input);
+    if(size<0 || size>16){
+        PyErr_SetString(PyExc_ValueError,"Expecting a sequence of at most 16 floats");
+        return NULL;
+    }
     $1.count=size;
     for(i=0;i<size;i++){
         PyObject* o=PySequence_GetItem($input,i);
-        if(!PyFloat_Check(o)){
+        if(!o || !PyFloat_Check(o)){
             Py_XDECREF(o);
             PyErr_SetString(PyExc_ValueError,"Expecting a sequence of floats");
             return NULL;
-- 
2.43.0


From 358e54c9387ec131dd541ebe698981dcef367897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:38 +0000
Subject: [PATCH 33/58] fix: Python: None in place of a name or a particle set
 raises instead of crashing

---
 src/py/partio.i | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index abe84ef..0f8a205 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -151,6 +151,15 @@ public:
     }
 }
 
+/* None is neither a name nor a particle set */
+%typemap(check) const char*, const ParticlesData* particles, ParticlesDataMutable* particles
+{
+    if(!$1){
+        PyErr_SetString(PyExc_TypeError,"None is not a valid argument");
+        SWIG_fail;
+    }
+}
+
 %typemap(in) fixedFloatArray
 {
     int i;
-- 
2.43.0


From 57c8d3b2927548e172270e139e0ac4bab648768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:38 +0000
Subject: [PATCH 34/58] fix: Python: values which are refused leave the
 particle unchanged, and ints out of range are refused

---
 src/py/partio.i | 109 ++++++++++++++++++++++++------------------------
 1 file changed, 55 insertions(+), 54 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 0f8a205..4031cec 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -48,7 +48,10 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 #include <Partio.h>
 #include <PartioIterator.h>
 #include <PartioAttribute.h>
+#include <algorithm>
+#include <limits>
 #include <sstream>
+#include <vector>
 namespace Partio{
 typedef uint64_t ParticleIndex;
 }
@@ -67,6 +70,46 @@ struct fixedFloatArray
     };
 };
 
+// These convert a whole sequence before any of its values are stored
+inline bool valueFromObject(PyObject* o,int& value)
+{
+    if(!PyLong_Check(o)){
+        PyErr_SetString(PyExc_ValueError,"Expecting a sequence of ints");
+        return false;
+    }
+    long l=PyLong_AsLong(o);
+    if(PyErr_Occurred()) return false;
+    if(l<std::numeric_limits<int>::min() || l>std::numeric_limits<int>::max()){
+        PyErr_SetString(PyExc_OverflowError,"Integer does not fit the attribute");
+        return false;
+    }
+    value=(int)l;
+    return true;
+}
+
+inline bool valueFromObject(PyObject* o,float& value)
+{
+    if(!PyFloat_Check(o) && !PyLong_Check(o)){
+        PyErr_SetString(PyExc_ValueError,"Expecting a sequence of floats or ints");
+        return false;
+    }
+    value=(float)PyFloat_AsDouble(o);
+    return !PyErr_Occurred();
+}
+
+template<class T> bool valuesFromSequence(PyObject* sequence,const int size,std::vector<T>& values)
+{
+    values.resize(size);
+    for(int i=0;i<size;i++){
+        PyObject* o=PySequence_GetItem(sequence,i);
+        if(!o) return false;
+        bool valid=valueFromObject(o,values[i]);
+        Py_DECREF(o);
+        if(!valid) return false;
+    }
+    return true;
+}
+
 %}
 
 /* errors set by the extension methods below, whatever they return */
@@ -424,38 +467,15 @@ public:
         }
 
         if(attr.type==Partio::INT || attr.type==Partio::INDEXEDSTR){
+            std::vector<int> values;
+            if(!valuesFromSequence(tuple,size,values)) return NULL;
             int* p=$self->dataWrite<int>(attr,particleIndex);
-            if (p) {
-                for(int i=0;i<size;i++){
-                    PyObject* o=PySequence_GetItem(tuple,i);
-                    if(PyInt_Check(o)){
-                        p[i]=PyInt_AsLong(o);
-                    }else{
-                        Py_XDECREF(o);
-                        PyErr_SetString(PyExc_ValueError,"Expecting a sequence of ints");
-                        return NULL;
-                    }
-                    Py_XDECREF(o);
-                }
-            }
+            if(p) std::copy(values.begin(),values.end(),p);
         }else if(attr.type==Partio::FLOAT || attr.type==Partio::VECTOR){
+            std::vector<float> values;
+            if(!valuesFromSequence(tuple,size,values)) return NULL;
             float* p=$self->dataWrite<float>(attr,particleIndex);
-            if (p) {
-                for(int i=0;i<size;i++){
-                    PyObject* o=PySequence_GetItem(tuple,i);
-                    //fprintf(stderr,"checking %d\n",i);
-                    if(PyFloat_Check(o)){
-                        p[i]=PyFloat_AsDouble(o);
-                    }else if(PyInt_Check(o)){
-                        p[i]=(float)PyInt_AsLong(o);
-                    }else{
-                        Py_XDECREF(o);
-                        PyErr_SetString(PyExc_ValueError,"Expecting a sequence of floats or ints");
-                        return NULL;
-                    }
-                    Py_XDECREF(o);
-                }
-            }
+            if(p) std::copy(values.begin(),values.end(),p);
         }else{
             PyErr_SetString(PyExc_ValueError,"Internal error: invalid attribute type");
             return NULL;
@@ -481,34 +501,15 @@ public:
         }
 
         if(attr.type==Partio::INT || attr.type==Partio::INDEXEDSTR){
+            std::vector<int> values;
+            if(!valuesFromSequence(tuple,size,values)) return NULL;
             int* p=$self->fixedDataWrite<int>(attr);
-            for(int i=0;i<size;i++){
-                PyObject* o=PySequence_GetItem(tuple,i);
-                if(PyInt_Check(o)){
-                    p[i]=PyInt_AsLong(o);
-                }else{
-                    Py_XDECREF(o);
-                    PyErr_SetString(PyExc_ValueError,"Expecting a sequence of ints");
-                    return NULL;
-                }
-                Py_XDECREF(o);
-            }
+            if(p) std::copy(values.begin(),values.end(),p);
         }else if(attr.type==Partio::FLOAT || attr.type==Partio::VECTOR){
+            std::vector<float> values;
+            if(!valuesFromSequence(tuple,size,values)) return NULL;
             float* p=$self->fixedDataWrite<float>(attr);
-            for(int i=0;i<size;i++){
-                PyObject* o=PySequence_GetItem(tuple,i);
-                //fprintf(stderr,"checking %d\n",i);
-                if(PyFloat_Check(o)){
-                    p[i]=PyFloat_AsDouble(o);
-                }else if(PyInt_Check(o)){
-                    p[i]=(float)PyInt_AsLong(o);
-                }else{
-                    Py_XDECREF(o);
-                    PyErr_SetString(PyExc_ValueError,"Expecting a sequence of floats or ints");
-                    return NULL;
-                }
-                Py_XDECREF(o);
-            }
+            if(p) std::copy(values.begin(),values.end(),p);
         }else{
             PyErr_SetString(PyExc_ValueError,"Internal error: invalid attribute type");
             return NULL;
-- 
2.43.0


From f520644a80e8a47b76441a898afbb89af2bc5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:38 +0000
Subject: [PATCH 35/58] fix: Python: strings and messages which are not UTF-8
 do not put null objects into lists

---
 src/py/partio.i | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 4031cec..d68a270 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -430,7 +430,7 @@ public:
     {
         const std::vector<std::string>& indexes=self->indexedStrs(attr);
         PyObject* list=PyList_New(indexes.size());
-        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,PyString_FromString(indexes[k].c_str()));
+        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,SWIG_From_std_string(indexes[k]));
         return list;
     }
 
@@ -440,7 +440,7 @@ public:
     {
         const std::vector<std::string>& indexes=self->fixedIndexedStrs(attr);
         PyObject* list=PyList_New(indexes.size());
-        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,PyString_FromString(indexes[k].c_str()));
+        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,SWIG_From_std_string(indexes[k]));
         return list;
     }
 }
@@ -594,7 +594,7 @@ ParticlesDataMutable* read(const char* filename,bool verbose=true,std::ostream&
         PyObject* tuple=PyTuple_New(2);
         PyObject* instance = SWIG_NewPointerObj(SWIG_as_voidptr(ptr), SWIGTYPE_p_ParticlesDataMutable, SWIG_POINTER_OWN);
         PyTuple_SetItem(tuple,0,instance);
-        PyTuple_SetItem(tuple,1,PyString_FromString(ss.str().c_str()));
+        PyTuple_SetItem(tuple,1,SWIG_From_std_string(ss.str()));
         return tuple;
     }
 %}
-- 
2.43.0


From 85ea64a382176cfd2649acb949079a0104afedb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:38 +0000
Subject: [PATCH 36/58] fix: Python: attribute name maps of bytes rename what
 they say

---
 src/py/partio.i | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index d68a270..4584b38 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -668,19 +668,14 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
 
     if (PyDict_Check($input)) {
         while (PyDict_Next($input, &pos, &key, &value)) {
-            std::string key_str;
-            if (PyBytes_Check(key))
-                key_str = PyBytes_AsString(key);
-            else if (PyUnicode_Check(key))
-                key_str = PyBytes_AsString(PyUnicode_AsUTF8String(key));
-            if (key_str.empty())
+            const char *key_str = PyBytes_Check(key) ? PyBytes_AsString(key)
+                : PyUnicode_Check(key) ? PyUnicode_AsUTF8(key) : nullptr;
+            const char *value_str = PyBytes_Check(value) ? PyBytes_AsString(value)
+                : PyUnicode_Check(value) ? PyUnicode_AsUTF8(value) : nullptr;
+            if (PyErr_Occurred()) SWIG_fail;
+            if (!key_str || !*key_str || !value_str)
                 continue;
-            std::string value_str;
-            if (PyBytes_Check(value))
-                key_str = PyBytes_AsString(value);
-            else if (PyUnicode_Check(value))
-                value_str = PyBytes_AsString(PyUnicode_AsUTF8String(value));
-            temp[std::move(key_str)] = std::move(value_str);
+            temp[key_str] = value_str;
         }
         $1 = &temp;
     } else {
-- 
2.43.0


From 786cb6e53ce2eac3a5e5a6494a7030a9317cb353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:38 +0000
Subject: [PATCH 37/58] fix: Python: a headers object has the type of headers,
 new sets belong to the caller

---
 src/py/partio.i | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 4584b38..eab13c6 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -590,9 +590,9 @@ ParticlesDataMutable* create();
 ParticlesDataMutable* read(const char* filename,bool verbose=true,std::ostream& error=std::cerr);
 
 %inline %{
-    template<class T> PyObject* readHelper(T* ptr,std::stringstream& ss){
+    template<class T> PyObject* readHelper(T* ptr,std::stringstream& ss,swig_type_info* type=SWIGTYPE_p_ParticlesDataMutable){
         PyObject* tuple=PyTuple_New(2);
-        PyObject* instance = SWIG_NewPointerObj(SWIG_as_voidptr(ptr), SWIGTYPE_p_ParticlesDataMutable, SWIG_POINTER_OWN);
+        PyObject* instance = SWIG_NewPointerObj(SWIG_as_voidptr(ptr), type, SWIG_POINTER_OWN);
         PyTuple_SetItem(tuple,0,instance);
         PyTuple_SetItem(tuple,1,SWIG_From_std_string(ss.str()));
         return tuple;
@@ -611,7 +611,7 @@ ParticlesDataMutable* read(const char* filename,bool verbose=true,std::ostream&
     PyObject* readHeadersVerbose(const char* filename){
         std::stringstream ss;
         ParticlesInfo* ptr=readHeaders(filename,true,ss); 
-        return readHelper(ptr,ss);
+        return readHelper(ptr,ss,SWIGTYPE_p_ParticlesInfo);
     }
 %}
 %feature("docstring","Reads the header/attribute information from disk and returns the tuple particleObject,errorMsg");
@@ -638,6 +638,7 @@ void print(const ParticlesData* particles);
 
 %feature("autodoc");
 %feature("docstring","Creates a clustered particle set");
+%newobject computeClustering;
 ParticlesDataMutable* computeClustering(ParticlesDataMutable* particles,const int numNeighbors,const double radiusSearch,const double radiusInside,const int connections,const double density)=0;
 
 %feature("autodoc");
@@ -685,10 +686,12 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
 
 %feature("autodoc");
 %feature("docstring","Clone a particle set's attribute schema");
+%newobject cloneSchema;
 ParticlesDataMutable* cloneSchema(const ParticlesData& other, const std::map<std::string, std::string>* attrNameMap=nullptr);
 
 %feature("autodoc");
 %feature("docstring","Clone a particle set");
+%newobject clone;
 ParticlesDataMutable* clone(const ParticlesData& other, bool particles, const std::map<std::string, std::string>* attrNameMap=nullptr);
 
 %feature("autodoc");
-- 
2.43.0


From c022c8355daaac86f4d1654c7e56e35038a0df79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:09 +0000
Subject: [PATCH 38/58] fix: Python: None is an attribute name map which
 renames nothing

---
 src/py/partio.i | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index eab13c6..7b27ca7 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -661,6 +661,11 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
  */
 %template() std::map<std::string, std::string>;
 
+/* None stands for no renaming, also when an overload is chosen. */
+%typemap(typecheck, precedence=SWIG_TYPECHECK_MAP) const std::map<std::string, std::string> * attrNameMap {
+    $1 = PyDict_Check($input) || $input == Py_None;
+}
+
 /* typemap to convert Python arguments into an attrNameMap std::map pointer. */
 %typemap(in) const std::map<std::string, std::string> * attrNameMap (std::map<std::string, std::string> temp) {
     PyObject *key = nullptr;
-- 
2.43.0


From e91bd3f8dddba55102f39c2ec445c26f6ae19780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:38 +0000
Subject: [PATCH 39/58] fix: partjson keeps strings which repeat and skips
 attributes it does not know

---
 src/tools/partjson.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/tools/partjson.py b/src/tools/partjson.py
index 342253d..f662c73 100644
--- a/src/tools/partjson.py
+++ b/src/tools/partjson.py
@@ -73,6 +73,14 @@ def toJson(particleSet):
     return data
 
 
+def mapTokens(value, tokens):
+    """ Replaces the tokens of strings with the ones they were registered with """
+
+    if tokens is None:
+        return value
+    return [tokens[t] if 0 <= t < len(tokens) else t for t in value]
+
+
 def fromJson(data):
     """ Converts a json dictionary to a particle set """
 
@@ -85,10 +93,6 @@ def fromJson(data):
             attrName = str(attrName)
             attr = particleSet.addFixedAttribute(attrName, attrInfo['type'], attrInfo['count'])
             fixedAttributes[attrName] = attr
-            if len(attrInfo['value']) == attrInfo['count']:
-                particleSet.setFixed(attr, attrInfo['value'])
-            else:
-                sys.stderr.write('Mismatched count for fixed attribute {}. Skipping.\n'.format(attrName))
 
     # Convert attributes
     attributes = {}
@@ -98,23 +102,36 @@ def fromJson(data):
             attr = particleSet.addAttribute(attrName, attrInfo['type'], attrInfo['count'])
             attributes[attrName] = attr
 
-    # Convert fixed indexed strings
+    # Convert fixed indexed strings, noting which token each of them is given:
+    # strings which repeat share one
+    fixedTokens = {}
     if 'fixedIndexedStrings' in data:
         for attrName, strings in data['fixedIndexedStrings'].items():
             if attrName not in fixedAttributes:
                 sys.stderr.write('Could not match fixed indexed string {} with any defined fixed attribute. Skipping.\n'.format(attrName))
                 continue
-            for string in strings:
-                particleSet.registerFixedIndexedStr(fixedAttributes[attrName], string)
+            fixedTokens[attrName] = [
+                particleSet.registerFixedIndexedStr(fixedAttributes[attrName], str(string))
+                for string in strings]
+
+    # Convert fixed values
+    for attrName, attr in fixedAttributes.items():
+        value = data['fixedAttributes'][attrName]['value']
+        if len(value) == attr.count:
+            particleSet.setFixed(attr, mapTokens(value, fixedTokens.get(attrName)))
+        else:
+            sys.stderr.write('Mismatched count for fixed attribute {}. Skipping.\n'.format(attrName))
 
     # Convert indexed strings
+    tokens = {}
     if 'indexedStrings' in data:
         for attrName, strings in data['indexedStrings'].items():
             if attrName not in attributes:
                 sys.stderr.write('Could not match indexed string {} with any defined attribute. Skipping.\n'.format(attrName))
                 continue
-            for string in strings:
+            tokens[attrName] = [
                 particleSet.registerIndexedStr(attributes[attrName], str(string))
+                for string in strings]
 
     # Convert particles
     if 'particles' in data:
@@ -124,14 +141,14 @@ def fromJson(data):
             for attrName, value in particle.items():
                 try:
                     attr = attributes[attrName]
-                except IndexError:
+                except KeyError:
                     sys.stderr.write('Could not match attribute "{}" for particle {} with any defined attributes. Skipping.\n'.format(attrName, pnum))
                     continue
                 if len(value) != attr.count:
                     sys.stderr.write('Mismatched count for attribute "{}" ({}) and particle {} ({}). Skipping.\n'.format(attrName, attr.count, pnum, len(value)))
                     continue
 
-                particleSet.set(attr, pnum, value)
+                particleSet.set(attr, pnum, mapTokens(value, tokens.get(attrName)))
 
     return particleSet
 
-- 
2.43.0


From 6d99f1c4cc1c7330fb6d685a62965905dcd243cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:22 +0000
Subject: [PATCH 40/58] fix: partconvert fails when its input cannot be read

---
 src/tools/partconvert.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tools/partconvert.cpp b/src/tools/partconvert.cpp
index 6bf50a3..285d4ad 100644
--- a/src/tools/partconvert.cpp
+++ b/src/tools/partconvert.cpp
@@ -42,11 +42,13 @@ int main(int argc,char *argv[])
         return 1;
     }
     Partio::ParticlesData* p=Partio::read(argv[1]);
-    if(p){
-        Partio::print(p);
-        Partio::write(argv[2],*p);
-        p->release();
+    if(!p){
+        std::cerr<<"Cannot read "<<argv[1]<<std::endl;
+        return 1;
     }
-    
+    Partio::print(p);
+    Partio::write(argv[2],*p);
+    p->release();
+
     return 0;
 }
-- 
2.43.0


From 4a5f78be5bcef7f8bcd5a1ff3ed40f982e917b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:22 +0000
Subject: [PATCH 41/58] fix: partinfo asks for a file and shows more strings
 only where there are more

---
 src/tools/partinfo.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/partinfo.cpp b/src/tools/partinfo.cpp
index ee667c1..df26363 100644
--- a/src/tools/partinfo.cpp
+++ b/src/tools/partinfo.cpp
@@ -111,6 +111,10 @@ int main(int argc, char* argv[])
             particleIndices.insert(atoi(argv[i]));
         }
     }
+    if (!filename) {
+        help();
+        return 1;
+    }
     Partio::ParticlesDataMutable* p = Partio::read(filename);
     if (!p) {
         std::cerr << "Unable to read \"" << filename << "\"\n";
@@ -199,7 +203,7 @@ int main(int argc, char* argv[])
                 for (size_t i = 0; i < numStrings; ++i) {
                     std::cout << "  " << indexedStrs[i] << std::endl;
                 }
-                if (indexedStrs.size() > 5)
+                if (indexedStrs.size() > numStrings)
                     std::cout << "  ...\n";
                 std::cout << "]\n";
             }
-- 
2.43.0


From 71f3df412f0d71b12f6984748bc73adc7b6e46a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:22 +0000
Subject: [PATCH 42/58] fix: partattr shows every component and refuses unknown
 attributes and tokens

---
 src/tools/partattr.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/tools/partattr.cpp b/src/tools/partattr.cpp
index b8997f6..6739770 100644
--- a/src/tools/partattr.cpp
+++ b/src/tools/partattr.cpp
@@ -56,20 +56,39 @@ int main(int argc,char *argv[])
     }
 
     Partio::ParticleAttribute attrhandle;
-    p->attributeInfo(attrName.c_str(), attrhandle);
+    if (!p->attributeInfo(attrName.c_str(), attrhandle)) {
+        std::cerr << "No attribute " << attrName << " in " << argv[1] << std::endl;
+        p->release();
+        return 1;
+    }
     maxParticles = std::min(maxParticles, p->numParticles());
 
     if (attrhandle.type == Partio::INT) {
         for(int i = 0; i < maxParticles; i++){
             const int* data = p->data<int>(attrhandle,i);
-            std::cout << attrName << "[" << i << "]=" << data[0] << std::endl;
+            std::cout << attrName << "[" << i << "]=";
+            if (attrhandle.count != 1) std::cout << "(";
+            for(int j = 0; j < attrhandle.count; j++) {
+                if (j) std::cout << ",";
+                std::cout << data[j];
+            }
+            if (attrhandle.count != 1) std::cout << ")";
+            std::cout << std::endl;
         }
     }
     else if (attrhandle.type == Partio::INDEXEDSTR){
         const std::vector<std::string>& indexedStrs = p->indexedStrs(attrhandle);
         for(int i = 0; i < std::min(maxParticles, p->numParticles());i++){
-            const int index = p->data<int>(attrhandle,i)[0];
-            std::cout << attrName << "[" << i << "]='" << indexedStrs[index]<<"'\n";
+            const int* data = p->data<int>(attrhandle,i);
+            std::cout << attrName << "[" << i << "]=";
+            if (attrhandle.count != 1) std::cout << "(";
+            for(int j = 0; j < attrhandle.count; j++) {
+                if (j) std::cout << ",";
+                if (data[j] >= 0 && data[j] < (int)indexedStrs.size()) std::cout << "'" << indexedStrs[data[j]] << "'";
+                else std::cout << "<out-of-bounds>";
+            }
+            if (attrhandle.count != 1) std::cout << ")";
+            std::cout << "\n";
        }
     }
     else {
-- 
2.43.0


From b7b7d15cbafd9179b8f26f931fc3e7021f9fc642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:18 +0000
Subject: [PATCH 43/58] fix: print separates integer components once

---
 src/lib/core/Particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index d70793b..122b58a 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -248,13 +248,13 @@ print(const ParticlesData* particles)
             case INT:
                 for(int c=0;c<attrs[k].count;c++) {
                     if (c) std::cout << ",";
-                    std::cout<<accessors[k].raw<int>(it)[c]<<",";
+                    std::cout<<accessors[k].raw<int>(it)[c];
                 }
                 break;
             case INDEXEDSTR:
                 for(int c=0;c<attrs[k].count;c++) {
                     if (c) std::cout << ",";
-                    std::cout<<accessors[k].raw<int>(it)[c]<<",";
+                    std::cout<<accessors[k].raw<int>(it)[c];
                 }
                 break;
             }
-- 
2.43.0


From a26fb7a51123e0214295af01cd1134bd3c73f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:27 +0000
Subject: [PATCH 44/58] fix: findNPoints with a negative count finds nothing
 instead of throwing

---
 src/lib/core/KdTree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/core/KdTree.h b/src/lib/core/KdTree.h
index 789cfc8..0234b7c 100644
--- a/src/lib/core/KdTree.h
+++ b/src/lib/core/KdTree.h
@@ -351,8 +351,8 @@ template <int k>
 float KdTree<k>::findNPoints(std::vector<uint64_t>& result,
     std::vector<float>& distanceSquared,const float p[k],int nPoints,float maxRadius) const
 {
-    result.resize(nPoints);
-    distanceSquared.resize (nPoints);
+    result.resize(std::max(0,nPoints));
+    distanceSquared.resize (std::max(0,nPoints));
     float finalRadius2 = maxRadius;
     int size = findNPoints (&result[0], &distanceSquared[0], &finalRadius2, p, nPoints, maxRadius);
     result.resize(size);
-- 
2.43.0


From a64387795d78d136b6059c07e04b7c87d8c04da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:27 +0000
Subject: [PATCH 45/58] fix: TypeName of a value that is no type does not throw

---
 src/lib/core/Particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 122b58a..3625ca9 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -58,7 +58,7 @@ TypeName(ParticleAttributeType attrType)
         case FLOAT: return "FLOAT";
         case INT: return "INT";
         case INDEXEDSTR: return "INDEXEDSTR";
-        default: return 0;
+        default: return std::string();
     }
 }
 
-- 
2.43.0


From e634afc442931cb063a53c0eea2b1b02e725bee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:27 +0000
Subject: [PATCH 46/58] fix: Python refuses invalid attribute types and
 negative counts

---
 src/py/partio.i | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index 7b27ca7..1260d42 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -203,6 +203,22 @@ public:
     }
 }
 
+/* types and numbers of components, particles and neighbors must make sense */
+%typemap(check) ParticleAttributeType
+{
+    if((int)$1<(int)Partio::NONE || (int)$1>(int)Partio::INDEXEDSTR){
+        PyErr_SetString(PyExc_ValueError,"Not an attribute type");
+        SWIG_fail;
+    }
+}
+%typemap(check) const int count, int nPoints, const int numNeighbors
+{
+    if($1<0){
+        PyErr_SetString(PyExc_ValueError,"Expecting a number that is not negative");
+        SWIG_fail;
+    }
+}
+
 %typemap(in) fixedFloatArray
 {
     int i;
-- 
2.43.0


From c337d87afc3bbdacd4bc1bc46e64879e29684f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:54 +0000
Subject: [PATCH 47/58] fix: give back zlib's memory after a compressed stream
 turns out damaged

---
 src/lib/io/ZIP.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 16e8f1c..6e68902 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -244,12 +244,13 @@ class ZipStreambufDecompress:public std::streambuf
     bool own_istream;
     bool valid;
     bool compressed_data;
+    bool inflating; // strm has to be ended
 
     static const unsigned short DEFLATE=8;
     static const unsigned short UNCOMPRESSED=0;
 public:
     ZipStreambufDecompress(std::istream& stream,bool part_of_zip_file_input,const ZipFileHeader* central=0)
-        :istream(stream),total_read(0),total_uncompressed(0),part_of_zip_file(part_of_zip_file_input),valid(true)
+        :istream(stream),total_read(0),total_uncompressed(0),part_of_zip_file(part_of_zip_file_input),valid(true),inflating(false)
     {
         strm.zalloc=Z_NULL;strm.zfree=Z_NULL;strm.opaque=Z_NULL;strm.avail_in=0;strm.next_in=Z_NULL;
         setg((char*)in,(char*)in,(char*)in);
@@ -269,11 +270,12 @@ public:
         // initialize the inflate
         if(compressed_data && valid){
             int result=inflateInit2(&strm,-MAX_WBITS);
-            if(result!=Z_OK){std::cerr<<"gzip: inflateInit2 did not return Z_OK"<<std::endl;valid=false;}}
+            if(result!=Z_OK){std::cerr<<"gzip: inflateInit2 did not return Z_OK"<<std::endl;valid=false;}
+            else inflating=true;}
     }
 
     virtual ~ZipStreambufDecompress()
-    {if(compressed_data && valid) inflateEnd(&strm);
+    {if(inflating) inflateEnd(&strm);
     if(!part_of_zip_file) delete &istream;}
 
     int process()
-- 
2.43.0


From ab2223671b47983f8c7891d85d81c459aa59aeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:22 +0000
Subject: [PATCH 48/58] fix: give back the headers of damaged and repeated
 archive members

---
 src/lib/io/ZIP.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 6e68902..0595cf2 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -556,7 +556,10 @@ Find_And_Read_Central_Header()
     for(int i=0;i<num_files;i++){
         ZipFileHeader* header=new ZipFileHeader;
         bool valid=header->Read(istream,true);
-        if(valid) filename_to_header[header->filename]=header;}
+        if(!valid){delete header;return false;}
+        ZipFileHeader*& entry=filename_to_header[header->filename];
+        delete entry; // a name may be listed more than once
+        entry=header;}
     return true;
 }
 //#####################################################################
-- 
2.43.0


From c1f13908ebdf88d0bfd117c1a84aadb362b15448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:22 +0000
Subject: [PATCH 49/58] fix: PDC names cut short by the end of the file do not
 show memory contents

---
 src/lib/io/PDC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index 7a20d1f..d3dc581 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -68,7 +68,7 @@ string readName(istream& input){
     if(!input) return "";
     char* name = new char[nameLen];
     input.read(name, nameLen);
-    string result(name, name+nameLen);
+    string result(name, name+input.gcount());
     delete [] name;
     return result;
 }
-- 
2.43.0


From a429e4a72c6cdd1bf7eceeba4cce9b455e9f96d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:57 +0000
Subject: [PATCH 50/58] fix: PDA says why a file without its keywords is not
 read

---
 src/lib/io/PDA.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index 864a4e4..30a2a4d 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -60,7 +60,11 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
     
     if(input->good()){
         *input>>word;
-        if(word!="ATTRIBUTES"){simple->release();return 0;}
+        if(word!="ATTRIBUTES"){
+            if(errorStream) *errorStream <<"Partio: Unable to find ATTRIBUTES in "<<filename<<endl;
+            simple->release();
+            return 0;
+        }
     }
 
     vector<string> attrNames;
@@ -112,17 +116,15 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
     if(headersOnly) return simple; // escape before we try to touch data
     
     // look for beginning of header
-    if(input->good()){
-        *input>>word;
-        if(word != "BEGIN"){simple->release();return 0;}
-    }
-    if(input->good()){
-        *input>>word;
-        if(word != "DATA"){simple->release();return 0;}
+    string begin,data;
+    *input>>begin>>data;
+    if(!*input || begin!="BEGIN" || data!="DATA"){
+        if(errorStream) *errorStream <<"Partio: Unable to find BEGIN DATA in "<<filename<<endl;
+        simple->release();
+        return 0;
     }
 
     // Read actual particle data
-    if(!*input){simple->release();return 0;}
     for(unsigned int particleIndex=0;*input && particleIndex<num; particleIndex++) {
         for(unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++){
             if(attrs[attrIndex].type==Partio::INT){
-- 
2.43.0


From 17d8a1a1115446d0bf184e4cc143d14793ca830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:57 +0000
Subject: [PATCH 51/58] fix: PTS does not take a read error for the end of the
 file

---
 src/lib/io/PTS.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index e45dfbd..7925b2e 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -212,6 +212,12 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
             particleIndex++;
         }
     } while (getline(*input,line));
+
+    if (input->bad()) { // not the end of the file, but an error before it
+        if(errorStream) *errorStream<<"Partio: Unable to read all of "<<filename<<endl;
+        simple->release();
+        return 0;
+    }
     return simple;
 }
 
-- 
2.43.0


From 21841e49739369d92f8fb870c380c7e8d44ffd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:57 +0000
Subject: [PATCH 52/58] fix: errors in compressed files are not taken for their
 end

---
 src/lib/io/ZIP.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 0595cf2..3cdb649 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -313,11 +313,14 @@ public:
 
     virtual int underflow()
     {if(gptr() && (gptr()<egptr())) return traits_type::to_int_type(*gptr()); // if we already have data just use it
+    const bool was_valid=valid;
     int put_back_count=static_cast<int>(gptr()-eback());
     if(put_back_count>4) put_back_count=4;
     std::memmove(out+(4-put_back_count),gptr()-put_back_count,put_back_count);
     int num=std::max(0,process());
     setg((char*)(out+4-put_back_count),(char*)(out+4),(char*)(out+4+num));
+    // an exception, so that readers see an error and not just the end of the file
+    if(num<=0 && (istream.bad() || (was_valid && !valid))) throw std::runtime_error("ZIP: unable to read compressed data");
     if(num<=0) return EOF;
     return traits_type::to_int_type(*gptr());}
 
-- 
2.43.0


From 898dea4f6e259ca4cf203540be9a4dbaf54ef7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:08 +0000
Subject: [PATCH 53/58] fix: report a file that could not be written completely

---
 src/lib/io/BGEO.cpp |  3 +--
 src/lib/io/BIN.cpp  |  2 +-
 src/lib/io/GEO.cpp  |  3 +--
 src/lib/io/PDA.cpp  |  2 +-
 src/lib/io/PDB.cpp  |  2 +-
 src/lib/io/PDC.cpp  |  2 +-
 src/lib/io/PRT.cpp  |  2 +-
 src/lib/io/PTC.cpp  |  2 +-
 src/lib/io/RIB.cpp  |  2 +-
 src/lib/io/ZIP.cpp  | 27 +++++++++++++++++++++++++--
 src/lib/io/ZIP.h    |  2 ++
 src/lib/io/io.h     | 10 ++++++++++
 12 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index 0f23757..e333ce8 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -506,8 +506,7 @@ bool writeBGEO(const char* filename,const ParticlesData& p,const bool compressed
 	#pragma warning (pop)  
 #endif  
 
-    // success
-    return true;
+    return io::finish(*output, filename, errorStream);
 }
 
 }
diff --git a/src/lib/io/BIN.cpp b/src/lib/io/BIN.cpp
index 276277d..29910cb 100644
--- a/src/lib/io/BIN.cpp
+++ b/src/lib/io/BIN.cpp
@@ -529,7 +529,7 @@ bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compresse
 	output->write((const char*)&zero, sizeof(char)); // no RF 4 data (just 1 byte of 0)
 	output->write((const char*)&zero, sizeof(char)); // no RF 5 data (just 1 byte of 0)
 
-    return true;
+    return io::finish(*output, filename, errorStream);
 }
 
 }// end of namespace Partio
diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 068d589..5014c64 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -342,8 +342,7 @@ bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,
     *output<<" [0]\nbeginExtra"<<endl;
     *output<<"endExtra"<<endl;
 
-    // success
-    return true;
+    return io::finish(*output, filename, errorStream);
 }
 
 }
diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index 30a2a4d..714e128 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -204,7 +204,7 @@ bool writePDA(const char* filename,const ParticlesData& p,const bool compressed,
         }
         *output<<endl;
     }
-    return true;
+    return io::finish(*output, filename, errorStream);
 
 }
 
diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index 27a38fe..46f9d31 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -257,7 +257,7 @@ bool writePDBHelper(const char* filename,const ParticlesData& p,const bool compr
             output->write(accessor.raw<char>(it),sizeof(float)*attr.count);
         }
     }
-    return true;
+    return io::finish(*output, filename, errorStream);
 }
 
 ParticlesDataMutable* readPDB32(const char* filename,const bool headersOnly,std::ostream* errorStream)
diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index d3dc581..ff89d4c 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -216,7 +216,7 @@ bool writePDC(const char* filename,const ParticlesData& p,const bool compressed,
             }
         }
     }
-    return true;
+    return io::finish(*output, filename, errorStream);
 }
 
 }// end of namespace Partio
diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index 88ddd24..b93b8a6 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -464,7 +464,7 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
             if(errorStream) *errorStream<<"Zlib deflateEnd error"<<std::endl;
             return false;
         }
-        // success
+        return io::finish(*output, filename, errorStream);
     }// end if numParticles > 0
     return true;
 }
diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 5d32297..7d727a5 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -377,7 +377,7 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
         }
         
     }
-    return true;
+    return io::finish(*output, filename, errorStream);
 }
 
 }
diff --git a/src/lib/io/RIB.cpp b/src/lib/io/RIB.cpp
index 5f6e68a..7115fb1 100644
--- a/src/lib/io/RIB.cpp
+++ b/src/lib/io/RIB.cpp
@@ -144,6 +144,6 @@ bool writeRIB(const char* filename, const ParticlesData& p, const bool compresse
     *output << "  ResourceEnd" << endl;
     *output << "AttributeEnd" << endl;
 
-    return true;
+    return io::finish(*output, filename, errorStream);
 }
 }
diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 3cdb649..7a00e0a 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -368,6 +368,10 @@ public:
     }
 
     virtual ~ZipStreambufCompress()
+    {finish();
+    if(!header) delete &ostream;}
+
+    bool finish()
     {if(valid){
         process(true);
         deflateEnd(&strm);
@@ -378,8 +382,9 @@ public:
             ostream.seekp(header->header_offset);
             header->Write(ostream,false);
             ostream.seekp(final_position);}
-        else{Write_Primitive(ostream,crc);Write_Primitive(ostream,uncompressed_size);}}
-    if(!header) delete &ostream;}
+        else{Write_Primitive(ostream,crc);Write_Primitive(ostream,uncompressed_size);ostream.flush();}
+        valid=false;}
+    return ostream.good();}
 
 protected:
     int process(bool flush)
@@ -455,6 +460,9 @@ public:
     virtual ~ZIP_FILE_OSTREAM()
     {}
 
+    void finish()
+    {if(!buf.finish()) setstate(std::ios::badbit);}
+
 //#####################################################################
 };
 //#####################################################################
@@ -612,6 +620,15 @@ Gzip_Out(const std::string& filename,std::ios::openmode mode)
     return stream;
 }
 //#####################################################################
+// Function Gzip_Finish
+//#####################################################################
+void
+Gzip_Finish(std::ostream& stream)
+{
+    ZIP_FILE_OSTREAM* zipped=dynamic_cast<ZIP_FILE_OSTREAM*>(&stream);
+    if(zipped) zipped->finish();
+}
+//#####################################################################
 
 #else
 
@@ -642,6 +659,12 @@ Gzip_Out(const std::string& filename,std::ios::openmode mode)
     return 0;    
 }
 //#####################################################################
+// Function Gzip_Finish
+//#####################################################################
+void
+Gzip_Finish(std::ostream&)
+{}
+//#####################################################################
 
 #endif
 } // namespace Partio
diff --git a/src/lib/io/ZIP.h b/src/lib/io/ZIP.h
index aa38cb4..d76bbe0 100644
--- a/src/lib/io/ZIP.h
+++ b/src/lib/io/ZIP.h
@@ -50,6 +50,8 @@ struct ZipFileHeader;
 //#####################################################################
 std::istream* Gzip_In(const std::string& filename,std::ios::openmode mode);
 std::ostream* Gzip_Out(const std::string& filename,std::ios::openmode mode);
+//! Writes all that a stream from Gzip_Out still holds, so that the stream's state tells whether it could
+void Gzip_Finish(std::ostream& stream);
 //#####################################################################
 // Class ZipFileWriter
 //#####################################################################
diff --git a/src/lib/io/io.h b/src/lib/io/io.h
index bb86bb6..7c3b39c 100644
--- a/src/lib/io/io.h
+++ b/src/lib/io/io.h
@@ -53,6 +53,16 @@ inline std::unique_ptr<std::ostream> write(const std::string& filename)
 }
 
 // Whether a name can be written as one word of a text format
+//! Writes what is still buffered, and reports if not everything could be written
+inline bool finish(std::ostream& output, const std::string& filename, std::ostream* errorStream)
+{
+    Gzip_Finish(output);
+    output.flush();
+    if (output) return true;
+    if (errorStream) *errorStream << "Partio: Unable to write all of " << filename << std::endl;
+    return false;
+}
+
 inline bool is_word(const std::string& name)
 {
     for (size_t i = 0; i < name.size(); i++)
-- 
2.43.0


From e97f98247872292e353bcfaafd1b88e5d2f9f838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:04 +0000
Subject: [PATCH 54/58] fix: PTS numbers are not read as zero when a conversion
 is refused memory

---
 src/lib/io/PTS.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 7925b2e..ce2ba4e 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -81,6 +81,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
     int valcount = 0;
     {
         stringstream ss(line);
+        ss.exceptions(ios::badbit); // lack of memory is not the end of the line
         while ( ss >> word ) valcount++;
     }
     /* Index of the first color value */
@@ -151,6 +152,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
     {
         string token = "";
         stringstream ss(line);
+        ss.exceptions(ios::badbit); // lack of memory is not the end of the line
 
         float lineData[8];
         int i = 0;
@@ -158,6 +160,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
         while (ss >> token)
         {
             stringstream foo(token);
+            foo.exceptions(ios::badbit);
             foo.imbue(locale::classic());
             float x = 0;
             foo >> x;
-- 
2.43.0


From 55453a2973fa2069cf5754ec763ccfdebb6cf77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:04 +0000
Subject: [PATCH 55/58] fix: the particle cache holds whole entries when it is
 refused memory

---
 src/lib/core/ParticleCaching.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/lib/core/ParticleCaching.cpp b/src/lib/core/ParticleCaching.cpp
index 8a470d2..ad4deee 100644
--- a/src/lib/core/ParticleCaching.cpp
+++ b/src/lib/core/ParticleCaching.cpp
@@ -75,14 +75,20 @@ ParticlesData* readCached(const char* filename,const bool sort,const bool verbos
             p=i->second;
             cachedParticlesCount[p]++;
             std::map<ParticlesData*,ParticlesDataMutable*>::iterator u=cachedUnsorted.find(p);
-            if(sort && u!=cachedUnsorted.end()){
-                unsorted=u->second;
-                cachedUnsorted.erase(u);
-            }
+            if(sort && u!=cachedUnsorted.end()) unsorted=u->second;
         }
     }
     if(p){
-        if(unsorted) unsorted->sort();
+        if(unsorted){
+            try{
+                unsorted->sort();
+            }catch(...){ // the caller does not get it
+                freeCached(p);
+                throw;
+            }
+            Lock lock(mutex);
+            cachedUnsorted.erase(p);
+        }
         return p;
     }
 
@@ -91,9 +97,15 @@ ParticlesData* readCached(const char* filename,const bool sort,const bool verbos
         if(sort) p_rw->sort();
         p=p_rw;
         Lock lock(mutex);
-        cachedParticles[filename]=p;
-        cachedParticlesCount[p]=1;
-        if(!sort) cachedUnsorted[p]=p_rw;
+        try{
+            if(!sort) cachedUnsorted[p]=p_rw;
+            cachedParticlesCount[p]=1;
+            cachedParticles[filename]=p;
+        }catch(...){ // not half of it
+            cachedUnsorted.erase(p);
+            cachedParticlesCount.erase(p);
+            throw;
+        }
     }
     return p;
 }
-- 
2.43.0


From c08721b8cddc290d2f8d32ddcd113d7db58dad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:04 +0000
Subject: [PATCH 56/58] fix: compressed streams refused memory report it, and
 close their file

---
 src/lib/io/ZIP.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 7a00e0a..cc937d9 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -44,6 +44,7 @@ extern "C"{
 #include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <memory>
 #include <stdexcept>
 #include <cstring>
 #include <string>
@@ -297,7 +298,7 @@ public:
                 case Z_NEED_DICT:
                 case Z_DATA_ERROR:
                 case Z_MEM_ERROR: 
-                    std::cerr<<"gzip error "<<strm.msg<<std::endl;
+                    std::cerr<<"gzip error "<<(strm.msg?strm.msg:"")<<std::endl;
                     valid=false;return -1;}
             if(ret==Z_STREAM_END) break;
             if(ret==Z_BUF_ERROR && strm.avail_in==0) break;} // input ended and zlib holds no more output
@@ -311,6 +312,9 @@ public:
         return count;}
     }
 
+    bool usable() const
+    {return valid;}
+
     virtual int underflow()
     {if(gptr() && (gptr()<egptr())) return traits_type::to_int_type(*gptr()); // if we already have data just use it
     const bool was_valid=valid;
@@ -371,6 +375,9 @@ public:
     {finish();
     if(!header) delete &ostream;}
 
+    bool usable() const
+    {return valid;}
+
     bool finish()
     {if(valid){
         process(true);
@@ -397,7 +404,7 @@ protected:
         int ret=deflate(&strm,flush?Z_FINISH:Z_NO_FLUSH);
         if(!(ret!=Z_BUF_ERROR && ret!=Z_STREAM_ERROR)){
             valid=false;
-            std::cerr<<"gzip: gzip error "<<strm.msg<<std::endl;;
+            std::cerr<<"gzip: gzip error "<<(strm.msg?strm.msg:"")<<std::endl;;
             return -1;}
         int generated_output=static_cast<int>(strm.next_out-(Bytef*)out);
         ostream.write((char*)out,generated_output);
@@ -438,7 +445,7 @@ class ZIP_FILE_ISTREAM:public std::istream
 public:
     ZIP_FILE_ISTREAM(std::istream& istream,bool part_of_zip_file,const ZipFileHeader* central=0)
         :std::istream(&buf),buf(istream,part_of_zip_file,central)
-    {}
+    {if(!buf.usable()) setstate(std::ios::badbit);} // what cannot be read is not an empty file
 
     virtual ~ZIP_FILE_ISTREAM()
     {}
@@ -455,7 +462,7 @@ class ZIP_FILE_OSTREAM:public std::ostream
 public:
     ZIP_FILE_OSTREAM(ZipFileHeader* header,std::ostream& ostream)
         :std::ostream(&buf),buf(header,ostream)
-    {}
+    {if(!buf.usable()) setstate(std::ios::badbit);} // there is no buffer to write to
 
     virtual ~ZIP_FILE_OSTREAM()
     {}
@@ -601,12 +608,14 @@ void ZipFileReader::Get_File_List(std::vector<std::string>& filenames) const
 std::istream* 
 Gzip_In(const std::string& filename,std::ios::openmode mode)
 {
-    std::ifstream* infile=new std::ifstream(filename.c_str(),mode | std::ios::binary);
+    std::unique_ptr<std::ifstream> infile(new std::ifstream(filename.c_str(),mode | std::ios::binary));
     GZipFileHeader header;
     bool zipped=header.Read(*infile);
     infile->seekg(0);
-    if(!zipped) return infile;
-    else return new ZIP_FILE_ISTREAM(*infile,false);
+    if(!zipped) return infile.release();
+    std::istream* stream=new ZIP_FILE_ISTREAM(*infile,false);
+    infile.release(); // now owned by the stream
+    return stream;
 }
 //#####################################################################
 // Function Gzip_Out
@@ -614,9 +623,10 @@ Gzip_In(const std::string& filename,std::ios::openmode mode)
 std::ostream* 
 Gzip_Out(const std::string& filename,std::ios::openmode mode)
 {
-    std::ofstream* outfile=new std::ofstream(filename.c_str(),mode);
+    std::unique_ptr<std::ofstream> outfile(new std::ofstream(filename.c_str(),mode));
     std::ostream* stream=new ZIP_FILE_OSTREAM(0,*outfile);
-    if(!*outfile) stream->setstate(std::ios::failbit); // let the caller see that the open failed
+    std::ofstream* owned=outfile.release(); // by the stream
+    if(!*owned) stream->setstate(std::ios::failbit); // let the caller see that the open failed
     return stream;
 }
 //#####################################################################
-- 
2.43.0


From 52a1dd9bb8548b63f004ca4c0e8520bce2eb6f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:04 +0000
Subject: [PATCH 57/58] fix: particle sets refused memory stay as they were

---
 src/lib/core/ParticleSimple.cpp           | 54 +++++++++++++++++------
 src/lib/core/ParticleSimple.h             | 14 +++---
 src/lib/core/ParticleSimpleInterleave.cpp | 54 ++++++++++++++++++-----
 src/lib/core/ParticleSimpleInterleave.h   | 14 +++---
 4 files changed, 99 insertions(+), 37 deletions(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index 6944e73..1f034e3 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -41,6 +41,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 #include "ParticleCaching.h"
 #include <map>
 #include <algorithm>
+#include <new>
 #include <cassert>
 #include <iostream>
 
@@ -220,15 +221,25 @@ addAttribute(const char* attribute,ParticleAttributeType type,const int count)
     attr.type=type;
     attr.attributeIndex=static_cast<int>(attributes.size()); //  all arrays separate so we don't use this here!
     attr.count=count;
-    attributes.push_back(attr);
-    nameToAttribute[attribute]=static_cast<int>(attributes.size()-1);
-
     int stride=TypeSize(type)*count;
-    attributeStrides.push_back(stride);
     char* dataPointer=(char*)malloc((size_t)allocatedCount*(size_t)stride);
-    attributeData.push_back(dataPointer);
-    attributeOffsets.push_back(dataPointer-(char*)0);
-    attributeIndexedStrs.push_back(IndexedStrTable());
+    if(!dataPointer && allocatedCount!=0 && stride!=0) throw std::bad_alloc();
+    try{
+        attributes.push_back(attr);
+        nameToAttribute[attribute]=static_cast<int>(attributes.size()-1);
+        attributeStrides.push_back(stride);
+        attributeData.push_back(dataPointer);
+        attributeOffsets.push_back(dataPointer-(char*)0);
+        attributeIndexedStrs.push_back(IndexedStrTable());
+    }catch(...){ // no half of an attribute
+        free(dataPointer);
+        nameToAttribute.erase(attr.name);
+        attributes.resize(attr.attributeIndex);
+        attributeStrides.resize(attr.attributeIndex);
+        attributeData.resize(attr.attributeIndex);
+        attributeOffsets.resize(attr.attributeIndex);
+        throw;
+    }
 
     return attr;
 }
@@ -246,13 +257,21 @@ addFixedAttribute(const char* attribute,ParticleAttributeType type,const int cou
     attr.type=type;
     attr.attributeIndex=fixedAttributes.size(); //  all arrays separate so we don't use this here!
     attr.count=count;
-    fixedAttributes.push_back(attr);
-    nameToFixedAttribute[attribute]=fixedAttributes.size()-1;
-
     int stride=TypeSize(type)*count;
     char* dataPointer=(char*)malloc(stride);
-    fixedAttributeData.push_back(dataPointer);
-    fixedAttributeIndexedStrs.push_back(IndexedStrTable());
+    if(!dataPointer && stride!=0) throw std::bad_alloc();
+    try{
+        fixedAttributes.push_back(attr);
+        nameToFixedAttribute[attribute]=fixedAttributes.size()-1;
+        fixedAttributeData.push_back(dataPointer);
+        fixedAttributeIndexedStrs.push_back(IndexedStrTable());
+    }catch(...){ // no half of an attribute
+        free(dataPointer);
+        nameToFixedAttribute.erase(attr.name);
+        fixedAttributes.resize(attr.attributeIndex);
+        fixedAttributeData.resize(attr.attributeIndex);
+        throw;
+    }
 
     return attr;
 }
@@ -261,9 +280,11 @@ ParticleIndex ParticlesSimple::
 addParticle()
 {
     if(allocatedCount==particleCount){
+        const int oldCount=allocatedCount;
         allocatedCount=std::max(10,std::max(allocatedCount*3/2,particleCount));
         for(unsigned int i=0;i<attributes.size();i++) {
             char *memory = (char*)realloc(attributeData[i],(size_t)attributeStrides[i]*(size_t)allocatedCount);
+            if(!memory && attributeStrides[i]!=0){allocatedCount=oldCount;throw std::bad_alloc();}
             if(memory || attributeStrides[i]==0){ // an attribute of width 0 has no storage
                 attributeData[i]=memory;
             }
@@ -279,9 +300,12 @@ addParticles(const int countToAdd)
 {
     if(particleCount+countToAdd>allocatedCount){
         // TODO: this should follow 2/3 rule
+        const int oldCount=allocatedCount;
         allocatedCount=allocatedCount+countToAdd;
         for(unsigned int i=0;i<attributes.size();i++){
-            attributeData[i]=(char*)realloc(attributeData[i],(size_t)attributeStrides[i]*(size_t)allocatedCount);
+            char* memory=(char*)realloc(attributeData[i],(size_t)attributeStrides[i]*(size_t)allocatedCount);
+            if(!memory && attributeStrides[i]!=0){allocatedCount=oldCount;throw std::bad_alloc();}
+            attributeData[i]=memory;
             attributeOffsets[i]=attributeData[i]-(char*)0;
         }
     }
@@ -386,7 +410,9 @@ registerIndexedStr(const ParticleAttribute& attribute,const char* str)
     if(it!=table.stringToIndex.end()) return it->second;
     int newIndex=static_cast<int>(table.strings.size());
     table.strings.push_back(str);
+    try{
     table.stringToIndex[str]=newIndex;
+    }catch(...){table.strings.pop_back();throw;} // not half of it
     return newIndex;
 }
 
@@ -398,7 +424,9 @@ registerFixedIndexedStr(const FixedAttribute& attribute,const char* str)
     if(it!=table.stringToIndex.end()) return it->second;
     int newIndex=table.strings.size();
     table.strings.push_back(str);
+    try{
     table.stringToIndex[str]=newIndex;
+    }catch(...){table.strings.pop_back();throw;} // not half of it
     return newIndex;
 }
 
diff --git a/src/lib/core/ParticleSimple.h b/src/lib/core/ParticleSimple.h
index b32072a..ed93714 100644
--- a/src/lib/core/ParticleSimple.h
+++ b/src/lib/core/ParticleSimple.h
@@ -114,14 +114,16 @@ private:
         {
             const bool duplicates=stringToIndex.size()!=strings.size();
             const std::string old=strings[token];
-            strings[token]=str;
+            std::string replacement=str;
+            stringToIndex.insert(std::make_pair(replacement,token)); // first, as it may run out of memory
+            strings[token].swap(replacement);
             std::map<std::string,int>::iterator it=stringToIndex.find(old);
-            if(it!=stringToIndex.end() && it->second==token){
-                stringToIndex.erase(it);
-                for(size_t i=0;duplicates && i<strings.size();i++)
-                    if(strings[i]==old){stringToIndex[old]=static_cast<int>(i);break;}
+            if(strings[token]!=old && it!=stringToIndex.end() && it->second==token){
+                size_t i=duplicates ? 0 : strings.size();
+                while(i<strings.size() && strings[i]!=old) i++;
+                if(i<strings.size()) it->second=static_cast<int>(i);
+                else stringToIndex.erase(it);
             }
-            stringToIndex.insert(std::make_pair(std::string(str),token));
         }
     };
     std::vector<IndexedStrTable> attributeIndexedStrs;
diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 5d7b2da..76104a4 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -40,6 +40,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 #include "ParticleCaching.h"
 #include <map>
 #include <algorithm>
+#include <new>
 #include <cassert>
 #include <iostream>
 
@@ -213,13 +214,24 @@ addAttribute(const char* attribute,ParticleAttributeType type,const int count)
     attr.type=type;
     attr.attributeIndex=static_cast<int>(attributes.size()); //  all arrays separate so we don't use this here!
     attr.count=count;
-    attributes.push_back(attr);
-    nameToAttribute[attribute]=static_cast<int>(attributes.size()-1);
 
     // repackage data for new attribute
     int oldStride=stride;
     int newStride=stride+TypeSize(type)*count;
     char* newData=(char*)malloc((size_t)allocatedCount*(size_t)newStride);
+    if(!newData && allocatedCount!=0 && newStride!=0) throw std::bad_alloc();
+    try{
+        attributes.push_back(attr);
+        nameToAttribute[attribute]=static_cast<int>(attributes.size()-1);
+        attributeOffsets.push_back(oldStride);
+        attributeIndexedStrs.push_back(IndexedStrTable());
+    }catch(...){ // no half of an attribute
+        free(newData);
+        nameToAttribute.erase(attr.name);
+        attributes.resize(attr.attributeIndex);
+        attributeOffsets.resize(attr.attributeIndex);
+        throw;
+    }
     if(data){
         char* ptrNew=newData;
         char* ptrOld=data;
@@ -232,8 +244,6 @@ addAttribute(const char* attribute,ParticleAttributeType type,const int count)
     free(data);
     data=newData;
     stride=newStride;
-    attributeOffsets.push_back(oldStride);
-    attributeIndexedStrs.push_back(IndexedStrTable());
 
     return attr;
 }
@@ -251,14 +261,24 @@ addFixedAttribute(const char* attribute,ParticleAttributeType type,const int cou
     attr.type=type;
     attr.attributeIndex=fixedAttributes.size();
     attr.count=count;
-    fixedAttributes.push_back(attr);
-    nameToFixedAttribute[attribute]=fixedAttributes.size()-1;
 
     // extend the fixed block, which is separate from the particle data
-    fixedAttributeOffsets.push_back(fixedStride);
-    fixedStride+=TypeSize(type)*count;
-    fixedData=(char*)realloc(fixedData,std::max<size_t>(fixedStride,1));
-    fixedAttributeIndexedStrs.push_back(IndexedStrTable());
+    size_t newFixedStride=fixedStride+TypeSize(type)*count;
+    char* newFixedData=(char*)realloc(fixedData,std::max<size_t>(newFixedStride,1));
+    if(!newFixedData) throw std::bad_alloc();
+    fixedData=newFixedData;
+    try{
+        fixedAttributes.push_back(attr);
+        nameToFixedAttribute[attribute]=fixedAttributes.size()-1;
+        fixedAttributeOffsets.push_back(fixedStride);
+        fixedAttributeIndexedStrs.push_back(IndexedStrTable());
+    }catch(...){ // no half of an attribute
+        nameToFixedAttribute.erase(attr.name);
+        fixedAttributes.resize(attr.attributeIndex);
+        fixedAttributeOffsets.resize(attr.attributeIndex);
+        throw;
+    }
+    fixedStride=newFixedStride;
 
     return attr;
 }
@@ -267,8 +287,11 @@ ParticleIndex ParticlesSimpleInterleave::
 addParticle()
 {
     if(allocatedCount==particleCount){
+        const int oldCount=allocatedCount;
         allocatedCount=std::max(10,std::max(allocatedCount*3/2,particleCount));
-        data=(char*)realloc(data,(size_t)stride*(size_t)allocatedCount);
+        char* newData=(char*)realloc(data,(size_t)stride*(size_t)allocatedCount);
+        if(!newData && stride!=0){allocatedCount=oldCount;throw std::bad_alloc();}
+        data=newData;
     }
     return particleCount++;
 }
@@ -277,9 +300,12 @@ ParticlesDataMutable::iterator ParticlesSimpleInterleave::
 addParticles(const int countToAdd)
 {
     if(particleCount+countToAdd>allocatedCount){
+        const int oldCount=allocatedCount;
         while(allocatedCount<particleCount+countToAdd)
             allocatedCount=std::max(10,std::max(allocatedCount*3/2,particleCount));
-        data=(char*)realloc(data,(size_t)stride*(size_t)allocatedCount);
+        char* newData=(char*)realloc(data,(size_t)stride*(size_t)allocatedCount);
+        if(!newData && stride!=0){allocatedCount=oldCount;throw std::bad_alloc();}
+        data=newData;
     }
     int offset=particleCount;
     particleCount+=countToAdd;
@@ -385,7 +411,9 @@ registerIndexedStr(const ParticleAttribute& attribute,const char* str)
     if(it!=table.stringToIndex.end()) return it->second;
     int newIndex=static_cast<int>(table.strings.size());
     table.strings.push_back(str);
+    try{
     table.stringToIndex[str]=newIndex;
+    }catch(...){table.strings.pop_back();throw;} // not half of it
     return newIndex;
 }
 
@@ -397,7 +425,9 @@ registerFixedIndexedStr(const FixedAttribute& attribute,const char* str)
     if(it!=table.stringToIndex.end()) return it->second;
     int newIndex=table.strings.size();
     table.strings.push_back(str);
+    try{
     table.stringToIndex[str]=newIndex;
+    }catch(...){table.strings.pop_back();throw;} // not half of it
     return newIndex;
 }
 
diff --git a/src/lib/core/ParticleSimpleInterleave.h b/src/lib/core/ParticleSimpleInterleave.h
index 9c5e455..544dbbe 100644
--- a/src/lib/core/ParticleSimpleInterleave.h
+++ b/src/lib/core/ParticleSimpleInterleave.h
@@ -121,14 +121,16 @@ private:
         {
             const bool duplicates=stringToIndex.size()!=strings.size();
             const std::string old=strings[token];
-            strings[token]=str;
+            std::string replacement=str;
+            stringToIndex.insert(std::make_pair(replacement,token)); // first, as it may run out of memory
+            strings[token].swap(replacement);
             std::map<std::string,int>::iterator it=stringToIndex.find(old);
-            if(it!=stringToIndex.end() && it->second==token){
-                stringToIndex.erase(it);
-                for(size_t i=0;duplicates && i<strings.size();i++)
-                    if(strings[i]==old){stringToIndex[old]=static_cast<int>(i);break;}
+            if(strings[token]!=old && it!=stringToIndex.end() && it->second==token){
+                size_t i=duplicates ? 0 : strings.size();
+                while(i<strings.size() && strings[i]!=old) i++;
+                if(i<strings.size()) it->second=static_cast<int>(i);
+                else stringToIndex.erase(it);
             }
-            stringToIndex.insert(std::make_pair(std::string(str),token));
         }
     };
     std::vector<IndexedStrTable> attributeIndexedStrs;
-- 
2.43.0


From c324c88e77dff3f49ef571e1b28ec6bc47d9c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:36 +0000
Subject: [PATCH 58/58] fix: the reader and writer tables are not left locked
 when refused memory

---
 src/lib/io/ParticleIO.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/ParticleIO.cpp b/src/lib/io/ParticleIO.cpp
index 3e253fe..24ae6a0 100644
--- a/src/lib/io/ParticleIO.cpp
+++ b/src/lib/io/ParticleIO.cpp
@@ -46,13 +46,18 @@ typedef ParticlesDataMutable* (*READER_FUNCTION)(const char*,const bool,std::ost
 typedef bool (*WRITER_FUNCTION)(const char*,const ParticlesData&,const bool,std::ostream*);
 
 PartioMutex initializationMutex;
+struct Initialization // the tables below, one thread at a time
+{
+    Initialization() {initializationMutex.lock();}
+    ~Initialization() {initializationMutex.unlock();}
+};
 
 map<string,READER_FUNCTION>&
 readers()
 {
     static map<string,READER_FUNCTION> data;
     static bool initialized=false;
-    initializationMutex.lock();
+    Initialization lock;
     if(!initialized){
         data["bgeo"]=readBGEO;
         data["bhclassic"]=readBGEO;
@@ -73,7 +78,6 @@ readers()
         data["atbl"]=readBGEO;
 	initialized=true;
     }
-    initializationMutex.unlock();
     return data;
 }
 
@@ -82,7 +86,7 @@ writers()
 {
     static map<string,WRITER_FUNCTION> data;
     static bool initialized=false;
-    initializationMutex.lock();
+    Initialization lock;
     if(!initialized){
         data["bgeo"]=writeBGEO;
         data["bhclassic"]=writeBGEO;
@@ -102,7 +106,6 @@ writers()
         data["atbl"]=writeBGEO;
 	initialized=true;
     }
-    initializationMutex.unlock();
     return data;
 }
 
-- 
2.43.0

