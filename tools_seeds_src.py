SEEDS = []
def seed(id, p, edits, demo=None, needs="", breaks="", **kw):
    d = dict(id=id, p=p, edits=edits, needs=needs, breaks=breaks, **kw)
    if demo is not None: d["demo"] = demo
    SEEDS.append(d)
L = "src/lib/core/"; IO = "src/lib/io/"

seed("c01-late-attribute", "C01", [(L+"ParticleSimple.cpp", "char* dataPointer=(char*)malloc((size_t)allocatedCount*(size_t)stride);", "char* dataPointer=(char*)malloc((size_t)particleCount*(size_t)stride);")],
r'''int main(){
  ParticlesDataMutable* p=create(); p->addParticles(4000); p->addParticle(); // storage for 6000
  ParticleAttribute a[6]; for(int k=0;k<6;k++){ char n[9]; sprintf(n,"a%d",k); a[k]=p->addAttribute(n,INT,1); }
  while(p->numParticles()<6000) p->addParticle();
  for(int k=5;k>=0;k--) for(int i=0;i<6000;i++) p->dataWrite<int>(a[k],i)[0]=k*10000+i;
  for(int k=0;k<6;k++) for(int i=0;i<6000;i++) CHECK(p->data<int>(a[k],i)[0]==k*10000+i);
}''', "an attribute added after a particle, then more particles within the capacity already reserved", "values of one attribute overwrite another's")

seed("c04-token-from-map-size", "C04", [(L+"ParticleSimple.cpp", "    int newIndex=table.strings.size();\n", "    int newIndex=table.stringToIndex.size();\n")],
r'''int main(){
  ParticlesDataMutable* p=create(); FixedAttribute f=p->addFixedAttribute("f",INDEXEDSTR,1);
  p->registerFixedIndexedStr(f,"a"); p->registerFixedIndexedStr(f,"b");
  p->setFixedIndexedStr(f,1,"a");
  int t=p->registerFixedIndexedStr(f,"c");
  CHECK(p->fixedIndexedStrs(f)[t]=="c"); CHECK(p->lookupFixedIndexedStr(f,"c")==2);
}''', "a fixed string attribute whose table holds one string twice after a reassignment, then a new string", "the token given for the new string decodes to another string")

seed("c05-odd-heap", "C05", [(L+"KdTree.h", "if(right_index<heap_size && distance_squared[right_index]>distance_squared[largest_index])", "if(right_index<heap_size-1 && distance_squared[right_index]>distance_squared[largest_index])")],
r'''int main(){
  ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3);
  int bad=0; p->addParticles(40); unsigned s=1;
  for(int i=0;i<40;i++) for(int k=0;k<3;k++){ s=s*1103515245+12345; p->dataWrite<float>(a,i)[k]=(s>>16)%97; }
  p->sort();
  for(int i=0;i<40;i++){ float c[3]={p->data<float>(a,i)[0]+.3f,p->data<float>(a,i)[1]+.1f,p->data<float>(a,i)[2]+.7f};
    std::vector<float> d; for(int j=0;j<40;j++){ const float*q=p->data<float>(a,j); float e=0; for(int k=0;k<3;k++) e+=(q[k]-c[k])*(q[k]-c[k]); d.push_back(e);} 
    std::vector<float> sd=d; for(size_t x=0;x<sd.size();x++) for(size_t y=x+1;y<sd.size();y++) if(sd[y]<sd[x]) std::swap(sd[x],sd[y]);
    for(int n=1;n<8;n++){ std::vector<ParticleIndex> r; std::vector<float> dd; p->findNPoints(c,n,1000,r,dd); float m=0; for(auto j:r) if(d[j]>m) m=d[j]; if(m>sd[n-1]*1.0001f) bad++; } }
  CHECK(bad==0);
}''', "an odd number of requested neighbours whose last found candidate is the farthest when the heap is built", "a nearest-neighbour query returns a farther particle in place of a nearer one")

seed("c05-remap-all", "C05", [(L+"ParticleSimple.cpp", "for(unsigned int i=startIndex;i<points.size();i++){", "for(unsigned int i=startIndex>1?1:0;i<points.size();i++){")],
r'''int main(){
  ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3); p->addParticles(9);
  for(int i=0;i<9;i++) for(int k=0;k<3;k++) p->dataWrite<float>(a,i)[k]=k?0:(i*5)%9;
  p->sort(); float lo[3]={0,0,0},hi[3]={9,0,0};
  std::vector<ParticleIndex> r; r.push_back(3); r.push_back(5); r.push_back(7); p->findPoints(lo,hi,r);
  CHECK(r[0]==3&&r[1]==5&&r[2]==7); CHECK(r.size()==12);
}''', "a box query into a result vector that already holds at least two entries", "earlier results in the vector are changed to other particles' indices")

seed("c12-wide-strings", "C12", [(L+"Particle.cpp", "newIndices.get()[j] = stringToString[attr.base.name][indices[j]];", "newIndices.get()[j] = stringToString[attr.base.name][indices[0]];")],
r"""int main(){
  ParticlesDataMutable *b=create(),*d=create();
  ParticleAttribute ba=b->addAttribute("s",INDEXEDSTR,2), da=d->addAttribute("s",INDEXEDSTR,2);
  b->registerIndexedStr(ba,"x"); d->registerIndexedStr(da,"y"); d->registerIndexedStr(da,"x");
  d->addParticles(1); d->dataWrite<int>(da,0)[0]=0; d->dataWrite<int>(da,0)[1]=1;
  merge(*b,*d); CHECK(b->numParticles()==1); b->attributeInfo("s",ba);
  CHECK(b->indexedStrs(ba)[b->data<int>(ba,0)[0]]=="y"); CHECK(b->indexedStrs(ba)[b->data<int>(ba,0)[1]]=="x");
}""", "a string attribute of width two or more whose components differ", "the second component takes the first one's string")

seed("c13-schema-fixed-name", "C13", [(L+"Particle.cpp", "p->addFixedAttribute(getMappedName(detail.name, attrNameMap).c_str(), detail.type, detail.count);", "p->addFixedAttribute(detail.name.c_str(), detail.type, detail.count);")],
r'''int main(){
  ParticlesDataMutable* p=create(); p->addFixedAttribute("a",INT,2); std::map<std::string,std::string> m; m["a"]="z";
  ParticlesDataMutable* c=cloneSchema(*p,&m); FixedAttribute f; CHECK(c->fixedAttributeInfo("z",f)); CHECK(!c->fixedAttributeInfo("a",f));
}''', "a schema clone with a rename of a fixed attribute", "the fixed attribute keeps its old name")

seed("c14-sort-self", "C14", [(L+"Particle.cpp", "std::sort(++idAndIndex.begin(), idAndIndex.end());", "std::sort(idAndIndex.begin(), idAndIndex.end());")],
r'''int main(){
  ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3), id=p->addAttribute("id",INT,1); p->addParticles(3);
  for(int i=0;i<3;i++){ for(int k=0;k<3;k++) p->dataWrite<float>(a,i)[k]=k?0:i; p->dataWrite<int>(id,i)[0]=10+i; }
  ParticlesDataMutable* c=computeClustering(p,3,1.5,100,1,4);
  ParticleAttribute ca,ci; c->attributeInfo("position",ca); c->attributeInfo("id",ci);
  // the particle with id 12 has one neighbour, id 11, at distance 1: four particles between
  int n=0; for(int i=0;i<c->numParticles();i++) if(c->data<int>(ci,i)[0]==12){ n++; CHECK(c->data<float>(ca,i)[0]>=1); }
  CHECK(n==5);
  n=0; for(int i=0;i<c->numParticles();i++) if(c->data<int>(ci,i)[0]==11){ n++; CHECK(c->data<float>(ca,i)[0]<=1); }
  CHECK(n==5);
}''', "a particle that is not the lowest identifier of its neighbourhood", "connections go to the particle itself or skip the lowest neighbour")

# ------------------------------------------------------------------ threads
THR = r'''#include <thread>
#include <atomic>
#include <unistd.h>
#include <sys/wait.h>
// runs f in many fresh processes; fails when one of them does
template<class F> int many(int n,F f){ for(int i=0;i<n;i++){ fflush(0); pid_t p=fork(); if(!p){ alarm(20); _exit(f(i)?0:1);} int s; waitpid(p,&s,0); if(!WIFEXITED(s)||WEXITSTATUS(s)) { printf("FAILED run %d status %x\n",i,s); return 1; } } return 0; }
static ParticlesDataMutable* small(int n){ ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3),b=p->addAttribute("id",INT,1); p->addParticles(n); for(int i=0;i<n;i++){ for(int k=0;k<3;k++) p->dataWrite<float>(a,i)[k]=i+k; p->dataWrite<int>(b,i)[0]=i; } return p; }
'''
seed("c07-early-flag", "C07", [(IO+"ParticleIO.cpp", "    static map<string,READER_FUNCTION> data;\n    static bool initialized=false;\n", "    static map<string,READER_FUNCTION> data;\n    static volatile bool initialized=false;\n    if(initialized) return data;\n"),
   (IO+"ParticleIO.cpp", "        data[\"bgeo\"]=readBGEO;\n        data[\"bhclassic\"]=readBGEO;\n", "        initialized=true;\n        data[\"bgeo\"]=readBGEO;\n        data[\"bhclassic\"]=readBGEO;\n")],
THR + r'''int main(int c,char**v){ std::string f=std::string(v[1])+"/a.pts"; { std::ofstream o(f.c_str()); o<<"1\n1 2 3 4 5 6 7\n"; }
  return many(1500,[&](int run){ std::atomic<int> go(0); std::atomic<bool> bad(false); std::vector<std::thread> t;
    for(int k=0;k<6;k++) t.push_back(std::thread([&,k]{ go++; while(go<6); for(volatile int w=0;w<k*(run%40)*3;w++); ParticlesDataMutable* p=read(f.c_str(),false); if(!p) bad=true; else p->release(); }));
    for(auto& x:t) x.join(); return !bad; }); }''', "the first reads of a process in several threads at once", "a reader registered for the extension is not found, or the table is changed while it is searched")

seed("c06-unlock-window", "C06", [(L+"ParticleCaching.cpp", "        if(i->second==0){ // ref count is now zero, remove from structure\n            delete particles;\n", "        if(i->second==0){ // ref count is now zero, remove from structure\n            // the destruction of a big set should not hold up other threads\n            mutex.unlock();\n            delete particles;\n            mutex.lock();\n")],
THR + r'''int main(int c,char**v){ std::string f=std::string(v[1])+"/a.bgeo"; { ParticlesDataMutable* p=small(3000); write(f.c_str(),*p); p->release(); }
  return many(60,[&](int){ std::atomic<bool> bad(false); std::vector<std::thread> t;
    for(int k=0;k<4;k++) t.push_back(std::thread([&]{ for(int i=0;i<60;i++){ ParticlesData* p=readCached(f.c_str(),false); ParticleAttribute a; if(!p||p->numParticles()!=3000||!p->attributeInfo("id",a)||p->data<int>(a,2999)[0]!=2999) bad=true; if(bad) return; p->release(); } }));
    for(auto& x:t) x.join(); return !bad; }); }''', "a cached read of the same file while another thread's last release is under way", "the read gives an object that has been deleted")

seed("c06-forget-name", "C06", [(L+"ParticleCaching.cpp", "                if(i2->second==particles){\n                    cachedParticles.erase(i2);\n                    goto exit_and_release;", "                if(i2->second==particles){\n                    if(cachedParticles.size()==1) cachedParticles.clear();\n                    else cachedParticles.erase(cachedParticles.begin());\n                    goto exit_and_release;")],
r'''int main(int c,char**v){ std::string a=std::string(v[1])+"/a.bgeo",b=std::string(v[1])+"/b.bgeo"; ParticlesDataMutable* p=create(); p->addAttribute("position",VECTOR,3); p->addAttribute("id",INT,1); p->addParticles(2); write(a.c_str(),*p); p->addParticle(); write(b.c_str(),*p); p->release();
  ParticlesData* x=readCached(a.c_str(),false); ParticlesData* y=readCached(b.c_str(),false); y->release();
  ParticlesData* z=readCached(a.c_str(),false); CHECK(z==x); CHECK(z->numParticles()==2); }''', "two files cached, the alphabetically later one released first", "the other file's entry is dropped, so two objects for it exist, and the released one stays in the cache")

seed("c06-count-late", "C06", [(L+"ParticleCaching.cpp", "        i->second--; // decrement ref count\n        if(i->second==0){", "        i->second--; // decrement ref count\n        if(i->second<=0 || cachedParticles.size()>3){")],
r'''int main(int c,char**v){ std::vector<ParticlesData*> h; 
  for(int i=0;i<4;i++){ std::string a=std::string(v[1])+"/"+char('a'+i)+".bgeo"; ParticlesDataMutable* p=create(); p->addAttribute("position",VECTOR,3); p->addAttribute("id",INT,1); p->addParticles(2+i); write(a.c_str(),*p); p->release(); h.push_back(readCached(a.c_str(),false)); }
  std::string a=std::string(v[1])+"/a.bgeo"; ParticlesData* x=readCached(a.c_str(),false); CHECK(x==h[0]); x->release(); ParticlesDataMutable* q=create(); q->addAttribute("position",VECTOR,3); q->addParticles(9); write(a.c_str(),*q);
  x=readCached(a.c_str(),false); CHECK(x->numParticles()==2); CHECK(x==h[0]); }''', "more than three files in the cache at once", "the first release of a set held twice frees it")

seed("c07-prt-static-buffer", "C07", [(IO+"PRT.cpp", "    char in_buf[OUT_BUFSIZE];\n", "    static char in_buf[OUT_BUFSIZE];\n")],
THR + r'''int main(int c,char**v){ std::vector<std::string> f; for(int i=0;i<4;i++){ f.push_back(std::string(v[1])+"/"+char('a'+i)+".prt"); ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3); p->addParticles(20000); unsigned s=i; for(int j=0;j<20000;j++) for(int k=0;k<3;k++){ s=s*1103515245+12345; p->dataWrite<float>(a,j)[k]=(s>>8)%65536+i*65536; } write(f[i].c_str(),*p); p->release(); }
  return many(20,[&](int){ std::atomic<bool> bad(false); std::vector<std::thread> t;
    for(int k=0;k<4;k++) t.push_back(std::thread([&,k]{ for(int r=0;r<6;r++){ std::ostringstream e; ParticlesDataMutable* p=read(f[k].c_str(),true,e); ParticleAttribute a; if(!p||!p->attributeInfo("position",a)||p->numParticles()!=20000){ bad=true; return; } for(int j=0;j<20000;j++) if((int)(p->data<float>(a,j)[0]/65536)!=k) bad=true; p->release(); } }));
    for(auto& x:t) x.join(); return !bad; }); }''', "two PRT files read at the same time in different threads", "one file's compressed data is decoded as the other's")

seed("c02-grow-once", "C02", [(L+"ParticleSimpleInterleave.cpp", "        while(allocatedCount<particleCount+countToAdd)\n            allocatedCount=std::max(10,std::max(allocatedCount*3/2,particleCount));", "        allocatedCount=std::max(countToAdd,std::max(allocatedCount*3/2,particleCount));")],
r"""#include <malloc.h>
int main(){
  for(int n=5;n<400;n+=7){ ParticlesDataMutable* q=createInterleave(); ParticleAttribute b=q->addAttribute("b",INT,3);
    q->addParticles(n); q->addParticles(n-1); CHECK(malloc_usable_size(q->dataWrite<int>(b,0))>=(size_t)(2*n-1)*12);
    for(int i=0;i<q->numParticles();i++) q->dataWrite<int>(b,i)[0]=i;
    for(int i=0;i<q->numParticles();i++) CHECK(q->data<int>(b,i)[0]==i);
    q->release(); }
}""", "an addition of about as many particles as there are already, to an interleaved set", "the storage is too small, so values are written past its end")

seed("c03-assign-keeps-end", "C03", [("src/lib/PartioIterator.h", "        particles = other.particles;\n        index = other.index;\n        indexEnd = other.indexEnd;\n        accessors = nullptr;", "        if (particles != other.particles) {\n            particles = other.particles;\n            indexEnd = other.indexEnd;\n        }\n        index = other.index;\n        accessors = nullptr;")],
r"""int main(){
  ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("a",INT,1); p->addParticles(3);
  ParticlesDataMutable::iterator it=p->begin(); p->addParticles(4); for(int i=0;i<7;i++) p->dataWrite<int>(a,i)[0]=i;
  it=p->begin(); int n=0; for(ParticlesDataMutable::iterator e=p->end();it!=e && n<20;++it) n++;
  CHECK(n==7);
}""", "an iterator of the set is assigned a new position after particles were added", "the iteration ends after the old number of particles")

seed("c05-skip-resort", "C05", [(L+"ParticleSimple.cpp", "    const ParticleIndex baseParticleIndex=0;\n", "    if(kdtree && kdtree->size()==numParticles()) return; // the tree is up to date\n    const ParticleIndex baseParticleIndex=0;\n")],
r"""int main(){
  ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3); p->addParticles(2);
  for(int i=0;i<2;i++) for(int k=0;k<3;k++) p->dataWrite<float>(a,i)[k]=i;
  p->sort(); p->dataWrite<float>(a,0)[0]=50; p->sort();
  float lo[3]={49,-1,-1},hi[3]={51,1,1}; std::vector<ParticleIndex> r; p->findPoints(lo,hi,r); CHECK(r.size()==1 && r[0]==0);
}""", "positions changed without a change of the count, then sorted again", "queries answer for the old positions")

seed("c08-ptc-axis", "C08", [(IO+"PTC.cpp", "	if (n[0] == 0 && n[1] == 0 && n[2] == 0) phi = z = 65535;", "	if (n[0] == 0 && n[1] == 0 && n[2] >= 0) phi = z = 65535;")],
r"""#include <cmath>
int main(int c,char**v){ std::string f=std::string(v[1])+"/a.ptc";
  ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3),b=p->addAttribute("normal",VECTOR,3); p->addParticles(3);
  float n[3][3]={{0,0,1},{0,0,-1},{.6f,0,.8f}}; for(int i=0;i<3;i++) for(int k=0;k<3;k++){ p->dataWrite<float>(a,i)[k]=i; p->dataWrite<float>(b,i)[k]=n[i][k]; }
  write(f.c_str(),*p); ParticlesDataMutable* q=read(f.c_str()); CHECK(q); CHECK(q->attributeInfo("normal",b));
  for(int i=0;i<3;i++) for(int k=0;k<3;k++) CHECK(fabs(q->data<float>(b,i)[k]-n[i][k])<1e-3); }""", "a normal exactly along the positive z axis", "the normal is read back as zero")

seed("c08-pda-int-float", "C08", [(IO+"PDA.cpp", "                    int ival;\n                    *input>>ival;\n                    data[count]=ival;", "                    float ival=0; // may be written with a fraction\n                    *input>>ival;\n                    data[count]=(int)ival;")],
r"""int main(int c,char**v){ std::string f=std::string(v[1])+"/a.pda";
  ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("id",INT,1); p->addParticles(3); int n[3]={5,16777217,-123456789}; for(int i=0;i<3;i++) p->dataWrite<int>(a,i)[0]=n[i];
  write(f.c_str(),*p); ParticlesDataMutable* q=read(f.c_str()); CHECK(q); CHECK(q->attributeInfo("id",a)); for(int i=0;i<3;i++) CHECK(q->data<int>(a,i)[0]==n[i]); }""", "an integer of more than 24 bits", "identifiers are read back rounded")

GZ = r"""#include <zlib.h>
static void putgz(const std::string& name,const std::string& head,const std::string& body){ z_stream z; memset(&z,0,sizeof z); deflateInit2(&z,6,Z_DEFLATED,-15,8,0); std::vector<char> o(body.size()*2+1000); z.next_in=(Bytef*)body.data(); z.avail_in=body.size(); z.next_out=(Bytef*)o.data(); z.avail_out=o.size(); deflate(&z,Z_FINISH);
 std::ofstream f(name.c_str(),std::ios::binary); f<<head; f.write(o.data(),o.size()-z.avail_out); deflateEnd(&z); unsigned t=crc32(0,(Bytef*)body.data(),body.size()); f.write((char*)&t,4); t=body.size(); f.write((char*)&t,4); }
static std::string slurp(const std::string& n){ std::ifstream f(n.c_str(),std::ios::binary); std::stringstream s; s<<f.rdbuf(); return s.str(); }
"""
seed("c09-long-extra", "C09", [(IO+"ZIP.cpp", "        for(int k=0;k<flgExtraLen;k++) Read_Primitive(istream,dummyByte);}", "        char extra[256]; // subfields\n        istream.read(extra,flgExtraLen%sizeof(extra));}")],
GZ + r"""int main(int c,char**v){ std::string d=v[1]; ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3); p->addParticles(3); for(int i=0;i<9;i++) p->dataWrite<float>(a,i/3)[i%3]=i; write((d+"/a.bgeo").c_str(),*p);
  std::string b=slurp(d+"/a.bgeo"); for(int n: {0,4,255,256,300,5000}){ std::string h("\x1f\x8b\x08\x04\0\0\0\0\0\xff",10); h+=(char)(n&255); h+=(char)(n>>8); h+=std::string(n,'x'); putgz(d+"/b.bgeo.gz",h,b);
    ParticlesDataMutable* q=read((d+"/b.bgeo.gz").c_str()); CHECK(q && q->numParticles()==3); CHECK(q->attributeInfo("position",a)); CHECK(q->data<float>(a,2)[2]==8); q->release(); } }""", "a gzip file whose extra field has 256 bytes or more", "the rest of the extra field is taken for compressed data")

seed("c09-crc-short-tail", "C09", [(IO+"ZIP.cpp", "    int consumed_input=static_cast<int>(pptr()-pbase());\n    uncompressed_size+=consumed_input;\n    crc=crc32(crc,(Bytef*)in,consumed_input);", "    int consumed_input=static_cast<int>(pptr()-pbase());\n    if(!flush || consumed_input>4){ // up to four bytes are the alignment\n    uncompressed_size+=consumed_input;\n    crc=crc32(crc,(Bytef*)in,consumed_input);}")],
GZ + r"""int main(int c,char**v){ std::string d=v[1]; for(int n=0;n<127;n++){ ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3); p->addAttribute(std::string(n+1,'a').c_str(),INT,1); p->addParticles(n); for(int i=0;i<n;i++) for(int j=0;j<p->numAttributes();j++){ p->attributeInfo(j,a); memset(p->dataWrite<char>(a,i),i,4*a.count); }
   write((d+"/a.bgeo").c_str(),*p); write((d+"/a.bgeo.gz").c_str(),*p); std::string b=slurp(d+"/a.bgeo"),z=slurp(d+"/a.bgeo.gz"); unsigned t[2]; memcpy(t,z.data()+z.size()-8,8); CHECK(t[1]==b.size()); CHECK(t[0]==crc32(0,(Bytef*)b.data(),b.size())); p->release(); } }""", "contents whose size is one to four bytes more than a multiple of the compressor's buffer", "the checksum and size of the compressed file are wrong")

seed("c10-bgeo-seek", "C10", [(IO+"BGEO.cpp", "        skip(input.get(),(size_t)nPoints*particleSize*sizeof(int));\n    } else {", "        input->seekg((streamoff)nPoints*particleSize*sizeof(int),ios::cur);\n    } else {")],
r"""int main(int c,char**v){ std::string d=v[1]; ParticlesDataMutable* p=create(); p->addAttribute("position",VECTOR,3); p->addAttribute("id",INT,1); FixedAttribute f=p->addFixedAttribute("f",INT,1); p->fixedDataWrite<int>(f)[0]=3; p->addParticles(5);
  for(const char* n: {"/a.bgeo","/a.bgeo.gz"}){ write((d+n).c_str(),*p); ParticlesDataMutable* q=read((d+n).c_str()); ParticlesInfo* h=readHeaders((d+n).c_str()); CHECK(q); CHECK(h); CHECK(h->numFixedAttributes()==q->numFixedAttributes()); CHECK(h->fixedAttributeInfo("f",f)); h->release(); q->release(); } }""", "headers of a compressed bgeo file", "the headers cannot be read or lack the detail attributes")

seed("c10-ptc-same-name", "C10", [(IO+"PTC.cpp", "        while(simple->attributeInfo(effectiveName.c_str(),info)){", "        while(!headersOnly && simple->attributeInfo(effectiveName.c_str(),info)){")],
r"""int main(int c,char**v){ std::string n=std::string(v[1])+"/a.ptc";
  { ParticlesDataMutable* p=create(); p->addAttribute("position",VECTOR,3); p->addAttribute("xx",FLOAT,1); p->addAttribute("yy",FLOAT,1); p->addParticles(2); for(int i=0;i<2;i++){ ParticleAttribute a; for(int j=0;j<3;j++){ p->attributeInfo(j,a); for(int k=0;k<a.count;k++) p->dataWrite<float>(a,i)[k]=j+k; } } write(n.c_str(),*p); }
  std::stringstream s; { std::ifstream f(n.c_str(),std::ios::binary); s<<f.rdbuf(); } std::string b=s.str(); size_t at=b.find("float yy\n"); CHECK(at!=std::string::npos); b.replace(at,9,"float xx\n"); { std::ofstream o(n.c_str(),std::ios::binary); o<<b; }
  ParticlesDataMutable* q=read(n.c_str()); ParticlesInfo* h=readHeaders(n.c_str()); CHECK(q&&h); CHECK(q->numAttributes()==h->numAttributes()); for(int i=0;i<q->numAttributes();i++){ ParticleAttribute a,b; q->attributeInfo(i,a); h->attributeInfo(i,b); CHECK(a.name==b.name); } }""", "a point cloud with two channels of the same name, or one named like a built-in one", "the headers give the same name twice where the file's particles have different ones")

seed("c11-pts-columns", "C11", [(IO+"PTS.cpp", "            if (i < 8) lineData[i] = x;\n            i++;", "            lineData[i] = x;\n            if (i < 4096) i++;")],
r"""int main(int c,char**v){ std::string n=std::string(v[1])+"/a.pts"; { std::ofstream o(n.c_str()); o<<"3\n1 2 3\n4 5 6\n"; for(int i=0;i<3000;i++) o<<i<<".5 "; o<<"\n7 8 9\n"; }
  ParticlesDataMutable* q=read(n.c_str()); CHECK(q); CHECK(q->numParticles()==3); ParticleAttribute a; CHECK(q->attributeInfo("position",a)); CHECK(q->data<float>(a,2)[0]==7); }""", "a damaged line with more columns than the format has", "values are written past the end of a buffer on the stack")

seed("c15-long-comment", "C15", [(IO+"ZIP.cpp", "    if(global) istream.read(buf,comment_length);", "    if(global) istream.read(buf,std::min<int>(comment_length,std::max(filename_length,extra_length)));")],
None, "a member with a comment longer than its name, followed by another member", "the entries after it are not found",
sh=r"""#!/bin/bash
# run with cwd /repo, after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$T"' EXIT; R=$PWD
cat > "$T/d.cpp" <<'E'
#include <io/ZIP.h>
#include <memory>
#include <sstream>
#include <cstdio>
int main(int c,char** v){ Partio::ZipFileReader z(v[1]); std::unique_ptr<std::istream> i(z.Get_File("second")); if(!i){ puts("no second"); return 1; } std::stringstream s; s<<i->rdbuf(); if(s.str()!="hello hello hello"){ puts("wrong"); return 1; } return 0; }
E
g++ -std=c++14 -w -DPARTIO_USE_ZLIB -I"$R/src/lib" -I"$R/src/lib/io" "$T/d.cpp" -o "$T/d" -L"$R/_build/src/lib" -lpartio -lz || exit 99
python3 - "$T" <<'E'
import zipfile,sys
for n in (0,3,10,255,256,1000):
    with zipfile.ZipFile(sys.argv[1]+"/a%d.zip"%n,"w",zipfile.ZIP_DEFLATED) as z:
        i=zipfile.ZipInfo("first"); i.comment=b"c"*n; z.writestr(i,"x"*100); z.writestr("second","hello hello hello")
E
for n in 0 3 10 255 256 1000; do LD_LIBRARY_PATH="$R/_build/src/lib" timeout 20 "$T/d" "$T/a$n.zip" || { echo "FAILED $n"; exit 1; }; done
exit 0
""")

seed("c16-gz-first-dot", "C16", [(IO+"ParticleIO.cpp", "        size_t period2=filename.rfind('.',period-1);\n", "        size_t period2=filename.substr(0,period).find('.');\n")],
r"""#include <sys/stat.h>
int main(int c,char**v){ std::string d=std::string(v[1])+"/v1.2"; mkdir(d.c_str(),0777); ParticlesDataMutable* p=create(); p->addAttribute("position",VECTOR,3); p->addParticles(5);
  for(const char* n: {"/a.bgeo","/a.0001.bgeo","/a.bgeo.gz","/a.0001.bgeo.gz"}){ write((d+n).c_str(),*p); ParticlesDataMutable* q=read((d+n).c_str()); CHECK(q && q->numParticles()==5); q->release(); } }""", "a compressed file with further dots in its name or directory", "the format is not recognised")

seed("c16-write-always-loud", "C16", [(IO+"ParticleIO.cpp", "    (*i->second)(c_filename,particles,forceCompressed || endsWithGz,verbose ? &errorStream : 0);", "    (*i->second)(c_filename,particles,forceCompressed || endsWithGz,&errorStream);")],
r"""int main(int c,char**v){ std::string d=v[1]; ParticlesDataMutable* p=create(); p->addAttribute("position",VECTOR,3); p->addParticles(5); std::ostringstream e; write((d+"/no/such/a.bgeo").c_str(),*p,false,false,e); CHECK(e.str().empty()); write((d+"/no/such/a.bgeo").c_str(),*p,false,true,e); CHECK(!e.str().empty()); }""", "a failing write which was asked to be quiet", "the failure is reported on the stream all the same")

LOC = r"""#!/bin/bash
# run with cwd /repo, after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$T"' EXIT; R=$PWD
localedef -i de_DE -f UTF-8 "$T/de_DE.UTF-8" >/dev/null 2>&1; [ -d "$T/de_DE.UTF-8" ] || exit 0
cat > "$T/d.cpp" <<'E'
#include <Partio.h>
#include <clocale>
#include <cstdio>
#include <string>
using namespace Partio;
int main(int c,char** v){ std::string f=std::string(v[1])+"/a.@EXT@"; if(!setlocale(LC_ALL,"de_DE.UTF-8")) return 0;
 ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3); p->addParticles(2); for(int i=0;i<6;i++) p->dataWrite<float>(a,i/3)[i%3]=i+.5f;
 write(f.c_str(),*p); ParticlesDataMutable* q=read(f.c_str()); if(!q||!q->attributeInfo("position",a)){ puts("not read"); return 1; } for(int i=0;i<6;i++) if(q->data<float>(a,i/3)[i%3]!=i+.5f){ puts("wrong value"); return 1; } return 0; }
E
g++ -std=c++14 -w -DPARTIO_USE_ZLIB -I"$R/src/lib" "$T/d.cpp" -o "$T/d" -L"$R/_build/src/lib" -lpartio -lz || exit 99
LOCPATH="$T" LD_LIBRARY_PATH="$R/_build/src/lib" timeout 20 "$T/d" "$T"
"""
seed("c17-geo-strtof", "C17", [(IO+"GEO.cpp", "        for(int i=0;i<3;i++) *input>>posInternal[i];", "        for(int i=0;i<3;i++){\n            string token; // may be nan or inf\n            *input>>token;\n            posInternal[i]=strtof(token.c_str(),0);\n        }")],
None, "a C locale with a decimal comma", "fractions of positions are lost", sh=LOC.replace("@EXT@", "geo"))

PRTW = r"""#include <zlib.h>
struct Ch{ std::string n; int type,arity,off; };
static void prt(const std::string& f,const std::vector<Ch>& ch,int n,const std::string& data){ std::ofstream o(f.c_str(),std::ios::binary); auto I=[&](int x){o.write((char*)&x,4);}; o.write("\300PRT\r\n\032\n",8); I(56); char sig[32]={0}; strcpy(sig,"Extensible Particle Format"); o.write(sig,32); I(1); long long c=n; o.write((char*)&c,8); I(4); I(ch.size()); I(44); for(auto& k:ch){ char b[32]={0}; strcpy(b,k.n.c_str()); o.write(b,32); I(k.type); I(k.arity); I(k.off); }
 uLongf l=compressBound(data.size()); std::vector<Bytef> z(l); compress(z.data(),&l,(Bytef*)data.data(),data.size()); o.write((char*)z.data(),l); }
"""
seed("c18-uint8-sign", "C18", [(IO+"PRT.cpp", "                            ival = (int)*reinterpret_cast<unsigned char*>( &prt_buf[ chans[attrIndex].offset + count * sizeof(unsigned char) ] );", "                            ival = (int)prt_buf[ chans[attrIndex].offset + count * sizeof(unsigned char) ];")],
PRTW + r"""int main(int c,char**v){ std::string f=std::string(v[1])+"/a.prt"; prt(f,{{"u",10,1,0}},256,[]{ std::string s; for(int i=0;i<256;i++) s+=(char)i; return s; }()); ParticlesDataMutable* q=read(f.c_str()); CHECK(q); ParticleAttribute a; CHECK(q->attributeInfo("u",a)); for(int i=0;i<256;i++) CHECK(q->data<int>(a,i)[0]==i); }""", "an 8 bit unsigned channel with values above 127", "the values become negative")

seed("c18-uint32-step", "C18", [(IO+"PRT.cpp", "                            ival = (int)*reinterpret_cast<unsigned int*>( &prt_buf[ chans[attrIndex].offset +  + count * sizeof(unsigned int) ] );", "                            ival = (int)*reinterpret_cast<unsigned int*>( &prt_buf[ chans[attrIndex].offset + count * sizeof(unsigned short) ] );")],
PRTW + r"""int main(int c,char**v){ std::string f=std::string(v[1])+"/a.prt"; int d[4]={1,2,3,400000}; prt(f,{{"u",7,2,0}},2,std::string((char*)d,16)); ParticlesDataMutable* q=read(f.c_str()); CHECK(q); ParticleAttribute a; CHECK(q->attributeInfo("u",a)); for(int i=0;i<4;i++) CHECK(q->data<int>(a,i/2)[i%2]==d[i]); }""", "a 32 bit unsigned channel with more than one component", "components after the first are read from the wrong place")

seed("c19-bgeo-many-points", "C19", [(IO+"BGEO.cpp", "            if(nPoints>=(int)1<<16)\n                skip(input,size*sizeof(int));", "            if(nPoints>(int)1<<16)\n                skip(input,size*sizeof(int));")],
r"""static void be(std::string& s,unsigned x,int n=4){ for(int i=n-1;i>=0;i--) s+=(char)(x>>(8*i)); }
int main(int c,char**v){ for(int n: {100,65535,65536,65537}){ std::string f=std::string(v[1])+"/a.bgeo",s="BgeoV"; be(s,5); be(s,n); be(s,1); be(s,0); be(s,0); be(s,0); be(s,0); be(s,0); be(s,1);
   for(int i=0;i<n;i++){ be(s,0);be(s,0);be(s,0);be(s,0x3f800000); } be(s,0x8000); be(s,3); for(int i=0;i<3;i++) be(s,i,n>=65536?4:2);
   be(s,1,2); s+="f"; be(s,1,2); be(s,1); be(s,0); be(s,77); s+=std::string("\0\xff",2); { std::ofstream o(f.c_str(),std::ios::binary); o<<s; }
   ParticlesDataMutable* q=read(f.c_str()); CHECK(q && q->numParticles()==n); FixedAttribute a; CHECK(q->fixedAttributeInfo("f",a)); CHECK(q->fixedData<int>(a)[0]==77); q->release(); } }""", "exactly 65536 points and a particle system primitive before the detail attributes", "the detail attributes are read from the wrong place")

seed("c19-mc-underscore", "C19", [(IO+"MC.cpp", "attribute.name = attribute.name.substr(attribute.name.find_first_of(\"_\")+1);", "attribute.name = attribute.name.substr(attribute.name.find_last_of(\"_\")+1);")],
r"""static void be(std::string& s,unsigned x){ for(int i=3;i>=0;i--) s+=(char)(x>>(8*i)); }
static void ch(std::string& s,const std::string& n){ s+="CHNM"; std::string m=n; m+='\0'; be(s,m.size()); while(m.size()%4) m+='\0'; s+=m; s+="SIZE"; be(s,4); be(s,1); s+="DBLA"; be(s,8); be(s,0x40000000); be(s,0); }
int main(int c,char**v){ std::string f=std::string(v[1])+"/a.mc",s="FOR4",b="MYCH"; ch(b,"p_id"); ch(b,"p_birth_time"); be(s,40); for(int i=0;i<10;i++) be(s,0); s+="FOR4"; be(s,b.size()); s+=b; { std::ofstream o(f.c_str(),std::ios::binary); o<<s; }
  ParticlesDataMutable* q=read(f.c_str()); CHECK(q && q->numParticles()==1); ParticleAttribute a; CHECK(q->attributeInfo("birth_time",a)); CHECK(q->data<float>(a,0)[0]==2); }""", "a channel whose name has an underscore of its own", "the attribute is given a shortened name")

seed("c19-ptc-version1", "C19", [(IO+"PTC.cpp", "    if(version>=1) for(int i=0;i<2;i++) read<LITEND>(*input,dummy);", "    if(version>=2) for(int i=0;i<2;i++) read<LITEND>(*input,dummy);")],
r"""int main(int c,char**v){ std::string f=std::string(v[1])+"/a.ptc"; { ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3); p->addParticles(2); for(int i=0;i<6;i++) p->dataWrite<float>(a,i/3)[i%3]=i; write(f.c_str(),*p); }
  std::stringstream s; { std::ifstream i(f.c_str(),std::ios::binary); s<<i.rdbuf(); } std::string b=s.str(); b[4]=1; b.insert(40,std::string(16,'\0')); b.insert(b.size()-2*20,std::string(8,'\0')); { std::ofstream o(f.c_str(),std::ios::binary); o<<b; }
  ParticlesDataMutable* q=read(f.c_str()); CHECK(q && q->numParticles()==2); ParticleAttribute a; CHECK(q->attributeInfo("position",a)); for(int i=0;i<6;i++) CHECK(q->data<float>(a,i/3)[i%3]==i); }""", "a point cloud of version 1", "the particles are read shifted by eight bytes")

seed("c20-fixed-index", "C20", [("src/py/partio.i", "        if(index<0 || index>=$self->numFixedAttributes()){", "        if(index<0 || (index>=$self->numFixedAttributes() && index>=$self->numAttributes())){")],
None, "an index which is in range for attributes but not for fixed attributes", "no exception is raised", py=r"""
import sys, partio
p=partio.create(); p.addAttribute("a",partio.INT,1); p.addAttribute("b",partio.INT,1); p.addFixedAttribute("f",partio.INT,1)
assert p.fixedAttributeInfo(0).name=="f"
try: r=p.fixedAttributeInfo(1)
except IndexError: sys.exit(0)
print("FAILED",r); sys.exit(1)
""")

seed("c20-json-order", "C20", [("src/tools/partjson.py", "        for pnum, particle in data['particles'].items():\n            pnum = int(pnum)\n", "        for pnum, key in enumerate(sorted(data['particles'])):\n            particle = data['particles'][key]\n")],
None, "more than ten particles that went through a file", "particles come back in another order", py=r"""
import sys, json, partio, partjson
for n in (3,12,101):
    p=partio.create(); a=p.addAttribute("a",partio.INT,1); p.addParticles(n)
    for i in range(n): p.set(a,i,(i,))
    q=partjson.fromJson(json.loads(json.dumps(partjson.toJson(p)))); b=q.attributeInfo("a")
    if [q.get(b,i)[0] for i in range(q.numParticles())]!=list(range(n)): print("FAILED",n); sys.exit(1)
""")

seed("c21-negative-token", "C21", [("src/tools/partinfo.cpp", "                    if (val < p->indexedStrs(attr).size()) {", "                    if (val < (int)p->indexedStrs(attr).size()) {")],
None, "a string attribute whose token is negative (not set by the program that wrote the file)", "memory before the string table is read", sh=r"""#!/bin/bash
# run with cwd /repo, after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$T"' EXIT; R=$PWD
printf 'PGEOMETRY V5\nNPoints 2 NPrims 1\nNPointGroups 0 NPrimGroups 0\nNPointAttrib 1 NVertexAttrib 0 NPrimAttrib 1 NAttrib 0\nPointAttrib\ns 1 index 1 "one"\n0 0 0 1 (0)\n1 1 1 1 (-100000)\nPrimitiveAttrib\n' > "$T/a.geo"
LD_LIBRARY_PATH="$R/_build/src/lib" timeout 20 "$R/_build/src/tools/partinfo" "$T/a.geo" 0 1 > "$T/o" 2>/dev/null; rc=$?
[ $rc = 0 ] && grep -q -- "-100000=<out-of-bounds>" "$T/o" && exit 0
echo "FAILED rc $rc"; exit 1
""")

seed("c22-p-second-pass", "C22", [(IO+"RIB.cpp", "                    (passIndex == 1 && (attr.name == \"P\"  || attr.name == \"position\"))) continue;", "                    (passIndex == 1 && attr.name == \"position\")) continue;")],
r"""int main(int c,char**v){ std::string f=std::string(v[1])+"/a.rib"; ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("P",VECTOR,3),b=p->addAttribute("P2",VECTOR,3); p->addParticles(1); for(int k=0;k<3;k++){ p->dataWrite<float>(a,0)[k]=k; p->dataWrite<float>(b,0)[k]=k+5; } write(f.c_str(),*p);
  std::ifstream i(f.c_str()); std::stringstream s; s<<i.rdbuf(); std::string t=s.str(); int n=0; for(size_t at=0;(at=t.find("\"P\"",at))!=std::string::npos;at++) n++; CHECK(n==2); }""", "positions named P and P2", "the second Points carries two P")

seed("c23-ptc-bbox", "C23", [(IO+"PTC.cpp", "boxmax[3]={-FLT_MAX,-FLT_MAX,-FLT_MAX};", "boxmax[3]={FLT_MIN,FLT_MIN,FLT_MIN};")],
r"""int main(int c,char**v){ std::string f=std::string(v[1])+"/a.ptc"; ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3); p->addParticles(2); for(int i=0;i<6;i++) p->dataWrite<float>(a,i/3)[i%3]=-1-i; write(f.c_str(),*p);
  std::ifstream i(f.c_str(),std::ios::binary); char b[40]; i.read(b,40); float x[6]; memcpy(x,b+16,24); CHECK(x[0]==-4 && x[1]==-5 && x[2]==-6); CHECK(x[3]==-1 && x[4]==-2 && x[5]==-3); }""", "all positions negative along an axis", "the bounding box in the header does not fit the particles")

seed("c12-mismatched-second", "C12", [(L+"Particle.cpp", "    hasIdentifier = hasIdentifier && !((baseHasIdentifier0 ^ deltaHasIdentifier0) || (baseHasIdentifier1 ^ deltaHasIdentifier1));", "    hasIdentifier = hasIdentifier && !((baseHasIdentifier0 ^ deltaHasIdentifier0) || (baseHasIdentifier1 && !deltaHasIdentifier1));")],
r"""int main(){ ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("a",INT,1); ParticlesDataMutable* q=create(); ParticleAttribute c=q->addAttribute("a",INT,1),b=q->addAttribute("b",INT,1);
  p->addParticles(2); for(int i=0;i<2;i++) p->dataWrite<int>(a,i)[0]=7+i; q->addParticles(1); q->dataWrite<int>(c,0)[0]=7; q->dataWrite<int>(b,0)[0]=0;
  merge(*p,*q,"a","b"); CHECK(p->numParticles()==3); }""", "a second identifier which only the merged set has, with the value 0", "a particle is overwritten instead of appended")

seed("c12-hash-as-key", "C12", [(L+"Particle.cpp", "    std::unordered_map<std::pair<int,int>,int,IntPairHash> idToParticleIndex;", "    std::unordered_map<size_t,int> idToParticleIndex;"),
 (L+"Particle.cpp", "            idToParticleIndex[std::make_pair(baseHasIdentifier0 ? base.data<int>(baseIdAttr0,i)[0] : 0,\n                                             baseHasIdentifier1 ? base.data<int>(baseIdAttr1,i)[0] : 0)] = i;", "            idToParticleIndex[IntPairHash()(std::make_pair(baseHasIdentifier0 ? base.data<int>(baseIdAttr0,i)[0] : 0,\n                                             baseHasIdentifier1 ? base.data<int>(baseIdAttr1,i)[0] : 0))] = i;"),
 (L+"Particle.cpp", "            auto it = idToParticleIndex.find(idValue);", "            auto it = idToParticleIndex.find(IntPairHash()(idValue));")],
r"""static unsigned hc(unsigned s,unsigned v){ return s^(0x9e3779b9U+(s<<6)+(s>>2)+v); }
int main(){ ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("a",INT,1),b=p->addAttribute("b",INT,1); ParticlesDataMutable* q=create(); ParticleAttribute c=q->addAttribute("a",INT,1),d=q->addAttribute("b",INT,1);
  p->addParticles(1); q->addParticles(1); p->dataWrite<int>(a,0)[0]=1; p->dataWrite<int>(b,0)[0]=5; unsigned h=hc(1,5); unsigned v=(h^2)-(0x9e3779b9U+(2<<6)); CHECK(hc(2,v)==h);
  q->dataWrite<int>(c,0)[0]=2; q->dataWrite<int>(d,0)[0]=(int)v; merge(*p,*q,"a","b"); CHECK(p->numParticles()==2); CHECK(p->data<int>(a,0)[0]==1); }""", "two different pairs of identifiers with the same combined hash", "a particle is overwritten by one with other identifiers")

LEAK = r"""#include <malloc.h>
template<class F> static void steady(F f){ for(int i=0;i<20;i++) f(); size_t a=mallinfo2().uordblks; for(int i=0;i<200;i++) f(); size_t b=mallinfo2().uordblks; CHECK(b<a+200*16); }
"""
seed("c24-prt-channel", "C24", [(IO+"PRT.cpp", "            memset(&ch, 0, sizeof(Channel));\n", "")],
r"""static void __attribute__((noinline)) dirty(){ volatile char b[60000]; for(int i=0;i<60000;i++) b[i]=(char)0xA5; }
int main(int c,char**v){ std::string f=std::string(v[1])+"/a.prt"; ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3),b=p->addAttribute("id",INT,1); p->addParticles(1); for(int k=0;k<3;k++) p->dataWrite<float>(a,0)[k]=k; p->dataWrite<int>(b,0)[0]=1;
  dirty(); write(f.c_str(),*p); std::ifstream i(f.c_str(),std::ios::binary); std::stringstream s; s<<i.rdbuf(); std::string t=s.str(); size_t at=t.find("osition"); CHECK(at!=std::string::npos); for(int k=7;k<31;k++) CHECK(t[at+k]==0); }""",
"looking at the padding of a name in a written file", "whatever the stack held ends up in the file, different from run to run")

seed("c24-gzip-modtime", "C24", [(IO+"ZIP.cpp", "    {magic0=0x1f;magic1=0x8b;cm=8;flags=0;os=0xff;", "    {magic0=0x1f;magic1=0x8b;cm=8;flags=0;os=0xff;modtime=(unsigned int)time(0);"), (IO+"ZIP.cpp", "#include <iostream>\n", "#include <ctime>\n#include <iostream>\n")],
r"""#include <unistd.h>
int main(int c,char**v){ std::string r[2]; for(int n=0;n<2;n++){ std::string f=std::string(v[1])+"/a.bgeo.gz"; ParticlesDataMutable* p=create(); p->addAttribute("position",VECTOR,3); write(f.c_str(),*p); p->release(); std::ifstream i(f.c_str(),std::ios::binary); std::stringstream s; s<<i.rdbuf(); r[n]=s.str(); usleep(1100000); } CHECK(r[0]==r[1]); }""",
"the same set written compressed at two different times", "the files differ")

seed("c24-bin-uvw", "C24", [(IO+"BIN.cpp", "        float uvw[3] = {0.0,0.0,0.0};\n        short infoBits = 7;", "        float uvw[3];\n        short infoBits = 7;")],
r"""static void __attribute__((noinline)) dirty(){ volatile char b[60000]; for(int i=0;i<60000;i++) b[i]=(char)0xA5; }
int main(int c,char**v){ std::string f=std::string(v[1])+"/a.bin"; ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3); p->addParticles(1); for(int k=0;k<3;k++) p->dataWrite<float>(a,0)[k]=k;
  dirty(); write(f.c_str(),*p); std::ifstream i(f.c_str(),std::ios::binary); std::stringstream s; s<<i.rdbuf(); CHECK(s.str().find("\xA5\xA5\xA5\xA5")==std::string::npos); ParticlesDataMutable* q=read(f.c_str()); CHECK(q); ParticleAttribute u; if(q->attributeInfo("uvw",u)) for(int k=0;k<3;k++) CHECK(q->data<float>(u,0)[k]==0); }""",
"particles without texture coordinates", "memory contents are written as the texture coordinates")

seed("c25-bgeo-name", "C25", [(IO+"BGEO.cpp", "            if(errorStream) *errorStream <<\"Partio: found attr of type 'string', aborting\"<<endl;\n            delete [] name;\n", "            if(errorStream) *errorStream <<\"Partio: found attr of type 'string', aborting\"<<endl;\n")],
LEAK+r"""int main(int c,char**v){ std::string f=std::string(v[1])+"/a.bgeo"; { ParticlesDataMutable* p=create(); p->addAttribute("position",VECTOR,3); p->addAttribute("aVeryLongAttributeNameIndeed",INT,1); write(f.c_str(),*p); }
  std::stringstream s; { std::ifstream i(f.c_str(),std::ios::binary); s<<i.rdbuf(); } std::string b=s.str(); size_t at=b.find("aVeryLong"); CHECK(at!=std::string::npos); b[at+28+2+3]=2; { std::ofstream o(f.c_str(),std::ios::binary); o<<b; }
  std::ostringstream e; ParticlesDataMutable* q=read(f.c_str(),true,e); CHECK(!q && e.str().find("'string'")!=std::string::npos); steady([&]{ CHECK(!read(f.c_str(),false)); }); }""",
"a file with an attribute of type string, read again and again", "the name of the attribute is never given back")

seed("c25-zip-entries", "C25", [(IO+"ZIP.cpp", "for(unsigned int i=0;i<files.size();i++){files[i]->Write(ostream,true);delete files[i];}", "for(unsigned int i=0;i<files.size();i++) files[i]->Write(ostream,true);")],
r"""#include <ZIP.h>
"""+LEAK+r"""int main(int c,char**v){ std::string f=std::string(v[1])+"/a.zip"; steady([&]{ ZipFileWriter z(f); for(int i=0;i<3;i++){ std::ostream* o=z.Add_File(std::string("member")+char('a'+i)); *o<<"text"; delete o; } }); }""",
"archives written again and again", "the header of every member is never given back")

seed("c25-ptc-spec", "C25", [(IO+"PTC.cpp", "            if(errorStream) *errorStream <<\"Partio: \"<<filename<<\" had unknown attribute spec \"<<typeName<<\" \"<<name<<endl;\n            simple->release();\n", "            if(errorStream) *errorStream <<\"Partio: \"<<filename<<\" had unknown attribute spec \"<<typeName<<\" \"<<name<<endl;\n")],
LEAK+r"""int main(int c,char**v){ std::string f=std::string(v[1])+"/a.ptc"; { ParticlesDataMutable* p=create(); p->addAttribute("position",VECTOR,3); p->addAttribute("temp",FLOAT,1); write(f.c_str(),*p); }
  std::stringstream s; { std::ifstream i(f.c_str(),std::ios::binary); s<<i.rdbuf(); } std::string b=s.str(); size_t at=b.find("float temp"); CHECK(at!=std::string::npos); b[at]='x'; { std::ofstream o(f.c_str(),std::ios::binary); o<<b; }
  std::ostringstream e; CHECK(!read(f.c_str(),true,e)); steady([&]{ CHECK(!read(f.c_str(),false)); }); }""",
"a file with an attribute of an unknown type, read again and again", "the unfinished set is never given back")

seed("c25-second-sort", "C25", [(L+"ParticleSimpleInterleave.cpp", "    if(kdtree) delete kdtree;\n    kdtree=kdtree_temp;", "    kdtree=kdtree_temp;")],
LEAK+r"""int main(){ steady([&]{ ParticlesDataMutable* p=createInterleave(); ParticleAttribute a=p->addAttribute("position",VECTOR,3); p->addParticles(20); for(int i=0;i<60;i++) p->dataWrite<float>(a,i/3)[i%3]=i; p->sort(); p->sort(); p->release(); }); }""",
"an interleaved set sorted twice", "the first tree is never given back")

FAULT = r"""#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <errno.h>
static long failRead=-1,failWrite=-1,reads,writes; static bool forever,on;
static bool hit(long& n,long at){ if(!on) return false; long k=n++; return at>=0 && (k==at || (forever && k>at)); }
extern "C" ssize_t read(int f,void* b,size_t n){ if(f>2 && hit(reads,failRead)){ errno=EIO; return -1; } return syscall(SYS_read,f,b,n); }
extern "C" ssize_t write(int f,const void* b,size_t n){ if(f>2 && hit(writes,failWrite)){ errno=ENOSPC; return -1; } return syscall(SYS_write,f,b,n); }
extern "C" ssize_t writev(int f,const struct iovec* v,int n){ if(f>2 && hit(writes,failWrite)){ errno=ENOSPC; return -1; } return syscall(SYS_writev,f,v,n); }
"""
seed("c26-gz-retry", "C26", [(IO+"ZIP.cpp", "                strm.avail_in=static_cast<uInt>(istream.gcount());\n", "                strm.avail_in=static_cast<uInt>(istream.gcount());\n                istream.clear(); // the next read finds the end of the file again\n")],
FAULT+r"""#include <ZIP.h>
int main(int c,char**v){ std::string f=std::string(v[1])+"/a.pts.gz"; { std::ostream* o=Gzip_Out(f,std::ios::out|std::ios::binary); unsigned s=1; *o<<"4000\n"; for(int i=0;i<4000;i++){ s=s*1103515245u+12345; *o<<(s>>5)<<" "<<(s>>9)*7<<" "<<i<<"\n"; } delete o; }
  on=true; ParticlesDataMutable* q=Partio::read(f.c_str(),false); CHECK(q && q->numParticles()==4000); long n=reads; CHECK(n>2); forever=true;
  for(long k=0;k<n;k++){ reads=0; failRead=k; ParticlesDataMutable* r=Partio::read(f.c_str(),false); failRead=-1; CHECK(!r || r->numParticles()==4000); } }""",
"a compressed point list on a device that fails in the middle of the file", "the points before the error are taken for all of them")

seed("c26-gz-direct", "C26", [(IO+"ZIP.cpp", "        ostream.write((char*)out,generated_output);\n", "        ostream.rdbuf()->sputn((char*)out,generated_output);\n")],
FAULT+r"""int main(int c,char**v){ std::string f=std::string(v[1])+"/a.bgeo.gz"; ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3); p->addParticles(9000); unsigned s=1; for(int i=0;i<27000;i++){ s=s*1103515245u+12345; p->dataWrite<float>(a,i/3)[i%3]=(float)s; }
  on=true; { std::ostringstream e; Partio::write(f.c_str(),*p,true,true,e); CHECK(e.str().empty()); } long n=writes; CHECK(n>2);
  for(long k=0;k<n;k++){ writes=0; failWrite=k; std::ostringstream e; Partio::write(f.c_str(),*p,true,true,e); failWrite=-1; CHECK(!e.str().empty()); } }""",
"one failing write in the middle of a large compressed file", "the file lacks a part and nothing is reported")

seed("c26-bgeo-direct", "C26", [(IO+"BGEO.cpp", "        output->write((char*)buffer,particleSize*sizeof(int));", "        output->rdbuf()->sputn((char*)buffer,particleSize*sizeof(int));")],
FAULT+r"""int main(int c,char**v){ std::string f=std::string(v[1])+"/a.bgeo"; ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3); p->addParticles(9000); for(int i=0;i<27000;i++) p->dataWrite<float>(a,i/3)[i%3]=(float)i;
  on=true; { std::ostringstream e; Partio::write(f.c_str(),*p,false,true,e); CHECK(e.str().empty()); } long n=writes; CHECK(n>2);
  for(long k=0;k<n;k++){ writes=0; failWrite=k; std::ostringstream e; Partio::write(f.c_str(),*p,false,true,e); failWrite=-1; CHECK(!e.str().empty()); } }""",
"one failing write in the middle of a large file", "the file lacks a part and nothing is reported")

seed("c26-pdb-direct", "C26", [(IO+"PDB.cpp", "            output->write(accessor.raw<char>(it),sizeof(float)*attr.count);", "            output->rdbuf()->sputn(accessor.raw<char>(it),sizeof(float)*attr.count);")],
FAULT+r"""int main(int c,char**v){ std::string f=std::string(v[1])+"/a.pdb"; ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3); p->addParticles(9000); for(int i=0;i<27000;i++) p->dataWrite<float>(a,i/3)[i%3]=(float)i;
  on=true; { std::ostringstream e; Partio::write(f.c_str(),*p,false,true,e); CHECK(e.str().empty()); } long n=writes; CHECK(n>2);
  for(long k=0;k<n;k++){ writes=0; failWrite=k; std::ostringstream e; Partio::write(f.c_str(),*p,false,true,e); failWrite=-1; CHECK(!e.str().empty()); } }""",
"one failing write in the middle of a large file", "the file lacks a part and nothing is reported")

MEMF = r"""#include <errno.h>
extern "C" { void* __libc_malloc(size_t); void* __libc_realloc(void*,size_t); void* __libc_calloc(size_t,size_t); }
#include <unistd.h>
static long failAt=-1,asked; static bool forever;
static bool refuse(){ if(failAt<0) return false; long k=asked++; return k==failAt || (forever && k>failAt); }
extern "C" void* malloc(size_t n){ if(refuse()){ errno=ENOMEM; return 0; } return __libc_malloc(n); }
extern "C" void* calloc(size_t a,size_t b){ if(refuse()){ errno=ENOMEM; return 0; } return __libc_calloc(a,b); }
extern "C" void* realloc(void* p,size_t n){ if(refuse()){ errno=ENOMEM; return 0; } return __libc_realloc(p,n); }
"""
seed("c27-bgeo-row", "C27", [(IO+"BGEO.cpp", "        int *buffer=new int[particleSize];\n", "        int *buffer=new(std::nothrow) int[particleSize];\n        if(!buffer) return simple;\n")],
MEMF+r"""int main(int c,char**v){ alarm(60); std::string f=std::string(v[1])+"/a.bgeo"; { ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3); p->addParticles(5); for(int i=0;i<15;i++) p->dataWrite<float>(a,i/3)[i%3]=i+1; write(f.c_str(),*p); p->release(); }
  for(int k=0;k<200;k++){ ParticlesDataMutable* q=0; asked=0; failAt=k; try{ q=Partio::read(f.c_str(),false); }catch(std::exception&){} failAt=-1; ParticleAttribute a; if(q){ CHECK(q->numParticles()==5 && q->attributeInfo("position",a)); for(int i=0;i<15;i++) CHECK(q->data<float>(a,i/3)[i%3]==i+1); q->release(); } } }""",
"no memory for the buffer of one point while a file is read", "a set is returned whose values were never read")

seed("c27-count-first", "C27", [(L+"ParticleSimpleInterleave.cpp", "    return particleCount++;\n", "    return particleCount-1;\n"), (L+"ParticleSimpleInterleave.cpp", "    if(allocatedCount==particleCount){\n", "    if(allocatedCount==particleCount++){\n")],
MEMF+r"""int main(int c,char**v){ alarm(60); ParticlesDataMutable* p=createInterleave(); ParticleAttribute a=p->addAttribute("id",INT,2); for(int i=0;i<10;i++) p->dataWrite<int>(a,p->addParticle())[0]=i;
  bool threw=false; asked=0; failAt=0; try{ p->addParticle(); }catch(std::exception&){ threw=true; } failAt=-1; CHECK(threw); CHECK(p->numParticles()==10); CHECK(p->addParticle()==10); CHECK(p->numParticles()==11); for(int i=0;i<10;i++) CHECK(p->data<int>(a,i)[0]==i); p->release(); }""",
"no memory when an interleaved set has to grow for a single particle", "the set counts a particle that has no storage")

seed("c27-sort-drops", "C27", [(L+"ParticleSimple.cpp", "    KdTree<3>* kdtree_temp=new KdTree<3>();\n", "    // the old tree's memory serves the new one\n    kdtree_mutex.lock();\n    delete kdtree;kdtree=0;\n    kdtree_mutex.unlock();\n    KdTree<3>* kdtree_temp=new KdTree<3>();\n")],
MEMF+r"""int main(int c,char**v){ alarm(60); ParticlesDataMutable* p=create(); ParticleAttribute a=p->addAttribute("position",VECTOR,3); p->addParticles(20); for(int i=0;i<60;i++) p->dataWrite<float>(a,i/3)[i%3]=i/3; p->sort(); float lo[3]={-1,-1,-1},hi[3]={99,99,99};
  for(int k=0;k<30;k++){ asked=0; failAt=k; try{ p->sort(); }catch(std::exception&){} failAt=-1; std::vector<ParticleIndex> f; p->findPoints(lo,hi,f); CHECK(f.size()==20); } p->release(); }""",
"a set that is sorted already is sorted again without enough memory", "its earlier search structure is gone, so searches find nothing")

seed("c27-inflate-again", "C27", [(IO+"ZIP.cpp", "                case Z_DATA_ERROR:\n                case Z_MEM_ERROR: \n", "                case Z_DATA_ERROR:\n"), (IO+"ZIP.cpp", "            if(ret==Z_STREAM_END) break;\n            if(ret==Z_BUF_ERROR", "            if(ret==Z_STREAM_END || ret==Z_MEM_ERROR) break;\n            if(ret==Z_BUF_ERROR")],
MEMF+r"""#include <ZIP.h>
int main(int c,char**v){ alarm(60); std::string f=std::string(v[1])+"/a.pts.gz"; { std::ostream* o=Gzip_Out(f,std::ios::out|std::ios::binary); *o<<"300\n"; for(int i=0;i<300;i++) *o<<i<<" "<<i*7<<" "<<i<<"\n"; delete o; }
  for(int k=0;k<60;k++){ ParticlesDataMutable* q=0; asked=0; failAt=k; try{ q=Partio::read(f.c_str(),false); }catch(std::exception&){} failAt=-1; if(q){ CHECK(q->numParticles()==300); q->release(); } } }""",
"zlib cannot get its window while a compressed point list is read", "the points up to there are taken for all of them")
