#include "user.h"
using namespace Partio;
Model userLook(const ParticlesData& q,int path){
    const ParticlesData& p=q;
    Model m; m.n=p.numParticles();
    std::vector<ParticleAttribute> h;
    for(int i=0;i<p.numAttributes();i++){
        ParticleAttribute a,b; if(!p.attributeInfo(i,a)||!p.attributeInfo(a.name.c_str(),b)||b.name!=a.name) violation("attributes","an attribute of the set is not found by its name");
        MAttr x; x.name=a.name; x.type=a.type; x.count=a.count; if(a.type==INDEXEDSTR) x.strs=p.indexedStrs(a);
        x.data.resize((size_t)m.n*(a.count>0?a.count:0)); m.attrs.push_back(x); h.push_back(a);
    }
    if(path==1&&m.n){ ParticlesData& p=const_cast<ParticlesData&>(q); // reading in batches is not marked const
        std::vector<ParticleIndex> ix(m.n); for(int k=0;k<m.n;k++) ix[k]=k;
        for(size_t i=0;i<h.size();i++) if(h[i].count>0){ if(h[i].type==INT||h[i].type==INDEXEDSTR) p.data<int>(h[i],m.n,ix.data(),true,(int*)&m.attrs[i].data[0]); else p.data<float>(h[i],m.n,ix.data(),true,(float*)m.attrs[i].data.data()); }
    }else if(path==2){
        std::vector<ParticleAccessor> acc; acc.reserve(h.size()+1); for(auto& a:h) acc.push_back(ParticleAccessor(a));
        ParticlesData::const_iterator it=p.begin(); for(auto& a:acc) it.addAccessor(a);
        int k=0; for(ParticlesData::const_iterator e=p.end();it!=e&&k<m.n;++it,++k) for(size_t i=0;i<h.size();i++) for(int c=0;c<h[i].count;c++) m.attrs[i].data[(size_t)k*h[i].count+c]=acc[i].raw<uint32_t>(it)[c];
        if(k!=m.n) violation("iterator:count",strf("an iterator visits %d of %d particles",k,m.n));
    }else for(size_t i=0;i<h.size();i++){
        if(path==3&&m.n&&h[i].count>0&&(h[i].type==FLOAT||h[i].type==VECTOR)){ std::vector<ParticleIndex> ix(m.n); for(int k=0;k<m.n;k++) ix[k]=k; p.dataAsFloat(h[i],m.n,ix.data(),true,(float*)m.attrs[i].data.data()); continue; }
        for(int k=0;k<m.n;k++){ const uint32_t* d=(const uint32_t*)p.data<void>(h[i],k); for(int c=0;c<h[i].count;c++) m.attrs[i].data[(size_t)k*h[i].count+c]=d[c]; }
    }
    for(size_t i=0;i<h.size();i++) if(h[i].type==INDEXEDSTR) for(auto& s:m.attrs[i].strs){ int t=p.lookupIndexedStr(h[i],s.c_str()); if(t<0||t>=(int)m.attrs[i].strs.size()||m.attrs[i].strs[t]!=s) violation("lookup","looking up a string of the set gives another one"); }
    for(int i=0;i<p.numFixedAttributes();i++){
        FixedAttribute a,b; if(!p.fixedAttributeInfo(i,a)||!p.fixedAttributeInfo(a.name.c_str(),b)||b.name!=a.name) violation("attributes","a fixed attribute of the set is not found by its name");
        MAttr x; x.name=a.name; x.type=a.type; x.count=a.count; if(a.type==INDEXEDSTR) x.strs=p.fixedIndexedStrs(a);
        const uint32_t* d=(const uint32_t*)p.fixedData<void>(a); for(int c=0;c<a.count;c++) x.data.push_back(d[c]); m.fixed.push_back(x);
    }
    return m;
}
uint64_t userFill(ParticlesDataMutable& p,uint32_t salt){
    p.addParticles(1+salt%4); uint64_t k=0;
    for(int i=0;i<p.numAttributes();i++){ ParticleAttribute a; p.attributeInfo(i,a); if(a.type==INDEXEDSTR) p.registerIndexedStr(a,"written by its owner");
        for(int j=0;j<p.numParticles();j++){ uint32_t* d=(uint32_t*)p.dataWrite<void>(a,j); for(int c=0;c<a.count;c++) d[c]=a.type==INDEXEDSTR?0:(uint32_t)(salt+k++)%1000; } }
    return k;
}
