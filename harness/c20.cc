// C20: NcML text written by NcmlCDMWriter restores the same dataset when read back.
#include "vfx.h"
#include <fimex/CDMFileReaderFactory.h>
#include <fimex/NcmlCDMReader.h>
#include <fimex/NcmlCDMWriter.h>
#include <fimex/XMLInputFile.h>
#include <fimex/XMLInputString.h>
#include <cstring>
#include <fstream>
using namespace vf;

struct TypedReader : CDMReader
{
    std::map<std::string, DataPtr> data;
    std::set<std::string> missing; //!< variables answering with empty data
    CDM& cdm() { return *cdm_; }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& v, size_t pos) override
    {
        const CDMVariable& var = cdm_->getVariable(v);
        if (missing.count(v)) return createData(var.getDataType(), 0);
        DataPtr d = data.at(v);
        const CDMDimension* u = cdm_->getUnlimitedDim();
        if (!u || !var.checkDimension(u->getName())) return d;
        szv len, st, sz;
        for (auto& s : var.getShape()) { len.push_back(cdm_->getDimension(s).getLength()); st.push_back(0); }
        sz = len;
        st.back() = pos;
        sz.back() = 1;
        return d->slice(len, st, sz);
    }
};

template <class T> DataPtr mk(const std::vector<T>& v) { auto a = make_shared_array<T>(v.size()); std::copy(v.begin(), v.end(), a.get()); return createData(v.size(), a); }
template <class T> DataPtr rndI(Rng& r, size_t n)
{
    std::vector<T> v(n);
    for (auto& x : v) {
        const int k = r.below(6);
        x = k == 0 ? std::numeric_limits<T>::min() : k == 1 ? std::numeric_limits<T>::max() : k == 2 ? T(r.u64()) : T(r.below(100));
    }
    return mk(v);
}
template <class T> DataPtr rndF(Rng& r, size_t n)
{
    std::vector<T> v(n);
    for (auto& x : v) {
        const int k = r.below(8);
        if (k == 0) x = std::numeric_limits<T>::max();
        else if (k == 1) x = -std::numeric_limits<T>::min();
        else if (k == 2) x = r.chance(0.2) ? std::numeric_limits<T>::quiet_NaN() : r.chance(0.2) ? (r.chance(0.5) ? -1 : 1) * std::numeric_limits<T>::infinity() : T(0);
        else if (k == 3) x = T(r.uni() * 1e-7);
        else if (k == 4) x = T(r.range(-1000, 1000)) / 3;
        else if (k == 5) x = T(1e9) * T(r.uni());
        else x = T(r.uni() * 360);
    }
    return mk(v);
}
static const sv words = {"a", "hello", "x&y", "<tag>", "k=\"v\"", "it's", "a b", " lead", "trail ", "a,b", "1|2", "#1", "blåbær", "tab\there", "two\nlines", "]]>", "&amp;", "0", "-", "a;b", "--", "æ/ø\\å"};
static DataPtr rndS(Rng& r, size_t n)
{
    std::vector<std::string> v(n);
    for (auto& x : v) { x = r.pick(words); if (r.chance(0.3)) x += r.pick(words); }
    return mk(v);
}
static DataPtr rnd(Rng& r, CDMDataType t, size_t n)
{
    switch (t) {
    case CDM_CHAR: return rndI<char>(r, n);
    case CDM_SHORT: return rndI<short>(r, n);
    case CDM_INT: return rndI<int>(r, n);
    case CDM_INT64: return rndI<long long>(r, n);
    case CDM_UCHAR: return rndI<unsigned char>(r, n);
    case CDM_USHORT: return rndI<unsigned short>(r, n);
    case CDM_UINT: return rndI<unsigned int>(r, n);
    case CDM_UINT64: return rndI<unsigned long long>(r, n);
    case CDM_FLOAT: return rndF<float>(r, n);
    case CDM_DOUBLE: return rndF<double>(r, n);
    case CDM_STRINGS: return rndS(r, n);
    default: { std::string s = r.pick(words); for (int i = r.below(3); i > 0; --i) s += r.pick(words); return createData(s); }
    }
}
static std::string dstr(const DataPtr& d)
{
    if (!d) return "null";
    std::ostringstream o;
    o << datatype2string(d->getDataType()) << '[' << d->size() << "]";
    if (d->getDataType() == CDM_STRING) o << '\'' << d->asString() << '\'';
    else if (d->getDataType() == CDM_STRINGS) { auto a = d->asStrings(); for (size_t i = 0; i < d->size(); ++i) o << '\'' << a[i] << '\''; }
    else { const unsigned char* p = (const unsigned char*)d->getDataPtr(); const size_t w = d->bytes_for_one(); char b[4]; for (size_t i = 0; i < d->size() * w; ++i) { snprintf(b, 4, "%s%02x", i % w ? "" : " ", p[i / w * w + w - 1 - i % w]); o << b; } }
    return o.str();
}
static std::string canon(const CDM& cdm)
{
    std::set<std::string> l;
    for (auto& d : cdm.getDimensions()) { std::ostringstream s; s << "dim " << d.getName() << ' ' << d.getLength() << (d.isUnlimited() ? "*" : ""); l.insert(s.str()); }
    for (auto& v : cdm.getVariables()) l.insert("var " + v.getName() + " " + datatype2string(v.getDataType()) + " " + vstr(v.getShape()));
    for (auto& va : cdm.getAttributes()) for (auto& a : va.second) {
        if (a.getName() == "_Unsigned") continue; // NcML's own marker for unsigned variables
        std::string s = "att " + va.first + " " + a.getName() + " " + dstr(a.getData());
        for (char& ch : s) if (ch == '\n') ch = '~';
        l.insert(s);
    }
    std::string o;
    for (auto& x : l) o += x + "\n";
    return o;
}

static void roundtrip(Ctx& c)
{
    Rng& r = c.r;
    auto src = std::make_shared<TypedReader>();
    CDM& cdm = src->cdm();
    static const sv dn = {"x", "y", "z-1", "d&e", "q'", "lev.2"};
    sv dims;
    const int nd = r.range(1, 4);
    for (int i = 0; i < nd; ++i) { CDMDimension d(dn[i], r.range(1, 4)); cdm.addDimension(d); dims.push_back(dn[i]); }
    if (r.chance(0.5)) { CDMDimension d("time", r.range(r.chance(0.1) ? 0 : 1, 4)); d.setUnlimited(1); cdm.addDimension(d); dims.push_back("time"); }
    std::vector<CDMDataType> types = numTypes();
    types.push_back(CDM_STRINGS);
    static const sv vn = {"v", "temp 2m", "a<b", "x&y", "n\"q", "ø"};
    const int nv = r.range(1, 4);
    for (int i = 0; i < nv; ++i) {
        const std::string name = vn[i];
        const CDMDataType t = r.pick(types);
        sv sh;
        size_t n = 1;
        for (auto& d : dims) if (r.chance(0.4)) { sh.push_back(d); n *= cdm.getDimension(d).getLength(); }
        if (t == CDM_STRINGS && sh.empty()) continue; // a scalar list of strings is a CDM_STRING
        if (n == 0) continue;                         // NcML has no notation for an empty list
        cdm.addVariable(CDMVariable(name, t, sh));
        src->data[name] = rnd(r, t, n);
        if (r.chance(0.4) && t != CDM_STRINGS) cdm.addAttribute(name, CDMAttribute("_FillValue", rnd(r, t, 1)));
        if (r.chance(0.1) && t != CDM_STRINGS) { src->missing.insert(name); src->data[name] = createData(t, n, cdm.getFillValue(name)); }
    }
    std::vector<CDMDataType> at = types;
    at.push_back(CDM_STRING);
    at.push_back(CDM_STRING);
    static const sv an = {"units", "long_name", "a b", "x&y", "flag_values"};
    auto addAtts = [&](const std::string& v) { for (auto& a : an) if (r.chance(0.3)) { const CDMDataType t = r.pick(at); DataPtr d = rnd(r, t, r.range(1, 4)); cdm.addAttribute(v, CDMAttribute(a, d)); c.cnt("attributes"); } };
    for (auto& d : src->data) addAtts(d.first);
    addAtts(CDM::globalAttributeNS());
    c.d << canon(cdm);
    for (auto& d : src->data) c.d << d.first << ": " << dstr(d.second) << "\n";
    c.sig(c.d.str());

    const bool withData = r.chance(0.85);
    CDMReader_p back;
    std::string text;
    if (withData && r.chance(0.3)) {
        const std::string f = c.file("w" + std::to_string(c.idx) + ".ncml");
        { NcmlCDMWriter w(src, f); }
        back = r.chance(0.5) ? CDMFileReaderFactory::create("ncml", f) : CDMReader_p(std::make_shared<NcmlCDMReader>(XMLInputFile(f)));
        ::unlink(f.c_str());
        c.cnt("via_file");
    } else {
        std::ostringstream o;
        if (!withData && r.chance(0.5)) cdm.toXMLStream(o);
        else { NcmlCDMWriter w(src, o, withData); }
        text = o.str();
        back = std::make_shared<NcmlCDMReader>(XMLInputString(text));
    }
    VCHECK(c, canon(cdm) == canon(back->getCDM()), "metadata", firstDiff(canon(cdm), canon(back->getCDM())) << text);
    for (auto& d : src->data) {
        if (!withData) continue;
        DataPtr b = back->getData(d.first);
        VCHECK(c, dstr(d.second) == dstr(b), "data", d.first << " wrote " << dstr(d.second) << " read " << dstr(b));
        c.cnt("variables");
        c.cnt("values", d.second->size());
    }
    if (withData) { // a second round gives the same text's dataset again
        std::ostringstream o;
        NcmlCDMWriter w(back, o, true);
        NcmlCDMReader b2(XMLInputString(o.str()));
        VCHECK(c, canon(cdm) == canon(b2.getCDM()), "metadata-second-round", firstDiff(canon(cdm), canon(b2.getCDM())));
        for (auto& d : src->data) { DataPtr b = b2.getData(d.first); VCHECK(c, dstr(d.second) == dstr(b), "data-second-round", d.first << " wrote " << dstr(d.second) << " read " << dstr(b)); }
    }
}
VF_MAIN("C20", "dataset restored from NcML text is identical to the written one", {"roundtrip", roundtrip, 4000, 100000})
