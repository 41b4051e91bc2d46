// C04: NetCDF writing and reading back. Oracle: the source, bit by bit; the file itself as seen by the netCDF C library.
#include "raw.h"
#include <fimex/CDMFileReaderFactory.h>
#include <fimex/CDMReaderUtils.h>
#include <fimex/CDMReaderWriter.h>
#include <fimex/CDMWriter.h>
#include <fimex/XMLInputString.h>
#include <unistd.h>
using namespace vf;

struct Fmt { std::string type, config, name; bool nc4, classic; };
static Fmt rndFmt(Ctx& c, const std::vector<std::string>& dims, const std::vector<std::string>& vars)
{
    Rng& r = c.r;
    Fmt f;
    std::string x;
    switch (r.below(6)) {
    case 0: f = {"nc3", "", "nc3", false, true}; break;
    case 1: f = {"nc4c", "", "nc4c", true, true}; break;
    case 2: f = {"nc4", "", "nc4", true, false}; break;
    case 3: f = {r.pick({"nc3", "nc4", "netcdf"}), "netcdf3_64bit", "nc3-64", false, true}; break;
    case 4: f = {r.pick({"nc3", "nc4", "netcdf"}), "netcdf4classic", "nc4c-cfg", true, true}; break;
    default: f = {r.pick({"nc3", "nc4"}), "netcdf4", "nc4-cfg", true, false};
    }
    if (f.type == "netcdf" ) f.type = "nc3";
    const bool filetype = !f.config.empty();
    if (filetype || r.chance(0.5)) {
        x = "<?xml version=\"1.0\"?><cdm_ncwriter_config>";
        x += "<default";
        if (filetype) x += " filetype=\"" + f.config + "\"";
        if (r.chance(0.6)) x += " compressionLevel=\"" + std::to_string(r.below(20)) + "\"";
        x += "/>";
        if (r.chance(0.5)) for (auto& d : dims) if (r.chance(0.5)) x += "<dimension name=\"" + d + "\" chunkSize=\"" + std::to_string(r.range(1, 12)) + "\"/>";
        if (r.chance(0.5)) for (auto& v : vars) if (r.chance(0.4)) x += "<variable name=\"" + v + "\" compressionLevel=\"" + std::to_string(r.below(20)) + "\"/>";
        x += "</cdm_ncwriter_config>";
        f.config = x;
        c.cnt("configured writes");
    }
    return f;
}
static void write(CDMReader_p rd, const Fmt& f, const std::string& file)
{
    if (f.config.empty()) CDMFileReaderFactory::createWriter(rd, f.type, file);
    else CDMFileReaderFactory::createWriter(rd, f.type, file, XMLInputString(f.config));
}
static RawOpt optFor(const std::string& fmt) { RawOpt o; o.wide = o.strings = fmt == "nc4" || fmt == "nc4-cfg"; return o; }

static void compare(Ctx& c, const std::string& tag, const std::string& file, RawReader& src, bool ncText)
{
    const std::string want = canonMeta(src.getCDM(), true);
    NcContent nc = ncContent(file);
    (void)ncText;
    VCHECK(c, nc.meta == want, tag + ":file-metadata", firstDiff(want, nc.meta));
    CDMReader_p rd = CDMFileReaderFactory::create("netcdf", file);
    const std::string got = canonMeta(rd->getCDM(), false);
    VCHECK(c, got == want, tag + ":read-metadata", firstDiff(want, got));
    for (auto& v : src.vars) {
        const std::string w = dstr(src.whole(v.name));
        VCHECK(c, dstr(nc.data[v.name]) == w, tag + ":file-data", v.name << " file " << dstr(nc.data[v.name]).substr(0, 400) << " expected " << w.substr(0, 400));
        VCHECK(c, dstr(rd->getData(v.name)) == w, tag + ":read-data", v.name << " got " << dstr(rd->getData(v.name)).substr(0, 400) << " expected " << w.substr(0, 400));
        if (v.rec) {
            const size_t k = c.r.below(v.slab.size());
            VCHECK(c, dstr(rd->getDataSlice(v.name, k)) == dstr(v.slab[k]), tag + ":read-slice", v.name << " at " << k);
        }
        c.cnt(std::string("variables of type ") + datatype2string(v.type));
    }
    c.cnt("files compared");
}
static void famRound(Ctx& c)
{
    Rng& r = c.r;
    Rng r0(r.u64());
    // names are drawn with the dataset, so take the format first
    static const sv kinds = {"nc3", "nc4c", "nc4", "nc3-64", "nc4c-cfg", "nc4-cfg"};
    const std::string kind = kinds[c.idx % 6];
    RawOpt o = optFor(kind);
    o.text = true;
    auto src = rndRawReader(r0, o);
    sv dims, vars;
    for (auto& d : src->getCDM().getDimensions()) dims.push_back(d.getName());
    for (auto& v : src->vars) vars.push_back(v.name);
    Fmt f;
    do f = rndFmt(c, dims, vars); while (f.name != kind);
    const std::string file = c.file("r" + std::to_string(c.idx) + ".nc");
    c.d << kind << " via " << f.type << " " << f.config << " | " << canonMeta(src->getCDM(), false);
    c.sig(c.d.str());
    write(src, f, file);
    compare(c, "round:" + kind, file, *src, true);
    const int fm = ncContent(file).format;
    VCHECK(c, fm == (kind == "nc3" ? NC_FORMAT_CLASSIC : kind == "nc3-64" ? NC_FORMAT_64BIT_OFFSET : f.classic ? NC_FORMAT_NETCDF4_CLASSIC : NC_FORMAT_NETCDF4), "format:" + kind, "file format " << fm);
    if (r.chance(0.4)) { // a copy of the copy, in another format that can hold it
        const std::string file2 = c.file("s" + std::to_string(c.idx) + ".nc");
        const std::string t2 = o.wide ? "nc4" : r.pick({"nc3", "nc4c", "nc4"});
        CDMFileReaderFactory::createWriter(CDMFileReaderFactory::create("netcdf", file), t2, file2);
        compare(c, "copy:" + kind + ":" + t2, file2, *src, true);
        ::unlink(file2.c_str());
    }
    ::unlink(file.c_str());
}
//! slabs the source has no data for read as missing
static void famMissing(Ctx& c)
{
    Rng& r = c.r;
    auto src = std::make_shared<RawReader>();
    CDMDimension t("time", r.range(1, 4)), x("x", r.range(1, 4));
    t.setUnlimited(true);
    src->cdm().addDimension(x);
    src->cdm().addDimension(t);
    const std::string fmt = r.pick({"nc3", "nc4", "nc4c"});
    std::vector<CDMDataType> types = {CDM_CHAR, CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE};
    for (int i = 0; i < 3; ++i) {
        RawVar v;
        v.name = "v" + std::to_string(i);
        v.type = r.pick(types);
        v.rec = r.chance(0.7);
        v.shape = v.rec ? sv{"x", "time"} : sv{"x"};
        const size_t n = v.rec ? t.getLength() : 1;
        for (size_t k = 0; k < n; ++k) v.slab.push_back(r.chance(0.4) ? (r.chance(0.5) ? createData(v.type, 0) : DataPtr()) : rndRaw(r, v.type, x.getLength()));
        src->vars.push_back(v);
        src->cdm().addVariable(CDMVariable(v.name, v.type, v.shape));
        if (r.chance(0.5)) src->cdm().addAttribute(v.name, CDMAttribute("_FillValue", rndRaw(r, v.type, 1)));
    }
    const std::string file = c.file("m" + std::to_string(c.idx) + ".nc");
    c.d << fmt << " " << canonMeta(src->getCDM(), false);
    for (auto& v : src->vars) for (auto& s : v.slab) c.d << " " << v.name << ":" << (s ? std::to_string(s->size()) : "null");
    c.sig(c.d.str());
    CDMFileReaderFactory::createWriter(src, fmt, file);
    NcContent nc = ncContent(file);
    CDMReader_p rd = CDMFileReaderFactory::create("netcdf", file);
    for (auto& v : src->vars) {
        const std::vector<double> got = toD(nc.data[v.name]);
        // the last records may not exist in the file if no variable has data there: they are missing then
        for (size_t k = 0; k < v.slab.size(); ++k) {
            const bool has = v.slab[k] && v.slab[k]->size();
            for (size_t i = 0; i < x.getLength(); ++i) {
                const size_t p = k * x.getLength() + i;
                if (p >= got.size()) { VCHECK(c, !has, "missing:lost", v.name << " slab " << k); continue; }
                const double w = has ? toD(v.slab[k])[i] : rd->getCDM().getFillValue(v.name);
                VCHECK(c, same(got[p], w), has ? "missing:data" : "missing:fill", fmt << " " << v.name << " slab " << k << " got " << got[p] << " expected " << w);
            }
            c.cnt(has ? "slabs with data" : "slabs without data");
        }
    }
    ::unlink(file.c_str());
}
//! big enough for the writer's own chunking
static void famLarge(Ctx& c)
{
    Rng& r = c.r;
    auto src = std::make_shared<RawReader>();
    const size_t nx = r.pick({size_t(1500), size_t(3000), size_t(2100000), size_t(70000), size_t(5)}), ny = 2200000 / nx + r.below(3) + 1, nt = r.range(1, 2);
    CDMDimension t("time", nt), x("x", nx), y("y", ny);
    t.setUnlimited(true);
    src->cdm().addDimension(x);
    src->cdm().addDimension(y);
    src->cdm().addDimension(t);
    RawVar v;
    v.name = "big";
    v.type = r.pick({CDM_CHAR, CDM_SHORT});
    v.shape = {"x", "y", "time"};
    v.rec = true;
    for (size_t k = 0; k < nt; ++k) {
        const size_t n = nx * ny;
        DataPtr d = createData(v.type, n);
        unsigned char* p = (unsigned char*)d->getDataPtr();
        uint64_t h = r.u64();
        for (size_t i = 0; i < n * d->bytes_for_one(); ++i) { if (i % 97 == 0) h = h * 6364136223846793005ull + 1442695040888963407ull; p[i] = (h >> 40) + i / 31; }
        v.slab.push_back(d);
    }
    src->vars.push_back(v);
    src->cdm().addVariable(CDMVariable(v.name, v.type, v.shape));
    const std::string fmt = r.pick({"nc3", "nc4", "nc4c"}), file = c.file("l" + std::to_string(c.idx) + ".nc");
    c.d << fmt << " " << nx << "x" << ny << "x" << nt;
    c.sig(c.d.str());
    CDMFileReaderFactory::createWriter(src, fmt, file);
    CDMReader_p rd = CDMFileReaderFactory::create("netcdf", file);
    for (size_t k = 0; k < nt; ++k) {
        DataPtr g = rd->getDataSlice("big", k);
        VCHECK(c, g->size() == v.slab[k]->size() && g->getDataType() == v.type && !memcmp(g->getDataPtr(), v.slab[k]->getDataPtr(), g->size() * g->bytes_for_one()), "large", c.d.str());
    }
    c.cnt("large variables");
    ::unlink(file.c_str());
}
//! putDataSlice on an opened file replaces exactly that slice
static void famUpdate(Ctx& c)
{
    Rng& r = c.r;
    Rng r0(r.u64());
    const std::string fmt = r.pick({"nc3", "nc4", "nc4c"});
    RawOpt o = optFor(fmt);
    auto src = rndRawReader(r0, o);
    const std::string file = c.file("u" + std::to_string(c.idx) + ".nc");
    c.d << fmt << " " << canonMeta(src->getCDM(), false);
    c.sig(c.d.str());
    CDMFileReaderFactory::createWriter(src, fmt, file);
    {
        CDMReaderWriter_p rw = CDMFileReaderFactory::createReaderWriter("netcdf", file);
        for (int k = 0; k < 6; ++k) {
            RawVar& v = src->vars[r.below(src->vars.size())];
            if (v.type == CDM_STRINGS && v.shape.empty()) continue;
            const size_t p = v.rec ? r.below(v.slab.size()) : 0;
            DataPtr d = rndRaw(r, v.type, v.slab[p]->size());
            if (r.chance(0.5) && v.type != CDM_STRING && v.type != CDM_STRINGS && !v.shape.empty()) { // a hyper-rectangle
                szv len, st, sz;
                SliceBuilder sb(rw->getCDM(), v.name);
                for (auto& s : v.shape) { const size_t L = rw->getCDM().getDimension(s).getLength(); len.push_back(L); st.push_back(r.below(L)); sz.push_back(r.range(1, L - st.back())); sb.setStartAndSize(s, st.back(), sz.back()); }
                DataPtr b = rndRaw(r, v.type, prod(sz));
                rw->putDataSlice(v.name, sb, b);
                DataPtr all = src->whole(v.name);
                const size_t w = all->bytes_for_one();
                szv i(len.size(), 0);
                for (size_t q = 0; q < prod(sz); ++q) {
                    size_t rem = q, pos = 0, f = 1;
                    for (size_t dd = 0; dd < len.size(); ++dd) { pos += (st[dd] + rem % sz[dd]) * f; rem /= sz[dd]; f *= len[dd]; }
                    memcpy((char*)all->getDataPtr() + pos * w, (char*)b->getDataPtr() + q * w, w);
                }
                const size_t per = v.slab[0]->size();
                for (size_t s = 0; s < v.slab.size(); ++s) memcpy(v.slab[s]->getDataPtr(), (char*)all->getDataPtr() + s * per * w, per * w);
                c.cnt("boxes replaced");
            } else {
                rw->putDataSlice(v.name, p, d->clone());
                v.slab[p] = d;
                c.cnt("slices replaced");
            }
            VCHECK(c, dstr(rw->getData(v.name)) == dstr(src->whole(v.name)), "update:read", v.name << " got " << dstr(rw->getData(v.name)).substr(0, 300) << " expected " << dstr(src->whole(v.name)).substr(0, 300));
        }
        rw->sync();
    }
    compare(c, "update", file, *src, true);
    ::unlink(file.c_str());
}
VF_MAIN("C04", "Each case writes a dataset of random shapes, types, attributes and settings, reads it back through fimex and, independently, through the netCDF C library, and compares names, types, lengths, attributes and data byte by byte.",
        {"round", famRound, 1200, 30000}, {"missing", famMissing, 300, 8000}, {"update", famUpdate, 300, 8000}, {"large", famLarge, 8, 80})
