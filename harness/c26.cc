// C26: GRIB indexes (grbml, protobuf) describe exactly the messages; reading through an index equals reading the GRIB files.
#include "gribgen.h"
#include "GribCDMIndexer.h"
#include "GribFileIndex.h"
#include "GribProtobufIndexWriter.h"
#include "cdm.pb.h"
#include <fimex/ChunkReaderFactory.h>
#include <fimex/ProtobufCDM.h>
#include <fimex/TimeUtils.h>
#include <sys/stat.h>
using namespace vf;
namespace {
const char* const EXTRA[] = {"generatingProcessIdentifier", "subCentre", "bitsPerValue", "notAKeyAtAll"};
std::string msgStr(const GribFileMessage& m, bool grid = true)
{
    std::ostringstream o;
    o.precision(12);
    o << "ed=" << m.getEdition() << " url=" << m.getFileURL() << " pos=" << m.getFilePosition() << " size=" << m.getMsgSize() << " name=" << m.getName() << " short=" << m.getShortName()
      << " valid=" << m.getValidTime() << " ref=" << m.getReferenceTime() << " tri=" << m.getTimeRangeIndicator() << " stat=" << m.getTypeOfStatisticalProcessing() << " stepType=" << m.getStepType()
      << " lev=" << m.getLevelNumber() << " levType=" << m.getLevelType() << " ens=" << m.getPerturbationNumber() << '/' << m.getTotalNumberOfEnsembles()
      << " id=" << std::get<0>(m.getParameterIds()) << ',' << std::get<1>(m.getParameterIds()) << ',' << std::get<2>(m.getParameterIds()) << " grid=" << m.getTypeOfGrid();
    for (auto& k : m.getOtherKeys()) o << ' ' << k.first << '=' << k.second;
    if (grid) {
        const GridDefinition& g = m.getGridDefinition();
        o << " proj=" << g.getProjDefinition() << " deg=" << g.isDegree() << ' ' << g.getXSize() << 'x' << g.getYSize() << " scan=" << g.getScanMode();
    }
    return o.str();
}
void sameMsg(Ctx& c, const std::string& key, const GribFileMessage& a, const GribFileMessage& b)
{
    VCHECK(c, msgStr(a) == msgStr(b), key + ":keys", msgStr(a) << "  versus  " << msgStr(b));
    const GridDefinition &g = a.getGridDefinition(), &h = b.getGridDefinition();
    auto eq = [&](const char* what, double x, double y) { VCHECK(c, std::fabs(x - y) <= 1e-10 * std::max(std::fabs(x), 1.), key + ":grid", what << ' ' << x << " versus " << y << " (difference " << x - y << ")"); };
    eq("xStart", g.getXStart(), h.getXStart());
    eq("yStart", g.getYStart(), h.getYStart());
    eq("xIncr", g.getXIncrement(), h.getXIncrement());
    eq("yIncr", g.getYIncrement(), h.getYIncrement());
    eq("lonStart", g.getLonStart(), h.getLonStart());
    eq("latStart", g.getLatStart(), h.getLatStart());
    VCHECK(c, g == h, key + ":griddef", "grid definitions compare different");
    c.checks++;
}
void sameMsgs(Ctx& c, const std::string& key, const std::vector<GribFileMessage>& a, const std::vector<GribFileMessage>& b)
{
    VCHECK(c, a.size() == b.size(), key + ":count", a.size() << " versus " << b.size() << " messages");
    for (size_t i = 0; i < a.size(); ++i) sameMsg(c, key, a[i], b[i]);
}
//! index entries against the file seen by ecCodes
void againstFile(Ctx& c, const std::string& file, const std::vector<GribFileMessage>& msgs, const sv& extra, const std::map<std::string, size_t>& members)
{
    auto hs = gribMessages(file);
    VCHECK(c, hs.size() == msgs.size(), "index:count", file << " has " << hs.size() << " messages, index " << msgs.size());
    size_t pos = 0;
    for (size_t i = 0; i < hs.size(); ++i) {
        const GH& h = hs[i];
        const GribFileMessage& m = msgs[i];
        const size_t size = h.l("totalLength");
        const long ed = h.l("edition");
        VCHECK(c, size_t(m.getFilePosition()) == pos && m.getMsgSize() == size, "index:offset", "message " << i << " at " << m.getFilePosition() << '+' << m.getMsgSize() << " expected " << pos << '+' << size);
        pos += size;
        VCHECK(c, m.getEdition() == ed, "index:edition", m.getEdition());
        const auto id = ed == 1 ? GribFileMessage::param_id_t(h.l("indicatorOfParameter"), h.l("gribTablesVersionNo"), h.l("centre")) : GribFileMessage::param_id_t(h.l("parameterNumber"), h.l("parameterCategory"), h.l("discipline"));
        VCHECK(c, m.getParameterIds() == id, "index:id", msgStr(m));
        VCHECK(c, m.getLevelType() == h.l(ed == 1 ? "indicatorOfTypeOfLevel" : "typeOfFirstFixedSurface") && m.getLevelNumber() == h.l("level"), "index:level", msgStr(m));
        const long dd = h.l("dataDate"), dt = h.l("dataTime");
        const GTime gt{dd / 10000, int(dd / 100 % 100), int(dd % 100), int(dt / 100), int(dt % 100), h.l("indicatorOfUnitOfTimeRange"), ed == 1 ? h.l("P1") : h.l("forecastTime")};
        VCHECK(c, fimexTime2epochTime(m.getValidTime()) == gt.valid(), "index:validtime", msgStr(m) << " expected " << gt.valid());
        VCHECK(c, fimexTime2epochTime(m.getReferenceTime()) == gt.ref(), "index:reftime", msgStr(m) << " expected " << gt.ref());
        long nens = 0, ens = 0;
        if (codes_get_long(h.h.get(), "numberOfForecastsInEnsemble", &nens) == 0 && codes_get_long(h.h.get(), "perturbationNumber", &ens) == 0) {
            VCHECK(c, m.getTotalNumberOfEnsembles() == size_t(nens) && m.getPerturbationNumber() == size_t(ens), "index:ensemble", msgStr(m) << " expected " << ens << '/' << nens);
        } else {
            auto it = members.find(file);
            const size_t e = it == members.end() ? 0 : it->second, n = it == members.end() ? 0 : members.size();
            VCHECK(c, m.getTotalNumberOfEnsembles() == n && m.getPerturbationNumber() == e, "index:member", msgStr(m) << " expected " << e << '/' << n);
        }
        VCHECK(c, m.getTypeOfGrid() == h.s("gridType"), "index:gridtype", msgStr(m));
        for (auto& k : extra) {
            long v;
            if (codes_get_long(h.h.get(), k.c_str(), &v) == 0) VCHECK(c, m.getOtherKeys().count(k) && m.getOtherKeys().at(k) == v, "index:extrakey", k << " expected " << v << ": " << msgStr(m));
            else VCHECK(c, !m.getOtherKeys().count(k), "index:extrakey", k << " should be absent: " << msgStr(m));
        }
        c.cnt("index entries checked");
    }
}
void sameReader(Ctx& c, const std::string& key, CDMReader_p a, CDMReader_p b)
{
    VCHECK(c, cdmStr(a->getCDM()) == cdmStr(b->getCDM()), key + ":cdm", firstDiff(cdmStr(a->getCDM()), cdmStr(b->getCDM())));
    for (auto& v : a->getCDM().getVariables()) {
        if (v.getDataType() == CDM_NAT) continue;
        DataPtr x = a->getData(v.getName()), y = b->getData(v.getName());
        VCHECK(c, !!x == !!y, key + ":null", v.getName());
        if (!x) continue;
        VCHECK(c, x->getDataType() == y->getDataType() && x->size() == y->size(), key + ":data-type", v.getName());
        const dv p = toD(x), q = toD(y);
        for (size_t i = 0; i < p.size(); ++i) VCHECK(c, same(p[i], q[i]) || std::fabs(p[i] - q[i]) <= 1e-10 * std::fabs(p[i]), key + ":data", v.getName() << " at " << i << ": " << p[i] << " versus " << q[i]);
        c.cnt("variables compared through index");
    }
}
sv rename_(Ctx& c, GSet& s)
{
    static const char* N[] = {"plain", "with space", "a&b", "quo\"te", "less<more>", "x'y", "\xc3\xa6\xc3\xb8\xc3\xa5", "percent%20", "col:on", "dot.grb"};
    sv out;
    for (size_t i = 0; i < s.files.size(); ++i) {
        const std::string n = c.file(N[c.r.chance(0.4) ? 0 : c.r.below(10)] + std::to_string(i) + ".grb");
        if (rename(s.files[i].c_str(), n.c_str())) throw std::runtime_error("harness: rename");
        out.push_back(n);
    }
    s.files = out;
    return out;
}
void famIndex(Ctx& c)
{
    Rng& r = c.r;
    GSet s = rndGSet(c, c.file("g"), true, true);
    rename_(c, s);
    c.d << s.str() << ' ' << vstr(s.files);
    for (auto& g : s.grids) c.sig(g.type).sig(g.scan).sig('/').sig(g.shape);
    c.sig(s.ed).sig(s.files.size()).sig(s.times.size());
    for (auto& v : s.vars) c.sig(v.nens).sig(v.ltype);
    std::map<std::string, std::string> opt;
    sv extra;
    for (const char* k : EXTRA) if (r.chance(0.3)) extra.push_back(k);
    if (!extra.empty()) { std::string j; for (auto& k : extra) j += (j.empty() ? "" : ",") + k; opt["extraKeys"] = j; }
    std::vector<std::pair<std::string, std::regex>> members;
    std::map<std::string, size_t> mem;
    if (r.chance(0.3)) {
        for (size_t i = 0; i < s.files.size(); ++i) { members.push_back(std::make_pair("m" + std::to_string(i), std::regex(".*" + std::to_string(i) + "\\.grb"))); mem[s.files[i]] = i; }
    }
    auto ca = createDefaultChunkReaderFactory();
    std::vector<GribFileMessage> all;
    const std::string grbml = c.file("idx&1.grbml");
    for (size_t i = 0; i < s.files.size(); ++i) {
        const GribFileIndex gi(ca, s.files[i], members, opt);
        VCHECK(c, gi.getUrl() == s.files[i], "index:url", gi.getUrl());
        againstFile(c, s.files[i], gi.listMessages(), extra, mem);
        // write alone, read back
        const std::string one = c.file("one" + std::to_string(i) + ".grbml");
        { std::ofstream o(one); o << gi; }
        const GribFileIndex back(ca, one);
        VCHECK(c, back.getUrl() == gi.getUrl(), "grbml:url", back.getUrl() << " versus " << gi.getUrl());
        sameMsgs(c, "grbml", gi.listMessages(), back.listMessages());
        // append to the joined index
        const GribFileIndex app(ca, s.files[i], i ? grbml : std::string(), members, opt);
        for (auto& m : gi.listMessages()) all.push_back(m);
        sameMsgs(c, "append", all, app.listMessages());
        { std::ofstream o(grbml); o << app; }
        c.cnt("grbml written");
    }
    sameMsgs(c, "joined", all, GribFileIndex(ca, grbml).listMessages());
    if (r.chance(0.5)) { // append a file again: its messages are replaced, not duplicated
        const std::string f = r.pick(s.files);
        const GribFileIndex again(ca, f, grbml, members, opt);
        std::vector<GribFileMessage> want;
        for (auto& m : all) if (m.getFileURL() != f) want.push_back(m);
        for (auto& m : all) if (m.getFileURL() == f) want.push_back(m);
        sameMsgs(c, "reappend", want, again.listMessages());
        c.cnt("re-append");
    }
    if (r.chance(0.3)) { // earth figure option applies to this index only
        std::map<std::string, std::string> o2 = opt;
        o2["earthfigure"] = "+a=6371000 +e=0";
        const GribFileIndex ef(ca, s.files[0], members, o2);
        for (auto& m : ef.listMessages()) VCHECK(c, m.getGridDefinition().getProjDefinition().find("6371000") != std::string::npos, "index:earthfigure", m.getGridDefinition().getProjDefinition());
        const GribFileIndex no(ca, s.files[0], members, opt);
        std::vector<GribFileMessage> want(all.begin(), all.begin() + no.listMessages().size());
        sameMsgs(c, "index:earthfigure-reset", want, no.listMessages());
    }
}
void famReader(Ctx& c)
{
    Rng& r = c.r;
    GSet s = rndGSet(c, c.file("g"), true, true);
    rename_(c, s);
    c.d << s.str() << ' ' << vstr(s.files);
    for (auto& g : s.grids) c.sig(g.type).sig(g.scan).sig('/').sig(g.shape);
    c.sig(s.ed).sig(s.files.size()).sig(s.times.size());
    for (auto& v : s.vars) c.sig(v.nens).sig(v.ltype).sig(datatype2string(v.type));
    const std::string cfg = gribReaderConfig(s, r.chance(0.3));
    sv args(s.files.begin() + 1, s.files.end());
    CDMReader_p direct = CDMFileReaderFactory::create("grib", s.files[0], XMLInputString(cfg), args);
    auto ca = createDefaultChunkReaderFactory();
    const std::string grbml = c.file("i.grbml");
    for (size_t i = 0; i < s.files.size(); ++i) {
        const GribFileIndex gi(ca, s.files[i], i ? grbml : std::string(), {});
        std::ofstream(grbml) << gi;
    }
    CDMReader_p viaMl = CDMFileReaderFactory::create("grbml", grbml, XMLInputString(cfg));
    sameReader(c, "reader:grbml", direct, viaMl);
    for (int from = 0; from < 2; ++from) {
        GribCDMIndexer ix(XMLInputString(cfg), std::vector<std::pair<std::string, std::string>>(), ca);
        if (from == 0) ix.load(s.files);
        else ix.load(grbml);
        auto cdm = std::make_shared<CDM>();
        auto gi = std::make_shared<GribCDMIndexer::grib_indexed>();
        ix.build(cdm, gi);
        std::string fp = c.file("i" + std::to_string(from) + ".grbfp");
        XMLInputString none("<cdm_fimex_index_reader_config/>");
        std::string cf = "<cdm_fimex_index_reader_config/>";
        if (r.chance(0.3)) { // index in another directory, data located by root_path
            const std::string dir = c.file("sub");
            mkdir(dir.c_str(), 0700);
            fp = dir + "/i.grbfp";
            const std::string root = s.files[0].substr(0, s.files[0].rfind('/') + (r.chance(0.5) ? 0 : 1));
            cf = "<cdm_fimex_index_reader_config><root_path>" + root + "</root_path></cdm_fimex_index_reader_config>";
        }
        GribProtobufIndexWriter().write(*cdm, *gi, fp);
        CDMReader_p viaFp = CDMFileReaderFactory::create("grbfp", fp, XMLInputString(cf));
        sameReader(c, from ? "reader:grbfp-grbml" : "reader:grbfp", direct, viaFp);
        c.cnt("protobuf index read");
    }
}
// CDM <-> protobuf
void famCdm(Ctx& c)
{
    Rng& r = c.r;
    Dataset ds = randDataset(r, 6, true, true);
    const size_t na = r.below(8);
    static const char* S[] = {"", "a", "units", "kelvin per metre", "x", "y", "\xc3\xa6\n<>&", "t", "v0", "multi\nline"};
    auto ent = [&] { return r.chance(0.3) ? std::string("_GLOBAL") : r.pick(ds.vars).name; };
    for (size_t i = 0; i < na; ++i) {
        const std::string n = "att" + std::to_string(i);
        if (r.chance(0.4)) ds.att(ent(), n, S[1 + r.below(9)]);
        else {
            const CDMDataType t = r.pick(numTypes());
            double lo, hi;
            typeLimits(t, lo, hi);
            dv v;
            for (size_t k = 0, m = r.range(1, 4); k < m; ++k) v.push_back(isInt(t) ? std::floor(r.chance(0.2) ? lo : r.chance(0.2) ? (std::fabs(hi) > 9e15 ? 9e15 : hi) : r.uni(std::max(lo, -30000.), std::min(hi, 30000.))) : t == CDM_FLOAT ? double(float(r.uni(-1e6, 1e6))) : r.uni(-1e9, 1e9));
            ds.att(ent(), n, t, v);
        }
    }
    CDM cdm;
    ds.fillCDM(cdm);
    if (r.chance(0.3)) {
        cdm.addVariable(CDMVariable("proj", CDM_NAT, sv()));
        cdm.addAttribute("proj", CDMAttribute("grid_mapping_name", "latitude_longitude"));
    }
    sv strs;
    if (r.chance(0.4)) {
        const size_t n = r.range(1, 4);
        auto a = make_shared_array<std::string>(n);
        for (size_t i = 0; i < n; ++i) strs.push_back(a[i] = S[r.below(10)]);
        cdm.addAttribute("_GLOBAL", CDMAttribute("strings", createData(n, a)));
    }
    std::map<std::string, dv> mem;
    for (auto& v : ds.vars) if (r.chance(0.6)) {
        dv val = v.val;
        double lo, hi;
        typeLimits(v.type, lo, hi);
        if (lo < 0) for (double& x : val) if (r.chance(0.3)) x = -x;
        cdm.getVariable(v.name).setData(mkData(v.type, val));
        mem[v.name] = val;
    }
    c.d << ds.str() << ' ' << na << " attributes, " << mem.size() << " with data";
    c.sig(ds.vars.size()).sig(na).sig(mem.size()).sig(strs.size());
    for (auto& v : ds.vars) c.sig(datatype2string(v.type)).sig(v.shape.size());
    const std::string before = cdmStr(cdm);
    fimex_index::CDM f, g;
    ProtobufCDM::writeCDM(&f, cdm);
    std::string bytes;
    VCHECK(c, f.SerializeToString(&bytes) && g.ParseFromString(bytes), "cdm:bytes", "serialisation failed");
    CDM back;
    ProtobufCDM::readCDM(back, g);
    VCHECK(c, cdmStr(cdm) == before, "cdm:changed", "writing changed the CDM");
    VCHECK(c, cdmStr(back) == before, "cdm:roundtrip", firstDiff(before, cdmStr(back)));
    sv ord, ord2;
    for (auto& v : cdm.getVariables()) ord.push_back(v.getName());
    for (auto& v : back.getVariables()) ord2.push_back(v.getName());
    VCHECK(c, ord == ord2, "cdm:order", "variable order " << vstr(ord) << " versus " << vstr(ord2));
    for (auto& v : ds.vars) {
        DataPtr d = back.getVariable(v.name).getData();
        VCHECK(c, !!d == !!mem.count(v.name), "cdm:hasdata", v.name);
        if (d) { VCHECK(c, d->getDataType() == v.type, "cdm:datatype", v.name << ' ' << datatype2string(d->getDataType())); expectData(c, "cdm:data", d, mem[v.name], 0, v.name); }
    }
    if (!strs.empty()) {
        CDMAttribute a;
        VCHECK(c, back.getAttribute("_GLOBAL", "strings", a), "cdm:strings", "attribute lost");
        VCHECK(c, a.getData() && a.getData()->size() == strs.size(), "cdm:strings", "size");
        auto p = a.getData()->asStrings();
        for (size_t i = 0; i < strs.size(); ++i) VCHECK(c, p[i] == strs[i], "cdm:strings", "string " << i << " is '" << p[i] << "' expected '" << strs[i] << "'");
    }
    c.cnt("CDMs serialised");
}
} // namespace
VF_MAIN("C26", "GRIB indexes describe the messages of the files and restore the dataset", {"index", famIndex, 800, 8000}, {"reader", famReader, 500, 5000}, {"cdm", famCdm, 1500, 20000})
