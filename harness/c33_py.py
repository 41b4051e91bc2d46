"""Python side of the C33 monitor: runs requests with pyfimex0 and prints what it sees."""
import json, random, sys
import numpy as np
import pyfimex0 as pf

T = {n: getattr(pf.CDMDataType, n) for n in "NAT CHAR SHORT INT FLOAT DOUBLE STRING UCHAR USHORT UINT INT64 UINT64 STRINGS".split()}
NAME = {pf.CDMDataType.NAT: "nat", T["CHAR"]: "char", T["SHORT"]: "short", T["INT"]: "int", T["FLOAT"]: "float", T["DOUBLE"]: "double", T["STRING"]: "string",
        T["UCHAR"]: "uchar", T["USHORT"]: "ushort", T["UINT"]: "uint", T["INT64"]: "int64", T["UINT64"]: "uint64", T["STRINGS"]: "strings"}
DT = {"char": np.int8, "short": np.int16, "int": np.int32, "float": np.float32, "double": np.float64, "uchar": np.uint8, "ushort": np.uint16, "uint": np.uint32,
      "int64": np.int64, "uint64": np.uint64}


def num(x):
    return "nan" if np.isnan(x) else "%.17g" % x


def data_line(d):
    if d is None:
        return "null"
    t = NAME[d.getDataType()]
    s = "%s %d " % (t, d.size())
    if t == "nat":
        return s
    v = d.values()
    if t == "string":
        return s + v
    if t == "strings":
        return s + "".join(x + "|" for x in v)
    if v.dtype != DT[t]:
        return s + "dtype %s" % v.dtype
    if t in ("float", "double"):
        return s + "".join(num(float(x)) + " " for x in v)
    return s + "".join("%d " % int(x) for x in v)


def att_line(a):
    return "%s %s '%s'" % (a.getName(), data_line(a.getData()), a.getStringValue())


def dump(rd, req):
    o = []
    cdm = rd.getCDM()
    for n in cdm.getDimensionNames():
        d = cdm.getDimension(n)
        o.append("dim %s %d %d" % (d.getName(), d.getLength(), d.isUnlimited()))
    for n in cdm.getVariableNames():
        v = cdm.getVariable(n)
        o.append(" ".join(["var", v.getName(), NAME[v.getDataType()]] + v.getShape()))
        for a in cdm.getAttributeNames(n):
            o.append("att %s %s" % (n, att_line(cdm.getAttribute(n, a))))
    for a in cdm.getGlobalAttributeNames():
        o.append("gatt " + att_line(cdm.getGlobalAttribute(a)))
    css = pf.listCoordinateSystems(rd)
    A = pf.CoordinateAxisType
    for cs in css:
        r = []
        for t in (A.GeoX, A.GeoY, A.Time, A.Pressure, A.Lon):
            a = cs.findAxisOfType(t)
            r.append(a.getName() if a is not None else "-")
        o.append(" ".join(["cs", cs.id()] + r))

    def line(k, n, f):
        try:
            s = data_line(f())
        except Exception:
            s = "error"
        o.append("%s %s %s" % (k, n, s))
    for q in req:
        n, u, p = q["var"], q["unit"], q["pos"]
        line("data", n, lambda: rd.getData(n))
        line("sdata", n, lambda: rd.getScaledData(n))
        line("udata", n, lambda: rd.getScaledDataInUnit(n, u))
        line("slice", n, lambda: rd.getDataSlice(n, p))
        line("sslice", n, lambda: rd.getScaledDataSlice(n, p))
        line("uslice", n, lambda: rd.getScaledDataSliceInUnit(n, u, p))
        if not q["st"]:
            continue
        try:
            sb = pf.SliceBuilder(cdm, n, False)
            sh = cdm.getVariable(n).getShape()
            for d, b, l in zip(sh, q["st"], q["sz"]):
                sb.setStartAndSize(d, b, l)
                if sb.getStartAndSize(d) != (b, l):
                    o.append("getStartAndSize %s" % (sb.getStartAndSize(d),))
            o.append(" ".join(["sb", n] + ["%d" % x for x in sb.getDimensionStartPositions() + sb.getDimensionSizes()]))
        except Exception:
            o.append("sb %s error" % n)
            continue
        line("box", n, lambda: rd.getDataSliceSB(n, sb))
        line("sbox", n, lambda: rd.getScaledDataSliceSB(n, sb))
        line("ubox", n, lambda: rd.getScaledDataSliceInUnitSB(n, u, sb))
    return "\n".join(o) + "\n"


def op_read(j):
    a = ["netcdf", j["file"], "", []][:j["nargs"]]
    return dump(pf.createFileReader(*a), j["req"])


def step(rd, s):
    k, a = s[0], s[1:]
    if k in ("range", "index", "startend", "time", "bbox", "remove", "select"):
        e = pf.createExtractor(rd)
        if k in ("range", "index"):
            e.reduceDimension(*a)
        elif k == "startend":
            e.reduceDimensionStartEnd(*a)
        elif k == "time":
            e.reduceTimeStartEnd(*a)
        elif k == "bbox":
            e.reduceLatLonBoundingBox(*a[0])
        elif k == "remove":
            e.removeVariable(a[0])
        else:
            e.selectVariables(a[0])
        return e
    if k == "project":
        e = pf.createInterpolator(rd)
        m = getattr(pf.InterpolationMethod, a[0])
        if a[5]:
            e.changeProjection(m, a[1], a[2], tuple(a[3]), a[4], a[4], T[a[5]], T[a[5]])
        else:
            e.changeProjection(m, a[1], np.array(a[2]), a[3], a[4], a[4])
        return e
    if k == "points":
        e = pf.createInterpolator(rd)
        e.changeProjection(pf.InterpolationMethod.BILINEAR, a[0], np.array(a[1]))
        return e
    if k == "timeint":
        e = pf.createTimeInterpolator(rd)
        e.changeTimeAxis(a[0])
        return e
    if k == "vertical":
        e = pf.createVerticalInterpolator(rd, a[0], a[1])
        e.ignoreValidityMin(a[3])
        e.ignoreValidityMax(a[4])
        e.interpolateToFixed(a[2])
        return e
    if k == "ncml":
        return pf.createNcmlReader(rd, a[0])
    if k == "aggregate":
        e = pf.createAggregationReader(a[0])
        e.addReader(*[rd, "id", ""][:a[1]])
        e.addReader(rd)
        e.initAggregation()
        return e
    raise AssertionError(k)


def op_ops(j):
    rd = pf.createFileReader("netcdf", j["file"])
    try:
        for s in j["steps"]:
            rd = step(rd, s)
    except AssertionError:
        raise
    except Exception:
        return "error\n"
    return dump(rd, j["req"])


def op_data(j):
    r = random.Random(j["seed"])
    o = []
    sig = []
    for _ in range(12):
        t = r.choice(sorted(DT))
        dt = np.dtype(DT[t])
        nd = r.randint(0, 3)
        shape = [r.randint(1, 5) for _ in range(nd)]
        n = int(np.prod(shape)) if shape else 1
        if dt.kind == "f":
            base = np.array([r.uniform(-100, 100) for _ in range(n)], dt).reshape(shape)
            if n and r.random() < 0.3:
                base.flat[r.randrange(n)] = np.nan
        else:
            i = np.iinfo(dt)
            base = np.array([r.choice([r.randint(i.min, i.max), r.randint(0, 100)]) for _ in range(n)], dt).reshape(shape)
        how = []
        a = base
        if nd and r.random() < 0.3:
            a = np.asfortranarray(a); how.append("F")
        if nd and r.random() < 0.4:
            a = a[tuple(slice(None, None, r.choice([1, 2, -1, -2])) for _ in shape)]; how.append("strided")
        if nd > 1 and r.random() < 0.3:
            a = a.T; how.append("T")
        if r.random() < 0.15:
            a = a.astype(a.dtype.newbyteorder()); how.append("swapped")
        if r.random() < 0.15:
            a = a.copy(); a.flags.writeable = False; how.append("readonly")
        want = [x.item() for x in a.flat]
        desc = "%s%s %s" % (t, list(a.shape), "+".join(how) or "plain")
        sig.append(desc)

        def check(what, d, type_, want):
            if NAME[d.getDataType()] != type_:
                return "BAD %s-type %s %s" % (what, desc, d.getDataType())
            if d.size() != len(want):
                return "BAD %s-size %s %d expected %d" % (what, desc, d.size(), len(want))
            v = d.values()
            if v.dtype != np.dtype(DT[type_]):
                return "BAD %s-dtype %s %s" % (what, desc, v.dtype)
            got = [x.item() for x in v]
            if not all(g == w or (g != g and w != w) for g, w in zip(got, want)):
                return "BAD %s-values %s got %s expected %s" % (what, desc, got, want)
            return "good " + desc
        rc = sys.getrefcount(a)
        before = a.copy()
        d = pf.createData(a)
        o.append(check("create", d, t, want))
        att = pf.CDMAttribute("att", d)
        o.append(check("attribute", att.getData(), t, want))
        v = d.values()
        del d, att
        got = [x.item() for x in v]  # the array outlives the data object
        if not all(g == w or (g != g and w != w) for g, w in zip(got, want)):
            o.append("BAD lifetime-values %s got %s expected %s" % (desc, got, want))
        del v
        if sys.getrefcount(a) != rc:
            o.append("BAD leak-reference %s: %d references before, %d after" % (desc, rc, sys.getrefcount(a)))
        if not np.array_equal(a, before, equal_nan=dt.kind == "f"):
            o.append("BAD source-modified %s" % desc)
        # explicit type
        t2 = r.choice(sorted(DT))
        with np.errstate(all="ignore"):
            fits = all(w == w and float(np.array(w)) == int(w) and np.iinfo(DT[t2]).min <= w <= np.iinfo(DT[t2]).max for w in want) if np.dtype(DT[t2]).kind != "f" else True
        if fits:
            conv = [x.item() for x in np.array(want, dt).astype(DT[t2]).flat]
            src = a if r.random() < 0.5 else a.tolist()
            if nd or src is a:
                d = pf.createData(T[t2.upper()], src)
                o.append(check("convert-to-" + t2, d, t2, conv))
        if NAME[pf.cdmDataTypeFromNP(np.dtype(DT[t]))] != t:
            o.append("BAD dtype-map %s" % t)
    for s in ("", "text", "\u00e6\u00f8\u00e5"):
        d = pf.createData(s)
        o.append("good" if d.getDataType() == T["STRING"] and d.values() == s else "BAD string-value %r" % s)
    for bad in (np.array([True, False]), np.array([1j]), np.array(["a"])):
        try:
            pf.createData(bad)
            o.append("BAD unsupported-accepted %s" % bad.dtype)
        except Exception:
            o.append("good")
    try:
        pf.createFileReader("netcdf", "/nonexistent/file.nc")
        o.append("BAD missing-file no exception")
    except Exception:
        o.append("good")
    return "; ".join(sig[:3]) + "\n" + "\n".join(o) + "\n"


class Reader(pf.CDMReader):
    def __init__(self, j, style):
        pf.CDMReader.__init__(self)
        self.v = {}
        cdm = pf.CDM()
        self.unl = None
        for n, l, u in j["dims"]:
            d = pf.CDMDimension(n, l)
            if u:
                d.setUnlimited(True)
                self.unl = n
            cdm.addDimension(d)
        lens = {n: l for n, l, u in j["dims"]}
        for n, t, sh, val in j["vars"]:
            cdm.addVariable(pf.CDMVariable(n, T[t.upper()], sh))
            a = np.array([int(x) if np.dtype(DT[t]).kind != "f" else x for x in val], DT[t])
            a = a.reshape([lens[d] for d in reversed(sh)])
            self.v[n] = (t, sh, a)
        for v, n, t, val in j["atts"]:
            if t == "string":
                cdm.addAttribute(v, pf.CDMAttribute(n, val))
            elif style == 1 and len(val) == 1:
                cdm.addAttribute(v, pf.CDMAttribute(n, t, "%.9g" % val[0]))
            else:
                cdm.addAttribute(v, pf.CDMAttribute(n, pf.createData(np.array(val, DT[t]))))
        self.setInternalCDM(cdm)

    def getDataSlice(self, name, pos):
        t, sh, a = self.v[name]
        if sh and sh[-1] == self.unl:
            return pf.createData(np.atleast_1d(a[pos]))
        return pf.createData(a)


def op_write(j):
    rd = Reader(j, j["style"])
    if j["style"] == 2:
        pf.createNetCDFWriter(rd, j["out"], "", 4)
    elif j["style"] == 3:
        pf.createFileWriter(pf.createExtractor(rd), "nc4", j["out"], "")
    else:
        pf.createFileWriter(rd, "nc4", j["out"])
    return "ok\n"


def op_put(j):
    rw = pf.createFileReaderWriter("netcdf", j["file"])
    d = pf.createData(np.array([int(x) for x in j["val"]], DT[j["type"]]))
    if j["how"] == 0:
        rw.putDataSlice(j["var"], j["pos"], d)
    else:
        rw.putScaledDataSlice(j["var"], j["pos"], d)
    rw.sync()
    return "ok\n"


def handle(s):
    # JSON as written by the monitor: bytes beyond ASCII are \u00XX per byte
    j = json.loads(s)
    try:
        return {"read": op_read, "ops": op_ops, "data": op_data, "write": op_write, "put": op_put}[j["op"]](j)
    except Exception as ex:
        import traceback
        return "exception " + traceback.format_exc()
