#!/usr/bin/env python3
"""Mutation campaign: random small changes to a scratch copy of the repository, each run against the checks of the file's properties.
usage: mutate.py VERIF_COPY REPO_COPY OUT.jsonl SECONDS SEED [file-regex]
Survivors are candidates for weak spots (or equivalent changes); nothing here is used by the registered checks."""
import json, os, random, re, subprocess, sys, time
VM, RP, OUT, SECS, SEED = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4]), int(sys.argv[5])
FRE = sys.argv[6] if len(sys.argv) > 6 else "."
MAP = [
 ("src/interpolation.c", ["C07", "C11", "C08", "C12"]), ("src/CDMInterpolator.cc", ["C08", "C09", "C10", "C34"]), ("src/CachedInterpolation.cc", ["C08", "C34"]),
 ("src/CachedForwardInterpolation.cc", ["C09"]), ("src/CachedVectorReprojection.cc", ["C10"]), ("src/reproject.cc", ["C10", "C08", "C28"]),
 ("src/CDMExtractor.cc", ["C02", "C03", "C01"]), ("src/SliceBuilder.cc", ["C01", "C33"]), ("src/CDMReader.cc", ["C06", "C01", "C34"]), ("src/DataImpl.h", ["C05", "C01", "C33"]),
 ("src/Data.cc", ["C05", "C01"]), ("src/Units.cc", ["C06"]), ("src/CDM.cc", ["C17", "C29", "C06"]), ("src/CDMAttribute.cc", ["C17", "C20", "C04"]),
 ("src/CDMVerticalInterpolator.cc", ["C12"]), ("src/vertical_coordinate_transformations.c", ["C13"]), ("src/coordSys/verticalTransform/.*", ["C13", "C12", "C24"]),
 ("src/CDMTimeInterpolator.cc", ["C14"]), ("src/TimeUnit.cc", ["C15", "C03"]), ("src/FimexTime.cc", ["C15"]), ("src/TimeUtils.cc", ["C15"]), ("src/StringUtils.cc", ["C15", "C16"]),
 ("src/SpatialAxisSpec.cc", ["C16"]), ("src/TimeSpec.cc", ["C16"]), ("src/AggregationReader.cc", ["C18"]), ("src/NcmlAggregationReader.cc", ["C18"]),
 ("src/NcmlCDMReader.cc", ["C19", "C20"]), ("src/NcmlUtils.cc", ["C20", "C19"]), ("src/NcmlCDMWriter.cc", ["C20", "C35"]), ("src/XMLUtils.cc", ["C19", "C20"]),
 ("src/CDMMerger.cc", ["C21"]), ("src/CDMOverlay.cc", ["C21"]), ("src/CDMBorderSmoothing.*.cc", ["C21"]), ("src/CDMMergeUtils.cc", ["C21"]), ("src/CDMQualityExtractor.cc", ["C22"]),
 ("src/CDMProcessor.cc", ["C23", "C10", "C24"]), ("src/CDMPressureConversions.cc", ["C24"]), ("src/io/grib/GribApiCDMWriter.*.cc", ["C25"]), ("src/io/grib/GribCDM.*.cc", ["C25", "C26"]),
 ("src/io/grib/GribFileIndex.cc", ["C26", "C25"]), ("src/io/grib/GribUtils.cc", ["C26", "C25"]), ("src/io/grib/GribReaderConfig.cc", ["C25"]), ("src/io/felt/.*", ["C27"]),
 ("src/coordSys/[A-Za-z_]*Projection.*.cc", ["C28"]), ("src/coordSys/CF1_xCoordSysBuilder.cc", ["C29"]), ("src/coordSys/Coord.*.cc", ["C29"]), ("src/coordSys/WRFCoordSysBuilder.cc", ["C29"]),
 ("src/FillWriter.cc", ["C30"]), ("src/io/netcdf/NetCDF_CDMWriter.cc", ["C04", "C35", "C30"]), ("src/io/netcdf/NetCDF_CDMReader.cc", ["C04", "C01", "C30"]), ("src/io/netcdf/NetCDF_Utils.cc", ["C04"]),
 ("src/c_fimex.cc", ["C33"]), ("src/C_CDMReader.cc", ["C33"]), ("src/ArrayLoop.cc", ["C01", "C21", "C12"]), ("src/CDMReaderUtils.cc", ["C29", "C03", "C14"]), ("src/ProtobufCDM.cc", ["C26"]),
 ("src/CoordinateSystemSliceBuilder.cc", ["C33", "C01"]), ("modules/python/.*.cc", ["C33"]), ("src/GridDefinition.cc", ["C26", "C25"]), ("include/fimex/(RecursiveSliceCopy|DataUtils|MathUtils|TokenizeDotted|SharedArray)[a-zA-Z]*.h", ["C05", "C01", "C16"]),
 ("src/CDM(File)?ReaderFactory.cc", ["C32", "C33"]), ("src/IndexedData.cc", ["C12", "C13"]), ("src/CDMBorderSmoothing_Linear.cc", ["C21"])]
OPS = [
 (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
 (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" ?[-+] ?1\b(?!\.)", ""), (r"\b0\b(?![.x])", "1"), (r"\b1\b(?![.x])", "2"), (r"\b1\b(?![.x])", "0"), (r"\b2\b(?![.x])", "1"),
 (r"\bnx\b", "ny"), (r"\bny\b", "nx"), (r"\bx(?=[A-Z])", "y"), (r"\by(?=[A-Z])", "x"), (r"X(?=[A-Z(])", "Y"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bfloor\b", "ceil"), (r"\bceil\b", "floor"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"\(!", "("), (r"\bif \((?!\!)", "if (!"), (r"\bbreak;", "continue;"), (r"\+=", "-="), (r"\bstd::abs\b|\bfabs\b", ""), (r"\bx\b", "y"), (r"\by\b", "x"), (r"\bi\b", "0"), (r"\bend\b", "start"), (r"\blat", "lon"), (r"\blon", "lat"), (r"\+\+(\w+)", r"\1")]
random.seed(SEED)
files = []
for root in ("src", "include/fimex", "modules/python"):
    for d, _, fs in os.walk(os.path.join(RP, root)):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), RP)
            if not re.search(FRE, p): continue
            for pat, chk in MAP:
                if re.fullmatch(pat, p):
                    files.append((p, chk)); break
def candidates(p):
    L = open(os.path.join(RP, p), errors="replace").read().split("\n")
    out = []
    incomment = False
    for i, l in enumerate(L):
        s = l.strip()
        if "/*" in s: incomment = True
        if "*/" in s: incomment = False; continue
        if incomment or not s or s.startswith(("//", "#", "*", "using", "namespace", "typedef", "LOG4FIMEX", "throw", "template", "struct", "class", "extern", "assert")) or "LOG4FIMEX" in s or "logger" in s or "throw " in s: continue
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2: continue
                n = code[:m.start()] + m.expand(b) + code[m.end():]
                if n != code: out.append((i, n))
        if s.endswith(";") and re.match(r"^[\w\.\->\[\]\(\)\*_: ]+( =|\+=|\(|\+\+)", s) and not re.match(r"^(const|auto|int|size_t|double|float|std::\w+<?.*> |string|bool|return|delete|else|if|for|case|default|DataPtr|CDM\w+ )", s):
            out.append((i, "/* " + code.replace("*/", "") + " */;"))
    return L, out
t0 = time.time()
w = [(len(open(os.path.join(RP, p), errors="replace").read().split("\n")) ** 0.7) for p, _ in files]
env = dict(os.environ, VERIF_REPO=RP, VERIF_SEED="1", VERIF_TIER="quick")
while time.time() - t0 < SECS:
    p, chk = random.choices(files, w)[0]
    L, c = candidates(p)
    if not c: continue
    i, n = random.choice(c)
    old = L[i]
    L2 = list(L); L2[i] = n
    fp = os.path.join(RP, p)
    open(fp, "w").write("\n".join(L2))
    res, t1 = "survived", time.time()
    try:
        for k in chk:
            try:
                r = subprocess.run([sys.executable, "run.py", k], cwd=VM, env=env, capture_output=True, text=True, timeout=1000)
            except subprocess.TimeoutExpired:
                res = "timeout " + k; break
            o = r.stdout + r.stderr
            if r.returncode == 1 and "VIOLATION" in o: res = "killed " + k; break
            if r.returncode not in (0, 1): res = "nobuild" if "error:" in o or "FAILED" in o else "rc%d %s: %s" % (r.returncode, k, o[-200:]); break
    finally:
        open(fp, "w").write("\n".join(L))
    json.dump(dict(file=p, line=i + 1, old=old.strip(), new=n.strip(), res=res, s=round(time.time() - t1)), open(OUT, "a")); open(OUT, "a").write("\n")
    with open(OUT, "a") as f: pass
