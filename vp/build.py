"""Compile the library, the bundled Judy arrays, and the harnesses from /repo's
current working tree, with sanitizers, into /verif/build (git-ignored)."""
import hashlib, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "src")
H = os.path.join(VERIF, "harness")

COMMON = ["-g", "-fno-omit-frame-pointer", "-w", "-DHAVE_CONFIG_H", "-fcommon"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-sanitize=alignment"]
FLAVOURS = {
    # name: (cc, cxx, lib flags, link flags)
    "asan": ("gcc", "g++", ["-O1"] + SAN, SAN),
    "plain": ("gcc", "g++", ["-O2"], []),
}
HFLAGS = {"asan": ["-O1", "-g1", "-fsanitize=address"], "plain": ["-O2", "-g1"]}   # the oracles themselves
INC = ["-I" + H, "-I" + SRC, "-I" + os.path.join(REPO, "judy/src")]


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p); h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        if not os.path.isdir(d):
            continue
        for n in sorted(os.listdir(d)):
            if n.endswith((".h", ".hpp")):
                h.update(n.encode()); h.update(_read(os.path.join(d, n)))
    return h.hexdigest()


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-4000:])


def _extra_includes():
    """data tables #included by sources (pd_testdata etc.) count as headers too"""
    h = hashlib.sha256()
    for n in sorted(os.listdir(SRC)):
        p = os.path.join(SRC, n)
        if os.path.isfile(p) and not n.endswith((".c", ".h")):
            h.update(n.encode()); h.update(_read(p))
    return h.hexdigest()


def _extra_h():
    h = hashlib.sha256()
    for n in sorted(os.listdir(H)):
        if n.endswith(".inc"):
            h.update(n.encode()); h.update(_read(os.path.join(H, n)))
    return h.hexdigest()


def lib_sources(var="libplCurveStatic_la_SOURCES"):
    txt = _read(os.path.join(SRC, "Makefile.am")).decode(errors="replace")
    m = re.search(r"^%s\s*=((?:.*\\\n)*.*)$" % re.escape(var), txt, re.M)
    if not m:
        raise BuildError("no %s in src/Makefile.am" % var)
    names = [w for w in m.group(1).replace("\\\n", " ").split() if w.endswith(".c")]
    out = []
    for n in names:
        p = os.path.join(SRC, n)
        if not os.path.exists(p):
            continue
        if n == "kascentpermutation.c" and not os.path.exists(os.path.join(SRC, "naptable.h")):
            continue
        out.append(p)
    return out


JUDY_FILES = ["Cascade", "Count", "CreateBranch", "Decascade", "Del", "First", "FreeArray",
              "Get", "InsArray", "Ins", "InsertBranch", "MallocIF", "MemActive", "MemUsed"]


def judy_units(flav):
    """-> list of (source, outname, flags)"""
    jd = os.path.join(REPO, "judy/src")
    jc = os.path.join(jd, "JudyCommon")
    units = []
    for let, d in (("L", "JudyL"), ("1", "Judy1")):
        inc = ["-I" + os.path.join(jd, d), "-I" + jd, "-I" + jc, "-DJUDY" + let]
        for f in JUDY_FILES:
            src = "Judy%s.c" % f
            units.append((os.path.join(jc, src), "Judy%s%s.o" % (let, f), inc))
        units.append((os.path.join(jc, "JudyPrevNext.c"), "Judy%sNext.o" % let, inc + ["-DJUDYNEXT"]))
        units.append((os.path.join(jc, "JudyPrevNext.c"), "Judy%sPrev.o" % let, inc + ["-DJUDYPREV"]))
        units.append((os.path.join(jc, "JudyPrevNextEmpty.c"), "Judy%sNextE.o" % let, inc + ["-DJUDYNEXT"]))
        units.append((os.path.join(jc, "JudyPrevNextEmpty.c"), "Judy%sPrevE.o" % let, inc + ["-DJUDYPREV"]))
        units.append((os.path.join(jc, "JudyByCount.c"), "Judy%sByCount.o" % let,
                      inc + ["-DNOSMARTJBB", "-DNOSMARTJBU", "-DNOSMARTJLB"]))
        units.append((os.path.join(jc, "JudyGet.c"), "j__udy%sGet.o" % let, inc + ["-DJUDYGETINLINE"]))
    inc = ["-I" + jd, "-I" + jc]
    units.append((os.path.join(jc, "JudyMalloc.c"), "JudyMalloc.o", inc))
    units.append((os.path.join(jd, "JudySL/JudySL.c"), "JudySL.o", inc))
    units.append((os.path.join(jd, "JudyHS/JudyHS.c"), "JudyHS.o", inc))
    return units


def _judy_tables(flav):
    jd = os.path.join(REPO, "judy/src"); jc = os.path.join(jd, "JudyCommon")
    hh = _headers_hash([jd, jc, os.path.join(jd, "JudyL"), os.path.join(jd, "Judy1")])
    key = _sha(_read(os.path.join(jc, "JudyTables.c")), hh, "JU_64BIT")
    d = os.path.join(BUILD, "judytab-" + key)
    units = []
    for let, sub in (("L", "JudyL"), ("1", "Judy1")):
        out = os.path.join(d, let, "Judy%sTables.c" % let)
        inc = ["-I" + os.path.join(jd, sub), "-I" + jd, "-I" + jc, "-DJUDY" + let]
        if not os.path.exists(out):
            w = os.path.join(d, let); os.makedirs(w, exist_ok=True)
            _run(["gcc", "-w", "-DJU_64BIT"] + inc + ["-o", "gen", os.path.join(jc, "JudyTables.c")], cwd=w)
            _run(["./gen"], cwd=w)
        units.append((out, "Judy%sTables.o" % let, inc))
    return units


def _compile_all(cc, units, odir, flags, hh):
    os.makedirs(odir, exist_ok=True)
    objs = []

    def one(u):
        src, name, extra = u
        key = _sha(_read(src), src, " ".join(flags + extra), cc, hh)
        o = os.path.join(odir, name[:-2] + "-" + key + ".o")
        if not os.path.exists(o):
            tmp = o + ".tmp%d.o" % os.getpid()
            _run([cc] + flags + extra + ["-c", src, "-o", tmp])
            os.rename(tmp, o)
        return o

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, units))
    return objs


def build_lib(flav="asan"):
    cc, cxx, lf, _ = FLAVOURS[flav]
    hh = _headers_hash([SRC, H]) + _extra_includes()
    odir = os.path.join(BUILD, flav)
    units = []
    for s in lib_sources() + lib_sources("libnplCurve_la_SOURCES"):
        units.append((s, os.path.basename(s)[:-2] + ".o", INC))
    seen = set(); u2 = []
    for u in units:
        if u[1] not in seen:
            seen.add(u[1]); u2.append(u)
    u2.append((os.path.join(H, "stubs.c"), "stubs.o", INC))
    objs = _compile_all(cc, u2, odir, COMMON + lf, hh)
    jflags = COMMON + ["-O0", "-DJU_64BIT"]   # what judy/configure.ac selects
    jd = os.path.join(REPO, "judy/src")
    jhh = _headers_hash([jd, os.path.join(jd, "JudyCommon"), os.path.join(jd, "JudyL"),
                         os.path.join(jd, "Judy1"), os.path.join(jd, "JudyHS")])
    objs += _compile_all(cc, judy_units(flav) + _judy_tables(flav), os.path.join(odir, "judy"), jflags, jhh)
    key = _sha(*objs)
    lib = os.path.join(odir, "libplc-%s.a" % key)
    if not os.path.exists(lib):
        tmp = lib + ".tmp%d" % os.getpid()
        _run(["ar", "rcs", tmp] + objs)
        os.rename(tmp, lib)
    return lib


def compile_harness(name, flav="asan"):
    cc, cxx, lf, ll = FLAVOURS[flav]
    hh = _headers_hash([SRC, H]) + _extra_h()
    src = os.path.join(H, name + ".cpp")
    fl = ["-std=gnu++17", "-Drestrict=__restrict__"] + COMMON + HFLAGS[flav]
    return _compile_all(cxx, [(src, name + ".o", INC)], os.path.join(BUILD, flav, "h"), fl, hh)


def build_harness(name, flav="asan"):
    """harness/<name>.cpp linked with the library"""
    cc, cxx, lf, ll = FLAVOURS[flav]
    objs = compile_harness(name, flav)
    lib = build_lib(flav)
    exe = os.path.join(BUILD, flav, "bin", name + "-" + _sha(lib, *objs))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".tmp%d" % os.getpid()
        _run([cxx] + ll + ["-o", tmp] + objs + [lib, "-lgsl", "-lgslcblas", "-lm"])
        os.rename(tmp, exe)
    return exe


TOOLDIRS = ("src", "tools")


def tool_sources(name):
    for d in TOOLDIRS:
        mk = os.path.join(REPO, d, "Makefile.am")
        if not os.path.exists(mk):
            continue
        m = re.search(r"^%s_SOURCES\s*=((?:.*\\\n)*.*)$" % re.escape(name), _read(mk).decode(errors="replace"), re.M)
        if m:
            return [os.path.join(REPO, d, w) for w in m.group(1).replace("\\\n", " ").split() if w.endswith(".c")]
    raise BuildError("no %s_SOURCES in Makefile.am" % name)


def build_tool(name, flav="asan"):
    """a command-line program of the repository, linked with the sanitized library"""
    cc, cxx, lf, ll = FLAVOURS[flav]
    td = os.path.join(REPO, "tools")
    hh = _headers_hash([SRC, H, td]) + _extra_includes() + _sha(_read(os.path.join(SRC, "plCurve.c")))
    units = []
    for s in tool_sources(name):
        d = os.path.dirname(s)
        units.append((s, name + "-" + os.path.basename(s)[:-2] + ".o", ["-I" + d] + INC + ['-DSVNVERSION="exported"']))
    objs = _compile_all(cc, units, os.path.join(BUILD, flav, "t"), COMMON + lf, hh)
    lib = build_lib(flav)
    exe = os.path.join(BUILD, flav, "bin", "tool-" + name + "-" + _sha(lib, *objs))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".tmp%d" % os.getpid()
        _run([cxx] + ll + ["-o", tmp] + objs + [lib, "-lgsl", "-lgslcblas", "-lm", "-Wl,--allow-multiple-definition"])
        os.rename(tmp, exe)
    return exe


TOOLS = {"h_cli": ["splitpd", "joinpd", "filterpd", "computepd", "connectsum", "orientedshadows", "shadow2diagram",
                   "processpdstor", "carbonizepd"],
         "h_clc": ["knottype", "randompolygon", "ropelength", "struts", "mrlocs", "plcurvature"]}


def tool_env(harness, flav="asan"):
    ts = TOOLS.get(harness, [])
    with ThreadPoolExecutor(8) as ex:
        return {"VP_TOOL_" + t: e for t, e in zip(ts, ex.map(lambda t: build_tool(t, flav), ts))}


if __name__ == "__main__":
    print(build_lib(sys.argv[1] if len(sys.argv) > 1 else "asan"))
