"""C32: tables from the data request hold what was requested, as it was requested

The data request is read by the third party package dreqPy, which is not installed: a stand-in
with its interface (objects by identifier, by label, and by what refers to them) holds generated
requests.
"""
import contextlib
import io
import json
import os
import sys
import types
from collections import defaultdict

from hypothesis import strategies as st

from pbt import world as W
from pbt.core import Prop, Sub, check

GRIDS = ["longitude", "latitude", "time", "time1", "plev19", "alt16", "tau", "gridlatitude", "basin", "vegtype"]
TABLES = ["Amon", "day", "Omon", "fx", "CFday"]
MIPS = ["CMIP", "CFMIP", "OMIP"]
LIMIT = st.sampled_from([0, -1.5, 300.0, "", "none", None])


def maybe(draw, d, **kw):
    for k, s in kw.items():
        x = draw(s)
        if x is not None:
            d[k] = x
    return d


TEXT = st.sampled_from(["a", "some text", ""])


@st.composite
def cases(draw):
    c = {"grids": [], "vars": [], "spatial": [], "time": [], "structure": [], "cmor": [], "groups": [], "links": [],
         "items": [], "exps": []}
    for g in draw(st.lists(st.sampled_from(GRIDS), unique=True, min_size=4)):
        c["grids"].append(maybe(
            draw, {"label": g}, units=st.sampled_from(["", "m", "degrees_north", None]), value=st.sampled_from(["2.", "", None]),
            axis=st.sampled_from(["X", "Y", None]), valid_max=LIMIT, valid_min=LIMIT, standardName=st.sampled_from(["height", 7, None]),
            type=st.sampled_from(["double", None]), id=st.sampled_from(["x", None]), positive=st.sampled_from(["up", "down", "", None]),
            direction=st.sampled_from(["increasing", "decreasing", None]), title=st.sampled_from(["A title", None]),
            bounds=st.sampled_from(["yes", "no", None]), requested=st.sampled_from(["1 2 3", "", None]),
            altLabel=st.sampled_from(["lat", None]), coords=st.sampled_from(["", "lat lon", None])))
    for k in range(draw(st.integers(1, 4))):
        c["vars"].append(maybe(draw, {"label": "v%d" % k, "sn": "sn%d" % k}, units=st.sampled_from(["K", "", "1", "kg m-2"])))
    for k in range(draw(st.integers(1, 3))):
        c["spatial"].append({"dimensions": draw(st.sampled_from(["longitude|latitude", "longitude|latitude|plev19", "longitude|latitude|",
                                                                 "", "grid_latitude|basin"]))})
    for k in range(draw(st.integers(1, 2))):
        c["time"].append({"dimensions": draw(st.sampled_from(["time", "time1", "", "None", "time"])), "label": "tl%d" % k, "title": "tt%d" % k})
    for k in range(draw(st.integers(1, 4))):
        s = {"spid": draw(st.integers(0, len(c["spatial"]) - 1)), "tmid": draw(st.integers(0, len(c["time"]) - 1))}
        maybe(draw, s, cell_methods=st.sampled_from(["time: mean", "area: mean", None]), cell_measures=st.sampled_from(["area: areacella", None]))
        s["dids"] = draw(st.lists(st.sampled_from([g["label"] for g in c["grids"] if g["label"] in ("alt16", "tau", "vegtype")] or [None]),
                                  unique=True, max_size=2))
        s["dids"] = [d for d in s["dids"] if d]
        c["structure"].append(s)
    for k in range(draw(st.integers(1, 6))):
        v = draw(st.integers(0, len(c["vars"]) - 1))
        x = {"vid": v, "stid": draw(st.integers(0, len(c["structure"]) - 1)), "mipTable": draw(st.sampled_from(TABLES)),
             "label": c["vars"][v]["label"] + draw(st.sampled_from(["", "", "", "2d"]))}
        if any((y["label"], y["mipTable"]) == (x["label"], x["mipTable"]) for y in c["cmor"]):
            continue
        c["cmor"].append(maybe(
            draw, x, deflate=st.sampled_from(["1", None]), deflate_level=st.sampled_from(["2", None]), description=st.sampled_from(["what it is", None]),
            frequency=st.sampled_from(["mon", "day", "fx"]), modeling_realm=st.sampled_from(["atmos", "ocean", "land landIce"]),
            positive=st.sampled_from(["up", "down", "", None]), prov=st.sampled_from(["x", None]), shuffle=st.sampled_from(["1", None]),
            title=st.sampled_from(["A long name", "Another"]), type=st.sampled_from(["real", "float", "integer", None]), valid_max=LIMIT,
            valid_min=LIMIT))
    ncm = len(c["cmor"])
    for k in range(draw(st.integers(1, 3))):
        c["groups"].append({"label": "group%d" % k, "vars": draw(st.lists(st.integers(0, ncm - 1), unique=True, max_size=4))})
        c["links"].append({"refid": k})
    for k in range(draw(st.integers(1, 2))):
        c["links"].append({"refid": draw(st.integers(0, len(c["groups"]) - 1))})
    for k in range(draw(st.integers(1, 3))):
        c["exps"].append({"label": ["historical", "amip", "piControl"][k], "mip": draw(st.sampled_from(MIPS)), "eg": draw(st.integers(0, 1)),
                          "title": "about %d" % k})
    for k in range(draw(st.integers(1, 6))):
        on = draw(st.sampled_from(["exp", "exp", "group", "mip"]))
        c["items"].append({"on": on, "of": {"exp": draw(st.integers(0, len(c["exps"]) - 1)), "group": draw(st.integers(0, 1)),
                                            "mip": draw(st.sampled_from(MIPS))}[on],
                           "link": draw(st.integers(0, len(c["links"]) - 1)), "mip": draw(st.sampled_from(MIPS))})
    c["exp"] = draw(st.sampled_from(["historical", "historical", "amip", "piControl", "unknown", "--ALL--"]))
    c["mips"] = draw(st.sampled_from([["--ALL--"], ["--ALL--"], ["CMIP"], ["CMIP", "OMIP"], ["CFMIP"]]))
    c["tables"] = draw(st.sampled_from([["--ALL--"], ["--ALL--"], ["Amon"], ["Amon", "day"], ["Omon", "fx"], ["CFday"], ["CFday", "Omon"]]))
    c["list"] = []
    if draw(st.integers(0, 2)) == 0:
        c["list"] = draw(st.lists(st.sampled_from([x["label"] + ":" + x["mipTable"] for x in c["cmor"]] + ["nope:Amon"]),
                                  unique=True, min_size=1, max_size=3))
    return c


class Thing(object):
    def __init__(self, uid, **kw):
        self.uid = uid
        self.__dict__.update(kw)


class Section(object):
    def __init__(self):
        self.uid, self.label, self.items = {}, defaultdict(list), []

    def add(self, x):
        self.uid[x.uid] = x
        self.items.append(x)
        if hasattr(x, "label"):
            self.label[x.label].append(x.uid)


class References(object):
    def __init__(self):
        self.a = defaultdict(list)


def request(c):
    """the stand-in for the module dreqPy.dreq, with a request"""
    secs = defaultdict(Section)
    inx = types.SimpleNamespace(uid={}, iref_by_sect=defaultdict(References))

    def add(section, k, refs=(), **kw):
        x = Thing("%s:%s" % (section, k), **kw)
        secs[section].add(x)
        inx.uid[x.uid] = x
        for a in refs:
            inx.iref_by_sect[getattr(x, a)].a[section].append(x.uid)
        return x

    for g in c["grids"]:
        add("grids", g["label"], **g)
    for m in MIPS:
        secs["mip"].add(Thing(m, label=m))
        inx.uid[m] = secs["mip"].uid[m]
    for k in range(2):
        add("exptgroup", k, label="eg%d" % k)
    for k, x in enumerate(c["vars"]):
        add("var", k, **x)
    for k, x in enumerate(c["spatial"]):
        add("spatialShape", k, label="sp%d" % k, **x)
    for k, x in enumerate(c["time"]):
        add("temporalShape", k, **x)
    for k, x in enumerate(c["structure"]):
        x = dict(x, spid="spatialShape:%d" % x["spid"], tmid="temporalShape:%d" % x["tmid"],
                 dids=tuple("grids:" + d for d in x["dids"]) or "")
        add("structure", k, ("spid", "tmid"), **x)
    for k, x in enumerate(c["cmor"]):
        add("CMORvar", k, ("vid", "stid"), **dict(x, vid="var:%d" % x["vid"], stid="structure:%d" % x["stid"]))
    for k, x in enumerate(c["groups"]):
        add("requestVarGroup", k, label=x["label"])
        for j in x["vars"]:
            add("requestVar", "%d.%d" % (k, j), ("vgid", "vid"), vgid="requestVarGroup:%d" % k, vid="CMORvar:%d" % j)
    for k, x in enumerate(c["links"]):
        add("requestLink", k, ("refid",), refid="requestVarGroup:%d" % x["refid"])
    for k, x in enumerate(c["exps"]):
        add("experiment", k, ("mip", "egid"), label=x["label"], mip=x["mip"], egid="exptgroup:%d" % x["eg"], title=x["title"])
    for k, x in enumerate(c["items"]):
        esid = {"exp": "experiment:%s", "group": "exptgroup:%s", "mip": "%s"}[x["on"]] % x["of"]
        add("requestItem", k, ("esid", "rlid"), esid=esid, rlid="requestLink:%d" % x["link"], mip=x["mip"])
    for s in ("experiment", "requestLink", "requestVarGroup", "grids"):
        setattr(inx, s, secs[s])
    mod = types.ModuleType("dreqPy.dreq")
    mod.version = "01.00.99"
    mod.loadDreq = lambda: types.SimpleNamespace(inx=inx, coll=secs)
    return mod


COPIED = {"deflate": "deflate", "deflate_level": "deflate_level", "description": "description", "frequency": "frequency", "realm": "modeling_realm",
          "positive": "positive", "prov": "prov", "shuffle": "shuffle", "title": "title", "long_name": "title", "type": "type",
          "id": "label", "out_name": "label", "mipTable": "mipTable"}


def dims_of(c, x):
    s = c["structure"][x["stid"]]
    dims = [d.replace("grid_latitude", "gridlatitude") for d in c["spatial"][s["spid"]]["dimensions"].split("|") if d]
    t = c["time"][s["tmid"]]["dimensions"]
    return dims + list(s["dids"]) + ([t] if t not in ("", "None") else [])


def want_variable(c, x):
    s = c["structure"][x["stid"]]
    w = {a: x[b] for a, b in COPIED.items() if b in x}
    w.update({"_FillValue": "1.0E20", "missing_value": 1e20, "variable_id": c["vars"][x["vid"]]["label"],
              "standard_name": c["vars"][x["vid"]]["sn"], "units": c["vars"][x["vid"]]["units"] or "None"})
    for a in ("valid_min", "valid_max"):
        if isinstance(x.get(a), (int, float)):
            w[a] = x[a]
    for a in ("cell_methods", "cell_measures"):
        if a in s:
            w[a] = s[a]
    t = c["time"][s["tmid"]]
    w.update({"time_label": t["label"], "time_title": t["title"]})
    if t["dimensions"] not in ("", "None"):
        w["time"] = t["dimensions"]
    dims = dims_of(c, x)
    if dims:
        w["coordinates"] = "|".join(dims)
    return w


def want_axis(g):
    w = {a: g[a] for a in ("value", "axis", "positive", "direction", "title", "requested", "altLabel", "coords", "type") if a in g}
    if "units" in g:
        w["units"] = g["units"] or "1"
    for a in ("valid_min", "valid_max"):
        if isinstance(g.get(a), (int, float)):
            w[a] = g[a]
    if "standardName" in g:
        w["standard_name"] = g["standardName"] if isinstance(g["standardName"], str) else g["label"]
    if "id" in g:
        w["id"] = g["label"]
    if g.get("bounds") == "yes":
        w["bounds"] = g["label"] + "_bnds"
    return w


@contextlib.contextmanager
def standing_in(c):
    mod = request(c)
    pkg = types.ModuleType("dreqPy")
    pkg.dreq = mod
    saved = {k: sys.modules.get(k) for k in ("dreqPy", "dreqPy.dreq")}
    sys.modules.update({"dreqPy": pkg, "dreqPy.dreq": mod})
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield mod
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def experiment(c):
    labels = [x["label"] for x in c["exps"]]
    num = labels.index(c["exp"]) if c["exp"] in labels else 0
    return num, c["exps"][num]


def requested(c):
    """(request, variable) of what is requested of the experiment"""
    num, e = experiment(c)
    want = set()
    for i in c["items"]:
        if {"exp": num, "group": e["eg"], "mip": e["mip"]}[i["on"]] != i["of"]:
            continue
        if i["mip"] not in c["mips"] and "--ALL--" not in c["mips"] and c["exp"] != "--ALL--":
            continue
        g = c["groups"][c["links"][i["link"]]["refid"]]
        ks = g["vars"]
        if c["list"]:
            ks = [k for k, x in enumerate(c["cmor"]) if x["label"] + ":" + x["mipTable"] in c["list"]]
        for k in ks:
            if c["cmor"][k]["mipTable"] in c["tables"] or "--ALL--" in c["tables"]:
                want.add((i["mip"] + "_" + g["label"], k))
    return want


def run(c, stt):
    from pyconform import miptableparser

    num, e = experiment(c)
    with standing_in(c) as mod:
        got = miptableparser.mip_table_parser(c["exp"], list(c["mips"]), list(c["tables"]), list(c["list"]), type="xml")
    grids = {g["label"]: g for g in c["grids"]}
    want = requested(c)
    what = "experiment {}, projects {}, tables {}, list {}".format(c["exp"], c["mips"], c["tables"], c["list"])
    found = set()
    for key, table in got.items():
        for label, v in table["variables"].items():
            check(label == v["id"], "{}: {} is called {}", what, v["id"], label)
            ks = [k for k, x in enumerate(c["cmor"]) if (x["label"], x["mipTable"]) == (label, v["mipTable"])]
            check(len(ks) == 1, "{}: {} of {} was never defined", what, label, v["mipTable"])
            x = c["cmor"][ks[0]]
            group = [g for g, _ in want if key == g or key.startswith(g + "_")]
            check(group, "{}: {} in {}, of which nothing is requested", what, label, key)
            found.add((group[0], ks[0]))
            w = want_variable(c, x)
            check(v == w, "{}: {} of {} is {} instead of {}", what, label, v["mipTable"], v, w)
            for d in dims_of(c, x):
                if d in grids:
                    a = table["axes"].get(d)
                    check(a is not None, "{}: {} of {} is on {}, which is not among the axes {}", what, label, key, d, sorted(table["axes"]))
                    check(a == want_axis(grids[d]), "{}: axis {} is {} instead of {}", what, d, a, want_axis(grids[d]))
                    if len(dims_of(c, x)) > 3:
                        stt.event("many dimensions")
        info = table["table_info"]
        check(info["data_specs_version"] == mod.version, "{}: {}", what, info)
        if c["exp"] != "--ALL--":
            check((info["experiment"], info["experiment_id"], info["activity_id"]) == (e["title"], c["exp"], e["mip"]), "{}: {}", what, info)
    check(found == want, "{}: {} are missing, {} not requested", what,
          [(g, c["cmor"][k]["label"], c["cmor"][k]["mipTable"]) for g, k in want - found],
          [(g, c["cmor"][k]["label"], c["cmor"][k]["mipTable"]) for g, k in found - want])
    stt.event(c["exp"])
    if c["list"]:
        stt.event("listed variables")
    if len({c["cmor"][k]["label"] for _, k in want}) < len({k for _, k in want}):
        stt.event("one label in several tables")
    stt.nt(len(want) > 1)


DEF = ["TS", "TS*2 + 1", 'chunits(TS, units="K")', "TS # atm/*.nc", None]


@st.composite
def whole(draw):
    c = draw(cases())
    there = {g["label"] for g in c["grids"]}
    c["grids"] += [{"label": g} for g in GRIDS if g not in there]
    for x in c["grids"]:
        x["requested"] = x.get("requested") or ""
    c["defs"] = [draw(st.sampled_from(DEF)) if x["label"] == c["vars"][x["vid"]]["label"] else None for x in c["cmor"]]
    c["names"] = draw(st.booleans())
    ga = {"netcdf_type": "NETCDF4", "institution_id": "NCAR", "source_id": "CESM2", "mip_era": "CMIP6"}
    for k, v in (("activity_id", ["__FILL__", "CMIP"]), ("experiment", ["__FILL__", "mine"]), ("experiment_id", ["__FILL__", "own"]),
                 ("sub_experiment", ["__FILL__", "none"]), ("parent_activity_id", ["__FILL__", "no parent"]), ("data_specs_version", ["__FILL__", "1"]),
                 ("realm", ["__FILL__"]), ("frequency", ["__FILL__"]), ("table_id", ["__FILL__"]), ("variable_id", ["__FILL__"]),
                 ("variant_label", ["r1i1p1f1"])):
        if draw(st.booleans()) or k == "activity_id":
            ga[k] = draw(st.sampled_from(v))
    c["ga"] = ga
    return c


DATES = {"mon": "_{%Y%m-%Y%m}", "day": "_{%Y%m%d-%Y%m%d}", "fx": ""}
TYPES = {"real": "real", "float": "float", "integer": "int", "double": "double", None: "real"}


def specification(c, version, root):
    """{file: {variable: entry}}"""
    out = {}
    num, e = experiment(c)
    known = c["exp"] != "--ALL--"
    grids = {g["label"]: g for g in c["grids"]}
    for k in {k for _, k in requested(c)}:
        x, text = c["cmor"][k], c["defs"][k]
        if text is None:
            continue
        w = want_variable(c, x)
        ga = dict(c["ga"])
        fill = {"data_specs_version": version, "realm": x["modeling_realm"], "frequency": x["frequency"], "table_id": x["mipTable"], "variable_id": x["label"]}
        if known:
            fill.update({"activity_id": e["mip"], "experiment": e["title"], "experiment_id": c["exp"]})
        key = "_".join([c["exp"], ga["activity_id"] if ga["activity_id"] != "__FILL__" else fill.get("activity_id", ""), x["mipTable"],
                        x["modeling_realm"].replace(" ", "_"), "spec.json"])
        for a in ga:
            if ga[a] == "__FILL__":
                ga[a] = fill.get(a, "")
        ripf = ga.get("variant_label", "None")
        if ripf != "None":
            ga.update({a: 1 for a in ("realization_index", "initialization_index", "physics_index", "forcing_index")})
        ga["variant_label"] = ripf
        ga.pop("netcdf_type")
        dims = dims_of(c, x)[::-1]
        act, exp = ga["activity_id"] or "None", c["exp"] if known else "None"
        attrs = {a: b for a, b in w.items() if b != ""}
        attrs["comment"] = text.split("#")[0].strip()
        if dims:
            attrs["coordinates"] = " ".join(dims)
        fn = "_".join([x["label"], x["mipTable"], "CESM2", exp, ripf, ""]) + DATES[x["frequency"]] + ".nc"
        path = [root, "CMIP6", act, "NCAR", "CESM2", exp, ripf, x["mipTable"], x["label"], "", None]
        entry = {"attributes": attrs, "definition": attrs["comment"], "dimensions": dims, "datatype": TYPES[x.get("type")],
                 "file": {"attributes": ga, "filename": (path, fn), "format": "NETCDF4"}}
        if "#" in text:
            entry["input_glob"] = text.split("#")[1]
        spec = out.setdefault(key, {})
        spec[x["label"]] = entry
        for d in dims:
            g = grids[d]
            attrs = {a: b for a, b in want_axis(g).items() if b != ""}
            if "time" in d:
                attrs["units"] = "days since 0001-01-01 00:00:00"
            spec[d] = {"attributes": attrs, "dimensions": [d]}
            if "type" in g:
                spec[d]["datatype"] = TYPES[g["type"]]
            if g["requested"]:
                spec[d]["definition"] = [float(b) for b in g["requested"].split()]
    return out


def run_whole(c, stt):
    from pyconform.cli import iconform

    with W.scratch() as root:
        with open(os.path.join(root, "defs"), "w") as f:
            for t in TABLES:
                f.write("# TABLE: {}\n".format(t))
                for x, text in zip(c["cmor"], c["defs"]):
                    if x["mipTable"] == t and text is not None:
                        f.write("{} = {}\n".format(x["label"], text))
        with open(os.path.join(root, "ga"), "w") as f:
            for k, x in c["ga"].items():
                f.write("{} = {}\n".format(k, x.replace("__FILL__", "")))
        argv = ["-d", os.path.join(root, "defs"), "-g", os.path.join(root, "ga"), "-o", os.path.join(root, "specs"), "-p", os.path.join(root, "data")]
        if c["exp"] != "--ALL--":
            argv += ["-e", c["exp"]]
        if c["mips"] != ["--ALL--"]:
            argv += ["-m", ",".join(c["mips"])]
        if c["tables"] != ["--ALL--"]:
            argv += ["-t", ",".join(c["tables"])]
        if c["list"]:
            name = ",".join(c["list"])
            if c["names"]:
                name = os.path.join(root, "list")
                with open(name, "w") as f:
                    f.write("\n".join(c["list"]) + "\n")
            argv += ["-u", name]
        with standing_in(c) as mod:
            iconform.main(argv)
        want = specification(c, mod.version, os.path.join(root, "data"))
        there = sorted(os.listdir(os.path.join(root, "specs"))) if os.path.isdir(os.path.join(root, "specs")) else []
        check(there == sorted(want), "specifications {} instead of {}", there, sorted(want))
        for name in there:
            with open(os.path.join(root, "specs", name)) as f:
                got = json.load(f)
            check(sorted(got) == sorted(want[name]), "{}: variables {} instead of {}", name, sorted(got), sorted(want[name]))
            for v, w in want[name].items():
                g = got[v]
                if "file" in w:
                    path, fn = w["file"].pop("filename")
                    p = os.path.split(g["file"].pop("filename", ""))
                    check(p[1] == fn, "{}: {} is written to {} instead of {}", name, v, p[1], fn)
                    check(p[0].startswith("/".join(path[:-1]) + "/v"), "{}: {} is written in {} instead of {}", name, v, p[0], path)
                for k in sorted(set(g) | set(w)):
                    check(g.get(k) == w.get(k), "{}: {} of {} is {} instead of {}", name, k, v, g.get(k), w.get(k))
        stt.nt(sum("file" in w for spec in want.values() for w in spec.values()) > 0)


PROP = Prop(
    "C32",
    [Sub("request", cases, run, quick=2500), Sub("whole", whole, run_whole, quick=1200)],
    rule="data requests (1-6 variables of 4 tables, structures of spatial, other and time dimensions, axes with any of their attributes, "
    "groups requested of experiments, groups of experiments or projects) in a stand-in for dreqPy, asked for by experiment, projects, "
    "tables or a list of variables: the variables in the tables, with their attributes and axes, compared with those requested; "
    "non-trivial: more than one variable is requested",
    assumptions=["dreqPy, which is not installed, has the interface of the stand-in"],
)
