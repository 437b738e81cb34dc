"""C29: iconform turns tables, definitions and attributes into specifications that write just that"""
import contextlib
import copy
import io
import json
import os
import re

import numpy as np
from hypothesis import strategies as st

from pbt import world as W
from pbt.core import Discard, Prop, Sub, check

TABLES = ["Amon", "day", "Omon", "fx", "6hrLev", "Lmon"]
FREQ = ["mon", "day", "fx", "6hr", "monC", "yr", "1hr", "weekly", "1hrCM", "1hrPt", "3hr", "3hrPt", "6hrPt", "dec", "monPt", "subhrPt", "yrPt"]
REALM = ["atmos", "ocean", "land", "atmos land", "seaIce"]
VARS = ["tas", "pr", "ta", "tos", "zg", "hfls", "areacella", "o3"]
DATES = {"1hr": "_{%Y%m%d%H%M-%Y%m%d%H%M}", "6hr": "_{%Y%m%d%H%M-%Y%m%d%H%M}", "day": "_{%Y%m%d-%Y%m%d}", "fx": "",
         "mon": "_{%Y%m-%Y%m}", "monC": "_{%Y%m-%Y%m}-clim", "yr": "_{%Y-%Y}", "weekly": ""}
for k, v in (("1hrPt", "1hr"), ("3hr", "1hr"), ("3hrPt", "1hr"), ("6hrPt", "1hr"), ("subhrPt", "1hr"), ("dec", "yr"), ("yrPt", "yr"), ("monPt", "mon")):
    DATES[k] = DATES[v]
DATES["1hrCM"] = DATES["1hr"] + "-clim"
TYPES = {"real": "real", "double": "double", "integer": "int", "float": "float", "": "real", None: "real", "int": "int", "char": "char", "character": "char", "short": "short", "byte": "byte"}
AXES = {"longitude": {"units": "degrees_east", "axis": "X", "standard_name": "longitude"},
        "latitude": {"units": "degrees_north", "axis": "Y", "standard_name": "latitude"},
        "time": {"units": "days since ?", "axis": "T", "standard_name": "time"},
        "plev3": {"units": "Pa", "axis": "Z", "standard_name": "air_pressure", "positive": "down"},
        "landUse": {"units": "", "standard_name": "area_type"}}
SETS = [{"longitude": "lon", "latitude": "lat", "time": "time", "alevel": "lev", "landUse": "lut"},
        {"longitude": "lon*1.0", "latitude": "lat+0", "time": "time", "alevel": "2*lev"}, {"longitude": "lon", "time": "chunits(time)", "landUse": "landUse"}]
DIMS = ["longitude latitude time", "longitude latitude plev3 time", "longitude latitude", "latitude time", "time", "longitude latitude alevel time", "longitude landUse"]
# input variables: definitions and the coordinates of these
DEFS = {"longitude latitude time": ["TS", "TS2", "TS + TS2", "2*TS", 'chunits(TS, units="K")', "TS # atm/*.nc", "chunits(TS,units = 'K') # a/b?.nc"],
        "longitude latitude plev3 time": ["T", "T*0.5", "  -T"], "longitude latitude alevel time": ["T", "T*0.5 # *lev?.nc", "-T"], "longitude landUse": ["LU", "LU*2"], "longitude latitude": ["AREA", "AREA*2 # area.nc"],
        "latitude time": ["ZM", "mean(TS, 'lon')"], "time": ["SC", "SC + 1 # s*.nc"]}


@st.composite
def cases(draw):
    tables = draw(st.lists(st.sampled_from(TABLES), unique=True, min_size=1, max_size=2))
    out = []
    for t in tables:
        vs = {}
        for v in draw(st.lists(st.sampled_from(VARS), unique=True, min_size=1, max_size=4)):
            d = {"dimensions": draw(st.sampled_from(DIMS)), "units": draw(st.sampled_from(["K", "1", "m s-1", ""])),
                 "type": draw(st.sampled_from(["real", "double", "real", "double", "float", "", "integer", "int", "short", "byte", "char", "character"])),
                 "cell_methods": draw(st.sampled_from(["time: mean", "", "area: mean"])),
                 "cell_measures": draw(st.sampled_from(["area: areacella", "area: areacello volume: volcello", "", "area: areacellg", "area: areacellr", "volume: volcello", "area: areacella volume: volcello"])),
                 "long_name": draw(st.sampled_from(["A Name", "", "name = value: x"])), "standard_name": draw(st.sampled_from(["x", "air_temperature", ""])),
                 "comment": draw(st.sampled_from(["", "from the table"])), "positive": ""}
            if draw(st.integers(0, 3)) == 0:
                d["valid_min"] = draw(st.sampled_from([-1e30, "", "-1.0e30"]))
            if draw(st.integers(0, 7)) == 0:
                d.pop("type")
            vs[v] = d
        axes = {}
        for a, d in AXES.items():
            d = dict(d, type=draw(st.sampled_from(["double", "real", "float"])), long_name=draw(st.sampled_from(["", "An Axis"])), must_have_bounds="")
            if a == "latitude":
                d.update(draw(st.sampled_from([{}, {"valid_min": "-90.0", "valid_max": "90.0"}, {"valid_min": "", "valid_max": "90"}])))
            if a == "plev3":
                d["requested"] = draw(st.sampled_from(["85000. 50000.", ["100000.", "10000."], "100 10"]))
            else:
                d["requested"] = "primary_and_secondary_land pastures crops urban" if a == "landUse" else ""
            axes[a] = d
        out.append({"name": t, "realm": draw(st.sampled_from(REALM)), "freq": draw(st.sampled_from(FREQ)), "vars": vs, "axes": axes,
                    "prefix": draw(st.booleans()), "extra": draw(st.booleans())})
    if draw(st.integers(0, 7)) == 0:
        v = draw(st.sampled_from(sorted(out[0]["vars"])))
        out[0]["vars"][v]["dimensions"] = DIMS[0]
        out[0]["vars"][v]["requested"] = draw(st.sampled_from(["TS2", "TS*3", ""]))
    defs = {}
    for t in out:
        defs[t["name"]] = {}
        for v, d in t["vars"].items():
            if draw(st.integers(0, 4)):
                defs[t["name"]][v] = draw(st.sampled_from(DEFS[d["dimensions"]]))
        for v in draw(st.lists(st.sampled_from(VARS + ["other"]), max_size=2)):
            if v not in t["vars"]:
                defs[t["name"]][v] = "TS"
    if draw(st.integers(0, 5)) == 0:
        defs.pop(out[0]["name"])
    elif draw(st.booleans()):
        defs["Nowhere"] = {"tas": "NOTHING"}
    form = draw(st.sampled_from(["NETCDF4", "NETCDF4_CLASSIC", "NETCDF4", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA"]))
    ga = {"netcdf_type": form, "activity_id": draw(st.sampled_from(["CMIP", "__FILL__", "ScenarioMIP"])), "mip_era": "CMIP6",
          "institution_id": draw(st.sampled_from(["NCAR", "X-Y"])), "source_id": "CESM2"}
    for k, v in [("title", "A title: with = sign"), ("variable_id", "__FILL__"), ("table_id", "__FILL__"), ("frequency", "__FILL__"),
                 ("realm", "__FILL__"), ("grid_label", "gn"), ("external_variables", "__FILL__"), ("variant_label", "r1i2p3f11"),
                 ("institution", "__FILL__"), ("contact", "me@here"), ("grids", "atmos,land:1 degree;ocean, seaIce:tripolar"), ("grid", "__FILL__"),
                 ("further_info_url", "__FILL__"), ("experiment_id", "historical"), ("sub_experiment_id", "none"),
                 ("branch_method", "no parent"), ("data_specs_version", "__FILL__"), ("tracking_id", "__FILL__"), ("branch_time_in_child", "0.0D0"),
                 ("creation_date", "__FILL__")]:
        if draw(st.booleans()):
            ga[k] = v
    if "variant_label" in ga:
        ga["variant_label"] = draw(st.sampled_from(["r1i2p3f11", "r12i1p1f1", "r1i10p1f2", "r100i1p21f1"]))
    if "grid" in ga and not ("realm" in ga and "grids" in ga):
        ga.pop("grid")
    if "branch_time_in_child" in ga and ga.get("branch_method") is None:
        ga["branch_time_in_child"] = ""
    kind = draw(st.sampled_from([None, None, "standard", "no parent"]))
    if kind:
        ga["branch_method"] = kind
        ga["parent_activity_id"] = draw(st.sampled_from(["CMIP", "no"])) if kind == "standard" else "no parent"
        for k, vs in [("branch_time_in_parent", ["365.5D0", "12.0D"] if kind == "standard" else ["0.0D0"]), ("branch_time_in_child", ["0.0D0", "31.25D0"]),
                      ("parent_mip_era", ["CMIP5"]), ("parent_source_id", ["other"]), ("parent_time_units", ["days since 1850-01-01"])]:
            if draw(st.booleans()):
                ga[k] = draw(st.sampled_from(vs))
            else:
                ga.pop(k, None)
    if kind != "standard":
        for k in ("mip_era", "institution_id", "source_id"):
            if draw(st.integers(0, 9)) == 0:
                ga.pop(k)
    if "NETCDF4" in form:
        if draw(st.booleans()):
            ga["compression"] = draw(st.sampled_from(["0", "1", "2", "5", "9"]))
        if draw(st.booleans()):
            ga["shuffle"] = "on"
    wrong = draw(st.sampled_from([None] * 30 + ["format", "defs", "ga"]))
    if wrong == "format":
        ga["netcdf_type"] = draw(st.sampled_from(["NETCDF5", "netcdf4", "NETCDF3"]))
    realms = sorted({r for t in out for r in t["realm"].split()} | {draw(st.sampled_from(["ocean", "seaIce", "other"]))})
    coords = None
    if draw(st.booleans()):
        coords = {r: draw(st.integers(0, 2)) for r in realms if draw(st.integers(0, 7))}
        if any(" " in t["realm"] for t in out):
            coords["land"] = coords["atmos"] = draw(st.integers(0, 2))
    keys = sorted(ga)
    return {"tables": out, "defs": defs, "ga": ga, "json": draw(st.sampled_from(["json", "text", "both"])),
            "split": draw(st.lists(st.booleans(), min_size=len(keys), max_size=len(keys))), "number": draw(st.booleans()),
            "user": draw(st.one_of(st.none(), st.lists(st.sampled_from(VARS), unique=True, min_size=1, max_size=4))), "userfile": draw(st.booleans()),
            "exp": draw(st.sampled_from(["historical", "piControl", None, "piControl,historical"])), "single": draw(st.integers(0, 5)) == 0 and not any("landUse" in d["dimensions"] for t in out for d in t["vars"].values()), "blank": draw(st.lists(st.sampled_from(["", "  ", "# a note", "#"]), min_size=1, max_size=4)),
            "sizes": [draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(2, 4))], "run": draw(st.integers(0, 2)) > 0,
            "coords": coords, "wrong": wrong}


def glob_of(text):
    parts = text.split("#")
    return parts[1] if len(parts) == 2 else None


def expected(c, root):
    """specification files: {name: {variable: entry}}"""
    out = {}
    for exp in c["exp"].split(",") if c["exp"] else ["--ALL--"]:
        of_experiment(c, root, exp, out)
    if c["single"]:
        out = {"{}_{}_spec.json".format(key[: -len("_spec.json")], v): dict({d: spec[d] for d in spec[v]["dimensions"]}, **{v: spec[v]})
               for key, spec in out.items() for v in spec if v not in AXES and v != "alevel"}
    return out


def number(text):
    return float(text.split("D")[0]) if text else ""


def parents(ga):
    """where the experiment branched off, as CMIP6 asks for"""
    keys = ["branch_time_in_child", "branch_time_in_parent", "parent_mip_era", "parent_source_id", "parent_time_units"]
    if ga.get("branch_method") == "standard":
        there = len(ga["parent_activity_id"]) > 2
        for k in keys[:2]:
            if k in ga:
                ga[k] = number(ga[k])
        for k, x, none in zip(keys[2:], [ga["mip_era"], ga["source_id"], "days since 0001-01-01 00:00:00"], ["no parent", "", "none"]):
            ga[k] = x if there and k in ga else none
    else:
        for k in keys:
            if k in ga:
                if k in keys[:2] and ga.get("branch_method"):
                    ga[k] = number(ga[k]) if k == keys[0] else 0.0
                else:
                    ga[k] = "no parent"


def of_experiment(c, root, exp, out):
    for t in c["tables"]:
        if t["name"] not in c["defs"]:
            continue
        for v, d in t["vars"].items():
            if c["user"] is not None and v not in c["user"]:
                continue
            if v not in c["defs"][t["name"]]:
                continue
            text = c["defs"][t["name"]][v]
            ga = dict(c["ga"])
            if c["number"]:
                ga["nominal"] = 100.5
            form, grids = ga.pop("netcdf_type"), ga.pop("grids", None)
            level, shuffle = ga.pop("compression", None), ga.pop("shuffle", None)
            fill = {"frequency": t["freq"], "table_id": t["name"], "variable_id": v, "realm": t["realm"]}
            if t["extra"]:
                fill["data_specs_version"] = "01.00.30"
            for k in ga:
                if ga[k] == "__FILL__" and k in fill:
                    ga[k] = fill[k]
            if ga.get("external_variables") == "__FILL__":
                cells = re.findall("areacell[oarg]|volcello", d["cell_measures"])
                ga["external_variables"] = " ".join(cells)
                if not cells:
                    ga.pop("external_variables")
            ripf = ga.get("variant_label", "None")
            if "variant_label" in ga:
                n = [int(x) for x in re.findall("[0-9]+", ripf)]
                for k, x in zip(("realization_index", "initialization_index", "physics_index", "forcing_index"), n):
                    ga[k] = x
            parents(ga)
            if ga.get("further_info_url") == "__FILL__" and all(k in ga for k in ("experiment_id", "variant_label", "mip_era", "institution_id", "source_id")):
                ga["further_info_url"] = "https://furtherinfo.es-doc.org/" + ".".join(
                    [ga["mip_era"], ga["institution_id"], ga["source_id"], ga["experiment_id"], ga.get("sub_experiment_id", ""), ripf])
            if "grid" in ga:
                ga["grid"] = {"atmos": "1 degree", "land": "1 degree", "ocean": "tripolar", "seaIce": "tripolar"}[t["realm"].split()[0]]
            for k in ga:
                if ga[k] == "__FILL__" and k != "tracking_id":
                    ga[k] = ""
            activity = ga["activity_id"] or "None"
            ga["variant_label"] = ripf
            e = "None" if exp == "--ALL--" else exp
            src, gl = ga.get("source_id", ""), ga.get("grid_label", "")
            path = [os.path.join(root, "data"), ga.get("mip_era", ""), activity, ga.get("institution_id", ""), src, e, ripf, t["name"], v, gl, "v20190309"]
            fn = "_".join([v, t["name"], src, e, ripf, gl]) + DATES[t["freq"]] + ".nc"
            attrs = {k: x for k, x in d.items() if x != ""}
            dims = d["dimensions"].split()[::-1]
            attrs.update({"variable_id": v, "realm": t["realm"], "mipTable": t["name"], "frequency": t["freq"],
                          "comment": text.split("#")[0].strip(), "coordinates": " ".join(dims)})
            entry = {"attributes": attrs, "definition": d.get("requested") or text.split("#")[0].strip(), "dimensions": dims, "datatype": TYPES[d.get("type")],
                     "file": {"attributes": ga, "filename": "/".join(path + [fn]), "format": form}}
            if level is not None:
                entry["file"]["deflate"] = int(level)
            if shuffle is not None:
                entry["file"]["shuffle"] = shuffle
            if glob_of(text):
                entry["input_glob"] = glob_of(text)
            key = "{}_{}_{}_{}_spec.json".format(exp, ga["activity_id"], t["name"], t["realm"].replace(" ", "_"))
            spec = out.setdefault(key, {})
            spec[v] = entry
            for n in dims:
                a = dict(t["axes"], alevel={})[n]
                # (lists of text are joined, as most formats have no attributes of lists)
                x = {k: " ".join(y) if isinstance(y, list) else y for k, y in a.items() if y != ""}
                if n == "time":
                    x["units"] = "days since 0001-01-01 00:00:00"
                ax = {"attributes": x, "dimensions": [n]}
                if "type" in a:
                    ax["datatype"] = TYPES[a["type"]]
                if n == "landUse":
                    ax["definition"] = a["requested"].split()
                if n == "plev3":
                    req = a["requested"]
                    ax["definition"] = [float(y) for y in (req.split() if isinstance(req, str) else req)]
                for r in t["realm"].split() if c["coords"] else ():
                    if r in c["coords"] and n in SETS[c["coords"][r]]:
                        ax["definition"] = SETS[c["coords"][r]][n] if n != "landUse" else [0, 1, 2, 3]
                spec[n] = ax
    return out


def write_in(c, root):
    files = []
    for t in c["tables"]:
        fn = os.path.join(root, "CMIP6_{}.json".format(t["name"]))
        head = {"table_id": ("Table " if t["prefix"] else "") + t["name"], "realm": t["realm"], "frequency": t["freq"], "generic_levels": "alevel"}
        if t["extra"]:
            head["data_specs_version"] = "01.00.30"
        with open(fn, "w") as f:
            json.dump({"Header": head, "variable_entry": t["vars"], "axis_entry": t["axes"]}, f)
        files.append(fn)
    blank = iter(c["blank"] * 50)
    with open(os.path.join(root, "defs"), "w") as f:
        for t, vs in c["defs"].items():
            f.write("{}\n# TABLE: {}\n".format(next(blank), t))
            for v, x in vs.items():
                f.write("{} = {}\n{}\n".format(v, x, next(blank)))
        for r in sorted(c["coords"] or {}):
            f.write("# Coords: {}\n".format(r))
            for k, x in SETS[c["coords"][r]].items():
                f.write("{}={}\n{}\n".format(k, x, next(blank)))
    a, b = {}, {}
    for k, s in zip(sorted(c["ga"]), c["split"]):
        (a if c["json"] == "json" or (c["json"] == "both" and s) else b)[k] = c["ga"][k]
    names = []
    if c["number"]:
        a["nominal"] = 100.5
    if c["json"] != "text" or a:
        with open(os.path.join(root, "ga.json"), "w") as f:
            json.dump(a, f)
        names.append(os.path.join(root, "ga.json"))
    if c["json"] != "json":
        os.mkdir(os.path.join(root, "json"))
        with open(os.path.join(root, "json", "ga.txt"), "w") as f:
            for k, x in b.items():
                f.write("{}{}={}\n".format(k, " " if len(k) % 2 else "", "" if x == "__FILL__" else x))
                f.write("# a note\n")
        names.append(os.path.join(root, "json", "ga.txt"))
    return files, names


def inputs(root, c):
    from netCDF4 import Dataset

    nlat, nlon, nt = c["sizes"]
    rng = np.random.RandomState(nlat * 9 + nlon * 3 + nt)
    data = {"lat": np.linspace(-60, 60, nlat), "lon": np.arange(nlon) * 10.0, "time": np.arange(nt) * 31.0 + 730000.0}
    with Dataset(os.path.join(root, "in.nc"), "w") as nc:
        data["lev"] = np.arange(2) * 10.0
        data["lut"] = np.arange(4.0)
        for d, n in (("time", nt), ("lev", 2), ("lut", 4), ("lat", nlat), ("lon", nlon)):
            nc.createDimension(d, n)
        for v, d, u in (("time", ("time",), "days since 0001-01-01 00:00:00"), ("lat", ("lat",), "degrees_north"), ("lon", ("lon",), "degrees_east"), ("lev", ("lev",), "1"), ("lut", ("lut",), "1"), ("LU", ("lut", "lon"), "K"),
                        ("TS", ("time", "lat", "lon"), "K"), ("TS2", ("time", "lat", "lon"), "K"), ("T", ("time", "lev", "lat", "lon"), "K"),
                        ("AREA", ("lat", "lon"), "K"), ("ZM", ("time", "lat"), "K"), ("SC", ("time",), "1")):
            x = nc.createVariable(v, "f8", d)
            x.units = u
            if v not in data:
                data[v] = rng.randint(-40, 40, x.shape) * 0.5
            x[...] = data[v]
    return os.path.join(root, "in.nc"), data


VALUE = {"LU": lambda d: d["LU"], "LU*2": lambda d: 2 * d["LU"], "TS": lambda d: d["TS"], "TS2": lambda d: d["TS2"], "TS + TS2": lambda d: d["TS"] + d["TS2"], "2*TS": lambda d: 2 * d["TS"],
         'chunits(TS, units="K")': lambda d: d["TS"], "chunits(TS,units = 'K')": lambda d: d["TS"], "T": lambda d: d["T"], "T*0.5": lambda d: d["T"] * 0.5,
         "-T": lambda d: -d["T"], "AREA": lambda d: d["AREA"], "AREA*2": lambda d: d["AREA"] * 2, "ZM": lambda d: d["ZM"],
         "mean(TS, 'lon')": lambda d: d["TS"].mean(axis=2), "SC": lambda d: d["SC"], "SC + 1": lambda d: d["SC"] + 1, "TS*3": lambda d: d["TS"] * 3}


def run(c, stt):
    from pyconform.cli import iconform

    with W.scratch() as root:
        files, ga = write_in(c, root)
        argv = ["-d", os.path.join(root, "defs"), "-g", ",".join(ga), "-t", ",".join(files), "-tt", "cmor", "-o", os.path.join(root, "specs", "here"),
                "-p", os.path.join(root, "data")]
        if c["single"]:
            argv += ["--testoutput", "yes"]
        if c["exp"]:
            argv += ["-e", c["exp"]]
        if c["user"]:
            if c["userfile"]:
                with open(os.path.join(root, "user"), "w") as f:
                    f.write("\n".join(c["user"]) + "\n\n")
                argv += ["-u", os.path.join(root, "user")]
            else:
                argv += ["-u", ",".join(c["user"])]
        text = io.StringIO()
        used = [t for t in c["tables"] if any(v in c["defs"].get(t["name"], {}) for v in t["vars"] if c["user"] is None or v in c["user"])]
        if c["wrong"] and (used or c["wrong"] != "format"):
            if c["wrong"] != "format":
                os.remove(os.path.join(root, "defs") if c["wrong"] == "defs" else ga[-1])
            try:
                with contextlib.redirect_stdout(text):
                    iconform.main(argv)
            except SystemExit as e:
                check(e.code, "{} missing or wrong, and the exit code is {}", c["wrong"], e.code)
            else:
                check(False, "{} missing or wrong, and iconform ends well", c["wrong"])
            if not os.path.isdir(os.path.join(root, "specs", "here")):
                stt.event("refused")
                return
            check(not os.listdir(os.path.join(root, "specs", "here")), "{} missing or wrong, and there are {}", c["wrong"], os.listdir(os.path.join(root, "specs", "here")))
            return
        with contextlib.redirect_stdout(text):
            iconform.main(argv)
        want = expected(c, root)
        there = sorted(os.listdir(os.path.join(root, "specs", "here"))) if os.path.isdir(os.path.join(root, "specs", "here")) else []
        check(there == sorted(want), "specifications {} instead of {}", there, sorted(want))
        got = {}
        for f in there:
            with open(os.path.join(root, "specs", "here", f)) as fd:
                got[f] = json.load(fd)
        ids = set()
        for f in there:
            check(sorted(got[f]) == sorted(want[f]), "{}: variables {} instead of {}", f, sorted(got[f]), sorted(want[f]))
            for v in got[f]:
                g, w = copy.deepcopy(got[f][v]), copy.deepcopy(want[f][v])
                if "file" in w and w["file"]["attributes"].get("tracking_id") == "__FILL__":
                    i = g["file"]["attributes"].pop("tracking_id", "")
                    w["file"]["attributes"].pop("tracking_id")
                    check(re.match("^hdl:21.14100/[-0-9a-f]{36}$", str(i)), "{}: tracking id {}", v, i)
                    check(i not in ids, "tracking id {} is given twice", i)
                    ids.add(i)
                for k in sorted(set(g) | set(w)):
                    check(g.get(k) == w.get(k), "{}: {} of {} is {} instead of {}", f, k, v, g.get(k), w.get(k))
        if want:
            stt.nt()
        if not (c["run"] and c["coords"] and want):
            return
        # and they write what was asked for
        from netCDF4 import Dataset
        from pyconform.dataflow import DataFlow
        from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc

        fn, data = inputs(root, c)
        for f in there:
            spec = got[f]
            own = [v for v in spec if "file" in spec[v]]
            if any("definition" not in spec[v] for v in spec):
                continue
            if "plev3" in spec and "alevel" in spec:
                continue  # (the levels of the input can not be both)
            if any(spec[v]["datatype"] not in ("real", "double", "float") for v in own):
                continue  # measured numbers are no integers: refused
            for v in own:
                spec[v]["attributes"]["units"] = "1" if spec[v]["definition"].startswith("SC") else "K"
            if any(isinstance(spec[v].get("definition"), list) and any(isinstance(x, str) for x in spec[v]["definition"]) for v in spec):
                continue
            with contextlib.redirect_stdout(text):
                flow = DataFlow(InputDatasetDesc("in", filenames=[fn]), OutputDatasetDesc("out", dsdict=spec))
                flow.execute(serial=True)
            for v in own:
                name = spec[v]["file"]["filename"]
                if "{" in name:
                    d, b = os.path.split(name)
                    head = b[:b.index("{")] if "time" in spec[v]["dimensions"] else b
                    hits = [x for x in os.listdir(d) if x.startswith(head)]
                    check(len(hits) == 1, "{}: files {} like {}", v, os.listdir(d), b)
                    name = os.path.join(d, hits[0])
                check(os.path.exists(name), "{} was not written", name)
                with Dataset(name) as nc:
                    val = VALUE[spec[v]["definition"]](data)
                    x = np.ma.array(nc[v][...])
                    check(nc.data_model.replace("NETCDF3_64BIT", "64").replace("64_OFFSET", "64") == spec[v]["file"]["format"].replace("NETCDF3_64BIT", "64").replace("64_OFFSET", "64"),
                          "{}: format {} instead of {}", v, nc.data_model, spec[v]["file"]["format"])
                    f4 = nc[v].filters()
                    if f4 and "deflate" in spec[v]["file"]:
                        check((f4["complevel"] if f4["zlib"] else 0) == spec[v]["file"]["deflate"], "{}: compression {} instead of {}", v, f4, spec[v]["file"]["deflate"])
                    check(x.shape == val.shape, "{}: shape {} instead of {}", v, x.shape, val.shape)
                    check(not np.ma.getmaskarray(x).any() and np.allclose(x.data, val, rtol=1e-6, atol=1e-6), "{} = {}: {} instead of {}", v, spec[v]["definition"], x, val)
                    for k, y in spec[v]["file"]["attributes"].items():
                        if y is not None and k != "creation_date":
                            check(k in nc.ncattrs() and nc.getncattr(k) == y, "{}: attribute {} is {} instead of {}", v, k, nc.getncattr(k) if k in nc.ncattrs() else None, y)
                stt.event("written")


PROP = Prop(
    "C29",
    [Sub("specs", cases, run, quick=1500)],
    rule="1-2 CMOR tables with any realms, frequencies, types, dimensions and cell measures, definitions files with sections, notes and "
    "input patterns, with and without coordinates, attribute files as text, JSON or both with entries to fill in, chosen variables or all: "
    "every entry of the specifications compared with a model; those with coordinates are run on input files and what is written is compared "
    "with the definitions; non-trivial: there is a specification",
)
