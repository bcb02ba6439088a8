"""Configuration files against an independent reading of the schema: every option's boundary and wrong values alone and in pairs,
layouts, generated schemas, and histories of loads."""
import copy
import io
import itertools
import json
import math
import os
import re

from .. import repoenv
from ..common import Result

LEVEL = "model_checking"
KERNELS = False
RULE = (
    "one evaluation = one configuration text read with a schema and compared, option by option, with what the schema says; distinct "
    "by base configuration and changed options, or by generated schema and text"
)
ASSUMPTIONS = [
    "option values without %-interpolation, nan, or digits with underscores",
    "the schema file config/config-format.json is the definition of the options",
]
CASE_TIMEOUT = 900
BUDGET = {"quick": 700, "thorough": 3000}

NUM = re.compile(r"^[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?$")
INT = re.compile(r"^[+-]?\d+$")


class Refuse(Exception):
    pass


# ------------------------------------------------------------------ the oracle: what a schema says about a text


def convert(kind, text):
    if kind in ("str", "lc-str", "lower-case-str"):
        return text.lower()
    if kind in ("cs-str", "case-sensitive-str"):
        return text
    if kind == "bool":
        if not INT.match(text):
            raise Refuse(text)
        return int(text) != 0
    if kind == "int":
        if not INT.match(text):
            raise Refuse(text)
        return int(text)
    if not NUM.match(text):
        raise Refuse(text)
    v = float(text)
    if kind == "float32":
        import numpy

        return float(numpy.float32(v))
    if kind == "angle24":
        return angle(v)
    return v


def angle(v):
    turn = 2.0 * math.pi
    while v >= math.pi:
        v -= turn
    while v < -math.pi:
        v += turn
    k = round(v / (turn / 2**24))
    if k == 2**23:
        k = -(2**23)
    return k * (turn / 2**24)


def arith(s):
    """Value of a schema number that may be written as text."""
    return {"pi": math.pi, "-pi": -math.pi, "pi/4": math.pi / 4, "-pi/4": -math.pi / 4, "2*3": 6, "1/4": 0.25, "(1+2)*2": 6}[s]


def constant(kind, v):
    """A schema value (default, min, max, selectable) as a value of the option's type."""
    if kind in ("str", "lc-str", "lower-case-str"):
        return str(v).lower()
    if kind in ("cs-str", "case-sensitive-str"):
        return str(v)
    if isinstance(v, str):
        v = arith(v)
    if kind == "bool":
        return bool(v)
    if kind == "int":
        return int(v)
    if kind == "angle24":
        return angle(v)
    if kind == "float32":
        import numpy

        return float(numpy.float32(v))
    return float(v)


def read_list(kind, text):
    try:
        return [convert(kind, text)]
    except Refuse:
        pass
    try:
        items = json.loads(text)
    except ValueError as e:
        raise Refuse(text) from e
    if not isinstance(items, list):
        raise Refuse(text)
    out = []
    for x in items:
        if isinstance(x, str) or isinstance(x, list) or x is None:
            raise Refuse(text)
        out.append(constant(kind, x))
    return out


def in_range(f, kind, v):
    vals = v if isinstance(v, list) else [v]
    sel = f.get("selectables")
    if sel is not None:
        sel = [constant(kind, s) for s in (sel if isinstance(sel, list) else [sel])]
        return all(x in sel for x in vals)
    lo, hi = f.get("min"), f.get("max")
    if lo is not None and any(x < constant(kind, lo) for x in vals):
        return False
    if hi is not None and any(x > constant(kind, hi) for x in vals):
        return False
    return True


def fields_of(schema):
    out = []
    for s in schema.get("sections", []):
        for f in s["fields"]:
            out.append((s["name"], f))
    for f in schema.get("fields", []):
        out.append((f["section"], f))
    free = [x for x in out if "dependency" not in x[1]]
    return free + [x for x in out if "dependency" in x[1]]


def expected(schema, conf):
    """conf: {section: {option: text}} -> {option: (kind, is_list, value)} or Refuse"""
    vals = {}
    for sec, f in fields_of(schema):
        dep = f.get("dependency")
        if dep is not None:
            allowed = dep["values"] if isinstance(dep["values"], list) else [dep["values"]]
            if dep["name"] not in vals or vals[dep["name"]][2] not in allowed:
                continue
        kind = f["type"]
        is_list = kind.startswith("list-")
        if is_list:
            kind = kind[5:]
        text = conf.get(sec, {}).get(f["name"])
        if text is None:
            if "default" not in f:
                raise Refuse(f["name"])
            d = f["default"]
            if is_list:
                v = [constant(kind, x) for x in (d if isinstance(d, list) else [d])]
            else:
                v = constant(kind, d)
        elif is_list:
            v = read_list(kind, text)
        else:
            v = convert(kind, text)
        if not in_range(f, kind, v):
            raise Refuse(f["name"])
        vals[f["name"]] = (kind, is_list, v)
    return vals


def expected_full(schema, conf):
    vals = expected(schema, conf)
    if vals["discretization"][2] == "fv" and vals["num_solpts"][2] != 1:
        raise Refuse("fv")
    if vals["mg_smoother"][2] == "exp" and not (vals["exp_smoothe_spectral_radii"][2] and vals["exp_smoothe_num_iters"][2]):
        raise Refuse("exp")
    return vals


def schema_ok(schema):
    """Whether the schema itself makes sense."""
    for _, f in fields_of(schema):
        kind = f["type"]
        is_list = kind.startswith("list-")
        if is_list:
            kind = kind[5:]
        if "selectables" in f and ("min" in f or "max" in f):
            return False
        if "min" in f and "max" in f and constant(kind, f["min"]) > constant(kind, f["max"]):
            return False
        if "default" in f:
            d = f["default"]
            v = [constant(kind, x) for x in (d if isinstance(d, list) else [d])] if is_list else constant(kind, d)
            if not in_range(f, kind, v):
                return False
    return True


# ------------------------------------------------------------------ texts


def text_of(conf, order=None, style=0):
    out = []
    secs = list(conf)
    if order is not None:
        secs = [secs[i] for i in order]
    for s in secs:
        out.append(f"[{s}]")
        items = list(conf[s].items())
        if style & 1:
            items.reverse()
        for k, v in items:
            if style & 2:
                out.append(f"# {k} = comment")
                out.append(f"{k.upper()}: {v}")
            else:
                out.append(f"{k} = {v}")
        if style & 4:
            out.append("; nothing")
            out.append("")
    return "\n".join(out) + "\n"


BASES = {
    "sw": {
        "General": {"equations": "shallow_water"},
        "Grid": {"grid_type": "cubed_sphere", "lambda0": "0.0", "phi0": "0.785398", "alpha0": "-0.25"},
        "Test_case": {"case_number": "6"},
        "Time_integration": {"dt": "1800", "t_end": "3600", "time_integrator": "epi3", "tolerance": "1e-7"},
        "Spatial_discretization": {"num_solpts": "3", "num_elements_horizontal": "4"},
        "Output_options": {"output_dir": "Results"},
    },
    "euler": {
        "General": {"equations": "Euler", "depth_approx": "shallow"},
        "Grid": {"grid_type": "Cubed_Sphere", "lambda0": "4", "phi0": "-0.7", "alpha0": "0", "ztop": "10000"},
        "Test_case": {"case_number": "31", "bubble_theta": "0.5"},
        "Time_integration": {"dt": "30", "t_end": "60", "time_integrator": "Rosexp2", "tolerance": "1e-5", "linear_solver": "gcrot"},
        "Spatial_discretization": {
            "num_solpts": "4", "num_elements_horizontal": "2", "num_elements_vertical": "3", "filter_apply": "1", "filter_order": "8",
            "expfilter_apply": "1", "expfilter_order": "4", "expfilter_cutoff": "0.25", "expfilter_strength": "32",
        },
        "Preconditioning": {"preconditioner": "fv-mg", "num_mg_levels": "2", "mg_smoother": "exp",
                            "exp_smoothe_spectral_radii": "[3.0, 1.5]", "exp_smoothe_num_iters": "5"},
    },
    "cartesian": {
        "General": {"equations": "euler"},
        "System": {"desired_device": "cuda", "cuda_devices": "[0, 2]"},
        "Grid": {"grid_type": "cartesian2d", "discretization": "fv", "x0": "0", "x1": "1000", "z0": "-1.5", "z1": "1e3"},
        "Test_case": {"case_number": "9", "matsuno_wave_type": "Rossby", "matsuno_amp": "1e-5"},
        "Time_integration": {"dt": "0", "t_end": "-1", "time_integrator": "epi2", "tolerance": "1e-5"},
        "Spatial_discretization": {"num_solpts": "1", "num_elements_horizontal": "4"},
        "Preconditioning": {"mg_smoother": "erk3"},
        "Output_options": {"save_state_freq": "3", "base_output_file": "Out_X"},
    },
}

COMMON = [None, "0", "1", "-1", "2.5", "abc", "", "1e-3", "[1, 2]", "1 2"]


def values_of(f):
    kind = f["type"]
    base = kind[5:] if kind.startswith("list-") else kind
    vals = list(COMMON)
    if "selectables" in f:
        vals += list(f["selectables"]) + [f["selectables"][0].upper(), f["selectables"][-1].title(), f["selectables"][0] + "x",
                                          f["selectables"][0][:-1]]
    if base == "int":
        for b in ("min", "max"):
            if b in f:
                vals += [str(f[b] - 1), str(f[b]), str(f[b] + 1)]
        vals += ["+7", "007", "3.0", "12345678901234567890", "0x10"]
    elif base in ("float", "float32", "float64"):
        for b in ("min", "max"):
            if b in f:
                vals += [repr(f[b] - 1e-9), repr(f[b]), repr(f[b] + 1e-9)]
        vals += ["1e300", "-.5", "3.", "pi", "1,5"]
    elif base == "angle24":
        vals += ["3.141592653589793", "-3.141592653589793", "3.2", "-7.0", "pi"]
    elif base == "bool":
        vals += ["true", "False", "2", "yes"]
    else:
        vals += ["MiXed Case", "a=b", "ünï", "../Dir/x"]
    if kind.startswith("list-"):
        vals += ["[]", "[3, 4", "[1.5, 2.25]", "[\"a\"]", "{}"]
    out = []
    for v in vals:
        if v not in out:
            out.append(v)
    if kind == "list-int":
        out = [v for v in out if v not in ("[1.5, 2.25]",)]
    if kind.startswith("list-"):
        out = [v for v in out if v != "{}"]
    return out


SHORT = [None, "0", "1", "abc", "fv", "exp", "erk1", "euler", "9", "cubed_sphere", "cartesian2d", "fv-mg", "cuda", "[2]"]


def bounds(tier):
    return {
        "single options": "every option of the schema x 10 common values and its boundary, misspelt and differently cased ones x 3 bases",
        "pairs": "all pairs of options x short value lists (thorough: all values)",
        "layouts": "8 ways of writing, all rotations of the sections, options in the wrong section, unknown options and sections",
        "generated schemas": "type x list x default x range x dependency x layout, each with up to 10 texts",
        "histories": "all sequences of 4 of load, load other, change the lists of a loaded one, copy, change a copy",
    }


def schema_json():
    with open(os.path.join(repoenv.REPO, "config", "config-format.json")) as f:
        return f.read()


def setup():
    repoenv.use_model_mpi()
    import common.configuration  # noqa
    import common.configuration_schema  # noqa


def cases(tier, seed):
    S = json.loads(schema_json())
    names = sorted({f["name"] for _, f in fields_of(S)})
    for b in BASES:
        for lo in range(0, len(names), 18):
            yield {"kind": "single", "base": b, "names": names[lo:lo + 18]}
    for b in BASES:
        for lo in range(0, len(names), 3):
            yield {"kind": "pairs", "base": b, "first": names[lo:lo + 3], "second": names, "long": tier != "quick"}
    yield {"kind": "layout"}
    yield {"kind": "shipped"}
    for t in TYPES:
        yield {"kind": "schema", "type": t}
    yield {"kind": "badschema"}
    yield {"kind": "history", "depth": 4 if tier == "quick" else 5}


# ------------------------------------------------------------------ comparison

PY = {"int": int, "bool": bool, "float": float, "float64": float, "angle24": float}


def same(kind, is_list, want, got):
    if is_list:
        return isinstance(got, list) and len(got) == len(want) and all(same(kind, False, a, b) for a, b in zip(want, got))
    if kind in PY and not isinstance(got, PY[kind]):
        return False
    if kind == "angle24":
        return abs(float(got) - want) <= 1e-15
    if kind in ("int", "bool", "float", "float64"):
        return got == want and isinstance(got, bool) == (kind == "bool")
    if kind == "float32":
        return float(got) == want
    return isinstance(got, str) and str(got) == want


PRESET = {"depth_approx": None, "num_mg_levels": 1}


def quiet(fn, *a, **k):
    import contextlib

    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def compare(res, key, where, schema_obj, schema, conf, text, full=True):
    from common.configuration import Configuration

    res.evaluations += 1
    res.nontrivial += 1
    res.states += 1
    try:
        want = (expected_full if full else expected)(schema, conf)
    except Refuse as e:
        want, why = None, e
    try:
        got = quiet(Configuration, text, schema_obj, full)
    except RecursionError:
        raise
    except Exception as e:  # the type of the refusal is not prescribed
        got, err = None, e
    if want is None:
        if got is not None:
            res.bad(f"{key}: accepted", f"{where}: accepted although it must be refused ({why})")
        return None
    if got is None:
        res.bad(f"{key}: refused", f"{where}: refused ({type(err).__name__}: {str(err)[:120]}) although it is valid")
        return None
    check_values(res, key, where, schema, want, got, full)
    return got


def check_values(res, key, where, schema, want, got, full=True):
    for name in {f["name"] for _, f in fields_of(schema)}:
        res.transitions += 1
        if name in want:
            kind, is_list, v = want[name]
            if not hasattr(got, name):
                res.bad(f"{key}: unset", f"{where}: {name} has no value instead of {v!r}")
            elif not same(kind, is_list, v, getattr(got, name)):
                res.bad(f"{key}: value", f"{where}: {name} is {getattr(got, name)!r} instead of {v!r}")
        else:
            g = getattr(got, name, None)
            if g is not None and g != PRESET.get(name):
                res.bad(f"{key}: set", f"{where}: {name} is {g!r} although its condition does not hold")
    if full:
        if got.initial_num_solpts != want["num_solpts"][2]:
            res.bad(f"{key}: value", f"{where}: initial_num_solpts is {got.initial_num_solpts}")
        if got.num_elements_horizontal_total != want["num_elements_horizontal"][2]:
            res.bad(f"{key}: value", f"{where}: num_elements_horizontal_total is {got.num_elements_horizontal_total}")
        if want["mg_smoother"][2] == "exp":
            if got.exp_smoothe_spectral_radius != want["exp_smoothe_spectral_radii"][2][0]:
                res.bad(f"{key}: value", f"{where}: exp_smoothe_spectral_radius is {got.exp_smoothe_spectral_radius}")
            if got.exp_smoothe_num_iter != want["exp_smoothe_num_iters"][2][0]:
                res.bad(f"{key}: value", f"{where}: exp_smoothe_num_iter is {got.exp_smoothe_num_iter}")


def default_schema():
    from common.configuration_schema import ConfigurationSchema

    js = schema_json()
    return json.loads(js), ConfigurationSchema(js)


def put(conf, section, name, value):
    conf = {s: dict(o) for s, o in conf.items()}
    if value is None:
        if section in conf:
            conf[section].pop(name, None)
            if not conf[section]:
                del conf[section]
    else:
        conf.setdefault(section, {})[name] = value
    return conf


def specs(schema):
    """name -> (section, merged value list)"""
    out = {}
    for sec, f in fields_of(schema):
        v = values_of(f)
        if f["name"] in out:
            v = out[f["name"]][1] + [x for x in v if x not in out[f["name"]][1]]
        out[f["name"]] = (sec, v)
    return out


def run_single(case, res):
    S, obj = default_schema()
    sp = specs(S)
    base = BASES[case["base"]]
    for name in case["names"]:
        sec, vals = sp[name]
        for v in vals:
            c = put(base, sec, name, v)
            compare(res, f"option {name}", f"{case['base']} with {name}={v!r}", obj, S, c, text_of(c))
    res.sample = {"options": case["names"]}


def run_pairs(case, res):
    S, obj = default_schema()
    sp = specs(S)
    base = BASES[case["base"]]

    def short(name):
        vals = sp[name][1]
        f = [f for _, f in fields_of(S) if f["name"] == name]
        if case["long"]:
            return vals
        out = [v for v in vals if v in SHORT]
        if any("min" in x for x in f):
            out += [v for v in vals if v in ("-1",)]
        return out

    for a in case["first"]:
        for b in case["second"]:
            if a == b:
                continue
            for va in short(a):
                ca = put(base, sp[a][0], a, va)
                for vb in short(b):
                    c = put(ca, sp[b][0], b, vb)
                    compare(res, f"options {a}, {b}", f"{case['base']} with {a}={va!r}, {b}={vb!r}", obj, S, c, text_of(c))
            if len(res.problems) > 50:
                return
    res.sample = {"first": case["first"]}


def run_layout(case, res):
    S, obj = default_schema()
    for b, base in BASES.items():
        n = len(base)
        for style in range(8):
            for r in range(n):
                order = [(i + r) % n for i in range(n)]
                compare(res, "layout", f"{b}, style {style}, rotation {r}", obj, S, base, text_of(base, order, style))
        for order in itertools.permutations(range(n)) if n <= 5 else itertools.islice(itertools.permutations(range(n)), 0, None, 7):
            compare(res, "layout", f"{b}, order {order}", obj, S, base, text_of(base, order))
        # an option counts in its own section only
        for sec in base:
            for name in base[sec]:
                for other in base:
                    if other == sec:
                        continue
                    c = put(put(base, sec, name, None), other, name, base[sec][name])
                    compare(res, "wrong section", f"{b}, {name} in {other}", obj, S, c, text_of(c))
                    d = put(base, other, name, "zzz")
                    compare(res, "wrong section", f"{b}, {name} again in {other}", obj, S, d, text_of(d))
        for sec in list(base) + ["Unknown"]:
            c = put(base, sec, "unknown_option", "5")
            compare(res, "unknown option", f"{b}, unknown option in {sec}", obj, S, c, text_of(c))
        # repeated options and sections, no sections, garbage: refused as a whole
        from common.configuration import Configuration

        t = text_of(base)
        for what, bad in (("repeated option", t.replace("[General]", "[General]\nequations = euler")), ("repeated section", t + "[Grid]\n"),
                          ("no sections", "equations = euler\n" + t), ("garbage", t + "???\n"), ("empty", "")):
            try:
                quiet(Configuration, bad, obj)
                res.check(False, "malformed", f"{b}, {what}: accepted")
            except Exception:
                res.check(True, "", "")
        # the summary shows every option that is set, and copies are equal and independent
        conf = quiet(Configuration, t, obj)
        s = str(conf)
        for name, (kind, is_list, v) in expected_full(S, base).items():
            res.check(re.search(rf"\b{name}\s*:", s) is not None, "summary", f"{b}: {name} missing from the summary")


def run_shipped(case, res):
    """Every configuration file of the repository gets the values written in it."""
    import configparser
    import glob

    S, obj = default_schema()
    for path in sorted(glob.glob(os.path.join(repoenv.REPO, "config", "*.ini"))):
        with open(path) as f:
            text = f.read()
        p = configparser.RawConfigParser()
        p.read_string(text)
        conf = {s: dict(p[s]) for s in p.sections()}
        compare(res, "shipped file", os.path.basename(path), obj, S, conf, text)
    res.sample = {"files": res.evaluations}


TYPES = ["int", "float", "float32", "float64", "angle24", "bool", "case-sensitive-str", "cs-str", "lower-case-str", "lc-str", "str"]


def gen_fields(t):
    """Field descriptions of one type."""
    if t == "int":
        defaults = [None, 2, 5, "2*3"]
        ranges = [{}, {"min": 2}, {"max": 4}, {"min": 1, "max": 5}, {"min": 3, "max": 3}, {"selectables": [1, 3, 5]}, {"max": "2*3"}]
        texts = [None, "0", "1", "2", "3", "4", "5", "6", "7", "x", "2.0"]
    elif t in ("float", "float64", "float32"):
        defaults = [None, 0.5, 2, "pi/4", "1/4"]
        ranges = [{}, {"min": 0.5}, {"max": 1.0}, {"min": 0.25, "max": 2}, {"selectables": [0.5, 0.25, 2]}, {"min": "-pi/4", "max": "pi/4"}]
        texts = [None, "0.25", "0.5", "1", "2", "0.2499", "2.0001", "-1", "pi", "1e0"]
    elif t == "angle24":
        defaults = [None, 0.0, 1.0, "pi/4", "-pi"]
        ranges = [{}, {"min": -1.0}, {"max": 1.0}, {"min": -1, "max": 1}, {"min": "-pi/4", "max": "pi/4"}]
        texts = [None, "0", "1", "-1", "3.2", "-3.2", "0.78539", "0.78540", "x"]
    elif t == "bool":
        defaults = [None, True, False]
        ranges = [{}]
        texts = [None, "0", "1", "true", "", "x"]
    else:
        defaults = [None, "One", "two", ""]
        ranges = [{}, {"selectables": ["One", "two"]}, {"selectables": ["", "One", "THREE"]}]
        texts = [None, "one", "One", "ONE", "two", "three", "Three Four", ""]
    return defaults, ranges, texts


CONTROLS = [
    ("str", ["a", "b"], ["a", "B", "c"]),
    ("int", [1, 2], ["1", "2", "3"]),
    ("bool", [True], ["1", "0"]),
]


def run_schema(case, res):
    from common.configuration_schema import ConfigurationSchema

    t = case["type"]
    defaults, ranges, texts = gen_fields(t)
    for lst in (False, True):
        if lst and t in ("bool", "case-sensitive-str", "cs-str", "lower-case-str", "lc-str", "str"):
            continue
        for d, r in itertools.product(defaults, ranges):
            if lst and isinstance(d, str):
                continue
            ds = [d] if not lst or d is None else [[], [d], [d, d], d]
            for dd in ds:
                f = {"name": "opt", "type": ("list-" if lst else "") + t, **r}
                if dd is not None:
                    f["default"] = dd
                for ctl in [None] + CONTROLS:
                    for layout in ("sections", "fields", "mixed"):
                        g = dict(f)
                        if ctl is not None:
                            g["dependency"] = {"name": "ctl", "values": ctl[1]}
                        fc = {"name": "ctl", "type": ctl[0]} if ctl else None
                        if layout == "sections":  # the option comes before the one it depends on
                            S = {"version": "7", "sections": [{"name": "S", "fields": [g]}]}
                            if fc:
                                S["sections"].append({"name": "C", "fields": [fc]})
                        elif layout == "fields":
                            S = {"version": "7", "fields": [{**g, "section": "S"}] + ([{**fc, "section": "C"}] if fc else [])}
                        else:
                            S = {"version": "7", "sections": [{"name": "S", "fields": [g]}], "fields": [{**fc, "section": "C"}] if fc else []}
                        check_schema(res, S, ConfigurationSchema, texts, ctl, lst)
                if len(res.problems) > 20:
                    return


def check_schema(res, S, cls, texts, ctl, lst):
    ok = schema_ok(S)
    try:
        obj = quiet(cls, json.dumps(S))
    except Exception as e:
        obj = None
        err = e
    res.evaluations += 1
    res.nontrivial += 1
    if not ok:
        if obj is not None:
            res.bad("schema accepted", f"schema {json.dumps(S)} is contradictory, but is accepted")
        return
    if obj is None:
        res.bad("schema refused", f"schema {json.dumps(S)} is refused: {err!r:.150}")
        return
    for c in ctl[2] if ctl else [None]:
        tx = list(texts)
        if lst:
            nums = [x for x in texts[1:] if NUM.match(x or "")]
            tx += ["[%s, %s]" % (a, b) for a, b in zip(texts[1:], texts[2:]) if NUM.match(a) and NUM.match(b)] + ["[]"]
            # every number at every place of a longer list
            if nums:
                ok = [x for x in nums if x in ("3", "3.0", "1", "5")] or nums
                tx += ["[%s]" % ", ".join([ok[0]] * i + [x] + [ok[0]] * (n - 1 - i)) for n in (3, 4) for i in range(n) for x in nums]
            if any(f["type"] == "list-int" for _, f in fields_of(S)):
                tx = [x for x in tx if x is None or "." not in x]
        for x in tx:
            conf = {}
            if c is not None:
                conf["C"] = {"ctl": c}
            if x is not None:
                conf.setdefault("S", {})["opt"] = x
            if not conf:
                conf = {"Z": {}}
            compare(res, "generated schema", f"schema {json.dumps(S)}, opt={x!r}, ctl={c!r}", obj, S, conf, text_of(conf), full=False)


def run_badschema(case, res):
    from common.configuration_schema import ConfigurationSchema

    good = {"version": "1", "sections": [{"name": "S", "fields": [{"name": "a", "type": "int"}]}]}

    def variant(fn):
        s = copy.deepcopy(good)
        fn(s)
        return s

    fld = lambda s: s["sections"][0]["fields"][0]  # noqa: E731
    bad = {
        "no version": lambda s: s.pop("version"),
        "no name": lambda s: fld(s).pop("name"),
        "no type": lambda s: fld(s).pop("type"),
        "unknown type": lambda s: fld(s).update(type="integer"),
        "no section name": lambda s: s["sections"][0].pop("name"),
        "no fields": lambda s: s["sections"][0].pop("fields"),
        "default of another type": lambda s: fld(s).update(default="abc"),
        "min above max": lambda s: fld(s).update(min=3, max=2),
        "min and selectables": lambda s: fld(s).update(min=3, selectables=[4]),
        "max and selectables": lambda s: fld(s).update(max=3, selectables=[1]),
        "default below min": lambda s: fld(s).update(min=3, default=2),
        "default not selectable": lambda s: fld(s).update(selectables=[1, 2], default=3),
        "dependency without name": lambda s: fld(s).update(dependency={"values": [1]}),
        "dependency without values": lambda s: fld(s).update(dependency={"name": "b"}),
        "a field of the top list without section": lambda s: s.update(fields=[{"name": "c", "type": "int"}]),
    }
    for what, fn in bad.items():
        try:
            quiet(ConfigurationSchema, json.dumps(variant(fn)))
            res.check(False, "schema accepted", f"schema with {what} is accepted")
        except Exception:
            res.check(True, "", "")
    for text in ("", "{", "[]", "not json"):
        try:
            quiet(ConfigurationSchema, text)
            res.check(False, "schema accepted", f"schema text {text!r} is accepted")
        except Exception:
            res.check(True, "", "")
    # a condition on an option that does not exist cannot be decided
    s = variant(lambda s: fld(s).update(dependency={"name": "b", "values": [1]}, default=3))
    from common.configuration import Configuration

    try:
        quiet(Configuration, "[S]\na=3\n", ConfigurationSchema(json.dumps(s)), False)
        res.check(False, "dependency", "an option depending on one that does not exist is accepted")
    except Exception:
        res.check(True, "", "")


def run_history(case, res):
    """No load influences another: defaults and copies do not share lists."""
    from common.configuration import Configuration
    from common.configuration_schema import ConfigurationSchema

    js = schema_json()
    S = json.loads(js)
    a = BASES["sw"]  # lists from defaults
    b = BASES["euler"]  # lists from the file
    want = {"a": expected_full(S, a), "b": expected_full(S, b)}
    ops = ["load a", "load b", "spoil", "copy", "spoil copy"]
    for seq in itertools.product(ops, repeat=case["depth"]):
        obj = ConfigurationSchema(js)
        live = []  # (configuration, which, spoilt)
        for op in seq:
            if op.startswith("load"):
                w = op[-1]
                live.append([quiet(Configuration, text_of({"a": a, "b": b}[w]), obj), w, False])
            elif live and op == "copy":
                live.append([copy.deepcopy(live[-1][0]), live[-1][1], live[-1][2]])
            elif live and op.startswith("spoil"):
                x = live[0] if op == "spoil" else live[-1]
                c = x[0]
                c.exp_smoothe_spectral_radii.append(99.0)
                c.exp_smoothe_num_iters[0] = 77
                c.num_solpts = 41
                c.sections.setdefault("Grid", []).append("zzz")
                x[2] = True
            res.transitions += 1
        res.states += 1
        res.evaluations += 1
        res.nontrivial += 1
        for i, (c, w, spoilt) in enumerate(live):
            if not spoilt:
                before = len(res.problems)
                check_values(res, "history", f"after {seq}, configuration {i}", S, want[w], c)
                if "zzz" in c.sections["Grid"]:
                    res.bad("history: sections", f"after {seq}, configuration {i} shares its list of sections")
                if len(res.problems) > before + 20:
                    return


RUN = {
    "single": run_single, "pairs": run_pairs, "layout": run_layout, "shipped": run_shipped, "schema": run_schema,
    "badschema": run_badschema, "history": run_history,
}


def run_case(case):
    res = Result()
    RUN[case["kind"]](case, res)
    return res
