"""P20: configuration precedence."""
import argparse
import copy
import os
import tempfile

import numpy as np
import yaml
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import scene as L

ASSUMPTIONS = ["configuration files hold at least one option", "None stands for 'not given', as in the parsers' own defaults",
               "shell variables are expanded in string options, not inside lists"]

WORD = st.text(alphabet="abcdxyzF0123456789_./", min_size=1, max_size=8).filter(lambda s: not s[0].isdigit() and s not in ("y", "n", ".", "_") and s.strip("._/") != "")
VARWORD = st.one_of(WORD, WORD, WORD.map(lambda w: "$FPCHK_A/" + w), WORD.map(lambda w: w + "/${FPCHK_B}"))
INT = st.integers(-1000, 100000)
FLOAT = L.rnd(-100, 1e4, 4)


def expand(s):
    return s.replace("$FPCHK_A", "/aa/b").replace("${FPCHK_B}", "cc d")


VALS = dict(int=INT, float=FLOAT, str=VARWORD, flist2=st.lists(L.mostly(FLOAT, st.integers(-9, 99), 2), min_size=2, max_size=2), slist=st.lists(WORD, max_size=3),
            ilist=st.lists(st.integers(0, 999), min_size=1, max_size=3))
TYPES = dict(int=int, float=float, str=str, flist2=float, slist=str, ilist=int)
NARGS = dict(flist2=2, slist="*", ilist="+")
NAMES = ["outbase", "gtol", "warmup", "warmup_extra", "dpos", "sqrtq_range", "pa_range", "rhalf_range", "sersic_range", "n_pix", "pixscale", "n_sig_flux",
         "strict", "bandlist", "band", "psfstorefile", "pixelstorefile", "metastorefile", "alpha", "alphabet"]
KIND = dict(outbase="str", gtol="float", warmup="ilist", warmup_extra="int", dpos="flist2", sqrtq_range="flist2", pa_range="flist2", rhalf_range="flist2",
            sersic_range="flist2", n_pix="float", pixscale="float", n_sig_flux="float", strict="int", bandlist="slist", band="str", psfstorefile="str",
            pixelstorefile="str", metastorefile="str", alpha="int", alphabet="str")
BKEYS = ["sqrtq_range", "sersic_range", "rhalf_range", "pa_range", "dpos", "n_sig_flux", "n_pix", "pixscale"]


def opt_st(name):
    v = VALS[KIND[name]]
    return st.fixed_dictionaries(dict(name=st.just(name), default=st.one_of(st.none(), v), yaml=st.one_of(st.none(), st.none(), v),
                                      cli=st.one_of(st.none(), st.none(), v), spell=st.sampled_from(["space", "space", "equals", "prefix", "short"]),
                                      same=st.sampled_from([False, False, True])))


def case_st():
    return st.lists(st.sampled_from(NAMES), min_size=1, max_size=9, unique=True).flatmap(
        lambda ns: st.fixed_dictionaries(dict(
            opts=st.tuples(*[opt_st(n) for n in ns]), extra=st.dictionaries(st.sampled_from(["note", "grid", "flag", "nested"]), st.one_of(INT, WORD, st.booleans(), st.lists(INT, max_size=3)), max_size=2),
            dt=st.sampled_from([None, "float32", "float64"]), dty=st.sampled_from([None, "float32", "float64"]), dtc=st.sampled_from([None, "float32", "float64"]),
            where=st.sampled_from(["cli", "cli", "default", "cli=", "none", "both"]), store=st.sampled_from([None, None, "yaml", "cli", "default"]),
            order=st.randoms(use_true_random=False).map(lambda r: r.randint(0, 10 ** 6)), args=st.booleans())))


def texts(v):
    if isinstance(v, list):
        return [str(x) if isinstance(x, str) else repr(x) for x in v]
    return [v if isinstance(v, str) else repr(v)]


def same(a, b):
    if isinstance(b, list):
        return isinstance(a, np.ndarray) and a.shape == np.shape(b) and (len(b) == 0 or np.array_equal(a, np.array(b)))
    if isinstance(b, float):
        return isinstance(a, float) and a == b
    return type(a) is type(b) and a == b


def body(case, info):
    from forcepho import config as C
    os.environ["FPCHK_A"], os.environ["FPCHK_B"] = "/aa/b", "cc d"
    opts = [dict(o) for o in case["opts"]]
    # only the files' own names are joined; give stores a name
    names = [o["name"] for o in opts]
    for o in opts:
        if o["same"] and o["default"] is not None and o["yaml"] is not None:
            o["cli"] = copy.deepcopy(o["default"])     # an option set back to its default on the command line
    parser = argparse.ArgumentParser()
    shorts = {}
    for k, o in enumerate(opts):
        kw = dict(type=TYPES[KIND[o["name"]]], default=copy.deepcopy(o["default"]))
        if KIND[o["name"]] in NARGS:
            kw["nargs"] = NARGS[KIND[o["name"]]]
        shorts[o["name"]] = "-" + "abcdefgijk"[k]
        parser.add_argument("--" + o["name"], shorts[o["name"]], **kw)
    parser.add_argument("--pix_dtype", type=str, default=case["dt"] or "float32")
    d = tempfile.mkdtemp(dir=".")
    yml = os.path.abspath(os.path.join(d, "c.yml"))
    ydict = {o["name"]: o["yaml"] for o in opts if o["yaml"] is not None}
    ydict.update(case["extra"])
    if case["dty"]:
        ydict["pix_dtype"] = case["dty"]
    sdir = None
    argv = []
    if case["store"] == "yaml":
        ydict["store_directory"] = sdir = "/st/$FPCHK_A"
    elif case["store"] == "default":
        parser.add_argument("--store_directory", default="/sd")
        sdir = "/sd"
    elif case["store"] == "cli":
        parser.add_argument("--store_directory", default="/sd")
        argv.append(["--store_directory", "/sc"])
        sdir = "/sc"
    if not ydict:
        ydict["note"] = 3
    with open(yml, "w") as f:
        yaml.dump(ydict, f)
    other = os.path.abspath(os.path.join(d, "other.yml"))
    with open(other, "w") as f:
        yaml.dump(dict(note="wrong file", **{n: "wrong" for n in names}), f)
    if case["where"] in ("default", "both"):
        parser.add_argument("--config_file", default=yml if case["where"] == "default" else other)
    else:
        parser.add_argument("--config_file", default=None)
    if case["where"] in ("cli", "both"):
        argv.append(["--config_file", yml])
    elif case["where"] == "cli=":
        argv.append(["--config_file=" + yml])
    used_yaml = case["where"] != "none"
    if not used_yaml and case["store"] == "yaml":
        sdir = None
    allopts = [a for act in parser._actions for a in act.option_strings if a.startswith("--")]
    for o in opts:
        if o["cli"] is None:
            continue
        t = texts(o["cli"])
        flag = "--" + o["name"]
        if o["spell"] == "prefix":
            for k in range(3, len(flag)):
                if sum(x.startswith(flag[:k]) for x in allopts) == 1:
                    flag = flag[:k]
                    break
        if o["spell"] == "short" and not any(x.startswith("-") for x in t):
            argv.append([shorts[o["name"]]] + t)
        elif o["spell"] == "equals" and len(t) == 1:
            argv.append([flag + "=" + t[0]])
        elif len(t) == 1 and t[0].startswith("-"):
            argv.append([flag + "=" + t[0]])
        else:
            argv.append([flag] + t)
    if case["dtc"]:
        argv.append(["--pix_dtype", case["dtc"]])
    np.random.RandomState(case["order"]).shuffle(argv)
    argv = [x for a in argv for x in a]
    # negative numbers in lists look like options to argparse only when options look like numbers
    try:
        cfg = C.parse_all(parser, ["prog"] + argv)
    except SystemExit:
        raise AssertionError("the command line %s was refused" % argv)
    want = {}
    for o in opts:
        v = o["default"]
        if used_yaml and o["yaml"] is not None:
            v = o["yaml"]
        if o["cli"] is not None:
            v = o["cli"]
        want[o["name"]] = copy.deepcopy(v)
    if used_yaml:
        want.update({k: v for k, v in ydict.items() if k not in want and k not in ("pix_dtype", "store_directory")})
    if sdir:
        for sname in ("psfstorefile", "pixelstorefile", "metastorefile"):
            if want.get(sname) is not None:
                want[sname] = os.path.join(sdir, want[sname])
    for k, v in want.items():
        if isinstance(v, str):
            v = expand(v)
        check(hasattr(cfg, k), "option %s is missing", k)
        check(same(getattr(cfg, k), v), "option %s is %r, expected %r (command line %s, file %s)", k, getattr(cfg, k), v, argv, ydict if used_yaml else None)
    dt = case["dt"] or "float32"
    if used_yaml and case["dty"]:
        dt = case["dty"]
    if case["dtc"]:
        dt = case["dtc"]
    check(np.dtype(cfg.pix_dtype) == np.dtype(dt) and cfg.pix_dtype is not dt, "pix_dtype is %r, expected %s", cfg.pix_dtype, dt)
    bk = {k for k in BKEYS if want.get(k) is not None}
    check(set(cfg.bounds_kwargs) == bk, "bounds settings %s, expected %s", sorted(cfg.bounds_kwargs), sorted(bk))
    for k in bk:
        check(np.array_equal(cfg.bounds_kwargs[k], want[k]), "bounds setting %s is %r", k, cfg.bounds_kwargs[k])
    # nothing else appears, and the parser still has its defaults
    stray = set(vars(cfg)) - set(want) - {"pix_dtype", "store_directory", "config_file", "bounds_kwargs"}
    check(not stray, "options %s come from nowhere", stray)
    p2 = parser.parse_args([])
    for o in opts:
        check(getattr(p2, o["name"]) == o["default"], "the parser's default of %s changed to %r", o["name"], getattr(p2, o["name"]))
    # reading the file alone, with a namespace of overriding arguments
    if case["args"]:
        ns = argparse.Namespace(**{o["name"]: copy.deepcopy(o["cli"]) for o in opts})
        keep = copy.deepcopy(vars(ns))
        cf = C.read_config(yml, ns)
        check(vars(ns) == keep, "read_config changed its arguments")
        for o in opts:
            v = o["cli"] if o["cli"] is not None else o["yaml"]
            if v is None:
                continue
            if case["store"] == "yaml" and o["name"].endswith("storefile"):
                v = os.path.join(ydict["store_directory"], v)
            if isinstance(v, str):
                v = expand(v)
            check(same(getattr(cf, o["name"]), v), "read_config: option %s is %r, expected %r", o["name"], getattr(cf, o["name"]), v)
        nd = C.yaml_to_namespace(copy.deepcopy(ydict))
        check(vars(nd) == ydict, "yaml_to_namespace of a dictionary gives %s", vars(nd))
    ncli = sum(o["cli"] is not None for o in opts)
    info.label("file-" + case["where"], "store-%s" % case["store"], "cli-%d" % min(ncli, 4))
    for o in opts:
        if o["cli"] is not None:
            info.label(o["spell"])
    info.trivial_if(not used_yaml or ncli == 0)


# ---- the real parsers
def real_st():
    return st.fixed_dictionaries(dict(which=st.sampled_from(["fits", "store", "pre"]), pick=st.lists(st.integers(0, 60), min_size=1, max_size=8, unique=True),
                                      lay=st.lists(st.sampled_from(["yaml", "cli", "cli=", "both"]), min_size=8, max_size=8), seed=st.integers(0, 9999)))


def real_body(case, info):
    from forcepho import config as C
    d = tempfile.mkdtemp(dir=".")
    if case["which"] == "pre":
        parser = C.preprocess_config_parser()
    else:
        parser = C.main_config_parser(FITS=case["which"] == "fits")
        fn = os.path.join(d, "default.yml")
        C.default_config_file(fn, FITS=case["which"] == "fits")
        with open(fn) as f:
            check(yaml.safe_load(f) == vars(parser.parse_args([])), "the default configuration file is not the parser's defaults")
    parser.add_argument("--config_file", type=str, default=None)
    acts = [a for a in parser._actions if a.dest not in ("help", "config_file") and a.type in (int, float, str)]
    rs = np.random.RandomState(case["seed"])
    want = {a.dest: a.default for a in acts}
    y, argv = {}, []
    picked = sorted(set(i % len(acts) for i in case["pick"]))
    for k, i in enumerate(picked):
        a = acts[i]
        if "dtype" in a.dest:
            gen = lambda: ["float32", "float64"][rs.randint(2)]
        elif a.type is int:
            gen = lambda: int(rs.randint(0, 500))
        elif a.type is float:
            gen = lambda: round(float(rs.uniform(0.1, 50)), 3)
        else:
            gen = lambda: "w%d" % rs.randint(1000)
        def val():
            return gen() if a.nargs is None else [gen() for _ in range(2)]
        lay = case["lay"][k]
        if lay in ("yaml", "both"):
            y[a.dest] = want[a.dest] = val()
        if lay in ("cli", "both", "cli="):
            v = val()
            want[a.dest] = v
            t = texts(v)
            argv += ["--%s=%s" % (a.dest, t[0])] if lay == "cli=" and a.nargs is None else ["--" + a.dest] + t
    if y:
        with open(os.path.join(d, "c.yml"), "w") as f:
            yaml.dump(y, f)
        argv += ["--config_file", os.path.join(d, "c.yml")]
    cfg = C.parse_all(parser, ["prog"] + argv)
    for k, v in want.items():
        if "dtype" in k:
            check(np.dtype(getattr(cfg, k)) == np.dtype(v), "%s is %r, expected %r", k, getattr(cfg, k), v)
        elif v is None:
            check(getattr(cfg, k) is None, "%s is %r, expected None", k, getattr(cfg, k))
        elif isinstance(v, list):
            check(np.array_equal(getattr(cfg, k), np.array(v)), "%s is %r, expected %r", k, getattr(cfg, k), v)
        else:
            check(getattr(cfg, k) == v, "%s is %r, expected %r", k, getattr(cfg, k), v)
    for k in BKEYS:
        if k in want:
            check(np.array_equal(cfg.bounds_kwargs[k], want[k]), "bounds setting %s is %r, expected %r", k, cfg.bounds_kwargs[k], want[k])
    info.label(case["which"])


def subs():
    return [
        Sub("generated", case_st, body, quick=2400, shards=5, rule="generated option sets, files and command lines with several spellings; values recomputed by a reference merge",
            nontrivial_rule="a configuration file is in use and the command line gives at least one option"),
        Sub("real", real_st, real_body, quick=500, shards=2, rule="the package's own parsers with generated files and command lines"),
    ]
