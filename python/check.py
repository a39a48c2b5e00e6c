"""C02: the Python package returns, element by element, what the core library returns.

Every class and method is found by introspection of the extension module, built from /repo's working tree; the oracle is
the Rust harness in its serve mode, which evaluates the core's model objects. Arrays of every shape and memory layout are
generated by hypothesis, which also shrinks a failure to the case that is written to the replay file."""
import json
import math
import multiprocessing
import os
import subprocess
import sys
import time
import traceback
import types

sys.path.insert(0, os.environ["VERIF_PYMOD"])
import numpy as np
from hypothesis import HealthCheck, Phase, given, seed as hseed, settings, strategies as st
import polymers

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHAIN = ("number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "well_width", "persistance_length")
LOADS = ("force", "nondimensional_force", "end_to_end_length", "nondimensional_end_to_end_length_per_link",
         "potential_distance", "nondimensional_potential_distance")
KB = 8.314462618


class Oracle:
    def __init__(self):
        self.p = subprocess.Popen([ROOT + "/target/release/harness", "serve", "--limit", "20000"], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, text=True)
        self.memo = {}

    def ask(self, lines):
        new = [l for l in dict.fromkeys(lines) if l not in self.memo]
        if new:
            self.p.stdin.write("\n".join(new) + "\n\n")
            self.p.stdin.flush()
            for l in new:
                self.memo[l] = self.p.stdout.readline().split()
        r = [self.memo[l] for l in lines]
        if len(self.memo) > 200000:
            self.memo.clear()
        return r


def params(sig):
    return [a.strip() for a in sig.strip("()").split(",") if a.strip() and a.strip() not in ("$self", "/")]


def sites():
    """(model path, module below it, method, its parameters, the class's parameters) of every method of every class"""
    r = []

    def walk(m, path):
        for n in sorted(vars(m)):
            a = getattr(m, n)
            if isinstance(a, types.ModuleType) and not n.startswith("_"):
                walk(a, path + (n,))
            elif isinstance(a, type):
                sig = params(a.__text_signature__)
                methods = []
                for k in sorted(vars(a)):
                    f = vars(a)[k]
                    if not k.startswith("__") and callable(f):
                        methods.append((k, params(f.__text_signature__)))
                r.append((path, n, sig, methods))
    walk(polymers, ())
    return r


def resolve(path):
    m = polymers
    for p in path:
        m = getattr(m, p)
    return m


def model_of(path):
    return path[2] if path[2] != "ufjc" else path[3]


def depth_of(path):
    return 4 if path[2] == "ufjc" else 3


def cap(model, c):
    """largest nondimensional force to use"""
    if model == "swfjc":
        return 500.0 / (1.0 + c["w"])
    if model == "morse":
        return 0.9 * math.sqrt(c["kappa"] * c["eps"] / 8)
    if model == "log_squared":
        return 0.9 * c["kappa"] / math.e
    if model == "lennard_jones":
        return 0.9 * c["kappa"] * 0.0373
    return 300.0


def logu(lo, hi):
    return st.floats(0.0, 1.0).map(lambda x: lo * (hi / lo) ** x)


SHAPES = ["1", "n", "n", "n", "empty", "zero-d", "2d", "3d", "fortran", "stride", "reversed", "slice", "readonly"]


# mostly short; some around the sizes at which something might be done in blocks
SIZES = [2, 3, 4, 5, 6, 7, 8, 9] * 6 + [12, 16, 17, 24, 32, 33, 50, 64, 65, 100, 128, 129, 256, 257]


@st.composite
def layout(draw):
    kind = draw(st.sampled_from(SHAPES))
    n = 1 if kind in ("1", "zero-d") else 0 if kind == "empty" else draw(st.sampled_from(SIZES))
    return kind, n


def stretch_out(x, n):
    """n values made of the few drawn ones: none twice, all in the range of those drawn or somewhat below"""
    return [x[i % len(x)] * (1.0 - 0.4 * ((i * 0.6180339887) % 1.0)) for i in range(n)]


def build(kind, v):
    """an array of the values v in the given shape and memory layout; its elements in C order are returned as well"""
    v = np.array(v, dtype=np.float64)
    if kind == "zero-d":
        a = np.array(v[0])
    elif kind == "2d":
        a = np.stack([v, v[::-1] * 0.9])
    elif kind == "3d":
        a = np.stack([np.stack([v, v * 0.8]), np.stack([v[::-1], v * 0.7])])
    elif kind == "fortran":
        a = np.asfortranarray(np.stack([v, v[::-1] * 0.9]))
    elif kind == "stride":
        b = np.full(2 * len(v), 0.123)
        b[::2] = v
        a = b[::2]
    elif kind == "reversed":
        a = v[::-1].copy()[::-1]
    elif kind == "slice":
        b = np.full(len(v) + 4, 0.321)
        b[2:-2] = v
        a = b[2:-2]
    else:
        a = v
    if kind == "readonly":
        a.flags.writeable = False
    return a


COORD = st.one_of(st.floats(0.02, 0.9), logu(1e-3, 0.9), logu(1e-3, 0.9))


@st.composite
def chain_case(draw, path, cls_args, func, args):
    model = model_of(path)
    iso = "isotensional" not in path
    c = {"n": draw(st.one_of(st.integers(3, 26), st.sampled_from([3, 4, 8, 25, 26]))), "l": draw(logu(0.2, 5.0)), "m": draw(logu(0.1, 10.0)),
         "t": draw(st.floats(200.0, 400.0))}
    if model != "fjc" or not iso:
        c["n"] = draw(st.one_of(st.integers(3, 40), st.integers(3, 255))) if "distribution" not in func else c["n"]
    if "link_stiffness" in cls_args:
        c["kappa"] = draw(logu(60.0, 1500.0))
    if "link_energy" in cls_args:
        c["eps"] = draw(logu(5.0, 100.0))
    if "well_width" in cls_args:
        c["w"] = draw(logu(0.1, 2.0))
    if "persistance_length" in cls_args:
        c["lp"] = draw(logu(0.03, 2.0))
    c["pk"] = draw(logu(0.02, 2.0)) if "weak_potential" not in path else draw(logu(1e-4, 1e-2))
    kind, n = draw(layout())
    c["kind"] = kind
    c["x"] = [draw(COORD) for _ in range(min(n, 9))]
    if n > 9:
        c["x"] = stretch_out(c["x"], n)
    c["route"] = draw(st.integers(0, len(path) - depth_of(path)))
    c["arg"] = func
    return c


def realise(path, cls_args, args, c):
    """constructor arguments, the load array and the remaining arguments of a case"""
    model = model_of(path)
    kt = KB * c["t"]
    con = {"number_of_links": c["n"], "link_length": c["l"], "hinge_mass": c["m"]}
    if "kappa" in c:
        con["link_stiffness"] = c["kappa"] * kt / c["l"] ** 2
    if "eps" in c:
        con["link_energy"] = c["eps"] * kt
    if "w" in c:
        con["well_width"] = c["w"] * c["l"]
    if "lp" in c:
        con["persistance_length"] = c["lp"] * c["n"] * c["l"]
    sw = 1.0 + c.get("w", 0.0)
    rest = {"temperature": c["t"], "potential_stiffness": c["pk"] * kt / c["l"] ** 2, "nondimensional_potential_stiffness": c["pk"]}
    a = build(c["kind"], c["x"])
    load = args[0]
    dist = 1.0 if "strong_potential" in path else 2.0
    if load == "nondimensional_force":
        a = a * cap(model, c)
    elif load == "force":
        a = a * (cap(model, c) * kt / c["l"])
    elif load == "nondimensional_end_to_end_length_per_link":
        a = a * sw
    elif load == "end_to_end_length":
        a = a * (sw * c["n"] * c["l"])
    elif load == "potential_distance":
        a = a * (dist * c["n"] * c["l"])
    elif load == "nondimensional_potential_distance":
        a = a * dist
    else:
        raise RuntimeError("unknown load " + load)
    a = np.asarray(a)
    if c["kind"] in ("fortran", "stride", "reversed", "slice", "readonly"):
        a = relay(c["kind"], a)
    return [con[k] for k in cls_args], con, a, [rest[k] for k in args[1:]], rest


def relay(kind, a):
    """arithmetic returns a fresh array: give it the layout again"""
    if kind == "fortran":
        return np.asfortranarray(a)
    b = build(kind, a.ravel())
    return b


class Bad(AssertionError):
    pass


def near(got, want, tol):
    if math.isnan(got) or math.isnan(want):
        return math.isnan(got) and math.isnan(want)
    return got == want or abs(got - want) <= tol


def instance(path, cls, con, route):
    """the object of a module: built directly, or reached from one built route levels above it"""
    if route == 0:
        return getattr(resolve(path), cls)(*con)
    up = path[:len(path) - route]
    m = resolve(up)
    name = [k for k in vars(m) if isinstance(getattr(m, k), type)][0]
    o = getattr(m, name)(*con)
    for p in path[len(path) - route:]:
        o = getattr(o, p)
    return o


def run_chain(oracle, path, cls, cls_args, func, args, c):
    """returns the number of elements compared"""
    con, named, a, rest, restn = realise(path, cls_args, args, c)
    o = instance(path, cls, con, c["route"])
    for k in cls_args:
        if getattr(o, k) != named[k]:
            raise Bad(f"attribute {k} is {getattr(o, k)!r}, built with {named[k]!r}")
    before = a.copy()
    module = "/".join(path[2:])
    pre = f"chain {module} {func} " + " ".join(f"{k}={named[k]!r}" for k in cls_args) + " " + " ".join(f"{k}={v!r}" for k, v in restn.items()) + f" {args[0]}="
    lines = [pre + repr(float(x)) for x in a.ravel(order="C")]
    try:
        r = getattr(o, func)(a, *rest)
    except BaseException as e:
        if type(e).__name__ == "PanicException" and any(x[0] == "panic" for x in oracle.ask(lines)):
            return 0  # so does the core
        raise
    if not np.array_equal(a, before):
        raise Bad("the argument array was modified")
    if not isinstance(r, np.ndarray) or r.dtype != np.float64:
        raise Bad(f"returned {type(r).__name__} {getattr(r, 'dtype', '')}")
    if r.shape != a.shape:
        raise Bad(f"argument of shape {a.shape}, result of shape {r.shape}")
    cmp = 0
    for x, got, ans in zip(a.ravel(order="C"), r.ravel(order="C"), oracle.ask(lines)):
        if ans[0] == "unknown":
            raise RuntimeError("the core has no " + module + " " + func)
        if ans[0] == "panic":
            continue
        want, noise = float(ans[0]), float(ans[1])
        if math.isnan(noise):
            continue
        if "modified_canonical" in path:
            noise = 0.0  # the arguments are passed on as they are: nothing to amplify
        cmp += 1
        if not near(float(got), want, 1e-9 * abs(want) + 40.0 * noise):
            raise Bad(f"at {args[0]}={x!r}: got {float(got)!r}, the core returns {want!r}")
    return cmp


@st.composite
def constitutive_case(draw, damage, func):
    c = {"method": draw(st.sampled_from([2, 3])), "kappa": draw(logu(20.0, 500.0)), "n": draw(st.integers(3, 60))}
    if damage:
        c["gc"] = draw(st.floats(0.4, 1.4))
        c["j"] = draw(st.one_of(st.just(1.0), st.floats(0.8, 2.0)))
        kind = draw(st.sampled_from(["1", "n", "n", "n", "empty", "stride", "reversed", "slice", "readonly"]))
    else:
        kind = draw(st.sampled_from(SHAPES))
    n = 1 if kind in ("1", "zero-d") else 0 if kind == "empty" else draw(st.integers(2, 6))
    c["kind"] = kind
    c["x"] = [draw(st.floats(1.0 if damage else 0.5, 3.0)) for _ in range(n)]
    return c


def run_constitutive(oracle, path, cls, cls_args, func, c):
    a = build(c["kind"], c["x"])
    vals = {"method": c["method"], "nondimensional_link_stiffness": c["kappa"], "number_of_links": c["n"],
            "nondimensional_critical_extension": c.get("gc"), "swelling_ratio": c.get("j")}
    o = getattr(resolve(path), cls)(*[vals[k] for k in cls_args])
    for k in cls_args:
        if hasattr(o, k) and getattr(o, k) != vals[k]:
            raise Bad(f"attribute {k} is {getattr(o, k)!r}, built with {vals[k]!r}")
    r = getattr(o, func)(a)
    xs = " ".join(repr(float(x)) for x in a.ravel(order="C"))
    damage = "damage" in path[1]
    if a.size == 0:
        n = [x.size for x in (r if damage else [r])]
        if any(n):
            raise Bad("an empty argument gave a non-empty result")
        return 0
    if damage:
        ans = oracle.ask([f"damage {c['method']} {c['gc']!r} {c['kappa']!r} {c['n']} {c['j']!r} {xs}"])[0]
    else:
        ans = oracle.ask([f"{func} {c['method']} {c['kappa']!r} {c['n']} {xs}"])[0]
    if ans[0] == "panic":
        raise Bad("the core panicked, the package returned")
    want = [float(x) for x in ans]
    if damage:
        if not (isinstance(r, tuple) and len(r) == 2):
            raise Bad("not a pair of arrays")
        got = [float(x) for p in zip(r[0].ravel(), r[1].ravel()) for x in p]
        if r[0].size != a.size or r[1].size != a.size:
            raise Bad(f"{a.size} stretches gave {r[0].size} and {r[1].size} values")
    else:
        if r.shape != a.shape:
            raise Bad(f"argument of shape {a.shape}, result of shape {r.shape}")
        got = [float(x) for x in r.ravel(order="C")]
    for i, (g, w) in enumerate(zip(got, want)):
        if not near(g, w, 1e-8 * abs(w) + 1e-10):
            raise Bad(f"value {i}: got {g!r}, the core returns {w!r}")
    return len(want)


def site_run(oracle, site, c):
    path, cls, cls_args, func, args = site
    if path[0] == "constitutive":
        return run_constitutive(oracle, path, cls, cls_args, func, c)
    return run_chain(oracle, path, cls, cls_args, func, args, c)


def site_strategy(site):
    path, cls, cls_args, func, args = site
    if path[0] == "constitutive":
        return constitutive_case("damage" in path[1], func)
    return chain_case(path, cls_args, func, args)


def check_site(oracle, site, seed, cases):
    stat = {"evaluations": 0, "elements": 0, "distinct": set(), "samples": [], "kinds": {}}
    last = {}

    @settings(max_examples=cases, database=None, deadline=None, derandomize=False, print_blob=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])
    @hseed(seed)
    @given(site_strategy(site))
    def test(c):
        last["c"] = c
        try:
            n = site_run(oracle, site, c)
        except Bad as e:
            last["bad"] = (c, str(e))
            raise
        except RuntimeError:
            raise
        except BaseException as e:  # PanicException is not an Exception
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            last["bad"] = (c, f"{type(e).__name__}: {e}")
            raise Bad(str(e)) from None
        stat["evaluations"] += 1
        stat["elements"] += n
        stat["kinds"][c["kind"]] = stat["kinds"].get(c["kind"], 0) + 1
        if n > 0 or c["kind"] == "empty":
            stat["distinct"].add(json.dumps(c, sort_keys=True))
        if len(stat["samples"]) < 1 and n > 1:
            stat["samples"].append(c)
    bad = None
    try:
        test()
    except Bad:
        bad = last["bad"]
    stat["distinct"] = len(stat["distinct"])
    return stat, bad


def label(site):
    return ".".join(site[0]) + "." + site[1] + "." + site[3]


def all_sites():
    return [(p, c, a, f, fa) for p, c, a, ms in sites() for f, fa in ms]


def attributes_only():
    """classes that only carry parameters and deeper objects: these are checked through the routes as well"""
    return [(p, c, a) for p, c, a, ms in sites() if not ms]


def work(job):
    idx, seed, cases = job
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2) if not work.loud else None
    if work.oracle is None:
        work.oracle = Oracle()
        work.sites = all_sites()
    site = work.sites[idx]
    n = cases if site[0][0] != "constitutive" else max(6, cases // 2)
    try:
        return idx, check_site(work.oracle, site, seed * 100003 + idx, n), None
    except BaseException:
        return idx, None, label(site) + "\n" + traceback.format_exc()


work.oracle = None
work.loud = False


def containers(seed):
    """objects without methods: their parameters, and the parameters of everything below them"""
    rng = np.random.default_rng(seed)
    n = 0
    for path, cls, args in attributes_only():
        for _ in range(5):
            vals = {k: (int(rng.integers(1, 256)) if k == "number_of_links" else float(rng.uniform(0.1, 0.9))) for k in args}
            if "number_of_links" in vals and model_of(path) in ("fjc", "wlc", "swfjc"):
                vals["number_of_links"] = int(rng.integers(3, 26))
            o = getattr(resolve(path), cls)(*[vals[k] for k in args])

            def down(o, where, depth):
                nonlocal n
                for k in args:
                    n += 1
                    if getattr(o, k) != vals[k]:
                        return f"{where}: attribute {k} is {getattr(o, k)!r}, built with {vals[k]!r}"
                for k in dir(o):
                    a = getattr(o, k)
                    if not k.startswith("_") and type(a).__module__ == "builtins" and type(a).__name__ == type(o).__name__ and depth < 8:
                        bad = down(a, where + "." + k, depth + 1)
                        if bad:
                            return bad
                return None
            bad = down(o, ".".join(path) + "." + cls, 0)
            if bad:
                return n, (path, cls, vals, bad)
    return n, None


def main():
    argv = sys.argv[1:]

    def opt(k, d):
        return argv[argv.index(k) + 1] if k in argv else d
    thorough = "--thorough" in argv
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    if "--replay" in argv:
        path = opt("--replay", "")
        v = json.load(open(path))
        site = [s for s in all_sites() if label(s) == v["check"]]
        if not site:
            n, bad = containers(v["seed"])
        else:
            bad = None
            try:
                site_run(Oracle(), site[0], v["input"])
            except RuntimeError as e:
                print("ERROR:", e)
                sys.exit(2)
            except BaseException as e:
                bad = f"{type(e).__name__}: {e}"
        if bad:
            print(bad)
            print(f"VIOLATION property=C02 replay={path}")
            sys.exit(1)
        print("holds")
        return
    t0 = time.time()
    s = all_sites()
    if "--only" in argv:
        keep = [i for i in range(len(s)) if opt("--only", "") in label(s[i])]
    else:
        keep = list(range(len(s)))
    cases = int(opt("--cases", "400" if thorough else "48"))
    ncont, cbad = containers(seed)
    with multiprocessing.Pool(8) as pool:
        res = pool.map(work, [(i, seed, cases) for i in keep], chunksize=1)
    errors = [e for _, _, e in res if e]
    if errors:
        print(errors[0], file=sys.stderr)
        print(f"ERROR: {len(errors)} methods could not be checked", file=sys.stderr)
        sys.exit(2)
    os.makedirs(ROOT + "/replays", exist_ok=True)
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    viol, per, ev, nt, el, samples, kinds = [], {}, ncont, 0, 0, [], {}
    for idx, (stat, bad), _ in res:
        name = label(s[idx])
        per[name] = {"evaluations": stat["evaluations"], "elements_compared": stat["elements"], "distinct_nontrivial": stat["distinct"]}
        ev += stat["evaluations"]
        nt += stat["distinct"]
        el += stat["elements"]
        for k, n in stat["kinds"].items():
            kinds[k] = kinds.get(k, 0) + n
        if stat["samples"] and len(samples) < 12 and idx % 97 == 3:
            samples.append({"method": name, "input": stat["samples"][0]})
        if bad:
            viol.append((name, bad[0], bad[1]))
    if not samples:
        samples = [{"method": label(s[i]), "input": r[0]["samples"][0]} for i, r, _ in res if r[0]["samples"]][:5]
    if cbad:
        viol.append((".".join(cbad[0]) + "." + cbad[1], cbad[2], cbad[3]))
    out = []
    for i, (name, c, msg) in enumerate(viol):
        p = f"{ROOT}/replays/C02-{os.getpid()}-{i}.json"
        json.dump({"property": "C02", "check": name, "input": c, "message": msg, "seed": seed,
                   "tier": "thorough" if thorough else "quick", "how": "/verif/check.sh --replay <this file>"}, open(p, "w"), indent=1)
        if i < 40:
            print(f"{name} at {json.dumps(c)}: {msg}")
            print(f"VIOLATION property=C02 replay={p}")
        out.append({"check": name, "input": c, "message": msg, "replay": p})
    wall = time.time() - t0
    if "--only" not in argv and "--cases" not in argv:
        json.dump({"property": "C02", "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration",
                   "coverage": {"evaluations": ev, "distinct_nontrivial": nt, "elements_compared": el, "attribute_comparisons": ncont,
                                "array_layouts": kinds,
                                "rule": "hypothesis draws a chain (or network), a route to the object (built directly or reached from any ancestor), an array of 0 to 36 loads in one of eleven shapes and memory layouts; a case is non-trivial if it is new and at least one element was compared with the core (or the array was empty, as drawn)",
                                "samples": samples, "per_check": per, "violations": out},
                   "wall_s": wall, "violations": len(out)}, open(ROOT + "/evidence/C02.json", "w"), indent=1)
    print(f"C02: {ev} evaluations, {el} elements, {nt} distinct non-trivial, {len(keep)} methods, {len(viol)} violations, {wall:.1f} s")
    if viol:
        sys.exit(1)
    if nt == 0:
        print("ERROR: nothing non-trivial was generated", file=sys.stderr)
        sys.exit(2)


main()
