"""A small stand-in for hydra's composition and instantiation and omegaconf's interpolation (neither is installed).

It follows the documented rules for what the repository's configuration files
use: defaults lists (groups, lists of options, relative entries, `_self_`,
null options, `${group}` references), `@package _global_`, `a.b=value`
overrides, `${path}`, nested and mixed interpolations, resolvers, and
recursive `_target_` instantiation with overriding keyword arguments.
"""
import copy
import importlib
import os
import re
import yaml

RESOLVERS = {"oc.env": lambda n, *d: os.environ.get(n, d[0] if d else "user"), "now": lambda f: "now"}


class Loader(yaml.SafeLoader):
    pass


# omegaconf reads 1e-3 as a number, YAML 1.1 does not
Loader.add_implicit_resolver("tag:yaml.org,2002:float", re.compile(r"""^(?:[-+]?(?:[0-9][0-9_]*)\.[0-9_]*(?:[eE][-+]?[0-9]+)?|[-+]?(?:[0-9][0-9_]*)(?:[eE][-+]?[0-9]+)|\.[0-9_]+(?:[eE][-+][0-9]+)?|[-+]?\.(?:inf|Inf|INF)|\.(?:nan|NaN|NAN))$"""), list("-+0123456789."))


class Cfg(dict):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)

    def __setattr__(self, n, v):
        self[n] = v

    def copy(self):
        return Cfg(self)


def scalar(s):
    return yaml.load(s, Loader)


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(a.get(k), dict):
            merge(a[k], v)
        else:
            a[k] = copy.deepcopy(v) if isinstance(v, (dict, list)) else v
    return a


def _read(d, rel):
    path = os.path.join(d, rel if rel.endswith(".yaml") else rel + ".yaml")
    with open(path) as f:
        text = f.read()
    body = yaml.load(text, Loader) or {}
    glob = re.search(r"^#\s*@package\s+_global_", text, re.M) is not None
    return body, body.pop("defaults", []), glob


def _add(d, rel, pkg, choice, out):
    body, defaults, glob = _read(d, rel)
    if glob:
        pkg = ()
    if "_self_" not in defaults:
        defaults = list(defaults) + ["_self_"]
    here = os.path.dirname(rel)
    for e in defaults:
        if e == "_self_":
            node = {}
            cur = node
            for p in pkg:
                cur = cur.setdefault(p, {})
            merge(cur, body)
            merge(out, node)
        elif isinstance(e, str):
            _add(d, os.path.join(here, e), pkg, choice, out)
        else:
            (g, opt), = e.items()
            if g.startswith("override "):
                continue
            g = g.lstrip("/") if g.startswith("/") else os.path.join(here, g)
            opt = choice.get(g, opt)
            if isinstance(opt, str) and opt.startswith("${"):
                opt = choice[opt[2:-1]]
            if isinstance(opt, str):
                choice.setdefault(g, opt)
            for o in opt if isinstance(opt, list) else [opt]:
                if o is not None:
                    _add(d, os.path.join(g, o), tuple(g.split(os.sep)), choice, out)


def groups(d):
    return {g: sorted(f[:-5] for f in os.listdir(os.path.join(d, g)) if f.endswith(".yaml")) for g in sorted(os.listdir(d)) if os.path.isdir(os.path.join(d, g))}


def compose(d, name, choice=None, add=(), over=None):
    """choice: option per group of the defaults list; add: (group, option) appended; over: dotted overrides."""
    out = {}
    choice = dict(choice or {})
    _add(d, name, (), choice, out)
    for g, o in add:
        _add(d, os.path.join(g, o), tuple(g.split("/")), choice, out)
    for k, v in (over or {}).items():
        ks = k.split(".")
        cur = out
        for p in ks[:-1]:
            cur = cur.setdefault(p, {})
        cur[ks[-1]] = v
    return out


def missing(node, path=()):
    """Paths that must be given on the command line."""
    if isinstance(node, dict):
        return [x for k, v in node.items() for x in missing(v, path + (k,))]
    return [".".join(path)] if node == "???" else []


def _find(s, i):
    """End of the interpolation starting at s[i:] == '${...'."""
    depth, j = 0, i
    while j < len(s):
        if s.startswith("${", j):
            depth += 1
            j += 2
        elif s[j] == "}":
            depth -= 1
            j += 1
            if depth == 0:
                return j
        else:
            j += 1
    raise ValueError(f"unbalanced interpolation {s!r}")


def _text(s, root, seen):
    parts, i = [], 0
    while i < len(s):
        j = s.find("${", i)
        if j < 0:
            parts.append(s[i:])
            break
        if j > i:
            parts.append(s[i:j])
        e = _find(s, j)
        parts.append((_interp(s[j + 2:e - 1], root, seen),))
        i = e
    if len(parts) == 1:
        return parts[0][0] if isinstance(parts[0], tuple) else parts[0]
    return "".join(str(p[0]) if isinstance(p, tuple) else p for p in parts)


def _interp(body, root, seen):
    if body in seen:
        raise ValueError(f"interpolation {body} refers to itself")
    seen = seen | {body}
    m = re.match(r"^([A-Za-z_][\w.]*):(.*)$", body, re.S)
    if m:
        fn = RESOLVERS[m.group(1)]
        args, depth, cur = [], 0, ""
        for c in m.group(2):
            depth += c in "{[(" 
            depth -= c in "}])"
            if c == "," and depth == 0:
                args.append(cur)
                cur = ""
            else:
                cur += c
        args.append(cur)
        vals = []
        for a in args:
            v = _text(a.strip(), root, seen)
            if isinstance(v, str) and "${" not in a:
                v = v if v.startswith("%") else scalar(v)
            vals.append(v)
        return fn(*vals)
    cur = root
    for p in body.split("."):
        if isinstance(cur, str) and "${" in cur:
            cur = _text(cur, root, seen)
        if not isinstance(cur, dict) or p not in cur:
            raise KeyError(f"interpolation key {body} not found")
        cur = cur[p]
    return _resolve(cur, root, seen)


def _resolve(v, root, seen=frozenset()):
    if isinstance(v, dict):
        return Cfg({k: _resolve(x, root, seen) for k, x in v.items()})
    if isinstance(v, list):
        return [_resolve(x, root, seen) for x in v]
    if isinstance(v, str) and "${" in v:
        return _text(v, root, seen)
    return v


def resolve(raw):
    return Cfg({k: _resolve(v, raw) for k, v in raw.items() if k != "hydra"})


def locate(path):
    parts = path.split(".")
    for n in range(len(parts) - 1, 0, -1):
        name = ".".join(parts[:n])
        try:
            obj = importlib.import_module(name)
        except ModuleNotFoundError as e:
            if e.name and (name == e.name or name.startswith(e.name + ".")):
                continue
            raise
        for p in parts[n:]:
            obj = getattr(obj, p)
        return obj
    raise ImportError(f"cannot locate {path}")


HEAVY, MADE = set(), {}  # targets built once per process and setting


def instantiate(cfg, *a, **k):
    if cfg is None:
        return None
    if callable(cfg):
        return cfg(*a, **k)
    kw = dict(cfg)
    for n, v in k.items():
        if isinstance(v, dict) and isinstance(kw.get(n), dict):
            kw[n] = {**kw[n], **v}
        else:
            kw[n] = v
    path = kw.pop("_target_")
    fn = locate(path)
    plain = {n: _rec(v) for n, v in kw.items()}
    if path in HEAVY and not a:
        key = (path, repr(sorted(kw.items())))
        if key not in MADE:
            MADE[key] = fn(**plain)
        return MADE[key]
    return fn(*a, **plain)


def _rec(v):
    if isinstance(v, dict):
        return instantiate(v) if "_target_" in v else Cfg({k: _rec(x) for k, x in v.items()})
    if isinstance(v, list):
        return [_rec(x) for x in v]
    return v


def install():
    """Put this in place of the other stand-ins' hydra and omegaconf parts."""
    import sys
    from . import fakelightning
    fakelightning.install()
    sys.modules["hydra"].utils.instantiate = instantiate
    sys.modules["hydra.utils"].instantiate = instantiate
    sys.modules["omegaconf"].OmegaConf.register_new_resolver = staticmethod(lambda n, f, **k: RESOLVERS.__setitem__(n, f))
