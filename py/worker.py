"""Decides batches of cases: JSON schemas with jsonschema, Python models by executing them. One JSON request per line."""
import ast, json, sys, traceback, types, typing, warnings

warnings.simplefilter("error")
sys.setrecursionlimit(20000)


def strict_pairs(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError("duplicate key %r" % k)
        d[k] = v
    return d


# ---------------------------------------------------------------- JSON Schema
def close(s):
    if isinstance(s, dict):
        r = {k: (v if k in ("required", "type", "title", "$schema") else
                 {n: close(x) for n, x in v.items()} if k == "properties" else close(v)) for k, v in s.items()}
        if "properties" in s:
            r["additionalProperties"] = False
        return r
    if isinstance(s, list):
        return [close(x) for x in s]
    return s


def schema_case(c):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from jsonschema import Draft7Validator
    res = {"code": None, "samples": [None] * len(c["samples"]), "closed": None, "schema": None}
    try:
        s = json.loads(c["code"], object_pairs_hook=strict_pairs)
    except ValueError as e:
        res["code"] = "output is not well-formed JSON: %s" % e
        return res
    if not isinstance(s, dict):
        res["code"] = "output is not an object"
        return res
    if s.get("$schema") != "http://json-schema.org/draft-07/schema#":
        res["code"] = "output does not declare draft-07"
        return res
    e = next(iter(META.iter_errors(s)), None)
    if e is not None:
        res["code"] = "not a valid draft-07 schema: %s at %s" % (e.message, list(e.absolute_path))
        return res
    v = Draft7Validator(s)
    for i, t in enumerate(c["samples"]):
        e = next(iter(v.iter_errors(json.loads(t))), None)
        if e is not None:
            res["samples"][i] = "%s at %s" % (e.message[:300], list(e.absolute_path))
    e = next(iter(Draft7Validator(close(s)).iter_errors(json.loads(c["samples"][0]))), None)
    if e is not None:
        res["closed"] = "%s at %s" % (e.message[:300], list(e.absolute_path))
    res["title"] = s.get("title")
    return res


# ---------------------------------------------------------------- Python
class Missing(Exception):
    pass


class FieldInfo:
    def __init__(self, default=..., *, alias=None):
        self.default, self.alias = default, alias


class BaseModel:
    def __init_subclass__(cls, **kw):
        super().__init_subclass__(**kw)
        fields = {}
        for n, t in cls.__dict__.get("__annotations__", {}).items():
            if n.startswith("_"):
                raise TypeError("field %r of %s starts with an underscore: pydantic makes it private" % (n, cls.__name__))
            d = cls.__dict__.get(n, None)
            alias = d.alias if isinstance(d, FieldInfo) else None
            fields[n] = (alias if alias is not None else n, t)
        cls.fields__ = fields


class Reject(Exception):
    pass


def is_optional(t):
    return typing.get_origin(t) is typing.Union and type(None) in typing.get_args(t)


def validate(t, v, at):
    def bad(want):
        raise Reject("at %s: %s is not %s" % (at or "root", json.dumps(v)[:80], want))
    if t is typing.Any:
        return
    if t is bool:
        return None if isinstance(v, bool) else bad("bool")
    if t is int:
        return None if isinstance(v, int) and not isinstance(v, bool) else bad("int")
    if t is float:
        return None if isinstance(v, (int, float)) and not isinstance(v, bool) else bad("float")
    if t is str:
        return None if isinstance(v, str) else bad("str")
    o, a = typing.get_origin(t), typing.get_args(t)
    if o is typing.Union:
        if len(a) != 2 or a[1] is not type(None):
            raise TypeError("unexpected union %r" % (t,))
        return None if v is None else validate(a[0], v, at)
    if o is list:
        if not isinstance(v, list):
            bad("a list")
        for i, x in enumerate(v):
            validate(a[0], x, "%s/%d" % (at, i))
        return
    if o is tuple:
        if not isinstance(v, list) or len(v) != len(a):
            bad("a tuple of %d" % len(a))
        for i, x in enumerate(v):
            validate(a[i], x, "%s/%d" % (at, i))
        return
    if o is dict:
        if a[0] is not str:
            raise TypeError("unexpected key type %r" % (t,))
        if not isinstance(v, dict):
            bad("a dict")
        for k, x in v.items():
            validate(a[1], x, "%s/%s" % (at, k))
        return
    if isinstance(t, type) and issubclass(t, BaseModel):
        if not isinstance(v, dict):
            bad("an object")
        names = [w for w, _ in t.fields__.values()]
        if len(set(names)) != len(names):
            raise Reject("at %s: two fields of %s have the same name or alias: %r" % (at, t.__name__, names))
        for k in v:
            if k not in names:
                raise Reject("at %s: key %r has no field in %s" % (at, k, t.__name__))
        for w, ft in t.fields__.values():
            if w in v:
                validate(ft, v[w], "%s/%s" % (at, w))
            elif not is_optional(ft):
                raise Reject("at %s: key %r is missing but required by %s" % (at, w, t.__name__))
        return
    raise TypeError("at %s: %r is not a type" % (at or "root", t))


PYD = types.ModuleType("pydantic")
PYD.BaseModel, PYD.Field = BaseModel, FieldInfo


def bound(tree):
    """names bound at the top level, with duplicates"""
    out = []
    for n in tree.body:
        if isinstance(n, ast.ClassDef):
            out.append(n.name)
        elif isinstance(n, ast.Assign):
            out += [t.id for t in n.targets if isinstance(t, ast.Name)]
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out += [(a.asname or a.name).split(".")[0] for a in n.names]
    return out


def pydantic_case(c):
    res = {"code": None, "samples": [None] * len(c["samples"])}
    sys.modules["pydantic"] = PYD
    ns = {"__name__": "generated"}
    if c["style"] == "assume_existing":
        ns.update(Any=typing.Any, Optional=typing.Optional, BaseModel=BaseModel, Field=FieldInfo)
    try:
        tree = ast.parse(c["code"])
        names = bound(tree)
        import builtins
        for n in set(names):
            if names.count(n) > 1:
                raise NameError("%s is bound more than once at the top level" % n)
            if n in ("Any", "Optional", "BaseModel", "Field") and c["style"] == "assume_existing":
                raise NameError("%s hides the import the style assumes" % n)
            if n in ("bool", "dict", "float", "int", "list", "str", "tuple"):
                raise NameError("%s hides a builtin type" % n)
        exec(compile(tree, "generated.py", "exec", dont_inherit=True), ns)
        root = ns.get(c["root"])
        if root is None:
            raise NameError("%s is not defined" % c["root"])
        # every annotation must be a type
        for n, t in ns.items():
            if isinstance(t, type) and issubclass(t, BaseModel) and t is not BaseModel:
                for f, (_, ft) in t.fields__.items():
                    check_type(ft, n + "." + f)
    except Exception as e:
        res["code"] = "%s: %s" % (type(e).__name__, e)
        return res
    for i, t in enumerate(c["samples"]):
        try:
            validate(root, json.loads(t), "")
        except Reject as e:
            res["samples"][i] = str(e)
        except TypeError as e:
            res["code"] = "TypeError: %s" % e
    return res


def check_type(t, at):
    if t in (typing.Any, bool, int, float, str, type(None)):
        return
    if isinstance(t, type) and not typing.get_args(t) and issubclass(t, BaseModel):
        return
    if typing.get_origin(t) in (list, tuple, dict, typing.Union):
        for a in typing.get_args(t):
            check_type(a, at)
        return
    raise TypeError("the annotation of %s is not a type: %r" % (at, t))


def main():
    global META
    META = None
    for line in sys.stdin:
        try:
            r = json.loads(line)
            if r["kind"] == "schema":
                if META is None:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        from jsonschema import Draft7Validator
                    META = Draft7Validator(Draft7Validator.META_SCHEMA)
                out = [schema_case(c) for c in r["cases"]]
            else:
                out = [pydantic_case(c) for c in r["cases"]]
        except Exception:
            out = {"error": traceback.format_exc()}
        sys.stdout.write(json.dumps(out) + "\n")
        sys.stdout.flush()


main()
