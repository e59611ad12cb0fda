"""Renders the worlds of the specification (spec/Python.tla) as Python source files."""
import keyword
import os
import re

STDLIB = ("datetime", "pathlib", "os", "ipaddress", "collections.abc", "collections", "decimal",
          "fractions", "enum", "types")


def qual(name):
    for m in STDLIB:
        if name.startswith(m + "."):
            return f'__import__({m!r}, fromlist=["x"]).{name[len(m) + 1:]}'
    return name


TYPING = '__import__("typing")'


def term(t):
    """Annotation term -> Python expression."""
    a, xs = t["a"], t["xs"]
    args = [term(x) for x in xs]
    if a in ("None", "..."):
        return a
    if a == "Any":
        return f"{TYPING}.Any"
    if a == "ref":
        return t["s"]
    if a == "lit":
        return repr(t["s"])
    if a.startswith("generic:"):
        c = a[8:]
        if c == "collections.abc.Callable":
            return f"{qual(c)}[[{', '.join(args[:-1])}], {args[-1]}]"
        return f"{qual(c)}[{', '.join(args)}]"
    if a == "|":
        return "(" + " | ".join(args) + ")"
    if a in ("Optional", "Union", "Literal"):
        return f"{TYPING}.{a}[{', '.join(args)}]"
    if a == "Annotated":
        return f"{TYPING}.Annotated[{args[0]}, 1]"
    if a.startswith("typing:"):
        c = a[7:]
        if not xs:
            return f"{TYPING}.{c}"
        if c == "Callable":
            return f"{TYPING}.{c}[[{', '.join(args[:-1])}], {args[-1]}]"
        return f"{TYPING}.{c}[{', '.join(args)}]"
    return qual(a)


def params(ps):
    out, last = [], None
    star = any(p["k"] == 2 for p in ps)
    for i, p in enumerate(ps):
        k = p["k"]
        if last == 0 and k != 0:
            out.append("/")
        if k == 3 and not star and last != 3:
            out.append("*")
        s = {2: "*", 4: "**"}.get(k, "") + p["n"]
        if p["t"]["a"] != "":
            s += ": " + term(p["t"])
        if p.get("d"):
            s += " = " + (VALUES[p["e"]] if "e" in p else "None")
        out.append(s)
        last = k
    if last == 0:
        out.append("/")
    return ", ".join(out)


def ret(t):
    return "" if t["a"] == "" else " -> " + term(t)


def body(doc, extra="pass", ind="    "):
    return (f"{ind}{doc!r}\n" if doc else "") + f"{ind}{extra}\n"


VALUES = {"int": "1", "str": "'s'", "bool": "True", "float": "1.5", "None": "None", "list": "[1]",
          "dict": "{'a': 1}", "set": "{1}", "frozenset": "frozenset()", "tuple": "(1, 2)",
          "bytes": "b'x'", "bytearray": "bytearray(b'x')", "complex": "1j", "object": "object()",
          "range": "range(3)", "slice": "slice(1)",
          "datetime.datetime": "__import__('datetime').datetime(2020, 1, 2)",
          "datetime.date": "__import__('datetime').date(2020, 1, 2)",
          "datetime.timedelta": "__import__('datetime').timedelta(1)",
          "pathlib.Path": "__import__('pathlib').Path('x')",
          "types.SimpleNamespace": "__import__('types').SimpleNamespace(a=1)",
          "functools.partialmethod": "__import__('functools').partialmethod(print)",
          "decimal.Decimal": "__import__('decimal').Decimal(1)"}


def plain(n):
    """Can n be written as a name in source code?"""
    return n == "" or (n.isidentifier() and not keyword.iskeyword(n))


DECORATORS = {"abstract": ["__import__('abc').abstractmethod"], "final": ["__import__('typing').final"],
              "abstractstatic": ["__import__('abc').abstractstaticmethod"], "abstractclass": ["__import__('abc').abstractclassmethod"],
              "static+": ["staticmethod", "__import__('abc').abstractmethod"], "class+": ["classmethod", "__import__('typing').final"],
              "wraps": ["lambda f: __import__('functools').wraps(f)(lambda *a, **k: f(*a, **k))"], "async": [],
              "static+wraps": ["staticmethod", "lambda f: __import__('functools').wraps(f)(lambda *a, **k: f(*a, **k))"],
              "context": ["__import__('contextlib').contextmanager"], "dispatch": ["__import__('functools').singledispatch"],
              "substatic": ["type('sub', (staticmethod,), {})"], "subclass": ["type('sub', (classmethod,), {})"]}


def member(b, ind="    "):
    k = b["b"]
    if k != "code" and not plain(b["n"]):
        t = member({**b, "n": "__tmp__"}, ind)
        fix = {"def": f"{ind}getattr(__tmp__, '__func__', __tmp__).__name__ = {b['n']!r}\n",
               "nested": f"{ind}__tmp__.__name__ = {b['n']!r}\n"}.get(k, "")
        return t + fix + f"{ind}locals()[{b['n']!r}] = __tmp__\n{ind}del __tmp__\n"
    if k == "def":
        deco = {"static": f"{ind}@staticmethod\n", "class": f"{ind}@classmethod\n"}.get(b["c"], "")
        if "deco" in b:
            deco = "".join(f"{ind}@{d}\n" for d in DECORATORS[b["deco"]])
        code = b.get("code", "pass")
        return (deco + f"{ind}{'async ' * (b.get('deco') == 'async')}def {b['n']}({params(b['ps'])}){ret(b['ret'])}:\n"
                + body(b["doc"], code, ind + "    "))
    if k == "prop":
        s = (f"{ind}@property\n{ind}def {b['n']}(self){ret(b['ret'])}:\n"
             + body(b["doc"], "return getattr(self, '_v_%s', None)" % b["n"], ind + "    "))
        if b["set"]:
            ann = "" if b["st"]["a"] == "" else ": " + term(b["st"])
            ps = params(b["sps"]) if "sps" in b else f"self, value{ann}"
            this, value = (b["sps"][0]["n"], b["sps"][1]) if len(b.get("sps", [])) > 1 else ("self", {"n": "value", "k": 1})
            if "sps" in b and len(b["sps"]) == 1:
                this, value = b["sps"][0]["n"] + "[0]", {"n": b["sps"][0]["n"] + "[1]", "k": 1}
            value = value["n"] + ("[0]" if value["k"] == 2 else "")
            s += (f"{ind}@{b['n']}.setter\n{ind}def {b['n']}({ps}):\n"
                  + body(b["sdoc"], "%s._v_%s = %s" % (this, b["n"], value), ind + "    "))
        return s
    if k == "val":
        return f"{ind}{b['n']} = {VALUES[b['e']]}\n"
    if k == "nested":
        return f"{ind}class {b['n']}:\n{ind}    pass\n"
    if k == "code":
        return "".join(ind + line + "\n" for line in b["text"].split("\n"))
    raise KeyError(k)


TMADE = {"list": "list[int]", "union": "int | str", "dict": "dict[str, int]", "typing": f"{TYPING}.List[int]",
         "newtype": TYPING + ".NewType('{0}', int)", "paramspec": TYPING + ".ParamSpec('{0}')",
         "tuplevar": TYPING + ".TypeVarTuple('{0}')", "callable": "__import__('collections.abc').abc.Callable[[int], str]"}


def statement(s):
    k, n = s["s"], s.get("n", "")
    if k != "code" and not plain(n):
        t = statement({**s, "n": "__tmp__"})
        fix = f"__tmp__.__name__ = __tmp__.__qualname__ = {n!r}\n" if k in ("def", "class", "foreign") else ""
        if k == "tvar":
            t = f"__tmp__ = {TYPING}.TypeVar({n!r})\n"
        return t + fix + f"globals()[{n!r}] = __tmp__\ndel __tmp__\n"
    if k == "def":
        code = s.get("code", "pass")
        deco = "".join(f"@{d}\n" for d in DECORATORS[s["deco"]]) if "deco" in s else ""
        return (f"{deco}{'async ' * (s.get('deco') == 'async')}def {n}({params(s['ps'])}){ret(s['ret'])}:\n"
                + body(s["doc"], code))
    if k == "class":
        base = f"({s['base']})" if s["base"] else ""
        inner = "".join(member(b) for b in s["body"])
        return f"class {n}{base}:\n" + body(s["doc"]) + inner
    if k == "foreign":
        return f"class {n}:\n    pass\n{n}.__module__ = {s['of']!r}\n"
    if k == "val":
        return f"{n} = {VALUES[s['e']]}\n"
    if k == "inst":
        return f"{n} = {s['of']}()\n"
    if k == "tvar":
        return f"{n} = {TYPING}.TypeVar({n!r})\n"
    if k == "talias":
        return f"{n} = {TMADE[s.get('e', 'list')].format(n)}\n"
    if k == "lambda":
        value = s.get("code", "return None").removeprefix("return ")
        return f"{n} = lambda {params(s['ps'])}: {value}\n"
    if k == "closure":
        return (f"def __mk():\n    def {n}({params(s['ps'])}):\n        {s.get('code', 'pass')}\n    return {n}\n"
                f"{n} = __mk()\ndel __mk\n")
    if k == "partial":
        return f"{n} = __import__('functools').partial({s['of']})\n"
    if k == "builtin":
        return f"{n} = __builtins__[{s['of']!r}] if isinstance(__builtins__, dict) else __builtins__.{s['of']}\n"
    if k == "boundm":
        return f"class __K:\n    def meth(self):\n        pass\n{n} = __K().meth\ndel __K\n"
    if k == "alias":
        return f"{n} = {s['of']}\n"
    if k == "all":
        return f"__all__ = {list(s['names'])!r}\n"
    if k == "stub":
        return ("_o = type('Stub', (), {})()\n_o.__dict__.update(globals())\n"
                "__import__('sys').modules[__name__] = _o\n")
    if k == "shim":
        return f"__import__({s['of']!r})\n__import__('sys').modules[__name__] = __import__('sys').modules[{s['of']!r}]\n"
    if k == "nodoc":
        return ("class _M(__import__('types').ModuleType):\n    @property\n    def __doc__(self):\n"
                "        raise RuntimeError('no docstring')\n"
                "__import__('sys').modules[__name__].__class__ = _M\ndel _M\n")
    if k == "raise":
        return "raise RuntimeError('broken module')\n"
    if k == "exit":
        return "raise SystemExit(3)\n"
    if k == "syntax":
        return "def :\n"
    if k == "print":
        return "import sys as __sys\nprint('out-text')\nprint('err-text', file=__sys.stderr)\ndel __sys\n"
    if k == "from":
        return f"from {s['of']} import {s['name']} as {n}\n"
    if k == "star":
        return f"from {s['of']} import *\n"
    if k == "import":
        return f"import {s['of']}" + (f" as {n}\n" if n else "\n")
    if k == "virt":
        f = s["file"]
        return (f"__v = __import__('types').ModuleType({s['of']!r}, {f['doc'] or None!r})\n__v.__module__ = __name__\n"
                f"__import__('sys').modules[{s['of']!r}] = __v\n"
                f"exec({source({**f, 'doc': ''})!r}, __v.__dict__)\n{n} = __v\ndel __v\n")
    if k == "try":
        return f"try:\n    __import__({s['of']!r})\nexcept BaseException:\n    pass\n"
    if k == "bomb":
        return ("class __M(__import__('builtins').type):\n    @property\n    def __doc__(cls):\n"
                "        raise RuntimeError('no docstring')\n"
                f"class {n}(metaclass=__M):\n    pass\ndel __M\n")
    if k == "code":
        return s["text"].encode("latin-1").decode("unicode_escape" if s.get("escaped") else "latin-1") + "\n"
    raise KeyError(k)


def source(f):
    text = (repr(f["doc"]) + "\n" if f["doc"] else "") + "".join(statement(s) for s in f["ss"])
    return text.replace("\n", f.get("nl", "\n")) + f.get("tail", "")


def world(files, root):
    """Writes the files of a world below directory `root`."""
    for name, f in files.items():
        path = os.path.join(root, *name.split("."))
        if "ns" in f:
            os.makedirs(path, exist_ok=True)
            continue
        path = os.path.join(path, "__init__.py") if f["pkg"] else path + ".py"
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8", newline="") as h:
            h.write(source(f))
