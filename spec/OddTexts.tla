-------------------------------- MODULE OddTexts --------------------------------
(* Python statements that no other family writes. Importing and inspecting the first  *)
(* ones raises no exception; with the others it may, and adding the module may fail.    *)
OkTexts == <<
"async def co(a, *, b: int = 1) -> str: ...",
    "async def gen():\n    yield 1",
    "def gen2(a=1, *a2, **k):\n    yield a",
    "import functools\n@functools.lru_cache(None)\ndef cached(a: int) -> int: return a",
    "import functools\n@functools.wraps(len)\ndef wrapped(*a, **k): return 1",
    "import functools\n@functools.singledispatch\ndef single(a): return 1",
    "import contextlib\n@contextlib.contextmanager\ndef ctx(a): yield a",
    "s = staticmethod(lambda a: a)\nc = classmethod(lambda cls, a: a)\np = property(lambda self: 1)",
    "import functools\npm = functools.partialmethod(print, 1)\npp = functools.partial(print, 1, sep='')\npl = functools.partial(lambda a, b: a, 1)",
    "import functools\nclass CP:\n    @functools.cached_property\n    def cp(self) -> int: return 1\n    pm = functools.partialmethod(print, 1)\n    pt = functools.partial(print, 1)",
    "import enum\nclass E(enum.Enum):\n    A = 1\n    B = 'b'\n    type = 3\n    def m(self): return 1",
    "import enum\nclass F(enum.Flag):\n    A = 1\n    B = 2\nclass I(enum.IntEnum):\n    X = 1",
    "import dataclasses\n@dataclasses.dataclass\nclass DC:\n    a: int = 1\n    b: 'list[str]' = dataclasses.field(default_factory=list)",
    "import dataclasses\n@dataclasses.dataclass(frozen=True, slots=True, order=True)\nclass DS:\n    a: int",
    "import typing\nclass NT(typing.NamedTuple):\n    a: int\n    b: str = ''",
    "import collections\nCN = collections.namedtuple('CN', 'x y class_')",
    "import typing\nclass TD(typing.TypedDict, total=False):\n    a: int",
    "import typing\nclass Pr(typing.Protocol):\n    a: int\n    def m(self) -> int: ...",
    "import typing\nT1 = typing.TypeVar('T1')\nclass Ge(typing.Generic[T1]):\n    def m(self, a: T1) -> 'Ge[T1]': ...\ndef use(a: Ge[int], b: Ge, c: typing.Type[Ge]) -> typing.List[Ge[str]]: ...",
    "import typing\nNTy = typing.NewType('NTy', int)\nPS = typing.ParamSpec('PS')\nTT = typing.TypeVarTuple('TT')\nAl = typing.Union[int, str]\nOp = typing.Optional[int]\nLi = typing.Literal[1, 'a']\nAn = typing.Annotated[int, 'x']\nCa = typing.Callable[..., int]\nCV = typing.ClassVar[int]\nFi = typing.Final\nSe = typing.Self\nNv = typing.NoReturn",
    "import typing\ndef anns(a: typing.ClassVar[int], b: typing.Final[int], c: typing.NoReturn, d: typing.Self, e: typing.LiteralString, f: typing.Concatenate[int, ...], g: typing.Callable[..., int], h: typing.Tuple[()], i: tuple[()], j: typing.Unpack[tuple[int, str]]) -> typing.Never: ...",
    "import typing\ndef anns2(a: typing.Type, b: typing.Type[int], c: typing.Tuple, d: typing.Tuple[int, ...], e: typing.Callable, f: typing.Awaitable[int], g: typing.AsyncIterator[str], h: typing.Pattern, i: typing.Match[str], j: typing.IO[str], k: typing.SupportsInt, l: typing.Hashable, m: typing.Text, n: typing.AnyStr, o: typing.ContextManager[int]): ...",
    "type TA = int | str\ntype TR[T] = list[T] | TR\ndef gf[T: int, *Ts, **P](a: T, *b: *Ts) -> T: ...\nclass GC[T]:\n    def m(self, a: T) -> TA: ...",
    "def a1(a: 1, b: 1.5, c: [int], d: {}, e: (int, str), f: print, g: object(), h: lambda: 1, i: __import__('sys'), j: ..., k: NotImplemented, l: True) -> (1, 2): ...",
    "def a2(a: '', b: ' ', c: '[', d: ']', e: ',', f: '|', g: '||', h: 'list[', i: 'dict[]', j: 'tuple[,]', k: 'Callable[[', l: \"'\", m: '\"', n: '::', o: '.', p: '..', q: 'a.', r: '.a', s: '\\n', t: '\\x00', u: 'int | | None', v: 'Optional[]') -> '<class \\'': ...",
    "deep = int\nfor _i in range(200):\n    deep = list[deep]\ndef dp(a: deep) -> deep: ...\ndel _i",
    "import typing\ndeept = int\nfor _i in range(100):\n    deept = typing.Optional[typing.List[deept]]\ndef dt(a: deept): ...\ndel _i",
    "def ds(a: 'list[' * 30 + 'int' + ']' * 30, b: ' | '.join(['int'] * 300), c: 'x' * 5000, d: 'dict[' * 30): ...",
    "def many(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, *, c0, c1=None, **kw): ...",
    "def doc1(): '\\x00\\x01\\x7f'\ndef doc2(): '\"#\"##\"'\ndef doc3(): '\\\\ \\\\n \\' \" { } {{ }} #'\ndef doc4(): '\\r\\n\\r\\n'\ndef doc5(): '\\u2028 \\u2029 \\ufeff \\U0001F600'\ndef doc6(): '*/ /* // ///'\ndef doc7(): ''\ndef doc8(): ' '\ndef doc9(): '```\\n```\\n``````'",
    "def f1(): ...\nf1.__doc__ = 5\ndef f2(): ...\nf2.__doc__ = b'bytes'\ndef f3(): ...\nf3.__doc__ = ['a']\nclass D1: ...\nD1.__doc__ = 7\n__doc__ = 8",
    "def g1(a): ...\ng1.__module__ = None\ndef g2(a): ...\ng2.__module__ = 5\ndef g3(a): ...\ng3.__module__ = ''\ndef g4(a): ...\ng4.__module__ = '.'\ndef g5(a): ...\ng5.__module__ = 'a..b'\ndef g6(a): ...\ng6.__module__ = 'a-b.c d'",
    "def h1(a): ...\nh1.__name__ = 'other name'\ndef h2(a): ...\nh2.__name__ = ''\ndef h3(a): ...\nh3.__name__ = 'class'\ndef h4(a): ...\nh4.__qualname__ = 'x.<locals>.y'\nclass H5: ...\nH5.__module__ = ''\nclass H6: ...\nH6.__qualname__ = 'X.Y'\nclass H7: ...\nH7.__name__ = 'not-an-id'",
    "def k1(a, b): ...\nk1.__signature__ = None\ndef k2(a, b): ...\nk2.__defaults__ = (1, 2)\nimport inspect\ndef k4(a): ...\nk4.__signature__ = inspect.Signature([inspect.Parameter('class', inspect.Parameter.POSITIONAL_ONLY)] if False else [])\ndef k5(a): ...\nk5.__annotations__ = {'a': 'int', 'return': 5, 'zz': object()}",
    "class P1:\n    a = property()\n    b = property(len)\n    c = property(lambda s: 1, lambda s, v: None, lambda s: None, 'doc')\n    d = property(None, lambda s, v: None)\n    e = property(print, print)\n    f = property(fget=__import__('functools').partial(print))\n    g = property(fset=__import__('functools').partial(print, 1))\n    h = property(type)\n    i = property(lambda: 1, lambda: 1)\n    j = property(lambda *a: 1, lambda *a: 1)\n    k = property(lambda self, /, *, x=1: 1, lambda self, /, *, x=1: 1)",
    "class P2:\n    def _g(self) -> 'int': return 1\n    def _s(self, v: 'str') -> None: ...\n    x = property(_g, _s)\n    y = property(classmethod(_g))\n    z = property(staticmethod(_g))",
    "class CallableObj:\n    def __call__(self, a: int) -> str: return 'x'\nclass P3:\n    x = property(CallableObj(), CallableObj())\n    y = CallableObj()\n    z = staticmethod(CallableObj())\n    w = classmethod(CallableObj())\ninst = CallableObj()",
    "class Desc:\n    def __get__(self, o, t=None): return 5\n    def __set__(self, o, v): ...\nclass UD:\n    a = Desc()",
    "class Sl:\n    __slots__ = ('a', 'type', 'self_')",
    "class Nest:\n    class In:\n        class Deep: ...\n        def m(self): ...\n    from collections import OrderedDict\n    import sys as mod\n    Alias = int",
    "class Meth:\n    m1 = print\n    m2 = len\n    m3 = int\n    m4 = str.join\n    m5 = [].append\n    m6 = dict.fromkeys\n    m7 = object.__init__\n    m8 = type\n    m9 = lambda: 1\n    m10 = lambda self: 1\n    m11 = lambda *, self: 1\n    m12 = lambda *self: 1\n    m13 = lambda **self: 1\n    m14 = lambda a, self: 1",
    "class Un:\n    def m(_self, a): ...\n    def n(this): ...\n    def o(): ...\n    def p(*args): ...\n    def q(*, k): ...\n    def r(self, /): ...\n    def s(self, self_, /): ...\n    @staticmethod\n    def t(self): ...\n    @classmethod\n    def u(self): ...\n    @staticmethod\n    def v(cls): ...\n    def __init__(): ...\n    def __call__(): ...",
    "class In2:\n    def __init__(*args, **kwargs): ...\n    def __call__(*args): ...\nclass In3:\n    __init__ = None\n    __call__ = None\nclass In4:\n    __init__ = lambda self, a: None\nclass In5:\n    __init__ = print\n    __call__ = len\nclass In6:\n    @staticmethod\n    def __init__(a): ...\n    @classmethod\n    def __call__(cls, a): ...",
    "class New1:\n    def __new__(cls, a, b): return object.__new__(cls)\nclass New2(int):\n    def __new__(cls, a): return int.__new__(cls, a)\nclass New3(tuple): ...\nclass New4(Exception):\n    def __init__(self, a): ...\nclass New5(type): ...\nclass New6(New5, metaclass=New5): ...\nclass New7(dict, list if False else object): ...",
    "import abc\nclass Ab(abc.ABC):\n    @abc.abstractmethod\n    def m(self): ...\n    @property\n    @abc.abstractmethod\n    def p(self): ...",
    "import ctypes\nclass St(ctypes.Structure):\n    _fields_ = [('a', ctypes.c_int), ('b', ctypes.c_char)]\narr = ctypes.c_int * 3\ncf = ctypes.CFUNCTYPE(ctypes.c_int)",
    "import weakref\nclass Wk: ...\nalive = Wk()\nw1 = weakref.ref(alive)\nw2 = weakref.proxy(alive)\nw3 = weakref.WeakValueDictionary()",
    "import sys, types\nme = sys.modules[__name__]\nmt = types.ModuleType('made up')\nmt2 = types.ModuleType('made.up')\nmt3 = types.ModuleType('')\nns = types.SimpleNamespace(a=1)\nfr = sys._getframe()\nco = compile('1', 'x', 'eval')\ncell = (lambda x: lambda: x)(1).__closure__[0]\nmp = types.MappingProxyType({})",
    "import re, datetime, decimal, pathlib, threading, io, os, random, socket\nrx = re.compile('a')\nma = rx.match('a')\ndt = datetime.datetime.now\nlk = threading.Lock()\nso = io.StringIO()\nen = os.environ\nrnd = random.random\nsk = socket.AF_INET\nnan = float('nan')\ninf = float('inf')\nbig = 10 ** 5000",
    "it = iter([])\nge = (x for x in [])\nra = range(3)\nmv = memoryview(b'')\nsl = slice(1)\nel = ...\nni = NotImplemented\nex = ValueError('x')\nzz = zip([])\nfi = filter(None, [])\nty = type\nob = object\nsu = super\nno = None",
    "globals()['not an id'] = 1\nglobals()['1a'] = lambda: 1\nglobals()['a-b'] = type('a-b', (), {})\nglobals()['\\u00e9t\\u00e9'] = 1\nglobals()['\\u540d'] = lambda a: a\nglobals()['\\u0061\\u0301'] = 3\nglobals()[\"it's\"] = 4",
    "globals()['\\U0001F600'] = 4\nglobals()['\\u00b5'] = 4\nglobals()['#'] = lambda: 1",
    "globals()['\"q\"'] = 4\nglobals()['a\\nb'] = lambda: 1\nglobals()['\\x00'] = 5",
    "globals()[''] = lambda: 1",
    "Em = type('', (), {})\nem = Em()",
    "K = type('K', (), {'not an id': 1, 'a-b': lambda self: 1, '': 1, '\\u00e9': property(lambda s: 1), 'class': lambda self, a: a, '1': staticmethod(lambda: 1)})",
    "K = type('K', (), {5: 1}) if False else type('K', (), {})",
    "def pn(a, type, match, async_, _, __, __x, _1): ...",
    "import inspect\ndef sp(a): ...\nsp.__signature__ = inspect.Signature([inspect.Parameter('x', 1, annotation=5, default=object()), inspect.Parameter('y', 3), inspect.Parameter('z', 4)], return_annotation=inspect.Signature)",
    "__all__ = None",
    "__all__ = 5",
    "__all__ = 'fine'",
    "__all__ = [1, None, 'fine', 'ghost', '', 'a b']",
    "__all__ = ('fine', 'Fine')",
    "__all__ = {'fine': 1}",
    "__all__ = {'fine', 'Fine'}",
    "__all__ = (x for x in ['fine'])",
    "__spec__ = None\n__loader__ = None\n__package__ = None\n__file__ = None",
    "import sys\nsys.setrecursionlimit(10000)\nclass Rec: ...\nRec.self_ref = Rec\nRec.me = Rec()\nRec.mod = sys.modules[__name__]",
    "import sys\nclass Fake: pass\nsys.modules[__name__ + '_fake'] = Fake()",
    "import warnings\nwarnings.warn('note')\nclass Dep:\n    @property\n    def old(self):\n        warnings.warn('x', DeprecationWarning)\n        return 1",
    "import logging\nlog = logging.getLogger('x')\nh = logging.StreamHandler()",
    "import unittest.mock as mock\nm = mock.MagicMock()\nm2 = mock.Mock(spec=int)\ns = mock.sentinel.x\nc = mock.call",
    "from collections.abc import *\nfrom typing import *",
    "from os.path import *\nfrom functools import *\nfrom math import *",
    "import operator, itertools\nig = operator.itemgetter(1)\nag = operator.attrgetter('a')\nmc = operator.methodcaller('a')\nct = itertools.count()",
    "class Int2(int): ...\nclass Str2(str):\n    def m(self) -> 'Str2': ...\nclass Fl2(float): ...\nclass By2(bytes): ...\nclass Tu2(tuple): ...\nclass Se2(set): ...\nclass Fs2(frozenset): ...\nclass Di2(dict): ...\ndef subs(a: Int2, b: Str2, c: Fl2, d: By2, e: Tu2, f: Se2, g: Fs2, h: Di2): ...\nv1 = Int2(1)\nv2 = Str2('x')",
    "class getter:\n    def get_type(self): ...\n    def obj(self): ...\n    def py(self): ...\n    def repr(self): ...\n    def str(self): ...\n    def new(self): ...\n    def call(self): ...\n    def __init__(self, py, self_, obj): ...\n    def __call__(self, py, args, kwargs): ...\ndef pars(py, args, kwargs, self_, obj, p_a, p_args, Result, PyResult, Any, Python, __internal__args): ...",
    "class Eq:\n    def __eq__(self, o): raise RuntimeError\n    def __hash__(self): raise RuntimeError\n    def __repr__(self): raise RuntimeError\n    def __str__(self): raise RuntimeError\n    def __bool__(self): raise RuntimeError\n    def __len__(self): raise RuntimeError\neq = Eq()" >>
RaisingTexts == <<
"def __dir__(): return ['fine', 'Fine', 'ghost', 'ghost2', 'a b', '']",
    "def __dir__(): return []",
    "__name__ = 'renamed'",
    "__builtins__ = {}",
    "def __getattr__(n): return 5",
    "__path__ = [5, None]",
    "__path__ = 'text'",
    "__path__ = ['/nonexistent']",
    "__path__ = []",
    "__path__ = None",
    "globals()[5] = 5",
    "class BadStr:\n    def __repr__(self): raise RuntimeError\n    def __str__(self): raise RuntimeError\n    def __getattribute__(self, n): raise RuntimeError\nbad = BadStr()",
    "class BadRepr:\n    def __repr__(self): raise RuntimeError('repr')\n    __str__ = __repr__\ndef ann(a: BadRepr()) -> BadRepr(): ...",
    "class BadRepr:\n    def __repr__(self): return 5\ndef ann(a: BadRepr()) -> BadRepr(): ...",
    "class BadClass:\n    @property\n    def __class__(self): raise RuntimeError('class')\nbc = BadClass()",
    "class BadMod:\n    @property\n    def __module__(self): raise RuntimeError('module')\nbm = BadMod()",
    "class BadName:\n    @property\n    def __name__(self): raise RuntimeError('name')\nbn = BadName()",
    "class Meta(type):\n    def __dir__(cls): raise RuntimeError('dir')\nclass BD(metaclass=Meta): ...",
    "class Meta(type):\n    def __getattribute__(cls, n): raise RuntimeError('attr')\nclass BA(metaclass=Meta): ...",
    "class Meta(type):\n    def __dir__(cls): return ['ghost', 5, '']\nclass BE(metaclass=Meta): ...",
    "class Meta(type):\n    @property\n    def __module__(cls): return 5\n    @property\n    def __name__(cls): return 6\nclass BF(metaclass=Meta): ...",
    "class Meta(type):\n    def __repr__(cls): raise RuntimeError('repr')\nclass BG(metaclass=Meta): ...\ndef usebg(a: BG) -> BG: ...",
    "class Meta(type):\n    def __instancecheck__(cls, o): raise RuntimeError\n    def __subclasscheck__(cls, o): raise RuntimeError\nclass BH(metaclass=Meta): ...\ndef usebh(a: BH) -> BH: ...",
    "class RaiseDesc:\n    def __get__(self, o, t=None): raise RuntimeError('get')\nclass RD:\n    a = RaiseDesc()\n    def m(self): ...",
    "class AttrDesc:\n    def __get__(self, o, t=None): raise AttributeError('get')\nclass AD:\n    a = AttrDesc()",
    "class ExitDesc:\n    def __get__(self, o, t=None): raise SystemExit(3)\nclass ED:\n    a = ExitDesc()",
    "def sg(a): ...\nclass Sig:\n    @property\n    def parameters(self): raise RuntimeError\nsg.__signature__ = Sig()",
    "def sg(a): ...\nsg.__signature__ = 5",
    "def sg(a): ...\nsg.__signature__ = property()",
    "class SigC:\n    __signature__ = 5\n    def __init__(self, a): ...",
    "def wr(a): ...\nwr.__wrapped__ = wr",
    "def wr(a): ...\nwr.__wrapped__ = 5",
    "def __getattr__(n): raise RuntimeError('getattr')",
    "def __dir__(): raise RuntimeError('dir')",
    "def __dir__(): return 5",
    "def __dir__(): return [1, 2, None]",
    "def __dir__(): return ['a.b', 'fine.x', '.', 'a..b']",
    "class L(list):\n    def __iter__(self): raise RuntimeError\n    def __getitem__(self, i): raise RuntimeError\n    def __len__(self): raise RuntimeError\n__all__ = L()",
    "class P:\n    def __iter__(self): raise RuntimeError\n    def __getitem__(self, i): raise RuntimeError\n__path__ = P()",
    "class PD:\n    x = property(lambda s: 1)\nclass D2(property):\n    @property\n    def fget(self): raise RuntimeError\n    @property\n    def fset(self): raise RuntimeError\nclass PE:\n    x = D2(lambda s: 1)",
    "import weakref\nclass Wk: ...\ndead = weakref.proxy(Wk())",
    "globals()['\\udc80'] = 1",
    "globals()['a\\udc80'] = lambda: 1",
    "K = type('K', (), {'\\udc80': 1})",
    "def sd(): '\\udc80'",
    "__doc__ = '\\udc80'",
    "class SD: '\\udc80'",
    "def sa(a: '\\udc80') -> 'list[\\udc80]': ...",
    "def sm(a): ...\nsm.__module__ = '\\udc80'",
    "def sn(a): ...\nsn.__name__ = '\\udc80'",
    "import inspect\ndef sp(a): ...\nsp.__signature__ = inspect.Signature([inspect.Parameter('a', 1, annotation='\\udc80')])",
    "class Str2(str):\n    def __str__(self): raise RuntimeError\n    def __repr__(self): raise RuntimeError\ndef s2(a: Str2('int')): ...\ns2.__doc__ = Str2('doc')",
    "class Str3(str):\n    def __str__(self): return 5\ndef s3(a: Str3('int')): ...\ns3.__module__ = Str3('m')",
    "import typing\nclass Org:\n    __origin__ = 5\n    __args__ = 6\nOrg.__module__ = 'typing'\ndef og(a: Org, b: Org()): ...",
    "import typing\nclass Arg:\n    __origin__ = dict\n    __args__ = (1, 2, 3)\n    __metadata__ = 5\nArg.__module__ = 'typing'\ndef ag(a: Arg(), b: Arg): ...",
    "import typing\nclass Arh:\n    def __init__(self, o, a): self.__origin__ = o; self.__args__ = a\nArh.__module__ = 'typing'\ndef ah(a: Arh(dict, ()), b: Arh(list, ()), c: Arh(tuple, ()), d: Arh(set, ()), e: Arh(frozenset, ()), f: Arh(typing.Union, ()), g: Arh(typing.Optional, ()), h: Arh(dict, (int,)), i: Arh(list, None), j: Arh(None, (int,)), k: Arh(typing.Union, (None,)), l: Arh(dict, (1, 2, 3)), m: Arh('x', (5,)), n: Arh(type, ()), o: Arh(__import__('collections').abc.Callable, ())): ...",
    "import sys\ndel sys.modules[__name__]",
    "import sys\nsys.modules[__name__] = 5",
    "import sys\nsys.modules[__name__] = type('X', (), {'a': 1})()",
    "del __name__",
    "__name__ = 5",
    "__name__ = ''",
    "__name__ = '.'",
    "__name__ = 'pk.sub.deep.further'",
    "__name__ = '\\udc80'",
    "del __doc__",
    "del __builtins__",
    "import sys\nsys.stdout = None",
    "import sys\nsys.stdout.close()",
    "import sys\ndel sys.stdout",
    "import sys\nsys.stderr = 5",
    "import builtins\nclass Meta(type):\n    def mro(cls): return (cls, object)\nclass MM(metaclass=Meta): ...",
    "raise KeyboardInterrupt",
    "raise BaseException('x')",
    "raise GeneratorExit",
    "class E2(Exception):\n    def __str__(self): raise RuntimeError\nraise E2",
    "class E3(Exception):\n    def __str__(self): return '\\udc80'\nraise E3",
    "raise Exception('\\udc80 \\x00')" >>
=============================================================================
