"""A small in-memory stand-in for the part of pyspark and petastorm that the workflow package talks to (the sandbox has
neither). Tables are lists of rows; SQL, column expressions and Python UDFs follow Spark's documented semantics: null
propagation, UDF results that do not fit the declared type become null, chained Python UDFs hand over raw values,
`explode` drops empty collections, casts to FLOAT round to 32 bits.

Importing this module installs the stand-ins (unless the real packages are importable) and must happen before the
workflow package is imported."""
import copy
import decimal
import math
import random
import re
import sys
import types
import zlib

import numpy as np

TABLES = {}        # name -> DataFrame
VIEWS = {}
SAVED = []         # names written with saveAsTable, in order
QUERIES = []       # SQL text received
LOCATION = "file:/minispark-warehouse/"
COLLIDE = []       # predicates of table names that are reported as taken (fault injection)
RNG = random.Random(0)


class Unsupported(Exception):
    """The stand-in was asked for something it does not model."""


class AnalysisException(Exception):
    pass


# ------------------------------------------------------------------ types
class DataType:
    def __repr__(self):
        return type(self).__name__

    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__

    def __hash__(self):
        return hash(type(self))

    def from_python(self, v):
        return v

    def cast(self, v):
        raise Unsupported(f"cast to {self!r}")


class StringType(DataType):
    def from_python(self, v):
        return v if isinstance(v, str) else str(v)

    def cast(self, v):
        return str(v)


class LongType(DataType):
    def from_python(self, v):
        return int(v) if isinstance(v, int) and not isinstance(v, bool) else None

    def cast(self, v):
        try:
            return None if isinstance(v, float) and not math.isfinite(v) else int(float(v)) if isinstance(v, str) else int(v)
        except ValueError:
            return None


class IntegerType(LongType):
    pass


class ShortType(LongType):
    pass


class FloatType(DataType):
    bits = np.float32

    def from_python(self, v):
        return float(self.bits(v)) if isinstance(v, float) else None

    def cast(self, v):
        try:
            return float(self.bits(v))
        except ValueError:
            return None


class DoubleType(FloatType):
    bits = np.float64


class BooleanType(DataType):
    def from_python(self, v):
        return v if isinstance(v, bool) else None

    def cast(self, v):
        if isinstance(v, str):
            return {"true": True, "false": False}.get(v.lower())
        return bool(v)


class ArrayType(DataType):
    def __init__(self, elementType, containsNull=True):
        self.elementType = elementType

    def from_python(self, v):
        if not isinstance(v, (list, tuple)):
            return None
        return [None if x is None else self.elementType.from_python(x) for x in v]

    def cast(self, v):
        return [None if x is None else self.elementType.cast(x) for x in v]


class MapType(DataType):
    def __init__(self, keyType, valueType, valueContainsNull=True):
        self.keyType, self.valueType = keyType, valueType

    def from_python(self, v):
        if not isinstance(v, dict):
            return None
        return {self.keyType.from_python(k): None if x is None else self.valueType.from_python(x) for k, x in v.items()}

    def cast(self, v):
        return {self.keyType.cast(k): None if x is None else self.valueType.cast(x) for k, x in v.items()}


class StructField(DataType):
    def __init__(self, name, dataType, nullable=True):
        self.name, self.dataType = name, dataType


class StructType(DataType):
    def __init__(self, fields=None):
        self.fields = list(fields or [])

    def add(self, name, dataType, nullable=True):
        self.fields.append(name if isinstance(name, StructField) else StructField(name, dataType))
        return self

    def from_python(self, v):
        if isinstance(v, dict):
            v = [v.get(f.name) for f in self.fields]
        if not isinstance(v, (list, tuple)) or len(v) != len(self.fields):
            raise AnalysisException("struct length mismatch")
        return Struct((f.name, None if x is None else f.dataType.from_python(x)) for f, x in zip(self.fields, v))

    cast = from_python


class Struct(dict):
    pass


class FromUdf:
    """A UDF's result: later UDFs see the raw object, everything else the converted one."""

    __slots__ = ("raw", "typ")

    def __init__(self, raw, typ):
        self.raw, self.typ = raw, typ

    def value(self):
        return None if self.raw is None else self.typ.from_python(self.raw)


def plain(v):
    return v.value() if isinstance(v, FromUdf) else v


def raw(v):
    return v.raw if isinstance(v, FromUdf) else v


NAMED_TYPES = {"float": FloatType, "double": DoubleType, "int": IntegerType, "integer": IntegerType, "bigint": LongType, "long": LongType, "boolean": BooleanType, "string": StringType, "smallint": ShortType}


def as_type(t):
    if isinstance(t, DataType):
        return t
    if isinstance(t, type) and issubclass(t, DataType):
        return t()
    t = str(t).strip().lower()
    if t in NAMED_TYPES:
        return NAMED_TYPES[t]()
    m = re.fullmatch(r"array<(.+)>", t)
    if m:
        return ArrayType(as_type(m.group(1)))
    m = re.fullmatch(r"map<(\w+),\s*(.+)>", t)
    if m:
        return MapType(as_type(m.group(1)), as_type(m.group(2)))
    raise Unsupported(f"type {t!r}")


# ------------------------------------------------------------------ columns
def _null(f):
    def g(*a):
        return None if any(x is None for x in a) else f(*a)

    return g


class Column:
    def __init__(self, fn, name="expr", explode=None, agg=None):
        self.fn, self.name, self.exploder, self.agg = fn, name, explode, agg

    def value(self, row):
        return self.fn(row)

    def alias(self, *names):
        if len(names) != 1:
            c = Column(self.fn, names[0], self.exploder, self.agg)
            c.names = names
            return c
        return Column(self.fn, names[0], self.exploder, self.agg)

    name_ = alias

    def cast(self, t):
        t = as_type(t)

        def f(row):
            v = plain(self.fn(row))
            return None if v is None else t.cast(v)

        return Column(f, self.name)

    astype = cast

    def _bin(self, other, op, name="expr", swap=False):
        o = as_col(other, literal=True)
        a, b = (o, self) if swap else (self, o)
        return Column(lambda row: _null(op)(plain(a.fn(row)), plain(b.fn(row))), name)

    def __eq__(self, o):
        return self._bin(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._bin(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b)

    def __and__(self, o):
        o = as_col(o, True)
        return Column(lambda row: sql_and(plain(self.fn(row)), plain(o.fn(row))))

    __rand__ = __and__

    def __or__(self, o):
        o = as_col(o, True)
        return Column(lambda row: sql_or(plain(self.fn(row)), plain(o.fn(row))))

    __ror__ = __or__

    def __invert__(self):
        return Column(lambda row: _null(lambda a: not a)(plain(self.fn(row))))

    def __neg__(self):
        return Column(lambda row: _null(lambda a: -a)(plain(self.fn(row))))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, swap=True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, swap=True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: None if b == 0 else a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: None if b == 0 else a / b, swap=True)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: None if b == 0 else math.fmod(a, b))

    def __getitem__(self, k):
        return Column(lambda row: get_item(plain(self.fn(row)), k), f"{self.name}[{k}]")

    getItem = __getitem__
    getField = __getitem__

    def isNull(self):
        return Column(lambda row: plain(self.fn(row)) is None)

    def isNotNull(self):
        return Column(lambda row: plain(self.fn(row)) is not None)

    def isin(self, *vals):
        vals = vals[0] if len(vals) == 1 and isinstance(vals[0], (list, tuple, set)) else vals
        return Column(lambda row: _null(lambda a: a in vals)(plain(self.fn(row))))

    def between(self, lo, hi):
        return (self >= lo) & (self <= hi)

    def when(self, cond, value):
        prev, v = self.fn, as_col(value, True)
        c = Column(lambda row: prev(row) if self.hit(row) else v.fn(row) if plain(cond.fn(row)) else None)
        c.hit = lambda row: self.hit(row) or bool(plain(cond.fn(row)))
        return c

    def otherwise(self, value):
        v = as_col(value, True)
        return Column(lambda row: self.fn(row) if self.hit(row) else v.fn(row))

    def asc(self):
        c = Column(self.fn, self.name)
        c.descending = False
        return c

    def desc(self):
        c = Column(self.fn, self.name)
        c.descending = True
        return c

    def __bool__(self):
        raise ValueError("Cannot convert column into bool")

    __hash__ = None


def sql_and(a, b):
    if a is False or b is False:
        return False
    return None if a is None or b is None else bool(a and b)


def sql_or(a, b):
    if a is True or b is True:
        return True
    return None if a is None or b is None else bool(a or b)


def get_item(v, k):
    if v is None:
        return None
    if isinstance(v, dict):
        return v.get(k)
    return v[k] if 0 <= k < len(v) else None


def resolve(row, name):
    if name in row:
        return row[name]
    low = {k.lower(): k for k in row}
    if name.lower() in low:
        return row[low[name.lower()]]
    if "." in name:
        head, tail = name.split(".", 1)
        v = plain(resolve(row, head))
        for part in tail.split("."):
            v = None if v is None else v.get(part) if isinstance(v, dict) else Unsupported
            if v is Unsupported:
                raise AnalysisException(f"no field {part} in {head}")
        return v
    raise AnalysisException(f"cannot resolve '{name}' given input columns {sorted(row)}")


def col(name):
    return Column(lambda row: resolve(row, name), name.split(".")[-1])


column = col


def lit(v):
    return v if isinstance(v, Column) else Column(lambda row: v, str(v))


def as_col(c, literal=False):
    if isinstance(c, Column):
        return c
    return lit(c) if literal or not isinstance(c, str) else col(c)


UDF_CALLS = [0]


def udf(f=None, returnType=None):
    if f is None or isinstance(f, (DataType, str)):
        t = f if f is not None else returnType
        return lambda g: udf(g, t)
    t = as_type(returnType) if returnType is not None else StringType()

    def call(*cols):
        cs = [as_col(c) for c in cols]

        def value(row):
            UDF_CALLS[0] += 1
            return FromUdf(f(*[raw(c.fn(row)) for c in cs]), t)

        return Column(value, getattr(f, "__name__", "udf"))

    call.func, call.returnType = f, t
    return call


def _fn(g):
    def call(*cols):
        cs = [as_col(c) for c in cols]
        return Column(lambda row: _null(g)(*[plain(c.fn(row)) for c in cs]), g.__name__)

    return call


crc32 = _fn(lambda v: zlib.crc32(v.encode() if isinstance(v, str) else bytes(v)) & 0xFFFFFFFF)
map_keys = _fn(lambda m: list(m.keys()))
map_values = _fn(lambda m: list(m.values()))
size = _fn(len)
reverse = _fn(lambda v: v[::-1])
pow = _fn(lambda a, b: float(a) ** b)
abs_ = _fn(abs)
length = _fn(len)


def coalesce(*cols):
    cs = [as_col(c) for c in cols]
    return Column(lambda row: next((v for v in (plain(c.fn(row)) for c in cs) if v is not None), None))


def array(*cols):
    cs = [as_col(c) for c in cols]
    return Column(lambda row: [plain(c.fn(row)) for c in cs])


def element_at(c, k):
    c = as_col(c)

    def f(row):
        v = plain(c.fn(row))
        if v is None:
            return None
        if isinstance(v, dict):
            return v.get(k)
        return v[k - 1] if 1 <= k <= len(v) else v[k] if -len(v) <= k < 0 else None

    return Column(f)


def when(cond, value):
    v = as_col(value, True)
    c = Column(lambda row: v.fn(row) if plain(cond.fn(row)) else None)
    c.hit = lambda row: bool(plain(cond.fn(row)))
    return c


def expr(text):
    node = Parser(text).whole()
    return Column(lambda row: node(row, {}), text)


def explode(c):
    c = as_col(c)
    return Column(c.fn, "col", explode="inner")


def explode_outer(c):
    c = as_col(c)
    return Column(c.fn, "col", explode="outer")


def collect_list(c):
    c = as_col(c)
    return Column(c.fn, "collect_list", agg=lambda vs: [v for v in vs if v is not None])


def collect_set(c):
    c = as_col(c)
    return Column(c.fn, "collect_set", agg=lambda vs: list(dict.fromkeys(v for v in vs if v is not None)))


def count(c):
    c = as_col("*" if c == "*" else c) if c != "*" else lit(1)
    return Column(c.fn, "count", agg=lambda vs: sum(v is not None for v in vs))


def sum_(c):
    c = as_col(c)
    return Column(c.fn, "sum", agg=lambda vs: sum(v for v in vs if v is not None))


def asc(c):
    return as_col(c).asc()


def desc(c):
    return as_col(c).desc()


def rand(seed=None):
    r = random.Random(seed) if seed is not None else RNG
    return Column(lambda row: r.random(), "rand")


# ------------------------------------------------------------------ SQL expressions
TOKEN = re.compile(r"\s*(?:(\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)|('(?:[^'\\]|\\.)*')|(`[^`]+`|[A-Za-z_]\w*)|(->|<=>|<=|>=|<>|!=|==|\|\||[-+*/%(),.<>=\[\]]))")


class Parser:
    def __init__(self, text):
        self.toks, i = [], 0
        text = text.rstrip()
        while i < len(text):
            m = TOKEN.match(text, i)
            if not m or m.end() == i:
                raise Unsupported(f"SQL: {text[i:i + 40]!r}")
            self.toks.append(next((k, v) for k, v in zip("nsio", m.groups()) if v is not None))
            i = m.end()
        self.p = 0

    def peek(self, k=0):
        return self.toks[self.p + k] if self.p + k < len(self.toks) else ("e", "")

    def take(self, *vals):
        k, v = self.peek()
        if vals and v.lower() not in vals:
            raise Unsupported(f"SQL: expected {vals} got {v!r}")
        self.p += 1
        return k, v

    def is_(self, *vals):
        k, v = self.peek()
        return k in "io" and v.lower() in vals

    def whole(self):
        e = self.expr()
        if self.peek()[0] != "e":
            raise Unsupported(f"SQL: trailing {self.peek()}")
        return e

    def expr(self):
        return self.or_()

    def or_(self):
        a = self.and_()
        while self.is_("or"):
            self.take()
            a = (lambda x, y: lambda r, e: sql_or(x(r, e), y(r, e)))(a, self.and_())
        return a

    def and_(self):
        a = self.not_()
        while self.is_("and"):
            self.take()
            a = (lambda x, y: lambda r, e: sql_and(x(r, e), y(r, e)))(a, self.not_())
        return a

    def not_(self):
        if self.is_("not"):
            self.take()
            a = self.not_()
            return lambda r, e: _null(lambda v: not v)(a(r, e))
        return self.cmp()

    OPS = {"=": lambda a, b: a == b, "==": lambda a, b: a == b, "<>": lambda a, b: a != b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
           "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: None if b == 0 else a / b, "%": lambda a, b: None if b == 0 else math.fmod(a, b)}

    def binary(self, sub, *ops):
        a = sub()
        while self.peek()[0] == "o" and self.peek()[1] in ops:
            f = _null(self.OPS[self.take()[1]])
            a = (lambda x, y, f: lambda r, e: f(x(r, e), y(r, e)))(a, sub(), f)
        return a

    def cmp(self):
        a = self.binary(self.add, "=", "==", "<>", "!=", "<", "<=", ">", ">=")
        while self.is_("is", "between", "in"):
            if self.take()[1].lower() == "is":
                neg = self.is_("not") and bool(self.take())
                self.take("null")
                a = (lambda x, n: lambda r, e: (x(r, e) is None) != n)(a, neg)
            else:
                raise Unsupported("SQL: between/in")
        return a

    def add(self):
        return self.binary(self.mul, "+", "-")

    def mul(self):
        return self.binary(self.unary, "*", "/", "%")

    def unary(self):
        if self.is_("-", "+"):
            neg = self.take()[1] == "-"
            a = self.unary()
            return (lambda r, e: _null(lambda v: -v)(a(r, e))) if neg else a
        return self.postfix()

    def postfix(self):
        a = self.primary()
        while self.is_("[", "."):
            if self.take()[1] == "[":
                k = self.expr()
                self.take("]")
                a = (lambda x, k: lambda r, e: get_item(x(r, e), k(r, e)))(a, k)
            else:
                name = self.take()[1].strip("`")
                a = (lambda x, n: lambda r, e: get_item(x(r, e), n))(a, name)
        return a

    def lambda_(self):
        """`x -> e` or `(x, y) -> e`, or None when there is none here."""
        p = self.p
        names = []
        if self.is_("("):
            self.take()
            while self.peek()[0] == "i":
                names.append(self.take()[1])
                if self.is_(","):
                    self.take()
            if not (self.is_(")") and self.take() and self.is_("->")):
                self.p = p
                return None
        elif self.peek()[0] == "i" and self.peek(1)[1] == "->":
            names.append(self.take()[1])
        else:
            return None
        self.take("->")
        body = self.expr()
        return lambda r, e: (lambda *args: body(r, {**e, **{n.lower(): a for n, a in zip(names, args)}}))

    def primary(self):
        k, v = self.take()
        if k == "n":
            num = float(v) if re.search(r"[.eE]", v) else int(v)
            return lambda r, e: num
        if k == "s":
            return lambda r, e: v[1:-1]
        if k == "o" and v == "(":
            a = self.expr()
            self.take(")")
            return a
        if k != "i":
            raise Unsupported(f"SQL: {v!r}")
        low = v.lower()
        if low in ("null", "true", "false"):
            const = {"null": None, "true": True, "false": False}[low]
            return lambda r, e: const
        if low == "cast":
            self.take("(")
            a = self.expr()
            self.take("as")
            t = self.type_()
            self.take(")")
            return lambda r, e: _null(t.cast)(a(r, e))
        if low == "case":
            arms, other = [], None
            while self.is_("when"):
                self.take()
                c = self.expr()
                self.take("then")
                arms.append((c, self.expr()))
            if self.is_("else"):
                self.take()
                other = self.expr()
            self.take("end")
            return lambda r, e: next((y(r, e) for c, y in arms if c(r, e)), other(r, e) if other else None)
        if self.is_("("):
            self.take()
            args = []
            while not self.is_(")"):
                args.append(self.lambda_() or self.expr())
                if not self.is_(")"):
                    self.take(",")
            self.take(")")
            return self.function(low, args)
        name = v.strip("`")
        return lambda r, e: e[name.lower()] if name.lower() in e else plain(resolve(r, name))

    def type_(self):
        _, v = self.take()
        if self.is_("<"):
            self.take()
            inner = [self.type_()]
            while self.is_(","):
                self.take()
                inner.append(self.type_())
            self.take(">")
            return ArrayType(inner[0]) if v.lower() == "array" else MapType(*inner)
        return as_type(v)

    def function(self, name, args):
        if name in NAMED_TYPES:
            t = NAMED_TYPES[name]()
            return lambda r, e: _null(t.cast)(args[0](r, e))
        if name in ("coalesce", "nvl", "ifnull"):
            return lambda r, e: next((v for v in (a(r, e) for a in args) if v is not None), None)
        if name == "if":
            return lambda r, e: args[1](r, e) if args[0](r, e) else args[2](r, e)
        if name in ("least", "greatest"):
            f = min if name == "least" else max
            return lambda r, e: f((v for v in (a(r, e) for a in args) if v is not None), default=None)
        if name in ("aggregate", "reduce"):
            def agg(r, e):
                xs, acc = args[0](r, e), args[1](r, e)
                if xs is None:
                    return None
                f = args[2](r, e)
                for x in xs:
                    acc = f(acc, x)
                return args[3](r, e)(acc) if len(args) > 3 else acc
            return agg
        if name == "transform":
            return lambda r, e: _null(lambda xs: [args[1](r, e)(x) for x in xs])(args[0](r, e))
        simple = {
            "power": lambda a, b: float(a) ** b, "pow": lambda a, b: float(a) ** b, "abs": abs, "exp": math.exp, "ln": lambda a: math.log(a) if a > 0 else None, "log": lambda a: math.log(a) if a > 0 else None,
            "sqrt": lambda a: math.sqrt(a) if a >= 0 else math.nan, "reverse": lambda a: a[::-1], "size": len, "signum": lambda a: float((a > 0) - (a < 0)), "sign": lambda a: float((a > 0) - (a < 0)), "floor": math.floor, "ceil": math.ceil,
            "element_at": lambda m, k: m.get(k) if isinstance(m, dict) else get_item(m, k - 1 if k > 0 else len(m) + k), "slice": lambda a, s, n: a[s - 1: s - 1 + n], "map_keys": lambda m: list(m), "map_values": lambda m: list(m.values()),
            "array": lambda *a: list(a), "crc32": lambda v: zlib.crc32(v.encode()) & 0xFFFFFFFF, "mod": math.fmod, "negative": lambda a: -a,
        }
        if name not in simple:
            raise Unsupported(f"SQL function {name}")
        f = _null(simple[name])
        return lambda r, e: f(*[a(r, e) for a in args])


# ------------------------------------------------------------------ data frames
class Row(tuple):
    def __new__(cls, names, values):
        r = tuple.__new__(cls, values)
        r.__dict__["_names"] = list(names)
        return r

    def __getitem__(self, k):
        return tuple.__getitem__(self, self._names.index(k) if isinstance(k, str) else k)

    def __getattr__(self, k):
        if k.startswith("__") or k not in self.__dict__.get("_names", []):
            raise AttributeError(k)
        return self[k]

    def __contains__(self, k):
        return k in self._names

    def asDict(self):
        return dict(zip(self._names, self))


class RDD:
    def __init__(self, items):
        self.items = items

    def flatMap(self, f):
        return RDD([y for x in self.items for y in f(x)])

    def map(self, f):
        return RDD([f(x) for x in self.items])

    def filter(self, f):
        return RDD([x for x in self.items if f(x)])

    def distinct(self):
        return RDD(list(dict.fromkeys(self.items)))

    def collect(self):
        return list(self.items)


class DataFrame:
    def __init__(self, columns, rows):
        self.columns, self.rows = list(columns), rows

    def _new(self, columns, rows):
        return DataFrame(columns, rows)

    def createOrReplaceTempView(self, name):
        VIEWS[name.lower()] = self

    def createTempView(self, name):
        if name.lower() in VIEWS:
            raise AnalysisException(f"Temporary view {name} already exists")
        VIEWS[name.lower()] = self

    registerTempTable = createOrReplaceTempView

    def __getitem__(self, k):
        if isinstance(k, str):
            return col(k)
        return self.select(*k) if isinstance(k, (list, tuple)) else self.filter(k)

    def __getattr__(self, k):
        if k.startswith("__") or k not in self.__dict__.get("columns", []):
            raise AttributeError(k)
        return col(k)

    def drop(self, *names):
        names = {getattr(n, "name", n) for n in names}
        keep = [c for c in self.columns if c not in names]
        return self._new(keep, [{c: r[c] for c in keep} for r in self.rows])

    def withColumn(self, name, c):
        cols = self.columns + ([] if name in self.columns else [name])
        return self._new(cols, [{**r, name: c.fn(r)} for r in self.rows])

    def withColumnRenamed(self, old, new):
        if old not in self.columns:
            return self
        cols = [new if c == old else c for c in self.columns]
        return self._new(cols, [{new if k == old else k: v for k, v in r.items()} for r in self.rows])

    def filter(self, cond):
        if isinstance(cond, str):
            cond = expr(cond)
        return self._new(self.columns, [r for r in self.rows if plain(cond.fn(r)) is True])

    where = filter

    def select(self, *cols):
        if len(cols) == 1 and isinstance(cols[0], (list, tuple)):
            cols = cols[0]
        out = []
        for c in cols:
            out += [col(x) for x in self.columns] if isinstance(c, str) and c == "*" else [as_col(c)]
        names = []
        gens = [c for c in out if c.exploder]
        if len(gens) > 1:
            raise AnalysisException("only one generator allowed per select clause")
        rows = []
        for r in self.rows:
            base = {}
            items = [None]
            if gens:
                v = plain(gens[0].fn(r))
                items = [] if v is None else list(v.items()) if isinstance(v, dict) else list(v)
                if not items and gens[0].exploder == "outer":
                    items = [None]
            for it in items:
                base = {}
                for c in out:
                    if c.exploder:
                        ns = getattr(c, "names", None) or ([c.name] if not isinstance(it, tuple) else ["key", "value"])
                        if isinstance(it, tuple):
                            base.update(zip(ns, it))
                        else:
                            base[ns[0]] = it
                    else:
                        base[c.name] = c.fn(r)
                rows.append(base)
        for c in out:
            names += list(getattr(c, "names", None) or [c.name])
        if rows:
            names = list(rows[0])
        return self._new(names, rows)

    def selectExpr(self, *exprs):
        return self.select(*[expr(e) for e in exprs])

    def distinct(self):
        seen = {}
        for r in self.rows:
            seen.setdefault(tuple(_freeze(plain(r[c])) for c in self.columns), r)
        return self._new(self.columns, list(seen.values()))

    dropDuplicates = distinct

    def union(self, o):
        return self._new(self.columns, self.rows + [dict(zip(self.columns, (r[c] for c in o.columns))) for r in o.rows])

    def limit(self, n):
        return self._new(self.columns, self.rows[:n])

    def cache(self):
        return self

    persist = cache

    def show(self, *a, **k):
        pass

    def count(self):
        return len(self.rows)

    def orderBy(self, *cols):
        rows = list(self.rows)
        for c in reversed([as_col(c) for c in cols]):
            rows.sort(key=lambda r: plain(c.fn(r)), reverse=getattr(c, "descending", False))
        return self._new(self.columns, rows)

    sort = orderBy

    def collect(self):
        return [Row(self.columns, [plain(r[c]) for c in self.columns]) for r in self.rows]

    def first(self):
        rows = self.collect()
        return rows[0] if rows else None

    def head(self, n=None):
        return self.first() if n is None else self.collect()[:n]

    @property
    def rdd(self):
        return RDD(self.collect())

    def toPandas(self):
        import pandas

        return pandas.DataFrame({c: [plain(r[c]) for r in self.rows] for c in self.columns})

    def groupBy(self, *cols):
        return Grouped(self, [as_col(c) for c in cols])

    groupby = groupBy

    def sampleBy(self, c, fractions, seed=None):
        c = as_col(c)
        r = random.Random(seed) if seed is not None else RNG
        for f in fractions.values():
            if not 0 <= f <= 1:
                raise AnalysisException(f"fractions must be in [0, 1], got {f}")
        return self._new(self.columns, [row for row in self.rows if r.random() < fractions.get(plain(c.fn(row)), 0.0)])

    def sample(self, *a, **k):
        raise Unsupported("sample")

    @property
    def write(self):
        return Writer(self)


class Grouped:
    def __init__(self, df, keys):
        self.df, self.keys = df, keys

    def groups(self):
        g = {}
        for r in self.df.rows:
            k = tuple(plain(c.fn(r)) for c in self.keys)
            g.setdefault(tuple(_freeze(x) for x in k), (k, []))[1].append(r)
        items = list(g.values())
        RNG.shuffle(items)  # no order is promised
        return items

    def agg(self, *aggs):
        names = [c.name for c in self.keys]
        rows = []
        for k, rs in self.groups():
            row = dict(zip(names, k))
            for a in aggs:
                if a.agg is None:
                    raise Unsupported("aggregate")
                vals = [plain(a.fn(r)) for r in rs]
                row[a.name] = a.agg(vals)
            rows.append(row)
        return DataFrame(names + [a.name for a in aggs], rows)

    def count(self):
        return self.agg(Column(lambda r: 1, "count", agg=len))


def _freeze(v):
    if isinstance(v, dict):
        return tuple(sorted((k, _freeze(x)) for k, x in v.items()))
    return tuple(_freeze(x) for x in v) if isinstance(v, (list, tuple)) else v


class Writer:
    def __init__(self, df):
        self.df, self.mode_ = df, "errorifexists"

    def mode(self, m):
        self.mode_ = m
        return self

    def format(self, f):
        if f != "parquet":
            raise Unsupported(f"format {f}")
        return self

    def option(self, *a):
        return self

    def saveAsTable(self, name):
        low = name.lower()
        if Catalog().tableExists(low):
            if self.mode_ in ("errorifexists", "error"):
                raise AnalysisException(f"Table {name} already exists")
            if self.mode_ == "ignore":
                return
            if self.mode_ == "append":
                TABLES[low] = TABLES[low].union(self.df)
                return
        TABLES[low] = DataFrame(self.df.columns, [{c: plain(r[c]) for c in self.df.columns} for r in self.df.rows])
        SAVED.append(name)


class Catalog:
    class _J:
        def tableExists(self, name):
            low = name.lower()
            hit = low in TABLES or low in VIEWS or any(c(low) for c in COLLIDE)
            return hit

    _jcatalog = _J()

    def tableExists(self, name):
        return self._jcatalog.tableExists(name)

    def dropTempView(self, name):
        return VIEWS.pop(name.lower(), None) is not None

    def listTables(self):
        return [types.SimpleNamespace(name=n) for n in list(TABLES) + list(VIEWS)]


class Session:
    catalog = Catalog()
    sparkContext = types.SimpleNamespace(setLogLevel=lambda lvl: None)

    def table(self, name):
        low = name.strip("` ").lower()
        if low in VIEWS:
            return VIEWS[low]
        if low in TABLES:
            return TABLES[low]
        raise AnalysisException(f"Table or view not found: {name}")

    def sql(self, text):
        QUERIES.append(text)
        m = re.fullmatch(r"\s*DESCRIBE\s+FORMATTED\s+(\S+)\s*", text, re.I)
        if m:
            self.table(m.group(1))
            return DataFrame(["col_name", "data_type", "comment"], [dict(col_name=c, data_type="x", comment=None) for c in ["Database", "Table"]] + [dict(col_name="Location", data_type=LOCATION + m.group(1).lower(), comment="")])
        m = re.fullmatch(r"\s*SELECT\s+(.*?)\s+FROM\s+([`\w]+)(?:\s+WHERE\s+(.*?))?\s*;?\s*", text, re.I | re.S)
        if not m:
            raise Unsupported(f"SQL statement {text!r}")
        df = self.table(m.group(2))
        if m.group(3):
            df = df.filter(expr(m.group(3)))
        out = []
        for item in _split(m.group(1)):
            if item == "*":
                out.append("*")
                continue
            a = re.fullmatch(r"(.*?)\s+as\s+([`\w]+)", item, re.I | re.S)
            out.append(expr(a.group(1)).alias(a.group(2).strip("`")) if a else expr(item) if not re.fullmatch(r"\w+", item) else col(item))
        return df.select(*out)

    @property
    def read(self):
        return types.SimpleNamespace(parquet=read_parquet, table=self.table)

    def createDataFrame(self, data, schema=None):
        if hasattr(data, "to_dict"):
            return DataFrame(list(data.columns), [dict(r) for r in data.to_dict("records")])
        raise Unsupported("createDataFrame")

    def stop(self):
        pass


def _split(text):
    parts, depth, cur = [], 0, ""
    for ch in text:
        if ch == "," and depth == 0:
            parts.append(cur.strip())
            cur = ""
            continue
        depth += ch == "("
        depth -= ch == ")"
        cur += ch
    return parts + [cur.strip()]


def read_parquet(url):
    name = url.rsplit("/", 1)[-1]
    if not url.startswith("file:///") or name.lower() not in TABLES:
        raise FileNotFoundError(url)
    return TABLES[name.lower()]


class Builder:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: self

    def getOrCreate(self):
        return SESSION


SESSION = Session()


class SparkSession:
    builder = Builder()


def reset(seed=0):
    TABLES.clear()
    VIEWS.clear()
    SAVED.clear()
    QUERIES.clear()
    COLLIDE.clear()
    READERS.clear()
    LOADED.clear()
    RNG.seed(seed)


def table(name, rows):
    """Register a table of plain rows (list of dicts with the same keys)."""
    VIEWS[name.lower()] = DataFrame(list(rows[0]) if rows else [], [dict(r) for r in rows])


# ------------------------------------------------------------------ petastorm
READERS = []
LOADED = []  # (reader, copy of each batch handed out)


class Reader:
    """What make_batch_reader returns: column batches of a stored table."""

    batched_output = True

    def __init__(self, url, num_epochs=1, **kw):
        self.df, self.url, self.num_epochs, self.options = read_parquet(url), url, num_epochs, kw
        self.stopped = False
        READERS.append(self)

    def rows(self):
        n = 0
        while self.num_epochs is None or n < self.num_epochs:
            yield from self.df.rows
            n += 1

    def stop(self):
        self.stopped = True

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()


def make_batch_reader(dataset_url, **kw):
    return Reader(dataset_url, **kw)


def _cell(v):
    if isinstance(v, bool):
        return np.uint8(v)
    if isinstance(v, (list, tuple)):
        if any(x is None for x in v):
            raise ValueError("null in an array column")
        a = np.array(v, dtype=np.uint8 if v and isinstance(v[0], bool) else np.float32 if v and isinstance(v[0], float) else np.int64 if v else np.float32)
        return a
    if isinstance(v, float):
        return np.float32(v)
    if isinstance(v, int):
        return np.int64(v)
    if v is None:
        raise TypeError("null value in a column given to pytorch")
    return v


class DataLoader:
    def __init__(self, reader, batch_size=1, collate_fn=None, **kw):
        self.reader, self.batch_size, self.collate_fn = reader, batch_size, collate_fn
        self.batches = 0

    def __iter__(self):
        buf = []
        for r in self.reader.rows():
            buf.append({k: _cell(v) for k, v in r.items()})
            if len(buf) == self.batch_size:
                yield self.emit(buf)
                buf = []
        if buf:
            yield self.emit(buf)

    def emit(self, buf):
        self.batches += 1
        out = self.collate_fn(buf)
        LOADED.append((self.reader, copy.deepcopy(out)))
        return out

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.reader.stop()
        self.reader.join()


def decimal_friendly_collate(batch):
    from torch.utils.data.dataloader import default_collate

    if isinstance(batch[0], decimal.Decimal):
        return batch
    if isinstance(batch[0], dict):
        return {k: decimal_friendly_collate([d[k] for d in batch]) for k in batch[0]}
    return default_collate(batch)


# ------------------------------------------------------------------ installation
def install():
    def mod(name, **attrs):
        m = types.ModuleType(name)
        m.__path__ = []
        m.__dict__.update(attrs)
        sys.modules[name] = m
        return m

    g = globals()
    fnames = ["col", "column", "lit", "udf", "crc32", "map_keys", "map_values", "size", "reverse", "pow", "coalesce", "array", "element_at", "when", "expr", "explode", "explode_outer", "collect_list", "collect_set", "count", "asc", "desc", "rand", "length"]
    functions = mod("pyspark.sql.functions", **{n: g[n] for n in fnames}, abs=abs_, sum=sum_)
    tnames = ["DataType", "StringType", "LongType", "IntegerType", "ShortType", "FloatType", "DoubleType", "BooleanType", "ArrayType", "MapType", "StructField", "StructType"]
    typesm = mod("pyspark.sql.types", **{n: g[n] for n in tnames})
    utils = mod("pyspark.sql.utils", AnalysisException=AnalysisException)
    sql = mod("pyspark.sql", SparkSession=SparkSession, DataFrame=DataFrame, Column=Column, Row=Row, functions=functions, types=typesm, utils=utils)
    mod("pyspark", sql=sql, SparkConf=Builder)
    pt = mod("petastorm.pytorch", DataLoader=DataLoader, decimal_friendly_collate=decimal_friendly_collate)
    mod("petastorm", make_batch_reader=make_batch_reader, pytorch=pt)


install()
