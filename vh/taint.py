"""Numbers that carry the set of literals they were computed from."""
import operator

from . import reftrace


def labels(value):
    return getattr(value, "_vh_labels", None) or frozenset()


def make(value, labs):
    """A number equal to ``value`` that carries labels."""
    if isinstance(value, (T, F)):
        labs = labs | value._vh_labels
    if isinstance(value, bool):
        new = B(int(value))
    elif isinstance(value, int):
        new = T(int(value))
    elif isinstance(value, float):
        new = F(float(value))
    else:
        return value
    new._vh_labels = labs
    return new


def plain(value):
    if isinstance(value, B):
        return bool(value)
    if isinstance(value, T):
        return int(value)
    if isinstance(value, F):
        return float(value)
    return value


def binary(op, swap=False):
    def method(self, other):
        if not isinstance(other, (int, float)):
            return NotImplemented
        one, two = plain(self), plain(other)
        return make(op(two, one) if swap else op(one, two),
                    labels(self) | labels(other))
    return method


def unary(op):
    def method(self):
        return make(op(plain(self)), labels(self))
    return method


class Mixin(object):
    pass


for _name in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow",
              "and_", "or_", "xor", "lshift", "rshift", "lt", "le", "gt",
              "ge", "eq", "ne"):
    _op = getattr(operator, _name)
    _dunder = "__{}__".format(_name.rstrip("_"))
    setattr(Mixin, _dunder, binary(_op))
    if _name not in ("lt", "le", "gt", "ge", "eq", "ne"):
        setattr(Mixin, "__r{}__".format(_name.rstrip("_")),
                binary(_op, True))
for _name in ("neg", "pos", "abs", "invert"):
    setattr(Mixin, "__{}__".format(_name), unary(getattr(operator, _name)))


class T(Mixin, int):
    __hash__ = int.__hash__
    _vh_labels = frozenset()


class F(Mixin, float):
    __hash__ = float.__hash__
    _vh_labels = frozenset()


class B(T):
    """A truth value."""
    __hash__ = int.__hash__

    def __repr__(self):
        return repr(int(self) == 1)

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(int(self)), spec)

    def __bool__(self):
        return int.__ne__(self, 0)


class Tracer(reftrace.Tracer):
    """Literals are replaced by labelled numbers; labels are logged."""

    def v(self, key, value):
        if self.off:
            return value
        num = len(self.values)
        if self.keys[key][0] == "literal" and type(value) in (int, float):
            value = make(value, frozenset([num]))
        result = super(Tracer, self).v(key, value)
        self.labels.append(labels(value))
        return result

    def a(self, keys, value):
        before = len(self.values)
        super(Tracer, self).a(keys, value)
        self.labels.extend([labels(value)] * (len(self.values) - before))
        return value
