"""Importable (hence picklable) classes and callbacks used by c23."""
from __future__ import annotations

from dataclasses import dataclass, field
from typing import Any, ClassVar

import attrs
import msgspec
import pydantic

from psygnal import EventedModel, Signal, SignalGroup, SignalGroupDescriptor, evented
from psygnal.containers import EventedDict, EventedList, EventedOrderedSet, EventedSet, Selection, SelectableEventedList

LOG: list = []


def f0(*args):
    LOG.append(("f0", args))


def f1(a):
    LOG.append(("f1", (a,)))


def f2(a, b=None):
    LOG.append(("f2", (a, b)))


def f3(*args):
    LOG.append(("f3", args))


def fp(p, *args):
    LOG.append(("fp", (p, *args)))


class Static:
    @staticmethod
    def s(*args):
        LOG.append(("s", args))


def need3(a, b, c):
    """More arguments than any signal has."""


class Emitter:
    a = Signal(int)
    b = Signal(int, str, reemission="queued", description="the b")
    c = Signal(object, name="cee", check_nargs_on_connect=False, check_types_on_connect=True, reemission="latest-only")

    def __init__(self):
        self.payload = [1]


class EqEmitter(Emitter):
    """Equal to all others of its kind (and hashable)."""

    def __eq__(self, other):
        return isinstance(other, EqEmitter)

    def __hash__(self):
        return 7


class G(SignalGroup):
    a = Signal(int)
    b = Signal(int, str, reemission="queued", description="the b")
    c = Signal(object, check_nargs_on_connect=False, check_types_on_connect=True, reemission="latest-only")


class Conflict(SignalGroup):
    """With a signal that cannot be an attribute."""

    a = Signal(int)
    b = Signal(int, str, reemission="queued", description="the b")
    connect = Signal(object, check_nargs_on_connect=False, check_types_on_connect=True, reemission="latest-only")


class Owner:
    def __init__(self):
        self.g = G(self)


@evented
@dataclass
class DC:
    x: Any = 1
    y: Any = None


@dataclass
class DCN:
    x: Any = 1
    y: Any = None
    events: ClassVar[SignalGroupDescriptor] = SignalGroupDescriptor(cache_on_instance=False)


@attrs.define
class AT:
    x: Any = 1
    y: Any = None
    events: ClassVar[SignalGroupDescriptor] = SignalGroupDescriptor()


class MS(msgspec.Struct, weakref=True):
    x: Any = 1
    y: Any = None
    events: ClassVar[SignalGroupDescriptor] = SignalGroupDescriptor()


class PM(pydantic.BaseModel):
    x: Any = 1
    y: Any = None
    events: ClassVar[SignalGroupDescriptor] = SignalGroupDescriptor()


class EM(EventedModel):
    x: Any = 1
    y: Any = None


class EMP(EventedModel):
    x: Any = 1
    y: Any = None
    _p: int = pydantic.PrivateAttr(0)

    model_config = {"field_dependencies": {"twin": ["x"]}, "allow_property_setters": True, "extra": "allow"}

    @property
    def twin(self):
        return [self.x, self.x]

    @twin.setter
    def twin(self, v):
        self.x = v[0]


RECORDS = {"dc": DC, "dcn": DCN, "at": AT, "ms": MS, "pm": PM, "em": EM, "emp": EMP}
CONTAINERS = {"list": EventedList, "dict": EventedDict, "set": EventedSet, "oset": EventedOrderedSet, "sel": Selection, "slist": SelectableEventedList}
