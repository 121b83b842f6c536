"""Models used by c24 (no postponed annotations: pydantic evaluates them here)."""
import pydantic

from psygnal import EventedModel
from psygnal.containers import EventedDict, EventedList, EventedSet


class Sub(pydantic.BaseModel):
    n: int = 0
    s: EventedSet[int] = pydantic.Field(default_factory=EventedSet)
    d: EventedDict[str, EventedList[int]] = pydantic.Field(default_factory=EventedDict)


class ESub(EventedModel):
    n: int = 0
    s: EventedSet[int] = pydantic.Field(default_factory=EventedSet)
    d: EventedDict[str, EventedList[int]] = pydantic.Field(default_factory=EventedDict)


class PSub(pydantic.BaseModel):
    n: int = 0
    s: set[int] = pydantic.Field(default_factory=set)
    d: dict[str, list[int]] = pydantic.Field(default_factory=dict)
