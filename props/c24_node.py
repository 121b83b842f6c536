"""A model with containers of itself, used by c24."""
import pydantic

from psygnal.containers import EventedDict, EventedList


class Node(pydantic.BaseModel):
    n: int = 0
    kids: EventedList["Node"] = pydantic.Field(default_factory=EventedList)
    named: EventedDict[str, "Node"] = pydantic.Field(default_factory=EventedDict)


class PNode(pydantic.BaseModel):
    n: int = 0
    kids: list["PNode"] = pydantic.Field(default_factory=list)
    named: dict[str, "PNode"] = pydantic.Field(default_factory=dict)
