"""Base classes that configurations of the checks refer to."""


class Loud:
    def noise(self):
        return "loud"


class Furry:
    def touch(self):
        return "furry"


class Tall:
    pass


class Heavy:
    pass


class Sub(Loud):
    pass


from typing import NewType

from pydantic import BaseModel  # noqa: E402


class Vocal(BaseModel):
    def voice(self):
        return "vocal"


class BRoot(BaseModel):
    pass


class IRoot(BaseModel):
    pass


class QRoot(BaseModel):
    pass


class FRoot(BaseModel):
    pass


class GRoot(BRoot):
    pass


class Plain:
    """a base without fields for server types"""


class Plain2:
    pass


Id = NewType("Id", str)
