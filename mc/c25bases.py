"""Bases and markers that configurations of C25 refer to."""
from pydantic import BaseModel


class Base(BaseModel):
    pass


class Mix:
    pass


class Default:
    def __init__(self, value):
        self.value = value


class Deprecated:
    def __init__(self, reason=None):
        self.reason = reason
