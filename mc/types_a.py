"""Python types that configurations of the checks map scalars to: strings that know what they are.  Some are named like
what generated modules define or import themselves."""
from typing import Any

from pydantic_core import core_schema


class Marked(str):
    @classmethod
    def __get_pydantic_core_schema__(cls, source: Any, handler: Any) -> Any:
        return core_schema.no_info_after_validator_function(cls, core_schema.str_schema(), serialization=core_schema.plain_serializer_function_ser_schema(str, when_used="json"))


def make(module, *names):
    return {n: type(n, (Marked,), {"__module__": module}) for n in names}


NAMES = ("Slug", "Color", "In", "A", "F", "T", "Field", "Enum", "BaseModel", "Optional", "List", "Literal", "Union", "Annotated", "UNSET", "ConfigDict", "datetime", "Arguments", "AArguments", "One", "Tuple", "Any", "Deprecated", "GraphQLDefault", "a", "AsyncIterator", "print_", "Slug_")
globals().update(make(__name__, *NAMES))
