"""Observations on generated models (pydantic v2 API)."""
import json


def dump(obj, **kw):
    return obj.model_dump(by_alias=True, mode="json", **kw)


def tojson(x):
    return json.loads(json.dumps(x, default=str))
