"""User-defined stylers, referenced by configuration as mc.stylers.X."""
from turms.stylers.base import BaseStyler, StylerConfig
from pydantic import Field


def _styler(name, classes, fields):
    ns = {"__module__": __name__, "config": Field(default_factory=lambda: StylerConfig(type=f"mc.stylers.{name}")), "__annotations__": {"config": StylerConfig}}
    for k in ("query", "mutation", "subscription", "enum", "fragment", "input", "object"):
        ns[f"style_{k}_name"] = lambda self, n: classes(n)
    for k in ("node", "parameter"):
        ns[f"style_{k}_name"] = lambda self, n: fields(n)
    return type(name, (BaseStyler,), ns)


Shout = _styler("Shout", str.upper, str.upper)
Whisper = _styler("Whisper", str.lower, str.lower)
Prefix = _styler("Prefix", lambda n: "T" + n, lambda n: "x_" + n)
Under = _styler("Under", lambda n: n + "_", lambda n: n + "_")
Camel = _styler("Camel", lambda n: n, lambda n: n[0] + "".join(p[:1].upper() + p[1:] for p in n[1:].split("_")))
