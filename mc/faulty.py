"""Stages that fail in a chosen way, referenced by configuration as mc.faulty.PluginValueError etc."""
import os

from pydantic import ConfigDict, Field
from turms.errors import GenerationError
from turms.parsers.base import Parser, ParserConfig
from turms.plugins.base import Plugin, PluginConfig
from turms.processors.base import Processor, ProcessorConfig
from turms.stylers.base import StylerConfig

from .stylers import Prefix


class Odd(BaseException):
    """not an Exception"""


def _death():
    os._exit(137)


def _raise(exc):
    def go():
        raise exc
    return go


FAILURES = {"Value": _raise(ValueError("broken")), "Generation": _raise(GenerationError("broken [/red] [")), "Memory": _raise(MemoryError()), "Recursion": _raise(RecursionError("deep")), "Interrupt": _raise(KeyboardInterrupt()),
            "Exit": _raise(SystemExit(3)), "Assertion": _raise(AssertionError()), "Os": _raise(OSError(5, "io")), "Unicode": _raise(UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad")), "Stop": _raise(StopIteration()),
            "Odd": _raise(Odd("odd")), "Death": _death}
QUIET = ("Death", "Interrupt", "Exit", "Odd")  # nothing after these needs to run


def _plugin(n, fail):
    def generate_ast(self, client_schema, config, registry):
        fail()
    return type(f"Plugin{n}", (Plugin,), {"__module__": __name__, "generate_ast": generate_ast, "config": Field(default_factory=lambda: PluginConfig(type="x")), "__annotations__": {"config": PluginConfig}})


def _parser(n, fail):
    def parse_ast(self, asts):
        fail()
    return type(f"Parser{n}", (Parser,), {"__module__": __name__, "parse_ast": parse_ast, "model_config": ConfigDict(extra="ignore")})


def _processor(n, fail):
    def run(self, gen_file, config):
        fail()
    return type(f"Processor{n}", (Processor,), {"__module__": __name__, "run": run, "config": Field(default_factory=lambda: ProcessorConfig(type="x")), "__annotations__": {"config": ProcessorConfig}})


def _styler(n, fail):
    def style_query_name(self, name):
        fail()
    return type(f"Styler{n}", (Prefix,), {"__module__": __name__, "style_query_name": style_query_name, "config": Field(default_factory=lambda: StylerConfig(type="x")), "__annotations__": {"config": StylerConfig}})


for _n, _f in FAILURES.items():
    for _make in (_plugin, _parser, _processor, _styler):
        _c = _make(_n, _f)
        globals()[_c.__name__] = _c


class ProcessorNotText(Processor):
    config: ProcessorConfig = Field(default_factory=lambda: ProcessorConfig(type="x"))

    def run(self, gen_file, config):
        return None


class ProcessorSurrogate(Processor):
    """text that cannot be written as UTF-8, after some that can"""
    config: ProcessorConfig = Field(default_factory=lambda: ProcessorConfig(type="x"))

    def run(self, gen_file, config):
        return gen_file + "# " + "x" * 20000 + "\ud800\n"


class PluginNotTree(Plugin):
    config: PluginConfig = Field(default_factory=lambda: PluginConfig(type="x"))

    def generate_ast(self, client_schema, config, registry):
        return [5]
