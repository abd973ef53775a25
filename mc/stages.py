"""Stages that make what they were given visible, referenced by configuration as mc.stages.X."""
import ast
from typing import List

from pydantic import Field
from turms.parsers.base import Parser, ParserConfig
from turms.processors.base import Processor, ProcessorConfig

CALLS = []  # (stage, what it was given)


class TagConfig(ProcessorConfig):
    tag: str = "T"
    fail: str = ""
    where: str = "last"


class Tag(Processor):
    """adds a comment that tells the tag and what it saw"""

    config: TagConfig = Field(default_factory=lambda: TagConfig(type="mc.stages.Tag"))

    def run(self, gen_file, config):
        CALLS.append((self.config.tag, gen_file))
        if self.config.fail:
            raise getattr(__import__("builtins"), self.config.fail)(f"broken stage {self.config.tag}")
        return tagged(gen_file, self.config.tag, self.config.where)


def tagged(code, tag, where="last"):
    line = f"# {tag} saw {len(code)} characters in {code.count(chr(10))} lines"
    return code + "\n" + line + "\n" if where == "last" else line + "\n" + code


class MarkConfig(ParserConfig):
    tag: str = "P"
    fail: str = ""


class Mark(Parser):
    """adds an assignment that tells how many statements it saw"""

    config: MarkConfig = Field(default_factory=lambda: MarkConfig(type="mc.stages.Mark"))

    def parse_ast(self, asts: List[ast.AST]) -> List[ast.AST]:
        CALLS.append((self.config.tag, [type(a).__name__ for a in asts]))
        if self.config.fail:
            raise getattr(__import__("builtins"), self.config.fail)(f"broken parser {self.config.tag}")
        return list(asts) + [ast.Assign(targets=[ast.Name(id=f"MARK_{self.config.tag}", ctx=ast.Store())], value=ast.Constant(value=len(asts)), lineno=0)]
