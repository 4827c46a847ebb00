"""contracts of the processors"""
import os
import subprocess

import libcst as cst
import turms.processors.black as black_mod
import turms.processors.command as command_mod
import turms.processors.disclaimer as disclaimer_mod
import turms.processors.isort as isort_mod
import turms.processors.merge as M
import turms.processors.ruff as ruff_mod
from vf.core import *
from vf.domains import domain
from vf.spec import external, method
from vf.verify import unit

from .common import *
from .run import watch

MP = "turms.processors.merge:"


# ---------------------------------------------------------------- external tools
class Finished:
    """what a subprocess leaves"""

    def __init__(self, returncode, stdout, stderr):
        self.returncode, self.stdout, self.stderr = returncode, stdout, stderr


@external(subprocess.run, "subprocess.run", "the exit code and output of the command: a function of command and input")
def x_run(eng, args, input=None, capture_output=False, text=None, **k):
    vc = eng.ghost["vc"]
    vc.ok("output is captured as text, nothing else is asked of the command", capture_output is True and text is True and not k)
    eng.ghost["ran"] = (args, input)
    x = (args, input)
    return Finished(pure(eng, "exit_code", INT, *x), pure(eng, "stdout", STR, *x), pure(eng, "stderr", STR, *x))


import black
import isort
import shlex


@external(black.format_str, "black.format_str", "the formatted text, a function of the text and the mode")
def x_black(eng, text, mode=None):
    eng.ghost["mode"] = mode
    return pure(eng, "black", STR, text)


@external(isort.code, "isort.code", "the text with its imports sorted")
def x_isort(eng, text):
    return pure(eng, "isort", STR, text)


@external(shlex.split, "shlex.split", "the arguments of a command line")
def x_split(eng, text):
    return pure(eng, "arguments", Seq(STR), text)


domain("DisclaimerProcessor", [disclaimer_mod.DisclaimerProcessor], {"*": {"config": Cls("DisclaimerConfig")}})
domain("DisclaimerConfig", [disclaimer_mod.DisclaimerProcessorConfig], {"*": {"disclaimer": STR}})
domain("BlackProcessor", [black_mod.BlackProcessor], {"*": {}})
domain("IsortProcessor", [isort_mod.IsortProcessor], {"*": {}})
domain("RuffProcessor", [ruff_mod.RuffProcessor], {"*": {"config": Cls("RuffConfig")}})
domain("RuffConfig", [ruff_mod.RuffProcessorConfig], {"*": {"format": BOOL, "fix": BOOL}})
domain("CommandProcessor", [command_mod.CommandProcessor], {"*": {"config": Cls("CommandConfig")}})
domain("ListedProcessor", [command_mod.CommandProcessor], {"*": {"config": Cls("ListedConfig")}})
domain("CommandConfig", [command_mod.CommandProcessorConfig], {"*": {"command": STR}})
domain("ListedConfig", [command_mod.CommandProcessorConfig], {"*": {"command": Seq(STR)}})


@unit("processors.disclaimer", "turms.processors.disclaimer:DisclaimerProcessor.run", ["C09"])
def disclaimer(vc, fn):
    self, code = vc.obj("DisclaimerProcessor", "self"), vc.new(STR, "code")
    o = vc.run(fn, self, code, config(vc))
    if vc.returns(o):
        vc.cover("prepended")
        vc.equal("the code follows the disclaimer unchanged", o.value, self.config.disclaimer + "\n" + code)


@unit("processors.black", "turms.processors.black:BlackProcessor.run", ["C09"])
def black_run(vc, fn):
    code = vc.new(STR, "code")
    o = vc.run(fn, vc.obj("BlackProcessor", "self"), code, config(vc))
    if vc.returns(o):
        vc.cover("formatted")
        vc.equal("what black makes of exactly this code", o.value, pure(vc.e, "black", STR, code))


@unit("processors.isort", "turms.processors.isort:IsortProcessor.run", ["C09"])
def isort_run(vc, fn):
    code = vc.new(STR, "code")
    o = vc.run(fn, vc.obj("IsortProcessor", "self"), code, config(vc))
    if vc.returns(o):
        vc.cover("sorted")
        vc.equal("what isort makes of exactly this code", o.value, pure(vc.e, "isort", STR, code))


def command_unit(kind):
    @unit(f"processors.command[{kind}]", "turms.processors.command:CommandProcessor.run", ["C09"])
    def command(vc, fn):
        watch(vc)
        self, code = vc.obj("CommandProcessor" if kind == "text" else "ListedProcessor", "self"), vc.new(STR, "code")
        o = vc.run(fn, self, code, config(vc))
        args = self.config.command
        if kind == "text":
            args = pure(vc.e, "arguments", Seq(STR), args)
        x = (args, code)
        ran = vc.e.ghost["ran"]
        vc.equal("the configured command runs", ran[0], args)
        vc.equal("the command gets exactly this code", ran[1], code)
        if pure(vc.e, "exit_code", INT, *x) != 0:
            vc.cover("failed")
            vc.ok("a failing command is an error", not o.ok and isinstance(o.exc, RuntimeError))
        elif vc.returns(o):
            vc.cover("worked")
            vc.equal("what the command printed", o.value, pure(vc.e, "stdout", STR, *x))


command_unit("text")
command_unit("list")


@contract("turms.processors.ruff:RuffProcessor._run_ruff", proved_by="processors.ruff_call")
def c_ruff(eng, fn, self, args, gen_file):
    x = (args, gen_file)
    if eng.fork(zbool(pure(eng, "ruff_fails", BOOL, *x))):
        raise RuntimeError("ruff failed")
    return pure(eng, "ruff", STR, *x)


@unit("processors.ruff_call", "turms.processors.ruff:RuffProcessor._run_ruff", ["C09"])
def ruff_call(vc, fn):
    watch(vc)
    self, code = vc.obj("RuffProcessor", "self"), vc.new(STR, "code")
    args = ["check", "--fix"]
    o = vc.run(fn, self, args, code)
    ran = vc.e.ghost["ran"]
    vc.equal("ruff gets exactly this code", ran[1], code)
    vc.equal("ruff runs with the given arguments on its standard input", ran[0][1:], ["-m", "ruff", "check", "--fix", "-"])
    x = (ran[0], code)
    if pure(vc.e, "exit_code", INT, *x) != 0:
        vc.cover("failed")
        vc.ok("a failing ruff is an error", not o.ok and isinstance(o.exc, RuntimeError))
    elif vc.returns(o):
        vc.cover("worked")
        vc.equal("what ruff printed", o.value, pure(vc.e, "stdout", STR, *x))


@unit("processors.ruff", "turms.processors.ruff:RuffProcessor.run", ["C09"], contracts=("turms.processors.ruff:RuffProcessor._run_ruff",))
def ruff(vc, fn):
    self, code = vc.obj("RuffProcessor", "self"), vc.new(STR, "code")
    o = vc.run(fn, self, code, config(vc))
    want = code
    try:
        if self.config.fix:
            want = c_ruff(vc.e, None, self, ["check", "--fix", "--quiet", "--stdin-filename", "generated.py"], want)
        if self.config.format:
            want = c_ruff(vc.e, None, self, ["format", "--quiet", "--stdin-filename", "generated.py"], want)
    except RuntimeError:
        vc.cover("failed")
        vc.ok("a failing ruff is an error", not o.ok)
        return
    if vc.returns(o):
        vc.cover("worked")
        vc.equal("fixed, then formatted, as configured", o.value, want)


# ---------------------------------------------------------------- merging
def changed(eng, self, **k):
    assert len(k) == 1
    (n, v), = k.items()
    return pure(eng, "with_" + n, Cls(self.dom), self, v)


domain("CstFunction", [cst.FunctionDef], {"*": {"body": Cls("any"), "with_changes": method(changed)}})
domain("CstLine", [cst.SimpleStatementLine], {"*": {"body": Seq(Cls("CstSmall")), "with_changes": method(changed)}})
domain("CstSmall", [cst.AnnAssign, cst.Assign, cst.Expr], {"AnnAssign": {"target": Cls("CstName")}})
domain("CstName", [cst.Name], {"*": {"value": STR}})


@unit("merge.retrieve_symbol_name", MP + "retrieve_symbol_name", ["C11"])
def symbol_name(vc, fn):
    line = vc.obj("CstLine", "line")
    vc.assume(len(line.body) == 1)
    o = vc.run(fn, line)
    if vc.returns(o):
        vc.cover("named")
        s = line.body[0]
        vc.equal("the name an annotation is for, nothing for other statements", o.value, s.target.value if isinstance(s, cst.AnnAssign) else None)


@unit("merge.merge_functions", MP + "merge_functions", ["C11"])
def functions(vc, fn):
    new, old = vc.obj("CstFunction", "generated"), vc.obj("CstFunction", "existing")
    o = vc.run(fn, new, old)
    if vc.returns(o):
        vc.cover("merged")
        vc.equal("the generated signature with the body that was there", o.value, new.with_changes(body=old.body))


@unit("merge.merge_statements", MP + "merge_statements", ["C11"])
def statements(vc, fn):
    new, old = vc.obj("CstLine", "generated"), vc.obj("CstLine", "existing")
    o = vc.run(fn, new, old)
    if vc.returns(o):
        vc.cover("merged")
        vc.equal("the generated annotation in the place and with the comments of the existing one", o.value, old.with_changes(body=new.body))


@contract(MP + "merge_code", note="checked boundedly")
def c_merge(eng, fn, old_code, new_code, cfg):
    return pure(eng, "merged", STR, old_code, new_code)


@external(os.path.exists, "os.path.exists", "a fact about the file system at that moment")
def x_exists(eng, path):
    return pure(eng, "exists_", BOOL, path)


domain("MergeProcessor", [M.MergeProcessor], {"*": {"config": Cls("any")}})


@unit("merge.run", MP + "MergeProcessor.run", ["C11", "C09"], contracts=(MP + "merge_code",))
def merge_run(vc, fn):
    watch(vc)
    cfg, code = config(vc), vc.new(STR, "code")
    o = vc.run(fn, vc.obj("MergeProcessor", "self"), code, cfg)
    path = os.path.join(cfg.out_dir, cfg.generated_name)
    if not vc.returns(o):
        return
    if not os.path.exists(path):
        vc.cover("new")
        vc.equal("nothing to merge into: the generated code", o.value, code)
    else:
        vc.cover("merged")
        vc.equal("the generated code merged into what the file holds", o.value, M.merge_code(open(path).read(), code, None))
