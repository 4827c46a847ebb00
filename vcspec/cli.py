"""contracts of turms.cli: a run over several projects"""
import click

import turms.cli.main as M
from vf.core import *
from vf.fakes import FakeTree, FakeView
from vf.spec import Stub, external
from vf.verify import unit

from . import run as R
from .common import *
from .run import FILES, PROJECT, blow, Boom, expected, note, watch

P = "turms.cli.main:"


@external(M.Tree, "rich.tree.Tree", "a label and children, shown as console markup")
def x_tree(eng, *a, **k):
    return FakeTree(*a, **k)


@external(M.Group, "rich.console.Group", "shows its parts")
def x_group(eng, *a, **k):
    return FakeView(*a)


@external(M.Panel, "rich.panel.Panel", "shows its content")
def x_panel(eng, *a, **k):
    return FakeView(*a)


@external(M.Live, "rich.live.Live", "shows its content until left")
def x_live(eng, *a, **k):
    return FakeView(*a)


@unit("cli.generate_projects", P + "generate_projects", ["C10"], contracts=FILES)
def generate_projects(vc, fn):
    watch(vc)
    vc.e.ghost["faulty"] = Boom
    projects = vc.new(Map(Cls(PROJECT())), "projects")
    o = vc.run(fn, projects)
    log, asked = expected(vc, projects, None)
    vc.cover("run")
    vc.equal("every project that succeeds is written, no other", vc.log, log)
    if asked:
        vc.cover("reported")
        vc.ok("failure is reported when a failing project asks for it", not o.ok and isinstance(o.exc, click.ClickException))
    else:
        vc.cover("not reported")
        vc.ok("failure is reported only when a failing project asks for it", o.ok, repr(o.exc))


def commands(eng, *a, projects, **k):
    note(eng, "command", projects)
    return None


@unit("cli.with_projects", P + "with_projects", ["C10", "C18"], contracts=("turms.run:scan_folder_for_single_config", "turms.run:load_projects_from_configpath"))
def with_projects(vc, fn):
    watch(vc)
    path, name_ = vc.new(Opt(STR), "config"), vc.new(Opt(STR), "project")
    if path is not None:
        vc.assume(path != "")
    wrapper = fn(Stub(commands))
    o = vc.run(wrapper, config=path, project=name_)
    vc.cover("run")
    if o.ok:
        chosen = path if path else M.scan_folder_for_single_config(M.os.getcwd())
        projects = M.load_projects_from_configpath(chosen)
        if name_:
            projects = {k: v for k, v in projects.items() if k == name_}
            vc.ok("an unknown project is an error", bool(projects))
        vc.equal("the command runs once over every project, or the selected one", vc.log, [("command", projects)])
    else:
        vc.cover("rejected")
        vc.ok("failures become command line errors", isinstance(o.exc, click.ClickException))
        vc.equal("nothing runs then", vc.log, [])
